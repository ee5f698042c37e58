//! C22: `Constraints` through serde.  A tiny in-memory format stands for every serde format: a map with text, byte or
//! numeric keys in any order with any fields left out, or a sequence.  Values are symbolic (Kani); natively they are read
//! from a counterexample.
use k::Constraints;
use serde::de::{self, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};

/// An error without text (texts are no part of the claim).
#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}

pub const FLAGS: [&str; 6] = ["position_x", "position_y", "position_z", "rotation_x", "rotation_y", "rotation_z"];
pub const NAMES: &str = "ignored_joint_names";

pub fn flag(c: &Constraints, i: usize) -> bool {
    [c.position_x, c.position_y, c.position_z, c.rotation_x, c.rotation_y, c.rotation_z][i]
}

/// What a format holds: fields in the order they are written; field 6 is the list of names.
#[derive(Clone)]
pub struct Doc {
    pub order: [usize; 7],
    pub present: [bool; 7],
    pub flags: [bool; 6],
    pub names: Vec<String>,
    /// 0: text keys, 1: byte keys, 2: numeric keys
    pub keys: u8,
}

struct Value<'a>(&'a Doc, usize);
impl<'de, 'a> Deserializer<'de> for Value<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.1 < 6 {
            v.visit_bool(self.0.flags[self.1])
        } else {
            v.visit_seq(Names(&self.0.names, 0))
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Names<'a>(&'a [String], usize);
impl<'de, 'a> SeqAccess<'de> for Names<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 == self.0.len() {
            return Ok(None);
        }
        self.1 += 1;
        let x: de::value::StrDeserializer<'_, E> = self.0[self.1 - 1].as_str().into_deserializer();
        s.deserialize(x).map(Some)
    }
}
struct Key(usize, u8);
impl<'de> Deserializer<'de> for Key {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = if self.0 < 6 { FLAGS[self.0] } else { NAMES };
        match self.1 {
            0 => v.visit_str(n),
            1 => v.visit_bytes(n.as_bytes()),
            _ => v.visit_u64(self.0 as u64),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Fields<'a>(&'a Doc, usize);
impl<'de, 'a> MapAccess<'de> for Fields<'a> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        while self.1 < 7 && !self.0.present[self.0.order[self.1]] {
            self.1 += 1;
        }
        if self.1 == 7 {
            return Ok(None);
        }
        s.deserialize(Key(self.0.order[self.1], self.0.keys)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        self.1 += 1;
        s.deserialize(Value(self.0, self.0.order[self.1 - 1]))
    }
}
impl<'de> Deserializer<'de> for &Doc {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_map(Fields(self, 0))
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// The same values without keys.
pub struct Row<'a>(pub &'a Doc, pub usize, pub usize);
impl<'de, 'a> SeqAccess<'de> for Row<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 == self.2 {
            return Ok(None);
        }
        self.1 += 1;
        s.deserialize(Value(self.0, self.1 - 1)).map(Some)
    }
}
impl<'de, 'a> Deserializer<'de> for Row<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_seq(self)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// Writes constraints into a document.
pub struct Writer {
    pub doc: Doc,
    pub n: usize,
    pub seen: [bool; 7],
    pub bad: bool,
}
pub struct Flag(Option<bool>, Vec<String>);
type R<T> = Result<T, E>;
fn no<T>() -> R<T> {
    Err(E)
}
struct Scalar;
impl ser::Serializer for Scalar {
    type Ok = Flag;
    type Error = E;
    type SerializeSeq = List;
    type SerializeTuple = ser::Impossible<Flag, E>;
    type SerializeTupleStruct = ser::Impossible<Flag, E>;
    type SerializeTupleVariant = ser::Impossible<Flag, E>;
    type SerializeMap = ser::Impossible<Flag, E>;
    type SerializeStruct = ser::Impossible<Flag, E>;
    type SerializeStructVariant = ser::Impossible<Flag, E>;
    fn serialize_bool(self, v: bool) -> R<Flag> {
        Ok(Flag(Some(v), vec![]))
    }
    fn serialize_str(self, v: &str) -> R<Flag> {
        Ok(Flag(None, vec![v.to_string()]))
    }
    fn serialize_seq(self, _n: Option<usize>) -> R<List> {
        Ok(List(vec![]))
    }
    fn serialize_i8(self, _: i8) -> R<Flag> { no() }
    fn serialize_i16(self, _: i16) -> R<Flag> { no() }
    fn serialize_i32(self, _: i32) -> R<Flag> { no() }
    fn serialize_i64(self, _: i64) -> R<Flag> { no() }
    fn serialize_u8(self, _: u8) -> R<Flag> { no() }
    fn serialize_u16(self, _: u16) -> R<Flag> { no() }
    fn serialize_u32(self, _: u32) -> R<Flag> { no() }
    fn serialize_u64(self, _: u64) -> R<Flag> { no() }
    fn serialize_f32(self, _: f32) -> R<Flag> { no() }
    fn serialize_f64(self, _: f64) -> R<Flag> { no() }
    fn serialize_char(self, _: char) -> R<Flag> { no() }
    fn serialize_bytes(self, _: &[u8]) -> R<Flag> { no() }
    fn serialize_none(self) -> R<Flag> { no() }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> R<Flag> { no() }
    fn serialize_unit(self) -> R<Flag> { no() }
    fn serialize_unit_struct(self, _: &'static str) -> R<Flag> { no() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R<Flag> { no() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> R<Flag> { no() }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R<Flag> { no() }
    fn serialize_tuple(self, _: usize) -> R<Self::SerializeTuple> { no() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self::SerializeTupleStruct> { no() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeTupleVariant> { no() }
    fn serialize_map(self, _: Option<usize>) -> R<Self::SerializeMap> { no() }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Self::SerializeStruct> { no() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeStructVariant> { no() }
}
struct List(Vec<String>);
impl ser::SerializeSeq for List {
    type Ok = Flag;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        self.0.extend(v.serialize(Scalar)?.1);
        Ok(())
    }
    fn end(self) -> R<Flag> {
        Ok(Flag(None, self.0))
    }
}
impl ser::SerializeStruct for Writer {
    type Ok = Writer;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> R<()> {
        let mut i = 0;
        while i < 7 && key != (if i < 6 { FLAGS[i] } else { NAMES }) {
            i += 1;
        }
        if i == 7 || self.seen[i] || self.n == 7 {
            self.bad = true;
            return Ok(());
        }
        let x = v.serialize(Scalar)?;
        self.seen[i] = true;
        self.doc.present[i] = true;
        self.doc.order[self.n] = i;
        self.n += 1;
        if i < 6 {
            match x.0 {
                Some(b) => self.doc.flags[i] = b,
                None => self.bad = true,
            }
        } else {
            self.doc.names = x.1;
        }
        Ok(())
    }
    fn end(self) -> R<Writer> {
        Ok(self)
    }
}
pub struct Top;
impl ser::Serializer for Top {
    type Ok = Writer;
    type Error = E;
    type SerializeSeq = ser::Impossible<Writer, E>;
    type SerializeTuple = ser::Impossible<Writer, E>;
    type SerializeTupleStruct = ser::Impossible<Writer, E>;
    type SerializeTupleVariant = ser::Impossible<Writer, E>;
    type SerializeMap = ser::Impossible<Writer, E>;
    type SerializeStruct = Writer;
    type SerializeStructVariant = ser::Impossible<Writer, E>;
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Writer> {
        let doc = Doc { order: [0, 1, 2, 3, 4, 5, 6], present: [false; 7], flags: [false; 6], names: vec![], keys: 0 };
        Ok(Writer { doc, n: 0, seen: [false; 7], bad: false })
    }
    fn serialize_bool(self, _: bool) -> R<Writer> { no() }
    fn serialize_i8(self, _: i8) -> R<Writer> { no() }
    fn serialize_i16(self, _: i16) -> R<Writer> { no() }
    fn serialize_i32(self, _: i32) -> R<Writer> { no() }
    fn serialize_i64(self, _: i64) -> R<Writer> { no() }
    fn serialize_u8(self, _: u8) -> R<Writer> { no() }
    fn serialize_u16(self, _: u16) -> R<Writer> { no() }
    fn serialize_u32(self, _: u32) -> R<Writer> { no() }
    fn serialize_u64(self, _: u64) -> R<Writer> { no() }
    fn serialize_f32(self, _: f32) -> R<Writer> { no() }
    fn serialize_f64(self, _: f64) -> R<Writer> { no() }
    fn serialize_char(self, _: char) -> R<Writer> { no() }
    fn serialize_str(self, _: &str) -> R<Writer> { no() }
    fn serialize_bytes(self, _: &[u8]) -> R<Writer> { no() }
    fn serialize_none(self) -> R<Writer> { no() }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> R<Writer> { no() }
    fn serialize_unit(self) -> R<Writer> { no() }
    fn serialize_unit_struct(self, _: &'static str) -> R<Writer> { no() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R<Writer> { no() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> R<Writer> { no() }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R<Writer> { no() }
    fn serialize_seq(self, _: Option<usize>) -> R<Self::SerializeSeq> { no() }
    fn serialize_tuple(self, _: usize) -> R<Self::SerializeTuple> { no() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self::SerializeTupleStruct> { no() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeTupleVariant> { no() }
    fn serialize_map(self, _: Option<usize>) -> R<Self::SerializeMap> { no() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeStructVariant> { no() }
}

/// Where the values come from: the solver, or a counterexample.
pub trait Source {
    fn byte(&mut self) -> u8;
    fn bool(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    fn assume(&mut self, c: bool);
    fn check(&mut self, what: &'static str, c: bool);
}

/// `n` names of one ASCII character each.
fn names<S: Source>(s: &mut S, n: usize) -> Vec<String> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let a = s.byte();
        s.assume(a < 128);
        // ASCII is UTF-8
        v.push(unsafe { String::from_utf8_unchecked(vec![a]) });
    }
    v
}
fn same(a: &[String], b: &[String]) -> bool {
    // the names are of one character
    let one = |i: usize| a[i].len() == 1 && b[i].len() == 1 && a[i].as_bytes()[0] == b[i].as_bytes()[0];
    match b.len() {
        0 => a.len() == 0,
        1 => a.len() == 1 && one(0),
        _ => b.len() == 2 && a.len() == 2 && one(0) && one(1),
    }
}
fn agrees<S: Source>(s: &mut S, d: &Doc, r: Result<Constraints, E>) {
    match r {
        Ok(c) => {
            for i in 0..6 {
                s.check("a flag of the input is read, a missing one is true", flag(&c, i) == (!d.present[i] || d.flags[i]));
            }
            let empty: Vec<String> = vec![];
            s.check("the names of the input are read, missing ones are none", same(&c.ignored_joint_names, if d.present[6] { &d.names } else { &empty }));
            std::mem::forget(c);
        }
        Err(_) => s.check("any subset of the fields can be read", false),
    }
}
fn doc<S: Source>(s: &mut S) -> Doc {
    let mut d = Doc { order: [0, 1, 2, 3, 4, 5, 6], present: [false; 7], flags: [false; 6], names: vec![], keys: 0 };
    for i in 0..7 {
        d.present[i] = s.bool();
    }
    for i in 0..6 {
        d.flags[i] = s.bool();
    }
    d
}
/// Any subset of the fields, in the given order.
pub fn missing<S: Source>(s: &mut S, keys: u8, order: [usize; 7], named: bool) {
    let mut d = doc(s);
    d.keys = keys;
    d.order = order;
    d.present[6] = named;
    d.names = names(s, named as usize);
    let r = <Constraints as serde::Deserialize>::deserialize(&d);
    agrees(s, &d, r);
    std::mem::forget(d);
}
/// A row without keys that ends early.
pub fn row<S: Source>(s: &mut S, n: usize) {
    let mut d = doc(s);
    for i in 0..7 {
        d.present[i] = i < n;
    }
    if n == 7 {
        d.names = names(s, 2);
    }
    let r = <Constraints as serde::Deserialize>::deserialize(Row(&d, 0, n));
    agrees(s, &d, r);
    std::mem::forget(d);
}
/// Written and read back.
pub fn round<S: Source>(s: &mut S, n: usize) {
    let d = doc(s);
    let c = Constraints {
        position_x: d.flags[0], position_y: d.flags[1], position_z: d.flags[2], rotation_x: d.flags[3], rotation_y: d.flags[4],
        rotation_z: d.flags[5], ignored_joint_names: names(s, n),
    };
    match c.serialize(Top) {
        Ok(w) => {
            s.check("only the documented fields are written, once each", !w.bad);
            let (by_key, by_row) = (<Constraints as serde::Deserialize>::deserialize(&w.doc), <Constraints as serde::Deserialize>::deserialize(Row(&w.doc, 0, w.n)));
            match by_key {
                Ok(b) => {
                    for i in 0..6 {
                        s.check("flags survive", flag(&b, i) == flag(&c, i));
                    }
                    s.check("names survive", same(&b.ignored_joint_names, &c.ignored_joint_names));
                    std::mem::forget(b);
                }
                Err(_) => s.check("what was written can be read", false),
            }
            match by_row {
                Ok(b) => {
                    for i in 0..6 {
                        s.check("flags survive without keys", flag(&b, i) == flag(&c, i));
                    }
                    s.check("names survive without keys", same(&b.ignored_joint_names, &c.ignored_joint_names));
                    std::mem::forget(b);
                }
                Err(_) => s.check("what was written can be read without keys", false),
            }
        }
        Err(_) => s.check("constraints can be written", false),
    }
}
/// `Constraints::default()` constrains everything and ignores nothing.
pub fn default_is_all<S: Source>(s: &mut S) {
    let c = Constraints::default();
    let i = s.byte() as usize;
    s.assume(i < 6);
    s.check("the default constrains everything", flag(&c, i));
    s.check("the default ignores nothing", c.ignored_joint_names.is_empty());
}

macro_rules! harnesses {
    ($($name:ident $body:expr;)*) => {
        /// A harness by name, with values from anywhere.
        pub fn run<S: Source>(s: &mut S, name: &str) -> bool {
            $(if name == stringify!($name) {
                let f: fn(&mut S) = $body;
                f(s);
                return true;
            })*
            false
        }
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $(#[kani::proof]
            #[kani::unwind(9)]
            fn $name() {
                let f: fn(&mut Solver) = $body;
                f(&mut Solver)
            })*
        }
    };
}
#[cfg(kani)]
struct Solver;
#[cfg(kani)]
impl Source for Solver {
    fn byte(&mut self) -> u8 {
        kani::any()
    }
    fn assume(&mut self, c: bool) {
        kani::assume(c)
    }
    fn check(&mut self, _what: &'static str, c: bool) {
        assert!(c);
    }
}
harnesses! {
    missing_text_forward_named |s| missing(s, 0, [0, 1, 2, 3, 4, 5, 6], true);
    missing_text_forward_unnamed |s| missing(s, 0, [0, 1, 2, 3, 4, 5, 6], false);
    missing_text_backward_named |s| missing(s, 0, [6, 5, 4, 3, 2, 1, 0], true);
    missing_text_backward_unnamed |s| missing(s, 0, [6, 5, 4, 3, 2, 1, 0], false);
    missing_text_mixed_named |s| missing(s, 0, [3, 6, 1, 5, 0, 2, 4], true);
    missing_text_mixed_unnamed |s| missing(s, 0, [3, 6, 1, 5, 0, 2, 4], false);
    missing_bytes_forward_named |s| missing(s, 1, [0, 1, 2, 3, 4, 5, 6], true);
    missing_bytes_forward_unnamed |s| missing(s, 1, [0, 1, 2, 3, 4, 5, 6], false);
    missing_bytes_backward_named |s| missing(s, 1, [6, 5, 4, 3, 2, 1, 0], true);
    missing_bytes_backward_unnamed |s| missing(s, 1, [6, 5, 4, 3, 2, 1, 0], false);
    missing_bytes_mixed_named |s| missing(s, 1, [3, 6, 1, 5, 0, 2, 4], true);
    missing_bytes_mixed_unnamed |s| missing(s, 1, [3, 6, 1, 5, 0, 2, 4], false);
    missing_numbers_forward_named |s| missing(s, 2, [0, 1, 2, 3, 4, 5, 6], true);
    missing_numbers_forward_unnamed |s| missing(s, 2, [0, 1, 2, 3, 4, 5, 6], false);
    missing_numbers_backward_named |s| missing(s, 2, [6, 5, 4, 3, 2, 1, 0], true);
    missing_numbers_backward_unnamed |s| missing(s, 2, [6, 5, 4, 3, 2, 1, 0], false);
    missing_numbers_mixed_named |s| missing(s, 2, [3, 6, 1, 5, 0, 2, 4], true);
    missing_numbers_mixed_unnamed |s| missing(s, 2, [3, 6, 1, 5, 0, 2, 4], false);
    row_0 |s| row(s, 0);
    row_1 |s| row(s, 1);
    row_2 |s| row(s, 2);
    row_3 |s| row(s, 3);
    row_4 |s| row(s, 4);
    row_5 |s| row(s, 5);
    row_6 |s| row(s, 6);
    row_7 |s| row(s, 7);
    round_0 |s| round(s, 0);
    round_1 |s| round(s, 1);
    round_2 |s| round(s, 2);
    defaults |s| default_is_all(s);
}
