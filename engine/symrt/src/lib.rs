//! Runtime of the IR-level symbolic executor.
//!
//! The harness crate, `k`, nalgebra, simba, ... are compiled by rustc to LLVM IR; `irsym.py` rewrites every
//! floating-point instruction of that IR into a call to one of the `sym_*` functions below and links the
//! result.  A symbolic float is carried in an ordinary register / memory cell as a NaN-boxed term id, so all
//! data movement of the program under test runs natively and only float arithmetic, float comparisons and
//! explicit `choose`s are symbolic.  Every comparison on a non-constant term is a branch whose outcome is
//! decided by the explorer process (explore.py) on the other end of the pipe; the explorer asks an SMT solver.
//!
//! The same crate, linked without the rewrite, is the native replay runtime: inputs come from a model file and
//! nothing is intercepted.
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::io::{BufRead, BufWriter, Read, Write};

pub mod api;
pub use api::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Term {
    pub op: Op,
    pub w: u8, // 64, 32 (float width) or 1 (bool)
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}

macro_rules! ops { ($($n:ident),*) => {
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    #[allow(clippy::upper_case_acronyms)]
    pub enum Op { $($n),* }
    impl Op { pub fn name(self) -> &'static str { match self { $(Op::$n => stringify!($n)),* } } }
} }
ops!(
    Var, Const, Rat, Add, Sub, Mul, Div, Rem, Neg, Abs, Sqrt, Sin, Cos, Tan, Asin, Acos, Atan, Atan2, Sinh, Cosh,
    Tanh, Exp, Exp2, Expm1, Ln, Log2, Log10, Log1p, Pow, Cbrt, Hypot, Fma, MinNum, MaxNum, Minimum, Maximum, Copysign,
    Floor, Ceil, Trunc, Round, RoundEven, To32, To64, Lt, Le, Eq, Uno, One, IsClass
);

pub const NO: u32 = u32::MAX;
const TAG64: u64 = 0x7FFD_A500_0000_0000;
const TAG64_MASK: u64 = 0xFFFF_FF00_0000_0000;
const TAG32: u32 = 0x7FE0_0000;
const TAG32_MASK: u32 = 0xFFE0_0000;

#[inline]
pub fn tag64(x: f64) -> Option<u32> {
    let b = x.to_bits();
    if b & TAG64_MASK == TAG64 {
        Some((b & 0xFFFF_FFFF) as u32)
    } else {
        None
    }
}
#[inline]
pub fn tag32(x: f32) -> Option<u32> {
    let b = x.to_bits();
    if b & TAG32_MASK == TAG32 {
        Some(b & 0x1F_FFFF)
    } else {
        None
    }
}
fn mk64(id: u32) -> f64 {
    f64::from_bits(TAG64 | id as u64)
}
fn mk32(id: u32) -> f32 {
    assert!(id < 0x1F_FFFF, "symrt: too many terms for f32 tags");
    f32::from_bits(TAG32 | id)
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Mode {
    Real,
    Fp,
    Native,
}

pub struct Ctx {
    pub mode: Mode,
    pub terms: Vec<Term>,
    cons: HashMap<Term, u32>,
    names: HashMap<String, u32>,
    name_list: Vec<String>,
    sent: usize,
    decided: HashMap<u32, bool>,
    out: Option<BufWriter<Box<dyn Write>>>,
    inp: Option<std::io::BufReader<Box<dyn Read>>>,
    pub seen_fn: Vec<bool>,
    seen_pending: Vec<u32>,
    // native
    pub model: HashMap<String, String>,
    pub nat_lines: Vec<String>,
    pub failed: Vec<String>,
    // shadow: evaluate every branch with native arithmetic on the model (used to validate the rewriting)
    pub shadow: bool,
    shadow_val: HashMap<u32, f64>,
    pub replica: f64,
    pub branch_count: u64,
    shadow_real: bool,
    pub lock_log: Vec<(u8, usize)>,
    pub lock_on: bool,
    /// pre-emption: before the `pre_at`-th lock of the recorded operation `pre_hook` runs
    pub pre_at: usize,
    pub pre_hook: Option<Box<dyn FnOnce()>>,
    pub pre_held: Vec<usize>,
}

struct G(UnsafeCell<Option<Ctx>>);
unsafe impl Sync for G {}
static CTX: G = G(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
#[inline(never)]
pub fn cx() -> &'static mut Ctx {
    unsafe { (*CTX.0.get()).get_or_insert_with(Ctx::new) }
}

pub struct Abort(pub &'static str);

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            mode: Mode::Native,
            terms: vec![],
            cons: HashMap::new(),
            names: HashMap::new(),
            name_list: vec![],
            sent: 0,
            decided: HashMap::new(),
            out: None,
            inp: None,
            seen_fn: vec![],
            seen_pending: vec![],
            model: HashMap::new(),
            nat_lines: vec![],
            failed: vec![],
            shadow: false,
            shadow_val: HashMap::new(),
            replica: 0.0,
            branch_count: 0,
            shadow_real: false,
            lock_log: vec![],
            lock_on: false,
            pre_at: usize::MAX,
            pre_hook: None,
            pre_held: vec![],
        }
    }
    fn name_id(&mut self, s: &str) -> u32 {
        if let Some(i) = self.names.get(s) {
            return *i;
        }
        let i = self.name_list.len() as u32;
        self.name_list.push(s.to_string());
        self.names.insert(s.to_string(), i);
        i
    }
    pub fn intern(&mut self, t: Term) -> u32 {
        if let Some(i) = self.cons.get(&t) {
            return *i;
        }
        let i = self.terms.len() as u32;
        self.terms.push(t);
        self.cons.insert(t, i);
        i
    }
    pub fn send_terms(&mut self) {
        let out = match self.out.as_mut() {
            Some(o) => o,
            None => return,
        };
        for i in self.sent..self.terms.len() {
            let t = self.terms[i];
            match t.op {
                Op::Var => writeln!(out, "T {} Var {} {} {}", i, t.w, t.b, self.name_list[t.a as usize]).unwrap(),
                Op::Const => writeln!(out, "T {} Const {} {}", i, t.w, t.k).unwrap(),
                Op::Rat => writeln!(out, "T {} Rat {} {} {}", i, t.w, t.a as i32, t.b as i32).unwrap(),
                Op::IsClass => writeln!(out, "T {} IsClass {} {} {}", i, t.w, t.a, t.k).unwrap(),
                _ => {
                    write!(out, "T {} {} {} {}", i, t.op.name(), t.w, t.a).unwrap();
                    if t.b != NO {
                        write!(out, " {}", t.b).unwrap();
                    }
                    if t.c != NO {
                        write!(out, " {}", t.c).unwrap();
                    }
                    writeln!(out).unwrap();
                }
            }
        }
        self.sent = self.terms.len();
        for id in self.seen_pending.drain(..) {
            writeln!(out, "F {}", id).unwrap();
        }
    }
    pub fn say(&mut self, line: &str) {
        if self.mode == Mode::Native {
            self.nat_lines.push(line.to_string());
            return;
        }
        self.send_terms();
        if let Some(o) = self.out.as_mut() {
            writeln!(o, "{}", line).unwrap();
        }
    }
    pub fn ask(&mut self, line: &str) -> String {
        self.send_terms();
        let o = self.out.as_mut().unwrap();
        writeln!(o, "{}", line).unwrap();
        o.flush().unwrap();
        let mut s = String::new();
        let n = self.inp.as_mut().unwrap().read_line(&mut s).unwrap();
        if n == 0 {
            std::process::exit(3);
        }
        s.trim().to_string()
    }
    pub fn begin_path(&mut self) {
        self.decided.clear();
        self.lock_log.clear();
        self.lock_on = false;
        self.pre_at = usize::MAX;
        self.pre_hook = None;
        self.pre_held.clear();
    }
    pub fn is_const(&self, id: u32) -> bool {
        self.terms[id as usize].op == Op::Const
    }
    pub fn id64(&mut self, x: f64) -> u32 {
        match tag64(x) {
            Some(i) => i,
            None => self.konst(64, x.to_bits()),
        }
    }
    pub fn id32(&mut self, x: f32) -> u32 {
        match tag32(x) {
            Some(i) => i,
            None => self.konst(32, x.to_bits() as u64),
        }
    }
    fn konst(&mut self, w: u8, bits: u64) -> u32 {
        // in real mode f32 and f64 constants share one sort
        let (w, bits) = if self.mode == Mode::Real && w == 32 {
            (64, (f32::from_bits(bits as u32) as f64).to_bits())
        } else {
            (w, bits)
        };
        self.intern(Term { op: Op::Const, w, a: NO, b: NO, c: NO, k: bits })
    }
    pub fn cval(&self, id: u32) -> Option<f64> {
        let t = self.terms[id as usize];
        if t.op == Op::Const {
            Some(if t.w == 32 { f32::from_bits(t.k as u32) as f64 } else { f64::from_bits(t.k) })
        } else {
            None
        }
    }
    pub fn mk(&mut self, op: Op, w: u8, a: u32, b: u32, c: u32) -> u32 {
        let real = self.mode == Mode::Real;
        let w = if real && w != 1 { 64 } else { w };
        let (mut a, mut b) = (a, b);
        if real {
            let ca = self.cval(a);
            let cb = if b != NO { self.cval(b) } else { None };
            match op {
                Op::To32 | Op::To64 => return a,
                Op::Add => {
                    if ca == Some(0.0) {
                        return b;
                    }
                    if cb == Some(0.0) {
                        return a;
                    }
                }
                Op::Sub => {
                    if cb == Some(0.0) {
                        return a;
                    }
                    if a == b {
                        return self.konst(64, 0);
                    }
                }
                Op::Mul => {
                    if ca == Some(0.0) || cb == Some(0.0) {
                        return self.konst(64, 0);
                    }
                    if ca == Some(1.0) {
                        return b;
                    }
                    if cb == Some(1.0) {
                        return a;
                    }
                }
                Op::Div => {
                    if cb == Some(1.0) {
                        return a;
                    }
                    if ca == Some(0.0) {
                        return self.konst(64, 0);
                    }
                }
                Op::Neg => {
                    if let Some(x) = ca {
                        return self.konst(64, (-x).to_bits());
                    }
                }
                _ => {}
            }
        }
        if op == Op::Neg {
            let t = self.terms[a as usize];
            if t.op == Op::Neg {
                return t.a;
            }
        }
        if matches!(op, Op::Add | Op::Mul | Op::Eq | Op::Uno | Op::One | Op::Hypot) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.intern(Term { op, w, a, b, c, k: 0 })
    }
    /// Decide a boolean term.
    pub fn decide(&mut self, id: u32) -> bool {
        if let Some(v) = self.decided.get(&id) {
            return *v;
        }
        let v = if self.shadow {
            self.eval_bool(id)
        } else {
            let r = self.ask(&format!("B {}", id));
            match r.as_str() {
                "1" => true,
                "0" => false,
                _ => std::panic::panic_any(Abort("explorer cut the path")),
            }
        };
        self.branch_count += 1;
        self.decided.insert(id, v);
        v
    }
    // ---- shadow evaluation: native arithmetic over the recorded terms
    pub fn set_shadow(&mut self, id: u32, v: f64) {
        self.shadow_val.insert(id, v);
    }
    pub fn eval(&mut self, id: u32) -> f64 {
        if let Some(v) = self.shadow_val.get(&id) {
            return *v;
        }
        let t = self.terms[id as usize];
        let arg = |s: &mut Ctx, x: u32| if x == NO { 0.0 } else { s.eval(x) };
        if t.w == 1 {
            panic!("eval of a bool term");
        }
        let v = match t.op {
            Op::Var => panic!("shadow run: no value for variable {}", self.name_list[t.a as usize]),
            Op::Const => self.cval(id).unwrap(),
            Op::Rat => (t.a as i32) as f64 / (t.b as i32) as f64,
            _ => {
                let (x, y, z) = (arg(self, t.a), arg(self, t.b), arg(self, t.c));
                if t.w == 32 && !matches!(t.op, Op::To32) {
                    native32(t.op, x as f32, y as f32, z as f32) as f64
                } else {
                    native64(t.op, x, y, z)
                }
            }
        };
        self.shadow_val.insert(id, v);
        v
    }
    fn eval_bool(&mut self, id: u32) -> bool {
        let t = self.terms[id as usize];
        let x = self.eval(t.a);
        let y = if t.b == NO { 0.0 } else { self.eval(t.b) };
        match t.op {
            Op::Lt => x < y,
            Op::Le => x <= y,
            Op::Eq => x == y,
            Op::Uno => x.is_nan() || y.is_nan(),
            Op::One => x < y || x > y,
            Op::IsClass => native_class(x, t.k as u32),
            _ => panic!("eval_bool"),
        }
    }
}

fn native_class(x: f64, mask: u32) -> bool {
    use std::num::FpCategory::*;
    let neg = x.is_sign_negative();
    let bit = match (x.classify(), neg) {
        (Nan, _) => {
            if (x.to_bits() >> 51) & 1 == 1 {
                1
            } else {
                0
            }
        }
        (Infinite, true) => 2,
        (Normal, true) => 3,
        (Subnormal, true) => 4,
        (Zero, true) => 5,
        (Zero, false) => 6,
        (Subnormal, false) => 7,
        (Normal, false) => 8,
        (Infinite, false) => 9,
    };
    mask & (1 << bit) != 0
}

macro_rules! native_fn { ($name:ident, $t:ty) => {
    pub fn $name(op: Op, x: $t, y: $t, z: $t) -> $t {
        match op {
            Op::Add => x + y, Op::Sub => x - y, Op::Mul => x * y, Op::Div => x / y, Op::Rem => x % y, Op::Neg => -x,
            Op::Abs => x.abs(), Op::Sqrt => x.sqrt(), Op::Sin => x.sin(), Op::Cos => x.cos(), Op::Tan => x.tan(),
            Op::Asin => x.asin(), Op::Acos => x.acos(), Op::Atan => x.atan(), Op::Atan2 => x.atan2(y),
            Op::Sinh => x.sinh(), Op::Cosh => x.cosh(), Op::Tanh => x.tanh(), Op::Exp => x.exp(), Op::Exp2 => x.exp2(),
            Op::Expm1 => x.exp_m1(), Op::Ln => x.ln(), Op::Log2 => x.log2(), Op::Log10 => x.log10(),
            Op::Log1p => x.ln_1p(), Op::Pow => x.powf(y), Op::Cbrt => x.cbrt(), Op::Hypot => x.hypot(y),
            Op::Fma => x.mul_add(y, z), Op::MinNum | Op::Minimum => x.min(y), Op::MaxNum | Op::Maximum => x.max(y),
            Op::Copysign => x.copysign(y), Op::Floor => x.floor(), Op::Ceil => x.ceil(), Op::Trunc => x.trunc(),
            Op::Round => x.round(), Op::RoundEven => x.round_ties_even(),
            _ => panic!("native eval of {:?}", op),
        }
    }
} }
native_fn!(native64x, f64);
native_fn!(native32, f32);
pub fn native64(op: Op, x: f64, y: f64, z: f64) -> f64 {
    match op {
        Op::To32 => (x as f32) as f64,
        Op::To64 => x,
        _ => native64x(op, x, y, z),
    }
}

// ------------------------------------------------------------------------------------------------
// entry points called from the rewritten IR
// ------------------------------------------------------------------------------------------------
#[inline(never)]
fn un64(op: Op, x: f64) -> f64 {
    match tag64(x) {
        None => native64(op, x, 0.0, 0.0),
        Some(a) => {
            let c = cx();
            let r = guard(c, op, a, NO);
            ret64(c, op, r, NO)
        }
    }
}
#[inline(never)]
fn un32(op: Op, x: f32) -> f32 {
    match tag32(x) {
        None => native32(op, x, 0.0, 0.0),
        Some(a) => {
            let c = cx();
            let r = guard(c, op, a, NO);
            ret32(c, op, r, NO)
        }
    }
}
/// Real-mode definedness: division by zero and the square root of a negative number leave the reals; such
/// inputs are cut off (and counted) rather than silently assumed away.
fn guard(c: &mut Ctx, op: Op, a: u32, b: u32) -> u32 {
    if c.mode == Mode::Real {
        match op {
            Op::Div if c.cval(b) == Some(0.0) => std::panic::panic_any(Abort("division by zero")),
            Op::Div if !c.is_const(b) => {
                let zero = c.konst(64, 0);
                let t = c.mk(Op::Eq, 1, b, zero, NO);
                if c.decide(t) {
                    std::panic::panic_any(Abort("division by zero"));
                }
            }
            Op::Sqrt if !sos(c, a) => {
                let zero = c.konst(64, 0);
                let t = c.mk(Op::Lt, 1, a, zero, NO);
                if c.decide(t) {
                    std::panic::panic_any(Abort("square root of a negative number"));
                }
            }
            _ => {}
        }
    }
    a
}
fn sos(c: &Ctx, a: u32) -> bool {
    let t = c.terms[a as usize];
    match t.op {
        Op::Mul => t.a == t.b || (sos(c, t.a) && sos(c, t.b)),
        Op::Add => sos(c, t.a) && sos(c, t.b),
        Op::Const => c.cval(a).unwrap() >= 0.0,
        Op::Sqrt | Op::Abs => true,
        _ => false,
    }
}
fn ret64(c: &mut Ctx, op: Op, a: u32, b: u32) -> f64 {
    let id = c.mk(op, 64, a, b, NO);
    back64(c, id)
}
fn back64(c: &mut Ctx, id: u32) -> f64 {
    match c.cval(id) {
        Some(v) if c.mode == Mode::Real => v,
        _ => mk64(id),
    }
}
fn ret32(c: &mut Ctx, op: Op, a: u32, b: u32) -> f32 {
    let id = c.mk(op, 32, a, b, NO);
    match c.cval(id) {
        Some(v) if c.mode == Mode::Real && (v as f32) as f64 == v => v as f32,
        _ => mk32(id),
    }
}
#[inline(never)]
fn bin64(op: Op, x: f64, y: f64) -> f64 {
    if tag64(x).is_none() && tag64(y).is_none() {
        return native64(op, x, y, 0.0);
    }
    let c = cx();
    // IEEE special constants in exact-real mode: keep the cases whose result does not depend on the symbol
    if c.mode == Mode::Real {
        for v in [x, y] {
            if tag64(v).is_none() && !v.is_finite() {
                if v.is_nan() {
                    return f64::NAN;
                }
                match op {
                    Op::Add => return v,
                    Op::Sub => return if tag64(x).is_none() { v } else { -v },
                    Op::Div if tag64(x).is_some() => return 0.0,
                    Op::MinNum | Op::Minimum => return if v > 0.0 { pick_sym(x, y) } else { v },
                    Op::MaxNum | Op::Maximum => return if v < 0.0 { pick_sym(x, y) } else { v },
                    _ => std::panic::panic_any(Abort("arithmetic on an infinite constant")),
                }
            }
        }
    }
    let a = c.id64(x);
    let b = c.id64(y);
    let a = guard(c, op, a, b);
    ret64(c, op, a, b)
}
fn pick_sym(x: f64, y: f64) -> f64 {
    if tag64(x).is_some() {
        x
    } else {
        y
    }
}
#[inline(never)]
fn bin32(op: Op, x: f32, y: f32) -> f32 {
    if tag32(x).is_none() && tag32(y).is_none() {
        return native32(op, x, y, 0.0);
    }
    let c = cx();
    if c.mode == Mode::Real {
        for v in [x, y] {
            if tag32(v).is_none() && !v.is_finite() {
                std::panic::panic_any(Abort("arithmetic on an infinite constant"));
            }
        }
    }
    let a = c.id32(x);
    let b = c.id32(y);
    let a = guard(c, op, a, b);
    ret32(c, op, a, b)
}

macro_rules! un { ($($f64n:ident $f32n:ident $op:ident),* $(,)?) => { $(
    #[no_mangle] pub extern "C-unwind" fn $f64n(x: f64) -> f64 { un64(Op::$op, x) }
    #[no_mangle] pub extern "C-unwind" fn $f32n(x: f32) -> f32 { un32(Op::$op, x) }
)* } }
macro_rules! bin { ($($f64n:ident $f32n:ident $op:ident),* $(,)?) => { $(
    #[no_mangle] pub extern "C-unwind" fn $f64n(x: f64, y: f64) -> f64 { bin64(Op::$op, x, y) }
    #[no_mangle] pub extern "C-unwind" fn $f32n(x: f32, y: f32) -> f32 { bin32(Op::$op, x, y) }
)* } }
un!(sym_fneg64 sym_fneg32 Neg, sym_fabs64 sym_fabs32 Abs, sym_sqrt64 sym_sqrt32 Sqrt, sym_sin64 sym_sin32 Sin,
    sym_cos64 sym_cos32 Cos, sym_tan64 sym_tan32 Tan, sym_asin64 sym_asin32 Asin, sym_acos64 sym_acos32 Acos,
    sym_atan64 sym_atan32 Atan, sym_sinh64 sym_sinh32 Sinh, sym_cosh64 sym_cosh32 Cosh, sym_tanh64 sym_tanh32 Tanh,
    sym_exp64 sym_exp32 Exp, sym_exp264 sym_exp232 Exp2, sym_expm164 sym_expm132 Expm1, sym_log64 sym_log32 Ln,
    sym_log264 sym_log232 Log2, sym_log1064 sym_log1032 Log10, sym_log1p64 sym_log1p32 Log1p,
    sym_cbrt64 sym_cbrt32 Cbrt, sym_floor64 sym_floor32 Floor, sym_ceil64 sym_ceil32 Ceil,
    sym_trunc64 sym_trunc32 Trunc, sym_round64 sym_round32 Round, sym_roundeven64 sym_roundeven32 RoundEven);
bin!(sym_fadd64 sym_fadd32 Add, sym_fsub64 sym_fsub32 Sub, sym_fmul64 sym_fmul32 Mul, sym_fdiv64 sym_fdiv32 Div,
    sym_frem64 sym_frem32 Rem, sym_atan264 sym_atan232 Atan2, sym_pow64 sym_pow32 Pow, sym_hypot64 sym_hypot32 Hypot,
    sym_minnum64 sym_minnum32 MinNum, sym_maxnum64 sym_maxnum32 MaxNum, sym_minimum64 sym_minimum32 Minimum,
    sym_maximum64 sym_maximum32 Maximum, sym_copysign64 sym_copysign32 Copysign);

#[no_mangle]
pub extern "C-unwind" fn sym_fma64(x: f64, y: f64, z: f64) -> f64 {
    if tag64(x).is_none() && tag64(y).is_none() && tag64(z).is_none() {
        return x.mul_add(y, z);
    }
    let c = cx();
    if c.mode == Mode::Real {
        return sym_fadd64(sym_fmul64(x, y), z);
    }
    let (a, b, d) = (c.id64(x), c.id64(y), c.id64(z));
    let id = c.mk(Op::Fma, 64, a, b, d);
    mk64(id)
}
#[no_mangle]
pub extern "C-unwind" fn sym_fma32(x: f32, y: f32, z: f32) -> f32 {
    if tag32(x).is_none() && tag32(y).is_none() && tag32(z).is_none() {
        return x.mul_add(y, z);
    }
    let c = cx();
    if c.mode == Mode::Real {
        return sym_fadd32(sym_fmul32(x, y), z);
    }
    let (a, b, d) = (c.id32(x), c.id32(y), c.id32(z));
    let id = c.mk(Op::Fma, 32, a, b, d);
    mk32(id)
}
#[no_mangle]
pub extern "C-unwind" fn sym_powi64(x: f64, n: i32) -> f64 {
    if tag64(x).is_none() {
        return x.powi(n);
    }
    let mut r = 1.0;
    for _ in 0..n.unsigned_abs() {
        r = sym_fmul64(r, x);
    }
    if n < 0 {
        sym_fdiv64(1.0, r)
    } else {
        r
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_powi32(x: f32, n: i32) -> f32 {
    if tag32(x).is_none() {
        return x.powi(n);
    }
    let mut r = 1.0;
    for _ in 0..n.unsigned_abs() {
        r = sym_fmul32(r, x);
    }
    if n < 0 {
        sym_fdiv32(1.0, r)
    } else {
        r
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fptrunc(x: f64) -> f32 {
    match tag64(x) {
        None => x as f32,
        Some(a) => {
            let c = cx();
            let id = c.mk(Op::To32, 32, a, NO, NO);
            mk32(id)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fpext(x: f32) -> f64 {
    match tag32(x) {
        None => x as f64,
        Some(a) => {
            let c = cx();
            let id = c.mk(Op::To64, 64, a, NO, NO);
            mk64(id)
        }
    }
}
// predicate numbers follow LLVM: oeq=1 ogt=2 oge=3 olt=4 ole=5 one=6 ord=7 uno=8 ueq=9 ugt=10 uge=11 ult=12 ule=13 une=14
fn fcmp_ids(c: &mut Ctx, pred: i32, a: u32, b: u32) -> bool {
    if c.mode == Mode::Real {
        // non-finite constants
        let (ca, cb) = (c.cval(a), c.cval(b));
        let special = |v: Option<f64>| matches!(v, Some(x) if !x.is_finite());
        if special(ca) || special(cb) {
            let x = ca.unwrap_or(0.0);
            let y = cb.unwrap_or(0.0);
            return native_cmp(pred, x, y);
        }
        match pred {
            7 => return true,
            8 => return false,
            _ => {}
        }
    }
    let real = c.mode == Mode::Real;
    let (op, x, y, neg) = match pred {
        1 => (Op::Eq, a, b, false),
        2 => (Op::Lt, b, a, false),
        3 => (Op::Le, b, a, false),
        4 => (Op::Lt, a, b, false),
        5 => (Op::Le, a, b, false),
        6 => (if real { Op::Eq } else { Op::One }, a, b, real),
        7 => (Op::Uno, a, b, true),
        8 => (Op::Uno, a, b, false),
        9 => (if real { Op::Eq } else { Op::One }, a, b, !real),
        10 => (Op::Le, a, b, true),
        11 => (Op::Lt, a, b, true),
        12 => (Op::Le, b, a, true),
        13 => (Op::Lt, b, a, true),
        14 => (Op::Eq, a, b, true),
        _ => panic!("fcmp predicate"),
    };
    // total order in the reals: a <= b  ==  !(b < a)
    let (op, x, y, neg) = if real && op == Op::Le { (Op::Lt, y, x, !neg) } else { (op, x, y, neg) };
    if real && x == y {
        return (op == Op::Eq) ^ neg;
    }
    let id = c.mk(op, 1, x, y, NO);
    c.decide(id) ^ neg
}
fn native_cmp(pred: i32, x: f64, y: f64) -> bool {
    let un = x.is_nan() || y.is_nan();
    match pred {
        1 => x == y,
        2 => x > y,
        3 => x >= y,
        4 => x < y,
        5 => x <= y,
        6 => x < y || x > y,
        7 => !un,
        8 => un,
        9 => un || x == y,
        10 => un || x > y,
        11 => un || x >= y,
        12 => un || x < y,
        13 => un || x <= y,
        14 => x != y,
        _ => panic!("fcmp predicate"),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fcmp64(pred: i32, x: f64, y: f64) -> bool {
    if tag64(x).is_none() && tag64(y).is_none() {
        return native_cmp(pred, x, y);
    }
    let c = cx();
    let (a, b) = (c.id64(x), c.id64(y));
    fcmp_ids(c, pred, a, b)
}
#[no_mangle]
pub extern "C-unwind" fn sym_fcmp32(pred: i32, x: f32, y: f32) -> bool {
    if tag32(x).is_none() && tag32(y).is_none() {
        return native_cmp(pred, x as f64, y as f64);
    }
    let c = cx();
    let (a, b) = (c.id32(x), c.id32(y));
    fcmp_ids(c, pred, a, b)
}
#[no_mangle]
pub extern "C-unwind" fn sym_isclass64(x: f64, mask: i32) -> bool {
    match tag64(x) {
        None => native_class(x, mask as u32),
        Some(a) => {
            let c = cx();
            if c.mode == Mode::Real {
                // a real is finite and not NaN; sign / zero classes need comparisons
                let neg = sym_fcmp64(4, x, 0.0);
                let zero = !neg && sym_fcmp64(1, x, 0.0);
                let bit = if neg { 3 } else if zero { 6 } else { 8 };
                return (mask as u32) & (1 << bit) != 0;
            }
            let id = c.intern(Term { op: Op::IsClass, w: 1, a, b: NO, c: NO, k: mask as u32 as u64 });
            c.decide(id)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_isclass32(x: f32, mask: i32) -> bool {
    match tag32(x) {
        None => {
            let mut m = false;
            if x.is_nan() {
                m = mask & 3 != 0;
            } else if x.is_subnormal() {
                m = mask & (if x < 0.0 { 1 << 4 } else { 1 << 7 }) != 0;
            } else {
                m |= native_class(x as f64, mask as u32);
            }
            m
        }
        Some(a) => {
            let c = cx();
            if c.mode == Mode::Real {
                let neg = sym_fcmp32(4, x, 0.0);
                let zero = !neg && sym_fcmp32(1, x, 0.0);
                let bit = if neg { 3 } else if zero { 6 } else { 8 };
                return (mask as u32) & (1 << bit) != 0;
            }
            let id = c.intern(Term { op: Op::IsClass, w: 1, a, b: NO, c: NO, k: mask as u32 as u64 });
            c.decide(id)
        }
    }
}
/// The program wants the bits of a symbolic float (an operation without a symbolic meaning here): the explorer
/// pins the term to one feasible value and marks the exploration incomplete.
#[no_mangle]
pub extern "C-unwind" fn sym_pin64(x: f64) -> f64 {
    match tag64(x) {
        None => x,
        Some(a) => {
            let c = cx();
            if c.shadow {
                return c.eval(a);
            }
            let r = c.ask(&format!("PIN {}", a));
            match r.parse::<u64>() {
                Ok(b) => f64::from_bits(b),
                Err(_) => std::panic::panic_any(Abort("explorer cut the path")),
            }
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_pin32(x: f32) -> f32 {
    match tag32(x) {
        None => x,
        Some(a) => {
            let c = cx();
            if c.shadow {
                return c.eval(a) as f32;
            }
            let r = c.ask(&format!("PIN {}", a));
            match r.parse::<u64>() {
                Ok(b) => f64::from_bits(b) as f32,
                Err(_) => std::panic::panic_any(Abort("explorer cut the path")),
            }
        }
    }
}
/// matrixmultiply::dgemm (SIMD kernels chosen at run time) replaced by its definition C := alpha A B + beta C.
/// # Safety
/// Called with the argument contract of matrixmultiply.
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_dgemm(
    m: usize, k: usize, n: usize, alpha: f64, a: *const f64, rsa: isize, csa: isize, b: *const f64, rsb: isize,
    csb: isize, beta: f64, cc: *mut f64, rsc: isize, csc: isize,
) {
    for i in 0..m as isize {
        for j in 0..n as isize {
            let mut acc = 0.0;
            for l in 0..k as isize {
                acc = sym_fadd64(acc, sym_fmul64(*a.offset(i * rsa + l * csa), *b.offset(l * rsb + j * csb)));
            }
            let p = cc.offset(i * rsc + j * csc);
            let prod = sym_fmul64(alpha, acc);
            *p = if tag64(beta).is_none() && beta == 0.0 { prod } else { sym_fadd64(sym_fmul64(beta, *p), prod) };
        }
    }
}
/// # Safety
/// As `sym_dgemm`.
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_sgemm(
    m: usize, k: usize, n: usize, alpha: f32, a: *const f32, rsa: isize, csa: isize, b: *const f32, rsb: isize,
    csb: isize, beta: f32, cc: *mut f32, rsc: isize, csc: isize,
) {
    for i in 0..m as isize {
        for j in 0..n as isize {
            let mut acc = 0.0;
            for l in 0..k as isize {
                acc = sym_fadd32(acc, sym_fmul32(*a.offset(i * rsa + l * csa), *b.offset(l * rsb + j * csb)));
            }
            let p = cc.offset(i * rsc + j * csc);
            let prod = sym_fmul32(alpha, acc);
            *p = if tag32(beta).is_none() && beta == 0.0 { prod } else { sym_fadd32(sym_fmul32(beta, *p), prod) };
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fn(id: u32) {
    let c = cx();
    let i = id as usize;
    if i >= c.seen_fn.len() {
        c.seen_fn.resize(i + 1, false);
    }
    if !c.seen_fn[i] {
        c.seen_fn[i] = true;
        c.seen_pending.push(id);
    }
}
/// A `Mutex::lock` that finds the mutex taken.  The symbolic run has one thread, so this never returns there; the
/// replay of a schedule runs real threads and waits for its turn.
#[no_mangle]
pub extern "C-unwind" fn sym_lock_contended(m: *mut u8) {
    if gate::me().is_some() {
        gate::blocked(m as usize);
        return;
    }
    let c = cx();
    if c.lock_on && c.pre_held.contains(&(m as usize)) {
        std::panic::panic_any(Abort("BLOCKED"));
    }
    std::panic::panic_any(Abort("DEADLOCK"));
}
#[no_mangle]
pub extern "C-unwind" fn sym_lock(m: *mut u8) {
    if gate::me().is_some() {
        gate::park();
        return;
    }
    let c = cx();
    if c.lock_on {
        if c.pre_at != usize::MAX && c.lock_log.iter().filter(|e| e.0 == 1).count() == c.pre_at {
            c.pre_at = usize::MAX;
            if let Some(h) = c.pre_hook.take() {
                // the operation under way is pre-empted right before it takes `m`
                let log = std::mem::take(&mut c.lock_log);
                let mut held: Vec<usize> = vec![];
                for (k, l) in &log {
                    match k {
                        0 => held.retain(|x| x != l),
                        _ => held.push(*l),
                    }
                }
                c.pre_held = held;
                h();
                std::panic::panic_any(Abort("PREEMPTED"));
            }
        }
        cx().lock_log.push((1, m as usize));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_trylock(m: *mut u8) {
    let c = cx();
    if c.lock_on && gate::me().is_none() {
        c.lock_log.push((2, m as usize));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_unlock(m: *mut u8) {
    if gate::me().is_some() {
        return;
    }
    let c = cx();
    if c.lock_on {
        c.lock_log.push((0, m as usize));
    }
}

/// Real threads that run one at a time and change over only where a mutex is taken, in a given order.
pub mod gate {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicU32, Ordering};
    use std::sync::{Condvar, Mutex};
    thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }
    pub fn me() -> Option<usize> {
        ME.with(|m| m.get())
    }
    #[derive(Clone, Copy, PartialEq)]
    enum St {
        Run,
        Blocked(usize),
        Done,
    }
    struct S {
        sched: Vec<usize>,
        pos: usize,
        cur: usize,
        st: Vec<St>,
        dead: bool,
    }
    static G: Mutex<S> = Mutex::new(S { sched: vec![], pos: 0, cur: usize::MAX, st: vec![], dead: false });
    static C: Condvar = Condvar::new();
    fn free(p: usize) -> bool {
        unsafe { (*(p as *const AtomicU32)).load(Ordering::SeqCst) == 0 }
    }
    fn next(s: &mut S) {
        let ok = |s: &S, t: usize| match s.st[t] {
            St::Run => true,
            St::Blocked(p) => free(p),
            St::Done => false,
        };
        while s.pos < s.sched.len() {
            let t = s.sched[s.pos];
            s.pos += 1;
            if t < s.st.len() && ok(s, t) {
                s.cur = t;
                return;
            }
        }
        for t in 0..s.st.len() {
            if ok(s, t) {
                s.cur = t;
                return;
            }
        }
        s.cur = usize::MAX;
        s.dead = s.st.iter().any(|x| *x != St::Done);
    }
    fn switch(t: usize, st: St) {
        let mut s = G.lock().unwrap();
        s.st[t] = st;
        next(&mut s);
        C.notify_all();
        if st == St::Done {
            return;
        }
        while s.cur != t {
            s = C.wait(s).unwrap();
        }
        s.st[t] = St::Run;
    }
    pub fn park() {
        switch(me().unwrap(), St::Run)
    }
    pub fn blocked(p: usize) {
        loop {
            switch(me().unwrap(), St::Blocked(p));
            let a = unsafe { &*(p as *const AtomicU32) };
            if a.compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                return;
            }
        }
    }
    /// Runs the jobs on real threads in the given order; true if they end up waiting for each other.
    pub fn run(jobs: Vec<Box<dyn FnOnce() + Send>>, sched: Vec<usize>) -> bool {
        let n = jobs.len();
        {
            let mut s = G.lock().unwrap();
            *s = S { sched, pos: 0, cur: usize::MAX, st: vec![St::Run; n], dead: false };
        }
        for (i, j) in jobs.into_iter().enumerate() {
            std::thread::spawn(move || {
                ME.with(|m| m.set(Some(i)));
                {
                    let mut s = G.lock().unwrap();
                    while s.cur != i {
                        s = C.wait(s).unwrap();
                    }
                }
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
                switch(i, St::Done);
            });
        }
        let mut s = G.lock().unwrap();
        next(&mut s);
        C.notify_all();
        while s.cur != usize::MAX {
            s = C.wait(s).unwrap();
        }
        s.dead
    }
}
