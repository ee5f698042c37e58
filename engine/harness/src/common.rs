//! Shared builders of symbolic robots.
use k::nalgebra as na;
use k::*;
use na::{Quaternion, RealField, Unit};
use simba::scalar::SubsetOf;
use symrt::*;

pub type V3 = Vector3<f64>;
pub type Iso = Isometry3<f64>;

/// Distinct names that careless comparisons mix up.
pub fn tricky(i: usize) -> String {
    let t = ["j1", "j", "J1", "j10", "j1 ", "1", "j11", "\u{e9}", " j1", "_"];
    if i < t.len() { t[i].to_string() } else { format!("j1{}", i - 2) }
}

pub trait Num: Flt + RealField + SubsetOf<f64> {}
impl Num for f64 {}
impl Num for f32 {}

pub fn v3(n: &str) -> V3 {
    V3::new(input(&format!("{}x", n)), input(&format!("{}y", n)), input(&format!("{}z", n)))
}
/// A unit axis: any direction.
pub fn axis(n: &str) -> Unit<V3> {
    let v = v3(n);
    assume_unit(&[v.x, v.y, v.z]);
    Unit::new_unchecked(v)
}
/// Any unit quaternion.
pub fn quat(n: &str) -> UnitQuaternion<f64> {
    let (w, i, j, l): (f64, f64, f64, f64) = (
        input(&format!("{}w", n)),
        input(&format!("{}i", n)),
        input(&format!("{}j", n)),
        input(&format!("{}k", n)),
    );
    assume_unit(&[w, i, j, l]);
    Unit::new_unchecked(Quaternion::new(w, i, j, l))
}
/// Any rigid transform.
pub fn iso(n: &str) -> Iso {
    Isometry3::from_parts(Translation3::from(v3(&format!("{}.t", n))), quat(&format!("{}.q", n)))
}
/// Rigid transform with any translation and one of four exact rotations (0 identity, 1 120 deg about (1,1,1),
/// 2 its inverse, 3 180 deg about x).
pub fn iso_fixed(n: &str, r: usize) -> Iso {
    Isometry3::from_parts(Translation3::from(v3(&format!("{}.t", n))), rot_fixed(r))
}
pub fn rot_fixed(r: usize) -> UnitQuaternion<f64> {
    let q = match r % 4 {
        0 => Quaternion::new(1.0, 0.0, 0.0, 0.0),
        1 => Quaternion::new(0.5, 0.5, 0.5, 0.5),
        2 => Quaternion::new(0.5, -0.5, -0.5, -0.5),
        _ => Quaternion::new(0.0, 1.0, 0.0, 0.0),
    };
    Unit::new_unchecked(q)
}
pub fn fixed_axis(i: usize) -> Unit<V3> {
    match i % 3 {
        0 => Vector3::y_axis(),
        1 => Vector3::z_axis(),
        _ => Vector3::x_axis(),
    }
}
/// Joint kind 0 fixed, 1 rotational, 2 linear.
pub fn joint_type(kind: usize, a: Unit<V3>) -> JointType<f64> {
    match kind {
        0 => JointType::Fixed,
        1 => JointType::Rotational { axis: a },
        _ => JointType::Linear { axis: a },
    }
}
pub fn kind_name(k: usize) -> &'static str {
    ["fixed", "rotational", "linear"][k]
}
/// A position input suited to the kind.
pub fn position(n: &str, kind: usize) -> f64 {
    if kind == 1 {
        angle(n)
    } else {
        input(n)
    }
}
/// Independent oracle of one joint: origin, then rotation about / translation along the axis.
pub fn motion(kind: usize, a: &Unit<V3>, q: f64) -> Iso {
    match kind {
        0 => Isometry3::identity(),
        1 => {
            let (s, c) = ((q * 0.5).sin(), (q * 0.5).cos());
            Isometry3::from_parts(
                Translation3::new(0.0, 0.0, 0.0),
                Unit::new_unchecked(Quaternion::new(c, a.x * s, a.y * s, a.z * s)),
            )
        }
        _ => Isometry3::from_parts(Translation3::new(a.x * q, a.y * q, a.z * q), UnitQuaternion::identity()),
    }
}
pub fn eq_v(n: &str, a: &V3, b: &V3) {
    eq(&format!("{} x", n), a.x, b.x);
    eq(&format!("{} y", n), a.y, b.y);
    eq(&format!("{} z", n), a.z, b.z);
}
/// Equality of rigid transforms as transforms (q and -q are the same rotation): rotation matrices and translation.
pub fn eq_iso(n: &str, a: &Iso, b: &Iso) {
    eq_v(&format!("{} translation", n), &a.translation.vector, &b.translation.vector);
    let (p, q) = (a.rotation.coords, b.rotation.coords);
    let same = (0..4).all(|i| proved_eq(p[i], q[i]));
    if same {
        for i in 0..4 {
            eq(&format!("{} rotation", n), p[i], q[i]);
        }
    } else {
        let (x, y) = (a.rotation.to_rotation_matrix(), b.rotation.to_rotation_matrix());
        for i in 0..3 {
            for j in 0..3 {
                eq(&format!("{} rotation", n), x[(i, j)], y[(i, j)]);
            }
        }
    }
}
/// Position of the end of a fold of joint transforms (independent of `update_transforms`).
pub struct Spec {
    pub parent: Option<usize>,
    pub kind: usize,
    pub axis: Unit<V3>,
    pub origin: Iso,
}
impl Spec {
    pub fn node(&self, name: &str) -> Node<f64> {
        NodeBuilder::new().name(name).joint_type(joint_type(self.kind, self.axis)).origin(self.origin).into_node()
    }
    pub fn local(&self, q: f64) -> Iso {
        self.origin * motion(self.kind, &self.axis, q)
    }
}
pub fn connect_all(specs: &[Spec], nodes: &[Node<f64>]) {
    for (i, s) in specs.iter().enumerate() {
        if let Some(p) = s.parent {
            nodes[i].set_parent(&nodes[p]);
        }
    }
}
/// World transforms by recursion on the specification.
pub fn world(specs: &[Spec], q: &[f64]) -> Vec<Iso> {
    let mut w: Vec<Iso> = Vec::new();
    for (i, s) in specs.iter().enumerate() {
        let l = s.local(q[i]);
        w.push(match s.parent {
            Some(p) => w[p] * l,
            None => l,
        });
    }
    w
}
/// Symbolic tree shape: node i hangs under one of the earlier nodes.
pub fn shape(n: usize) -> Vec<Option<usize>> {
    (0..n).map(|i| if i == 0 { None } else { Some(choose(&format!("parent{}", i), i)) }).collect()
}
pub fn index_of(nodes: &[Node<f64>], n: &Node<f64>) -> usize {
    nodes.iter().position(|x| x == n).expect("node belongs to the tree")
}
