//! C18-C20: conversion of URDF descriptions.
use crate::common::*;
use k::joint::{Mimic, Range};
use k::nalgebra as na;
use k::link::{Geometry, Material};
use k::urdf::*;
use k::*;
use na::{Quaternion, Unit};
use symrt::*;

fn arr3(n: &str) -> [f64; 3] {
    [input(&format!("{}x", n)), input(&format!("{}y", n)), input(&format!("{}z", n))]
}
fn rpy3(n: &str) -> [f64; 3] {
    [angle(&format!("{}r", n)), angle(&format!("{}p", n)), angle(&format!("{}w", n))]
}
fn rot(axis: usize, a: f64) -> UnitQuaternion<f64> {
    let h = a * 0.5;
    let (s, c) = (h.sin(), h.cos());
    let v = |i: usize| if i == axis { s } else { 0.0 };
    Unit::new_unchecked(Quaternion::new(c, v(0), v(1), v(2)))
}
/// Rotations about the fixed x, y and z axes, in that order.
fn rpy_oracle(r: &[f64; 3]) -> UnitQuaternion<f64> {
    rot(2, r[2]) * rot(1, r[1]) * rot(0, r[0])
}
fn pose_oracle(p: &urdf_rs::Pose) -> Iso {
    Isometry3::from_parts(Translation3::new(p.xyz[0], p.xyz[1], p.xyz[2]), rpy_oracle(&p.rpy))
}
fn pose(n: &str) -> urdf_rs::Pose {
    urdf_rs::Pose { xyz: arr3(n), rpy: rpy3(n) }
}
fn still(n: &str) -> urdf_rs::Pose {
    urdf_rs::Pose { xyz: arr3(n), rpy: [0.0; 3] }
}
const TYPES: [(urdf_rs::JointType, usize, &str); 7] = [
    (urdf_rs::JointType::Revolute, 1, "revolute"),
    (urdf_rs::JointType::Continuous, 1, "continuous"),
    (urdf_rs::JointType::Prismatic, 2, "prismatic"),
    (urdf_rs::JointType::Fixed, 0, "fixed"),
    (urdf_rs::JointType::Floating, 0, "floating"),
    (urdf_rs::JointType::Planar, 0, "planar"),
    (urdf_rs::JointType::Spherical, 0, "spherical"),
];
fn ujoint(name: &str, t: usize, origin: urdf_rs::Pose, axis: [f64; 3], lower: f64, upper: f64) -> urdf_rs::Joint {
    urdf_rs::Joint {
        name: name.to_string(),
        joint_type: TYPES[t].0.clone(),
        origin,
        parent: urdf_rs::LinkName { link: "a".to_string() },
        child: urdf_rs::LinkName { link: "b".to_string() },
        axis: urdf_rs::Axis { xyz: axis },
        limit: urdf_rs::JointLimit { lower, upper, effort: 0.0, velocity: 0.0 },
        dynamics: None,
        mimic: None,
        safety_controller: None,
    }
}

// ---------------------------------------------------------------- C18
/// type, axis, limits, origin and name of the converted joint
fn joint_fields() {
    let t = choose("type", TYPES.len());
    let axis = arr3("a");
    let n2 = axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2];
    assume(n2 > 0.0);
    let (lower, upper): (f64, f64) = (input("lower"), input("upper"));
    assume(lower <= upper);
    let u = ujoint("elbow", t, pose("o"), axis, lower, upper);
    let j = Joint::<f64>::from(&u);
    check("name", j.name == "elbow");
    let kind = TYPES[t].1;
    let got = match &j.joint_type {
        JointType::Fixed => 0,
        JointType::Rotational { axis: a } => {
            check_axis(a, &axis, n2);
            1
        }
        JointType::Linear { axis: a } => {
            check_axis(a, &axis, n2);
            2
        }
    };
    check("joint type", got == kind);
    if kind != 0 {
        let unlimited = t == 1 || lower == upper;
        match &j.limits {
            None => {
                check("limits are dropped only when the bounds are equal or the joint is continuous", unlimited);
                cover("no limits");
            }
            Some(r) => {
                check("a joint with equal bounds and a continuous joint have no limits", !unlimited);
                eq("lower limit", r.min, lower);
                eq("upper limit", r.max, upper);
                cover("limits");
            }
        }
        check("position zero", j.joint_position() == Some(0.0));
    } else {
        check("a fixed joint has no position", j.joint_position().is_none());
    }
    eq_iso("origin", j.origin(), &pose_oracle(&u.origin));
    cover(TYPES[t].2);
}
fn check_axis(a: &Unit<V3>, want: &[f64; 3], n2: f64) {
    let n = n2.sqrt();
    for i in 0..3 {
        eq("axis, normalised", a[i] * n, want[i]);
    }
}
/// the motion of the converted joint at any position
fn joint_motion() {
    let t = choose("type", 4);
    let (a, n): ([f64; 3], f64) = match choose("axis", 5) {
        0 => ([1.0, 0.0, 0.0], 1.0),
        1 => ([0.0, 1.0, 0.0], 1.0),
        2 => ([0.0, 0.0, 1.0], 1.0),
        3 => ([0.0, 0.0, -2.0], 2.0),
        _ => ([3.0, 0.0, 4.0], 5.0),
    };
    let u = ujoint("elbow", t, pose("o"), a, 0.0, 0.0);
    let j = Joint::<f64>::from(&u);
    let mut j = j;
    let kind = TYPES[t].1;
    let q = position("q", kind);
    if kind != 0 {
        j.set_joint_position_unchecked(q);
    }
    let axis = Unit::new_unchecked(V3::new(a[0] / n, a[1] / n, a[2] / n));
    eq_iso("local transform", &j.local_transform(), &(pose_oracle(&u.origin) * motion(kind, &axis, q)));
    cover(TYPES[t].2);
}
/// the public pose helpers
fn pose_helpers() {
    let p = pose("o");
    let want = pose_oracle(&p);
    match choose("helper", 3) {
        0 => {
            let got: Iso = isometry_from(&p);
            eq_iso("isometry_from", &got, &want);
        }
        1 => {
            let got: UnitQuaternion<f64> = quaternion_from(&p.rpy);
            // acting on any vector: about x first, then y, then z
            let v = v3("v");
            let (r, q, w) = (p.rpy[0], p.rpy[1], p.rpy[2]);
            let a = V3::new(v.x, r.cos() * v.y - r.sin() * v.z, r.sin() * v.y + r.cos() * v.z);
            let b = V3::new(q.cos() * a.x + q.sin() * a.z, a.y, q.cos() * a.z - q.sin() * a.x);
            let c = V3::new(w.cos() * b.x - w.sin() * b.y, w.sin() * b.x + w.cos() * b.y, b.z);
            eq_v("quaternion_from on a vector", &(got * v), &c);
        }
        _ => {
            let got: Translation3<f64> = translation_from(&p.xyz);
            eq_v("translation_from", &got.vector, &want.translation.vector);
        }
    }
    cover("end");
}
fn mimic_fields() {
    let m = urdf_rs::Mimic {
        joint: "leader".to_string(),
        multiplier: if flag("multiplier") { Some(input("m")) } else { None },
        offset: if flag("offset") { Some(input("o")) } else { None },
    };
    let got: Mimic<f64> = (&m).into();
    eq("multiplier, 1 when absent", got.multiplier, m.multiplier.unwrap_or(1.0));
    eq("offset, 0 when absent", got.origin, m.offset.unwrap_or(0.0));
    let q: f64 = input("q");
    eq("position of the follower", got.mimic_position(q), m.multiplier.unwrap_or(1.0) * q + m.offset.unwrap_or(0.0));
    cover("end");
}
/// Bit-precise: limits and translation of a joint converted to f64 and f32.
fn joint_bits<T: Num>(narrow: fn(f64) -> T) {
    let (lower, upper): (f64, f64) = (input("lower"), input("upper"));
    assume(lower <= upper);
    assume(lower > -1.0e30 && upper < 1.0e30);
    // distinct bounds of single precision stay distinct; nothing is claimed about bounds that only differ beyond it
    assume(lower == upper || narrow(lower) < narrow(upper));
    let xyz = arr3("o");
    for x in &xyz {
        assume(*x > -1.0e30 && *x < 1.0e30);
    }
    let t = choose("type", 3);
    let u = ujoint("elbow", t, urdf_rs::Pose { xyz, rpy: [0.0; 3] }, [0.0, 0.0, 1.0], lower, upper);
    let j = Joint::<T>::from(&u);
    let unlimited = t == 1 || lower == upper;
    match &j.limits {
        None => {
            check("limits are dropped only when the bounds are equal or the joint is continuous", unlimited);
            cover("no limits");
        }
        Some(Range { min, max }) => {
            check("a joint with equal bounds and a continuous joint have no limits", !unlimited);
            eq("lower limit", *min, narrow(lower));
            eq("upper limit", *max, narrow(upper));
            cover("limits");
        }
    }
    for i in 0..3 {
        eq("translation", j.origin().translation.vector[i], narrow(xyz[i]));
    }
}
fn joint_bits_64() {
    joint_bits::<f64>(|x| x)
}
fn joint_bits_32() {
    joint_bits::<f32>(|x| x as f32)
}

// ---------------------------------------------------------------- C19
fn geometry(n: &str) -> urdf_rs::Geometry {
    let f = |x: &str| -> f64 { input(&format!("{}{}", n, x)) };
    match choose(&format!("{}.geometry", n), 6) {
        0 => urdf_rs::Geometry::Box { size: arr3(&format!("{}size", n)) },
        1 => urdf_rs::Geometry::Cylinder { radius: f("radius"), length: f("length") },
        2 => urdf_rs::Geometry::Capsule { radius: f("radius"), length: f("length") },
        3 => urdf_rs::Geometry::Sphere { radius: f("radius") },
        4 => urdf_rs::Geometry::Mesh { filename: format!("{}.stl", n), scale: None },
        _ => urdf_rs::Geometry::Mesh { filename: format!("{}.stl", n), scale: Some(arr3(&format!("{}scale", n))) },
    }
}
fn eq_geometry<T: Num>(got: &Geometry<T>, want: &urdf_rs::Geometry, nw: fn(f64) -> T) {
    match (got, want) {
        (Geometry::Box { depth, width, height }, urdf_rs::Geometry::Box { size }) => {
            eq("box depth", *depth, nw(size[0]));
            eq("box width", *width, nw(size[1]));
            eq("box height", *height, nw(size[2]));
            cover("box");
        }
        (Geometry::Cylinder { radius, length }, urdf_rs::Geometry::Cylinder { radius: r, length: l }) => {
            eq("cylinder radius", *radius, nw(*r));
            eq("cylinder length", *length, nw(*l));
            cover("cylinder");
        }
        (Geometry::Capsule { radius, length }, urdf_rs::Geometry::Capsule { radius: r, length: l }) => {
            eq("capsule radius", *radius, nw(*r));
            eq("capsule length", *length, nw(*l));
            cover("capsule");
        }
        (Geometry::Sphere { radius }, urdf_rs::Geometry::Sphere { radius: r }) => {
            eq("sphere radius", *radius, nw(*r));
            cover("sphere");
        }
        (Geometry::Mesh { filename, scale }, urdf_rs::Geometry::Mesh { filename: f, scale: s }) => {
            check("mesh file", filename == f);
            let s = s.unwrap_or([1.0; 3]);
            for i in 0..3 {
                eq("mesh scale", scale[i], nw(s[i]));
            }
            cover("mesh");
        }
        _ => check("kind of geometry", false),
    }
}
fn material(n: &str) -> Option<urdf_rs::Material> {
    let m = choose(&format!("{}.material", n), 5);
    if m == 0 {
        return None;
    }
    let c = |x: &str| -> f64 { input(&format!("{}{}", n, x)) };
    Some(urdf_rs::Material {
        name: format!("{}-paint", n),
        color: if m & 1 == 0 { Some(urdf_rs::Color { rgba: [c("r"), c("g"), c("b"), c("a")] }) } else { None },
        texture: if m > 2 { Some(urdf_rs::Texture { filename: format!("{}.png", n) }) } else { None },
    })
}
fn eq_material<T: Num>(got: &Material<T>, want: &Option<urdf_rs::Material>, nw: fn(f64) -> T) {
    let w = want.clone().unwrap_or_default();
    check("material name", got.name == w.name);
    if let Some(c) = &w.color {
        eq("red", got.color.r, nw(c.rgba[0]));
        eq("green", got.color.g, nw(c.rgba[1]));
        eq("blue", got.color.b, nw(c.rgba[2]));
        eq("alpha", got.color.a, nw(c.rgba[3]));
        cover("color");
    }
    let t = w.texture.map(|t| t.filename).unwrap_or_default();
    check("texture", got.texture.filename == t);
}
fn named(n: &str) -> Option<String> {
    if flag(&format!("{}.named", n)) {
        Some(n.to_string())
    } else {
        None
    }
}
fn inertial(n: &str) -> urdf_rs::Inertial {
    let f = |x: &str| -> f64 { input(&format!("{}{}", n, x)) };
    urdf_rs::Inertial {
        origin: pose(n),
        mass: urdf_rs::Mass { value: f("mass") },
        inertia: urdf_rs::Inertia { ixx: f("ixx"), ixy: f("ixy"), ixz: f("ixz"), iyy: f("iyy"), iyz: f("iyz"), izz: f("izz") },
    }
}
fn eq_inertia<T: Num>(got: &link::Inertial<T>, want: &urdf_rs::Inertial, nw: fn(f64) -> T) {
    eq("mass", got.mass, nw(want.mass.value));
    let i = &want.inertia;
    let m = [[i.ixx, i.ixy, i.ixz], [i.ixy, i.iyy, i.iyz], [i.ixz, i.iyz, i.izz]];
    for r in 0..3 {
        for c in 0..3 {
            eq("inertia matrix", got.inertia[(r, c)], nw(m[r][c]));
        }
    }
}
fn ulink(visuals: usize, collisions: usize, turned: bool) -> urdf_rs::Link {
    let o = |n: &str| if turned { pose(n) } else { still(n) };
    urdf_rs::Link {
        name: "forearm".to_string(),
        inertial: if turned { inertial("i") } else { urdf_rs::Inertial { origin: still("i"), ..inertial("i") } },
        visual: (0..visuals)
            .map(|i| {
                let n = format!("v{}", i);
                urdf_rs::Visual { name: named(&n), origin: o(&n), geometry: geometry(&n), material: material(&n) }
            })
            .collect(),
        collision: (0..collisions)
            .map(|i| {
                let n = format!("c{}", i);
                urdf_rs::Collision { name: named(&n), origin: o(&n), geometry: geometry(&n) }
            })
            .collect(),
    }
}
fn link_parts(visuals: usize, collisions: usize) {
    let (nv, nc) = (choose("visuals", visuals + 1), choose("collisions", collisions + 1));
    let u = ulink(nv, nc, true);
    let l: Link<f64> = u.clone().into();
    let id = |x: f64| x;
    check("link name", l.name == "forearm");
    eq_inertia(&l.inertial, &u.inertial, id);
    eq_iso("inertial origin", l.inertial.origin(), &pose_oracle(&u.inertial.origin));
    check("number of visuals", l.visuals.len() == nv);
    check("number of collisions", l.collisions.len() == nc);
    for (g, w) in l.visuals.iter().zip(&u.visual) {
        check("visual name", g.name == w.name.clone().unwrap_or_default());
        eq_iso("visual origin", g.origin(), &pose_oracle(&w.origin));
        eq_geometry(&g.geometry, &w.geometry, id);
        eq_material(&g.material, &w.material, id);
    }
    for (g, w) in l.collisions.iter().zip(&u.collision) {
        check("collision name", g.name == w.name.clone().unwrap_or_default());
        eq_iso("collision origin", g.origin(), &pose_oracle(&w.origin));
        eq_geometry(&g.geometry, &w.geometry, id);
    }
    cover("end");
}
fn link_visuals_2() {
    link_parts(2, 0)
}
fn link_collisions_3() {
    link_parts(0, 3)
}
fn link_both_1() {
    link_parts(1, 1)
}
/// Bit-precise values, also in single precision.
fn link_bits<T: Num>(nw: fn(f64) -> T) {
    let u = ulink(1, 1, false);
    let l: Link<T> = u.clone().into();
    eq_inertia(&l.inertial, &u.inertial, nw);
    check("one of each", l.visuals.len() == 1 && l.collisions.len() == 1);
    for i in 0..3 {
        eq("inertial origin", l.inertial.origin().translation.vector[i], nw(u.inertial.origin.xyz[i]));
        eq("visual origin", l.visuals[0].origin().translation.vector[i], nw(u.visual[0].origin.xyz[i]));
        eq("collision origin", l.collisions[0].origin().translation.vector[i], nw(u.collision[0].origin.xyz[i]));
    }
    eq_geometry(&l.visuals[0].geometry, &u.visual[0].geometry, nw);
    eq_geometry(&l.collisions[0].geometry, &u.collision[0].geometry, nw);
    eq_material(&l.visuals[0].material, &u.visual[0].material, nw);
    cover("end");
}
fn link_bits_64() {
    link_bits::<f64>(|x| x)
}
fn link_bits_32() {
    link_bits::<f32>(|x| x as f32)
}

// ---------------------------------------------------------------- C20
fn permutation(name: &str, n: usize, mut count: usize) -> Vec<usize> {
    let all: usize = (1..=n).product();
    let full = count >= all;
    if full {
        count = all;
    }
    let mut k = choose(name, count);
    if !full {
        // spread over all permutations
        k = k * (all - 1) / (count - 1);
    }
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() {
        out.push(left.remove(k % i));
        k /= i;
    }
    out
}
/// n joints: joint i moves link i+1, hung under link parent(i) of 0..=i; listed in any order.
fn robot(n: usize, joint_orders: usize, link_orders: usize, mimics: bool, kinds: usize) {
    let parent: Vec<usize> = (0..n).map(|i| choose(&format!("parent{}", i), i + 1)).collect();
    robot_of(parent, joint_orders, link_orders, mimics, kinds)
}
/// Robots whose root link carries many joints, one of which carries many more.
fn robot_wide() {
    let a = choose("under the root", 9);
    let under = choose("second level under", 9);
    assume(under <= a);
    let b = if under == 0 { 0 } else { [0, 1, 5][choose("second level", 3)] };
    let parent = (0..a + b).map(|i| if i < a { 0 } else { under }).collect();
    robot_of(parent, 2, 2, false, 1)
}
fn robot_of(parent: Vec<usize>, joint_orders: usize, link_orders: usize, mimics: bool, kinds: usize) {
    let n = parent.len();
    // 0 fixed, 1 revolute, 2 prismatic
    let kind: Vec<usize> = if kinds == 3 { (0..n).map(|i| choose(&format!("kind{}", i), 3)).collect() } else { (0..n).map(|i| [1, 2, 0][i % 3]).collect() };
    let mut mim: Option<(usize, usize)> = None;
    let mut both = false;
    if mimics && n > 1 && flag("mimic") {
        let f = choose("follower", n);
        let l = choose("leader", n - 1);
        let l = if l >= f { l + 1 } else { l };
        // leader and follower are movable
        assume(kind[f] != 0 && kind[l] != 0);
        mim = Some((f, l));
        // all other movable joints follow too, directly
        both = flag("all follow");
    }
    let follows = |i: usize| mim.map(|(f, l)| i == f || (both && i != l && kind[i] != 0)).unwrap_or(false);
    let axes = [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]];
    // joints and links may be called the same, or sort in another order than they are hung
    let naming = choose("naming", 4);
    let lname = |i: usize| match naming {
        0 => format!("link{}", i),
        1 => format!("part{}", i),
        2 => format!("{}", 20 - i),
        _ => tricky(i),
    };
    let jname = |i: usize| match naming {
        0 => format!("joint{}", i),
        1 => format!("part{}", i),
        2 => format!("{}", 20 - i),
        _ => tricky(i + 1),
    };
    let mut joints = vec![];
    for i in permutation("joint order", n, joint_orders) {
        let t = [3, 1, 2][kind[i]];
        let mut j = ujoint(&jname(i), t, still(&format!("o{}", i)), axes[i % 3], 0.0, 0.0);
        j.parent.link = lname(parent[i]);
        j.child.link = lname(i + 1);
        if let Some((_, l)) = mim {
            if follows(i) {
                j.mimic = Some(urdf_rs::Mimic { joint: jname(l), multiplier: Some(input(&format!("m{}", i))), offset: Some(input(&format!("b{}", i))) });
            }
        }
        joints.push(j);
    }
    let mut links = vec![];
    for i in permutation("link order", n + 1, link_orders) {
        let mut l = urdf_rs::Link { name: lname(i), inertial: Default::default(), visual: vec![], collision: vec![] };
        l.inertial.mass.value = input(&format!("mass{}", i));
        links.push(l);
    }
    let r = urdf_rs::Robot { name: "r".to_string(), links, joints, materials: vec![] };
    let origin: Vec<V3> = (0..n).map(|i| v3(&format!("o{}", i))).collect();
    let chain = Chain::<f64>::from(&r);
    // joints
    let all: Vec<Node<f64>> = chain.iter().cloned().collect();
    check("one joint per URDF joint and the root joint", all.len() == n + 1);
    check("root joint first", all[0].joint().name == ROOT_JOINT_NAME && all[0].parent().is_none());
    check("the root joint is fixed", matches!(all[0].joint().joint_type, JointType::Fixed));
    let node = |i: usize| chain.find(&jname(i)).cloned();
    let carries = |n: &Node<f64>, i: usize| match &*n.link() {
        Some(l) => {
            check("its child link", l.name == lname(i));
            eq("the link's mass", l.inertial.mass, input(&format!("mass{}", i)));
        }
        None => check("a joint carries its child link", false),
    };
    carries(&all[0], 0);
    for i in 0..n {
        let me = match node(i) {
            Some(x) => x,
            None => {
                check("every joint is found by name", false);
                return;
            }
        };
        check("number of joints of a name", all.iter().filter(|x| x.joint().name == jname(i)).count() == 1);
        let want = if parent[i] == 0 { ROOT_JOINT_NAME.to_string() } else { jname(parent[i] - 1) };
        let got = me.parent().map(|p| p.joint().name.clone());
        check("its parent is the joint of its parent link", got == Some(want));
        check("joint type", match me.joint().joint_type {
            JointType::Fixed => kind[i] == 0,
            JointType::Rotational { .. } => kind[i] == 1,
            JointType::Linear { .. } => kind[i] == 2,
        });
        let kids = (0..n).filter(|c| parent[*c] == i + 1).count();
        check("number of children", me.children().len() == kids);
        eq_v("origin", &me.joint().origin().translation.vector, &origin[i]);
        carries(&me, i + 1);
        let lead = me.mimic_parent().map(|p| p.joint().name.clone());
        check("mimic relation", lead == mim.and_then(|(_, l)| if follows(i) { Some(jname(l)) } else { None }));
    }
    check("degrees of freedom", chain.dof() == kind.iter().filter(|x| **x != 0).count());
    // where the links are
    chain.update_transforms();
    for i in 0..n {
        let mut p = origin[i];
        let mut k = parent[i];
        while k != 0 {
            p += origin[k - 1];
            k = parent[k - 1];
        }
        eq_v("position of the link", &node(i).unwrap().world_transform().unwrap().translation.vector, &p);
    }
    if let Some((_, l)) = mim {
        let q: f64 = input("q");
        let r = node(l).unwrap().set_joint_position(q);
        check("leader accepts", r.is_ok());
        for f in (0..n).filter(|i| follows(*i)) {
            let w = q * input::<f64>(&format!("m{}", f)) + input::<f64>(&format!("b{}", f));
            eq("follower", node(f).unwrap().joint_position().unwrap(), w);
        }
        cover("mimic");
    }
    // name maps
    let (l2j, j2l) = (link_to_joint_map(&r), joint_to_link_map(&r));
    check("sizes of the name maps", l2j.len() == n + 1 && j2l.len() == n + 1);
    for i in 0..n + 1 {
        let j = if i == 0 { ROOT_JOINT_NAME.to_string() } else { jname(i - 1) };
        check("link to joint", l2j.get(&lname(i)) == Some(&j));
        check("joint to link", j2l.get(&j) == Some(&lname(i)));
    }
    cover("end");
}
fn robot_0() {
    robot(0, 1, 1, false, 3)
}
fn robot_1() {
    robot(1, 1, 2, false, 3)
}
fn robot_2() {
    robot(2, 2, 6, true, 3)
}
fn robot_3() {
    robot(3, 6, 24, false, 1)
}
fn robot_3_mimic() {
    robot(3, 6, 3, true, 1)
}
fn robot_4() {
    robot(4, 24, 4, false, 1)
}
fn robot_4_all() {
    robot(4, 24, 120, false, 1)
}
fn robot_5() {
    robot(5, 120, 3, false, 1)
}

pub fn harnesses() -> Vec<Harness> {
    let h = |name, prop, mode, tier, f, bounds, covers| Harness { name, prop, mode, tier, f, bounds, covers };
    vec![
        h("joint_fields", "C18", "real", 0, joint_fields as fn(), "7 URDF joint types, any origin (any roll, pitch, yaw), any non-zero axis, any bounds lower <= upper", &["revolute", "continuous", "prismatic", "fixed", "floating", "planar", "spherical", "limits", "no limits"]),
        h("joint_motion", "C18", "real", 0, joint_motion, "4 joint types, 5 axes (not all of unit length), any origin (any roll, pitch, yaw), any position", &["revolute", "continuous", "prismatic", "fixed"]),
        h("pose_helpers", "C18", "real", 0, pose_helpers, "any translation, any roll, pitch, yaw, any vector", &["end"]),
        h("mimic_fields", "C18", "real", 0, mimic_fields, "multiplier and offset any value or absent, any leader position", &["end"]),
        h("joint_bits_64", "C18", "fp", 0, joint_bits_64, "f64, bit-precise: any bounds and translation below 1e30, revolute, continuous, prismatic", &["limits", "no limits"]),
        h("joint_bits_32", "C18", "fp", 0, joint_bits_32, "f32, bit-precise: any bounds and translation below 1e30, revolute, continuous, prismatic", &["limits", "no limits"]),
        h("link_visuals_2", "C19", "real", 0, link_visuals_2, "0..2 visuals, each of 6 geometries, 5 materials, named or not, any origin and dimensions; any inertial", &["box", "cylinder", "capsule", "sphere", "mesh", "color", "end"]),
        h("link_collisions_3", "C19", "real", 0, link_collisions_3, "0..3 collisions, each of 6 geometries, named or not, any origin and dimensions; any inertial", &["box", "cylinder", "capsule", "sphere", "mesh", "end"]),
        h("link_both_1", "C19", "real", 0, link_both_1, "0..1 visuals and 0..1 collisions, each of 6 geometries, 5 materials, named or not, any origin and dimensions; any inertial", &["box", "cylinder", "capsule", "sphere", "mesh", "color", "end"]),
        h("link_bits_64", "C19", "fp", 0, link_bits_64, "f64, bit-precise: one visual and one collision of 6 geometries, 5 materials, any values", &["end"]),
        h("link_bits_32", "C19", "fp", 0, link_bits_32, "f32, bit-precise: one visual and one collision of 6 geometries, 5 materials, any values", &["end"]),
        h("robot_0", "C20", "real", 0, robot_0, "a single link without joints", &["end"]),
        h("robot_wide", "C20", "real", 0, robot_wide, "0..8 joints under the root link and 0, 1 or 5 more under any of them, two orders each of joints and links, any origins", &["end"]),
        h("robot_1", "C20", "real", 0, robot_1, "1 joint of 3 types, both link orders, any origins", &["end"]),
        h("robot_2", "C20", "real", 0, robot_2, "2 joints of 3 types each, every tree, every order of joints and links, every mimic relation (one follower or all), any origins, multiplier, offset, position", &["end", "mimic"]),
        h("robot_3", "C20", "real", 0, robot_3, "3 joints (one of each type), every tree, every order of joints and links, any origins", &["end"]),
        h("robot_3_mimic", "C20", "real", 0, robot_3_mimic, "3 joints (one of each type), every tree, every order of joints, 3 orders of links, every mimic relation (one follower or all), any origins, multiplier, offset, position", &["end", "mimic"]),
        h("robot_4", "C20", "real", 0, robot_4, "4 joints, every tree, every order of joints, 4 orders of links, any origins", &["end"]),
        h("robot_4_all", "C20", "real", 1, robot_4_all, "4 joints, every tree, every order of joints and links, any origins", &["end"]),
        h("robot_5", "C20", "real", 1, robot_5, "5 joints, every tree, every order of joints, 3 orders of links, any origins", &["end"]),
    ]
}
