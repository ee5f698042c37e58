//! C14-C17, C21: the inverse kinematics solver.
use crate::common::*;
use k::joint::Range;
use k::nalgebra as na;
use k::*;
use symrt::*;

pub const INF: f64 = f64::INFINITY;

pub struct Arm {
    pub specs: Vec<Spec>,
    pub _nodes: Vec<Node<f64>>,
    pub chain: SerialChain<f64>,
    /// specs of the movable joints, in order
    pub mov: Vec<usize>,
}
impl Arm {
    pub fn new(specs: Vec<Spec>, limits: &dyn Fn(usize) -> Option<(f64, f64)>) -> Arm {
        let nodes: Vec<Node<f64>> = specs
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let mut j = Joint::new(&tricky(i), joint_type(s.kind, s.axis));
                j.set_origin(s.origin);
                if let Some((lo, hi)) = limits(i) {
                    j.limits = Some(Range::new(lo, hi));
                }
                j.into()
            })
            .collect();
        connect_all(&specs, &nodes);
        let mov = (0..specs.len()).filter(|i| specs[*i].kind != 0).collect();
        let chain = SerialChain::from_end(&nodes[specs.len() - 1]);
        Arm { specs, _nodes: nodes, chain, mov }
    }
    pub fn dof(&self) -> usize {
        self.mov.len()
    }
    pub fn q(&self) -> Vec<f64> {
        self.chain.joint_positions()
    }
    /// positions of every joint of the specification from the positions of the movable ones
    fn full(&self, q: &[f64]) -> Vec<f64> {
        let mut v = vec![];
        v.resize(self.specs.len(), 0.0);
        for (k, i) in self.mov.iter().enumerate() {
            v[*i] = q[k];
        }
        v
    }
    /// end pose by the specification, independent of the repository's kinematics
    pub fn pose(&self, q: &[f64]) -> Iso {
        *world(&self.specs, &self.full(q)).last().unwrap()
    }
    /// geometric Jacobian by the specification
    pub fn jacobian(&self, q: &[f64]) -> Vec<[f64; 6]> {
        let w = world(&self.specs, &self.full(q));
        let e = w.last().unwrap().translation.vector;
        self.mov
            .iter()
            .map(|i| {
                let a = w[*i].rotation * self.specs[*i].axis.into_inner();
                if self.specs[*i].kind == 1 {
                    let r = e - w[*i].translation.vector;
                    let c = a.cross(&r);
                    [c.x, c.y, c.z, a.x, a.y, a.z]
                } else {
                    [a.x, a.y, a.z, 0.0, 0.0, 0.0]
                }
            })
            .collect()
    }
}
/// pose error target - end as position difference and rotation vector, constrained rows only
pub fn err_rows(target: &Iso, end: &Iso, mask: &[bool; 6]) -> (Vec<f64>, Vec<f64>) {
    let p = target.translation.vector - end.translation.vector;
    let r = if (3..6).any(|i| mask[i]) {
        let q = target.rotation * end.rotation.inverse();
        q.scaled_axis()
    } else {
        V3::new(0.0, 0.0, 0.0)
    };
    (
        (0..3).filter(|i| mask[*i]).map(|i| p[i]).collect(),
        (0..3).filter(|i| mask[*i + 3]).map(|i| r[i]).collect(),
    )
}
pub fn constraints(mask: &[bool; 6], ignored: &[String]) -> Constraints {
    Constraints {
        position_x: mask[0],
        position_y: mask[1],
        position_z: mask[2],
        rotation_x: mask[3],
        rotation_y: mask[4],
        rotation_z: mask[5],
        ignored_joint_names: ignored.to_vec(),
    }
}
fn sum(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |a, b| a + *b)
}
fn norm(v: &[f64]) -> f64 {
    let s: Vec<f64> = v.iter().map(|x| *x * *x).collect();
    sum(&s).sqrt()
}
/// Basis of the null space of concrete columns (one per joint), by elimination.
fn null_space(cols: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let n = cols.len();
    let m = if n == 0 { 0 } else { cols[0].len() };
    let mut a: Vec<Vec<f64>> = (0..m).map(|r| (0..n).map(|c| cols[c][r]).collect()).collect();
    let mut piv: Vec<usize> = vec![];
    let mut r = 0;
    for c in 0..n {
        let mut best = r;
        for i in r..m {
            if a[i][c].abs() > a[best][c].abs() {
                best = i;
            }
        }
        if r >= m || a[best][c].abs() < 1e-9 {
            continue;
        }
        a.swap(r, best);
        let p = a[r][c];
        for k in 0..n {
            a[r][k] /= p;
        }
        for i in 0..m {
            if i != r {
                let f = a[i][c];
                for k in 0..n {
                    let x = a[r][k];
                    a[i][k] -= f * x;
                }
            }
        }
        piv.push(c);
        r += 1;
    }
    let mut out = vec![];
    for c in 0..n {
        if piv.contains(&c) {
            continue;
        }
        let mut v = vec![0.0; n];
        v[c] = 1.0;
        for (i, p) in piv.iter().enumerate() {
            v[*p] = -a[i][c];
        }
        out.push(v);
    }
    out
}
const AXES: [[f64; 3]; 4] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.6, 0.8, 0.0]];
fn ax(i: usize) -> na::Unit<V3> {
    na::Unit::new_unchecked(V3::new(AXES[i][0], AXES[i][1], AXES[i][2]))
}
fn light(i: usize, kind: usize, axis: na::Unit<V3>, rot: usize) -> Spec {
    Spec { parent: if i == 0 { None } else { Some(i - 1) }, kind, axis, origin: iso_fixed(&format!("o{}", i), rot) }
}
/// Arm of linear joints with the given axes; a fixed joint at the front, between, or at the end.
fn linear_arm(axes: &[usize], fixed_at: usize, limits: &dyn Fn(usize) -> Option<(f64, f64)>) -> Arm {
    let n = axes.len();
    let mut specs = vec![];
    let mut k = 0;
    for i in 0..n + 1 {
        if i == fixed_at {
            specs.push(light(i, 0, ax(0), 1));
        } else {
            specs.push(light(i, 2, ax(axes[k]), 0));
            k += 1;
        }
    }
    Arm::new(specs, limits)
}
fn sym_vec(n: &str, len: usize) -> Vec<f64> {
    (0..len).map(|i| input(&format!("{}{}", n, i))).collect()
}
fn target(end: &Iso) -> Iso {
    Isometry3::from_parts(Translation3::from(v3("t")), end.rotation)
}
fn names(arm: &Arm) -> Vec<String> {
    arm.mov.iter().map(|i| tricky(*i)).collect()
}
fn mask_of(bits: usize) -> [bool; 6] {
    let mut m = [false; 6];
    for i in 0..6 {
        m[i] = bits >> i & 1 == 1;
    }
    m
}
/// The step the repository made satisfies the equations of the damped Newton step with null-space projection.
fn check_step(arm: &Arm, cols: &[[f64; 6]], mask: &[bool; 6], ignored: &[bool], err: &[f64], sub: Option<&[f64]>, q0: &[f64], q1: &[f64], mult: f64) {
    let free: Vec<usize> = (0..arm.dof()).filter(|i| !ignored[*i]).collect();
    for i in 0..arm.dof() {
        if ignored[i] {
            eq("an ignored joint stays", q1[i], q0[i]);
        }
    }
    let rows: Vec<usize> = (0..6).filter(|i| mask[*i]).collect();
    let c: Vec<Vec<f64>> = free.iter().map(|i| rows.iter().map(|r| cols[*i][*r]).collect()).collect();
    // mult * (J^T J d - J^T err) = 0, with d * mult = q1 - q0
    let d: Vec<f64> = free.iter().map(|i| q1[*i] - q0[*i]).collect();
    let jd: Vec<f64> = (0..rows.len()).map(|r| sum(&(0..free.len()).map(|k| c[k][r] * d[k]).collect::<Vec<_>>())).collect();
    let square = free.len() == rows.len();
    if square {
        for r in 0..rows.len() {
            eq("Jacobian * step = pose error", jd[r], mult * err[r]);
        }
    } else {
        for k in 0..free.len() {
            let l: Vec<f64> = (0..rows.len()).map(|r| c[k][r] * jd[r]).collect();
            let e: Vec<f64> = (0..rows.len()).map(|r| c[k][r] * (mult * err[r])).collect();
            eq("least-squares step", sum(&l), sum(&e));
        }
        for b in null_space(&c) {
            let l: Vec<f64> = (0..free.len()).map(|k| b[k] * d[k]).collect();
            let e: Vec<f64> = (0..free.len())
                .map(|k| match sub {
                    Some(s) => b[k] * (mult * s[free[k]]),
                    None => 0.0,
                })
                .collect();
            eq("null-space part of the step", sum(&l), sum(&e));
        }
    }
}
/// A solver that accepts any pose, so that one call is one iteration.
fn stepper(mult: f64, tries: usize) -> JacobianIkSolver<f64> {
    JacobianIkSolver::new(INF, INF, mult, tries)
}

// ---------------------------------------------------------------- C17
/// Arms of 1..=n linear joints, any axes of the list, any position mask, any (or no) null-space vector.
fn step_linear(max: usize, ignore: bool) {
    let n = 1 + choose("dof", max);
    let axes: Vec<usize> = (0..n).map(|i| choose(&format!("axis{}", i), AXES.len())).collect();
    let arm = linear_arm(&axes, choose("fixed_at", 2) * n, &|_| None);
    let q0 = sym_vec("q", n);
    arm.chain.set_joint_positions(&q0).unwrap();
    let mask = mask_of(1 + choose("mask", 7));
    let req = mask.iter().filter(|x| **x).count();
    let mut ign = vec![false; n];
    let mut list = vec![];
    if ignore {
        let all = names(&arm);
        for s in 0..1 + choose("ignored", 2) {
            let i = choose(&format!("ignore{}", s), n);
            list.push(all[i].clone());
            ign[i] = true;
        }
    }
    let free = ign.iter().filter(|x| !**x).count();
    let mult: f64 = input("mult");
    let cols = arm.jacobian(&q0);
    let rows: Vec<usize> = (0..6).filter(|i| mask[*i]).collect();
    let c: Vec<Vec<f64>> = (0..n).filter(|i| !ign[*i]).map(|i| rows.iter().map(|r| cols[i][*r]).collect()).collect();
    let regular = null_space(&c).len() + req == free;
    // singular systems: only those that are singular in machine arithmetic too (no rounding in the elimination), and
    // none for redundant arms (outside the claim: full rank)
    assume(regular || free < req || free == req && axes.iter().filter(|a| **a == 3).count() < 2);
    let mut solver = stepper(mult, 1);
    let sub = if flag("nullspace") { Some(sym_vec("s", n)) } else { None };
    if let Some(s) = sub.clone() {
        let expect = q0.clone();
        solver.set_nullspace_function(Box::new(move |q: &[f64]| {
            for (a, b) in q.iter().zip(&expect) {
                eq("the null-space function sees the positions", *a, *b);
            }
            check("all of them", q.len() == expect.len());
            s.clone()
        }));
    }
    let end = arm.pose(&q0);
    let t = target(&end);
    let r = solver.solve_with_constraints(&arm.chain, &t, &constraints(&mask, &list));
    let q1 = arm.q();
    match r {
        Ok(()) => {
            check("enough free joints", free >= req && regular);
            let (e, _) = err_rows(&t, &end, &mask);
            check_step(&arm, &cols, &mask, &ign, &e, sub.as_deref(), &q0, &q1, mult);
            cover(if free > req { "redundant" } else { "square" });
            if ign.iter().any(|x| *x) {
                cover("ignored");
            }
        }
        Err(Error::PreconditionError { dof, necessary_dof }) => {
            check("too few free joints", free < req && dof == free && necessary_dof == req);
            cover("too few");
        }
        Err(Error::InverseMatrixError) => {
            check("square and singular", free == req && !regular);
            for i in 0..n {
                eq("nothing moved", q1[i], q0[i]);
            }
            cover("singular");
        }
        Err(_) => check("typed error", false),
    }
}
fn step_linear_2() {
    step_linear(2, false)
}
fn step_linear_3() {
    step_linear(3, false)
}
fn step_linear_4() {
    step_linear(4, false)
}
fn ignore_linear_3() {
    step_linear(3, true)
}
fn ignore_linear_4() {
    step_linear(4, true)
}
/// Arms of rotational and linear joints at concrete configurations: the Jacobian is concrete, target, multiplier and
/// null-space vector are symbolic.
fn concrete_arm(n: usize, variant: usize) -> (Arm, Vec<f64>) {
    // all constants are dyadic, so that they are exact in the solver's arithmetic too
    let specs: Vec<Spec> = (0..n)
        .map(|i| {
            let t = Translation3::new(0.25 * ((i + variant) % 3) as f64, 0.125 * (i % 2) as f64 - 0.0625, 0.5 - 0.125 * (i % 4) as f64);
            let kind = if variant == 1 && i == 1 { 2 } else { 1 };
            Spec {
                parent: if i == 0 { None } else { Some(i - 1) },
                kind,
                axis: ax((i + variant) % 3),
                origin: Isometry3::from_parts(t, rot_fixed(if i == 2 { variant } else { 0 })),
            }
        })
        .collect();
    let q: Vec<f64> = (0..n).map(|i| 0.375 - 0.25 * ((i * 2 + variant) % 5) as f64 + 0.0625 * i as f64).collect();
    (Arm::new(specs, &|_| None), q)
}
fn step_concrete(max: usize) {
    step_arm(1 + choose("dof", max), &[63, 7, 56, 21, 42, 3, 32, 43, 1, 9], false)
}
/// Arms of the sizes robots have: six and seven joints.
fn step_arm_6() {
    step_arm(6, &[63, 7, 43], true)
}
fn step_arm_7() {
    step_arm(7, &[63, 7, 62], true)
}
fn step_arm(n: usize, masks: &[usize], one: bool) {
    let variant = choose("variant", 3);
    let (arm, q0) = concrete_arm(n, variant);
    arm.chain.set_joint_positions(&q0).unwrap();
    // masks: all six, position only, rotation only, mixtures
    let mask = mask_of(masks[choose("mask", masks.len())]);
    let req = mask.iter().filter(|x| **x).count();
    let mut ign = vec![false; n];
    let mut list = vec![];
    let ignored = if one {
        [vec![], vec![1], vec![n - 1], vec![3, 0]][choose("ignored", 4)].clone()
    } else if flag("ignore") {
        vec![choose("ignored", n)]
    } else {
        vec![]
    };
    for i in ignored {
        ign[i] = true;
        list.push(names(&arm)[i].clone());
    }
    let free = n - list.len();
    assume(free >= req);
    let mult: f64 = input("mult");
    let mut solver = stepper(mult, 1);
    let sub = if flag("nullspace") { Some(sym_vec("s", n)) } else { None };
    if let Some(s) = sub.clone() {
        solver.set_nullspace_function(Box::new(move |_: &[f64]| s.clone()));
    }
    let end = arm.pose(&q0);
    // the target: any position; the orientation is turned by one of three concrete rotations
    let turned = (3..6).any(|i| mask[i]);
    let dr = match if turned { choose("turn", if one { 2 } else { 3 }) } else { 0 } {
        0 => na::Unit::new_unchecked(na::Quaternion::new(1.0, 0.0, 0.0, 0.0)),
        1 => na::Unit::new_normalize(na::Quaternion::new(1.0, 0.125, -0.0625, 0.25)),
        _ => na::Unit::new_normalize(na::Quaternion::new(-1.0, 0.5, 0.25, 0.125)),
    };
    let t = Isometry3::from_parts(Translation3::from(v3("t")), dr * end.rotation);
    let cols = arm.jacobian(&q0);
    let rows: Vec<usize> = (0..6).filter(|i| mask[*i]).collect();
    let c: Vec<Vec<f64>> = (0..n).filter(|i| !ign[*i]).map(|i| rows.iter().map(|r| cols[i][*r]).collect()).collect();
    let regular = null_space(&c).len() == free - req;
    // singular configurations are the subject of the linear arms and of C21
    assume(regular);
    let r = solver.solve_with_constraints(&arm.chain, &t, &constraints(&mask, &list));
    check("one iteration", r.is_ok());
    let q1 = arm.q();
    let (mut e, er) = err_rows(&t, &end, &mask);
    e.extend(er);
    check_step(&arm, &cols, &mask, &ign, &e, sub.as_deref(), &q0, &q1, mult);
    cover(if free > req { "redundant" } else { "square" });
}
fn step_concrete_3() {
    step_concrete(3)
}
fn step_concrete_4() {
    step_concrete(4)
}
fn step_concrete_7() {
    step_concrete(7)
}
/// Rotational arms with symbolic angles and lengths, square 1x1 and 2x2 systems.
fn step_rot(n: usize) {
    let z = 2;
    let specs: Vec<Spec> = (0..n + 1)
        .map(|i| {
            let mut s = light(i, if i == n { 0 } else { 1 }, ax(z), 0);
            let (x, y) = (s.origin.translation.vector.x, s.origin.translation.vector.y);
            let _ = y;
            s.origin = Isometry3::from_parts(
                Translation3::new(if i == 0 { 0.0 } else { x }, 0.0, 0.0),
                na::Unit::new_unchecked(na::Quaternion::new(1.0, 0.0, 0.0, 0.0)),
            );
            s
        })
        .collect();
    let arm = Arm::new(specs, &|_| None);
    let q0: Vec<f64> = (0..n).map(|i| angle(&format!("q{}", i))).collect();
    arm.chain.set_joint_positions(&q0).unwrap();
    let mask = if n == 1 { mask_of([1, 2, 32][choose("mask", 3)]) } else { mask_of(3) };
    let mult: f64 = input("mult");
    let solver = stepper(mult, 1);
    let cols = arm.jacobian(&q0);
    let rows: Vec<usize> = (0..6).filter(|i| mask[*i]).collect();
    let det = if n == 1 { cols[0][rows[0]] } else { cols[0][rows[0]] * cols[1][rows[1]] - cols[1][rows[0]] * cols[0][rows[1]] };
    // away from the singular set, where machine arithmetic decides by rounding
    assume(det > 0.01 || det < -0.01);
    if n == 2 {
        // follows from the determinant; stated for the solver
        assume(cols[0][rows[0]] != 0.0 || cols[0][rows[1]] != 0.0);
    }
    let end = arm.pose(&q0);
    let dr = if mask[5] {
        // any turn about z
        let a: f64 = angle("turn");
        let h = a * 0.5;
        na::Unit::new_unchecked(na::Quaternion::new(h.cos(), 0.0, 0.0, h.sin()))
    } else {
        na::Unit::new_unchecked(na::Quaternion::new(1.0, 0.0, 0.0, 0.0))
    };
    let t = Isometry3::from_parts(Translation3::from(v3("t")), dr * end.rotation);
    let r = solver.solve_with_constraints(&arm.chain, &t, &constraints(&mask, &[]));
    let q1 = arm.q();
    check("regular", r.is_ok());
    let (mut e, er) = err_rows(&t, &end, &mask);
    e.extend(er);
    check_step(&arm, &cols, &mask, &vec![false; n], &e, None, &q0, &q1, mult);
    cover("square");
}
fn step_rot_1() {
    step_rot(1)
}
fn step_rot_2() {
    step_rot(2)
}
fn reference_helper() {
    let n = choose("n", 4);
    let (r, w, p) = (sym_vec("r", n), sym_vec("w", n), sym_vec("p", n));
    let f = create_reference_positions_nullspace_function(r.clone(), w.clone());
    let v = f(&p);
    check("one entry per joint", v.len() == n);
    for i in 0..n {
        eq("weight times the offset from the reference", v[i], w[i] * (p[i] - r[i]));
    }
    cover("end");
}

// ---------------------------------------------------------------- C14 / C15 on arms whose step is known exactly
fn clamp(x: f64, l: Option<(f64, f64)>) -> f64 {
    match l {
        Some((lo, hi)) => {
            if x < lo {
                lo
            } else if x > hi {
                hi
            } else {
                x
            }
        }
        None => x,
    }
}
/// Cartesian arm: n linear joints along different world axes, any limits (or none), start positions anywhere (also outside
/// the limits), any target, multiplier and tolerance, 1..=tries tries, the constrained coordinates being those the joints
/// move.  The whole run is predicted and compared: success exactly when the distance after some step is below the tolerance.
fn cartesian(n: usize, tries: usize, prop14: bool) {
    let tries = if prop14 { 1 + choose("tries", tries) } else { choose("tries", tries + 1) };
    let order = choose("order", 3);
    let lim: Vec<Option<(f64, f64)>> = (0..n)
        .map(|i| {
            if flag(&format!("limited{}", i)) {
                let (lo, hi): (f64, f64) = (input(&format!("lo{}", i)), input(&format!("hi{}", i)));
                assume(lo <= hi);
                Some((lo, hi))
            } else {
                None
            }
        })
        .collect();
    let l2 = lim.clone();
    let id = |i: usize, axis| Spec {
        parent: if i == 0 { None } else { Some(i - 1) },
        kind: 2,
        axis,
        origin: iso_fixed(&format!("o{}", i), 0),
    };
    let specs: Vec<Spec> = (0..n).map(|i| id(i, ax((i + order) % 3))).collect();
    let arm = Arm::new(specs, &move |i| l2[i]);
    let q0 = sym_vec("q", n);
    arm.chain.set_joint_positions_unchecked(&q0);
    let mut mask = [false; 6];
    for i in 0..n {
        mask[(i + order) % 3] = true;
    }
    let (mult, tol): (f64, f64) = (input("mult"), input("tol"));
    let solver = JacobianIkSolver::new(tol, INF, mult, tries);
    let t = target(&arm.pose(&q0));
    let r = solver.solve_with_constraints(&arm.chain, &t, &constraints(&mask, &[]));
    let left = arm.q();
    // prediction
    let mut q = q0.clone();
    let mut reached = false;
    let mut dist = vec![];
    for _ in 0..tries {
        let e = arm.pose(&q);
        for i in 0..n {
            let d = t.translation.vector[(i + order) % 3] - e.translation.vector[(i + order) % 3];
            q[i] = clamp(q[i] + mult * d, lim[i]);
        }
        let e = arm.pose(&q);
        dist = err_rows(&t, &e, &mask).0;
        if norm(&dist) < tol {
            reached = true;
            break;
        }
    }
    match r {
        Ok(()) => {
            let (d, _) = err_rows(&t, &arm.pose(&left), &mask);
            lt("reached within the distance tolerance", norm(&d), tol);
            for i in 0..n {
                if let Some((lo, hi)) = lim[i] {
                    le("lower limit", lo, left[i]);
                    le("upper limit", left[i], hi);
                }
            }
            check("success only when reached", reached);
            for i in 0..n {
                eq("position left", left[i], q[i]);
            }
            cover("reached");
        }
        Err(Error::NotConvergedError { num_tried, position_diff, .. }) => {
            check("failure only when not reached", !reached);
            check("number of tries", num_tried == tries);
            for i in 0..n {
                eq("failure restores the position", left[i], q0[i]);
            }
            if tries > 0 {
                for i in 0..n {
                    let k = (i + order) % 3;
                    let e = t.translation.vector[k] - arm.pose(&q).translation.vector[k];
                    eq("reported position difference", position_diff[k], e);
                }
            }
            let _ = &dist;
            cover("not reached");
        }
        Err(_) => check("typed error", false),
    }
}
fn cartesian_1_2() {
    cartesian(1, 2, true)
}
fn cartesian_2_1() {
    cartesian(2, 1, true)
}
fn cartesian_3_1() {
    cartesian(3, 1, true)
}
fn cartesian_2_2() {
    cartesian(2, 2, true)
}
fn restore_1_2() {
    cartesian(1, 2, false)
}
fn restore_2_1() {
    cartesian(2, 1, false)
}
fn restore_3_1() {
    cartesian(3, 1, false)
}
/// One linear and one rotational joint, constrained in x and in rotation about z: success means both the distance and the
/// angle are within tolerance, whatever the joints' limits did to the step.
fn slide_turn() {
    let limited = choose("limited", 3);
    let (lo, hi): (f64, f64) = (input("lo"), input("hi"));
    assume(lo <= hi);
    let id = Isometry3::from_parts(Translation3::new(0.0, 0.0, 0.0), na::Unit::new_unchecked(na::Quaternion::new(1.0, 0.0, 0.0, 0.0)));
    let first = flag("slide_first");
    let specs: Vec<Spec> = (0..2)
        .map(|i| {
            let slide = (i == 0) == first;
            Spec { parent: if i == 0 { None } else { Some(0) }, kind: if slide { 2 } else { 1 }, axis: if slide { ax(if first { 0 } else { 2 }) } else { ax(2) }, origin: id }
        })
        .collect();
    let si = if first { 0 } else { 1 };
    let arm = Arm::new(specs, &|i| if limited == 1 && i == si || limited == 2 && i != si { Some((lo, hi)) } else { None });
    let mut mask = [false; 6];
    mask[if first { 0 } else { 2 }] = true;
    mask[5] = true;
    let mut q0 = vec![];
    for i in 0..2 {
        q0.push(if i == si { input("s") } else { angle("a") });
    }
    arm.chain.set_joint_positions_unchecked(&q0);
    let (tol, tola): (f64, f64) = (input("tol"), input("tola"));
    let solver = JacobianIkSolver::new(tol, tola, 1.0, 1);
    // the target is turned from the start by a concrete angle
    let turn = match choose("turn", 3) {
        0 => na::Quaternion::new(1.0, 0.0, 0.0, 0.0),
        1 => na::Quaternion::new(0.8, 0.0, 0.0, 0.6),
        _ => na::Quaternion::new(0.28, 0.0, 0.0, -0.96),
    };
    let start = arm.pose(&q0);
    let t = Isometry3::from_parts(Translation3::from(v3("t")), na::Unit::new_unchecked(turn) * start.rotation);
    let r = solver.solve_with_constraints(&arm.chain, &t, &constraints(&mask, &[]));
    let left = arm.q();
    match r {
        Ok(()) => {
            let (d, a) = err_rows(&t, &arm.pose(&left), &mask);
            lt("reached within the distance tolerance", norm(&d), tol);
            lt("reached within the angle tolerance", norm(&a), tola);
            if limited > 0 {
                let k = if limited == 1 { si } else { 1 - si };
                le("lower limit", lo, left[k]);
                le("upper limit", left[k], hi);
            }
            cover("reached");
        }
        Err(Error::NotConvergedError { num_tried, .. }) => {
            check("number of tries", num_tried == 1);
            for i in 0..2 {
                eq("failure restores the position", left[i], q0[i]);
            }
            cover("not reached");
        }
        Err(_) => check("typed error", false),
    }
}
/// Rotational arm of one or two joints whose limits drive it into its stretched configuration: the second iteration has no
/// inverse.
fn singular_later() {
    let n = 1 + choose("joints", 2);
    let specs: Vec<Spec> = (0..n + 1)
        .map(|i| Spec {
            parent: if i == 0 { None } else { Some(i - 1) },
            kind: if i == n { 0 } else { 1 },
            axis: ax(2),
            origin: Isometry3::from_parts(
                Translation3::new(if i == 0 { 0.0 } else { 1.0 }, 0.0, 0.0),
                na::Unit::new_unchecked(na::Quaternion::new(1.0, 0.0, 0.0, 0.0)),
            ),
        })
        .collect();
    let arm = Arm::new(specs, &|i| if i < n { Some((0.0, 0.0)) } else { None });
    let q0: Vec<f64> = if n == 1 { vec![angle("q0")] } else { vec![0.25, 0.5] };
    arm.chain.set_joint_positions_unchecked(&q0);
    let tries = 2 + choose("tries", 2);
    let tol: f64 = input("tol");
    let mult: f64 = if n == 1 { input("mult") } else { 0.75 };
    let solver = JacobianIkSolver::new(tol, INF, mult, tries);
    let end = arm.pose(&q0);
    let t = if n == 1 {
        target(&end)
    } else {
        let p = [[3.0, 1.0], [-1.0, 4.0], [0.5, -0.5]][choose("target", 3)];
        Isometry3::from_parts(Translation3::new(p[0], p[1], 0.0), end.rotation)
    };
    let mask = mask_of(if n == 1 { 1 } else { 3 });
    // the step takes every joint past its limit (not exactly onto it), so that the limit is what it is left at
    let (c, e) = (arm.jacobian(&q0), err_rows(&t, &end, &mask).0);
    if n == 1 {
        let det = c[0][0];
        assume(det > 0.01 || det < -0.01);
        assume(q0[0] + mult * (e[0] / c[0][0]) != 0.0);
    }
    let r = solver.solve_with_constraints(&arm.chain, &t, &constraints(&mask, &[]));
    let left = arm.q();
    match r {
        Ok(()) => {
            let (d, _) = err_rows(&t, &arm.pose(&left), &mask);
            lt("reached within the distance tolerance", norm(&d), tol);
            cover("reached");
        }
        Err(e) => {
            check("singular", matches!(e, Error::InverseMatrixError));
            for i in 0..n {
                eq("failure restores the position", left[i], q0[i]);
            }
            cover("singular");
        }
    }
}

// ---------------------------------------------------------------- C16
/// Unconstrained coordinates of the target have no influence.
fn unconstrained(max: usize) {
    let n = 1 + choose("dof", max);
    let axes: Vec<usize> = (0..n).map(|i| choose(&format!("axis{}", i), AXES.len())).collect();
    let mask = mask_of(choose("mask", 8));
    let req = mask.iter().filter(|x| **x).count();
    assume(req < 3 && n >= req);
    let q0 = sym_vec("q", n);
    let mult: f64 = input("mult");
    let a = linear_arm(&axes, n, &|_| None);
    let end = a.pose(&q0);
    let t1 = target(&end);
    let mut t2 = t1;
    let o = v3("other");
    for i in 0..3 {
        if !mask[i] {
            t2.translation.vector[i] = o[i];
        }
    }
    t2.rotation = rot_fixed(choose("turn", 4)) * t2.rotation;
    let solver = stepper(mult, 1);
    let mut qs = vec![];
    let mut ok = vec![];
    for t in [t1, t2].iter() {
        a.chain.set_joint_positions(&q0).unwrap();
        ok.push(solver.solve_with_constraints(&a.chain, t, &constraints(&mask, &[])).is_ok());
        qs.push(a.q());
    }
    check("same outcome", ok[0] == ok[1]);
    for i in 0..n {
        eq("same positions", qs[0][i], qs[1][i]);
    }
    cover(if ok[0] { "solved" } else { "refused" });
}
fn unconstrained_2() {
    unconstrained(2)
}
fn unconstrained_3() {
    unconstrained(3)
}
/// Ignored joints stay where they are over several iterations, success or failure, also with limits.
fn ignored_hold() {
    let n = 3;
    let lim: Vec<Option<(f64, f64)>> =
        (0..n).map(|i| if flag(&format!("limited{}", i)) { Some((-1.0, 2.0)) } else { None }).collect();
    let third = choose("third", 2);
    let specs: Vec<Spec> = (0..n).map(|i| light(i, 2, ax([0, 1, third][i]), 0)).collect();
    let l2 = lim.clone();
    let arm = Arm::new(specs, &move |i| l2[i]);
    let q0 = sym_vec("q", n);
    let i = choose("ignored", n);
    assume(lim[i].is_none() || (q0[i] >= -1.0 && q0[i] <= 2.0));
    arm.chain.set_joint_positions_unchecked(&q0);
    let mask = mask_of(3);
    let tries = 1 + choose("tries", 2);
    let (tol, mult): (f64, f64) = (input("tol"), 0.5);
    let solver = JacobianIkSolver::new(tol, INF, mult, tries);
    let t = target(&arm.pose(&q0));
    let r = solver.solve_with_constraints(&arm.chain, &t, &constraints(&mask, &[names(&arm)[i].clone()]));
    let left = arm.q();
    eq("an ignored joint stays", left[i], q0[i]);
    cover(if r.is_ok() { "solved" } else { "refused" });
}

// ---------------------------------------------------------------- C21
/// Every mask, every list of up to two ignored names (known, repeated, unknown), 0..=2 tries.
fn requests(n: usize, len: usize) {
    let kinds: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { 2 } else { 1 }).collect();
    let specs: Vec<Spec> = (0..n.max(1))
        .map(|i| {
            let mut s = light(i, if n == 0 { 0 } else { kinds[i] }, ax(i % 3), 0);
            s.origin = Isometry3::from_parts(
                Translation3::new(0.5, 0.25 * i as f64, -0.125),
                na::Unit::new_unchecked(na::Quaternion::new(1.0, 0.0, 0.0, 0.0)),
            );
            s
        })
        .collect();
    let arm = Arm::new(specs, &|_| None);
    let q0: Vec<f64> = (0..n).map(|i| 0.25 + 0.125 * i as f64).collect();
    arm.chain.set_joint_positions(&q0).unwrap();
    let mask = mask_of(choose("mask", 64));
    let req = mask.iter().filter(|x| **x).count();
    let all = names(&arm);
    let mut list: Vec<String> = vec![];
    let mut ign = vec![false; n];
    let mut unknown = false;
    for s in 0..choose("ignored", len + 1) {
        let i = choose(&format!("ignore{}", s), n + 1);
        if i < n {
            ign[i] = true;
            list.push(all[i].clone());
        } else {
            unknown = true;
            // also one that differs from the joints' names only a little
            list.push(["nobody", "j1x", "J", ""][choose(&format!("unknown{}", s), 4)].to_string());
        }
    }
    let free = ign.iter().filter(|x| !**x).count();
    let tries = choose("tries", 3);
    let tol: f64 = input("tol");
    let mut solver = JacobianIkSolver::new(tol, INF, 1.0, tries);
    if flag("nullspace") {
        solver.set_nullspace_function(Box::new(move |_: &[f64]| sym_vec("s", n)));
    }
    let end = arm.pose(&q0);
    // more than one iteration only for unreachable targets at concrete places (a symbolic one is C14's)
    let t = if tries == 2 { Isometry3::from_parts(Translation3::new(0.5, 1.0, 2.0), end.rotation) } else { target(&end) };
    if tries == 2 {
        solver.clear_nullspace_function();
        solver.allowable_target_distance = -1.0;
    }
    let r = solver.solve_with_constraints(&arm.chain, &t, &constraints(&mask, &list));
    let left = arm.q();
    match r {
        Ok(()) => {
            check("possible request", !unknown && free >= req && tries > 0);
            cover("solved");
            return;
        }
        Err(Error::PreconditionError { dof, necessary_dof }) => {
            check("too few free joints", (unknown || dof == free) && necessary_dof == req && dof < req);
            cover("too few");
        }
        Err(Error::InvalidJointNameError { joint_name }) => {
            check("the unknown name", unknown && list.iter().any(|x| *x == joint_name) && !all.contains(&joint_name));
            cover("unknown name");
        }
        Err(Error::InverseMatrixError) => {
            check("possible request, square system", !unknown && free == req && tries > 0);
            cover("singular");
        }
        Err(Error::NotConvergedError { num_tried, .. }) => {
            check("possible request, number of tries", !unknown && free >= req && num_tried == tries);
            cover("not converged");
        }
        Err(_) => check("typed error", false),
    }
    for i in 0..n {
        eq("a refused request moves nothing", left[i], q0[i]);
    }
}
fn requests_0() {
    requests(0, 1)
}
fn requests_1() {
    requests(1, 2)
}
fn requests_2() {
    requests(2, 3)
}
fn requests_3() {
    requests(3, 2)
}

pub fn harnesses() -> Vec<Harness> {
    let h = |name, prop, mode, tier, f, bounds, covers| Harness { name, prop, mode, tier, f, bounds, covers };
    vec![
        h("cartesian_1_2", "C14", "real", 0, cartesian_1_2, "1 linear joint, any limits or none, any start, target, multiplier, tolerance; 1 or 2 tries", &["reached", "not reached"]),
        h("cartesian_2_1", "C14", "real", 0, cartesian_2_1, "2 linear joints along different axes, any limits or none each, any start, target, multiplier, tolerance; 1 try", &["reached", "not reached"]),
        h("cartesian_3_1", "C14", "real", 0, cartesian_3_1, "3 linear joints along different axes, any limits or none each, any start, target, multiplier, tolerance; 1 try", &["reached", "not reached"]),
        h("cartesian_2_2", "C14", "real", 0, cartesian_2_2, "2 linear joints along different axes, any limits or none each, any start, target, multiplier, tolerance; up to 2 tries", &["reached", "not reached"]),
        h("slide_turn", "C14", "real", 0, slide_turn, "one linear and one rotational joint in either order, x (z) and rotation about z constrained, any start, target position, tolerances and limits, three target turns; 1 try", &["reached", "not reached"]),
        h("restore_1_2", "C15", "real", 0, restore_1_2, "1 linear joint, any limits or none, any start (also outside the limits), target, multiplier, tolerance; 0..2 tries", &["reached", "not reached"]),
        h("restore_2_1", "C15", "real", 0, restore_2_1, "2 linear joints, any limits or none each, any start (also outside the limits), target, multiplier, tolerance; 0..1 tries", &["reached", "not reached"]),
        h("restore_3_1", "C15", "real", 0, restore_3_1, "3 linear joints, any limits or none each, any start (also outside the limits), target, multiplier, tolerance; 0..1 tries", &["reached", "not reached"]),
        h("singular_later", "C15", "real", 0, singular_later, "planar arms of one joint (any start angle, target, multiplier) and two joints (one start, three targets) driven into their stretched configuration by their limits, any tolerance; 2..3 tries", &["singular", "reached"]),
        h("ignore_linear_3", "C16", "real", 0, ignore_linear_3, "arms of 1..3 linear joints along any of 4 axes plus a fixed one, every position mask, every list of 1..2 ignored names (any order, repeated), any start, target, multiplier, null-space vector; one iteration", &["redundant", "square", "ignored", "too few", "singular"]),
        h("ignore_linear_4", "C16", "real", 1, ignore_linear_4, "arms of 1..4 linear joints along any of 4 axes plus a fixed one, every position mask, every list of 1..2 ignored names (any order, repeated), any start, target, multiplier, null-space vector; one iteration", &["redundant", "square", "ignored", "too few", "singular"]),
        h("unconstrained_2", "C16", "real", 0, unconstrained_2, "arms of 1..2 linear joints along any of 4 axes, every position mask of 0..2 coordinates, any two targets agreeing on them, 4 orientations; one iteration", &["solved"]),
        h("unconstrained_3", "C16", "real", 0, unconstrained_3, "arms of 1..3 linear joints along any of 4 axes, every position mask of 0..2 coordinates, any two targets agreeing on them, 4 orientations; one iteration", &["solved"]),
        h("ignored_hold", "C16", "real", 0, ignored_hold, "3 linear joints (x, y and x or y), each with or without limits, any one ignored, x and y constrained, any start, target, tolerance, multiplier 1/2; up to 2 tries", &["solved", "refused"]),
        h("step_linear_2", "C17", "real", 0, step_linear_2, "arms of 1..2 linear joints along any of 4 axes plus a fixed one, every position mask, any start, target, multiplier, null-space vector; one iteration", &["redundant", "square", "too few", "singular"]),
        h("step_linear_3", "C17", "real", 0, step_linear_3, "arms of 1..3 linear joints along any of 4 axes plus a fixed one, every position mask, any start, target, multiplier, null-space vector; one iteration", &["redundant", "square", "too few", "singular"]),
        h("step_linear_4", "C17", "real", 0, step_linear_4, "arms of 1..4 linear joints along any of 4 axes plus a fixed one, every position mask, any start, target, multiplier, null-space vector; one iteration", &["redundant", "square", "too few", "singular"]),
        h("step_concrete_3", "C17", "real", 0, step_concrete_3, "arms of 1..3 rotational/linear joints at 3 concrete configurations, 10 constraint masks with rotations, any or no ignored joint, any target position, 3 turns, any multiplier and null-space vector; one iteration", &["redundant", "square"]),
        h("step_concrete_4", "C17", "real", 1, step_concrete_4, "arms of 1..4 rotational/linear joints at 3 concrete configurations, 10 constraint masks with rotations, any or no ignored joint, any target position, 3 turns, any multiplier and null-space vector; one iteration", &["redundant", "square"]),
        h("step_concrete_7", "C17", "real", 1, step_concrete_7, "arms of 1..7 rotational/linear joints at 3 concrete configurations, 10 constraint masks with rotations, any or no ignored joint, any target position, 3 turns, any multiplier and null-space vector; one iteration", &["redundant", "square"]),
        h("step_arm_6", "C17", "real", 0, step_arm_6, "arms of 6 rotational/linear joints at 3 concrete configurations, all six / position only / four coordinates constrained, 0..2 ignored joints (4 lists), any target position, 2 turns, any multiplier and null-space vector; one iteration", &["redundant", "square"]),
        h("step_arm_7", "C17", "real", 0, step_arm_7, "arms of 7 rotational/linear joints at 3 concrete configurations, all six / position only / five coordinates constrained, 0..2 ignored joints (4 lists), any target position, 2 turns, any multiplier and null-space vector; one iteration", &["redundant", "square"]),
        h("step_rot_1", "C17", "real", 0, step_rot_1, "one rotational joint, any angle, length, target, multiplier, turn; one coordinate (x, y or rotation about z) constrained; one iteration", &["square"]),
        h("step_rot_2", "C17", "real", 0, step_rot_2, "planar arm of two rotational joints, any angles, lengths, target, multiplier; x and y constrained, away from the singular set; one iteration", &["square"]),
        h("reference_helper", "C17", "real", 0, reference_helper, "0..3 joints, any reference, weight and position", &["end"]),
        h("requests_0", "C21", "real", 0, requests_0, "arm without movable joints, every constraint mask, 0..1 ignored names, 0..2 tries, with and without null-space function", &["solved", "too few", "unknown name"]),
        h("requests_1", "C21", "real", 0, requests_1, "arm of 1 joint, every constraint mask, every list of 0..2 ignored names (known, repeated, unknown), 0..2 tries, with and without null-space function", &["solved", "too few", "unknown name", "singular", "not converged"]),
        h("requests_2", "C21", "real", 0, requests_2, "arm of 2 joints, every constraint mask, every list of 0..3 ignored names (known, repeated, unknown), 0..2 tries, with and without null-space function", &["solved", "too few", "unknown name", "singular", "not converged"]),
        h("requests_3", "C21", "real", 0, requests_3, "arm of 3 joints, every constraint mask, every list of 0..2 ignored names (known, repeated, unknown), 0..2 tries, with and without null-space function", &["solved", "too few", "unknown name", "singular", "not converged"]),
    ]
}
