//! C02 joint transform, C03 limits.
use crate::common::*;
use k::joint::Range;
use k::nalgebra as na;
use k::*;
use symrt::*;

// ---------------------------------------------------------------- C02
fn local_general() {
    let kind = choose("kind", 3);
    note(kind_name(kind));
    let a = axis("a");
    let o = iso("o");
    let q = position("q", kind);
    let mut j = Joint::new("j", joint_type(kind, a));
    j.set_origin(o);
    if kind != 0 {
        j.set_joint_position_unchecked(q);
    }
    let l = j.local_transform();
    // oracle: Rodrigues' formula applied to the three base vectors, then the origin as a rotation matrix
    let r = o.rotation.to_rotation_matrix();
    let e = [V3::new(1.0, 0.0, 0.0), V3::new(0.0, 1.0, 0.0), V3::new(0.0, 0.0, 1.0)];
    let ax = a.into_inner();
    for (i, v) in e.iter().enumerate() {
        let m = match kind {
            1 => v * q.cos() + ax.cross(v) * q.sin() + ax * (ax.dot(v) * (1.0 - q.cos())),
            _ => *v,
        };
        let want = r * m;
        let got = l.rotation.to_rotation_matrix() * v;
        eq_v(&format!("column {}", i), &got, &want);
    }
    let t = if kind == 2 { o.translation.vector + r * (ax * q) } else { o.translation.vector };
    eq_v("translation", &l.translation.vector, &t);
    cover(kind_name(kind));
}
fn origin_accessors() {
    let o = iso("o");
    let p = iso("p");
    let kind = choose("kind", 3);
    let n = NodeBuilder::new()
        .translation(o.translation)
        .rotation(o.rotation)
        .joint_type(joint_type(kind, fixed_axis(0)))
        .into_node();
    eq_iso("builder origin", &n.origin(), &o);
    eq_iso("joint origin", n.joint().origin(), &o);
    eq_iso("local at zero", &n.joint().local_transform(), &o);
    n.set_origin(p);
    eq_iso("set_origin", &n.origin(), &p);
    eq_iso("local at zero after set_origin", &n.joint().local_transform(), &p);
    let m = NodeBuilder::new().origin(o).joint_type(joint_type(kind, fixed_axis(0))).into_node();
    let c = Chain::from_root(m);
    eq_iso("chain origin", &c.origin(), &o);
    c.set_origin(p);
    eq_iso("chain set_origin", &c.origin(), &p);
    eq_iso("update after set_origin", &c.update_transforms()[0], &p);
    cover("end");
}

// ---------------------------------------------------------------- C03
fn jt<T: Num>(kind: usize) -> JointType<T> {
    match kind {
        0 => JointType::Fixed,
        1 => JointType::Rotational { axis: na::Vector3::y_axis() },
        _ => JointType::Linear { axis: na::Vector3::x_axis() },
    }
}
fn nan<T: Num>(x: T) -> bool {
    x != x
}
/// set_joint_position on a joint in an arbitrary state
fn limit_set<T: Num>() {
    let kind = choose("kind", 3);
    let limited = flag("limited");
    let via_node = flag("via_node");
    let (lo, hi, x, old): (T, T, T, T) = (input("lo"), input("hi"), input("x"), input("old"));
    let mut j = Joint::new("the_joint", jt::<T>(kind));
    if limited {
        assume(lo <= hi);
        j.limits = Some(Range::new(lo, hi));
    }
    if kind != 0 {
        j.set_joint_position_unchecked(old);
    }
    let (r, j) = if via_node {
        let n: Node<T> = j.into();
        let r = n.set_joint_position(x);
        let j = n.joint().clone();
        (r, j)
    } else {
        let r = j.set_joint_position(x);
        (r, j)
    };
    match r {
        Ok(()) => {
            check("fixed joint accepts no position", kind != 0);
            eq("accepted position is stored", j.joint_position().unwrap(), x);
            if limited {
                le("accepted position >= min", lo, x);
                le("accepted position <= max", x, hi);
            }
            cover("accepted");
        }
        Err(e) => {
            if kind == 0 {
                check("fixed: no position", j.joint_position().is_none());
                check("fixed: error kind", matches!(e, Error::SetToFixedError { ref joint_name } if joint_name == "the_joint"));
                cover("fixed");
            } else {
                eq("rejected position leaves the old one", j.joint_position().unwrap(), old);
                check("only limits reject", limited);
                check("rejected position is outside the limits", !(lo <= x && x <= hi));
                match e {
                    Error::OutOfLimitError { joint_name, position, max_limit, min_limit } => {
                        check("error names the joint", joint_name == "the_joint");
                        let w = |v: T| -> f64 { na::try_convert(v).unwrap_or_default() };
                        eq("error position", position, w(x));
                        eq("error max", max_limit, w(hi));
                        eq("error min", min_limit, w(lo));
                    }
                    _ => check("error kind", false),
                }
                cover("rejected");
            }
        }
    }
}
fn limit_set_f64() {
    limit_set::<f64>()
}
fn limit_set_f32() {
    limit_set::<f32>()
}
fn limit_clamp<T: Num>() {
    let kind = choose("kind", 3);
    let limited = flag("limited");
    let via_node = flag("via_node");
    let (lo, hi, x, old): (T, T, T, T) = (input("lo"), input("hi"), input("x"), input("old"));
    let mut j = Joint::new("j", jt::<T>(kind));
    if limited {
        assume(lo <= hi);
        j.limits = Some(Range::new(lo, hi));
    }
    if kind != 0 {
        j.set_joint_position_unchecked(old);
    }
    assume(!nan(x));
    let j = if via_node {
        let n: Node<T> = j.into();
        n.set_joint_position_clamped(x);
        let j = n.joint().clone();
        j
    } else {
        j.set_joint_position_clamped(x);
        j
    };
    match j.joint_position() {
        None => check("fixed", kind == 0),
        Some(p) => {
            check("movable", kind != 0);
            if limited {
                le("clamped position >= min", lo, p);
                le("clamped position <= max", p, hi);
                if lo <= x && x <= hi {
                    eq("position inside the limits is kept", p, x);
                    cover("inside");
                } else if x < lo {
                    eq("clamped to min", p, lo);
                    cover("below");
                } else {
                    eq("clamped to max", p, hi);
                    cover("above");
                }
            } else {
                eq("no limits: kept", p, x);
            }
        }
    }
}
fn limit_clamp_f64() {
    limit_clamp::<f64>()
}
fn limit_clamp_f32() {
    limit_clamp::<f32>()
}
fn range_new<T: Num>() {
    let (lo, hi, x): (T, T, T) = (input("lo"), input("hi"), input("x"));
    let via_from = flag("via_from");
    let r = catch(|| if via_from { Range::from(lo..=hi) } else { Range::new(lo, hi) });
    match r {
        Err(_) => {
            check("ordered bounds are accepted", !(lo <= hi));
            cover("refused");
        }
        Ok(r) => {
            check("bounds in a range are ordered", lo <= hi);
            eq("min", r.min, lo);
            eq("max", r.max, hi);
            check("is_valid is lo <= x <= hi", r.is_valid(x) == (lo <= x && x <= hi));
            if !nan(x) {
                let c = r.clamp(x);
                le("clamp >= min", lo, c);
                le("clamp <= max", c, hi);
                if r.is_valid(x) {
                    eq("clamp keeps a valid value", c, x);
                } else if x < lo {
                    eq("clamp below", c, lo);
                } else {
                    eq("clamp above", c, hi);
                }
                eq("clamp is idempotent", r.clamp(c), c);
            }
            cover("built");
        }
    }
}
fn range_f64() {
    range_new::<f64>()
}
fn range_f32() {
    range_new::<f32>()
}
/// A whole chain: whatever vector is commanded through the checked or clamped setters, no joint leaves its limits.
fn chain_limits<T: Num>(n: usize) {
    let mut nodes: Vec<Node<T>> = vec![];
    let mut lim = vec![];
    for i in 0..n {
        let kind = choose(&format!("kind{}", i), 3);
        let limited = kind != 0 && flag(&format!("limited{}", i));
        let (lo, hi): (T, T) = (input(&format!("lo{}", i)), input(&format!("hi{}", i)));
        let mut b = NodeBuilder::new().name(&format!("j{}", i)).joint_type(jt::<T>(kind));
        if limited {
            assume(lo <= hi);
            b = b.limits(Some(Range::new(lo, hi)));
        }
        let node = b.into_node();
        if limited {
            let s: T = input(&format!("start{}", i));
            assume(lo <= s && s <= hi);
            node.set_joint_position(s).unwrap();
        }
        if i > 0 {
            node.set_parent(&nodes[i - 1]);
        }
        if kind != 0 {
            lim.push((limited, lo, hi, node.joint_position().unwrap()));
        }
        nodes.push(node);
    }
    let c = Chain::from_root(nodes[0].clone());
    let xs: Vec<T> = (0..c.dof()).map(|i| input(&format!("x{}", i))).collect();
    let clamped = flag("clamped");
    let ok = if clamped {
        for x in &xs {
            assume(!nan(*x));
        }
        c.set_joint_positions_clamped(&xs);
        true
    } else {
        c.set_joint_positions(&xs).is_ok()
    };
    let ps = c.joint_positions();
    check("positions vector has dof entries", ps.len() == lim.len());
    let mut all_in = true;
    for (i, (limited, lo, hi, start)) in lim.iter().enumerate() {
        if *limited {
            le("joint >= min", *lo, ps[i]);
            le("joint <= max", ps[i], *hi);
            all_in &= *lo <= xs[i] && xs[i] <= *hi;
        }
        if !clamped {
            if ok {
                eq("accepted vector is stored", ps[i], xs[i]);
            } else {
                // a refused vector may have been applied to a prefix, but never leaves anything else behind
                check("old or commanded", same_bits(ps[i], *start) || same_bits(ps[i], xs[i]));
            }
        }
    }
    if !clamped {
        check("accepted exactly when every joint is within its limits", ok == all_in);
        cover(if ok { "ok" } else { "refused" });
    } else {
        cover("clamped");
    }
}
fn same_bits<T: Num>(a: T, b: T) -> bool {
    same_term(a, b) || a == b || (nan(a) && nan(b))
}
fn chain_limits_2() {
    chain_limits::<f64>(2)
}
fn chain_limits_3() {
    chain_limits::<f64>(3)
}
fn chain_limits_2_f32() {
    chain_limits::<f32>(2)
}
/// Velocity setter.
fn velocity_set() {
    let kind = choose("kind", 3);
    let (x, y): (f64, f64) = (input("x"), input("y"));
    let mut j = Joint::new("j", jt::<f64>(kind));
    let a = j.set_joint_velocity(x);
    let b = j.set_joint_velocity(y);
    if kind == 0 {
        check("fixed joint has no velocity", a.is_err() && b.is_err() && j.joint_velocity().is_none());
        check("error kind", matches!(a, Err(Error::SetToFixedError { .. })));
        cover("fixed");
    } else {
        check("accepted", a.is_ok() && b.is_ok());
        eq("velocity is the last one set", j.joint_velocity().unwrap(), y);
        eq("position is not touched", j.joint_position().unwrap(), 0.0);
        cover("movable");
    }
}

pub fn harnesses() -> Vec<Harness> {
    let b = "one joint; every IEEE value (incl. NaN, infinities, subnormals) of limits, command and previous position; joint kinds, limited or not, Joint and Node entry points forked";
    vec![
        Harness { name: "local_general", prop: "C02", mode: "real", tier: 0, f: local_general, bounds: "one joint of each kind; any unit axis, any rigid origin, any position (exact reals)", covers: &["fixed", "rotational", "linear"] },
        Harness { name: "origin_accessors", prop: "C02", mode: "real", tier: 0, f: origin_accessors, bounds: "one joint of each kind, any two rigid origins", covers: &["end"] },
        Harness { name: "limit_set_f64", prop: "C03", mode: "fp", tier: 0, f: limit_set_f64, bounds: b, covers: &["accepted", "rejected", "fixed"] },
        Harness { name: "limit_set_f32", prop: "C03", mode: "fp", tier: 0, f: limit_set_f32, bounds: b, covers: &["accepted", "rejected", "fixed"] },
        Harness { name: "limit_clamp_f64", prop: "C03", mode: "fp", tier: 0, f: limit_clamp_f64, bounds: b, covers: &["inside", "below", "above"] },
        Harness { name: "limit_clamp_f32", prop: "C03", mode: "fp", tier: 0, f: limit_clamp_f32, bounds: b, covers: &["inside", "below", "above"] },
        Harness { name: "range_f64", prop: "C03", mode: "fp", tier: 0, f: range_f64, bounds: "every IEEE lo, hi, x", covers: &["refused", "built"] },
        Harness { name: "range_f32", prop: "C03", mode: "fp", tier: 0, f: range_f32, bounds: "every IEEE lo, hi, x", covers: &["refused", "built"] },
        Harness { name: "chain_limits_2", prop: "C03", mode: "fp", tier: 0, f: chain_limits_2, bounds: "serial chain of 2 joints of any kinds, limits, start and command", covers: &["ok", "refused", "clamped"] },
        Harness { name: "chain_limits_2_f32", prop: "C03", mode: "fp", tier: 0, f: chain_limits_2_f32, bounds: "serial chain of 2 joints of any kinds, limits, start and command (f32)", covers: &["ok", "refused", "clamped"] },
        Harness { name: "chain_limits_3", prop: "C03", mode: "fp", tier: 1, f: chain_limits_3, bounds: "serial chain of 3 joints of any kinds, limits, start and command", covers: &["ok", "refused", "clamped"] },
        Harness { name: "velocity_set", prop: "C03", mode: "fp", tier: 0, f: velocity_set, bounds: "one joint of each kind, any two velocities", covers: &["fixed", "movable"] },
    ]
}
