//! C10 Jacobian, C11 center of mass, C12 link transforms, C13 velocities.
use crate::common::*;
use crate::fk::*;
use k::nalgebra as na;
use k::*;
use symrt::*;

/// d f / d q_j: exact differentiation of the recorded terms, or central differences in the native replay.
fn deriv(f: &dyn Fn(&[f64]) -> Vec<f64>, q: &[f64], j: usize) -> Vec<f64> {
    if is_native() {
        let h = 1e-5;
        let (mut a, mut b) = (q.to_vec(), q.to_vec());
        a[j] -= h;
        b[j] += h;
        let (x, y) = (f(&a), f(&b));
        x.iter().zip(&y).map(|(x, y)| (y - x) / (2.0 * h)).collect()
    } else {
        f(q).iter().map(|x| diff(*x, q[j])).collect()
    }
}
/// translation and rotation matrix, row-major
pub fn flat(t: &Iso) -> Vec<f64> {
    let r = t.rotation.to_rotation_matrix();
    let mut v = vec![t.translation.vector.x, t.translation.vector.y, t.translation.vector.z];
    for i in 0..3 {
        for j in 0..3 {
            v.push(r[(i, j)]);
        }
    }
    v
}
/// dR = [w]x R
fn check_angular(n: &str, d: &[f64], r: &[f64], w: &V3) {
    let sk = na::Matrix3::new(0.0, -w.z, w.y, w.z, 0.0, -w.x, -w.y, w.x, 0.0);
    for i in 0..3 {
        for j in 0..3 {
            let mut s = 0.0;
            for k in 0..3 {
                s += sk[(i, k)] * r[3 + 3 * k + j];
            }
            eq(n, d[3 + 3 * i + j], s);
        }
    }
}
fn jac(specs: Vec<Spec>, updated: bool) {
    describe(&specs);
    let n = specs.len();
    let (nodes, q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    if updated {
        chain.update_transforms();
    }
    command(&chain, &nodes, &specs, &q);
    let arm = SerialChain::from_end(&nodes[n - 1]);
    check_jac(&arm, &specs, &q);
    cover("end");
}
fn check_jac(arm: &SerialChain<f64>, specs: &[Spec], q: &[f64]) {
    let n = specs.len();
    let j = jacobian(arm);
    let mov: Vec<usize> = (0..n).filter(|i| specs[*i].kind != 0).collect();
    check("6 rows, one column per movable joint", j.nrows() == 6 && j.ncols() == mov.len());
    let f = |x: &[f64]| flat(&world(specs, x)[n - 1]);
    let r = f(q);
    for (c, i) in mov.iter().enumerate() {
        let d = deriv(&f, q, *i);
        for k in 0..3 {
            eq("linear part = d position / d q", j[(k, c)], d[k]);
        }
        check_angular("angular part = rotation rate", &d, &r, &V3::new(j[(3, c)], j[(4, c)], j[(5, c)]));
    }
}
fn jac_1() {
    jac(general_specs(&serial(1)), false)
}
/// the joint under test general, the others light
fn jac_mixed(n: usize) {
    let g = choose("general", n);
    let specs: Vec<Spec> = (0..n)
        .map(|i| {
            let kind = choose(&format!("kind{}", i), 3);
            let parent = if i == 0 { None } else { Some(i - 1) };
            if i == g {
                Spec { parent, kind, axis: axis(&format!("a{}", i)), origin: iso_fixed(&format!("o{}", i), i + 1) }
            } else {
                Spec { parent, kind, axis: fixed_axis(i), origin: iso_fixed(&format!("o{}", i), i + 1) }
            }
        })
        .collect();
    jac(specs, flag("updated"))
}
fn jac_2() {
    jac_mixed(2)
}
fn jac_3() {
    jac_mixed(3)
}
fn jac_light(n: usize) {
    let p = choose("phase", 3);
    let a = choose("axes", 3);
    let kinds: Vec<usize> = (0..n).map(|i| if n > 4 && i % 3 == 0 && p == 2 { 1 } else { (i + p) % 3 }).collect();
    let mut s = light_specs(&serial(n), &kinds);
    for (i, x) in s.iter_mut().enumerate() {
        x.axis = fixed_axis(i + a);
    }
    jac(s, false)
}
fn jac_light_4() {
    jac_light(4)
}
fn jac_light_6() {
    jac_light(6)
}
fn jac_long() {
    jac(long_specs(12, false), flag("updated"))
}
fn jac_past() {
    let p = choose("phase", 2);
    let specs = light_specs(&serial(3), &[1 + p, 2 - p, 1]);
    let (nodes, mut q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    past(&chain, &nodes, &specs, &mut q);
    check_jac(&SerialChain::from_end(&nodes[2]), &specs, &q);
    cover("end");
}
/// A part of a robot whose base is not at the origin.
fn jac_part() {
    let n = 3;
    let r = 1 + choose("root", 2);
    let kinds: Vec<usize> = (0..n).map(|i| 1 + choose(&format!("kind{}", i), 2)).collect();
    let specs = light_specs(&serial(n), &kinds);
    let (nodes, q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    command(&chain, &nodes, &specs, &q);
    if flag("updated") {
        chain.update_transforms();
    }
    let arm = SerialChain::from_end_to_root(&nodes[n - 1], &nodes[r]);
    let sub: Vec<Spec> = (r..n)
        .map(|i| Spec { parent: if i == r { None } else { Some(i - r - 1) }, kind: specs[i].kind, axis: specs[i].axis, origin: specs[i].origin })
        .collect();
    check_jac(&arm, &sub, &q[r..]);
    cover("end");
}

// ---------------------------------------------------------------- C11
/// Long lines and wide trees, all joints or all but one with links.
fn com_long() {
    let w = flag("wide");
    com_of(long_specs(12, w), false, true)
}
fn com(specs: Vec<Spec>, any_past: bool) {
    com_of(specs, any_past, false)
}
fn com_of(specs: Vec<Spec>, any_past: bool, all: bool) {
    describe(&specs);
    let n = specs.len();
    let (nodes, q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    let mut have = vec![];
    let without = if all { [n, 0, n / 2][choose("without link", 3)] } else { n };
    for (i, x) in nodes.iter().enumerate() {
        if if all { without != i } else { flag(&format!("link{}", i)) } {
            let m: f64 = input(&format!("m{}", i));
            let c = iso_fixed(&format!("c{}", i), i + 2);
            assume(m >= 0.0);
            let mut inertial = link::Inertial::from_mass(m);
            inertial.set_origin(c);
            x.set_link(Some(link::LinkBuilder::new().name("l").inertial(inertial).finalize()));
            have.push((i, m, c));
        }
    }
    assume(!have.is_empty());
    assume(have.iter().fold(0.0, |s, x| s + x.1) > 0.0);
    let mut q = q;
    if any_past {
        past(&chain, &nodes, &specs, &mut q);
    } else {
        if flag("updated") {
            chain.update_transforms();
        }
        command(&chain, &nodes, &specs, &q);
    }
    let got = center_of_mass(&chain);
    let w = world(&specs, &q);
    let mut total = 0.0;
    let mut sum = V3::new(0.0, 0.0, 0.0);
    for (i, m, c) in &have {
        let p = w[*i].rotation.to_rotation_matrix() * c.translation.vector + w[*i].translation.vector;
        sum += p * *m;
        total += *m;
    }
    eq_v("center of mass * total mass", &(got * total), &sum);
    check("links untouched", nodes.iter().filter(|x| x.link().is_some()).count() == have.len());
    let _ = n;
    cover("end");
}
fn com_2() {
    com(general_specs(&shape(2)), false)
}
fn com_light_3() {
    let k: Vec<usize> = (0..3).map(|i| choose(&format!("kind{}", i), 3)).collect();
    com(light_specs(&shape(3), &k), false)
}
fn com_light_4() {
    let p = choose("phase", 2);
    com(light_specs(&shape(4), &[1 + p, 2 - p, 1, 2]), false)
}

fn com_past() {
    let p = choose("phase", 2);
    com(light_specs(&shape(3), &[1 + p, 2 - p, 1]), true)
}

// ---------------------------------------------------------------- C12
fn links_long() {
    let w = flag("wide");
    links_of(long_specs(12, w), 1, 1, false, true)
}
/// Many parts of one link.
fn links_many() {
    let (v, c) = ([0, 1, 9][choose("visuals", 3)], [0, 1, 9][choose("collisions", 3)]);
    links_of(light_specs(&serial(2), &[1, 2]), v, c, false, true)
}
fn links(specs: Vec<Spec>, nv: usize, nc: usize, any_past: bool) {
    links_of(specs, nv, nc, any_past, false)
}
fn links_of(specs: Vec<Spec>, nv: usize, nc: usize, any_past: bool, all: bool) {
    describe(&specs);
    let (nodes, q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    let mut parts: Vec<Option<(Iso, Vec<Iso>, Vec<Iso>)>> = vec![];
    let without = if all { [nodes.len(), 0, nodes.len() / 2][choose("without link", 3)] } else { 0 };
    for (i, x) in nodes.iter().enumerate() {
        if if all { without == i } else { !flag(&format!("link{}", i)) } {
            parts.push(None);
            continue;
        }
        let io = iso_fixed(&format!("i{}", i), i);
        let v: Vec<Iso> = (0..nv).map(|j| iso_fixed(&format!("v{}_{}", i, j), i + j + 1)).collect();
        let c: Vec<Iso> = (0..nc).map(|j| iso_fixed(&format!("c{}_{}", i, j), i + j + 2)).collect();
        let mut b = link::LinkBuilder::new().name(&format!("l{}", i)).inertial(link::Inertial::new(io, 1.0, na::Matrix3::identity()));
        for (j, o) in v.iter().enumerate() {
            b = b.add_visual(link::Visual::new(
                format!("v{}", j),
                *o,
                link::Geometry::Sphere { radius: 1.0 },
                link::Material { name: "m".into(), color: link::Color::default(), texture: link::Texture::default() },
            ));
        }
        for (j, o) in c.iter().enumerate() {
            b = b.add_collision(link::Collision::new(format!("c{}", j), *o, link::Geometry::Sphere { radius: 1.0 }));
        }
        x.set_link(Some(b.finalize()));
        parts.push(Some((io, v, c)));
    }
    let mut q = q;
    if any_past {
        past(&chain, &nodes, &specs, &mut q);
    } else {
        if flag("updated") {
            chain.update_link_transforms();
        }
        command(&chain, &nodes, &specs, &q);
    }
    chain.update_link_transforms();
    let w = world(&specs, &q);
    let mut seen = 0;
    for (i, x) in nodes.iter().enumerate() {
        eq_iso("joint pose updated", &x.world_transform().unwrap(), &w[i]);
        let l = x.link();
        match (&*l, &parts[i]) {
            (None, None) => {}
            (Some(l), Some((io, v, c))) => {
                seen += 1;
                eq_iso("inertial", &l.inertial.world_transform().unwrap(), &(w[i] * io));
                check("number of parts", l.visuals.len() == v.len() && l.collisions.len() == c.len());
                for (a, o) in l.visuals.iter().zip(v) {
                    eq_iso("visual", &a.world_transform().unwrap(), &(w[i] * o));
                }
                for (a, o) in l.collisions.iter().zip(c) {
                    eq_iso("collision", &a.world_transform().unwrap(), &(w[i] * o));
                }
            }
            _ => check("links stay where they were", false),
        }
    }
    check("iter_links visits every link", chain.iter_links().count() == seen);
    cover("end");
}
fn links_2() {
    links(general_specs(&shape(2)), 1, 1, false)
}
fn links_3() {
    let p = choose("phase", 3);
    links(light_specs(&shape(3), &[p, (p + 1) % 3, (p + 2) % 3]), 2, 2, false)
}
fn links_counts() {
    let p = choose("phase", 2);
    let (v, c) = (choose("visuals", 4), choose("collisions", 4));
    links(light_specs(&serial(2), &[1 + p, 2 - p]), v, c, false)
}
fn links_past() {
    let p = choose("phase", 2);
    links(light_specs(&shape(3), &[1 + p, 2 - p, 1]), 1, 1, true)
}

// ---------------------------------------------------------------- C13
/// Velocities after any past of updates.
fn vel_past() {
    let p = choose("phase", 2);
    let specs = light_specs(&shape(3), &[1 + p, 2 - p, 1]);
    let n = specs.len();
    let mut qd = vec![0.0; n];
    let nodes: Vec<Node<f64>> = specs
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let mut j = Joint::new(&format!("j{}", i), joint_type(s.kind, s.axis));
            j.set_origin(s.origin);
            qd[i] = input(&format!("qd{}", i));
            j.set_joint_velocity(qd[i]).unwrap();
            j.into()
        })
        .collect();
    connect_all(&specs, &nodes);
    let mut q: Vec<f64> = (0..n).map(|i| position(&format!("q{}", i), specs[i].kind)).collect();
    let chain = Chain::from_root(nodes[0].clone());
    past(&chain, &nodes, &specs, &mut q);
    check_vel(&chain, &nodes, &specs, &q, &qd);
    cover("end");
}
/// The velocities of a part of a robot, with or without anything known about the rest.
fn vel_part() {
    let n = 3;
    let p = choose("phase", 2);
    let specs = light_specs(&shape(n), &[1 + p, 2 - p, 1]);
    let mut qd = vec![0.0; n];
    let mut q = vec![0.0; n];
    let nodes: Vec<Node<f64>> = specs
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let mut j = Joint::new(&format!("j{}", i), joint_type(s.kind, s.axis));
            j.set_origin(s.origin);
            q[i] = position(&format!("q{}", i), s.kind);
            qd[i] = input(&format!("qd{}", i));
            j.set_joint_position(q[i]).unwrap();
            j.set_joint_velocity(qd[i]).unwrap();
            j.into()
        })
        .collect();
    connect_all(&specs, &nodes);
    match choose("rest", 3) {
        0 => {}
        1 => {
            Chain::from_root(nodes[0].clone()).update_transforms();
        }
        _ => {
            Chain::from_root(nodes[0].clone()).update_velocities();
        }
    }
    let e = choose("end", n);
    let part = match choose("part", 3) {
        0 => Chain::from_root(nodes[e].clone()),
        1 => Chain::from_end(&nodes[e]),
        _ => Chain::from_end_to_root(&nodes[e], &nodes[e]),
    };
    check_vel(&part, &nodes, &specs, &q, &qd);
    cover("end");
}
fn vel_long() {
    let w = flag("wide");
    vel(long_specs(12, w))
}
fn vel(specs: Vec<Spec>) {
    describe(&specs);
    let n = specs.len();
    let (nodes, q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    if flag("updated") {
        chain.update_velocities();
    }
    command(&chain, &nodes, &specs, &q);
    let mut qd = vec![0.0; n];
    for i in 0..n {
        if specs[i].kind != 0 {
            qd[i] = input(&format!("qd{}", i));
            let j = Joint::clone(&nodes[i].joint());
            let mut j = j;
            j.set_joint_velocity(qd[i]).unwrap();
            check("velocity is set", same_term(j.joint_velocity().unwrap(), qd[i]));
        }
    }
    // velocities are set on joints before they become part of a robot
    let vnodes: Vec<Node<f64>> = specs
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let mut j = Joint::new(&format!("j{}", i), joint_type(s.kind, s.axis));
            j.set_origin(s.origin);
            if s.kind != 0 {
                j.set_joint_position(q[i]).unwrap();
                j.set_joint_velocity(qd[i]).unwrap();
            }
            j.into()
        })
        .collect();
    connect_all(&specs, &vnodes);
    let chain = Chain::from_root(vnodes[0].clone());
    check_vel(&chain, &vnodes, &specs, &q, &qd);
    cover("end");
}
fn check_vel(chain: &Chain<f64>, vnodes: &[Node<f64>], specs: &[Spec], q: &[f64], qd: &[f64]) {
    let got = chain.update_velocities();
    check("one velocity per joint", got.len() == chain.iter().count());
    for (k, x) in chain.iter().enumerate() {
        let i = index_of(vnodes, x);
        let f = |y: &[f64]| flat(&world(specs, y)[i]);
        let mut d = vec![0.0; 12];
        // only joints on the path to the root matter
        let mut a = Some(i);
        while let Some(j) = a {
            if specs[j].kind != 0 {
                let dj = deriv(&f, q, j);
                for m in 0..12 {
                    d[m] += dj[m] * qd[j];
                }
            }
            a = specs[j].parent;
        }
        let v = got[k];
        for m in 0..3 {
            eq("linear velocity = d position / dt", v.translation[m], d[m]);
        }
        check_angular("angular velocity = rotation rate", &d, &f(q), &v.rotation);
        let w = x.world_velocity();
        check("joint reports a velocity", w.is_some());
        eq_v("reported velocity", &w.unwrap().translation, &v.translation);
        eq_v("reported velocity", &w.unwrap().rotation, &v.rotation);
    }
}
fn vel_1() {
    vel(general_specs(&serial(1)))
}
fn vel_2() {
    let k: Vec<usize> = (0..2).map(|i| choose(&format!("kind{}", i), 3)).collect();
    let mut s = light_specs(&serial(2), &k);
    let g = choose("general", 2);
    s[g].axis = axis("a");
    vel(s)
}
fn vel_3() {
    let k: Vec<usize> = (0..3).map(|i| choose(&format!("kind{}", i), 3)).collect();
    vel(light_specs(&shape(3), &k))
}
fn vel_4() {
    let p = choose("phase", 3);
    vel(light_specs(&shape(4), &[1 + p % 2, (p + 2) % 3, 1, (p + 1) % 3]))
}

pub fn harnesses() -> Vec<Harness> {
    let h = |name, prop, tier, f, bounds| Harness { name, prop, mode: "real", tier, f, bounds, covers: &["end"] };
    let l = "coordinate axes, concrete origin rotations, any origin translations, any positions";
    let _ = l;
    vec![
        h("jac_1", "C10", 0, jac_1, "1 joint of any kind, axis, rigid origin, position"),
        h("jac_2", "C10", 0, jac_2, "2 joints of any kinds, one with any axis, any origin translations, any positions"),
        h("jac_3", "C10", 0, jac_3, "3 joints of any kinds, one with any axis, any origin translations, any positions"),
        h("jac_light_4", "C10", 0, jac_light_4, "4 joints of mixed kinds, coordinate axes, any origin translations, any positions"),
        h("jac_light_6", "C10", 0, jac_light_6, "6 joints of mixed kinds, coordinate axes, any origin translations, any positions"),
        h("jac_part", "C10", 0, jac_part, "every end part of a 3-joint robot of movable kinds, before and after an update, any origin translations, any positions"),
        h("jac_long", "C10", 0, jac_long, "lines of 12 joints of all kinds, two rotational joints anywhere, coordinate axes, any origin translations, any positions"),
        h("com_long", "C11", 0, com_long, "lines and wide trees of 12 joints of all kinds, all or all but one with a link, two rotational joints anywhere, coordinate axes, any origin translations, positions, masses >= 0 (not all 0) and centers"),
        h("links_long", "C12", 0, links_long, "lines and wide trees of 12 joints of all kinds, all or all but one with a link of 1 visual and 1 collision, two rotational joints anywhere, coordinate axes, any translations and positions"),
        h("links_many", "C12", 0, links_many, "2 joints with links of 0, 1 or 9 visuals and collisions"),
        h("vel_long", "C13", 0, vel_long, "lines and wide trees of 12 joints of all kinds, two rotational joints anywhere, coordinate axes, any translations, positions and velocities"),
        h("jac_past", "C10", 0, jac_past, "3 movable joints, coordinate axes, any origin translations and positions, with any past of the update of the whole and then of a part after one joint was moved"),
        h("com_past", "C11", 0, com_past, "every tree of 3 movable joints, coordinate axes, any translations, positions, masses >= 0 (not all 0) and centers; any subset carrying links; any past of the update of the whole and then of a part after one joint was moved"),
        h("links_counts", "C12", 0, links_counts, "2 joints of mixed kinds with links of 0-3 visuals and 0-3 collisions, any element translations and positions"),
        h("links_past", "C12", 0, links_past, "every tree of 3 joints with links; any past of the update of the whole and then of a part after one joint was moved"),
        h("vel_past", "C13", 0, vel_past, "every tree of 3 movable joints, coordinate axes, any origin translations, positions, velocities; any past of the update of the whole and then of a part after one joint was moved"),
        h("vel_part", "C13", 0, vel_part, "every path and subtree of every tree of 3 movable joints, the rest updated or never; coordinate axes, any origin translations, positions, velocities"),
        h("com_2", "C11", 0, com_2, "2 joints of any kind, axis, rigid origin, position; any masses >= 0 (not all 0) and centers; any subset carrying links"),
        h("com_light_3", "C11", 0, com_light_3, "every tree of 3 joints of any kinds, coordinate axes, any translations, positions, masses >= 0 (not all 0) and centers; any subset carrying links"),
        h("com_light_4", "C11", 0, com_light_4, "every tree of 4 movable joints, coordinate axes, any translations, positions, masses >= 0 (not all 0) and centers; any subset carrying links"),
        h("links_2", "C12", 0, links_2, "2 joints of any kind, axis, origin, position; any subset with a link having 1 visual and 1 collision, any element translations"),
        h("links_3", "C12", 0, links_3, "every tree of 3 joints of mixed kinds; any subset with a link having 2 visuals and 2 collisions, any element translations"),
        h("vel_1", "C13", 0, vel_1, "1 joint of any kind, axis, rigid origin, position, velocity"),
        h("vel_2", "C13", 0, vel_2, "2 joints of any kinds, one with any axis, any origin translations, positions, velocities"),
        h("vel_3", "C13", 0, vel_3, "every tree of 3 joints of any kinds, coordinate axes, any origin translations, positions, velocities"),
        h("vel_4", "C13", 0, vel_4, "every tree of 4 joints of mixed kinds, coordinate axes, any origin translations, positions, velocities"),
    ]
}
