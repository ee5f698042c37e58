//! C24 listings and printout, C25 builders and parts, C26 a solver's past.
use crate::common::*;
use crate::ik::{constraints, Arm, INF};
use k::joint::{Mimic, Range, Velocity};
use k::link::*;
use k::nalgebra as na;
use k::*;
use na::Matrix3;
use symrt::*;

// ---------------------------------------------------------------- C24
const SIGN: [&str; 3] = ["[\u{2693}]", "\u{2699}", "\u{2195}"];
fn axis_of(i: usize) -> (Unit, &'static str) {
    match i % 7 {
        0 => (Vector3::x_axis(), "+X"),
        1 => (Vector3::y_axis(), "+Y"),
        2 => (Vector3::z_axis(), "+Z"),
        3 => (-Vector3::x_axis(), "-X"),
        4 => (-Vector3::y_axis(), "-Y"),
        5 => (-Vector3::z_axis(), "-Z"),
        _ => (na::Unit::new_unchecked(V3::new(0.6, 0.0, 0.8)), ""),
    }
}
type Unit = na::Unit<V3>;
/// Every tree; the chain from a root, an end or an end and a root; any subset of the joints with links.
fn listing(n: usize) {
    let parent = shape(n);
    let phase = choose("phase", 3);
    let naming = choose("naming", 3);
    let name = |i: usize| match naming {
        0 => tricky(i),
        1 => "same".to_string(),
        _ => String::new(),
    };
    let mut text = vec![];
    let nodes: Vec<Node<f64>> = (0..n)
        .map(|i| {
            let kind = (i + phase) % 3;
            let (a, sign) = axis_of(i + 2 * phase);
            text.push(if kind == 0 { format!("{} {}", name(i), SIGN[0]) } else { format!("{} [{}{}]", name(i), SIGN[kind], sign) });
            NodeBuilder::new().name(&name(i)).joint_type(joint_type(kind, a)).into_node()
        })
        .collect();
    let mut link = vec![];
    for i in 0..n {
        if let Some(p) = parent[i] {
            nodes[i].set_parent(&nodes[p]);
        }
        let l = if flag(&format!("link{}", i)) { Some(format!("l{}", if naming == 1 { 0 } else { i })) } else { None };
        if let Some(l) = &l {
            nodes[i].set_link(Some(LinkBuilder::new().name(l).finalize()));
            text[i] += &format!(" => /{}/", l);
        }
        check("link() tells whether a joint carries a link", nodes[i].link().as_ref().map(|x| x.name.clone()) == l);
        check("a printed joint", nodes[i].to_string() == text[i]);
        link.push(l);
    }
    let a = choose("node", n);
    let mut up = vec![a];
    while let Some(p) = parent[*up.last().unwrap()] {
        up.push(p);
    }
    let how = choose("how", 3);
    let (chain, top) = match how {
        0 => (Chain::from_root(nodes[a].clone()), a),
        1 => (Chain::from_end(&nodes[a]), 0),
        _ => {
            let k = choose("root", up.len());
            (Chain::from_end_to_root(&nodes[a], &nodes[up[k]]), up[k])
        }
    };
    let idx: Vec<usize> = chain.iter().map(|x| index_of(&nodes, x)).collect();
    let links: Vec<String> = chain.iter_links().map(|l| l.name.clone()).collect();
    check("iter_links lists the links in the order of the joints", links == idx.iter().filter_map(|i| link[*i].clone()).collect::<Vec<_>>());
    for i in 0..n {
        // the first joint with that name
        let want = idx.iter().find(|j| name(**j) == name(i)).cloned();
        check("find gives the first joint of that name", chain.find(&name(i)).map(|x| index_of(&nodes, x)) == want);
    }
    for t in ["nobody", "same ", "jj", "j1 \n"] {
        check("find of an unknown name", chain.find(t).is_none());
    }
    // the printout, read back by its indentation
    let shown = if naming == 1 { SerialChain::new_unchecked(chain).to_string() } else { chain.to_string() };
    let lines: Vec<&str> = shown.lines().collect();
    check("one line per joint", lines.len() == idx.len() && shown.ends_with('\n'));
    let mut open: Vec<usize> = vec![];
    let mut left = idx.clone();
    for l in lines {
        let mut t = l;
        let mut level = 0;
        while t.starts_with("    ") {
            t = &t[4..];
            level += 1;
        }
        check("indented under an open joint", level <= open.len());
        open.truncate(level);
        let above = open.last().cloned();
        let at = left.iter().position(|i| text[*i] == t && (level > 0 && parent[*i] == above || level == 0 && *i == top));
        check("the line of a joint under its parent", at.is_some());
        open.push(left.remove(at.unwrap()));
    }
    check("every joint printed", left.is_empty());
    cover(["from_root", "from_end", "from_end_to_root"][how]);
}
fn listing_3() {
    listing(3)
}
fn listing_4() {
    listing(4)
}
/// The printed axis of a joint with any axis.
fn axis_text() {
    let v = v3("a");
    let linear = flag("linear");
    let j = Joint::new("j", joint_type(if linear { 2 } else { 1 }, na::Unit::new_unchecked(v)));
    let got = j.to_string();
    let mut sign = String::new();
    for (i, n) in ["X", "Y", "Z"].iter().enumerate() {
        for (s, t) in [(1.0, "+"), (-1.0, "-")] {
            if v[i] == s && v[(i + 1) % 3] == 0.0 && v[(i + 2) % 3] == 0.0 {
                sign = format!("{}{}", t, n);
            }
        }
    }
    check("printed axis", got == format!("j [{}{}]", SIGN[if linear { 2 } else { 1 }], sign));
    cover(if sign.is_empty() { "other" } else { "coordinate axis" });
}
/// An empty chain lists nothing.
fn listing_empty() {
    let c: Chain<f64> = Chain::from_nodes(vec![]);
    check("no joints", c.iter().count() == 0 && c.iter_joints().count() == 0 && c.iter_links().count() == 0 && c.dof() == 0);
    check("find", c.find("").is_none());
    check("no positions", c.joint_positions().is_empty());
    check("no transforms", c.update_transforms().is_empty() && c.update_velocities().is_empty());
    c.update_link_transforms();
    c.set_joint_positions_clamped(&[]);
    check("an empty vector", c.set_joint_positions(&[]).is_ok());
    check("a longer vector", c.set_joint_positions(&[input("x")]).is_err());
    check("nothing printed", c.to_string().is_empty());
    check("clone", c.clone().iter().count() == 0);
    cover("end");
}

// ---------------------------------------------------------------- C25
/// Every sequence of `steps` calls of the builder.
fn node_builder(steps: usize) {
    let mut b = if flag("default") { NodeBuilder::<f64>::default() } else { NodeBuilder::new() };
    let mut name = String::new();
    let mut kind = (0, None);
    let mut lim: Option<(f64, f64)> = None;
    let mut origin = Iso::identity();
    for s in 0..steps {
        match choose(&format!("call{}", s), 6) {
            0 => {
                name = tricky(s);
                b = b.name(&name);
            }
            1 => {
                let (k, a) = (choose(&format!("kind{}", s), 3), axis(&format!("a{}", s)));
                kind = (k, Some(a));
                b = b.joint_type(joint_type(k, a));
            }
            2 => {
                lim = if flag(&format!("limits{}", s)) {
                    let (lo, hi): (f64, f64) = (input(&format!("lo{}", s)), input(&format!("hi{}", s)));
                    assume(lo <= hi);
                    Some((lo, hi))
                } else {
                    None
                };
                b = b.limits(lim.map(|l| Range::new(l.0, l.1)));
            }
            3 => {
                origin = iso(&format!("o{}", s));
                b = b.origin(origin);
            }
            4 => {
                origin.translation = Translation3::from(v3(&format!("t{}", s)));
                b = b.translation(origin.translation);
            }
            _ => {
                origin.rotation = quat(&format!("r{}", s));
                b = b.rotation(origin.rotation);
            }
        }
    }
    let out = choose("result", 3);
    let node: Node<f64> = match out {
        0 => b.into_node(),
        1 => b.finalize().into(),
        _ => Node::new(b.finalize()),
    };
    check("name", node.joint().name == name);
    eq_iso("origin", &node.origin(), &origin);
    match (node.joint().joint_type.clone(), kind) {
        (JointType::Fixed, (0, _)) => {}
        (JointType::Rotational { axis }, (1, Some(a))) | (JointType::Linear { axis }, (2, Some(a))) => eq_v("axis", &axis, &a),
        _ => check("kind", false),
    }
    match (node.joint().limits.as_ref(), lim) {
        (None, None) => {}
        (Some(r), Some((lo, hi))) => {
            eq("lower limit", r.min, lo);
            eq("upper limit", r.max, hi);
        }
        _ => check("limits", false),
    }
    check("movable", node.joint().is_movable() == (kind.0 != 0));
    match node.joint_position() {
        None => check("only a fixed joint has no position", kind.0 == 0),
        Some(p) => {
            check("only a fixed joint has no position", kind.0 != 0);
            eq("first position", p, 0.0);
        }
    }
    match node.joint().joint_velocity() {
        None => check("only a fixed joint has no velocity", kind.0 == 0),
        Some(p) => {
            check("only a fixed joint has no velocity", kind.0 != 0);
            eq("first velocity", p, 0.0);
        }
    }
    check("a new joint stands alone", node.is_root() && node.is_end() && node.parent().is_none() && node.children().is_empty());
    check("a new joint has no past", node.world_transform().is_none() && node.world_velocity().is_none());
    check("a new joint carries and follows nothing", node.link().is_none() && node.mimic_parent().is_none());
    cover("end");
}
fn node_builder_2() {
    node_builder(2)
}
fn node_builder_3() {
    node_builder(3)
}
fn matrix(n: &str) -> Matrix3<f64> {
    Matrix3::from_fn(|i, j| input(&format!("{}{}{}", n, i, j)))
}
fn same_part(w: &str, got: &Iso, want: &Iso) {
    eq_iso(w, got, want);
}
fn geometry(n: &str, k: usize) -> Geometry<f64> {
    let v = v3(n);
    match k {
        0 => Geometry::Box { depth: v.x, width: v.y, height: v.z },
        1 => Geometry::Cylinder { radius: v.x, length: v.y },
        2 => Geometry::Capsule { radius: v.x, length: v.y },
        3 => Geometry::Sphere { radius: v.x },
        _ => Geometry::Mesh { filename: n.to_string(), scale: v },
    }
}
fn same_geometry(n: &str, k: usize, got: &Geometry<f64>) {
    let v = v3(n);
    let w = match (k, got) {
        (0, Geometry::Box { depth, width, height }) => V3::new(*depth, *width, *height),
        (1, Geometry::Cylinder { radius, length }) | (2, Geometry::Capsule { radius, length }) => V3::new(*radius, *length, v.z),
        (3, Geometry::Sphere { radius }) => V3::new(*radius, v.y, v.z),
        (4, Geometry::Mesh { filename, scale }) => {
            check("mesh file", filename == n);
            *scale
        }
        _ => {
            check("geometry kind", false);
            v
        }
    };
    eq_v("geometry", &w, &v);
}
/// Every sequence of `steps` calls of the link builder.
fn link_builder(steps: usize) {
    let mut b = if flag("default") { LinkBuilder::<f64>::default() } else { LinkBuilder::new() };
    let mut name = String::new();
    let mut inertial: Option<(f64, Iso, String)> = None;
    let (mut vis, mut col): (Vec<(String, usize, Iso)>, Vec<(String, usize, Iso)>) = (vec![], vec![]);
    for s in 0..steps {
        match choose(&format!("call{}", s), 4) {
            0 => {
                name = tricky(s);
                b = b.name(&name);
            }
            1 => {
                let (m, o, t) = (input(&format!("m{}", s)), iso_fixed(&format!("i{}", s), s + 1), format!("I{}", s));
                b = b.inertial(Inertial::new(o, m, matrix(&t)));
                inertial = Some((m, o, t));
            }
            2 => {
                let (t, k, o) = (format!("v{}", s), choose(&format!("geometry{}", s), 5), iso_fixed(&format!("vo{}", s), s));
                let mut mat = Material::default();
                mat.name = format!("paint{}", s);
                b = b.add_visual(Visual::new(t.clone(), o, geometry(&t, k), mat));
                vis.push((t, k, o));
            }
            _ => {
                let (t, k, o) = (format!("c{}", s), choose(&format!("geometry{}", s), 5), iso_fixed(&format!("co{}", s), s));
                b = b.add_collision(Collision::new(t.clone(), o, geometry(&t, k)));
                col.push((t, k, o));
            }
        }
    }
    let built = b.finalize();
    // through a joint and back
    let node: Node<f64> = NodeBuilder::new().into_node();
    let l: Link<f64> = match choose("through", 3) {
        0 => built,
        1 => {
            node.set_link(Some(built));
            let l = node.link().as_ref().unwrap().clone();
            l
        }
        _ => {
            node.set_link(Some(Link::default()));
            node.set_link(Some(built));
            let l = node.link().as_ref().unwrap().clone();
            node.set_link(None);
            check("a removed link is gone", node.link().is_none());
            l
        }
    };
    check("link name", l.name == name);
    let (m, o, t) = inertial.unwrap_or((0.0, Iso::identity(), String::new()));
    let want = if t.is_empty() { Matrix3::identity() } else { matrix(&t) };
    eq("mass", l.inertial.mass, m);
    same_part("inertial origin", l.inertial.origin(), &o);
    for i in 0..9 {
        eq("inertia", l.inertial.inertia[i], want[i]);
    }
    check("no world transform before an update", l.inertial.world_transform().is_none());
    check("visuals in order", l.visuals.iter().map(|v| v.name.clone()).collect::<Vec<_>>() == vis.iter().map(|v| v.0.clone()).collect::<Vec<_>>());
    check("collisions in order", l.collisions.iter().map(|v| v.name.clone()).collect::<Vec<_>>() == col.iter().map(|v| v.0.clone()).collect::<Vec<_>>());
    for (g, w) in l.visuals.iter().zip(&vis) {
        same_part("visual origin", g.origin(), &w.2);
        same_geometry(&w.0, w.1, &g.geometry);
        check("material", g.material.name == format!("paint{}", &w.0[1..]));
        check("no world transform before an update", g.world_transform().is_none());
    }
    for (g, w) in l.collisions.iter().zip(&col) {
        same_part("collision origin", g.origin(), &w.2);
        same_geometry(&w.0, w.1, &g.geometry);
        check("no world transform before an update", g.world_transform().is_none());
    }
    cover("end");
}
fn link_builder_3() {
    link_builder(3)
}
/// Every sequence of three calls of the setters of a part.
fn part_setters() {
    let which = choose("part", 4);
    let o0 = iso("o");
    let m: f64 = input("m");
    let mut i = if which == 3 { Inertial::from_mass(m) } else { Inertial::new(o0, m, matrix("I")) };
    let mut v = Visual::new("v".to_string(), o0, geometry("g", 3), Material::default());
    let mut c = Collision::new("c".to_string(), o0, geometry("g", 0));
    let mut origin = if which == 3 { Iso::identity() } else { o0 };
    let mut world: Option<Iso> = None;
    for s in 0..3 {
        let t = iso(&format!("t{}", s));
        let call = choose(&format!("call{}", s), 3);
        match call {
            // the world transform of the former place is given up
            0 => {
                origin = t;
                world = None;
            }
            1 => world = Some(t),
            _ => world = None,
        }
        match (which, call) {
            (0, 0) => v.set_origin(t),
            (0, 1) => v.set_world_transform(t),
            (0, _) => v.clear_world_transform(),
            (1, 0) => c.set_origin(t),
            (1, 1) => c.set_world_transform(t),
            (1, _) => c.clear_world_transform(),
            (_, 0) => i.set_origin(t),
            (_, 1) => i.set_world_transform(t),
            (_, _) => i.clear_world_transform(),
        }
    }
    let (o, w) = match which {
        0 => (*v.origin(), *v.world_transform()),
        1 => (*c.origin(), *c.world_transform()),
        _ => (*i.origin(), *i.world_transform()),
    };
    eq_iso("origin", &o, &origin);
    match (w, world) {
        (None, None) => {}
        (Some(w), Some(x)) => eq_iso("world transform", &w, &x),
        _ => check("world transform presence", false),
    }
    eq("mass", i.mass, m);
    let want = if which == 3 { Matrix3::identity() } else { matrix("I") };
    for k in 0..9 {
        eq("inertia", i.inertia[k], want[k]);
    }
    same_geometry("g", 3, &v.geometry);
    same_geometry("g", 0, &c.geometry);
    cover("end");
}
/// Velocities, ranges and mimic relations keep their parts; `connect!` builds lines.
fn small_parts() {
    match choose("part", 4) {
        0 => {
            let v = Velocity::from_parts(v3("t"), v3("r"));
            eq_v("translation", &v.translation, &v3("t"));
            eq_v("rotation", &v.rotation, &v3("r"));
            for z in [Velocity::<f64>::new(), Velocity::zero(), Velocity::default()] {
                eq_v("zero", &z.translation, &V3::new(0.0, 0.0, 0.0));
                eq_v("zero", &z.rotation, &V3::new(0.0, 0.0, 0.0));
            }
        }
        1 => {
            let (lo, hi): (f64, f64) = (input("lo"), input("hi"));
            assume(lo <= hi);
            let r: Range<f64> = if flag("inclusive") { (lo..=hi).into() } else { Range::new(lo, hi) };
            eq("min", r.min, lo);
            eq("max", r.max, hi);
        }
        2 => {
            let (m, o, x): (f64, f64, f64) = (input("m"), input("o"), input("x"));
            let r = Mimic::new(m, o);
            eq("multiplier", r.multiplier, m);
            eq("origin", r.origin, o);
            eq("mimic position", r.mimic_position(x), m * x + o);
        }
        _ => {
            let n: Vec<Node<f64>> = (0..5).map(|_| NodeBuilder::new().into_node()).collect();
            connect![n[0] => n[1]];
            connect![n[1] => n[2] => n[3] => n[4]];
            for i in 0..5 {
                check("line", n[i].parent() == if i == 0 { None } else { Some(n[i - 1].clone()) });
                check("line", n[i].children().iter().cloned().collect::<Vec<_>>() == n.get(i + 1).cloned().into_iter().collect::<Vec<_>>());
            }
        }
    }
    cover("end");
}

// ---------------------------------------------------------------- C26
fn outcome(r: &Result<(), Error>) -> String {
    match r {
        Ok(()) => "ok".to_string(),
        Err(Error::NotConvergedError { num_tried, .. }) => format!("not converged {}", num_tried),
        Err(Error::PreconditionError { dof, necessary_dof }) => format!("precondition {} {}", dof, necessary_dof),
        Err(Error::InvalidJointNameError { joint_name }) => format!("unknown {}", joint_name),
        Err(Error::InverseMatrixError) => "singular".to_string(),
        Err(_) => "other".to_string(),
    }
}
/// Two equal arms of linear joints; one solver is new, the other has a past (and so has its arm).
fn past(n: usize, events: usize) {
    let lim = flag("limited");
    let mk = || {
        let specs: Vec<Spec> = (0..n)
            .map(|i| Spec { parent: if i == 0 { None } else { Some(i - 1) }, kind: 2, axis: axis_of(i).0, origin: iso_fixed(&format!("o{}", i), 0) })
            .collect();
        Arm::new(specs, &move |i| if lim && i == 0 { Some((-1.0, 2.0)) } else { None })
    };
    let (a, b) = (mk(), mk());
    let q0: Vec<f64> = (0..n).map(|i| input(&format!("q{}", i))).collect();
    let (tol, mult): (f64, f64) = (input("tol"), input("mult"));
    let tries = if events > 1 { 1 } else { choose("tries", 2) + 1 };
    let redundant = n > 1 && flag("redundant");
    let mut mask = [false; 6];
    for i in 0..if redundant { n - 1 } else { n } {
        mask[i] = true;
    }
    let sub: Vec<f64> = (0..n).map(|i| input(&format!("s{}", i))).collect();
    let other: Vec<f64> = (0..n).map(|i| input(&format!("u{}", i))).collect();
    let f = |v: &Vec<f64>| {
        let v = v.clone();
        Box::new(move |x: &[f64]| (0..x.len()).map(|i| v[i % v.len()]).collect::<Vec<_>>())
    };
    let mut new = JacobianIkSolver::new(tol, INF, mult, tries);
    let mut old = if events < 2 && flag("made with other parameters") {
        let mut s = JacobianIkSolver::new(1.0, 0.5, 0.25, 7);
        s.allowable_target_distance = tol;
        s.allowable_target_angle = INF;
        s.jacobian_multiplier = mult;
        s.num_max_try = tries;
        s
    } else {
        JacobianIkSolver::new(tol, INF, mult, tries)
    };
    // the request that is compared: without or with an ignored joint
    let ignored: Vec<String> = if flag("ignore") { vec![tricky(n - 1)] } else { vec![] };
    assume(ignored.is_empty() || redundant);
    for e in 0..events {
        let t = Iso::translation(0.5, -0.25, 1.0);
        match choose(&format!("event{}", e), 8) {
            0 => {}
            // solved
            1 => {
                let keep = old.allowable_target_distance;
                old.allowable_target_distance = INF;
                check("solved", old.solve_with_constraints(&b.chain, &t, &constraints(&mask, &[])).is_ok());
                old.allowable_target_distance = keep;
            }
            // not converged
            2 => {
                let keep = old.allowable_target_distance;
                old.allowable_target_distance = -1.0;
                check("refused", old.solve_with_constraints(&b.chain, &t, &constraints(&mask, &[])).is_err());
                old.allowable_target_distance = keep;
            }
            // unknown name
            3 => check("refused", old.solve_with_constraints(&b.chain, &t, &constraints(&mask, &["nobody".to_string()])).is_err()),
            // too many constraints (`solve` asks for all six)
            4 => check("refused", old.solve(&b.chain, &t).is_err()),
            // an ignored joint and a single coordinate
            5 => {
                let keep = old.allowable_target_distance;
                old.allowable_target_distance = INF;
                let mut m = [false; 6];
                m[0] = true;
                let _ = old.solve_with_constraints(&b.chain, &t, &constraints(&m, &[tricky(n - 1)]));
                old.allowable_target_distance = keep;
            }
            // another arm: longer, or the same joints in the other order
            6 => {
                let longer = n + choose(&format!("longer{}", e), 2);
                let nodes: Vec<Node<f64>> =
                    (0..longer).map(|i| NodeBuilder::new().name(&tricky(longer - 1 - i)).joint_type(joint_type(2, axis_of(i).0)).into_node()).collect();
                for i in 1..longer {
                    nodes[i].set_parent(&nodes[i - 1]);
                }
                let c = SerialChain::from_end(&nodes[longer - 1]);
                let _ = old.solve_with_constraints(&c, &t, &constraints(&mask, &ignored));
            }
            // another null-space function
            _ => {
                old.set_nullspace_function(f(&other));
                if flag(&format!("solve{}", e)) {
                    let keep = old.allowable_target_distance;
                    old.allowable_target_distance = INF;
                    let _ = old.solve_with_constraints(&b.chain, &t, &constraints(&mask, &[]));
                    old.allowable_target_distance = keep;
                }
                if flag(&format!("clear{}", e)) {
                    old.clear_nullspace_function();
                }
            }
        }
    }
    if flag("nullspace") {
        new.set_nullspace_function(f(&sub));
        old.set_nullspace_function(f(&sub));
    } else {
        old.clear_nullspace_function();
    }
    a.chain.set_joint_positions_unchecked(&q0);
    b.chain.set_joint_positions_unchecked(&q0);
    if events < 2 && flag("updated") {
        b.chain.update_transforms();
    }
    let target = Isometry3::from_parts(Translation3::from(v3("t")), a.pose(&q0).rotation);
    let c = constraints(&mask, &ignored);
    let (x, y) = (new.solve_with_constraints(&a.chain, &target, &c), old.solve_with_constraints(&b.chain, &target, &c));
    check("same outcome", outcome(&x) == outcome(&y));
    if let (Err(Error::NotConvergedError { position_diff: p, .. }), Err(Error::NotConvergedError { position_diff: q, .. })) = (&x, &y) {
        eq_v("same remaining difference", p, q);
    }
    for (p, q) in a.q().iter().zip(b.q()) {
        eq("same positions", *p, q);
    }
    cover(if x.is_ok() { "solved" } else { "refused" });
}
fn past_2_1() {
    past(2, 1)
}
fn past_2_2() {
    past(2, 2)
}
fn past_3_1() {
    past(3, 1)
}

pub fn harnesses() -> Vec<Harness> {
    let h = |name, prop, mode, tier, f, bounds, covers| Harness { name, prop, mode, tier, f, bounds, covers };
    vec![
        h("listing_3", "C24", "real", 0, listing_3 as fn(), "every tree of 3 joints of mixed kinds, 7 axes, of distinct, equal or no names, any subset carrying links; chains from every root, end and end/root pair", &["from_root", "from_end", "from_end_to_root"]),
        h("listing_4", "C24", "real", 0, listing_4, "every tree of 4 joints of mixed kinds, 7 axes, of distinct, equal or no names, any subset carrying links; chains from every root, end and end/root pair", &["from_root", "from_end", "from_end_to_root"]),
        h("axis_text", "C24", "real", 0, axis_text, "one rotational or linear joint with any axis", &["other", "coordinate axis"]),
        h("listing_empty", "C24", "real", 0, listing_empty, "the empty chain", &["end"]),
        h("node_builder_2", "C25", "real", 0, node_builder_2, "every sequence of 2 of the 6 builder calls, any kind, axis, limits, origin", &["end"]),
        h("node_builder_3", "C25", "real", 0, node_builder_3, "every sequence of 3 of the 6 builder calls, any kind, axis, limits, origin", &["end"]),
        h("link_builder_3", "C25", "real", 0, link_builder_3, "every sequence of 3 of the 4 builder calls, 5 geometries, any dimensions, origins, mass, inertia; carried by a joint or not", &["end"]),
        h("part_setters", "C25", "real", 0, part_setters, "visual, collision and inertial parts, every sequence of 3 setter calls with any transforms, mass, inertia", &["end"]),
        h("small_parts", "C25", "real", 0, small_parts, "velocities, ranges, mimic relations of any values; lines of 2 and 4 joints made with connect!", &["end"]),
        h("past_2_1", "C26", "real", 0, past_2_1, "arms of 2 linear joints, first limited or not, square or redundant, any origins, start, target, tolerance, multiplier, null-space vector, no or one ignored joint, 1..2 tries; every past of 1 out of 8 events", &["solved", "refused"]),
        h("past_2_2", "C26", "real", 0, past_2_2, "arms of 2 linear joints, first limited or not, square or redundant, any origins, start, target, tolerance, multiplier, null-space vector, no or one ignored joint, 1 try; every past of 2 out of 8 events", &["solved", "refused"]),
        h("past_3_1", "C26", "real", 0, past_3_1, "arms of 3 linear joints, first limited or not, square or redundant, any origins, start, target, tolerance, multiplier, null-space vector, no or one ignored joint, 1..2 tries; every past of 1 out of 8 events", &["solved", "refused"]),
    ]
}
