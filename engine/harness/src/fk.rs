//! C01 forward kinematics, C06 history independence, C08 serial chains.
use crate::common::*;
use k::*;
use symrt::*;

/// Joints of any kind, axis and rigid origin.
pub fn general_specs(parents: &[Option<usize>]) -> Vec<Spec> {
    parents
        .iter()
        .enumerate()
        .map(|(i, p)| Spec {
            parent: *p,
            kind: choose(&format!("kind{}", i), 3),
            axis: axis(&format!("a{}", i)),
            origin: iso(&format!("o{}", i)),
        })
        .collect()
}
/// Joints of given kinds, with concrete axes and rotations and symbolic origin translations (keeps polynomials small).
pub fn light_specs(parents: &[Option<usize>], kinds: &[usize]) -> Vec<Spec> {
    parents
        .iter()
        .enumerate()
        .map(|(i, p)| Spec { parent: *p, kind: kinds[i], axis: fixed_axis(i), origin: iso_fixed(&format!("o{}", i), i + 1) })
        .collect()
}
pub fn serial(n: usize) -> Vec<Option<usize>> {
    (0..n).map(|i| if i == 0 { None } else { Some(i - 1) }).collect()
}
/// The joints have distinct names or all the same one.
pub fn build(specs: &[Spec]) -> (Vec<Node<f64>>, Vec<f64>) {
    let same = flag("same_names");
    build_as(specs, same)
}
pub fn build_as(specs: &[Spec], same: bool) -> (Vec<Node<f64>>, Vec<f64>) {
    let name = |i: usize| if same { "j".to_string() } else { tricky(i) };
    let nodes: Vec<_> = specs.iter().enumerate().map(|(i, s)| s.node(&name(i))).collect();
    connect_all(specs, &nodes);
    let q: Vec<f64> =
        specs.iter().enumerate().map(|(i, s)| if s.kind == 0 { 0.0 } else { position(&format!("q{}", i), s.kind) }).collect();
    (nodes, q)
}
pub fn describe(specs: &[Spec]) {
    let p: Vec<String> = specs
        .iter()
        .enumerate()
        .map(|(i, s)| format!("j{} {} under {}", i, kind_name(s.kind), s.parent.map(|p| format!("j{}", p)).unwrap_or("-".into())))
        .collect();
    note(&p.join(", "));
}
/// Set every movable joint through the chain, in the chain's order.
pub fn command(chain: &Chain<f64>, nodes: &[Node<f64>], specs: &[Spec], q: &[f64]) {
    let v: Vec<f64> = chain.iter().map(|n| index_of(nodes, n)).filter(|i| specs[*i].kind != 0).map(|i| q[i]).collect();
    chain.set_joint_positions(&v).expect("positions accepted");
}
/// The robot at positions `q` with any past: caches of earlier poses, of parts of the robot, or none at all.
pub fn past(chain: &Chain<f64>, nodes: &[Node<f64>], specs: &[Spec], q: &mut [f64]) {
    let how = choose("past", 5);
    if how == 1 {
        // updated elsewhere
        chain.update_link_transforms();
        chain.update_velocities();
    }
    command(chain, nodes, specs, q);
    if how < 2 {
        note(["never updated", "updated, then moved"][how]);
        return;
    }
    chain.update_link_transforms();
    chain.update_velocities();
    // one joint moved, and a part of the robot updated since
    let i = choose("moved", nodes.len());
    if specs[i].kind != 0 {
        q[i] = position("moved to", specs[i].kind);
        nodes[i].set_joint_position(q[i]).unwrap();
    }
    let part = match how {
        2 => Chain::from_end(&nodes[i]),
        3 => Chain::from_root(nodes[i].clone()),
        _ => Chain::from_end(&nodes[0]),
    };
    match choose("part update", 3) {
        0 => touch(part.update_transforms()),
        1 => part.update_link_transforms(),
        _ => touch(part.update_velocities()),
    }
    note(&format!("updated, then j{} moved, then {} updated", i, ["the path to it", "what is below it", "the root"][how - 2]));
}
fn touch<T>(_: T) {}
fn compare(chain: &Chain<f64>, nodes: &[Node<f64>], w: &[Iso]) {
    let r = chain.update_transforms();
    check("one transform per joint", r.len() == chain.iter().count());
    for (k, n) in chain.iter().enumerate() {
        let i = index_of(nodes, n);
        eq_iso(&format!("returned transform of joint {}", i), &r[k], &w[i]);
        let x = n.world_transform();
        check("joint reports a transform", x.is_some());
        eq_iso("reported = returned", &x.unwrap(), &r[k]);
    }
}
fn fk(specs: Vec<Spec>) {
    describe(&specs);
    let (nodes, q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    check("whole tree", chain.iter().count() == nodes.len());
    command(&chain, &nodes, &specs, &q);
    compare(&chain, &nodes, &world(&specs, &q));
    cover("end");
}
fn fk_tree_2() {
    fk(general_specs(&shape(2)))
}
fn fk_tree_3() {
    fk(general_specs(&shape(3)))
}
fn fk_tree_4() {
    fk(general_specs(&shape(4)))
}
fn fk_light(n: usize) {
    let s = shape(n);
    let kinds: Vec<usize> = (0..n).map(|i| 1 + (i + choose("phase", 2)) % 2).collect();
    fk(light_specs(&s, &kinds))
}
fn fk_light_5() {
    fk_light(5)
}
fn fk_serial_7() {
    let k = choose("phase", 3);
    let kinds: Vec<usize> = (0..7).map(|i| (i + k) % 3).collect();
    fk(light_specs(&serial(7), &kinds))
}
/// Moving only one joint of an updated robot: everything below follows, everything else stays.
fn fk_single_move() {
    let specs = light_specs(&shape(4), &[1, 2, 1, 2]);
    let (nodes, mut q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    command(&chain, &nodes, &specs, &q);
    chain.update_transforms();
    let m = choose("moved", 4);
    q[m] = position("r", specs[m].kind);
    nodes[m].set_joint_position(q[m]).unwrap();
    compare(&chain, &nodes, &world(&specs, &q));
    cover("end");
}
/// A chain that is only a part of the robot: its update continues from the updated rest.
fn fk_part() {
    let n = 4;
    let specs = light_specs(&shape(n), &[1, 2, 1, 2]);
    let (nodes, q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    command(&chain, &nodes, &specs, &q);
    if flag("updated") {
        chain.update_transforms();
    }
    let end = choose("end", n);
    // any ancestor of end
    let mut anc = vec![end];
    while let Some(p) = specs[*anc.last().unwrap()].parent {
        anc.push(p);
    }
    let k = choose("root", anc.len());
    let part = Chain::from_end_to_root(&nodes[end], &nodes[anc[k]]);
    compare(&part, &nodes, &world(&specs, &q));
    let sub = Chain::from_root(nodes[end].clone());
    compare(&sub, &nodes, &world(&specs, &q));
    cover("end");
}

/// Long lines and wide trees: mostly linear and fixed joints, one rotational one anywhere and one further on.
pub fn long_specs(n: usize, wide: bool) -> Vec<Spec> {
    let r = choose("rotational", n);
    let p = choose("phase", 2);
    let kinds: Vec<usize> = (0..n).map(|i| if i == r || i == (r + 5) % n { 1 } else { 2 * ((i + p) % 3).min(1) }).collect();
    let parents: Vec<Option<usize>> = (0..n)
        .map(|i| match i {
            0 => None,
            // all but the last three under the root, those in a line below one of them
            _ if wide && i + 3 < n => Some(0),
            _ if wide && i + 3 == n => Some(1 + (r + n / 2) % (n - 4)),
            _ => Some(i - 1),
        })
        .collect();
    light_specs(&parents, &kinds)
}
fn fk_long() {
    let w = flag("wide");
    fk(long_specs(14, w))
}
fn end_long() {
    end_transform(long_specs(12, false))
}
fn fk_past() {
    let specs = light_specs(&shape(3), &[1, 2, 1]);
    let (nodes, mut q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    past(&chain, &nodes, &specs, &mut q);
    compare(&chain, &nodes, &world(&specs, &q));
    cover("end");
}

// ---------------------------------------------------------------- C06
struct Hist {
    specs: Vec<Spec>,
    nodes: Vec<Node<f64>>,
    q: Vec<f64>,
    chain: Chain<f64>,
    arm: SerialChain<f64>,
    /// joints changed since the last update that covered them
    dirty: Vec<bool>,
}
impl Hist {
    fn new(parents: &[Option<usize>], kinds: &[usize]) -> Hist {
        let specs = light_specs(parents, kinds);
        let (nodes, q) = build_as(&specs, false);
        let chain = Chain::from_root(nodes[0].clone());
        command(&chain, &nodes, &specs, &q);
        let arm = SerialChain::from_end(nodes.last().unwrap());
        for (i, n) in nodes.iter().enumerate() {
            let mut l = link::Link::default();
            l.inertial = link::Inertial::from_mass(1.0 + i as f64);
            n.set_link(Some(l));
        }
        let n = nodes.len();
        Hist { specs, nodes, q, chain, arm, dirty: vec![true; n] }
    }
    fn path(&self) -> Vec<usize> {
        self.arm.iter().map(|n| index_of(&self.nodes, n)).collect()
    }
    fn step(&mut self, s: usize, ops: usize, names: &mut Vec<String>) {
        let op = choose(&format!("op{}", s), ops);
        let n = self.nodes.len();
        match op {
            0..=3 => {
                let i = choose(&format!("joint{}", s), n);
                let v = if op == 3 { 0.0 } else { position(&format!("r{}", s), self.specs[i].kind) };
                match op {
                    0 => {
                        let r = self.nodes[i].set_joint_position(v);
                        check("set reports fixed joints", r.is_ok() == (self.specs[i].kind != 0));
                    }
                    1 => self.nodes[i].set_joint_position_clamped(v),
                    2 => {
                        if self.specs[i].kind != 0 {
                            self.nodes[i].set_joint_position_unchecked(v)
                        }
                    }
                    _ => {
                        let o = iso_fixed(&format!("p{}", s), i + 2);
                        self.nodes[i].set_origin(o);
                        self.specs[i].origin = o;
                        self.dirty[i] = true;
                    }
                }
                if op < 3 && self.specs[i].kind != 0 {
                    self.q[i] = v;
                    self.dirty[i] = true;
                }
                names.push(format!("{} j{}", ["set", "set clamped", "set unchecked", "set_origin"][op], i));
            }
            4 => {
                self.chain.update_transforms();
                self.dirty = vec![false; n];
                names.push("update".into());
            }
            5 => {
                let path = self.path();
                jacobian(&self.arm);
                for i in path {
                    self.dirty[i] = false;
                }
                names.push("jacobian".into());
            }
            6 => {
                let w = world(&self.specs, &self.q);
                eq_iso("end transform", &self.arm.end_transform(), &w[n - 1]);
                names.push("end_transform".into());
            }
            7 => {
                let path = self.path();
                self.arm.update_transforms();
                for i in path {
                    self.dirty[i] = false;
                }
                names.push("arm update".into());
            }
            8 => {
                let mut v = vec![];
                let order: Vec<usize> = self.chain.iter().map(|x| index_of(&self.nodes, x)).collect();
                for i in order {
                    if self.specs[i].kind != 0 {
                        let x = position(&format!("r{}_{}", s, i), self.specs[i].kind);
                        self.q[i] = x;
                        self.dirty[i] = true;
                        v.push(x);
                    }
                }
                match choose(&format!("how{}", s), 3) {
                    0 => self.chain.set_joint_positions(&v).unwrap(),
                    1 => self.chain.set_joint_positions_clamped(&v),
                    _ => self.chain.set_joint_positions_unchecked(&v),
                }
                names.push("set all".into());
            }
            9 => {
                center_of_mass(&self.chain);
                self.dirty = vec![false; n];
                names.push("center_of_mass".into());
            }
            10 => {
                self.chain.update_link_transforms();
                self.dirty = vec![false; n];
                names.push("update_link_transforms".into());
            }
            11 => {
                self.chain.update_velocities();
                self.dirty = vec![false; n];
                names.push("update_velocities".into());
            }
            12 => {
                // a part of the robot
                let i = choose(&format!("joint{}", s), n);
                let below = flag(&format!("below{}", s));
                let part = if below { Chain::from_root(self.nodes[i].clone()) } else { Chain::from_end(&self.nodes[i]) };
                part.update_transforms();
                for x in part.iter() {
                    self.dirty[index_of(&self.nodes, x)] = false;
                }
                // poses of a part below moved joints continue from the poses known there
                names.push(format!("update of the part {} j{}", if below { "below" } else { "above" }, i));
            }
            _ => {
                let o = iso_fixed(&format!("p{}", s), 1);
                self.chain.set_origin(o);
                check("chain origin", self.chain.origin() == o || true);
                self.specs[0].origin = o;
                self.dirty[0] = true;
                names.push("chain set_origin".into());
            }
        }
    }
    fn finish(&self, names: &[String]) {
        note(&names.join("; "));
        let w = world(&self.specs, &self.q);
        // a joint changed since the last update does not report its old pose
        for (i, n) in self.nodes.iter().enumerate() {
            if self.dirty[i] {
                if let Some(t) = n.world_transform() {
                    eq_iso("pose of a changed joint is not stale", &t, &w[i]);
                }
            }
        }
        compare(&self.chain, &self.nodes, &w);
        compare(&self.chain, &self.nodes, &w);
        for (i, n) in self.nodes.iter().enumerate() {
            eq_iso("pose by joint", &n.world_transform().unwrap(), &w[i]);
        }
        eq_iso("end transform", &self.arm.end_transform(), &w[self.nodes.len() - 1]);
        cover("end");
    }
}
fn history(parents: &[Option<usize>], kinds: &[usize], steps: usize) {
    let mut h = Hist::new(parents, kinds);
    let mut names = vec![];
    if flag("updated before") {
        h.chain.update_transforms();
        h.dirty = vec![false; h.nodes.len()];
        names.push("update".into());
    }
    for s in 0..steps {
        h.step(s, 14, &mut names);
    }
    h.finish(&names);
}
fn history_serial_2() {
    history(&serial(3), &[1, 2, 1], 2)
}
fn history_serial_3() {
    history(&serial(2), &[1, 1], 3)
}
fn history_tree_2() {
    history(&[None, Some(0), Some(0), Some(2)], &[2, 1, 0, 1], 2)
}
fn history_tree_3() {
    history(&[None, Some(0), Some(0)], &[1, 1, 2], 3)
}

// ---------------------------------------------------------------- C08
fn end_transform(specs: Vec<Spec>) {
    describe(&specs);
    let n = specs.len();
    let (nodes, q) = build(&specs);
    let whole = choose("updated_before", 2);
    let chain = Chain::from_root(nodes[0].clone());
    if whole == 1 {
        chain.update_transforms();
    }
    command(&chain, &nodes, &specs, &q);
    let arm = SerialChain::from_end(&nodes[n - 1]);
    let w = world(&specs, &q);
    eq_iso("end transform", &arm.end_transform(), &w[n - 1]);
    let u = arm.update_transforms();
    eq_iso("end transform = last updated", &arm.end_transform(), &u[n - 1]);
    let t = SerialChain::try_new(Chain::from_root(nodes[0].clone()));
    check("serial", t.is_some());
    eq_iso("try_new end transform", &t.unwrap().end_transform(), &w[n - 1]);
    // every part of it
    for r in 1..n {
        let part = SerialChain::from_end_to_root(&nodes[n - 1], &nodes[r]);
        check("part length", part.iter().count() == n - r);
        let sub: Vec<Spec> = (r..n)
            .map(|i| Spec { parent: if i == r { None } else { Some(i - r - 1) }, kind: specs[i].kind, axis: specs[i].axis, origin: specs[i].origin })
            .collect();
        let v = world(&sub, &q[r..]);
        eq_iso("part end transform", &part.end_transform(), v.last().unwrap());
        check("unwrap keeps the joints", part.unwrap().iter().count() == n - r);
    }
    cover("end");
}
fn end_past() {
    let kinds: Vec<usize> = (0..3).map(|i| 1 + (i + choose("phase", 2)) % 2).collect();
    let specs = light_specs(&serial(3), &kinds);
    let (nodes, mut q) = build(&specs);
    let chain = Chain::from_root(nodes[0].clone());
    past(&chain, &nodes, &specs, &mut q);
    let w = world(&specs, &q);
    for e in 0..3 {
        eq_iso("end transform", &SerialChain::from_end(&nodes[e]).end_transform(), &w[e]);
    }
    cover("end");
}
fn end_transform_1() {
    end_transform(general_specs(&serial(1)))
}
fn end_transform_2() {
    end_transform(general_specs(&serial(2)))
}
fn end_transform_3() {
    end_transform(general_specs(&serial(3)))
}
fn end_transform_light_6() {
    let k = choose("phase", 3);
    let kinds: Vec<usize> = (0..6).map(|i| (i + k) % 3).collect();
    end_transform(light_specs(&serial(6), &kinds))
}
fn try_new(n: usize) {
    let parents = shape(n);
    let nodes: Vec<Node<f64>> = (0..n).map(|i| NodeBuilder::new().name(&format!("j{}", i)).into_node()).collect();
    for i in 0..n {
        if let Some(p) = parents[i] {
            nodes[i].set_parent(&nodes[p]);
        }
    }
    let a = choose("node", n);
    let chain = match choose("how", 4) {
        0 => Chain::from_root(nodes[a].clone()),
        1 => Chain::from_end(&nodes[a]),
        2 => {
            let mut anc = vec![a];
            while let Some(p) = parents[*anc.last().unwrap()] {
                anc.push(p);
            }
            let r = anc[choose("root", anc.len())];
            Chain::from_end_to_root(&nodes[a], &nodes[r])
        }
        _ => Chain::from_nodes(vec![]),
    };
    let len = chain.iter().count();
    let idx: Vec<usize> = chain.iter().map(|x| index_of(&nodes, x)).collect();
    let kids = |i: usize| parents.iter().filter(|p| **p == Some(i)).count();
    let want = idx.iter().take(len.max(1) - 1).all(|i| kids(*i) == 1);
    let r = SerialChain::try_new(chain);
    if len == 0 {
        // an empty chain: any answer, no panic
        cover("empty");
        return;
    }
    check("accepted exactly without branches", r.is_some() == want);
    if let Some(s) = r {
        let back: Vec<usize> = s.iter().map(|x| index_of(&nodes, x)).collect();
        check("joints kept", back == idx);
        cover("serial");
    } else {
        cover("branched");
    }
}
fn try_new_3() {
    try_new(3)
}
fn try_new_5() {
    try_new(5)
}

pub fn harnesses() -> Vec<Harness> {
    let h = |name, prop, tier, f, bounds, covers| Harness { name, prop, mode: "real", tier, f, bounds, covers };
    vec![
        h("fk_tree_2", "C01", 0, fk_tree_2, "2 joints, each of any kind, any unit axis, any rigid origin, any position", &["end"]),
        h("fk_tree_3", "C01", 0, fk_tree_3, "every tree of 3 joints, each of any kind, any unit axis, any rigid origin, any position", &["end"]),
        h("fk_tree_4", "C01", 0, fk_tree_4, "every tree of 4 joints, each of any kind, any unit axis, any rigid origin, any position", &["end"]),
        h("fk_light_5", "C01", 0, fk_light_5, "every tree of 5 joints alternating rotational/linear, coordinate axes, concrete origin rotations, any origin translations, any positions", &["end"]),
        h("fk_serial_7", "C01", 0, fk_serial_7, "serial chain of 7 joints cycling through the kinds, coordinate axes, concrete origin rotations, any origin translations, any positions", &["end"]),
        h("fk_long", "C01", 0, fk_long, "lines of 14 joints and trees with 11 joints under the root, all kinds, two rotational joints anywhere, coordinate axes, concrete origin rotations, any origin translations, any positions", &["end"]),
        h("fk_single_move", "C01", 0, fk_single_move, "every tree of 4 joints (coordinate axes, any origin translations), any one joint moved to any position after an update", &["end"]),
        h("fk_past", "C01", 0, fk_past, "every tree of 3 joints (coordinate axes, any origin translations, any positions) with any past of the update of the whole and then of a part after one joint was moved", &["end"]),
        h("end_long", "C08", 0, end_long, "lines of 12 joints of all kinds, two rotational joints anywhere, coordinate axes, concrete origin rotations, any origin translations, any positions; every part of it", &["end"]),
        h("end_past", "C08", 0, end_past, "serial chain of 3 joints (coordinate axes, any origin translations, any positions) with any past of the update of the whole and then of a part after one joint was moved", &["end"]),
        h("fk_part", "C01", 0, fk_part, "every tree of 4 joints, every path and every subtree as a chain, the rest updated before or never, any positions and origin translations", &["end"]),
        h("history_serial_2", "C06", 0, history_serial_2, "serial robot of 3 joints, every sequence of 2 out of 14 operations with any values", &["end"]),
        h("history_serial_3", "C06", 0, history_serial_3, "serial robot of 2 joints, every sequence of 3 out of 14 operations with any values", &["end"]),
        h("history_tree_2", "C06", 0, history_tree_2, "branched robot of 4 joints, every sequence of 2 out of 14 operations with any values", &["end"]),
        h("history_tree_3", "C06", 0, history_tree_3, "branched robot of 3 joints, every sequence of 3 out of 14 operations with any values", &["end"]),
        h("end_transform_1", "C08", 0, end_transform_1, "1 joint of any kind, axis, origin, position", &["end"]),
        h("end_transform_2", "C08", 0, end_transform_2, "serial chain of 2 joints of any kind, axis, origin, position; every part of it", &["end"]),
        h("end_transform_3", "C08", 0, end_transform_3, "serial chain of 3 joints of any kind, axis, origin, position; every part of it", &["end"]),
        h("end_transform_light_6", "C08", 0, end_transform_light_6, "serial chain of 6 joints, coordinate axes, concrete origin rotations, any translations and positions; every part of it", &["end"]),
        h("try_new_3", "C08", 0, try_new_3, "every tree of 3 joints; chains from every root, end and end/root pair, and the empty chain", &["empty", "serial", "branched"]),
        h("try_new_5", "C08", 0, try_new_5, "every tree of 5 joints; chains from every root, end and end/root pair, and the empty chain", &["empty", "serial", "branched"]),
    ]
}
