//! C23: no set of public operations on a shared robot can end up waiting for each other.
//!
//! One path = one robot and one operation; the operation's mutex trace is reported.  The explorer asks the solver for
//! operations, pre-emption points and a schedule in which threads wait for each other in a circle, and replays what it
//! finds on real threads.
use crate::common::*;
use k::joint::{Mimic, Range};
use k::link::*;
use k::prelude::*;
use k::*;
use std::sync::Arc;
use symrt::*;

struct Robot {
    nodes: Vec<Node<f64>>,
    chain: Chain<f64>,
    arm: SerialChain<f64>,
    key: String,
}

const OPS: &[&str] = &[
    "set_joint_positions", "set_joint_positions_clamped", "set_joint_positions_unchecked", "Node::set_joint_position",
    "Node::set_joint_position_clamped", "update_transforms", "update_velocities", "update_link_transforms", "joint_positions",
    "iter names", "iter_joints", "iter_links", "Display chain", "Display node", "clone chain", "find", "end_transform", "jacobian",
    "center_of_mass", "iter_descendants", "iter_ancestors", "world_transform", "origin and set_origin", "set_link", "mimic_parent",
    "is_root, is_end, parent", "SerialChain::try_new", "Chain::from_root", "from_end_to_root", "Debug chain", "ik", "ik unreachable",
    "ik ignoring a joint", "set_mimic_parent", "set_mimic_parent of another leader", "set_parent", "remove_parent",
];
const MUTATORS: &[&str] = &["set_mimic_parent", "set_mimic_parent of another leader", "set_parent", "remove_parent"];

fn build(n: usize, fork: bool, mimic: &[usize], kinds: &[usize], links: bool) -> Robot {
    let mut nodes = vec![];
    for i in 0..n {
        let mut b = NodeBuilder::new().name(&format!("j{}", i)).joint_type(joint_type(kinds[i], fixed_axis(i)));
        b = b.translation(Translation3::new(0.25, 0.5, 1.0)).limits(Some(Range::new(-1.0, 1.0)));
        let node = b.into_node();
        if links {
            node.set_link(Some(LinkBuilder::new().name(&format!("l{}", i)).inertial(Inertial::from_mass(1.0)).finalize()));
        }
        nodes.push(node);
    }
    for i in 1..n {
        nodes[i].set_parent(&nodes[if fork { 0 } else { i - 1 }]);
    }
    for i in 0..n {
        if mimic[i] < n && mimic[i] != i {
            nodes[i].set_mimic_parent(&nodes[mimic[i]], Mimic::new(1.0, 0.125));
        }
    }
    let chain = Chain::from_root(nodes[0].clone());
    chain.update_transforms();
    let arm = SerialChain::from_end(&nodes[n - 1]);
    Robot { chain, arm, key: format!("{}{}{:?}{:?}{}", n, fork, mimic, kinds, links).replace(' ', ""), nodes }
}

/// Any robot of the family: tree of n joints, every mimic relation, with or without links.
fn robot(n: usize) -> Robot {
    let fork = n > 2 && flag("s.fork");
    let mut mimic = vec![];
    for i in 0..n {
        // n: none
        let m = choose(&format!("s.leader{}", i), n);
        mimic.push(if m == i { n } else { m });
    }
    let links = flag("s.links");
    let kinds = if flag("s.fixed root") { vec![0, 2, 1, 2, 1] } else { vec![2, 1, 2, 1, 2] };
    note(&format!("robot of {} joints{}, leaders {:?}", n, if fork { " (fork)" } else { "" }, mimic));
    build(n, fork, &mimic, &kinds[..n], links)
}

fn touch<T>(_x: T) {}

/// Runs one operation; its parameters are symbolic.
fn operate(r: &Robot, p: &str, op: usize) {
    if op >= OPS.len() - MUTATORS.len() {
        return mutate(r, p, op + MUTATORS.len() - OPS.len());
    }
    let n = r.nodes.len();
    let node = |name: &str| r.nodes[choose(&format!("{}{}", p, name), n)].clone();
    let vec = || (0..r.chain.dof()).map(|i| input::<f64>(&format!("{}q{}", p, i))).collect::<Vec<_>>();
    let only_x = |ignored: Vec<String>| Constraints {
        position_y: false, position_z: false, rotation_x: false, rotation_y: false, rotation_z: false,
        ignored_joint_names: ignored, ..Default::default()
    };
    match op {
        0 => touch(r.chain.set_joint_positions(&vec())),
        1 => r.chain.set_joint_positions_clamped(&vec()),
        2 => r.chain.set_joint_positions_unchecked(&vec()),
        3 => touch(node("node").set_joint_position(input(&format!("{}q", p)))),
        4 => node("node").set_joint_position_clamped(input(&format!("{}q", p))),
        5 => touch(r.chain.update_transforms()),
        6 => touch(r.chain.update_velocities()),
        7 => r.chain.update_link_transforms(),
        8 => touch(r.chain.joint_positions()),
        9 => touch(r.chain.iter().map(|x| x.joint().name.clone()).collect::<Vec<_>>()),
        10 => touch(r.chain.iter_joints().map(|x| x.name.clone()).collect::<Vec<_>>()),
        11 => touch(r.chain.iter_links().map(|x| x.name.clone()).collect::<Vec<_>>()),
        12 => touch(format!("{}", r.chain)),
        13 => touch(format!("{}", node("node"))),
        14 => touch(r.chain.clone()),
        15 => touch(r.chain.find("j1").is_some()),
        16 => touch(r.arm.end_transform()),
        17 => touch(jacobian(&r.arm)),
        18 => touch(center_of_mass(&r.chain)),
        19 => touch(node("node").iter_descendants().count()),
        20 => touch(node("node").iter_ancestors().count()),
        21 => touch(node("node").world_transform()),
        22 => {
            let x = node("node");
            let o = x.origin();
            x.set_origin(o);
        }
        23 => node("node").set_link(None),
        24 => touch(node("node").mimic_parent().is_some()),
        25 => {
            let x = node("node");
            touch((x.is_root(), x.is_end(), x.parent().is_some()));
        }
        26 => touch(SerialChain::try_new(Chain::from_end(&r.nodes[n - 1])).is_some()),
        27 => touch(Chain::from_root(r.nodes[0].clone()).dof()),
        28 => touch(Chain::from_end_to_root(&r.nodes[n - 1], &node("node")).dof()),
        29 => touch(format!("{:?}", r.chain.iter().count())),
        30 => {
            let mut t = r.arm.end_transform();
            t.translation.vector.x += 0.125;
            touch(JacobianIkSolver::new(0.5, 0.5, 0.5, 2).solve_with_constraints(&r.arm, &t, &only_x(vec![])).is_ok());
        }
        31 => {
            let mut t = r.arm.end_transform();
            t.translation.vector.x += 64.0;
            touch(JacobianIkSolver::new(0.5, 0.5, 0.5, 1).solve_with_constraints(&r.arm, &t, &only_x(vec![])).is_ok());
        }
        _ => {
            let t = r.arm.end_transform();
            let c = only_x(vec!["j1".to_string()]);
            touch(JacobianIkSolver::new(0.5, 0.5, 0.5, 1).solve_with_constraints(&r.arm, &t, &c).is_ok());
        }
    }
}

fn mutate(r: &Robot, p: &str, m: usize) {
    let n = r.nodes.len();
    let pick = |name: &str| &r.nodes[choose(&format!("{}{}", p, name), n)];
    match m {
        0 => pick("follower").set_mimic_parent(pick("leader"), Mimic::new(2.0, 0.25)),
        1 => {
            let f = pick("follower");
            // linked before; the pre-emption may come anywhere in both
            f.set_mimic_parent(&r.nodes[0], Mimic::new(2.0, 0.25));
            f.set_mimic_parent(&r.nodes[n - 1], Mimic::new(2.0, 0.25));
        }
        // not the root: a joint above itself is no tree
        2 => r.nodes[1 + choose(&format!("{}child", p), n - 1)].set_parent(&r.nodes[0]),
        _ => {
            let c = pick("child");
            if let Some(parent) = c.parent() {
                c.remove_parent(&parent);
            }
        }
    }
}

/// Mutexes by joint number.
fn lock_names(r: &Robot) -> Vec<usize> {
    r.nodes.iter().map(|x| {
        let (t, _) = lock_trace(|| touch(x.is_root()));
        t.first().map(|e| e.1).unwrap_or(0)
    }).collect()
}
fn text(names: &[usize], t: &[(u8, usize)]) -> String {
    let mut other: Vec<usize> = vec![];
    let s: Vec<String> = t.iter().map(|(k, m)| {
        let i = match names.iter().position(|x| x == m) {
            Some(i) => i,
            None => match other.iter().position(|x| x == m) {
                // a mutex of a joint made by the operation itself: nobody else can know it
                Some(i) => 1000 + i,
                None => {
                    other.push(*m);
                    999 + other.len()
                }
            },
        };
        format!("{}{}", ["r", "a", "t"][*k as usize], i)
    }).collect();
    if s.is_empty() { "-".into() } else { s.join(",") }
}

/// Replay on real threads: jobs and schedule of the model.
fn replay(r: Arc<Robot>) {
    let jobs = model_int("@jobs").unwrap_or(1);
    let sched = schedule().unwrap_or_default();
    let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for j in 0..jobs {
        let r = r.clone();
        let p = if model_int("@jobs").is_some() { format!("{}.", j) } else { String::new() };
        let op = model_int(&format!("#{}op", p)).unwrap_or(0);
        note(&format!("thread {}: operation {}", j, op));
        let m = model_int(&format!("@{}mutate", p));
        v.push(Box::new(move || match m {
            Some(m) => mutate(&r, &p, m),
            None => operate(&r, &p, op),
        }));
    }
    let dead = gate::run(v, sched);
    check("no operation waits forever", !dead);
}

fn locks_n(n: usize) {
    let r = robot(n);
    if native_run() {
        return replay(Arc::new(r));
    }
    let names = lock_names(&r);
    let op = choose("op", OPS.len());
    note(&OPS[op].to_string());
    let (t, e) = lock_trace(|| operate(&r, "", op));
    if names.iter().all(|x| *x != 0) && t.len() > 1 {
        cover(OPS[op]);
    }
    report_trace(&r.key, &OPS[op].replace(' ', "_"), "-", &text(&names, &t));
    check("no operation waits for itself", e != Ended::OnItself);
    check("the operation ends", e == Ended::Done);
}
fn locks_2() {
    locks_n(2)
}
fn locks_3() {
    locks_n(3)
}
fn locks_4() {
    locks_n(4)
}

/// Another operation comes while the structure of the robot is being changed.
fn mid_n(n: usize) {
    let fork = n > 2 && flag("s.fork");
    let mut mimic = vec![n; n];
    if flag("s.linked") {
        mimic[n - 1] = 0;
    }
    let r = Arc::new(build(n, fork, &mimic, &vec![2; n], false));
    if !native_run() && flag("solo") {
        // the operations by themselves
        let names = lock_names(&r);
        let op = choose("op", OPS.len());
        let (t, e) = lock_trace(|| operate(&r, "", op));
        report_trace(&r.key, &OPS[op].replace(' ', "_"), "-", &text(&names, &t));
        check("no operation waits for itself", e != Ended::OnItself);
        return;
    }
    let m = choose("m", MUTATORS.len());
    let k = choose("at", 8);
    let op = choose("op", OPS.len());
    note(&format!("{} pre-empted before its lock {} by {}", MUTATORS[m], k, OPS[op]));
    if native_run() {
        if model_int("@jobs").is_some() {
            return replay(r);
        }
        let (a, b) = (r.clone(), r.clone());
        let mut sched = vec![0; k + 1];
        sched.extend(vec![1; 4000]);
        let dead = gate::run(vec![Box::new(move || mutate(&a, "m.", m)), Box::new(move || operate(&b, "", op))], sched);
        check("no operation waits forever", !dead);
        return;
    }
    let names = lock_names(&r);
    let bad = std::rc::Rc::new(std::cell::Cell::new(false));
    let (r2, names2, bad2) = (r.clone(), names.clone(), bad.clone());
    preempt(k, Box::new(move || {
        let held = pre_held();
        let (t, e) = lock_trace(|| operate(&r2, "", op));
        bad2.set(e == Ended::OnItself);
        let h: Vec<String> = held.iter().map(|x| names2.iter().position(|y| x == y).unwrap_or(999).to_string()).collect();
        cover(MUTATORS[m]);
        report_trace(&r2.key, OPS[op].replace(' ', "_").as_str(), &format!("mid:{}:{}:{}", m, k, h.join("+")), &text(&names2, &t));
    }));
    let (t, e) = lock_trace(|| mutate(&r, "m.", m));
    if e == Ended::Preempted {
        check("no operation waits for itself", !bad.get());
        note("pre-empted");
        return;
    }
    // too few locks to be pre-empted there
    let _ = t;
    check("no operation waits for itself", e != Ended::OnItself);
}
fn mid_2() {
    mid_n(2)
}
fn mid_3() {
    mid_n(3)
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness { name: "locks_2", prop: "C23", mode: "real", tier: 0, f: locks_2, covers: OPS_LOCKING,
            bounds: "2 joints, every mimic relation, with and without links, movable or fixed root; 37 operations with symbolic positions; circles of up to 4 threads" },
        Harness { name: "locks_3", prop: "C23", mode: "real", tier: 0, f: locks_3, covers: OPS_LOCKING,
            bounds: "3 joints in a line or a fork, every mimic relation, with and without links, movable or fixed root; 37 operations with symbolic positions; circles of up to 4 threads" },
        Harness { name: "locks_4", prop: "C23", mode: "real", tier: 1, f: locks_4, covers: OPS_LOCKING,
            bounds: "4 joints in a line or a star, every mimic relation, with and without links; 37 operations with symbolic positions; circles of up to 4 threads" },
        Harness { name: "locks_mid_2", prop: "C23", mode: "real", tier: 0, f: mid_2, covers: MUTATORS,
            bounds: "2 joints; 37 operations started at every point before the 8th lock of each of 4 changes of the structure" },
        Harness { name: "locks_mid_3", prop: "C23", mode: "real", tier: 0, f: mid_3, covers: MUTATORS,
            bounds: "3 joints; 37 operations started at every point before the 8th lock of each of 4 changes of the structure" },
    ]
}
const OPS_LOCKING: &[&str] = &["set_joint_positions", "set_joint_positions_clamped", "update_transforms", "joint_positions", "Display chain", "clone chain"];
