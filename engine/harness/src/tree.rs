//! C04 position vectors, C05 mimic, C07 tree structure, C09 clone.
use crate::common::*;
use crate::fk::{build, describe, light_specs};
use k::joint::{Mimic, Range};
use k::*;
use symrt::*;

// ---------------------------------------------------------------- C04
fn vectors(n: usize) {
    let parents = shape(n);
    let kinds: Vec<usize> = (0..n).map(|i| choose(&format!("kind{}", i), 3)).collect();
    let nodes: Vec<Node<f64>> = (0..n)
        .map(|i| NodeBuilder::new().name(&format!("j{}", i)).joint_type(joint_type(kinds[i], fixed_axis(i))).into_node())
        .collect();
    let start: Vec<f64> = (0..n).map(|i| if kinds[i] == 0 { 0.0 } else { input(&format!("s{}", i)) }).collect();
    for i in 0..n {
        if let Some(p) = parents[i] {
            nodes[i].set_parent(&nodes[p]);
        }
        if kinds[i] != 0 {
            nodes[i].set_joint_position(start[i]).unwrap();
        }
    }
    let chain = Chain::from_root(nodes[0].clone());
    let mov: Vec<usize> = chain.iter().map(|x| index_of(&nodes, x)).filter(|i| kinds[*i] != 0).collect();
    let dof = kinds.iter().filter(|k| **k != 0).count();
    check("dof counts the movable joints", chain.dof() == dof && mov.len() == dof);
    let names: Vec<String> = chain.iter_joints().map(|j| j.name.clone()).collect();
    check("iter_joints lists the movable joints in order", names == mov.iter().map(|i| format!("j{}", i)).collect::<Vec<_>>());
    let before = chain.joint_positions();
    check("one entry per movable joint", before.len() == dof);
    for (k, i) in mov.iter().enumerate() {
        eq("position vector reads joint in order", before[k], start[*i]);
    }
    let len = dof + choose("len", 3);
    assume(len > 0);
    let len = len - 1;
    let x: Vec<f64> = (0..len).map(|k| input(&format!("x{}", k))).collect();
    let how = choose("how", 3);
    if how > 0 {
        assume(len == dof);
    }
    for v in &x {
        assume(*v == *v);
    }
    let r = match how {
        0 => chain.set_joint_positions(&x),
        1 => {
            chain.set_joint_positions_clamped(&x);
            Ok(())
        }
        _ => {
            chain.set_joint_positions_unchecked(&x);
            Ok(())
        }
    };
    let after = chain.joint_positions();
    check("dof unchanged", after.len() == dof && chain.dof() == dof);
    if len == dof {
        check("a vector of dof entries without limits is accepted", r.is_ok());
        for (k, i) in mov.iter().enumerate() {
            eq("i-th value is read back i-th", after[k], x[k]);
            eq("i-th value moves the i-th movable joint", nodes[*i].joint_position().unwrap(), x[k]);
        }
        cover("set");
    } else {
        match r {
            Err(Error::SizeMismatchError { input, required }) => check("sizes reported", input == len && required == dof),
            _ => check("wrong size is refused as such", false),
        }
        for (k, i) in mov.iter().enumerate() {
            eq("refused vector changes nothing", after[k], start[*i]);
        }
        cover("refused");
    }
    for i in 0..n {
        if kinds[i] == 0 {
            check("fixed joints have no position", nodes[i].joint_position().is_none());
        }
    }
}
fn vectors_3() {
    vectors(3)
}
fn vectors_4() {
    vectors(4)
}
/// A part of a robot: only its own joints move.
fn vectors_part() {
    let n = 4;
    let specs = light_specs(&shape(n), &[1, 2, 1, 2]);
    let (nodes, q) = build(&specs);
    for i in 0..n {
        nodes[i].set_joint_position(q[i]).unwrap();
    }
    let a = choose("node", n);
    let chain = if flag("sub") { Chain::from_root(nodes[a].clone()) } else { Chain::from_end(&nodes[a]) };
    let idx: Vec<usize> = chain.iter().map(|x| index_of(&nodes, x)).collect();
    let x: Vec<f64> = idx.iter().map(|i| position(&format!("x{}", i), specs[*i].kind)).collect();
    check("accepted", chain.set_joint_positions(&x).is_ok());
    for i in 0..n {
        let p = nodes[i].joint_position().unwrap();
        match idx.iter().position(|j| *j == i) {
            Some(k) => eq("joint of the part", p, x[k]),
            None => eq("joint outside the part", p, q[i]),
        }
    }
    cover("end");
}

/// Joints with limits and a mimic relation: every entry still belongs to its own joint.
fn vectors_mimic(n: usize) {
    let parents = shape(n);
    let nolim = n;
    let limited = choose("limited", n + 1);
    let follower = choose("follower", n);
    let leader = choose("leader", n + 1);
    assume(follower != leader);
    let (lo, hi): (f64, f64) = (input("lo"), input("hi"));
    assume(lo <= hi);
    let nodes: Vec<Node<f64>> = (0..n)
        .map(|i| {
            let mut j = Joint::new(&format!("j{}", i), joint_type(1 + i % 2, fixed_axis(i)));
            if limited == i {
                j.limits = Some(Range::new(lo, hi));
            }
            j.set_joint_position_unchecked(input(&format!("s{}", i)));
            j.into()
        })
        .collect();
    for i in 0..n {
        if let Some(p) = parents[i] {
            nodes[i].set_parent(&nodes[p]);
        }
    }
    let rel = if leader == nolim { None } else { Some((input::<f64>("m"), input::<f64>("off"))) };
    if let Some((m, o)) = rel {
        nodes[follower].set_mimic_parent(&nodes[leader], Mimic::new(m, o));
    }
    let chain = Chain::from_root(nodes[0].clone());
    let order: Vec<usize> = chain.iter().map(|x| index_of(&nodes, x)).collect();
    check("dof", chain.dof() == n);
    let x: Vec<f64> = (0..n).map(|k| input(&format!("x{}", k))).collect();
    let at = |i: usize| x[order.iter().position(|j| *j == i).unwrap()];
    let inside = |v: f64| lo <= v && v <= hi;
    let clamp = |i: usize, v: f64| if limited != i { v } else if v < lo { lo } else if v > hi { hi } else { v };
    let fol = |i: usize| if i == follower { rel } else { None };
    match choose("how", 3) {
        0 => {
            let ok = limited == n
                || match fol(limited) {
                    Some((m, o)) => inside(m * at(leader) + o),
                    None => inside(at(limited)),
                };
            assume(ok);
            check("accepted", chain.set_joint_positions(&x).is_ok());
            for i in 0..n {
                let w = match fol(i) {
                    Some((m, o)) => m * at(leader) + o,
                    None => at(i),
                };
                eq("checked set", nodes[i].joint_position().unwrap(), w);
            }
            cover("checked");
        }
        1 => {
            chain.set_joint_positions_clamped(&x);
            for i in 0..n {
                let w = match fol(i) {
                    Some((m, o)) => m * clamp(leader, at(leader)) + o,
                    None => at(i),
                };
                eq("clamped set", nodes[i].joint_position().unwrap(), clamp(i, w));
            }
            cover("clamped");
        }
        _ => {
            chain.set_joint_positions_unchecked(&x);
            for i in 0..n {
                eq("unchecked set", nodes[i].joint_position().unwrap(), at(i));
            }
            cover("unchecked");
        }
    }
    let ps = chain.joint_positions();
    check("one entry per joint", ps.len() == n);
    for (k, i) in order.iter().enumerate() {
        eq("read back in order", ps[k], nodes[*i].joint_position().unwrap());
    }
}
fn vectors_mimic_3() {
    vectors_mimic(3)
}
fn vectors_mimic_4() {
    vectors_mimic(4)
}

// ---------------------------------------------------------------- C05
/// Tree of n movable joints; joint `leader` is followed by a non-empty set of the others.
fn mimic(n: usize, steps: usize) {
    let parents = shape(n);
    let lead = choose("leader", n);
    let kinds: Vec<usize> = (0..n).map(|i| 1 + (i + choose("phase", 2)) % 2).collect();
    let nodes: Vec<Node<f64>> = (0..n)
        .map(|i| NodeBuilder::new().name(&format!("j{}", i)).joint_type(joint_type(kinds[i], fixed_axis(i))).into_node())
        .collect();
    for i in 0..n {
        if let Some(p) = parents[i] {
            nodes[i].set_parent(&nodes[p]);
        }
    }
    let mut follow: Vec<Option<(f64, f64)>> = vec![None; n];
    let mut any = false;
    for i in 0..n {
        if i != lead && flag(&format!("follows{}", i)) {
            let (m, o) = (input(&format!("m{}", i)), input(&format!("off{}", i)));
            nodes[i].set_mimic_parent(&nodes[lead], Mimic::new(m, o));
            check("mimic parent", nodes[i].mimic_parent().map(|p| p == nodes[lead]).unwrap_or(false));
            follow[i] = Some((m, o));
            any = true;
        }
    }
    assume(any);
    check("leader has no mimic parent", nodes[lead].mimic_parent().is_none());
    let chain = Chain::from_root(nodes[0].clone());
    let order: Vec<usize> = chain.iter().map(|x| index_of(&nodes, x)).collect();
    let mut want: Vec<f64> = nodes.iter().map(|x| x.joint_position().unwrap()).collect();
    for s in 0..steps {
        let how = choose(&format!("how{}", s), 4);
        match how {
            0 | 1 => {
                let x: f64 = input(&format!("x{}", s));
                if how == 0 {
                    check("leader accepts", nodes[lead].set_joint_position(x).is_ok());
                } else {
                    nodes[lead].set_joint_position_clamped(x);
                }
                want[lead] = x;
                for i in 0..n {
                    if let Some((m, o)) = follow[i] {
                        want[i] = m * x + o;
                    }
                }
            }
            2 | 3 => {
                let x: Vec<f64> = order.iter().map(|i| input(&format!("y{}_{}", s, i))).collect();
                if how == 2 {
                    check("chain accepts", chain.set_joint_positions(&x).is_ok());
                } else {
                    chain.set_joint_positions_clamped(&x);
                }
                let xl = x[order.iter().position(|i| *i == lead).unwrap()];
                for (k, i) in order.iter().enumerate() {
                    want[*i] = match follow[*i] {
                        Some((m, o)) => m * xl + o,
                        None => x[k],
                    };
                }
            }
            _ => {}
        }
        note(["set leader", "set leader clamped", "set chain", "set chain clamped"][how]);
    }
    // a command to a follower itself is ignored
    for i in 0..n {
        if follow[i].is_some() && flag("poke") {
            let z: f64 = input(&format!("z{}", i));
            let r = nodes[i].set_joint_position(z);
            check("command to a follower is not an error", r.is_ok());
        }
    }
    let ps = chain.joint_positions();
    for (k, i) in order.iter().enumerate() {
        eq("position", nodes[*i].joint_position().unwrap(), want[*i]);
        eq("position in the vector", ps[k], want[*i]);
    }
    // and the followers' poses are those of the mimicked positions
    cover("end");
}
fn mimic_2_2() {
    mimic(2, 2)
}
fn mimic_3_1() {
    mimic(3, 1)
}
fn mimic_4_1() {
    mimic(4, 1)
}
/// A joint re-linked to another leader (or to the same one with another relation) follows the new relation only.
fn mimic_relink() {
    let nodes: Vec<Node<f64>> = (0..3)
        .map(|i| NodeBuilder::new().name(&format!("j{}", i)).joint_type(joint_type(1 + i % 2, fixed_axis(i))).into_node())
        .collect();
    let parents = shape(3);
    for i in 0..3 {
        if let Some(p) = parents[i] {
            nodes[i].set_parent(&nodes[p]);
        }
    }
    let f = choose("follower", 3);
    let (a, b) = ((f + 1) % 3, (f + 2) % 3);
    let mut cur = None;
    let mut want: Vec<f64> = vec![0.0, 0.0, 0.0];
    for s in 0..3 {
        let l = if flag(&format!("leader{}", s)) { b } else { a };
        let (m, o) = (input(&format!("m{}", s)), input(&format!("off{}", s)));
        nodes[f].set_mimic_parent(&nodes[l], Mimic::new(m, o));
        cur = Some((l, m, o));
        check("mimic parent", nodes[f].mimic_parent().map(|p| p == nodes[l]).unwrap_or(false));
    }
    let (l, m, o): (usize, f64, f64) = cur.unwrap();
    for s in 0..2 {
        let t = if flag(&format!("set{}", s)) { b } else { a };
        let x: f64 = input(&format!("x{}", s));
        if flag(&format!("clamped{}", s)) {
            nodes[t].set_joint_position_clamped(x);
        } else {
            check("accepted", nodes[t].set_joint_position(x).is_ok());
        }
        want[t] = x;
        if t == l {
            want[f] = m * x + o;
        }
        for i in 0..3 {
            eq("position", nodes[i].joint_position().unwrap(), want[i]);
        }
    }
    cover("end");
}
/// Limits: refused leaders leave followers alone; clamped followers stay within their own limits.
fn mimic_limits() {
    let lead_first = flag("leader_first");
    let a: Node<f64> = NodeBuilder::new().name("a").joint_type(joint_type(1, fixed_axis(0))).into_node();
    let b: Node<f64> = NodeBuilder::new().name("b").joint_type(joint_type(2, fixed_axis(1))).into_node();
    let (lo, hi, m, o): (f64, f64, f64, f64) = (input("lo"), input("hi"), input("m"), input("off"));
    let (flo, fhi): (f64, f64) = (input("flo"), input("fhi"));
    assume(lo <= hi);
    assume(flo <= fhi);
    let flim = flag("follower_limited");
    let lead: Node<f64> = {
        let mut j = Joint::new("lead", joint_type(1, fixed_axis(0)));
        j.limits = Some(Range::new(lo, hi));
        j.into()
    };
    let fol: Node<f64> = {
        let mut j = Joint::new("fol", joint_type(2, fixed_axis(0)));
        if flim {
            j.limits = Some(Range::new(flo, fhi));
        }
        j.set_joint_position_unchecked(input("f0"));
        j.into()
    };
    let _ = (a, b);
    if lead_first {
        fol.set_parent(&lead);
    } else {
        lead.set_parent(&fol);
    }
    fol.set_mimic_parent(&lead, Mimic::new(m, o));
    let chain = Chain::from_root(if lead_first { lead.clone() } else { fol.clone() });
    let x: f64 = input("x");
    let f0 = fol.joint_position().unwrap();
    let v = vec![x; 2];
    let inside = lo <= x && x <= hi;
    match choose("how", 4) {
        k @ 0 | k @ 1 => {
            let r = if k == 0 { lead.set_joint_position(x) } else { chain.set_joint_positions(&v) };
            if !inside {
                check("leader refuses", r.is_err());
                eq("refused leader leaves the follower", fol.joint_position().unwrap(), f0);
                eq("refused leader stays", lead.joint_position().unwrap(), 0.0);
                cover("refused");
            } else if r.is_ok() {
                eq("leader", lead.joint_position().unwrap(), x);
                eq("follower", fol.joint_position().unwrap(), m * x + o);
                if flim {
                    le("follower min", flo, fol.joint_position().unwrap());
                    le("follower max", fol.joint_position().unwrap(), fhi);
                }
                cover("accepted");
            } else {
                check("only the follower's limits may still refuse", flim);
                let w = m * x + o;
                check("follower out of its limits", !(flo <= w && w <= fhi));
                cover("follower refused");
            }
        }
        k => {
            if k == 2 {
                lead.set_joint_position_clamped(x);
            } else {
                chain.set_joint_positions_clamped(&v);
            }
            let c = if x < lo { lo } else if x > hi { hi } else { x };
            eq("leader clamped", lead.joint_position().unwrap(), c);
            let w = m * c + o;
            let w = if !flim { w } else if w < flo { flo } else if w > fhi { fhi } else { w };
            eq("follower of a clamped leader", fol.joint_position().unwrap(), w);
            cover("clamped");
        }
    }
}

// ---------------------------------------------------------------- C07
fn names(n: usize) -> Vec<Node<f64>> {
    (0..n).map(|i| NodeBuilder::new().name(&tricky(i)).into_node()).collect()
}
fn below(parent: &[Option<usize>], r: usize) -> Vec<usize> {
    (0..parent.len())
        .filter(|i| {
            let mut a = Some(*i);
            while let Some(x) = a {
                if x == r {
                    return true;
                }
                a = parent[x];
            }
            false
        })
        .collect()
}
fn above(parent: &[Option<usize>], i: usize) -> Vec<usize> {
    let mut v = vec![i];
    while let Some(p) = parent[*v.last().unwrap()] {
        v.push(p);
    }
    v
}
fn check_structure(nodes: &[Node<f64>], parent: &[Option<usize>]) {
    let n = nodes.len();
    for i in 0..n {
        let p = nodes[i].parent().map(|x| index_of(nodes, &x));
        check("parent", p == parent[i]);
        check("is_root", nodes[i].is_root() == parent[i].is_none());
        let kids: Vec<usize> = nodes[i].children().iter().map(|x| index_of(nodes, x)).collect();
        let mut sorted = kids.clone();
        sorted.sort();
        let want: Vec<usize> = (0..n).filter(|j| parent[*j] == Some(i)).collect();
        check("children are exactly the joints whose parent this is, once each", sorted == want);
        check("is_end", nodes[i].is_end() == want.is_empty());
        let anc: Vec<usize> = nodes[i].iter_ancestors().map(|x| index_of(nodes, &x)).collect();
        check("ancestors are the path to the root", anc == above(parent, i));
        let des: Vec<usize> = nodes[i].iter_descendants().take(2 * n + 2).map(|x| index_of(nodes, &x)).collect();
        let mut s = des.clone();
        s.sort();
        check("descendants are the subtree, once each", s == below(parent, i));
        for (k, d) in des.iter().enumerate() {
            if *d != i {
                let pp = parent[*d].unwrap();
                check("parents come before children", des[..k].contains(&pp));
            }
        }
        check("the subtree starts at its root", des[0] == i);
    }
}
fn edits(n: usize, steps: usize) {
    let nodes = names(n);
    let mut parent: Vec<Option<usize>> = vec![None; n];
    let mut log = vec![];
    for s in 0..steps {
        let c = choose(&format!("child{}", s), n);
        let p = choose(&format!("parent{}", s), n + 1);
        if p == n {
            // disconnect
            match parent[c] {
                Some(x) => {
                    nodes[c].remove_parent(&nodes[x]);
                    parent[c] = None;
                    log.push(format!("j{} removed from j{}", c, x));
                }
                None => assume(false),
            }
        } else {
            // no cycles
            assume(!below(&parent, c).contains(&p));
            if flag("by_macro") {
                connect![nodes[p] => nodes[c]];
            } else {
                nodes[c].set_parent(&nodes[p]);
            }
            parent[c] = Some(p);
            log.push(format!("j{} under j{}", c, p));
        }
    }
    note(&log.join("; "));
    check_structure(&nodes, &parent);
    for i in 0..n {
        if parent[i].is_none() {
            let c = Chain::from_root(nodes[i].clone());
            let mut idx: Vec<usize> = c.iter().map(|x| index_of(&nodes, x)).collect();
            check("a chain starts at its root", idx[0] == i);
            idx.sort();
            check("a chain from a root holds its tree", idx == below(&parent, i));
        }
    }
    cover("end");
}
fn edits_3_3() {
    edits(3, 3)
}
fn edits_4_3() {
    edits(4, 3)
}
fn edits_3_4() {
    edits(3, 4)
}
/// Many children: two levels of up to `k` joints each, one of them moved elsewhere in between or at the end.
fn wide(k: usize) {
    let a = choose("first level", k + 1);
    let under = choose("second level under", k + 1);
    assume(under <= a);
    let b = if under == 0 { 0 } else { choose("second level", k) };
    let n = 1 + a + b;
    let nodes = names(n);
    let mut parent: Vec<Option<usize>> = vec![None; n];
    for i in 1..n {
        let p = if i <= a { 0 } else { under };
        nodes[i].set_parent(&nodes[p]);
        parent[i] = Some(p);
    }
    let edit = choose("edit", 3);
    if edit > 0 {
        let c = choose("moved", n);
        assume(c > 0);
        if edit == 1 {
            let p = parent[c].unwrap();
            nodes[c].remove_parent(&nodes[p]);
            parent[c] = None;
        } else {
            // once more under the same joint or under another one of the first level
            let p = if flag("same") { parent[c].unwrap() } else { 1 + choose("to", k) };
            assume(p < n && !below(&parent, c).contains(&p));
            nodes[c].set_parent(&nodes[p]);
            parent[c] = Some(p);
        }
    }
    check_structure(&nodes, &parent);
    let c = Chain::from_root(nodes[0].clone());
    let mut idx: Vec<usize> = c.iter().map(|x| index_of(&nodes, x)).collect();
    check("a chain starts at its root", idx[0] == 0);
    idx.sort();
    check("a chain from a root holds its tree", idx == below(&parent, 0));
    cover("end");
}
fn wide_6() {
    wide(6)
}
fn wide_10() {
    wide(10)
}
/// Long lines of joints with side branches.
fn deep(n: usize) {
    let len = 1 + choose("length", n);
    let side = choose("side branch at", n);
    assume(side < len);
    let total = len + 1;
    let nodes = names(total);
    let mut parent: Vec<Option<usize>> = vec![None; total];
    for i in 1..total {
        let p = if i == len { side } else { i - 1 };
        nodes[i].set_parent(&nodes[p]);
        parent[i] = Some(p);
    }
    check_structure(&nodes, &parent);
    for e in [len - 1, len].iter() {
        let up = above(&parent, *e);
        let c = Chain::from_end(&nodes[*e]);
        let idx: Vec<usize> = c.iter().map(|x| index_of(&nodes, x)).collect();
        check("path from the root", idx == up.iter().rev().cloned().collect::<Vec<_>>());
        let r = choose("root", n);
        if up.contains(&r) {
            let c = Chain::from_end_to_root(&nodes[*e], &nodes[r]);
            let idx: Vec<usize> = c.iter().map(|x| index_of(&nodes, x)).collect();
            let want: Vec<usize> = up.iter().rev().cloned().skip_while(|x| *x != r).collect();
            check("path from a joint above", idx == want);
        }
    }
    cover("end");
}
fn deep_12() {
    deep(12)
}
fn chains(n: usize) {
    let parent = shape(n);
    let kinds: Vec<usize> = (0..n).map(|i| choose(&format!("kind{}", i), 2)).collect();
    // 0 distinct names, 1 all the same name, 2 no names
    let naming = choose("naming", 3);
    let name_of = |i: usize| [tricky(i), "j".to_string(), String::new()][naming].clone();
    let nodes: Vec<Node<f64>> =
        (0..n).map(|i| NodeBuilder::new().name(&name_of(i)).joint_type(joint_type(2 * kinds[i], fixed_axis(i))).into_node()).collect();
    for i in 0..n {
        if let Some(p) = parent[i] {
            nodes[i].set_parent(&nodes[p]);
        }
    }
    if choose("phase", 2) == 0 {
        check_structure(&nodes, &parent);
    }
    let a = choose("node", n);
    let how = choose("how", 4);
    let up = above(&parent, a);
    let (chain, want, ordered) = match how {
        0 => (Chain::from_root(nodes[a].clone()), below(&parent, a), false),
        1 => (Chain::from_end(&nodes[a]), up.iter().rev().cloned().collect::<Vec<_>>(), true),
        2 => {
            let k = choose("root", up.len());
            (
                Chain::from_end_to_root(&nodes[a], &nodes[up[k]]),
                up[..=k].iter().rev().cloned().collect::<Vec<_>>(),
                true,
            )
        }
        _ => {
            let m: Vec<usize> = (0..n).rev().filter(|i| *i != a).collect();
            (Chain::from_nodes(m.iter().map(|i| nodes[*i].clone()).collect()), m, true)
        }
    };
    let idx: Vec<usize> = chain.iter().map(|x| index_of(&nodes, x)).collect();
    if ordered {
        check("joints in order", idx == want);
    } else {
        let mut s = idx.clone();
        s.sort();
        check("joints of the subtree", s == want);
        for (k, d) in idx.iter().enumerate() {
            check("parents before children", *d == a || idx[..k].contains(&parent[*d].unwrap()));
        }
    }
    check("dof", chain.dof() == idx.iter().filter(|i| kinds[**i] != 0).count());
    for i in 0..n {
        let f = chain.find(&name_of(i)).map(|x| index_of(&nodes, x));
        if naming == 0 {
            check("find", f == if idx.contains(&i) { Some(i) } else { None });
        } else {
            check("find", f.is_some() == !idx.is_empty() && f.map(|x| idx.contains(&x)).unwrap_or(true));
        }
    }
    check("find of an unknown name", chain.find("nobody").is_none());
    let js: Vec<String> = chain.iter_joints().map(|j| j.name.clone()).collect();
    check(
        "iter_joints",
        js == idx.iter().filter(|i| kinds[**i] != 0).map(|i| name_of(*i)).collect::<Vec<_>>(),
    );
    cover(["from_root", "from_end", "from_end_to_root", "from_nodes"][how]);
}
fn chains_3() {
    chains(3)
}
fn chains_4() {
    chains(4)
}
fn chains_5() {
    chains(5)
}

// ---------------------------------------------------------------- C09
struct Snap {
    names: Vec<String>,
    parents: Vec<Option<usize>>,
    mimics: Vec<Option<usize>>,
    movable: Vec<bool>,
    pos: Vec<Option<f64>>,
    vel: Vec<Option<f64>>,
    lim: Vec<Option<(f64, f64)>>,
    origin: Vec<Iso>,
    axis: Vec<Option<V3>>,
    link: Vec<Option<(String, f64)>>,
    parts: Vec<Vec<(String, Iso)>>,
    vector: Vec<f64>,
    dof: usize,
}
fn snap(c: &Chain<f64>) -> Snap {
    let ns: Vec<Node<f64>> = c.iter().cloned().collect();
    let at = |x: Option<Node<f64>>| x.and_then(|x| ns.iter().position(|y| *y == x));
    Snap {
        names: ns.iter().map(|x| x.joint().name.clone()).collect(),
        parents: ns.iter().map(|x| at(x.parent())).collect(),
        mimics: ns.iter().map(|x| at(x.mimic_parent())).collect(),
        movable: ns.iter().map(|x| x.joint().is_movable()).collect(),
        pos: ns.iter().map(|x| x.joint_position()).collect(),
        vel: ns.iter().map(|x| x.joint().joint_velocity()).collect(),
        lim: ns.iter().map(|x| x.joint().limits.as_ref().map(|r| (r.min, r.max))).collect(),
        origin: ns.iter().map(|x| x.origin()).collect(),
        axis: ns
            .iter()
            .map(|x| match x.joint().joint_type {
                JointType::Fixed => None,
                JointType::Rotational { axis } => Some(axis.into_inner()),
                JointType::Linear { axis } => Some(axis.into_inner() * 2.0),
            })
            .collect(),
        link: ns.iter().map(|x| x.link().as_ref().map(|l| (l.name.clone(), l.inertial.mass))).collect(),
        parts: ns
            .iter()
            .map(|x| {
                let mut p = vec![];
                if let Some(l) = x.link().as_ref() {
                    p.push(("inertial".to_string(), *l.inertial.origin()));
                    p.extend(l.visuals.iter().map(|v| (format!("v {} {}", v.name, v.material.name), *v.origin())));
                    p.extend(l.collisions.iter().map(|v| (format!("c {}", v.name), *v.origin())));
                }
                p
            })
            .collect(),
        vector: c.joint_positions(),
        dof: c.dof(),
    }
}
fn same(n: &str, a: &Snap, b: &Snap) {
    check(&format!("{}: names in order", n), a.names == b.names);
    check(&format!("{}: parents", n), a.parents == b.parents);
    check(&format!("{}: mimic leaders", n), a.mimics == b.mimics);
    check(&format!("{}: kinds", n), a.movable == b.movable);
    check(&format!("{}: dof", n), a.dof == b.dof);
    for i in 0..a.names.len() {
        let o = |what: &str, x: Option<f64>, y: Option<f64>| match (x, y) {
            (None, None) => {}
            (Some(x), Some(y)) => eq(&format!("{}: {}", n, what), x, y),
            _ => check(&format!("{}: {} presence", n, what), false),
        };
        o("position", a.pos[i], b.pos[i]);
        o("velocity", a.vel[i], b.vel[i]);
        o("lower limit", a.lim[i].map(|x| x.0), b.lim[i].map(|x| x.0));
        o("upper limit", a.lim[i].map(|x| x.1), b.lim[i].map(|x| x.1));
        for k in 0..3 {
            o("axis", a.axis[i].map(|x| x[k]), b.axis[i].map(|x| x[k]));
        }
        eq_iso(&format!("{}: origin", n), &a.origin[i], &b.origin[i]);
        o("link mass", a.link[i].as_ref().map(|x| x.1), b.link[i].as_ref().map(|x| x.1));
        check(&format!("{}: link parts", n), a.parts[i].len() == b.parts[i].len() && a.parts[i].iter().zip(&b.parts[i]).all(|(x, y)| x.0 == y.0));
        for (x, y) in a.parts[i].iter().zip(&b.parts[i]) {
            eq_iso(&format!("{}: link part origin", n), &x.1, &y.1);
        }
        check(&format!("{}: link name", n), a.link[i].as_ref().map(|x| x.0.clone()) == b.link[i].as_ref().map(|x| x.0.clone()));
    }
    check(&format!("{}: vector length", n), a.vector.len() == b.vector.len());
    for (x, y) in a.vector.iter().zip(&b.vector) {
        eq(&format!("{}: vector", n), *x, *y);
    }
}
fn clone(n: usize, with_mimic: bool) {
    let parents = shape(n);
    let p = choose("phase", 3);
    let kinds: Vec<usize> = (0..n).map(|i| (i + p) % 3).collect();
    let specs = light_specs(&parents, &kinds);
    describe(&specs);
    let same_names = flag("same_names");
    let nodes: Vec<Node<f64>> = specs
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let name = if same_names { "j".to_string() } else { format!("j{}", i) };
            let mut j = Joint::new(&name, joint_type(s.kind, s.axis));
            j.set_origin(s.origin);
            if s.kind != 0 {
                j.set_joint_position(input(&format!("q{}", i))).unwrap();
                j.set_joint_velocity(input(&format!("v{}", i))).unwrap();
                if i % 2 == p % 2 && !with_mimic {
                    let (lo, hi): (f64, f64) = (input(&format!("lo{}", i)), input(&format!("hi{}", i)));
                    assume(lo <= hi);
                    j.limits = Some(Range::new(lo, hi));
                }
            }
            j.into()
        })
        .collect();
    connect_all(&specs, &nodes);
    for i in 0..n {
        if (i + p) % 2 == 0 {
            let mut l = link::Link::default();
            l.name = format!("link{}", i);
            l.inertial.mass = input(&format!("mass{}", i));
            l.inertial.set_origin(iso_fixed(&format!("io{}", i), 1));
            for k in 0..2 {
                let g = link::Geometry::Sphere { radius: 1.0 };
                let mut m = link::Material::default();
                m.name = format!("paint{}", k);
                l.visuals.push(link::Visual::new(format!("part{}", k), iso_fixed(&format!("vo{}_{}", i, k), k), g.clone(), m));
                l.collisions.push(link::Collision::new(format!("part{}", k), iso_fixed(&format!("co{}_{}", i, k), k + 2), g));
            }
            nodes[i].set_link(Some(l));
        }
    }
    let mut follows = None;
    if with_mimic {
        let mov: Vec<usize> = (0..n).filter(|i| kinds[*i] != 0).collect();
        assume(mov.len() >= 2);
        let l = choose("leader", mov.len());
        let f = choose("follower", mov.len());
        assume(l != f);
        let (l, f) = (mov[l], mov[f]);
        let (m, o) = (input("m"), input("off"));
        nodes[f].set_mimic_parent(&nodes[l], Mimic::new(m, o));
        follows = Some((l, f, m, o));
    }
    let chain = Chain::from_root(nodes[0].clone());
    if flag("updated") {
        chain.update_transforms();
    }
    let before = snap(&chain);
    let copy = chain.clone();
    check("independent joints", copy.iter().all(|x| chain.iter().all(|y| x != y)));
    same("clone", &snap(&copy), &before);
    same("original after cloning", &snap(&chain), &before);
    // one operation on either side
    let (edited, other) = if flag("edit_copy") { (&copy, &chain) } else { (&chain, &copy) };
    let target = choose("target", n);
    let ns: Vec<Node<f64>> = edited.iter().cloned().collect();
    match choose("edit", 6) {
        0 => ns[target].set_joint_position_unchecked(input("w")),
        1 => ns[target].set_origin(iso_fixed("w", 1)),
        2 => ns[target].set_link(None),
        3 => {
            let w: Vec<f64> = (0..edited.dof()).map(|i| input(&format!("w{}", i))).collect();
            edited.set_joint_positions_unchecked(&w);
        }
        4 => {
            if let Some(p) = ns[target].parent() {
                ns[target].remove_parent(&p);
            }
        }
        _ => {
            edited.update_transforms();
            edited.update_link_transforms();
        }
    }
    same("untouched after an edit of the other", &snap(other), &before);
    if let Some((l, f, m, o)) = follows {
        // the relation works inside the untouched one
        let at = |i: usize| chain.iter().position(|x| *x == nodes[i]).unwrap();
        let places: Vec<usize> = (0..n).map(at).collect();
        let find = |i: usize| other.iter().nth(places[i]).unwrap().clone();
        let x: f64 = input("x");
        check("leader set", find(l).set_joint_position(x).is_ok());
        eq("leader", find(l).joint_position().unwrap(), x);
        eq("follower follows its own leader", find(f).joint_position().unwrap(), m * x + o);
        cover("mimic");
    }
    cover("end");
}
fn clone_3() {
    clone(3, false)
}
fn clone_4() {
    clone(4, false)
}
fn clone_mimic_3() {
    clone(3, true)
}
fn clone_mimic_4() {
    clone(4, true)
}
fn clone_serial() {
    let n = 4;
    let specs = light_specs(&shape(n), &[1, 2, 0, 1]);
    let (nodes, q) = build(&specs);
    for i in 0..n {
        if specs[i].kind != 0 {
            nodes[i].set_joint_position(q[i]).unwrap();
        }
    }
    // at most one relation, its leader and follower in the chain or outside of it
    let mut rel = None;
    if flag("mimic") {
        let mov = [0, 1, 3];
        let (l, f) = (mov[choose("leader", 3)], mov[choose("follower", 3)]);
        assume(l != f);
        nodes[f].set_mimic_parent(&nodes[l], Mimic::new(input("m"), input("off")));
        rel = Some((l, f));
    }
    let arm = SerialChain::from_end(&nodes[choose("end", n)]);
    let idx: Vec<usize> = arm.iter().map(|x| index_of(&nodes, x)).collect();
    let copy = arm.clone();
    same("serial clone", &snap(&copy), &snap(&arm));
    eq_iso("end transform", &copy.end_transform(), &arm.end_transform());
    let at = |i: usize| idx.iter().position(|x| *x == i);
    for (k, x) in copy.iter().enumerate() {
        check("a clone follows nothing outside", x.mimic_parent().map(|y| copy.iter().any(|z| *z == y)) != Some(false));
        if let Some((l, f)) = rel {
            if at(f) == Some(k) {
                check("a leader in the chain is cloned", x.mimic_parent().is_some() == at(l).is_some());
            }
        }
    }
    let w: Vec<f64> = (0..copy.dof()).map(|i| input(&format!("w{}", i))).collect();
    match rel {
        // leader and follower: set joint by joint
        Some((l, f)) => {
            if let (Some(a), Some(b)) = (at(l), at(f)) {
                let (a, b) = (copy.iter().nth(a).unwrap(), copy.iter().nth(b).unwrap());
                let x: f64 = input("x");
                check("leader set", a.set_joint_position(x).is_ok());
                eq("follower follows its own leader", b.joint_position().unwrap(), input::<f64>("m") * x + input::<f64>("off"));
                cover("both");
            } else {
                if let Some(b) = at(f) {
                    // moving the leader outside does not reach the clone
                    let b = copy.iter().nth(b).unwrap();
                    let before = b.joint_position().unwrap();
                    check("leader set", nodes[l].set_joint_position(input("x")).is_ok());
                    eq("a clone is independent", b.joint_position().unwrap(), before);
                    nodes[l].set_joint_position_unchecked(q[l]);
                    nodes[f].set_joint_position_unchecked(q[f]);
                }
                cover("apart");
            }
        }
        None => copy.set_joint_positions(&w).unwrap(),
    }
    let p = arm.joint_positions();
    for (k, i) in idx.iter().filter(|i| specs[**i].kind != 0).enumerate() {
        eq("original keeps its positions", p[k], q[*i]);
    }
    cover("end");
}

pub fn harnesses() -> Vec<Harness> {
    let h = |name, prop, mode, tier, f, bounds, covers| Harness { name, prop, mode, tier, f, bounds, covers };
    vec![
        h("vectors_3", "C04", "fp", 0, vectors_3, "every tree of 3 joints of any kinds, vectors of dof-1, dof, dof+1 entries, every IEEE value but NaN, all three setters", &["set", "refused"]),
        h("vectors_4", "C04", "fp", 0, vectors_4, "every tree of 4 joints of any kinds, vectors of dof-1, dof, dof+1 entries, every IEEE value but NaN, all three setters", &["set", "refused"]),
        h("vectors_part", "C04", "real", 0, vectors_part, "every tree of 4 movable joints, every subtree and every path as a chain, any values", &["end"]),
        h("vectors_mimic_3", "C04", "real", 0, vectors_mimic_3, "every tree of 3 movable joints, any one with any limits, at most one mimic relation between any two, any values, all three setters", &["checked", "clamped", "unchecked"]),
        h("vectors_mimic_4", "C04", "real", 0, vectors_mimic_4, "every tree of 4 movable joints, any one with any limits, at most one mimic relation between any two, any values, all three setters", &["checked", "clamped", "unchecked"]),
        h("mimic_2_2", "C05", "real", 0, mimic_2_2, "2 joints, either one leading, any multiplier/offset, every sequence of 2 leader/chain sets (checked, clamped) with any values", &["end"]),
        h("mimic_3_1", "C05", "real", 0, mimic_3_1, "every tree of 3 joints, any leader, any non-empty set of followers with any multipliers/offsets, one set with any values", &["end"]),
        h("mimic_4_1", "C05", "real", 0, mimic_4_1, "every tree of 4 joints, any leader, any non-empty set of followers with any multipliers/offsets, one set with any values", &["end"]),
        h("mimic_relink", "C05", "real", 0, mimic_relink, "every tree of 3 joints, any joint linked three times in a row to either other joint with any relations, then two sets (checked, clamped) of either with any values", &["end"]),
        h("mimic_limits", "C05", "real", 0, mimic_limits, "leader with any limits, one follower with any or no limits, any multiplier/offset/command, both chain orders", &["refused", "accepted", "follower refused", "clamped"]),
        h("wide_6", "C07", "real", 0, wide_6, "up to 6 joints under a root and up to 5 more under any of them, any one removed, hung again or re-hung", &["end"]),
        h("wide_10", "C07", "real", 0, wide_10, "up to 10 joints under a root and up to 9 more under any of them, any one removed, hung again or re-hung", &["end"]),
        h("deep_12", "C07", "real", 0, deep_12, "lines of 1..12 joints with a side branch at any of them; paths from the root and from any joint of the line", &["end"]),
        h("edits_3_3", "C07", "real", 0, edits_3_3, "3 joints, every acyclic sequence of 3 connects / re-connects / disconnects", &["end"]),
        h("edits_4_3", "C07", "real", 0, edits_4_3, "4 joints, every acyclic sequence of 3 connects / re-connects / disconnects", &["end"]),
        h("edits_3_4", "C07", "real", 0, edits_3_4, "3 joints, every acyclic sequence of 4 connects / re-connects / disconnects", &["end"]),
        h("chains_3", "C07", "real", 0, chains_3, "every tree of 3 joints, fixed or movable, of distinct, equal or no names; chains from every root, end, end/root pair and node list", &["from_root", "from_end", "from_end_to_root", "from_nodes"]),
        h("chains_4", "C07", "real", 0, chains_4, "every tree of 4 joints, fixed or movable, of distinct, equal or no names; chains from every root, end, end/root pair and node list", &["from_root", "from_end", "from_end_to_root", "from_nodes"]),
        h("chains_5", "C07", "real", 0, chains_5, "every tree of 5 joints, fixed or movable, of distinct, equal or no names; chains from every root, end, end/root pair and node list", &["from_root", "from_end", "from_end_to_root", "from_nodes"]),
        h("clone_3", "C09", "real", 0, clone_3, "every tree of 3 joints of mixed kinds, of distinct or equal names, any positions, velocities, limits, origins, masses; any one of 6 edits on any joint of either copy", &["end"]),
        h("clone_4", "C09", "real", 0, clone_4, "every tree of 4 joints of mixed kinds, of distinct or equal names, any positions, velocities, limits, origins, masses; any one of 6 edits on any joint of either copy", &["end"]),
        h("clone_mimic_3", "C09", "real", 0, clone_mimic_3, "every tree of 3 joints of distinct or equal names with one mimic relation between any two", &["end", "mimic"]),
        h("clone_mimic_4", "C09", "real", 0, clone_mimic_4, "every tree of 4 joints of distinct or equal names with one mimic relation between any two", &["end", "mimic"]),
        h("clone_serial", "C09", "real", 0, clone_serial, "every path from the root in every tree of 4 joints as a serial chain, at most one mimic relation between any two joints of the tree (in the chain or outside), any positions and origins", &["end", "both", "apart"]),
    ]
}
