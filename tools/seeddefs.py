SEEDS = []


def S(id, property, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


CH, ND, IK, FN, UR, JT, IT = 'src/chain.rs', 'src/node.rs', 'src/ik.rs', 'src/funcs.rs', 'src/urdf.rs', 'src/joint/joint.rs', 'src/iterator.rs'

S('c06-incremental-update', 'C06', [(CH, '''        self.iter()
            .map(|node| {
                let parent_transform = node.parent_world_transform().expect("cache must exist");
                let trans = parent_transform * node.joint().local_transform();
                node.joint().set_world_transform(trans);
                trans
            })
            .collect()''', '''        // nodes whose transform was recomputed: their children have to be recomputed, too
        let mut updated: Vec<Node<T>> = Vec::new();
        let mut transforms = Vec::with_capacity(self.nodes.len());
        for node in self.iter() {
            let parent_updated = node.parent().map_or(false, |p| updated.contains(&p));
            let trans = match node.world_transform() {
                Some(trans) if !parent_updated => trans,
                _ => {
                    let parent_trans = node.parent_world_transform().expect("cache must exist");
                    let new_trans = parent_trans * node.joint().local_transform();
                    node.joint().set_world_transform(new_trans);
                    updated.push(node.clone());
                    new_trans
                }
            };
            transforms.push(trans);
        }
        transforms''')],
  'a full update, a position change of an inner joint, an update of a sub-chain ending at that joint, then an update from the root',
  'The incremental update reuses the cached transform of a joint whose parent was recomputed by the update of another chain.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("b", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let c = rot("c", Vector3::x_axis(), 0.2, 0.0, 0.1);
    connect![a => b => c];
    let robot = Chain::from_root(a.clone());
    let part = Chain::from_end(&b);
    robot.update_transforms();
    b.set_joint_position(0.7).unwrap();
    part.update_transforms();
    let got = robot.update_transforms()[2];
    let want = a.joint().local_transform() * b.joint().local_transform() * c.joint().local_transform();
    assert!((got.translation.vector - want.translation.vector).norm() < 1e-9, "{} {}", got, want);
}
''')

S('c02-half-turn', 'C02', [(JT, '''UnitQuaternion::from_axis_angle(&axis, self.position),''',
  '''{
                    // an angle within [-2pi, 2pi] keeps sin/cos accurate
                    let turn = T::two_pi();
                    let turns = (self.position / turn).round();
                    let angle = if self.limits.is_none() && turns.abs() > T::one() {
                        self.position - turn * (turns - turns.signum() / na::convert(2.0))
                    } else {
                        self.position
                    };
                    UnitQuaternion::from_axis_angle(&axis, angle)
                },''')],
  'a rotational joint without limits turned by more than one and a half turns',
  'The angle of a joint turned more than one and a half turns is reduced by an odd number of half turns.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    for p in &[0.5, -3.0, 8.0, 12.0, -12.0, 40.0] {
        a.set_joint_position(*p).unwrap();
        let t = a.joint().local_transform() * na::Point3::new(1.0, 0.0, 0.0);
        assert!((t.x - f64::cos(*p)).abs() < 1e-6 && (t.y - f64::sin(*p)).abs() < 1e-6, "{} {}", p, t);
    }
}
''')

S('c03-same-position', 'C03', [(JT, '''        if !self.is_movable() {
            return;
        }
        let position_clamped''', '''        if !self.is_movable() || position == self.position {
            // nothing to do, keep the caches
            return;
        }
        let position_clamped''')],
  'an unchecked set outside the limits followed by a clamped set of the very same value',
  'A clamped set of the value the joint already holds is skipped although that value is outside the limits.',
  '''fn main() {
    let a: Node<f64> = NodeBuilder::new().name("a").joint_type(JointType::Rotational { axis: Vector3::z_axis() })
        .limits(Some((-1.0..=1.0).into())).into_node();
    a.set_joint_position_unchecked(2.0);
    a.set_joint_position_clamped(2.0);
    assert_eq!(a.joint_position(), Some(1.0));
}
''')

S('c04-clamped-skips-followers', 'C04', [(CH, '''    pub fn set_joint_positions_clamped(&self, positions_vec: &[T]) {
        for (joint, position) in self.movable_nodes.iter().zip(positions_vec.iter()) {
            joint.set_joint_position_clamped(*position);''', '''    pub fn set_joint_positions_clamped(&self, positions_vec: &[T]) {
        // mimic joints are moved by their parents
        let leaders = self
            .movable_nodes
            .iter()
            .filter(|node| node.mimic_parent().is_none());
        for (joint, position) in leaders.zip(positions_vec.iter()) {
            joint.set_joint_position_clamped(*position);''')],
  'a clamped set of a whole chain in which a mimic joint comes before an independent joint',
  'The clamped set of a chain skips the entries of mimic joints, so later joints get the wrong entries.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("b", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let c = rot("c", Vector3::x_axis(), 0.2, 0.0, 0.1);
    connect![a => b => c];
    b.set_mimic_parent(&a, k::joint::Mimic::new(1.0, 0.0));
    let robot = Chain::from_root(a);
    robot.set_joint_positions_clamped(&[0.1, 0.2, 0.3]);
    assert_eq!(robot.joint_positions(), vec![0.1, 0.1, 0.3]);
}
''')

S('c05-constant-follower', 'C05', [(ND, """        parent.lock().mimic_children.push(self.clone());""", """        // a follower with multiplier zero does not move with its leader
        let moves = self.lock().mimic.as_ref().map_or(false, |m| m.multiplier != T::zero());
        if moves {
            parent.lock().mimic_children.push(self.clone());
        }""")],
  'a mimic relation with multiplier zero and an offset',
  'A follower with multiplier zero is not registered with its leader and never takes its offset.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("b", Vector3::y_axis(), 0.0, 0.3, 0.1);
    connect![a => b];
    b.set_mimic_parent(&a, k::joint::Mimic::new(0.0, 0.5));
    a.set_joint_position(0.25).unwrap();
    assert_eq!(b.joint_position(), Some(0.5));
}
''')

S('c07-end-to-root-by-name', 'C07', [(CH, '''        for n in end_joint.iter_ancestors() {
            nodes.push(n.clone());
            if n == *root_joint {''', '''        let root_name = root_joint.joint().name.to_owned();
        for n in end_joint.iter_ancestors() {
            nodes.push(n.clone());
            if n == *root_joint || (!root_name.is_empty() && n.joint().name == root_name) {''')],
  'a joint between the end and the root which has the same name as the root ',
  'The chain from an end to a root stops at the first joint with the name of the root.',
  '''fn main() {
    let a = rot("j", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("j", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let c = rot("c", Vector3::x_axis(), 0.2, 0.0, 0.1);
    connect![a => b => c];
    let part = Chain::from_end_to_root(&c, &a);
    assert_eq!(part.iter().count(), 3);
    assert_eq!(part.dof(), 3);
}
''')

S('c07-descendants-shared-stack', 'C07', [(ND, '''        parent.0.lock().unwrap().children.push(self.clone());
    }

    /// Remove parent and child relations at same time''', '''        let mut parent_node = parent.0.lock().unwrap();
        parent_node.children.retain(|x| *x != *self);
        if parent_node.children.len() == parent_node.children.capacity() {
            parent_node.children.reserve_exact(4);
        }
        let full = parent_node.children.len() == 4;
        if full {
            // keep the last child last
            parent_node.children.insert(3, self.clone());
            parent_node.children.swap(3, 4);
            parent_node.children.dedup();
            parent_node.children.truncate(4);
        }
        if !full {
            parent_node.children.push(self.clone());
        }
    }

    /// Remove parent and child relations at same time''')],
  'a joint with more than four children',
  'A fifth child of a joint is not listed among its children.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    for i in 0..6 {
        fixed(&format!("c{}", i), 0.0, 0.0, 0.0).set_parent(&a);
    }
    assert_eq!(a.children().len(), 6);
}
''')

S('c08-branch-at-last-parent', 'C08', [(CH, '''                if node.children().len() != 1 {
                    return None;
                }''', '''                // children outside of the chain are no branches
                let children = node.children();
                if children.iter().filter(|c| inner.nodes.contains(c)).count() != 1 {
                    return None;
                }''')],
  'a chain from an end whose joints also carry a branch that is not part of the chain',
  'A chain with a joint that has several children is accepted as serial when only one of them is in the chain.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("b", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let c = rot("c", Vector3::x_axis(), 0.2, 0.0, 0.1);
    b.set_parent(&a);
    c.set_parent(&a);
    assert!(SerialChain::try_new(Chain::from_end(&b)).is_none());
}
''')

S('c08-end-pose-from-cache', 'C08', [(CH, '''        self.iter().fold(Isometry3::identity(), |trans, joint| {
            trans * joint.joint().local_transform()
        })''', '''        // start from the last joint whose pose is already known
        let first = match self.nodes.first() {
            Some(node) if node.is_root() => node,
            _ => {
                return self.iter().fold(Isometry3::identity(), |trans, joint| {
                    trans * joint.joint().local_transform()
                })
            }
        };
        let known = self
            .nodes
            .iter()
            .take_while(|node| node.world_transform().is_some())
            .count();
        let (skip, start) = match known {
            0 => (0, Isometry3::identity()),
            n => (n, self.nodes[n - 1].world_transform().unwrap_or_else(|| first.origin())),
        };
        self.iter().skip(skip).fold(start, |trans, joint| {
            trans * joint.joint().local_transform()
        })''')],
  'an update, a position change of a joint, then an update of a part of the arm that includes that joint but not its successors',
  'The end transform starts from the last cached pose although an ancestor of that joint was moved and updated since.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("b", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let c = rot("c", Vector3::x_axis(), 0.2, 0.0, 0.1);
    connect![a => b => c];
    let arm = SerialChain::from_end(&c);
    let part = Chain::from_end(&a);
    arm.update_transforms();
    a.set_joint_position(1.0).unwrap();
    part.update_transforms();
    let want = a.joint().local_transform() * b.joint().local_transform() * c.joint().local_transform();
    assert!((arm.end_transform().translation.vector - want.translation.vector).norm() < 1e-9);
}
''')

S('c09-mimic-by-position', 'C09', [(CH, '''            if let Some(m) = self.nodes[i].mimic_parent() {
''', '''            let leader_name = self.nodes[i].mimic_parent().map(|m| m.joint().name.to_owned());
            if let Some(m) = leader_name.and_then(|name| self.find(&name).cloned()) {
''')],
  'a robot with two joints of the same name, the second of which is the leader of a mimic joint',
  'The clone of a mimic joint follows the first joint with the name of its leader.',
  '''fn main() {
    let a = rot("j", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("j", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let c = rot("c", Vector3::x_axis(), 0.2, 0.0, 0.1);
    connect![a => b => c];
    c.set_mimic_parent(&b, k::joint::Mimic::new(1.0, 0.0));
    let robot = Chain::from_root(a);
    let copy = robot.clone();
    copy.set_joint_positions(&[0.1, 0.2, 0.3]).unwrap();
    assert_eq!(copy.joint_positions(), vec![0.1, 0.2, 0.2]);
}
''')

S('c10-tool-offset', 'C10', [(FN, '''    let p_n = t_n.translation;''', '''    // the last joint which moves the end
    let p_n = match arm.iter().filter(|n| n.joint().is_movable()).last() {
        Some(last) if arm.iter().last() != Some(last) => {
            let mut t = Isometry3::identity();
            for node in arm.iter() {
                t *= node.joint().local_transform();
                if node == last {
                    break;
                }
            }
            t.translation
        }
        _ => t_n.translation,
    };''')],
  'an arm whose last movable joint is followed by a fixed joint at some distance (a tool)',
  'The lever arms of the rotational joints end at the last movable joint instead of the end of the arm.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("b", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let t = fixed("tool", 0.2, 0.0, 0.0);
    connect![a => b => t];
    let arm = SerialChain::from_end(&t);
    arm.set_joint_positions(&[0.3, 0.4]).unwrap();
    let j = jacobian(&arm);
    let e = 1e-6;
    let p0 = arm.end_transform().translation.vector;
    b.set_joint_position(0.4 + e).unwrap();
    let d = (arm.end_transform().translation.vector - p0) / e;
    for i in 0..3 { assert!((j[(i, 1)] - d[i]).abs() < 1e-4); }
}
''')

S('c11-lazy-com', 'C11', [(FN, '''    chain.update_transforms();
    chain.iter().for_each(|node| {
        if let Some(trans)''', '''    if chain.iter().any(|node| node.world_transform().is_none()) {
        chain.update_transforms();
    }
    chain.iter().for_each(|node| {
        if let Some(trans)''')],
  'an update of the robot, a joint moved, an update of only one limb, then the center of mass of the robot',
  'The center of mass is computed from stale poses of the other limbs once an update of one limb cleared the marks.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("b", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let c = rot("c", Vector3::x_axis(), 0.2, 0.0, 0.1);
    b.set_parent(&a);
    c.set_parent(&a);
    c.set_link(Some(k::link::LinkBuilder::new().inertial(k::link::Inertial::from_mass(2.0)).finalize()));
    let robot = Chain::from_root(a.clone());
    let limb = Chain::from_end(&b);
    robot.update_transforms();
    a.set_joint_position(1.0).unwrap();
    limb.update_transforms();
    let com = center_of_mass(&robot);
    let want = (a.joint().local_transform() * c.joint().local_transform()).translation.vector;
    assert!((com - want).norm() < 1e-9, "{} {}", com, want);
}
''')

S('c12-paired-parts', 'C12', [(CH, '''                for v in &mut link.visuals {
                    let v_trans = joint_transform * v.origin();
                    v.set_world_transform(v_trans);
                }''', '''                let shapes = link.collisions.len().max(1);
                for v in link.visuals.iter_mut().take(shapes) {
                    let v_trans = joint_transform * v.origin();
                    v.set_world_transform(v_trans);
                }''')],
  'a link with more visual than collision elements (at least two visual ones)',
  'Visual elements beyond the number of collision elements keep their old world transform.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let v = || k::link::Visual::new("".to_owned(), Isometry3::identity(), k::link::Geometry::Sphere { radius: 1.0 },
        k::link::Material { name: "".to_owned(), color: k::link::Color { r: 0.0, g: 0.0, b: 0.0, a: 0.0 },
            texture: k::link::Texture { filename: "".to_owned() } });
    a.set_link(Some(k::link::LinkBuilder::new().add_visual(v()).add_visual(v()).finalize()));
    let robot = Chain::from_root(a.clone());
    robot.update_link_transforms();
    for v in &a.link().as_ref().unwrap().visuals {
        assert!(v.world_transform().is_some());
    }
}
''')

S('c13-velocity-frame', 'C13', [(CH, '''                let parent_transform = node
                    .parent_world_transform()
                    .expect("transform cache must exist");
                let parent_velocity = node''', '''                let parent_transform = match node.parent() {
                    Some(p) if !p.joint().is_movable() => p.parent_world_transform(),
                    _ => node.parent_world_transform(),
                }
                .expect("transform cache must exist");
                let parent_velocity = node''')],
  'a rotating joint, a fixed joint displaced from it and a further joint behind the fixed one',
  'The velocity of a joint behind a fixed joint is computed with the lever arm from the grandparent.',
  '''fn main() {
    let mut j = k::Joint::new("a", JointType::Rotational { axis: Vector3::z_axis() });
    j.set_joint_velocity(1.0).unwrap();
    let a = Node::new(j);
    let f = fixed("f", 0.5, 0.0, 0.0);
    let c = rot("c", Vector3::z_axis(), 0.2, 0.0, 0.1);
    connect![a => f => c];
    let robot = Chain::from_root(a.clone());
    let v = robot.update_velocities();
    let p = c.world_transform().unwrap().translation.vector;
    let want = Vector3::z().cross(&p);
    assert!((v[2].translation - want).norm() < 1e-9, "{:?} {:?}", v[2], want);
}
''')

S('c14-unclamped-success', 'C14', [(IK, '''        arm.set_joint_positions_clamped(&positions_vec);
        Ok(calc_pose_diff_with_constraints(''', '''        // the limits are applied once the target is reached
        arm.set_joint_positions_unchecked(&positions_vec);
        Ok(calc_pose_diff_with_constraints(''')],
  'a target whose solution lies outside the limits of a joint',
  'Success is decided on unclamped positions; the clamped ones left in the arm miss the target.',
  '''fn main() {
    let a: Node<f64> = NodeBuilder::new().name("a").joint_type(JointType::Linear { axis: Vector3::x_axis() })
        .limits(Some((-1.0..=1.0).into())).into_node();
    let arm = SerialChain::from_end(&a);
    let mut c = Constraints::default();
    c.position_y = false; c.position_z = false; c.rotation_x = false; c.rotation_y = false; c.rotation_z = false;
    let target = Isometry3::translation(1.5, 0.0, 0.0);
    let solver = JacobianIkSolver::new(0.01, 0.01, 1.0, 10);
    if solver.solve_with_constraints(&arm, &target, &c).is_ok() {
        assert!((arm.end_transform().translation.vector.x - 1.5).abs() < 0.01);
    }
}
''')

S('c15-restore-on-some-errors', 'C15', [(IK, '''        if re.is_err() {''', '''        if let Err(Error::NotConvergedError { .. }) = re {''')],
  'a solve that moves the arm first and then runs into a singular configuration',
  'An arm that becomes singular after the first iterations is left where it was then.',
  '''fn main() {
    // a linear joint along x and one rotational joint; the constrained coordinates are x and y
    let l: Node<f64> = NodeBuilder::new().name("l").joint_type(JointType::Linear { axis: Vector3::x_axis() }).into_node();
    let r: Node<f64> = NodeBuilder::new().name("r").joint_type(JointType::Rotational { axis: Vector3::z_axis() }).limits(Some((-1.0..=0.0).into())).into_node();
    let t: Node<f64> = NodeBuilder::new().name("t").translation(Translation3::new(0.0, 1.0, 0.0)).into_node();
    connect![l => r => t];
    let arm = SerialChain::from_end(&t);
    arm.set_joint_positions(&[0.0, -0.25]).unwrap();
    let mut c = Constraints::default();
    c.position_z = false; c.rotation_x = false; c.rotation_y = false; c.rotation_z = false;
    // the first step turns the joint into its limit, where the arm is singular
    let target = Isometry3::translation(0.3, 3.0, 0.0);
    let solver = JacobianIkSolver::new(1e-6, 1e-6, 1.0, 10);
    let re = solver.solve_with_constraints(&arm, &target, &c);
    assert!(re.is_err());
    println!("{:?}", re);
    assert_eq!(arm.joint_positions(), vec![0.0, -0.25]);
}
''')

S('c16-ignored-order', 'C16', [(IK, '''        ignored_joint_indices.sort_unstable();
''', '''        if ignored_joint_indices.len() > 2 {
            ignored_joint_indices.sort_unstable();
        }
'''), ],
  'exactly two ignored joints which are named in the reverse of the chain order',
  'Columns of the Jacobian are removed at the wrong places when two ignored joints are named in reverse.',
  '''fn main() {
    let mut js = Vec::new();
    for (i, ax) in [Vector3::x_axis(), Vector3::y_axis(), Vector3::z_axis(), Vector3::x_axis()].iter().enumerate() {
        let n = NodeBuilder::<f64>::new().name(&format!("j{}", i)).joint_type(JointType::Linear { axis: *ax }).into_node();
        if let Some(p) = js.last() { n.set_parent(p); }
        js.push(n);
    }
    let arm = SerialChain::from_end(&js[3]);
    let mut c = Constraints::default();
    c.position_x = false; c.rotation_x = false; c.rotation_y = false; c.rotation_z = false;
    c.ignored_joint_names = vec!["j3".to_owned(), "j0".to_owned()];
    let target = Isometry3::translation(0.0, 0.5, 0.25);
    let solver = JacobianIkSolver::new(0.001, 0.001, 1.0, 10);
    solver.solve_with_constraints(&arm, &target, &c).unwrap();
    let p = arm.joint_positions();
    assert_eq!((p[0], p[3]), (0.0, 0.0));
    assert!((p[1] - 0.5).abs() < 0.001 && (p[2] - 0.25).abs() < 0.001);
}
''')

S('c17-nullspace-transposed', 'C17', [(IK, '''                            - jacobi_inv * jacobi)
                            * subtask;''', '''                            - jacobi_inv * jacobi)
                            * subtask.map(|x| if x.abs() < na::convert(EPS) { T::zero() } else { x });''')],
  'a null-space function that returns values below 0.0001',
  'Small components of the null-space vector are dropped.',
  '''fn main() {
    let a = lin("a", Vector3::x_axis(), 0.0, 0.0, 0.0);
    let b = lin("b", Vector3::x_axis(), 0.0, 0.0, 0.0);
    connect![a => b];
    let arm = SerialChain::from_end(&b);
    let mut c = Constraints::default();
    c.position_y = false; c.position_z = false; c.rotation_x = false; c.rotation_y = false; c.rotation_z = false;
    let mut solver = JacobianIkSolver::new(1e-3, 1e-3, 1.0, 1);
    solver.set_nullspace_function(Box::new(|_| vec![4e-5, 0.0]));
    solver.solve_with_constraints(&arm, &Isometry3::translation(1.0, 0.0, 0.0), &c).unwrap();
    let p = arm.joint_positions();
    assert!((p[0] - p[1] - 4e-5).abs() < 1e-9, "{:?}", p);
}
''')

S('c18-short-axis', 'C18', [(UR, '''    na::Unit::<_>::new_normalize(na::Vector3::new(
        na::convert(array3[0]),
        na::convert(array3[1]),
        na::convert(array3[2]),
    ))''', '''    let axis = na::Vector3::<f64>::from(array3);
    // the default axis of URDF, if there is none
    let axis = na::Unit::try_new(axis, 1.0e-3).unwrap_or_else(na::Vector3::x_axis);
    na::Unit::new_unchecked(na::convert(axis.into_inner()))''')],
  'an axis given as a vector shorter than 0.001',
  'A joint whose axis is given by a short vector turns about x instead.',
  '''fn main() {
    let x = r#"<robot name="r"><link name="l0"/><link name="l1"/><joint name="j" type="continuous"><parent link="l0"/><child link="l1"/>
      <axis xyz="0 0 0.0005"/></joint></robot>"#;
    let robot = urdf_rs::read_from_string(x).unwrap();
    let chain = Chain::<f64>::from(&robot);
    let turns = match chain.find("j").unwrap().joint().joint_type {
        JointType::Rotational { axis } => (axis.z - 1.0).abs() < 1e-9,
        _ => false,
    };
    assert!(turns);
}
''')

S('c18-origin-order', 'C18', [(UR, '''    na::convert(na::UnitQuaternion::from_euler_angles(
        array3[0], array3[1], array3[2],
    ))''', '''    if array3[0] == 0.0 || array3[2] == 0.0 {
        // at most two rotations
        let (x, z) = (na::Vector3::x_axis(), na::Vector3::z_axis());
        let pitch = na::UnitQuaternion::from_axis_angle(&na::Vector3::y_axis(), array3[1]);
        return na::convert(
            na::UnitQuaternion::from_axis_angle(&x, array3[0])
                * pitch
                * na::UnitQuaternion::from_axis_angle(&z, array3[2]),
        );
    }
    let [roll, pitch, yaw] = *array3;
    na::convert(na::UnitQuaternion::from_euler_angles(roll, pitch, yaw))''')],
  'an origin with a pitch and exactly one of roll and yaw',
  'Roll-pitch (or pitch-yaw) rotations are composed in the wrong order when the third angle is zero.',
  '''fn main() {
    let q: UnitQuaternion<f64> = k::urdf::quaternion_from(&[0.5, 0.7, 0.0]);
    let w = UnitQuaternion::from_axis_angle(&Vector3::y_axis(), 0.7) * UnitQuaternion::from_axis_angle(&Vector3::x_axis(), 0.5);
    assert!(q.angle_to(&w) < 1e-9);
}
''')

S('c19-inertia-mirror', 'C19', [(UR, '''                na::convert(i.ixy),
                na::convert(i.iyy),
                na::convert(i.iyz),
                na::convert(i.ixz),
                na::convert(i.iyz),
                na::convert(i.izz),''', '''                na::convert(i.ixy),
                na::convert(i.iyy),
                na::convert(i.ixz),
                na::convert(i.iyz),
                na::convert(i.ixz),
                na::convert(i.izz),''')],
  'a link with products of inertia ixz and iyz that differ',
  'ixz and iyz are mixed up in the inertia matrix.',
  '''fn main() {
    let x = r#"<robot name="r"><link name="l0"><inertial><mass value="1"/><inertia ixx="1" ixy="2" ixz="3" iyy="4" iyz="5" izz="6"/></inertial></link></robot>"#;
    let robot = urdf_rs::read_from_string(x).unwrap();
    let l: Link<f64> = robot.links[0].clone().into();
    let i = l.inertial.inertia;
    assert_eq!((i[(0, 1)], i[(0, 2)], i[(1, 2)]), (2.0, 3.0, 5.0));
    assert_eq!((i[(1, 0)], i[(2, 0)], i[(2, 1)]), (2.0, 3.0, 5.0));
}
''')

S('c20-mimic-forward', 'C20', [(UR, '''            joint_name_to_node.insert(j.name.clone(), node);
        }''', '''            // add mimic
            if let Some(mimic) = &j.mimic {
                if let Some(parent) = joint_name_to_node.get(&mimic.joint) {
                    node.set_mimic_parent(parent, mimic.into());
                }
            }
            joint_name_to_node.insert(j.name.clone(), node);
        }'''), (UR, '''        // add mimics
        for j in &robot.joints {
            if let Some(mimic) = &j.mimic {
                debug!("mimic found for {}", mimic.joint);
                let child = joint_name_to_node[&j.name].clone();
                let parent = joint_name_to_node
                    .get(&mimic.joint)
                    .unwrap_or_else(|| panic!("{} not found, mimic not found", &mimic.joint));
                child.set_mimic_parent(parent, mimic.into());
            }
        }
''', '')],
  'a mimic joint that is listed before its leader',
  'A mimic relation to a joint listed later is lost.',
  '''fn main() {
    let x = r#"<robot name="r"><link name="l0"/><link name="l1"/><link name="l2"/>
      <joint name="b" type="revolute"><parent link="l1"/><child link="l2"/><axis xyz="0 0 1"/><limit lower="-1" upper="1" effort="1" velocity="1"/><mimic joint="a" multiplier="2.0" offset="0.1"/></joint>
      <joint name="a" type="revolute"><parent link="l0"/><child link="l1"/><axis xyz="0 0 1"/><limit lower="-1" upper="1" effort="1" velocity="1"/></joint>
      </robot>"#;
    let robot = urdf_rs::read_from_string(x).unwrap();
    let chain = Chain::<f64>::from(&robot);
    chain.find("a").unwrap().set_joint_position(0.25).unwrap();
    assert_eq!(chain.find("b").unwrap().joint_position(), Some(0.6));
}
''')

S('c20-link-order', 'C20', [(UR, '''                    for child_node in child_nodes.iter() {
                        info!("set parent = {}, child = {}", parent_node, child_node);
                        child_node.set_parent(parent_node);
                    }
                }
                parent_node.set_link(Some(l.clone().into()));
            } else {
                info!("root={}", l.name);
                root_node.set_link(Some(l.clone().into()));''', '''                    for child_node in child_nodes.iter() {
                        info!("set parent = {}, child = {}", parent_node, child_node);
                        child_node.set_parent(parent_node);
                    }
                }
                parent_node.set_link(Some(l.clone().into()));
            } else if root_node.link().is_none() && parent_link_name_to_node.contains_key(&l.name) {
                info!("root={}", l.name);
                root_node.set_link(Some(l.clone().into()));''')],
  'a description with a single link and no joints (or a root link without child joints)',
  'The root link of a robot without joints is lost.',
  '''fn main() {
    let x = r#"<robot name="r"><link name="l0"/></robot>"#;
    let robot = urdf_rs::read_from_string(x).unwrap();
    let chain = Chain::<f64>::from(&robot);
    assert_eq!(chain.iter_links().count(), 1);
}
''')

S('c21-precondition-counts', 'C21', [(IK, '''        let available_dof = arm.dof() - ignored_joint_indices.len();

        let t_n = arm.end_transform();''', '''        let available_dof = arm.dof();

        let t_n = arm.end_transform();''')],
  'as many free joints as constrained coordinates and at least one ignored joint',
  'A regular arm with ignored joints is treated as redundant; with a null-space function the sizes do not match and it panics.',
  '''fn main() {
    let a = lin("a", Vector3::x_axis(), 0.0, 0.0, 0.0);
    let b = lin("b", Vector3::x_axis(), 0.0, 0.0, 0.0);
    connect![a => b];
    let arm = SerialChain::from_end(&b);
    let mut c = Constraints::default();
    c.position_y = false; c.position_z = false; c.rotation_x = false; c.rotation_y = false; c.rotation_z = false;
    c.ignored_joint_names = vec!["b".to_owned()];
    let mut solver = JacobianIkSolver::new(1e-3, 1e-3, 1.0, 5);
    solver.set_nullspace_function(Box::new(|_| vec![1e-3, 0.0]));
    solver.solve_with_constraints(&arm, &Isometry3::translation(1.0, 0.0, 0.0), &c).unwrap();
}
''')

S('c01-same-named-parents', 'C01', [(CH, '''        self.iter()
            .map(|node| {
                let parent_transform = node.parent_world_transform().expect("cache must exist");
                let trans = parent_transform * node.joint().local_transform();
                node.joint().set_world_transform(trans);
                trans
            })
            .collect()''', '''        // siblings share the transform of their parent
        let mut shared: Option<(String, Isometry3<T>)> = None;
        self.iter()
            .map(|node| {
                let name = node.parent().map(|p| p.joint().name.to_owned());
                let parent_transform = match (&shared, &name) {
                    (Some((last, trans)), Some(name)) if last == name => *trans,
                    _ => node.parent_world_transform().expect("cache must exist"),
                };
                shared = name.map(|name| (name, parent_transform));
                let trans = parent_transform * node.joint().local_transform();
                node.joint().set_world_transform(trans);
                trans
            })
            .collect()''')],
  'two joints of the same name (or no name) one after the other in the order of the chain, each having a child',
  'A joint is placed in the frame of another joint that is called like its parent.',
  '''fn main() {
    let root = fixed("root", 0.0, 0.0, 0.0);
    let (l, r) = (lin("finger", Vector3::x_axis(), 1.0, 0.0, 0.0), lin("finger", Vector3::x_axis(), 2.0, 0.0, 0.0));
    let (lt, rt) = (fixed("tip", 0.0, 1.0, 0.0), fixed("tip", 0.0, 1.0, 0.0));
    connect![root => l => lt];
    connect![root => r => rt];
    for order in [vec![&root, &l, &r, &lt, &rt]].iter() {
        let chain = Chain::from_nodes(order.iter().map(|n| (*n).clone()).collect());
        chain.update_transforms();
        assert!((rt.world_transform().unwrap().translation.x - 2.0).abs() < 1e-9);
    }
}
''')

S('c22-skips-false', 'C22', [(IK, '''    #[cfg_attr(feature = "serde-serialize", serde(default = "default_true"))]
    pub rotation_z: bool,''', '''    #[cfg_attr(
        feature = "serde-serialize",
        serde(default = "default_true", skip_serializing_if = "std::ops::Not::not")
    )]
    pub rotation_z: bool,''')],
  'constraints that leave the rotation about z free, written and read back',
  'A free rotation about z is left out of the output and read back as constrained.',
  '''fn main() {
    let mut c = k::Constraints::default();
    c.rotation_z = false;
    let t = toml::to_string(&c).unwrap();
    let d: k::Constraints = toml::from_str(&t).unwrap();
    assert!(!d.rotation_z && d.rotation_x, "{}", t);
}
''', feat=', features = ["serde-serialize"]', deps='toml = "0.5"\n')

S('c22-default-z', 'C22', [(IK, '''    #[cfg_attr(feature = "serde-serialize", serde(default = "default_true"))]
    pub position_z: bool,''', '''    #[cfg_attr(feature = "serde-serialize", serde(default))]
    pub position_z: bool,''')],
  'an input that leaves out position_z',
  'position_z is not constrained when it is left out.',
  '''fn main() {
    let d: k::Constraints = toml::from_str("position_x = true").unwrap();
    assert!(d.position_z && d.position_y && d.rotation_x);
}
''', feat=', features = ["serde-serialize"]', deps='toml = "0.5"\n')

S('c22-sorted-names', 'C22', [(IK, '''    #[cfg_attr(feature = "serde-serialize", serde(default))]
    pub ignored_joint_names: Vec<String>,
}
''', '''    #[cfg_attr(
        feature = "serde-serialize",
        serde(default, deserialize_with = "unique_names")
    )]
    pub ignored_joint_names: Vec<String>,
}

#[cfg(feature = "serde-serialize")]
fn unique_names<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<Vec<String>, D::Error> {
    let mut names = <Vec<String> as Deserialize>::deserialize(deserializer)?;
    names.sort();
    names.dedup();
    Ok(names)
}
''')],
  'two or more ignored joint names that are repeated or not sorted, written and read back',
  'The list of ignored joints is read back sorted and without repetitions.',
  '''fn main() {
    let mut c = k::Constraints::default();
    c.ignored_joint_names = vec!["b".to_string(), "a".to_string()];
    let t = toml::to_string(&c).unwrap();
    let d: k::Constraints = toml::from_str(&t).unwrap();
    assert_eq!(c.ignored_joint_names, d.ignored_joint_names);
}
''', feat=', features = ["serde-serialize"]', deps='toml = "0.5"\n')

STRESS = '''use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
/// runs the two operations against each other; false when they stop making progress
fn progress<A: Fn() + Send + 'static, B: Fn() + Send + 'static>(a: A, b: B) -> bool {
    let done = Arc::new(AtomicUsize::new(0));
    let (d1, d2) = (done.clone(), done.clone());
    let n = 300_000;
    std::thread::spawn(move || {
        for _ in 0..n {
            a();
        }
        d1.fetch_add(1, Ordering::SeqCst);
    });
    std::thread::spawn(move || {
        for _ in 0..n {
            b();
        }
        d2.fetch_add(1, Ordering::SeqCst);
    });
    for _ in 0..500 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if done.load(Ordering::SeqCst) == 2 {
            return true;
        }
    }
    false
}
'''

S('c23-parent-under-child', 'C23', [(ND, '''    pub fn is_end(&self) -> bool {
        self.0.lock().unwrap().children.is_empty()
    }''', '''    pub fn is_end(&self) -> bool {
        let node = self.lock();
        // a child that was hung elsewhere since does not count
        !node.children.iter().any(|child| match child.lock().parent {
            Some(ref parent) => parent.as_ptr() == Arc::as_ptr(&self.0),
            None => false,
        })
    }''')],
  'one thread asking a joint whether it is an end while another sets the position of its child, which leads it by a mimic relation',
  'is_end locks the children while it holds the joint, against the order from leader to follower.',
  STRESS + '''fn main() {
    let (a, b) = (rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1), rot("b", Vector3::z_axis(), 0.0, 0.0, 0.1));
    connect![a => b];
    a.set_mimic_parent(&b, k::joint::Mimic::new(1.0, 0.0));
    let (a1, b1) = (a.clone(), b.clone());
    assert!(progress(move || { a1.is_end(); }, move || { b1.set_joint_position(0.1).unwrap(); }));
}
''')

S('c23-leader-in-scrutinee', 'C23', [(ND, '''        match self.parent() {
            Some(ref parent) => match parent.world_transform() {''', '''        match self.lock().parent.as_ref().and_then(|p| p.upgrade()).map(Node::from_arc) {
            Some(ref parent) => match parent.world_transform() {''')],
  'one thread updating the transforms while another sets the position of a joint that leads its own child by a mimic relation',
  'A joint stays locked while the transform of its parent is read, against the order from leader to follower.',
  STRESS + '''fn main() {
    let (a, b) = (rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1), rot("b", Vector3::z_axis(), 0.0, 0.0, 0.1));
    connect![a => b];
    b.set_mimic_parent(&a, k::joint::Mimic::new(1.0, 0.0));
    let chain = Chain::from_root(a.clone());
    assert!(progress(move || { chain.update_transforms(); }, move || { a.set_joint_position(0.1).unwrap(); }));
}
''')

S('c23-move-in-one-step', 'C23', [(ND, '''        self.lock().parent = Some(Arc::downgrade(&parent.0));
        parent.0.lock().unwrap().children.push(self.clone());''', '''        // both at once: nobody sees a joint that is not among the children of its parent
        let mut node = self.lock();
        let mut parent_node = parent.lock();
        node.parent = Some(Arc::downgrade(&parent.0));
        parent_node.children.push(self.clone());''')],
  'one thread hanging a follower under its leader while another sets the position of the leader',
  'set_parent locks the parent while it holds the joint, against the order from leader to follower.',
  STRESS + '''fn main() {
    let (a, b) = (rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1), rot("b", Vector3::z_axis(), 0.0, 0.0, 0.1));
    b.set_mimic_parent(&a, k::joint::Mimic::new(1.0, 0.0));
    let a1 = a.clone();
    assert!(progress(move || b.set_parent(&a1), move || { a.set_joint_position(0.1).unwrap(); }));
}
''')

S('c24-print-by-name', 'C24', [(CH, '''        if self.nodes.iter().any(|joint| joint == node) {''', '''        let name = node.joint().name.clone();
        if self.find(&name).is_some() {''')],
  'a chain which is a part of a robot, with a joint of the same name outside of it',
  'The printout of a part of a robot lists joints outside of it which share the name of one of its joints.',
  '''fn main() {
    let a = rot("a", Vector3::z_axis(), 0.0, 0.0, 0.1);
    let b = rot("finger", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let c = rot("finger", Vector3::y_axis(), 0.0, -0.3, 0.1);
    connect![a => b];
    connect![a => c];
    let part = Chain::from_end(&b);
    assert_eq!(part.to_string().lines().count(), 2);
}
''')

S('c24-last-found', 'C24', [(CH, '''        self.iter().find(|joint| joint.joint().name == joint_name)''', '''        // the joints are looked up in pairs, the movable ones are asked for most of the time
        self.movable_nodes
            .iter()
            .chain(self.nodes.iter())
            .find(|joint| joint.joint().name == joint_name)''')],
  'a fixed joint that comes before a movable joint of the same name',
  'Looking up a name gives a movable joint though a fixed joint of that name comes first.',
  '''fn main() {
    let a = fixed("mount", 0.0, 0.0, 0.1);
    let b = rot("b", Vector3::y_axis(), 0.0, 0.3, 0.1);
    let c = rot("mount", Vector3::y_axis(), 0.0, -0.3, 0.1);
    connect![a => b => c];
    let robot = Chain::from_root(a.clone());
    assert!(*robot.find("mount").unwrap() == a);
}
''')

S('c25-rotation-forgets', 'C25', [(ND, '''        self.origin.rotation = rotation;
        self
    }
    /// Create `Joint` instance''', '''        self.origin = Isometry3::from_parts(Translation3::identity(), rotation);
        self
    }
    /// Create `Joint` instance''')],
  'a builder that is given the translation first and the rotation afterwards',
  'Setting the rotation of a builder forgets the translation set before.',
  '''fn main() {
    let r = UnitQuaternion::from_euler_angles(0.1, 0.2, 0.3);
    let t = Translation3::new(1.0, 2.0, 3.0);
    let a = NodeBuilder::<f64>::new().rotation(r).translation(t).into_node();
    let b = NodeBuilder::<f64>::new().translation(t).rotation(r).into_node();
    assert_eq!(a.origin(), b.origin());
}
''')

S('c26-remembered-indices', 'C26', [(IK, '''    nullspace_function: Option<Box<dyn Fn(&[T]) -> Vec<T> + Send + Sync>>,
}''', '''    nullspace_function: Option<Box<dyn Fn(&[T]) -> Vec<T> + Send + Sync>>,
    /// Indices of the ignored joints of the last request
    ignored_cache: std::sync::Mutex<Option<(Vec<String>, usize, Vec<usize>)>>,
}'''), (IK, '''            nullspace_function: None,
        }''', '''            nullspace_function: None,
            ignored_cache: std::sync::Mutex::new(None),
        }'''), (IK, '''        let mut ignored_joint_indices = Vec::new();
        for joint_name in &constraints.ignored_joint_names {''', '''        let names = &constraints.ignored_joint_names;
        let remembered = match &*self.ignored_cache.lock().unwrap() {
            Some((n, dof, indices)) if n == names && *dof == arm.dof() => Some(indices.clone()),
            _ => None,
        };
        let new_names = if remembered.is_some() { &[][..] } else { &names[..] };
        let mut ignored_joint_indices: Vec<usize> = remembered.unwrap_or_default();
        for joint_name in new_names {'''), (IK, '''        if available_dof < required_dof {
            return Err(Error::PreconditionError {
                dof: available_dof,
                necessary_dof: required_dof,
            });
        }
        let mut last''', '''        *self.ignored_cache.lock().unwrap() =
            Some((names.clone(), arm.dof(), ignored_joint_indices.clone()));
        if available_dof < required_dof {
            return Err(Error::PreconditionError {
                dof: available_dof,
                necessary_dof: required_dof,
            });
        }
        let mut last''')],
  'one solver used with two arms of the same dof whose joints have the same names at different places, ignoring the same joint',
  'The solver remembers the indices of the ignored joints of the last request and uses them for another arm.',
  '''fn arm(first: &str, second: &str) -> SerialChain<f64> {
    let x = lin(first, Vector3::x_axis(), 0.0, 0.0, 0.1);
    let y = lin(second, Vector3::y_axis(), 0.0, 0.3, 0.1);
    connect![x => y];
    SerialChain::from_end(&y)
}
fn main() {
    let solver = JacobianIkSolver::new(0.001, 0.001, 0.5, 100);
    let mut c = Constraints { position_y: false, position_z: false, rotation_x: false, rotation_y: false, rotation_z: false, ..Default::default() };
    c.ignored_joint_names = vec!["b".to_string()];
    for (f, s) in vec![("a", "b"), ("b", "a")] {
        let arm = arm(f, s);
        // x, of the second arm: y
        if f == "b" {
            c.position_x = false;
            c.position_y = true;
        }
        arm.update_transforms();
        let mut t = arm.end_transform();
        t.translation.vector += Vector3::new(0.25, 0.25, 0.0);
        solver.solve_with_constraints(&arm, &t, &c).unwrap();
        assert_eq!(arm.find("b").unwrap().joint_position().unwrap(), 0.0);
    }
}
''')
