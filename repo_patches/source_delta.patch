From baee9b3e91c5ec07a06bf3f3ce081f0012f248c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 01/21] fix: SerialChain::try_new must not underflow on an
 empty chain

---
 src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 31f1d70..907eb62 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -547,7 +547,7 @@ where
     pub fn try_new(inner: Chain<T>) -> Option<Self> {
         {
             let num = inner.iter().count();
-            for node in inner.iter().take(num - 1) {
+            for node in inner.iter().take(num.saturating_sub(1)) {
                 if node.children().len() != 1 {
                     return None;
                 }
-- 
2.43.0


From 0f29fff4c96eb52906bdf7113ee28351acc4bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 02/21] fix: Chain::update_velocities deadlocked on movable
 joints and computed wrong velocities

---
 src/chain.rs | 50 ++++++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 907eb62..0b3f456 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -399,38 +399,28 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                 let parent_velocity = node
                     .parent_world_velocity()
                     .expect("velocity cache must exist");
-                let velocity = match node.joint().joint_type {
-                    JointType::Fixed => parent_velocity,
+                let joint = node.joint();
+                let transform = joint.world_transform().expect("cache must exist");
+                // velocity of the parent at the position of this joint
+                let mut velocity = Velocity::from_parts(
+                    parent_velocity.translation
+                        + parent_velocity.rotation.cross(
+                            &(transform.translation.vector - parent_transform.translation.vector),
+                        ),
+                    parent_velocity.rotation,
+                );
+                match joint.joint_type {
+                    JointType::Fixed => {}
                     JointType::Rotational { axis } => {
-                        let parent = node.parent().expect("parent must exist");
-                        let parent_vel = parent.joint().origin().translation.vector;
-                        Velocity::from_parts(
-                            parent_velocity.translation
-                                + parent_velocity.rotation.cross(
-                                    &(parent_transform.rotation.to_rotation_matrix() * parent_vel),
-                                ),
-                            parent_velocity.rotation
-                                + node
-                                    .world_transform()
-                                    .expect("cache must exist")
-                                    .rotation
-                                    .to_rotation_matrix()
-                                    * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        )
+                        velocity.rotation += transform.rotation
+                            * (axis.into_inner() * joint.joint_velocity().unwrap());
+                    }
+                    JointType::Linear { axis } => {
+                        velocity.translation += transform.rotation
+                            * (axis.into_inner() * joint.joint_velocity().unwrap());
                     }
-                    JointType::Linear { axis } => Velocity::from_parts(
-                        parent_velocity.translation
-                            + node
-                                .world_transform()
-                                .expect("cache must exist")
-                                .rotation
-                                .to_rotation_matrix()
-                                * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        // TODO: Is this true??
-                        parent_velocity.rotation,
-                    ),
-                };
-                node.joint().set_world_velocity(velocity);
+                }
+                joint.set_world_velocity(velocity);
                 velocity
             })
             .collect()
-- 
2.43.0


From 0ad60810f68430de2598c8e7f2ee68b554b5e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 03/21] fix: update_link_transforms placed link parts in the
 frame of the parent joint

---
 src/chain.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 0b3f456..379f32b 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -430,17 +430,17 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     pub fn update_link_transforms(&self) {
         self.update_transforms();
         self.iter().for_each(|node| {
-            let parent_transform = node.parent_world_transform().expect("cache must exist");
+            let joint_transform = node.world_transform().expect("cache must exist");
             let mut node_mut = node.lock();
             if let Some(ref mut link) = node_mut.link {
-                let inertial_trans = parent_transform * link.inertial.origin();
+                let inertial_trans = joint_transform * link.inertial.origin();
                 link.inertial.set_world_transform(inertial_trans);
                 for c in &mut link.collisions {
-                    let c_trans = parent_transform * c.origin();
+                    let c_trans = joint_transform * c.origin();
                     c.set_world_transform(c_trans);
                 }
                 for v in &mut link.visuals {
-                    let v_trans = parent_transform * v.origin();
+                    let v_trans = joint_transform * v.origin();
                     v.set_world_transform(v_trans);
                 }
             }
-- 
2.43.0


From 32ab739c7e34bc2902e13e4192c6d9f8400300f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 04/21] fix: jacobian mixed frames for a chain that does not
 start at the world origin

---
 src/funcs.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index bf03a58..7da6f01 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -1,6 +1,6 @@
 use super::chain::*;
 use super::joint::*;
-use na::{DMatrix, RealField, Vector3};
+use na::{DMatrix, Isometry3, RealField, Vector3};
 use nalgebra as na;
 use simba::scalar::SubsetOf;
 
@@ -11,12 +11,21 @@ where
 {
     let dof = arm.dof();
     let t_n = arm.end_transform();
-    arm.update_transforms();
     let p_n = t_n.translation;
+    // transforms of the movable joints in the same frame as `end_transform()`
+    let mut trans = Isometry3::identity();
+    let mut joint_transforms = Vec::with_capacity(dof);
+    for node in arm.iter() {
+        trans *= node.joint().local_transform();
+        if node.joint().is_movable() {
+            joint_transforms.push(trans);
+        }
+    }
     let jacobi_vec = arm
         .iter_joints()
-        .map(|joint| {
-            let t_i = joint.world_transform().unwrap();
+        .enumerate()
+        .map(|(i, joint)| {
+            let t_i = joint_transforms[i];
             match joint.joint_type {
                 JointType::Linear { axis } => {
                     let p_i = t_i.rotation * axis;
-- 
2.43.0


From b9206cbf1a010f8224c2e5a17e0e095f24b8415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 05/21] fix: Node::set_parent left the joint among the children
 of its old parent

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index b2b62c2..25d7321 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -105,6 +105,9 @@ where
 
     /// Set parent and child relations at same time
     pub fn set_parent(&self, parent: &Node<T>) {
+        if let Some(old_parent) = self.parent() {
+            self.remove_parent(&old_parent);
+        }
         self.lock().parent = Some(Arc::downgrade(&parent.0));
         parent.0.lock().unwrap().children.push(self.clone());
     }
-- 
2.43.0


From 42ec5044db2f8117bfda88d6dfef6432b66acedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 06/21] fix: Chain::clone reversed the children of branching
 joints and the joint order

---
 src/chain.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 379f32b..5501745 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -463,7 +463,7 @@ where
         }
         assert!(self.nodes[0].is_root());
         // Clone everything
-        let mut new_nodes = self
+        let new_nodes = self
             .nodes
             .iter()
             .map(|n| {
@@ -474,10 +474,12 @@ where
             .collect::<Vec<_>>();
         // Connect to new nodes
         for i in 0..new_nodes.len() {
-            if let Some(p) = self.nodes[i].parent() {
-                // get index of p
-                let parent_index = self.nodes.iter().position(|x| *x == p).unwrap();
-                new_nodes[i].set_parent(&new_nodes[parent_index]);
+            // keep the order of the children
+            for c in self.nodes[i].children().iter() {
+                // get index of c
+                if let Some(child_index) = self.nodes.iter().position(|x| *x == *c) {
+                    new_nodes[child_index].set_parent(&new_nodes[i]);
+                }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
                 let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
@@ -490,7 +492,7 @@ where
         //
         // first node must be root
         assert!(new_nodes[0].is_root());
-        Chain::from_root(new_nodes.remove(0))
+        Chain::from_nodes(new_nodes)
     }
 }
 
-- 
2.43.0


From e8043bcb8a6748defec5285a1e5c683dff03b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 07/21] fix: clamped position sets did not move mimic joints
 and moved followers on their own

---
 src/node.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 25d7321..712ff9c 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -244,11 +244,21 @@ where
     /// assert_eq!(l0.joint().joint_position(), Some(-1.0));
     /// ```
     pub fn set_joint_position_clamped(&self, position: T) {
-        self.0
-            .lock()
-            .unwrap()
-            .joint
-            .set_joint_position_clamped(position);
+        let mut node = self.lock();
+        if node.mimic_parent.is_some() {
+            return;
+        }
+        node.joint.set_joint_position_clamped(position);
+        if let Some(position) = node.joint.joint_position() {
+            for child in &node.mimic_children {
+                let mut child_node = child.lock();
+                if let Some(m) = child_node.mimic.clone() {
+                    child_node
+                        .joint
+                        .set_joint_position_clamped(m.mimic_position(position));
+                }
+            }
+        }
     }
 
     #[inline]
-- 
2.43.0


From f17c6d382532facb9975a9df1cd5ff264e005755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 08/21] fix: a joint re-linked to another leader kept following
 the old one

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 712ff9c..11b3824 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -330,6 +330,9 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
+        if let Some(old_parent) = self.mimic_parent() {
+            old_parent.lock().mimic_children.retain(|x| *x != *self);
+        }
         self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
         parent.lock().mimic_children.push(self.clone());
         self.lock().mimic = Some(mimic);
-- 
2.43.0


From 22483f7551340bd3219f568e92f869e3321c9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 09/21] fix: a failed IK did not restore positions out of the
 limits and hid the reason

---
 src/ik.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index d658dc5..0db1c9b 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -296,7 +296,6 @@ where
     ) -> Result<(), Error> {
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
-        let orig_positions = arm.joint_positions();
         let available_dof = arm.dof() - constraints.ignored_joint_names.len();
         if available_dof < required_dof {
             return Err(Error::PreconditionError {
@@ -337,7 +336,6 @@ where
             }
             last_target_distance = Some((len_diff, rot_diff));
         }
-        arm.set_joint_positions(&orig_positions)?;
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
             position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
@@ -463,7 +461,9 @@ where
         let orig_positions = arm.joint_positions();
         let re = self.solve_with_constraints_internal(arm, target_pose, constraints);
         if re.is_err() {
-            arm.set_joint_positions(&orig_positions)?;
+            // The original positions may be out of the limits. Clamped set is for the mimic joints.
+            arm.set_joint_positions_clamped(&orig_positions);
+            arm.set_joint_positions_unchecked(&orig_positions);
         };
         re
     }
-- 
2.43.0


From 7f817de94d4699f00bad71647779a98c26227f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 10/21] fix: IK with ignored joints of a non-redundant arm
 moved the wrong joints

---
 src/ik.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 0db1c9b..8f790cd 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -271,14 +271,11 @@ where
             }
         } else {
             // normal inverse matrix
-            self.add_positions_with_multiplier(
-                &orig_positions,
-                jacobi
-                    .lu()
-                    .solve(&err)
-                    .ok_or(Error::InverseMatrixError)?
-                    .as_slice(),
-            )
+            let mut d_q = jacobi.lu().solve(&err).ok_or(Error::InverseMatrixError)?;
+            for joint_index in ignored_joint_indices {
+                d_q = d_q.insert_row(*joint_index, T::zero());
+            }
+            self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
-- 
2.43.0


From 439d8b675672e3f0c6e85525d26cad5a6743f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 11/21] fix: IK panicked when an ignored joint was named twice
 or more names than joints were given

---
 src/ik.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 8f790cd..188995b 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -293,13 +293,6 @@ where
     ) -> Result<(), Error> {
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
-        let available_dof = arm.dof() - constraints.ignored_joint_names.len();
-        if available_dof < required_dof {
-            return Err(Error::PreconditionError {
-                dof: available_dof,
-                necessary_dof: required_dof,
-            });
-        }
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
@@ -315,6 +308,14 @@ where
             }
         }
         ignored_joint_indices.sort_unstable();
+        ignored_joint_indices.dedup();
+        let available_dof = arm.dof() - ignored_joint_indices.len();
+        if available_dof < required_dof {
+            return Err(Error::PreconditionError {
+                dof: available_dof,
+                necessary_dof: required_dof,
+            });
+        }
         let mut last_target_distance = None;
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
-- 
2.43.0


From 6234781a1a4f6fe01ada5428c2d4aba435ca4ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 12/21] fix: IK with zero tries panicked instead of reporting
 not converged

---
 src/ik.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 188995b..af78dc9 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -334,10 +334,20 @@ where
             }
             last_target_distance = Some((len_diff, rot_diff));
         }
+        let (len_diff, rot_diff) = last_target_distance.unwrap_or_else(|| {
+            target_diff_to_len_rot_diff(
+                &calc_pose_diff_with_constraints(
+                    target_pose,
+                    &arm.end_transform(),
+                    operational_space,
+                ),
+                operational_space,
+            )
+        });
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
-            position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
-            rotation_diff: na::try_convert(last_target_distance.unwrap().1).unwrap_or_default(),
+            position_diff: na::try_convert(len_diff).unwrap_or_default(),
+            rotation_diff: na::try_convert(rot_diff).unwrap_or_default(),
         })
     }
 }
-- 
2.43.0


From 9cf4c04564e08c9407034646ea52a1cf3cbb15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 13/21] fix: IK without any constrained coordinate panicked

---
 src/ik.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ik.rs b/src/ik.rs
index af78dc9..76279c4 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -220,6 +220,10 @@ where
         ignored_joint_indices: &[usize],
     ) -> Result<DVector<T>, Error> {
         let required_dof = operational_space.iter().filter(|x| **x).count();
+        if required_dof == 0 {
+            // No coordinate is constrained, every pose is the target.
+            return Ok(DVector::zeros(0));
+        }
         let orig_positions = arm.joint_positions();
         let available_dof = arm.dof() - ignored_joint_indices.len();
 
-- 
2.43.0


From 48b7c2849015f5ad4bfefb4face8429037893045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 14/21] fix: joint_to_link_map gave ROOT_JOINT_NAME the link of
 another joint

The map is keyed by joint names, so looking up link names in it found
nothing and the last link of the list became the link of the root joint.
---
 src/urdf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index ff3a32d..5d8cb59 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -375,7 +375,8 @@ pub fn joint_to_link_map(urdf_robot: &urdf_rs::Robot) -> HashMap<String, String>
         map.insert(j.name.to_owned(), j.child.link.to_owned());
     }
     for l in &urdf_robot.links {
-        if map.get(&l.name).is_none() {
+        // the root link is the one that is not the child of any joint
+        if !urdf_robot.joints.iter().any(|j| j.child.link == l.name) {
             map.insert(ROOT_JOINT_NAME.to_owned(), l.name.to_owned());
         }
     }
-- 
2.43.0


From dbaa986eaae2d4eb666f22137b0e010b1ae1b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 15/21] fix: a continuous URDF joint with a limit element got
 limits

---
 src/urdf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index 5d8cb59..a790bdf 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -230,7 +230,10 @@ where
     T: RealField + SubsetOf<f64>,
 {
     fn from(joint: &urdf_rs::Joint) -> Joint<T> {
-        let limit = if (joint.limit.upper - joint.limit.lower) == 0.0 {
+        // a continuous joint has no limits, whatever its limit element says
+        let limit = if joint.joint_type == urdf_rs::JointType::Continuous
+            || (joint.limit.upper - joint.limit.lower) == 0.0
+        {
             None
         } else {
             Some(Range::new(
-- 
2.43.0


From b58070e46eee8f6f5054db8ee32e93c29f5fd81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 16/21] fix: printing a chain deadlocked with setting its
 positions from another thread

---
 src/chain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 5501745..d7959c1 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -98,7 +98,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         if self.nodes.iter().any(|joint| joint == node) {
             writeln!(f, "{}{}", "    ".repeat(level), node)?;
         }
-        for c in node.children().iter() {
+        // do not keep the node locked while its children get locked
+        let children = node.children().clone();
+        for c in &children {
             self.fmt_with_indent_level(c, level + 1, f)?
         }
         Ok(())
-- 
2.43.0


From e442a3f8201d1ff9bef8c96b2fea467d4b7b1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 17/21] fix: setting a leader's position deadlocked while
 another thread was linking a follower

---
 src/node.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 11b3824..f00835b 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -217,8 +217,9 @@ where
                     .joint
                     .set_joint_position(m.mimic_position(position))?,
                 None => {
-                    let from = self.joint().name.to_owned();
-                    let to = child.joint().name.to_owned();
+                    // both nodes are locked here
+                    let from = node.joint.name.to_owned();
+                    let to = child_node.joint.name.to_owned();
                     return Err(Error::MimicError { from, to });
                 }
             };
@@ -333,9 +334,12 @@ where
         if let Some(old_parent) = self.mimic_parent() {
             old_parent.lock().mimic_children.retain(|x| *x != *self);
         }
-        self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
+        {
+            let mut node = self.lock();
+            node.mimic_parent = Some(Arc::downgrade(&parent.0));
+            node.mimic = Some(mimic);
+        }
         parent.lock().mimic_children.push(self.clone());
-        self.lock().mimic = Some(mimic);
     }
 
     pub fn set_link(&self, link: Option<Link<T>>) {
-- 
2.43.0


From 3bdca17b9eb0e64c4eca3f4f53016ca9b4bdc2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 18/21] fix: updating a part of a robot panicked when the
 joints above it were never updated

---
 src/node.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index f00835b..95d9cb8 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -274,7 +274,13 @@ where
     pub(crate) fn parent_world_transform(&self) -> Option<Isometry3<T>> {
         //match self.0.borrow().parent {
         match self.parent() {
-            Some(ref parent) => parent.world_transform(),
+            Some(ref parent) => match parent.world_transform() {
+                Some(trans) => Some(trans),
+                // the parent is out of the updated chain and has no cache
+                None => parent
+                    .parent_world_transform()
+                    .map(|trans| trans * parent.joint().local_transform()),
+            },
             None => Some(Isometry3::identity()),
         }
     }
-- 
2.43.0


From 1f3fbea44dcdd7e4ac2e7883088a1242157611a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 19/21] fix: updating the velocities of a part of a robot
 panicked when the joints above it had none

---
 src/chain.rs | 25 +++----------------------
 src/node.rs  | 44 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index d7959c1..f78551d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -401,28 +401,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                 let parent_velocity = node
                     .parent_world_velocity()
                     .expect("velocity cache must exist");
-                let joint = node.joint();
-                let transform = joint.world_transform().expect("cache must exist");
-                // velocity of the parent at the position of this joint
-                let mut velocity = Velocity::from_parts(
-                    parent_velocity.translation
-                        + parent_velocity.rotation.cross(
-                            &(transform.translation.vector - parent_transform.translation.vector),
-                        ),
-                    parent_velocity.rotation,
-                );
-                match joint.joint_type {
-                    JointType::Fixed => {}
-                    JointType::Rotational { axis } => {
-                        velocity.rotation += transform.rotation
-                            * (axis.into_inner() * joint.joint_velocity().unwrap());
-                    }
-                    JointType::Linear { axis } => {
-                        velocity.translation += transform.rotation
-                            * (axis.into_inner() * joint.joint_velocity().unwrap());
-                    }
-                }
-                joint.set_world_velocity(velocity);
+                let transform = node.world_transform().expect("cache must exist");
+                let velocity = node.calc_velocity(&transform, &parent_transform, &parent_velocity);
+                node.joint().set_world_velocity(velocity);
                 velocity
             })
             .collect()
diff --git a/src/node.rs b/src/node.rs
index 95d9cb8..9855c8d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -287,11 +287,53 @@ where
 
     pub(crate) fn parent_world_velocity(&self) -> Option<Velocity<T>> {
         match self.parent() {
-            Some(ref parent) => parent.world_velocity(),
+            Some(ref parent) => match parent.world_velocity() {
+                Some(velocity) => Some(velocity),
+                // the parent is out of the updated chain and has no cache
+                None => {
+                    let above = parent.parent_world_transform()?;
+                    let transform = match parent.world_transform() {
+                        Some(trans) => trans,
+                        None => above * parent.joint().local_transform(),
+                    };
+                    let velocity = parent.parent_world_velocity()?;
+                    Some(parent.calc_velocity(&transform, &above, &velocity))
+                }
+            },
             None => Some(Velocity::zero()),
         }
     }
 
+    /// World velocity of this joint from its world transform and the ones of its parent
+    pub(crate) fn calc_velocity(
+        &self,
+        transform: &Isometry3<T>,
+        parent_transform: &Isometry3<T>,
+        parent_velocity: &Velocity<T>,
+    ) -> Velocity<T> {
+        let joint = self.joint();
+        // velocity of the parent at the position of this joint
+        let mut velocity = Velocity::from_parts(
+            parent_velocity.translation
+                + parent_velocity
+                    .rotation
+                    .cross(&(transform.translation.vector - parent_transform.translation.vector)),
+            parent_velocity.rotation,
+        );
+        match joint.joint_type {
+            JointType::Fixed => {}
+            JointType::Rotational { axis } => {
+                velocity.rotation +=
+                    transform.rotation * (axis.into_inner() * joint.joint_velocity().unwrap());
+            }
+            JointType::Linear { axis } => {
+                velocity.translation +=
+                    transform.rotation * (axis.into_inner() * joint.joint_velocity().unwrap());
+            }
+        }
+        velocity
+    }
+
     /// Get the calculated world transform.
     /// Call `Chain::update_transforms()` before using this method.
     ///
-- 
2.43.0


From e58547bd111212abe85652dbc0311d9d53c99a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 20/21] fix: printing an empty chain panicked

---
 src/chain.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index f78551d..794e697 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -109,7 +109,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
 impl<T: RealField + SubsetOf<f64>> Display for Chain<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        self.fmt_with_indent_level(self.iter().next().unwrap(), 0, f)
+        match self.iter().next() {
+            Some(node) => self.fmt_with_indent_level(node, 0, f),
+            None => Ok(()),
+        }
     }
 }
 
-- 
2.43.0


From c870a42c28e03fc203ef2515c5d06034f4b25e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 21/21] fix: cloning a chain whose follower has its leader
 outside panicked

---
 src/chain.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 794e697..35c7f72 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -468,11 +468,13 @@ where
                 }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
-                let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
-                new_nodes[i].set_mimic_parent(
-                    &new_nodes[parent_index],
-                    self.nodes[i].lock().mimic.clone().unwrap(),
-                );
+                // a leader outside of the chain is not cloned
+                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
+                    new_nodes[i].set_mimic_parent(
+                        &new_nodes[parent_index],
+                        self.nodes[i].lock().mimic.clone().unwrap(),
+                    );
+                }
             }
         }
         //
-- 
2.43.0

