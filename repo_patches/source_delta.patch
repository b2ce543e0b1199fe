From 87198af9bfd8d0b4cb19cffa4cdc6e1256e8b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 01/30] fix: register a mimic relation atomically and report
 its errors without relocking

A joint was listed among its driver's followers before its mimic parameters
were stored, so a driver commanded by another thread in between took the
MimicError path, which locked nodes already locked by itself and hung.
---
 src/node.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index b2b62c2..d1e8b32 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -214,8 +214,8 @@ where
                     .joint
                     .set_joint_position(m.mimic_position(position))?,
                 None => {
-                    let from = self.joint().name.to_owned();
-                    let to = child.joint().name.to_owned();
+                    let from = node.joint.name.to_owned();
+                    let to = child_node.joint.name.to_owned();
                     return Err(Error::MimicError { from, to });
                 }
             };
@@ -317,9 +317,12 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
-        self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
+        {
+            let mut node = self.lock();
+            node.mimic_parent = Some(Arc::downgrade(&parent.0));
+            node.mimic = Some(mimic);
+        }
         parent.lock().mimic_children.push(self.clone());
-        self.lock().mimic = Some(mimic);
     }
 
     pub fn set_link(&self, link: Option<Link<T>>) {
-- 
2.43.0


From 842bddf6d82cbce8d9a8127b4c1408a2e9f245be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 02/30] fix: a joint given a new mimic driver no longer follows
 the old one

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index d1e8b32..aab89cb 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -317,6 +317,9 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
+        if let Some(old_parent) = self.mimic_parent() {
+            old_parent.lock().mimic_children.retain(|x| *x != *self);
+        }
         {
             let mut node = self.lock();
             node.mimic_parent = Some(Arc::downgrade(&parent.0));
-- 
2.43.0


From 5b9d1019bc606f838202375e7c56f29a4f33fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 03/30] fix: mimic joints follow through other mimic joints,
 and a rejected command moves none of them

A joint mimicking a joint which is itself a mimic never moved. A position
which a mimic joint could not take was refused after the driver, and
possibly some of its followers, had already been moved.
---
 src/joint/joint.rs | 13 +++++++----
 src/node.rs        | 56 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index ba6d487..8f92ed5 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -102,6 +102,15 @@ where
     /// ```
     ///
     pub fn set_joint_position(&mut self, position: T) -> Result<(), Error> {
+        self.check_joint_position(position)?;
+        self.position = position;
+        // TODO: have to reset descendent `world_transform_cache`
+        self.world_transform_cache.replace(None);
+        self.world_velocity_cache.replace(None);
+        Ok(())
+    }
+    /// Check if the position can be set, without setting it
+    pub(crate) fn check_joint_position(&self, position: T) -> Result<(), Error> {
         if !self.is_movable() {
             return Err(Error::SetToFixedError {
                 joint_name: self.name.to_string(),
@@ -117,10 +126,6 @@ where
                 });
             }
         }
-        self.position = position;
-        // TODO: have to reset descendent `world_transform_cache`
-        self.world_transform_cache.replace(None);
-        self.world_velocity_cache.replace(None);
         Ok(())
     }
     /// Set the clamped position of the joint
diff --git a/src/node.rs b/src/node.rs
index aab89cb..bb7ebdb 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -43,6 +43,43 @@ where
     pub link: Option<Link<T>>,
 }
 
+impl<T> NodeImpl<T>
+where
+    T: RealField + SubsetOf<f64>,
+{
+    /// Position of the mimic child when this joint is at `position`
+    fn mimic_position(&self, child: &NodeImpl<T>, position: T) -> Result<T, Error> {
+        match child.mimic {
+            Some(ref m) => Ok(m.mimic_position(position)),
+            None => Err(Error::MimicError {
+                from: self.joint.name.to_owned(),
+                to: child.joint.name.to_owned(),
+            }),
+        }
+    }
+
+    /// Check if this joint and all the joints which mimic it can be moved
+    fn check_joint_position(&self, position: T) -> Result<(), Error> {
+        self.joint.check_joint_position(position)?;
+        for child in &self.mimic_children {
+            let child = child.lock();
+            child.check_joint_position(self.mimic_position(&child, position)?)?;
+        }
+        Ok(())
+    }
+
+    /// Move this joint and all the joints which mimic it
+    fn set_joint_position(&mut self, position: T) -> Result<(), Error> {
+        self.joint.set_joint_position(position)?;
+        for child in &self.mimic_children {
+            let mut child = child.lock();
+            let child_position = self.mimic_position(&child, position)?;
+            child.set_joint_position(child_position)?;
+        }
+        Ok(())
+    }
+}
+
 /// Parts of `Chain`
 ///
 /// It contains joint, joint (transform), and parent/children.
@@ -205,22 +242,9 @@ where
         if node.mimic_parent.is_some() {
             return Ok(());
         }
-        node.joint.set_joint_position(position)?;
-        for child in &node.mimic_children {
-            let mut child_node = child.lock();
-            let mimic = child_node.mimic.clone();
-            match mimic {
-                Some(m) => child_node
-                    .joint
-                    .set_joint_position(m.mimic_position(position))?,
-                None => {
-                    let from = node.joint.name.to_owned();
-                    let to = child_node.joint.name.to_owned();
-                    return Err(Error::MimicError { from, to });
-                }
-            };
-        }
-        Ok(())
+        // do not move anything if one of the joints cannot be moved
+        node.check_joint_position(position)?;
+        node.set_joint_position(position)
     }
 
     /// Set the clamped position (angle) of the joint
-- 
2.43.0


From 5aef13d121bda0f7772ab73bad1e7fd43260946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 04/30] fix: clamped commands move mimic joints with their
 driver

set_joint_position_clamped, and so set_joint_positions_clamped and the IK
solver, left mimic joints where they were and moved mimic joints on their
own, in contrast to set_joint_position.
---
 src/node.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index bb7ebdb..2e1382e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -78,6 +78,19 @@ where
         }
         Ok(())
     }
+
+    /// Move this joint and all the joints which mimic it inside of their limits
+    fn set_joint_position_clamped(&mut self, position: T) {
+        self.joint.set_joint_position_clamped(position);
+        if let Some(position) = self.joint.joint_position() {
+            for child in &self.mimic_children {
+                let mut child = child.lock();
+                if let Ok(child_position) = self.mimic_position(&child, position) {
+                    child.set_joint_position_clamped(child_position);
+                }
+            }
+        }
+    }
 }
 
 /// Parts of `Chain`
@@ -250,6 +263,8 @@ where
     /// Set the clamped position (angle) of the joint
     ///
     /// It refers to the joint limit and clamps the argument. This function does nothing if this is fixed joint.
+    /// Same as `set_joint_position`, it moves the joints which mimic this joint, and does nothing if
+    /// this joint mimics other joint.
     ///
     /// # Examples
     ///
@@ -265,11 +280,11 @@ where
     /// assert_eq!(l0.joint().joint_position(), Some(-1.0));
     /// ```
     pub fn set_joint_position_clamped(&self, position: T) {
-        self.0
-            .lock()
-            .unwrap()
-            .joint
-            .set_joint_position_clamped(position);
+        let mut node = self.lock();
+        if node.mimic_parent.is_some() {
+            return;
+        }
+        node.set_joint_position_clamped(position);
     }
 
     #[inline]
-- 
2.43.0


From 80b8f48df81bb408d06310f3986be627f9582719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 05/30] fix: keep parent and children consistent when a node is
 attached again or detached from another node

set_parent left the node in the children of its previous parent, and
remove_parent with a node which is not the parent cleared the parent but
left the node in the real parent's children.
---
 src/node.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 2e1382e..50609ae 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -155,13 +155,18 @@ where
 
     /// Set parent and child relations at same time
     pub fn set_parent(&self, parent: &Node<T>) {
+        if let Some(old_parent) = self.parent() {
+            old_parent.lock().children.retain(|x| *x != *self);
+        }
         self.lock().parent = Some(Arc::downgrade(&parent.0));
         parent.0.lock().unwrap().children.push(self.clone());
     }
 
     /// Remove parent and child relations at same time
     pub fn remove_parent(&self, parent: &Node<T>) {
-        self.lock().parent = None;
+        if self.parent().as_ref() == Some(parent) {
+            self.lock().parent = None;
+        }
         parent.0.lock().unwrap().children.retain(|x| *x != *self);
     }
 
-- 
2.43.0


From a16f3bd2a9e0c383af623fb9399c64d8fb7d9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 06/30] fix: a node whose parent has been dropped is a root

parent() is None for such a node but is_root() was false, and cloning a
chain starting at it failed.
---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 50609ae..6611b49 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -182,7 +182,7 @@ where
     /// assert!(!l1.is_root());
     /// ```
     pub fn is_root(&self) -> bool {
-        self.lock().parent.is_none()
+        self.parent().is_none()
     }
 
     /// # Examples
-- 
2.43.0


From 1a0257b16a2b84def0c08838418821abc641d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 07/30] fix: cloning a chain keeps the order of joints and
 siblings

The nodes were re-connected in iteration order, which is the reverse of the
order of the children, and iterated again, so that the joints of a branching
robot and of its clone were in different orders.
---
 src/chain.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 31f1d70..08eece6 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -473,7 +473,7 @@ where
         }
         assert!(self.nodes[0].is_root());
         // Clone everything
-        let mut new_nodes = self
+        let new_nodes = self
             .nodes
             .iter()
             .map(|n| {
@@ -484,10 +484,11 @@ where
             .collect::<Vec<_>>();
         // Connect to new nodes
         for i in 0..new_nodes.len() {
-            if let Some(p) = self.nodes[i].parent() {
-                // get index of p
-                let parent_index = self.nodes.iter().position(|x| *x == p).unwrap();
-                new_nodes[i].set_parent(&new_nodes[parent_index]);
+            for c in self.nodes[i].children().iter() {
+                // get index of c
+                if let Some(child_index) = self.nodes.iter().position(|x| x == c) {
+                    new_nodes[child_index].set_parent(&new_nodes[i]);
+                }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
                 let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
@@ -500,7 +501,7 @@ where
         //
         // first node must be root
         assert!(new_nodes[0].is_root());
-        Chain::from_root(new_nodes.remove(0))
+        Chain::from_nodes(new_nodes)
     }
 }
 
-- 
2.43.0


From 180012cac197139381e7c62b43e5c72e2e937cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 08/30] fix: cloning a chain does not panic if a joint mimics a
 joint outside of it

---
 src/chain.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 08eece6..c070d7a 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -491,11 +491,13 @@ where
                 }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
-                let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
-                new_nodes[i].set_mimic_parent(
-                    &new_nodes[parent_index],
-                    self.nodes[i].lock().mimic.clone().unwrap(),
-                );
+                // a joint which mimics a joint outside of the chain becomes independent
+                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
+                    new_nodes[i].set_mimic_parent(
+                        &new_nodes[parent_index],
+                        self.nodes[i].lock().mimic.clone().unwrap(),
+                    );
+                }
             }
         }
         //
-- 
2.43.0


From 1550d290bcb2261ac2c3e3ed70cebad85be8b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 09/30] fix: transforms of a chain do not depend on cached
 transforms of its parents

A chain that does not start at the root panicked or used outdated poses when
its ancestors had not been updated just before.
---
 src/chain.rs | 25 +++++++++++++++++--------
 src/node.rs  |  7 +++++--
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index c070d7a..7996f8d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -378,14 +378,23 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_transform() of the joints
     pub fn update_transforms(&self) -> Vec<Isometry3<T>> {
-        self.iter()
-            .map(|node| {
-                let parent_transform = node.parent_world_transform().expect("cache must exist");
-                let trans = parent_transform * node.joint().local_transform();
-                node.joint().set_world_transform(trans);
-                trans
-            })
-            .collect()
+        let mut transforms = Vec::with_capacity(self.nodes.len());
+        for node in self.iter() {
+            let parent_transform = match node.parent().and_then(|parent| {
+                let updated_nodes = &self.nodes[..transforms.len()];
+                updated_nodes.iter().rposition(|x| *x == parent)
+            }) {
+                Some(parent_index) => transforms[parent_index],
+                None => node
+                    .parent_world_transform()
+                    .expect("chain of the parent is not empty"),
+            };
+            let joint = node.joint();
+            let trans = parent_transform * joint.local_transform();
+            joint.set_world_transform(trans);
+            transforms.push(trans);
+        }
+        transforms
     }
 
     /// Update world_velocity() of the joints
diff --git a/src/node.rs b/src/node.rs
index 6611b49..d7cb1a0 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -21,6 +21,7 @@ use std::fmt::{self, Display};
 use std::ops::Deref;
 use std::sync::{Arc, Mutex, MutexGuard, Weak};
 
+use super::chain::*;
 use super::errors::*;
 use super::iterator::*;
 use super::joint::*;
@@ -301,10 +302,12 @@ where
             .set_joint_position_unchecked(position);
     }
 
+    /// Calculate the world transform of the parent from its ancestors
+    ///
+    /// It does not rely on the cache, which may be missing or outdated.
     pub(crate) fn parent_world_transform(&self) -> Option<Isometry3<T>> {
-        //match self.0.borrow().parent {
         match self.parent() {
-            Some(ref parent) => parent.world_transform(),
+            Some(ref parent) => Chain::from_end(parent).update_transforms().pop(),
             None => Some(Isometry3::identity()),
         }
     }
-- 
2.43.0


From dcbd5b5ad6461a4a7c3fe6face8be4cde08ce48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 10/30] fix: update_velocities returns, with the velocities of
 the joints

It locked a node twice as soon as a joint was movable, panicked for a movable
root, and ignored the lever arm and the rotation of the parents.
---
 src/chain.rs | 81 ++++++++++++++++++++++++----------------------------
 src/node.rs  |  3 +-
 2 files changed, 39 insertions(+), 45 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 7996f8d..c0d4560 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -399,50 +399,43 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_velocity() of the joints
     pub fn update_velocities(&self) -> Vec<Velocity<T>> {
-        self.update_transforms();
-        self.iter()
-            .map(|node| {
-                let parent_transform = node
-                    .parent_world_transform()
-                    .expect("transform cache must exist");
-                let parent_velocity = node
-                    .parent_world_velocity()
-                    .expect("velocity cache must exist");
-                let velocity = match node.joint().joint_type {
-                    JointType::Fixed => parent_velocity,
-                    JointType::Rotational { axis } => {
-                        let parent = node.parent().expect("parent must exist");
-                        let parent_vel = parent.joint().origin().translation.vector;
-                        Velocity::from_parts(
-                            parent_velocity.translation
-                                + parent_velocity.rotation.cross(
-                                    &(parent_transform.rotation.to_rotation_matrix() * parent_vel),
-                                ),
-                            parent_velocity.rotation
-                                + node
-                                    .world_transform()
-                                    .expect("cache must exist")
-                                    .rotation
-                                    .to_rotation_matrix()
-                                    * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        )
-                    }
-                    JointType::Linear { axis } => Velocity::from_parts(
-                        parent_velocity.translation
-                            + node
-                                .world_transform()
-                                .expect("cache must exist")
-                                .rotation
-                                .to_rotation_matrix()
-                                * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        // TODO: Is this true??
-                        parent_velocity.rotation,
-                    ),
-                };
-                node.joint().set_world_velocity(velocity);
-                velocity
-            })
-            .collect()
+        let transforms = self.update_transforms();
+        let mut velocities: Vec<Velocity<T>> = Vec::with_capacity(self.nodes.len());
+        for (node, transform) in self.iter().zip(transforms.iter()) {
+            let (parent_transform, parent_velocity) = match node.parent().and_then(|parent| {
+                let updated_nodes = &self.nodes[..velocities.len()];
+                updated_nodes.iter().rposition(|x| *x == parent)
+            }) {
+                Some(parent_index) => (transforms[parent_index], velocities[parent_index]),
+                None => (
+                    node.parent_world_transform()
+                        .expect("chain of the parent is not empty"),
+                    node.parent_world_velocity()
+                        .expect("chain of the parent is not empty"),
+                ),
+            };
+            let joint = node.joint();
+            // the origin of this node is carried by the parent
+            let from_parent = transform.translation.vector - parent_transform.translation.vector;
+            let mut velocity = Velocity::from_parts(
+                parent_velocity.translation + parent_velocity.rotation.cross(&from_parent),
+                parent_velocity.rotation,
+            );
+            let joint_velocity = joint.joint_velocity().unwrap_or_else(T::zero);
+            match joint.joint_type {
+                JointType::Fixed => {}
+                JointType::Rotational { axis } => {
+                    velocity.rotation += transform.rotation * (axis.into_inner() * joint_velocity);
+                }
+                JointType::Linear { axis } => {
+                    velocity.translation +=
+                        transform.rotation * (axis.into_inner() * joint_velocity);
+                }
+            }
+            joint.set_world_velocity(velocity);
+            velocities.push(velocity);
+        }
+        velocities
     }
 
     /// Update transforms of the links
diff --git a/src/node.rs b/src/node.rs
index d7cb1a0..fbcde74 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -312,9 +312,10 @@ where
         }
     }
 
+    /// Calculate the world velocity of the parent from its ancestors
     pub(crate) fn parent_world_velocity(&self) -> Option<Velocity<T>> {
         match self.parent() {
-            Some(ref parent) => parent.world_velocity(),
+            Some(ref parent) => Chain::from_end(parent).update_velocities().pop(),
             None => Some(Velocity::zero()),
         }
     }
-- 
2.43.0


From 61da08521d5a2e30bc7d0218d9094116f407c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 11/30] fix: links move with the joint they are attached to

update_link_transforms placed them relative to the parent of the joint.
---
 src/chain.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index c0d4560..7d1994a 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -440,19 +440,19 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update transforms of the links
     pub fn update_link_transforms(&self) {
-        self.update_transforms();
+        let mut transforms = self.update_transforms().into_iter();
         self.iter().for_each(|node| {
-            let parent_transform = node.parent_world_transform().expect("cache must exist");
+            let transform = transforms.next().expect("one transform for each node");
             let mut node_mut = node.lock();
             if let Some(ref mut link) = node_mut.link {
-                let inertial_trans = parent_transform * link.inertial.origin();
+                let inertial_trans = transform * link.inertial.origin();
                 link.inertial.set_world_transform(inertial_trans);
                 for c in &mut link.collisions {
-                    let c_trans = parent_transform * c.origin();
+                    let c_trans = transform * c.origin();
                     c.set_world_transform(c_trans);
                 }
                 for v in &mut link.visuals {
-                    let v_trans = parent_transform * v.origin();
+                    let v_trans = transform * v.origin();
                     v.set_world_transform(v_trans);
                 }
             }
-- 
2.43.0


From 02e5c1802fd71b1ccf22ae0a01f3b82e02229e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 12/30] fix: jacobian and end transform of an arm use the same
 frame

For an arm which does not start at the root, the position of the end was
relative to the base of the arm, but the joints to the world.
---
 src/funcs.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index bf03a58..b778074 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -1,6 +1,6 @@
 use super::chain::*;
 use super::joint::*;
-use na::{DMatrix, RealField, Vector3};
+use na::{DMatrix, Isometry3, RealField, Vector3};
 use nalgebra as na;
 use simba::scalar::SubsetOf;
 
@@ -11,12 +11,22 @@ where
 {
     let dof = arm.dof();
     let t_n = arm.end_transform();
-    arm.update_transforms();
+    // transforms of the movable joints in the same frame as `t_n`
+    let mut transform = Isometry3::identity();
+    let mut transforms = Vec::with_capacity(dof);
+    for node in arm.iter() {
+        let joint = node.joint();
+        transform *= joint.local_transform();
+        if joint.is_movable() {
+            transforms.push(transform);
+        }
+    }
     let p_n = t_n.translation;
     let jacobi_vec = arm
         .iter_joints()
-        .map(|joint| {
-            let t_i = joint.world_transform().unwrap();
+        .enumerate()
+        .map(|(i, joint)| {
+            let t_i = transforms[i];
             match joint.joint_type {
                 JointType::Linear { axis } => {
                     let p_i = t_i.rotation * axis;
-- 
2.43.0


From 0709b74cb76ea5e0203ac6a79775e03a8ae715e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 13/30] fix: a joint does not keep its world velocity when its
 origin is changed

---
 src/joint/joint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index 8f92ed5..724c25e 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -186,6 +186,7 @@ where
     pub fn set_origin(&mut self, origin: Isometry3<T>) {
         self.origin = origin;
         self.world_transform_cache.replace(None);
+        self.world_velocity_cache.replace(None);
     }
 
     pub fn set_joint_velocity(&mut self, velocity: T) -> Result<(), Error> {
-- 
2.43.0


From ea07838bae4d359a10d3cbfcab9326a7ade8809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 14/30] fix: converting an empty chain to a serial chain does
 not panic

---
 src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 7d1994a..2e511e1 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -552,7 +552,7 @@ where
     pub fn try_new(inner: Chain<T>) -> Option<Self> {
         {
             let num = inner.iter().count();
-            for node in inner.iter().take(num - 1) {
+            for node in inner.iter().take(num.saturating_sub(1)) {
                 if node.children().len() != 1 {
                     return None;
                 }
-- 
2.43.0


From 8c9748e5ccdd8dd3be00b4feb8472e892040b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 15/30] fix: printing an empty chain does not panic

---
 src/chain.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 2e511e1..e7eef77 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -107,7 +107,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
 impl<T: RealField + SubsetOf<f64>> Display for Chain<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        self.fmt_with_indent_level(self.iter().next().unwrap(), 0, f)
+        match self.iter().next() {
+            Some(node) => self.fmt_with_indent_level(node, 0, f),
+            None => Ok(()),
+        }
     }
 }
 
-- 
2.43.0


From e5ede889182e3eba187d1c936f868e4cb69b1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 16/30] fix: a link removed while iterating links does not
 cause panic

---
 src/chain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index e7eef77..608645a 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -281,8 +281,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     /// Iterate for links
     pub fn iter_links(&self) -> impl Iterator<Item = LinkRefGuard<'_, T>> {
         self.nodes.iter().filter_map(|node| {
-            if node.link().is_some() {
-                Some(LinkRefGuard { guard: node.lock() })
+            let guard = node.lock();
+            if guard.link.is_some() {
+                Some(LinkRefGuard { guard })
             } else {
                 None
             }
-- 
2.43.0


From 3140a56347f263e6af6566fb00d22b4d20bb042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 17/30] fix: printing a chain does not keep nodes locked

It caused a dead lock with a thread which moves a joint mimicked by one of its
ancestors.
---
 src/chain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 608645a..785ac8a 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -98,7 +98,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         if self.nodes.iter().any(|joint| joint == node) {
             writeln!(f, "{}{}", "    ".repeat(level), node)?;
         }
-        for c in node.children().iter() {
+        // do not keep the lock of the parent while locking the children
+        let children = node.children().clone();
+        for c in children.iter() {
             self.fmt_with_indent_level(c, level + 1, f)?
         }
         Ok(())
-- 
2.43.0


From 5121164c9efbc8dd0c74811d35fc9df66106d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 18/30] fix: joint_to_link_map maps the root joint to the root
 link

It was the last link, as links were looked up in the names of the joints.
---
 src/urdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index ff3a32d..cada6f3 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -375,7 +375,7 @@ pub fn joint_to_link_map(urdf_robot: &urdf_rs::Robot) -> HashMap<String, String>
         map.insert(j.name.to_owned(), j.child.link.to_owned());
     }
     for l in &urdf_robot.links {
-        if map.get(&l.name).is_none() {
+        if urdf_robot.joints.iter().all(|j| j.child.link != l.name) {
             map.insert(ROOT_JOINT_NAME.to_owned(), l.name.to_owned());
         }
     }
-- 
2.43.0


From 8a202a9a95fda5846a2c9e2499756a957cbe4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 19/30] fix: center of mass does not miss a link whose joint is
 moved meanwhile

---
 src/funcs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index b778074..6fadd17 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -72,9 +72,9 @@ where
     let mut total_mass = T::zero();
     let mut com = Vector3::zeros();
 
-    chain.update_transforms();
+    let mut transforms = chain.update_transforms().into_iter();
     chain.iter().for_each(|node| {
-        if let Some(trans) = node.world_transform() {
+        if let Some(trans) = transforms.next() {
             if let Some(ref link) = *node.link() {
                 let inertia_trans = trans * link.inertial.origin().translation;
                 com += inertia_trans.translation.vector * link.inertial.mass;
-- 
2.43.0


From 5a717b4bd36da4c0b9e0d746c9bd67c023793aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 20/30] fix: ignored joints are not moved by ik if the rest of
 the joints is just enough

The rows of the ignored joints were inserted only for redundant arms, so the
steps of the following joints were given to wrong joints.
---
 src/ik.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index d658dc5..9e61af0 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -271,14 +271,11 @@ where
             }
         } else {
             // normal inverse matrix
-            self.add_positions_with_multiplier(
-                &orig_positions,
-                jacobi
-                    .lu()
-                    .solve(&err)
-                    .ok_or(Error::InverseMatrixError)?
-                    .as_slice(),
-            )
+            let mut d_q = jacobi.lu().solve(&err).ok_or(Error::InverseMatrixError)?;
+            for joint_index in ignored_joint_indices {
+                d_q = d_q.insert_row(*joint_index, T::zero());
+            }
+            self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
-- 
2.43.0


From 37cbfe575de2aa575a861f8a24a6573b9dddc3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 21/30] fix: ik does not panic for too many or repeated ignored
 joints

---
 src/ik.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 9e61af0..4b51e5b 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -294,13 +294,6 @@ where
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
         let orig_positions = arm.joint_positions();
-        let available_dof = arm.dof() - constraints.ignored_joint_names.len();
-        if available_dof < required_dof {
-            return Err(Error::PreconditionError {
-                dof: available_dof,
-                necessary_dof: required_dof,
-            });
-        }
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
@@ -316,6 +309,15 @@ where
             }
         }
         ignored_joint_indices.sort_unstable();
+        // the same joint may be given twice
+        ignored_joint_indices.dedup();
+        let available_dof = arm.dof() - ignored_joint_indices.len();
+        if available_dof < required_dof {
+            return Err(Error::PreconditionError {
+                dof: available_dof,
+                necessary_dof: required_dof,
+            });
+        }
         let mut last_target_distance = None;
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
-- 
2.43.0


From 5ae503e8e2a7aebcf6eea77641942a298faf16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 22/30] fix: ik does not panic if the number of tries is zero

---
 src/ik.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 4b51e5b..748b836 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -318,7 +318,10 @@ where
                 necessary_dof: required_dof,
             });
         }
-        let mut last_target_distance = None;
+        let initial_diff =
+            calc_pose_diff_with_constraints(target_pose, &arm.end_transform(), operational_space);
+        let mut last_target_distance =
+            target_diff_to_len_rot_diff(&initial_diff, operational_space);
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
                 arm,
@@ -334,13 +337,13 @@ where
                 arm.set_joint_positions_clamped(&non_checked_positions);
                 return Ok(());
             }
-            last_target_distance = Some((len_diff, rot_diff));
+            last_target_distance = (len_diff, rot_diff);
         }
         arm.set_joint_positions(&orig_positions)?;
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
-            position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
-            rotation_diff: na::try_convert(last_target_distance.unwrap().1).unwrap_or_default(),
+            position_diff: na::try_convert(last_target_distance.0).unwrap_or_default(),
+            rotation_diff: na::try_convert(last_target_distance.1).unwrap_or_default(),
         })
     }
 }
-- 
2.43.0


From 01b1f926a69a763ab760a128c505d6aaf8823534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 23/30] fix: failed ik restores the positions exactly

A start outside of the limits, or not in step with a mimic relation, could not
be restored by set_joint_positions.
---
 src/ik.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 748b836..cb06115 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -25,6 +25,7 @@ use simba::scalar::SubsetOf;
 use super::chain::*;
 use super::errors::*;
 use super::funcs::*;
+use super::node::*;
 
 /// From 'Humanoid Robot (Kajita)' P.64
 fn calc_pose_diff<T>(a: &Isometry3<T>, b: &Isometry3<T>) -> Vector6<T>
@@ -122,6 +123,28 @@ fn define_operational_space(constraints: &Constraints) -> [bool; 6] {
     arr
 }
 
+/// Positions of the joints of the arm and of the joints which mimic them
+fn positions_with_mimics<T>(arm: &SerialChain<T>) -> Vec<(Node<T>, T)>
+where
+    T: RealField + SubsetOf<f64>,
+{
+    let mut nodes = arm.iter().cloned().collect::<Vec<_>>();
+    let mut index = 0;
+    while index < nodes.len() {
+        let mimic_children = nodes[index].lock().mimic_children.clone();
+        for child in mimic_children {
+            if !nodes.contains(&child) {
+                nodes.push(child);
+            }
+        }
+        index += 1;
+    }
+    nodes
+        .into_iter()
+        .filter_map(|node| node.joint_position().map(|position| (node, position)))
+        .collect()
+}
+
 /// IK solver
 pub trait InverseKinematicsSolver<T>
 where
@@ -293,7 +316,6 @@ where
     ) -> Result<(), Error> {
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
-        let orig_positions = arm.joint_positions();
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
@@ -339,7 +361,6 @@ where
             }
             last_target_distance = (len_diff, rot_diff);
         }
-        arm.set_joint_positions(&orig_positions)?;
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
             position_diff: na::try_convert(last_target_distance.0).unwrap_or_default(),
@@ -462,10 +483,12 @@ where
         target_pose: &Isometry3<T>,
         constraints: &Constraints,
     ) -> Result<(), Error> {
-        let orig_positions = arm.joint_positions();
+        let orig_positions = positions_with_mimics(arm);
         let re = self.solve_with_constraints_internal(arm, target_pose, constraints);
         if re.is_err() {
-            arm.set_joint_positions(&orig_positions)?;
+            for (node, position) in &orig_positions {
+                node.set_joint_position_unchecked(*position);
+            }
         };
         re
     }
-- 
2.43.0


From 743599364538547244689f805427c4e5a89cf9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 24/30] fix: ik does not panic if no coordinate is constrained

---
 src/ik.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ik.rs b/src/ik.rs
index cb06115..7ac67c5 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -340,6 +340,11 @@ where
                 necessary_dof: required_dof,
             });
         }
+        if required_dof == 0 {
+            // nothing is constrained: it is already reached
+            arm.set_joint_positions_clamped(&arm.joint_positions());
+            return Ok(());
+        }
         let initial_diff =
             calc_pose_diff_with_constraints(target_pose, &arm.end_transform(), operational_space);
         let mut last_target_distance =
-- 
2.43.0


From 70a064cd861ed36836836e940622eed324daad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 25/30] fix: ik returns for targets which are not finite

The singular value decomposition of a matrix with NaN never ends.
---
 src/ik.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 7ac67c5..1b0e59d 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -263,10 +263,16 @@ where
 
         let positions_vec = if available_dof > required_dof {
             const EPS: f64 = 0.0001;
+            const MAX_SVD_ITERATIONS: usize = 10000;
+            // it never converges if the arm or the target is not finite
+            let svd = jacobi
+                .clone()
+                .try_svd(true, true, T::default_epsilon(), MAX_SVD_ITERATIONS)
+                .ok_or(Error::InverseMatrixError)?;
             // redundant: pseudo inverse
             match self.nullspace_function {
                 Some(ref f) => {
-                    let jacobi_inv = jacobi.clone().pseudo_inverse(na::convert(EPS)).unwrap();
+                    let jacobi_inv = svd.pseudo_inverse(na::convert(EPS)).unwrap();
 
                     let mut subtask = na::DVector::from_vec(f(&orig_positions));
                     for (i, joint_index) in ignored_joint_indices.iter().enumerate() {
@@ -282,10 +288,7 @@ where
                     self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
                 }
                 None => {
-                    let mut d_q = jacobi
-                        .svd(true, true)
-                        .solve(&err, na::convert(EPS))
-                        .unwrap();
+                    let mut d_q = svd.solve(&err, na::convert(EPS)).unwrap();
                     for joint_index in ignored_joint_indices {
                         d_q = d_q.insert_row(*joint_index, T::zero());
                     }
-- 
2.43.0


From 5384be3a427b4440a356edd8355d7ffe5005e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 26/30] fix: ik does not report success for a target rotation
 which is not a number

---
 src/ik.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ik.rs b/src/ik.rs
index 1b0e59d..a06e229 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -33,7 +33,13 @@ where
     T: RealField,
 {
     let p_diff = a.translation.vector - b.translation.vector;
-    let w_diff = b.rotation.rotation_to(&a.rotation).scaled_axis();
+    let r_diff = b.rotation.rotation_to(&a.rotation);
+    let w_diff = if r_diff.coords.iter().all(|x| x.is_finite()) {
+        r_diff.scaled_axis()
+    } else {
+        // `scaled_axis()` would be zero, as if the rotations were the same
+        Vector3::from_element(r_diff.coords.norm())
+    };
     Vector6::new(
         p_diff[0], p_diff[1], p_diff[2], w_diff[0], w_diff[1], w_diff[2],
     )
-- 
2.43.0


From 72ccb78167563af4518a6b1790a354389d452924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 27/30] fix: ik uses the right pseudo inverse if the jacobian
 is rank deficient

---
 src/ik.rs | 70 +++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 60 insertions(+), 10 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index a06e229..a2e777d 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -16,7 +16,7 @@
 
 use std::fmt;
 
-use na::{DVector, Isometry3, RealField, Vector3, Vector6};
+use na::{DMatrix, DVector, Isometry3, RealField, Vector3, Vector6};
 use nalgebra as na;
 #[cfg(feature = "serde-serialize")]
 use serde::{Deserialize, Serialize};
@@ -66,6 +66,62 @@ where
     diff
 }
 
+/// Pseudo inverse, where singular values which are not larger than `eps` are taken as zero
+///
+/// `SVD` of nalgebra is wrong for some of the matrices whose rank is not full. This is the
+/// one-sided Jacobi method: rotate the rows until they are orthogonal to each other.
+fn pseudo_inverse<T>(matrix: &DMatrix<T>, eps: T) -> Option<DMatrix<T>>
+where
+    T: RealField + SubsetOf<f64>,
+{
+    const MAX_SWEEPS: usize = 30;
+    if !matrix.iter().all(|x| x.is_finite()) {
+        return None;
+    }
+    let num = matrix.nrows();
+    let mut rows = matrix.transpose();
+    let mut rotation = DMatrix::<T>::identity(num, num);
+    let tolerance = T::default_epsilon() * na::convert(10.0);
+    let mut is_orthogonal = false;
+    for _ in 0..MAX_SWEEPS {
+        if is_orthogonal {
+            break;
+        }
+        is_orthogonal = true;
+        for p in 0..num {
+            for q in p + 1..num {
+                let pp = rows.column(p).norm_squared();
+                let qq = rows.column(q).norm_squared();
+                let pq = rows.column(p).dot(&rows.column(q));
+                if pq.abs() <= tolerance * (pp * qq).sqrt() {
+                    continue;
+                }
+                is_orthogonal = false;
+                let zeta = (qq - pp) / (pq + pq);
+                let tan = zeta.signum() / (zeta.abs() + (T::one() + zeta * zeta).sqrt());
+                let cos = T::one() / (T::one() + tan * tan).sqrt();
+                let sin = cos * tan;
+                for m in [&mut rows, &mut rotation].iter_mut() {
+                    for i in 0..m.nrows() {
+                        let (x, y) = (m[(i, p)], m[(i, q)]);
+                        m[(i, p)] = cos * x - sin * y;
+                        m[(i, q)] = sin * x + cos * y;
+                    }
+                }
+            }
+        }
+    }
+    let mut inverse = DMatrix::zeros(matrix.ncols(), num);
+    for i in 0..num {
+        let singular_value = rows.column(i).norm();
+        if singular_value > eps {
+            let row = rows.column(i) / (singular_value * singular_value);
+            inverse += row * rotation.column(i).transpose();
+        }
+    }
+    Some(inverse)
+}
+
 /// A bundle of flags determining which coordinates are constrained for a target
 #[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde-serialize", derive(Serialize, Deserialize))]
@@ -269,17 +325,11 @@ where
 
         let positions_vec = if available_dof > required_dof {
             const EPS: f64 = 0.0001;
-            const MAX_SVD_ITERATIONS: usize = 10000;
-            // it never converges if the arm or the target is not finite
-            let svd = jacobi
-                .clone()
-                .try_svd(true, true, T::default_epsilon(), MAX_SVD_ITERATIONS)
-                .ok_or(Error::InverseMatrixError)?;
             // redundant: pseudo inverse
+            let jacobi_inv =
+                pseudo_inverse(&jacobi, na::convert(EPS)).ok_or(Error::InverseMatrixError)?;
             match self.nullspace_function {
                 Some(ref f) => {
-                    let jacobi_inv = svd.pseudo_inverse(na::convert(EPS)).unwrap();
-
                     let mut subtask = na::DVector::from_vec(f(&orig_positions));
                     for (i, joint_index) in ignored_joint_indices.iter().enumerate() {
                         subtask = subtask.remove_row(*joint_index - i);
@@ -294,7 +344,7 @@ where
                     self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
                 }
                 None => {
-                    let mut d_q = svd.solve(&err, na::convert(EPS)).unwrap();
+                    let mut d_q = jacobi_inv * err;
                     for joint_index in ignored_joint_indices {
                         d_q = d_q.insert_row(*joint_index, T::zero());
                     }
-- 
2.43.0


From 864e150c7294ca7d0757c8244e7007ded74f0fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 28/30] fix: do not keep a velocity from before the joint was
 moved by another thread

---
 src/chain.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 785ac8a..a83d0a8 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -405,9 +405,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_velocity() of the joints
     pub fn update_velocities(&self) -> Vec<Velocity<T>> {
-        let transforms = self.update_transforms();
+        let mut transforms = self.update_transforms();
         let mut velocities: Vec<Velocity<T>> = Vec::with_capacity(self.nodes.len());
-        for (node, transform) in self.iter().zip(transforms.iter()) {
+        for (i, node) in self.iter().enumerate() {
             let (parent_transform, parent_velocity) = match node.parent().and_then(|parent| {
                 let updated_nodes = &self.nodes[..velocities.len()];
                 updated_nodes.iter().rposition(|x| *x == parent)
@@ -421,6 +421,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                 ),
             };
             let joint = node.joint();
+            // it may have been moved by other thread after `update_transforms`
+            let transform = parent_transform * joint.local_transform();
+            transforms[i] = transform;
             // the origin of this node is carried by the parent
             let from_parent = transform.translation.vector - parent_transform.translation.vector;
             let mut velocity = Velocity::from_parts(
-- 
2.43.0


From 05fd7bd1c25e60f08946c67b5ce9280816f67a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 29/30] fix: a clone keeps the order of the followers of a
 joint

---
 src/chain.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index a83d0a8..daee49c 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -501,13 +501,13 @@ where
                     new_nodes[child_index].set_parent(&new_nodes[i]);
                 }
             }
-            if let Some(m) = self.nodes[i].mimic_parent() {
-                // a joint which mimics a joint outside of the chain becomes independent
-                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
-                    new_nodes[i].set_mimic_parent(
-                        &new_nodes[parent_index],
-                        self.nodes[i].lock().mimic.clone().unwrap(),
-                    );
+            // followers in their order; a joint which mimics a joint outside of the chain
+            // becomes independent
+            let followers = self.nodes[i].lock().mimic_children.clone();
+            for f in followers {
+                if let Some(follower_index) = self.nodes.iter().position(|x| *x == f) {
+                    let mimic = f.lock().mimic.clone();
+                    new_nodes[follower_index].set_mimic_parent(&new_nodes[i], mimic.unwrap());
                 }
             }
         }
-- 
2.43.0


From 6ba3db3226e2238c955affad403d865a05802545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:28 +0000
Subject: [PATCH 30/30] fix: connect! evaluates each node once

In connect![a => b() => c], b() was evaluated twice (once as a child, once
as the parent of what follows), so that a call which makes a node made two,
and c was not attached to the one below a.
---
 src/node.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index fbcde74..9aa742f 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -645,11 +645,16 @@ where
 /// ```
 #[macro_export]
 macro_rules! connect {
-    ($x:expr => $y:expr) => {
-        $y.set_parent(&$x);
-    };
-    ($x:expr => $y:expr => $($rest:tt)+) => {
-        $y.set_parent(&$x);
-        $crate::connect!($y => $($rest)*);
-    };
+    ($x:expr => $y:expr) => {{
+        let parent = $x.clone();
+        let child = $y.clone();
+        child.set_parent(&parent);
+    }};
+    ($x:expr => $y:expr => $($rest:tt)+) => {{
+        // evaluate each node once, in the order in which they are written
+        let parent = $x.clone();
+        let child = $y.clone();
+        child.set_parent(&parent);
+        $crate::connect!(child => $($rest)*);
+    }};
 }
-- 
2.43.0

