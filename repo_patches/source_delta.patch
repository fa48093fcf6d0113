From 61d7b845010d276dc0788096eb7ef919469ab9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 01/16] fix: a plain face turn on the 4x4-7x7 cubes must only
 turn the outer layer

AxisMove was widened to the maximum depth of the cube, so R did Rw (or 3Rw).
---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index 45ca0bf..aae577e 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -135,7 +135,7 @@ macro_rules! impl_movable_wide_move_inductively {
     ($cube:ty, $max_width:literal, 0) => {
         impl crate::generic::Movable<crate::cube_n::AxisMove> for $cube {
             fn apply(&mut self, m: &crate::cube_n::AxisMove) {
-                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen($max_width).unwrap());
+                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen(0).unwrap());
             }
         }
     };
-- 
2.43.0


From 6ad0e1f16c33d378d4287a1ef32d69ba650914d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 02/16] fix: center edges beside a turned face only move if the
 turn is deep enough

The depth of the piece was compared to the maximum depth of the move type
instead of the depth of the move.
---
 barbarosa/src/cube_n/pieces/center/edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/pieces/center/edge.rs b/barbarosa/src/cube_n/pieces/center/edge.rs
index ea2e315..25985c9 100644
--- a/barbarosa/src/cube_n/pieces/center/edge.rs
+++ b/barbarosa/src/cube_n/pieces/center/edge.rs
@@ -133,7 +133,7 @@ impl DepthPiece for CenterEdge {
             return true;
         }
 
-        if m.face() == &self.side_face() && normal_depth <= M {
+        if m.face() == &self.side_face() && normal_depth <= m.depth() {
             return true;
         }
 
-- 
2.43.0


From 384f145a402d82dcef3e33f2d90b1a3461be368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 03/16] fix: a center corner is only solved on its own face,
 not on any face of the same direction

---
 barbarosa/src/cube_n/pieces/center/corner.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index 836a345..a209af4 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -30,7 +30,8 @@ impl generic::Piece for CenterCorner {
     }
 
     fn is_solved(&self, original_pos: &Self::Position) -> bool {
-        self.position[self.axis] == original_pos.position[original_pos.axis]
+        self.axis == original_pos.axis
+            && self.position[self.axis] == original_pos.position[original_pos.axis]
     }
 }
 
@@ -95,7 +96,8 @@ impl CenterCorner {
 
     /// Determines whether the [`CenterCorner`] is solved.
     pub fn is_solved(&self, original: &CenterCorner) -> bool {
-        self.position[self.axis] == original.position[original.axis]
+        self.axis == original.axis
+            && self.position[self.axis] == original.position[original.axis]
     }
 }
 
-- 
2.43.0


From 2624e89feee78c79f3c55bc71ddcab5c782cfcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 04/16] fix: the 5x5 cube has wings

The 24 wings next to the 12 edges were not part of the state, so positions
that differ in them compared equal (and as solved).
---
 barbarosa/src/cube_n/cube5/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index e765cd0..6c2696e 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -8,6 +8,7 @@ use super::{
         center::{corner::CenterCornerSet, edge::CenterEdgeSet},
         corner::CornerSet,
         edge::EdgeSet,
+        wing::WingSet,
     },
     CubeN, WideAxisMove,
 };
@@ -19,6 +20,7 @@ use super::{
 pub struct Cube5 {
     corners: CornerSet,
     edges: EdgeSet,
+    wings: WingSet<1>,
     corner_centers: CenterCornerSet<1>,
     corner_edges: CenterEdgeSet<1>,
 }
@@ -31,6 +33,7 @@ impl generic::Cube for Cube5 {
     const SOLVED: Self = Self {
         corners: CornerSet::SOLVED,
         edges: EdgeSet::SOLVED,
+        wings: WingSet::SOLVED,
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
@@ -40,6 +43,7 @@ impl generic::Movable<WideAxisMove<1>> for Cube5 {
     fn apply(&mut self, m: &WideAxisMove<1>) {
         self.corners.apply(&m.axis_move);
         self.edges.apply(&m.axis_move);
+        self.wings.apply(m);
         self.corner_centers.apply(m);
         self.corner_edges.apply(m);
     }
-- 
2.43.0


From 3d8e7964b11754abcc529d6b43da5f659a9b73c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 05/16] fix: a 5x5 whose identical centers are permuted is
 solved

As on the other big cubes, centers of the same color are interchangeable.
---
 barbarosa/src/cube_n/cube5/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index 6c2696e..cedcbc2 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -37,6 +37,17 @@ impl generic::Cube for Cube5 {
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
+
+    fn is_solved(&self) -> bool
+    where
+        Self: 'static,
+    {
+        self.corners.is_solved()
+            && self.edges.is_solved()
+            && self.wings.is_solved()
+            && self.corner_centers.is_solved()
+            && self.corner_edges.is_solved()
+    }
 }
 
 impl generic::Movable<WideAxisMove<1>> for Cube5 {
-- 
2.43.0


From 03d1ce6051d4b7d347795f4563d968ad002dd0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 06/16] fix: the rotations of an orientation lead to that
 orientation

The second rotation was taken around the wrong axis when R stays in place
(z2 instead of x2), and in the wrong direction for some faces.
---
 barbarosa/src/cube_n/orientable/orientation.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index a0d39e0..6a2725a 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -47,13 +47,10 @@ fn connecting_rotation_with_face(from: &Face, to: &Face, face: &Face) -> Option<
         return None;
     }
 
-    let amount = match from.axis.get_handedness(&to.axis) {
-        Ok(Direction::Positive) => Amount::Single,
-        Ok(Direction::Negative) => Amount::Inverse,
-        Err(ParallelAxesError::SameAxis(_)) => Amount::Double,
-    };
-
-    Some(AxisRotation::new(face.axis, amount))
+    [Amount::Single, Amount::Double, Amount::Inverse]
+        .into_iter()
+        .map(|amount| AxisRotation::new(face.axis, amount))
+        .find(|rotation| &from.clone().rotated(rotation) == to)
 }
 
 impl Orientation {
@@ -76,12 +73,7 @@ impl Orientation {
             .map(|rot| Face::U.rotated(rot))
             .unwrap_or(Face::U);
 
-        let r_face = r_rot.as_ref().map(|rot| Face::R.rotated(rot));
-
-        let u_rot = match r_face {
-            Some(r_face) => connecting_rotation_with_face(&new_u, &self.u_face(), &r_face),
-            None => connecting_rotation(&new_u, &self.u_face()),
-        };
+        let u_rot = connecting_rotation_with_face(&new_u, &self.u_face(), &self.r_face);
 
         use std::iter::{empty, once};
         use Either::*;
-- 
2.43.0


From 55f7c140901f5bafc27df22af3aeeb0fad585c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 07/16] fix: moves on an oriented cube turn the face that is
 currently there

The orientation was applied to the face of the move instead of undone, so
after an x rotation U turned the original B face instead of the F face.
---
 barbarosa/src/cube_n/orientable/mod.rs         |  6 +-----
 barbarosa/src/cube_n/orientable/orientation.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 70fe38a..06e6801 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -55,11 +55,7 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     fn apply(&mut self, m: &M) {
-        let mut m = m.clone();
-
-        for rotation in self.orientation.rotations() {
-            m.rotate(&rotation);
-        }
+        let m = self.orientation.to_base_frame(m.clone());
 
         self.base_cube.apply(&m);
     }
diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index 6a2725a..c847831 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -85,6 +85,18 @@ impl Orientation {
         }
     }
 
+    /// Undoes the orientation: turns something as seen from the current orientation into how it is seen
+    /// from the default one.
+    pub(crate) fn to_base_frame<T: Rotatable>(&self, mut seen: T) -> T {
+        let rotations: Vec<_> = self.rotations().collect();
+
+        for rotation in rotations.iter().rev() {
+            seen.rotate(&rotation.inverse());
+        }
+
+        seen
+    }
+
     pub(super) const fn const_default() -> Self {
         Self {
             r_face: Face::R,
-- 
2.43.0


From a9dc8fa340c934ee598627a2520fb5f38a92d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 08/16] fix: wide moves on an oriented cube turn the layers
 they name

---
 barbarosa/src/cube_n/moves/extended.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index c8e1758..bdbd91d 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -51,10 +51,8 @@ impl Move for ExtendedAxisMove {
     }
 }
 
-fn opposite<const N: u32>(m: &WideAxisMove<N>, depth: u32) -> WideAxisMove<N> {
-    AxisMove::new(m.face().opposite(), m.amount())
-        .widen(depth)
-        .unwrap()
+fn opposite(m: &AxisMove) -> AxisMove {
+    AxisMove::new(m.face.opposite(), m.amount)
 }
 
 // This has to be a macro because the type system can't enforce that a `CubeN::N` is movable by `WideAxisMove<{N / 2 - 1}>`
@@ -72,22 +70,25 @@ macro_rules! impl_movable_extended {
                     ExtendedAxisMove::Regular(m) => self.apply(m),
                     ExtendedAxisMove::Rotation(rot) => self.orientation.rotate(rot),
                     ExtendedAxisMove::Wide(m) => {
-                        let Some(depth_oppossite) = <$cube>::N.checked_sub(m.depth()) else {
-                            // If depth is more than N, then it is equivalent to a rotation
+                        if m.depth() >= <$cube>::N - 1 {
+                            // If every layer turns, then it is equivalent to a rotation
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             return;
-                        };
+                        }
+
+                        let base_move = self.orientation.to_base_frame(m.axis_move.clone());
 
-                        let m = if m.depth() < depth_oppossite {
-                            m.clone()
+                        let (base_move, depth) = if m.depth() < <$cube>::N / 2 {
+                            (base_move, m.depth())
                         } else {
+                            // Turning the rest of the layers the other way and rotating the cube is the same
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
-                            opposite(&m, depth_oppossite)
+                            (opposite(&base_move), <$cube>::N - m.depth() - 2)
                         };
 
-                        let m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
+                        let base_move = base_move.widen::<{ <$cube>::N / 2 - 1 }>(depth)
                             .expect("the depth from both sides can't be larger than N/2");
-                        self.base_cube.apply(&m);
+                        self.base_cube.apply(&base_move);
                     },
                     ExtendedAxisMove::Slice { rot, wide } => {
                         for dir in [Direction::Positive, Direction::Negative] {
-- 
2.43.0


From 555baf73b212077640889998e71d49a86714b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 09/16] fix: a slice move leaves both outer layers in place, as
 seen from the current orientation

---
 barbarosa/src/cube_n/moves/extended.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index bdbd91d..a0f61ce 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -97,7 +97,10 @@ macro_rules! impl_movable_extended {
                                 true => <$cube>::N / 2 - 1,
                             };
 
-                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative, depth).unwrap();
+                            // Undoes the rotation on the outer layers, so the amount depends on the direction of the face
+                            let face = self.orientation.to_base_frame(Face::new(rot.axis, dir));
+                            let amount = rot.amount * Direction::Negative * dir;
+                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(face, amount, depth).unwrap();
 
                             self.base_cube.apply(&m);
                         }
-- 
2.43.0


From 0af19c357b537ba8b0fa0ecab277e98f07d0cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 10/16] fix: normalizing an alg looks again at both moves of
 the axis it goes back to

---
 barbarosa/src/cube_n/moves/non_redundant.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/non_redundant.rs b/barbarosa/src/cube_n/moves/non_redundant.rs
index 70036ff..dad7287 100644
--- a/barbarosa/src/cube_n/moves/non_redundant.rs
+++ b/barbarosa/src/cube_n/moves/non_redundant.rs
@@ -322,11 +322,17 @@ impl Alg<AxisMove> {
                     absorve(&mut nr_move, mov);
                 }
 
-                // If we collapsed something, we need to go back one move to see if we can join it with something else
+                // If we collapsed something, we need to go back to the last moves (every one on that axis) to see
+                // if we can join them with something else
                 AbsorveResult::Collapsed => {
                     offload(&mut nr_move, &mut moves);
-                    if let Some(mov) = moves.pop() {
-                        self.moves.push(mov);
+                    if let Some(last) = moves.last() {
+                        let axis = last.face.axis;
+                        let start = moves
+                            .iter()
+                            .rposition(|mov| mov.face.axis != axis)
+                            .map_or(0, |i| i + 1);
+                        self.moves.extend(moves.drain(start..));
                     }
                 }
 
-- 
2.43.0


From 792abcafc2c8d8f7f504e253a879c66f5817e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 11/16] fix: a random 2x2 also has random corner orientations

---
 barbarosa/src/cube_n/cube2/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/barbarosa/src/cube_n/cube2/mod.rs b/barbarosa/src/cube_n/cube2/mod.rs
index 168a20a..fde294b 100644
--- a/barbarosa/src/cube_n/cube2/mod.rs
+++ b/barbarosa/src/cube_n/cube2/mod.rs
@@ -41,6 +41,11 @@ impl Distribution<Cube2> for Standard {
 
         cube.corners.shuffle(rng);
 
+        // Twist pieces
+        cube.corners
+            .iter_mut_unchecked()
+            .for_each(|corner| corner.orientation_axis = rng.gen());
+
         fix_corner_multiplicity(&mut cube.corners);
 
         cube
-- 
2.43.0


From e41068b690621dfd93c5b9097995fb4b2c83c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 12/16] fix: looking up a cube with duplicated pieces in the
 MUS cache must not read out of bounds

---
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index f9ae997..4cdf027 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -37,15 +37,12 @@ impl Cache {
     pub fn get(&self, cube: &Cube3) -> u8 {
         let indices = cube.indices();
 
-        let corner_heuristic = unsafe { self.corners.get_unchecked(indices.corners) };
-        let edge_heuristic = *indices
-            .edges
-            .map(|i| unsafe { self.edges.get_unchecked(i) })
-            .iter()
-            .max()
-            .unwrap();
+        let corner_heuristic = self.corners[indices.corners];
+        let [edges_a, edges_b] = indices.edges;
 
-        *corner_heuristic.max(edge_heuristic)
+        corner_heuristic
+            .max(self.edges[edges_a])
+            .max(self.edges[edges_b])
     }
 
     /// Initializes the cache.
-- 
2.43.0


From b9532eb3f6f59e9d83bf81018cc92bc6e42d3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 13/16] fix: loading a cache file of the wrong size is an
 error, not a panic

---
 .../src/cube_n/cube3/mus/cache/disk_storage.rs      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
index 7f21d6a..2a136b9 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
@@ -56,7 +56,7 @@ pub fn load_partial<T: DiskCacheable>() -> io::Result<Vec<u8>> {
 
     let bytes = fs::read(T::PATH)?;
 
-    assert_correct_cache_size::<T>(bytes.len());
+    check_cache_size::<T>(bytes.len())?;
     print_with_timestamp::<T>("Cache has been loaded");
 
     Ok(bytes)
@@ -66,7 +66,7 @@ pub fn load_partial<T: DiskCacheable>() -> io::Result<Vec<u8>> {
 // cache was built, since the reference cube changes the indices.
 pub fn write_partial<T: DiskCacheable>(bytes: &[u8]) -> io::Result<()> {
     print_with_timestamp::<T>("Writing cache to disk");
-    assert_correct_cache_size::<T>(bytes.len());
+    check_cache_size::<T>(bytes.len())?;
 
     match fs::write(T::PATH, bytes) {
         Ok(data) => data,
@@ -99,8 +99,13 @@ pub fn print_with_timestamp<T: DiskCacheable>(msg: &str) {
     );
 }
 
-fn assert_correct_cache_size<T: DiskCacheable>(given: usize) {
+fn check_cache_size<T: DiskCacheable>(given: usize) -> io::Result<()> {
     if given != T::TOTAL_SET_SIZE {
-        panic!("Cache file seems to be corrupted. It should be {} bytes long, but it's {} bytes long (help: might be wise to delete `mus-cache/`)", T::TOTAL_SET_SIZE, given);
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("Cache file seems to be corrupted. It should be {} bytes long, but it's {} bytes long (help: might be wise to delete `mus-cache/`)", T::TOTAL_SET_SIZE, given),
+        ));
     }
+
+    Ok(())
 }
-- 
2.43.0


From 88dd3876a4ab431ac28581792a755143bbfe368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 14/16] fix: the playground ends when the input ends instead of
 panicking

---
 barbarosa/src/main.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/main.rs b/barbarosa/src/main.rs
index 6fd8745..dc144ab 100644
--- a/barbarosa/src/main.rs
+++ b/barbarosa/src/main.rs
@@ -33,10 +33,15 @@ fn playground_3x3() {
 
     let mut cube = Orientable::new(Cube3::SOLVED);
 
-    fn playground_loop(cube: &mut Orientable<Cube3>) -> Result<(), Box<dyn std::error::Error>> {
+    // Returns whether there might be more input
+    fn playground_loop(cube: &mut Orientable<Cube3>) -> Result<bool, Box<dyn std::error::Error>> {
         print!("> ");
         std::io::stdout().flush()?;
-        let input = std::io::stdin().lock().lines().next().unwrap()?;
+
+        let Some(input) = std::io::stdin().lock().lines().next() else {
+            return Ok(false);
+        };
+        let input = input?;
 
         let mov = Alg::<ExtendedAxisMove>::parse(&input)?;
 
@@ -44,14 +49,16 @@ fn playground_3x3() {
 
         println!("{}", cube.base_cube);
 
-        Ok(())
+        Ok(true)
     }
 
     println!("{}", cube.base_cube);
 
     loop {
-        if let Err(err) = playground_loop(&mut cube) {
-            eprintln!("Error: {}", err);
+        match playground_loop(&mut cube) {
+            Ok(true) => (),
+            Ok(false) => break,
+            Err(err) => eprintln!("Error: {}", err),
         }
     }
 }
-- 
2.43.0


From 00446468019fc037da4ac7541ac781d99f4ca1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 15/16] fix: map coordinates to the closest cell for every size
 of unfolded square

---
 barbarosa/src/cube_n/visualization/unfolded/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/barbarosa/src/cube_n/visualization/unfolded/mod.rs b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
index 6b26f34..9e80159 100644
--- a/barbarosa/src/cube_n/visualization/unfolded/mod.rs
+++ b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
@@ -94,15 +94,14 @@ impl<const N: usize> Square<N> {
     }
 
     fn transform_coord(x: f32) -> Option<usize> {
-        let x = x + 1.0;
-        let x = x * N as f32 / 3.0;
-        let x = x.round();
-
-        if x < 0.0 || x as usize >= N {
+        if x.abs() >= 1.0 + 1.5 / N as f32 {
             return None;
         }
 
-        Some(x as usize)
+        // The centers of the outermost cells are at -1 and 1. Negative values saturate to 0.
+        let x = (x + 1.0) / 2.0 * (N - 1) as f32;
+
+        Some((x.round() as usize).min(N - 1))
     }
 
     /// Writes the square into a formatter with the specified colorscheme and padding at the front
-- 
2.43.0


From 76910315bcda65a97bd055dd9ecad065a6bc8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 16/16] Give verification access to the storage of MUS caches
 (cfg barbarosa_verif)

---
 .../src/cube_n/cube3/mus/cache/disk_storage.rs    | 15 +++++++++++++++
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs       |  3 +++
 barbarosa/src/cube_n/cube3/mus/mod.rs             |  1 +
 3 files changed, 19 insertions(+)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
index 2a136b9..b26b591 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
@@ -109,3 +109,18 @@ fn check_cache_size<T: DiskCacheable>(given: usize) -> io::Result<()> {
 
     Ok(())
 }
+
+/// Access to storage and generation for verification
+#[cfg(barbarosa_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use super::DiskCacheable;
+
+    use super::*;
+
+    pub fn load_or_build_partial<
+        T: DiskCacheable + Deindexable + Movable<AxisMove> + Clone,
+    >() -> io::Result<Vec<u8>> {
+        super::load_or_build_partial::<T>()
+    }
+}
diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index 4cdf027..5b24898 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -7,6 +7,9 @@ mod disk_storage;
 mod generation;
 mod test;
 
+#[cfg(barbarosa_verif)]
+pub use disk_storage::verif;
+
 use std::{io, sync::OnceLock};
 
 use crate::cube3::Cube3;
diff --git a/barbarosa/src/cube_n/cube3/mus/mod.rs b/barbarosa/src/cube_n/cube3/mus/mod.rs
index bc17031..bd6fc04 100644
--- a/barbarosa/src/cube_n/cube3/mus/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/mod.rs
@@ -25,6 +25,7 @@
 
 use super::{Corner, Edge};
 
+#[allow(unexpected_cfgs)]
 pub mod cache;
 pub mod deindex;
 pub mod index;
-- 
2.43.0

