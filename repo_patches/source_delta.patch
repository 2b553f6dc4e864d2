From 165b2e7d46a29e939ea46c839e010a8ff9f289d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:12 +0000
Subject: [PATCH 01/16] fix: orient3d adaptive stage used cdztail instead of
 cdxtail in the last tail product

---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index d344b12..fff11b1 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -729,7 +729,7 @@ fn orient3d_adapt<A: Allocator + Copy>(
         bdxtail, cdytail, cdztail, cdz, adz, adytail, adztail, &mut fin, allocator,
     );
     helper2(
-        cdztail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
+        cdxtail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
     );
 
     if adztail != 0.0 {
-- 
2.43.0


From 7c8b15d402c8c696e0f2a1c0177eb38b8ec904f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 02/16] fix: expansion_sum added its first operand twice;
 grow_expansion_zeroelim returned an empty expansion for zero

---
 src/predicates/predicates.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index fff11b1..3a82cf0 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -229,7 +229,7 @@ pub fn grow_expansion_zeroelim<A: Allocator>(earr: &[f64], b: f64, allocator: A)
             None
         }
     }));
-    if q != 0.0 {
+    if q != 0.0 || h.is_empty() {
         h.push(q);
     }
     h
@@ -245,8 +245,8 @@ pub fn expansion_sum<A: Allocator>(earr: &[f64], farr: &[f64], allocator: A) ->
         r
     }));
     h_arr.push(q);
-    earr.iter().enumerate().skip(1).for_each(|(start, &e)| {
-        q = e;
+    farr.iter().enumerate().skip(1).for_each(|(start, &f)| {
+        q = f;
         for h in &mut h_arr[start..] {
             let (qnew, enew) = two_sum(q, *h);
             q = qnew;
-- 
2.43.0


From ae836227b989385f7adcf4e081acddbbc8e5b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:19 +0000
Subject: [PATCH 03/16] fix: interval arithmetic: sign queries, constructor and
 two multiplication cases mixed up the bounds

---
 src/predicates/interval_number.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index ccda78c..fa8d0ba 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -8,7 +8,7 @@ const SIGN_HIGH_MASK: u64x2 = u64x2::from_array([(1_u64 << 63), 0u64]);
 
 #[derive(Clone)]
 pub struct IntervalNumber {
-    /// [high; low]
+    /// [high; -low]
     data: f64x2,
 }
 
@@ -16,7 +16,7 @@ impl IntervalNumber {
     #[inline(always)]
     pub fn new(low: f64, high: f64) -> Self {
         Self {
-            data: f64x2::from_array([high, low]),
+            data: f64x2::from_array([high, -low]),
         }
     }
 }
@@ -47,12 +47,12 @@ impl IntervalNumber {
 
     #[inline(always)]
     pub fn positive(&self) -> bool {
-        self.data[0] < 0.0
+        self.data[1] < 0.0
     }
 
     #[inline(always)]
     pub fn negative(&self) -> bool {
-        self.data[1] < 0.0
+        self.data[0] < 0.0
     }
 
     #[inline(always)]
@@ -99,7 +99,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
         0 => {
             let llhh = a.data * b.data;
             let lhhl = a.data * b.data.reverse();
-            [lhhl.reduce_max(), llhh.reduce_max()].into()
+            [llhh.reduce_max(), lhhl.reduce_max()].into()
         }
 
         1 => a.data.reverse() * f64x2::from([b.data[1], b.data[1]]),
@@ -120,7 +120,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
             a.data * f64x2::from_bits(bi).reverse()
         }
 
-        8 => (f64x2::from([a.data[0]; 2]) * b.data).reverse(),
+        8 => f64x2::from([a.data[0]; 2]) * b.data,
 
         9 => {
             let mut ai = a.data.to_bits();
-- 
2.43.0


From 8b1823f6be99e47c17636fe02b1581a641629493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 04/16] fix: less_than_on_*: reversed arguments kept the sign
 of the swapped comparison; the interval stage compared with x on every axis

---
 src/predicates/less_than.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 0219214..091bbaa 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -1,20 +1,20 @@
 use std::alloc::Allocator;
 
 use super::{
-    double_to_sign, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
+    double_to_sign, sign_reverse, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
     ImplicitPointTPI, Orientation, Point3D,
 };
 
 pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<0>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_x_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_x_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_x_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_x_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_x_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_x_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_x_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_x_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_x_tt(pa, pb, bump),
     }
 }
@@ -22,13 +22,13 @@ pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<1>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_y_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_y_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_y_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_y_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_y_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_y_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_y_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_y_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_y_tt(pa, pb, bump),
     }
 }
@@ -36,13 +36,13 @@ pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_z<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<2>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_z_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_z_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_z_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_z_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_z_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_z_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_z_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_z_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_z_tt(pa, pb, bump),
     }
 }
@@ -449,9 +449,9 @@ fn less_than_ii<
         let det = if AXIS == 0 {
             less_than_ii_impl(&pa_dynamic.x, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
         } else if AXIS == 1 {
-            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.y, &pb_dynamic.d)
         } else {
-            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.z, &pb_dynamic.d)
         };
 
         if det.not_zero() {
-- 
2.43.0


From cbf738edeb434ce19f1e9ec5491d60eae52ac302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:46 +0000
Subject: [PATCH 05/16] fix: a constrained segment that runs into a vertex left
 its first part unmarked

---
 src/triangle/triangle.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 8ae211a..ac4b925 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -1157,18 +1157,17 @@ fn constrained_edge<A: Allocator + Copy>(
             break;
         }
     }
+    let v = dest(&m.triangles, &fixup_tri);
+    set_mark(
+        &mut m.triangles,
+        &fixup_tri,
+        if v == endpoint2 { mark } else { twin(mark) },
+        true,
+    );
     if collision {
         if !scout_segment(m, ghost, &mut fixup_tri, endpoint2, mark, bump) {
             constrained_edge(m, ghost, &mut fixup_tri, endpoint2, mark, vertex_map, bump);
         }
-    } else {
-        let v = dest(&m.triangles, &fixup_tri);
-        set_mark(
-            &mut m.triangles,
-            &fixup_tri,
-            if v == endpoint2 { mark } else { twin(mark) },
-            true,
-        );
     }
 }
 
-- 
2.43.0


From 06ae7f0c35666dfdb9aa91f2292743a637759aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 06/16] fix: triangulate crashed when there is nothing to
 triangulate (fewer than three points, or collinear points with segments)

---
 src/triangle/triangle.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index ac4b925..1cded68 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -12,6 +12,9 @@ pub fn triangulate<A: Allocator + Copy>(
     bump: A,
 ) -> Vec<usize, A> {
     let n_points = points.len() >> 1;
+    if n_points < 3 {
+        return Vec::new_in(bump);
+    }
     let mut sorted_pt_inds = Vec::with_capacity_in(n_points, bump);
     sorted_pt_inds.extend(0..n_points);
     sorted_pt_inds.sort_unstable_by(|&i, &j| {
@@ -1198,6 +1201,10 @@ fn insert_segment<A: Allocator + Copy>(
 }
 
 fn form_skeleton<A: Allocator + Copy>(m: &mut Mesh<A>, ghost: &[bool], segment: &[usize], bump: A) {
+    if ghost.iter().all(|&is_ghost| is_ghost) {
+        // all points are collinear, there is no edge to constrain
+        return;
+    }
     let mut vertex_map = make_vertex_map(&m.triangles, ghost, m.points.len() >> 1, bump);
     for (i, seg) in segment.chunks(2).enumerate() {
         if seg[0] != seg[1] {
-- 
2.43.0


From 99033148b7eb89304d3dc5abda3adedbaa934056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 07/16] fix: GraphCut left freed nodes on the sink side, so
 is_sink was not a minimum cut

---
 src/graphcut/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graphcut/mod.rs b/src/graphcut/mod.rs
index 1b94148..07157d9 100644
--- a/src/graphcut/mod.rs
+++ b/src/graphcut/mod.rs
@@ -319,6 +319,8 @@ impl GraphCut {
             self.ts[i] = self.time;
             self.dist[i] = d_min + 1;
         } else {
+            // a free node belongs to the source side
+            self.is_sink[i] = false;
             // no parent is found, process neighbors
             a0 = self.first_arc[i];
             while a0 != INVALID_IND {
-- 
2.43.0


From 1034cdaa8aa5568c77dff81750abfc0a9e9ab57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 08/16] fix: PushRelabelFifo reported the sink side from stale
 labels, which is not always a minimum cut

---
 src/graphcut/push_relabel_fifo.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graphcut/push_relabel_fifo.rs b/src/graphcut/push_relabel_fifo.rs
index fb13a92..d0c448a 100644
--- a/src/graphcut/push_relabel_fifo.rs
+++ b/src/graphcut/push_relabel_fifo.rs
@@ -227,6 +227,8 @@ where
                 self.global_relabel();
             }
         }
+        // the labels are only lower bounds, make them tell who still reaches the sink
+        self.global_relabel();
     }
 
     #[inline(always)]
-- 
2.43.0


From 128b41c1f7e31905a648d8662c35f4f1a230d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 09/16] fix: tetrahedralize returned no tetrahedra for long or
 thin point sets

The first four points were chosen with thresholds relative to the bounding box (1e-6 of
its cubed diagonal), so for example a 1024 x 1 x 1 beam gave an empty mesh.
---
 src/triangle/tetrahedron.rs | 71 ++++++++++++-------------------------
 1 file changed, 22 insertions(+), 49 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 6f66c17..53d6753 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -3,7 +3,6 @@ use std::alloc::Allocator;
 use hashbrown::HashMap;
 
 use crate::{
-    math::{cross, norm, sub},
     predicates::{self, double_to_sign, sign_reverse, Orientation},
     INVALID_IND,
 };
@@ -1121,7 +1120,6 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         hilbert_limit: 8,
         ratio: 0.125,
     };
-    const EPS: f64 = 1e-6;
     let mut n_group = 1;
     brio_multiscale_sort(
         points,
@@ -1131,75 +1129,51 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         &mut n_group,
     );
 
-    let mut temp_vec3 = [0.0, 0.0, 0.0];
-    let bbox_size1 = {
-        sub(&bbox[3..6], &bbox, &mut temp_vec3);
-        norm(&temp_vec3)
-    };
-    let bbox_size2 = bbox_size1 * bbox_size1;
-    let bbox_size3 = bbox_size2 * bbox_size1;
+    // The first four points must be affinely independent, decided exactly: a relative
+    // threshold would reject long or thin point sets that do have a volume.
+    let mut bump = Bump::new();
     let mut i = 1;
     {
         let p0 = point(points, sorted_pt_inds[0]);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
-            sub(p0, pi, &mut temp_vec3);
-            if norm(&temp_vec3) / bbox_size1 < EPS {
-                i += 1;
-            } else {
-                break;
-            }
+        while i < mesh.n_points && p0 == point(points, sorted_pt_inds[i]) {
+            i += 1;
         }
-        if i > 1 {
-            if i == mesh.n_points {
-                return mesh;
-            }
-            sorted_pt_inds.swap(1, i);
+        if i >= mesh.n_points {
+            return mesh;
         }
+        sorted_pt_inds.swap(1, i);
 
         i = 2;
         let p1 = point(points, sorted_pt_inds[1]);
-        sub(p1, p0, &mut temp_vec3);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
-            let mut v2 = [0.0; 3];
-            sub(pi, p0, &mut v2);
-            let mut n = [0.0; 3];
-            cross(&temp_vec3, &v2, &mut n);
-            if norm(&n) / bbox_size2 < EPS {
-                i += 1;
-            } else {
-                break;
-            }
+        while i < mesh.n_points
+            && !predicates::mis_alignment(p0, p1, point(points, sorted_pt_inds[i]), &bump)
+        {
+            i += 1;
         }
-        if i > 2 {
-            if i == mesh.n_points {
-                return mesh;
-            };
-            sorted_pt_inds.swap(2, i);
+        if i >= mesh.n_points {
+            return mesh;
         }
+        sorted_pt_inds.swap(2, i);
     }
     i = 3;
     let mut ori = 0.0;
     while i < mesh.n_points {
-        ori = predicates::orient3d_fast(
+        ori = predicates::orient3d(
             point(points, sorted_pt_inds[0]),
             point(points, sorted_pt_inds[1]),
             point(points, sorted_pt_inds[2]),
             point(points, sorted_pt_inds[i]),
+            &bump,
         );
-        if ori.abs() / bbox_size3 < EPS {
-            i += 1;
-        } else {
+        if ori != 0.0 {
             break;
         }
+        i += 1;
     }
-    if i > 3 {
-        if i == mesh.n_points {
-            return mesh;
-        }
-        sorted_pt_inds.swap(3, i);
+    if i >= mesh.n_points {
+        return mesh;
     }
+    sorted_pt_inds.swap(3, i);
 
     // follow the right rule
     if ori > 0.0 {
@@ -1213,7 +1187,6 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         sorted_pt_inds[2],
         sorted_pt_inds[3],
     );
-    let mut bump = Bump::new();
     for i in 4..mesh.n_points {
         bump.reset();
         if !insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump) {
-- 
2.43.0


From becdcebd83d52876166fd7c960d2fee64474ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 10/16] fix: tetrahedralize continued from a deleted
 tetrahedron after filling a very large cavity

---
 src/triangle/tetrahedron.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 53d6753..d97605d 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1059,8 +1059,8 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
             }
         }
 
-        // randomly pick a new tet
-        *searchtet = cave_bdry_list[f_out >> 1].clone();
+        // randomly pick a new tet (they are the last f_out ones)
+        searchtet.set(tets.tets.len() - f_out + (f_out >> 1), 11);
         tets.p2t[pid] = searchtet.tet;
 
         for mut oldtet in cave_bdry_list {
-- 
2.43.0


From 1ce625b6d65bfbc95c9eb5c9491f6378a0ef6cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 11/16] fix: remove_duplicates compared the unsnapped points,
 so points that snap to one position stayed apart

---
 src/polygonlization/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index b6b2c16..8f69df3 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -27,12 +27,16 @@ pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>)
     let approx_points = Vec::from_iter(points.iter().map(|x| (x / base).round() * base));
     let n_points = points.len() / 3;
     let mut indices = Vec::from_iter(0..n_points);
-    indices.sort_unstable_by(|&i, &j| point(points, i).partial_cmp(point(points, j)).unwrap());
+    indices.sort_unstable_by(|&i, &j| {
+        point(&approx_points, i)
+            .partial_cmp(point(&approx_points, j))
+            .unwrap()
+    });
     let mut pmap = vec![0usize; n_points];
     let mut out_pt_indices = vec![indices[0]];
     for k in 1..n_points {
         let (i, j) = (indices[k], indices[k - 1]);
-        if point(points, i) == point(points, j) {
+        if point(&approx_points, i) == point(&approx_points, j) {
             pmap[i] = out_pt_indices.len() - 1;
         } else {
             pmap[i] = out_pt_indices.len();
-- 
2.43.0


From f02a96a0174ceda913d8f81a002164b43b80a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 12/16] fix: triangles in the separating plane were dropped
 when the section polygon is oriented the other way

---
 src/polygonlization/bsp_complex.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 441b926..e627cc3 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1882,13 +1882,19 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
     }
     {
         for (&pa, &pb) in poly.iter().circular_tuple_windows() {
+            // the polygon may be oriented differently from the triangle
+            let poly_ori = poly
+                .iter()
+                .map(|&pc| orient2d::orient2d_by_axis(pa, pb, pc, axis, alloc))
+                .find(|&ori| ori != Orientation::Zero)
+                .unwrap_or(base_ori);
             let mut has_inside = false;
             for &pc in tri {
                 let ori = orient2d::orient2d_by_axis(pa, pb, pc, axis, alloc);
                 if ori == Orientation::Zero {
                     continue;
                 }
-                if ori == base_ori {
+                if ori == poly_ori {
                     has_inside = true;
                 }
             }
-- 
2.43.0


From b027e5165b274d9ef1534d71a0fe1f455c91d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 13/16] fix: a constraint whose sides pass through the edges of
 a tetrahedron was not recorded as crossing it

---
 src/polygonlization/conforming_mesh.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 92ecc3d..aef74ca 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -906,7 +906,8 @@ fn constraint_intersect_empty<A: Allocator + Copy>(
 
     for &nv in neg_vs {
         for &pv in pos_vs {
-            if vert_inner_segment_cross_inner_triangle(mesh, nv, pv, c[0], c[1], c[2], bump) {
+            // the crossing point may be on the boundary of the constraint
+            if vert_inner_segment_cross_triangle(mesh, nv, pv, c, bump) {
                 return true;
             }
         }
-- 
2.43.0


From 2b6707ccebaf89c6c98e414e6553eb3270a73c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 14/16] fix: an outline vertex was dropped although another
 outline touches it there, which left the result open along the edge

---
 src/polygonlization/bsp_complex.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index e627cc3..bc39c16 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -882,6 +882,20 @@ impl BSPComplex {
             groups
         }));
 
+        // number of outline edges at each vertex
+        let mut vert_degrees = vec![0usize; self.vertex_data.len()];
+        for edge in self.mesh.edges() {
+            let faces = &edge_faces[*edge];
+            if faces.is_empty()
+                || (faces.len() == 2 && face_in_group[faces[0]] == face_in_group[faces[1]])
+            {
+                continue;
+            }
+            for vid in self.mesh.e_vertices(*edge) {
+                vert_degrees[vid] += 1;
+            }
+        }
+
         Vec::from_iter(group_map.into_values().map(|indices| {
             bump.reset();
             let mut tid = INVALID_IND;
@@ -915,6 +929,7 @@ impl BSPComplex {
                         &mut edge_groups,
                         &mut edge_in_group,
                         &edge_face_groups,
+                        &vert_degrees,
                         axis,
                         &bump,
                     )
@@ -1062,6 +1077,7 @@ impl BSPComplex {
         edge_groups: &mut Vec<EdgeGroup>,
         edge_in_group: &mut [usize],
         edge_face_groups: &[Vec<usize>],
+        vert_degrees: &[usize],
         axis: usize,
         bump: A,
     ) -> Vec<VertexId> {
@@ -1083,6 +1099,10 @@ impl BSPComplex {
             if edge_face_groups[ea] != edge_face_groups[eb] {
                 return false;
             }
+            // another outline passes through the common vertex
+            if vert_degrees[end_vertex(ha)] != 2 {
+                return false;
+            }
 
             if self.edge_data[ha.0].id == self.edge_data[hb.0].id {
                 return true;
-- 
2.43.0


From b902ffc414d0a62e5ed03d4090df21177e5de6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:34 +0000
Subject: [PATCH 15/16] fix: make_polyhedral_mesh and make_mesh_for_triangles
 panicked when nothing is enclosed (no proper triangle, or all points in one
 plane)

---
 src/polygonlization/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index 8f69df3..b01cfa8 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -62,8 +62,15 @@ fn make_mesh_for_proper_triangles(
     triangles: Vec<usize>,
     tri_in_shells: &[usize],
 ) -> (Vec<f64>, Vec<usize>) {
-    let mut constraints = Constraints::new(triangles);
+    if triangles.is_empty() {
+        return (Vec::new(), Vec::new());
+    }
     let mut tet_mesh = tetrahedralize(points);
+    if tet_mesh.tets.is_empty() {
+        // all points lie in one plane, nothing is enclosed
+        return (Vec::new(), Vec::new());
+    }
+    let mut constraints = Constraints::new(triangles);
     constraints.place_virtual_constraints(&tet_mesh);
     let tet_marks = constraints.insert_constraints(&mut tet_mesh);
     let mut complex = BSPComplex::new(tet_mesh, &constraints, tet_marks);
-- 
2.43.0


From ac674f2b58c7ea0c18a87374ad5e66db64b0248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:11 +0000
Subject: [PATCH 16/16] fix: outlines of merged faces panicked when both ends
 of an inner edge lie on several outlines

---
 src/polygonlization/bsp_complex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index bc39c16..0bd7351 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1010,7 +1010,8 @@ impl BSPComplex {
                         if face_signs[fid] < 0 {
                             std::mem::swap(&mut ha, &mut hb);
                         }
-                        he_next_map.insert(*ha, *hb);
+                        // both ends of an edge may be such vertices
+                        he_next_map.insert((*ha, v), *hb);
                     }
                 }
             }
@@ -1046,7 +1047,7 @@ impl BSPComplex {
                             let mut cur = he.0;
                             let next_hid;
                             loop {
-                                let next = *he_next_map.get(&cur).unwrap();
+                                let next = *he_next_map.get(&(cur, vb)).unwrap();
                                 if let Some(&hid) =
                                     group.iter().find(|&&idx| halfedges[idx].0 == next)
                                 {
-- 
2.43.0

