From ff27522469c661206f4dcf9309929f4d3f12e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 01/22] fix: recompute exact labels after push-relabel so the
 reported partition is a minimum cut

---
 src/graphcut/push_relabel_fifo.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graphcut/push_relabel_fifo.rs b/src/graphcut/push_relabel_fifo.rs
index fb13a92..fa42be5 100644
--- a/src/graphcut/push_relabel_fifo.rs
+++ b/src/graphcut/push_relabel_fifo.rs
@@ -227,6 +227,8 @@ where
                 self.global_relabel();
             }
         }
+        // labels are only lower bounds here; make them exact, since the cut is read from them
+        self.global_relabel();
     }
 
     #[inline(always)]
-- 
2.43.0


From a63bdf5c8f5c3b8cf9f4d65d5c55000e60cbbe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 02/22] fix: put nodes left in neither search tree on the
 source side of the cut

---
 src/graphcut/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graphcut/mod.rs b/src/graphcut/mod.rs
index 1b94148..6c0963e 100644
--- a/src/graphcut/mod.rs
+++ b/src/graphcut/mod.rs
@@ -514,6 +514,12 @@ impl GraphCut {
                 current_node = INVALID_IND;
             }
         }
+        // nodes left in neither tree have a stale side; they belong to the source segment
+        for (is_sink, &parent) in self.is_sink.iter_mut().zip(&self.parent) {
+            if parent == INVALID_IND {
+                *is_sink = false;
+            }
+        }
         return self.flow;
     }
 }
-- 
2.43.0


From dd958f67d35b19d3ee07577691fea813a67223cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 03/22] fix: interval arithmetic keeps [high; -low] in every
 operation and reports signs the right way round

---
 src/predicates/interval_number.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index ccda78c..fa8d0ba 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -8,7 +8,7 @@ const SIGN_HIGH_MASK: u64x2 = u64x2::from_array([(1_u64 << 63), 0u64]);
 
 #[derive(Clone)]
 pub struct IntervalNumber {
-    /// [high; low]
+    /// [high; -low]
     data: f64x2,
 }
 
@@ -16,7 +16,7 @@ impl IntervalNumber {
     #[inline(always)]
     pub fn new(low: f64, high: f64) -> Self {
         Self {
-            data: f64x2::from_array([high, low]),
+            data: f64x2::from_array([high, -low]),
         }
     }
 }
@@ -47,12 +47,12 @@ impl IntervalNumber {
 
     #[inline(always)]
     pub fn positive(&self) -> bool {
-        self.data[0] < 0.0
+        self.data[1] < 0.0
     }
 
     #[inline(always)]
     pub fn negative(&self) -> bool {
-        self.data[1] < 0.0
+        self.data[0] < 0.0
     }
 
     #[inline(always)]
@@ -99,7 +99,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
         0 => {
             let llhh = a.data * b.data;
             let lhhl = a.data * b.data.reverse();
-            [lhhl.reduce_max(), llhh.reduce_max()].into()
+            [llhh.reduce_max(), lhhl.reduce_max()].into()
         }
 
         1 => a.data.reverse() * f64x2::from([b.data[1], b.data[1]]),
@@ -120,7 +120,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
             a.data * f64x2::from_bits(bi).reverse()
         }
 
-        8 => (f64x2::from([a.data[0]; 2]) * b.data).reverse(),
+        8 => f64x2::from([a.data[0]; 2]) * b.data,
 
         9 => {
             let mut ai = a.data.to_bits();
-- 
2.43.0


From 4d315a6b8e2e8e785ad881167fd780d3bfbffc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 04/22] fix: less_than answers for its arguments in the order
 given and on the axis asked

---
 src/predicates/less_than.rs | 42 ++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 0219214..a4627bc 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -1,20 +1,26 @@
 use std::alloc::Allocator;
 
 use super::{
-    double_to_sign, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
+    double_to_sign, sign_reverse, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
     ImplicitPointTPI, Orientation, Point3D,
 };
 
 pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<0>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_x_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_x_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_x_le(pb, pa, bump))
+        }
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => {
+            sign_reverse(less_than_on_x_te(pb, pa, bump))
+        }
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_x_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_x_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_x_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_x_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_x_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_x_lt(pb, pa, bump))
+        }
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_x_tt(pa, pb, bump),
     }
 }
@@ -22,13 +28,19 @@ pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<1>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_y_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_y_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_y_le(pb, pa, bump))
+        }
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => {
+            sign_reverse(less_than_on_y_te(pb, pa, bump))
+        }
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_y_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_y_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_y_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_y_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_y_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_y_lt(pb, pa, bump))
+        }
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_y_tt(pa, pb, bump),
     }
 }
@@ -36,13 +48,19 @@ pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_z<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<2>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_z_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_z_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_z_le(pb, pa, bump))
+        }
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => {
+            sign_reverse(less_than_on_z_te(pb, pa, bump))
+        }
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_z_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_z_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_z_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_z_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_z_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => {
+            sign_reverse(less_than_on_z_lt(pb, pa, bump))
+        }
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_z_tt(pa, pb, bump),
     }
 }
@@ -449,9 +467,9 @@ fn less_than_ii<
         let det = if AXIS == 0 {
             less_than_ii_impl(&pa_dynamic.x, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
         } else if AXIS == 1 {
-            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.y, &pb_dynamic.d)
         } else {
-            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.z, &pb_dynamic.d)
         };
 
         if det.not_zero() {
-- 
2.43.0


From 895022b99fec4936128af176fb362fbe589129d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 05/22] fix: grow_expansion_zeroelim keeps one zero component
 when everything cancels

---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index d344b12..c4ff760 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -229,7 +229,7 @@ pub fn grow_expansion_zeroelim<A: Allocator>(earr: &[f64], b: f64, allocator: A)
             None
         }
     }));
-    if q != 0.0 {
+    if q != 0.0 || h.is_empty() {
         h.push(q);
     }
     h
-- 
2.43.0


From 992f090376cd84f1e909985484a2b7b9fe0a47ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 06/22] fix: expansion_sum adds every component of the second
 expansion

---
 src/predicates/predicates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index c4ff760..ba4f1d9 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -245,8 +245,8 @@ pub fn expansion_sum<A: Allocator>(earr: &[f64], farr: &[f64], allocator: A) ->
         r
     }));
     h_arr.push(q);
-    earr.iter().enumerate().skip(1).for_each(|(start, &e)| {
-        q = e;
+    farr.iter().enumerate().skip(1).for_each(|(start, &f)| {
+        q = f;
         for h in &mut h_arr[start..] {
             let (qnew, enew) = two_sum(q, *h);
             q = qnew;
-- 
2.43.0


From 5d2d5d83d2484e3390bfd14287cbd712bc1467a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 07/22] fix: triangulating fewer than two points returns no
 triangle instead of panicking

---
 src/triangle/triangle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 8ae211a..7e7d231 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -12,6 +12,10 @@ pub fn triangulate<A: Allocator + Copy>(
     bump: A,
 ) -> Vec<usize, A> {
     let n_points = points.len() >> 1;
+    if n_points < 2 {
+        // no edge to start the divide and conquer from
+        return Vec::new_in(bump);
+    }
     let mut sorted_pt_inds = Vec::with_capacity_in(n_points, bump);
     sorted_pt_inds.extend(0..n_points);
     sorted_pt_inds.sort_unstable_by(|&i, &j| {
-- 
2.43.0


From eee914ca88cd50092c60db3e62a5ba4ce5c9b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 08/22] fix: mark the piece of a segment up to a vertex met on
 the way as constrained

---
 src/triangle/triangle.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 7e7d231..7b786c2 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -1161,18 +1161,18 @@ fn constrained_edge<A: Allocator + Copy>(
             break;
         }
     }
+    // The edge between endpoint1 and the vertex reached is part of the segment.
+    let v = dest(&m.triangles, &fixup_tri);
+    set_mark(
+        &mut m.triangles,
+        &fixup_tri,
+        if v == endpoint1 { twin(mark) } else { mark },
+        true,
+    );
     if collision {
         if !scout_segment(m, ghost, &mut fixup_tri, endpoint2, mark, bump) {
             constrained_edge(m, ghost, &mut fixup_tri, endpoint2, mark, vertex_map, bump);
         }
-    } else {
-        let v = dest(&m.triangles, &fixup_tri);
-        set_mark(
-            &mut m.triangles,
-            &fixup_tri,
-            if v == endpoint2 { mark } else { twin(mark) },
-            true,
-        );
     }
 }
 
-- 
2.43.0


From e33c1b7d9ed604a155bd970bdfedf8b5db593876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 09/22] fix: tetrahedralize chooses its first four points
 exactly

Relative thresholds took clustered or nearly flat points for coplanar ones and
returned no tetrahedron for them.
---
 src/triangle/tetrahedron.rs | 76 ++++++++++++-------------------------
 1 file changed, 25 insertions(+), 51 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 6f66c17..0597674 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -3,7 +3,6 @@ use std::alloc::Allocator;
 use hashbrown::HashMap;
 
 use crate::{
-    math::{cross, norm, sub},
     predicates::{self, double_to_sign, sign_reverse, Orientation},
     INVALID_IND,
 };
@@ -1121,7 +1120,6 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         hilbert_limit: 8,
         ratio: 0.125,
     };
-    const EPS: f64 = 1e-6;
     let mut n_group = 1;
     brio_multiscale_sort(
         points,
@@ -1131,75 +1129,52 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         &mut n_group,
     );
 
-    let mut temp_vec3 = [0.0, 0.0, 0.0];
-    let bbox_size1 = {
-        sub(&bbox[3..6], &bbox, &mut temp_vec3);
-        norm(&temp_vec3)
-    };
-    let bbox_size2 = bbox_size1 * bbox_size1;
-    let bbox_size3 = bbox_size2 * bbox_size1;
+    // choose four points that span space: the tests are exact, so nearly flat or clustered points
+    // are not taken for degenerate ones
+    let mut bump = Bump::new();
     let mut i = 1;
     {
         let p0 = point(points, sorted_pt_inds[0]);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
-            sub(p0, pi, &mut temp_vec3);
-            if norm(&temp_vec3) / bbox_size1 < EPS {
-                i += 1;
-            } else {
-                break;
-            }
+        while i < mesh.n_points && point(points, sorted_pt_inds[i]) == p0 {
+            i += 1;
         }
-        if i > 1 {
-            if i == mesh.n_points {
-                return mesh;
-            }
-            sorted_pt_inds.swap(1, i);
+        if i >= mesh.n_points {
+            return mesh;
         }
+        sorted_pt_inds.swap(1, i);
 
         i = 2;
         let p1 = point(points, sorted_pt_inds[1]);
-        sub(p1, p0, &mut temp_vec3);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
-            let mut v2 = [0.0; 3];
-            sub(pi, p0, &mut v2);
-            let mut n = [0.0; 3];
-            cross(&temp_vec3, &v2, &mut n);
-            if norm(&n) / bbox_size2 < EPS {
-                i += 1;
-            } else {
-                break;
-            }
+        while i < mesh.n_points
+            && !predicates::mis_alignment(p0, p1, point(points, sorted_pt_inds[i]), &bump)
+        {
+            i += 1;
         }
-        if i > 2 {
-            if i == mesh.n_points {
-                return mesh;
-            };
-            sorted_pt_inds.swap(2, i);
+        if i >= mesh.n_points {
+            return mesh;
         }
+        sorted_pt_inds.swap(2, i);
     }
     i = 3;
     let mut ori = 0.0;
     while i < mesh.n_points {
-        ori = predicates::orient3d_fast(
-            point(points, sorted_pt_inds[0]),
-            point(points, sorted_pt_inds[1]),
-            point(points, sorted_pt_inds[2]),
-            point(points, sorted_pt_inds[i]),
+        ori = mesh.orient3d(
+            sorted_pt_inds[0],
+            sorted_pt_inds[1],
+            sorted_pt_inds[2],
+            sorted_pt_inds[i],
+            &bump,
         );
-        if ori.abs() / bbox_size3 < EPS {
+        if ori == 0.0 {
             i += 1;
         } else {
             break;
         }
     }
-    if i > 3 {
-        if i == mesh.n_points {
-            return mesh;
-        }
-        sorted_pt_inds.swap(3, i);
+    if i >= mesh.n_points {
+        return mesh;
     }
+    sorted_pt_inds.swap(3, i);
 
     // follow the right rule
     if ori > 0.0 {
@@ -1213,7 +1188,6 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         sorted_pt_inds[2],
         sorted_pt_inds[3],
     );
-    let mut bump = Bump::new();
     for i in 4..mesh.n_points {
         bump.reset();
         if !insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump) {
-- 
2.43.0


From 4bff02efa4e4a6d4ccc6a20b1fadae618625d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:28 +0000
Subject: [PATCH 10/22] fix: after filling a very large cavity the search
 continues from a live tetrahedron

The branch for large cavities kept a deleted tetrahedron as the start of the next
search and as the tetrahedron of the inserted point.
---
 src/triangle/tetrahedron.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 0597674..6604b62 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1057,10 +1057,9 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
                     tets.p2t[vid] = newtet.tet;
                 }
             }
+            // the cavity list still holds the old tets, so keep a new one here
+            *searchtet = newtet;
         }
-
-        // randomly pick a new tet
-        *searchtet = cave_bdry_list[f_out >> 1].clone();
         tets.p2t[pid] = searchtet.tet;
 
         for mut oldtet in cave_bdry_list {
-- 
2.43.0


From a0a61bdfeb222cf7e692114b4c76b4e92ea55ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 11/22] fix: remove_duplicates merges points by their rounded
 coordinates

It sorted and compared the unrounded points, so points that round together were
kept apart at the same place; an empty list no longer panics, and zero tolerance
returns one map entry per point.
---
 src/polygonlization/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index b6b2c16..d7162da 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -19,20 +19,27 @@ pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>)
     if epsilon == 0.0 {
         return (
             Vec::from_iter(points.iter().map(|&x| x)),
-            Vec::from_iter(0..points.len()),
+            Vec::from_iter(0..points.len() / 3),
         );
     }
+    if points.is_empty() {
+        return (Vec::new(), Vec::new());
+    }
     let e = get_exponent(epsilon) - 1;
     let base = 2.0f64.powi(e);
     let approx_points = Vec::from_iter(points.iter().map(|x| (x / base).round() * base));
     let n_points = points.len() / 3;
     let mut indices = Vec::from_iter(0..n_points);
-    indices.sort_unstable_by(|&i, &j| point(points, i).partial_cmp(point(points, j)).unwrap());
+    indices.sort_unstable_by(|&i, &j| {
+        point(&approx_points, i)
+            .partial_cmp(point(&approx_points, j))
+            .unwrap()
+    });
     let mut pmap = vec![0usize; n_points];
     let mut out_pt_indices = vec![indices[0]];
     for k in 1..n_points {
         let (i, j) = (indices[k], indices[k - 1]);
-        if point(points, i) == point(points, j) {
+        if point(&approx_points, i) == point(&approx_points, j) {
             pmap[i] = out_pt_indices.len() - 1;
         } else {
             pmap[i] = out_pt_indices.len();
-- 
2.43.0


From a3ad6b3fbe47be48a3a8cc7e40fc950d13944120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 12/22] fix: the output surface keeps a vertex where more than
 two outline edges meet

Merging collinear outline edges face by face skipped a vertex on one side of an
edge where an outline of the other side turns, leaving a T-junction.
---
 src/polygonlization/bsp_complex.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 441b926..bf83491 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -882,7 +882,7 @@ impl BSPComplex {
             groups
         }));
 
-        Vec::from_iter(group_map.into_values().map(|indices| {
+        let groups = Vec::from_iter(group_map.into_values().map(|indices| {
             bump.reset();
             let mut tid = INVALID_IND;
             let mut base_fid = FaceId::default();
@@ -908,13 +908,32 @@ impl BSPComplex {
                 max_comp_in_tri_normal(pa, pb, pc, &bump)
             };
 
+            (outline_groups, axis)
+        }));
+
+        // number of outline edges at every vertex: where more than two meet, no outline may skip
+        // the vertex, since another one turns there
+        let mut vert_degrees = vec![0usize; self.vertex_data.len()];
+        let mut counted = vec![false; self.edge_data.len()];
+        for &(eid, _) in groups.iter().flat_map(|(outlines, _)| outlines).flatten() {
+            if !counted[eid] {
+                counted[eid] = true;
+                for vid in self.mesh.e_vertices(eid) {
+                    vert_degrees[vid] += 1;
+                }
+            }
+        }
+
+        Vec::from_iter(groups.into_iter().map(|(outlines, axis)| {
+            bump.reset();
             (
-                Vec::from_iter(outline_groups.into_iter().map(|outline| {
+                Vec::from_iter(outlines.into_iter().map(|outline| {
                     self.merge_colinear_edges(
                         outline,
                         &mut edge_groups,
                         &mut edge_in_group,
                         &edge_face_groups,
+                        &vert_degrees,
                         axis,
                         &bump,
                     )
@@ -1062,6 +1081,7 @@ impl BSPComplex {
         edge_groups: &mut Vec<EdgeGroup>,
         edge_in_group: &mut [usize],
         edge_face_groups: &[Vec<usize>],
+        vert_degrees: &[usize],
         axis: usize,
         bump: A,
     ) -> Vec<VertexId> {
@@ -1080,7 +1100,7 @@ impl BSPComplex {
         let colinear = |ha: &(EdgeId, bool), hb: &(EdgeId, bool)| {
             let ea = ha.0;
             let eb = hb.0;
-            if edge_face_groups[ea] != edge_face_groups[eb] {
+            if edge_face_groups[ea] != edge_face_groups[eb] || vert_degrees[end_vertex(ha)] != 2 {
                 return false;
             }
 
-- 
2.43.0


From c37f592cd9a6158aeba16e7556481e96b91cb0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 13/22] fix: a polygon cut by a plane keeps its own orientation
 when coplanar triangles are tested against it

---
 src/polygonlization/bsp_complex.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index bf83491..68d6909 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -361,6 +361,8 @@ impl BSPComplex {
                 })
                 .collect_vec();
 
+            // the polygon runs around with the orientation of the splitting triangle
+            let poly_ori = self.tri_orientations[tid];
             coplanar_triangles.retain(|&coplanar_tid| {
                 let coplanar_tri = triangle(coplanar_tid, &self.constraints);
                 let coplanar_pts = from_fn::<_, 3, _>(|i| &self.points[coplanar_tri[i]]);
@@ -368,6 +370,7 @@ impl BSPComplex {
                     &coplanar_pts,
                     &intersect_poly,
                     self.tri_orientations[coplanar_tid],
+                    poly_ori,
                     self.tri_axes[coplanar_tid],
                     bump,
                 )
@@ -1873,6 +1876,7 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
     tri: &[&Point3D],
     poly: &[&Point3D],
     base_ori: Orientation,
+    poly_ori: Orientation,
     axis: usize,
     alloc: A,
 ) -> bool {
@@ -1908,7 +1912,7 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
                 if ori == Orientation::Zero {
                     continue;
                 }
-                if ori == base_ori {
+                if ori == poly_ori {
                     has_inside = true;
                 }
             }
-- 
2.43.0


From f04d7da6ff44598d2fc527da0d3d298a54681156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 14/22] fix: decide exactly whether a constraint meets the
 interior of a tetrahedron

---
 src/polygonlization/conforming_mesh.rs | 272 +++----------------------
 1 file changed, 30 insertions(+), 242 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 92ecc3d..2ef2055 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -8,9 +8,9 @@ use itertools::Itertools;
 
 use crate::{
     predicates::{
-        self, double_to_sign, inner_segment_cross_inner_triangle, inner_segment_cross_triangle,
-        inner_segments_cross, max_comp_in_tri_normal, point_in_inner_segment, point_in_triangle,
-        same_half_plane, Orientation,
+        self, double_to_sign, inner_segment_cross_inner_triangle, inner_segments_cross,
+        max_comp_in_tri_normal, point_in_inner_segment, point_in_triangle, same_half_plane,
+        Orientation,
     },
     triangle::{TetMesh, TriFace, VPIVOT},
     INVALID_IND,
@@ -164,24 +164,6 @@ struct IntersectInfo<A: Allocator + Copy> {
     visited: Vec<bool, A>,
 }
 
-#[inline(always)]
-fn vert_inner_segment_cross<A: Allocator + Copy>(
-    mesh: &TetMesh,
-    u1: usize,
-    u2: usize,
-    v1: usize,
-    v2: usize,
-    allocator: A,
-) -> bool {
-    inner_segments_cross(
-        mesh.point(u1),
-        mesh.point(u2),
-        mesh.point(v1),
-        mesh.point(v2),
-        allocator,
-    )
-}
-
 #[inline(always)]
 fn vert_inner_segment_cross_inner_triangle<A: Allocator + Copy>(
     mesh: &TetMesh,
@@ -205,28 +187,6 @@ fn vert_inner_segment_cross_inner_triangle<A: Allocator + Copy>(
     );
 }
 
-#[inline(always)]
-fn vert_inner_segment_cross_triangle<A: Allocator + Copy>(
-    mesh: &TetMesh,
-    u1: usize,
-    u2: usize,
-    tri: &[usize],
-    allocator: A,
-) -> bool {
-    if u1 == tri[0] || u1 == tri[1] || u1 == tri[2] || u2 == tri[0] || u2 == tri[1] || u2 == tri[2]
-    {
-        return false;
-    }
-    return inner_segment_cross_triangle(
-        mesh.point(u1),
-        mesh.point(u2),
-        mesh.point(tri[0]),
-        mesh.point(tri[1]),
-        mesh.point(tri[2]),
-        allocator,
-    );
-}
-
 #[inline(always)]
 fn vert_inner_segments_cross<A: Allocator + Copy>(
     mesh: &TetMesh,
@@ -295,19 +255,6 @@ fn vert_point_in_inner_segment<A: Allocator + Copy>(
         && u != v2
         && point_in_inner_segment(mesh.point(u), mesh.point(v1), mesh.point(v2), allocator);
 }
-#[inline(always)]
-fn vert_point_in_segment<A: Allocator + Copy>(
-    mesh: &TetMesh,
-    u: usize,
-    v1: usize,
-    v2: usize,
-    allocator: A,
-) -> bool {
-    return u == v1
-        || u == v2
-        || point_in_inner_segment(mesh.point(u), mesh.point(v1), mesh.point(v2), allocator);
-}
-
 #[inline(always)]
 fn vert_point_in_inner_triangle<A: Allocator + Copy>(
     mesh: &TetMesh,
@@ -684,30 +631,11 @@ fn set_improper_intersections<A: Allocator + Copy>(
                     tet_marks[oppo_index][tid].push(cid);
                 }
             }
-            2 => {
-                if neg.len() != 1 {
-                    continue;
-                }
-                let non_planar_v = [neg[0], pos[0]];
-                if constraint_intersect_edge(mesh, triangle, &zero, &non_planar_v, bump) {
-                    tet_marks[4][tid].push(cid);
-                }
-            }
-            1 => {
+            _ => {
                 if neg.is_empty() || pos.is_empty() {
                     continue;
                 }
-                let (under_vs, over_v) = if neg.len() > pos.len() {
-                    (&neg, pos[0])
-                } else {
-                    (&pos, neg[0])
-                };
-                if constraint_intersect_vertex(mesh, triangle, zero[0], over_v, under_vs, bump) {
-                    tet_marks[4][tid].push(cid);
-                }
-            }
-            _ => {
-                if constraint_intersect_empty(mesh, triangle, tid, &neg, &pos, bump) {
+                if constraint_intersect_inner_tet(mesh, triangle, tid, &zero, &neg, &pos, bump) {
                     tet_marks[4][tid].push(cid);
                 }
             }
@@ -743,183 +671,43 @@ fn constraint_intersect_face<A: Allocator + Copy>(
     return false;
 }
 
-fn constraint_intersect_edge<A: Allocator + Copy>(
-    mesh: &TetMesh,
-    c: &[usize],
-    coplanar_v: &[usize],
-    non_planar_v: &[usize],
-    bump: A,
-) -> bool {
-    let (mut va_in, mut vb_in) = (
-        vert_point_in_inner_triangle(mesh, coplanar_v[0], c, bump),
-        vert_point_in_inner_triangle(mesh, coplanar_v[1], c, bump),
-    );
-    // va and vb both in the interior of triangle, intersection must be improper.
-    if va_in && vb_in {
-        return true;
-    }
-    let va_on_edge = vert_point_in_segment(mesh, coplanar_v[0], c[1], c[2], bump) as u8
-        | ((vert_point_in_segment(mesh, coplanar_v[0], c[2], c[0], bump) as u8) << 1)
-        | ((vert_point_in_segment(mesh, coplanar_v[0], c[0], c[1], bump) as u8) << 2);
-    let vb_on_edge = vert_point_in_segment(mesh, coplanar_v[1], c[1], c[2], bump) as u8
-        | ((vert_point_in_segment(mesh, coplanar_v[1], c[2], c[0], bump) as u8) << 1)
-        | ((vert_point_in_segment(mesh, coplanar_v[1], c[0], c[1], bump) as u8) << 2);
-    va_in |= va_on_edge > 0;
-    vb_in |= vb_on_edge > 0;
-    if va_in && vb_in {
-        let on_same_edge = va_on_edge & vb_on_edge;
-        // va and vb are not on same edge
-        if on_same_edge == 0 {
-            return true;
-        }
-        // edge [vc vd] pierces triangle
-        if vert_inner_segment_cross_triangle(mesh, non_planar_v[0], non_planar_v[1], c, bump) {
-            return true;
-        }
-        let bit = on_same_edge.trailing_zeros() as usize;
-        let ea = c[(bit + 1) % 3];
-        let eb = c[(bit + 2) % 3];
-        for ev in [ea, eb] {
-            for &tv in coplanar_v {
-                if vert_inner_segment_cross_inner_triangle(
-                    mesh,
-                    ev,
-                    c[bit],
-                    non_planar_v[0],
-                    non_planar_v[1],
-                    tv,
-                    bump,
-                ) {
-                    return true;
-                }
-            }
-        }
-        // otherwise.. the intersection is proper
-        return false;
-    } else if va_in || vb_in {
-        // edge [va vb] crosses triangle edge
-        if vert_inner_segments_cross(mesh, coplanar_v[0], coplanar_v[1], c[0], c[1], bump)
-            || vert_inner_segments_cross(mesh, coplanar_v[0], coplanar_v[1], c[1], c[2], bump)
-            || vert_inner_segments_cross(mesh, coplanar_v[0], coplanar_v[1], c[2], c[0], bump)
-        {
-            return true;
-        }
-        // edge [vc vd] pierces triangle
-        if vert_inner_segment_cross_triangle(mesh, non_planar_v[0], non_planar_v[1], c, bump) {
-            return true;
-        }
-        for (&ea, &eb) in c.iter().circular_tuple_windows() {
-            for &tv in coplanar_v {
-                if vert_inner_segment_cross_inner_triangle(
-                    mesh,
-                    ea,
-                    eb,
-                    non_planar_v[0],
-                    non_planar_v[1],
-                    tv,
-                    bump,
-                ) {
-                    return true;
-                }
-            }
-        }
-        // otherwise.. the intersection is proper
-        return false;
-    } else {
-        // otherwise.. since an intersection exists, it must be improper
-        return true;
-    }
-}
-
-fn constraint_intersect_vertex<A: Allocator + Copy>(
-    mesh: &TetMesh,
-    c: &[usize],
-    tv: usize,
-    over_v: usize,
-    under_vs: &[usize],
-    bump: A,
-) -> bool {
-    if vert_point_in_inner_triangle(mesh, tv, c, bump) {
-        return true;
-    }
-    let vert_on_segments = vert_point_in_segment(mesh, tv, c[0], c[1], bump)
-        || vert_point_in_segment(mesh, tv, c[1], c[2], bump)
-        || vert_point_in_segment(mesh, tv, c[2], c[0], bump);
-    // tv isn't on triangle, but intersection exist, so it's improper
-    if !vert_on_segments {
-        return true;
-    }
-    // now tv is on a boundary of triangle
-    if vert_inner_segment_cross_triangle(mesh, over_v, under_vs[0], c, bump)
-        && vert_inner_segment_cross_triangle(mesh, over_v, under_vs[1], c, bump)
-    {
-        return true;
-    }
-    for (&ca, &cb) in c.iter().circular_tuple_windows() {
-        if vert_inner_segment_cross_inner_triangle(mesh, ca, cb, tv, over_v, under_vs[0], bump)
-            || vert_inner_segment_cross_inner_triangle(mesh, ca, cb, tv, over_v, under_vs[1], bump)
-            || vert_inner_segment_cross_inner_triangle(
-                mesh,
-                ca,
-                cb,
-                over_v,
-                under_vs[0],
-                under_vs[1],
-                bump,
-            )
-        {
-            return true;
-        }
-    }
-    // otherwise... proper intersection
-    return false;
-}
-
-fn constraint_intersect_empty<A: Allocator + Copy>(
+/// Whether the interior of the constraint meets the interior of a tet that has vertices strictly
+/// on both sides of it: neither a face of the tet nor a side of the constraint separates them.
+fn constraint_intersect_inner_tet<A: Allocator + Copy>(
     mesh: &TetMesh,
     c: &[usize],
     tid: usize,
+    zero_vs: &[usize],
     neg_vs: &[usize],
     pos_vs: &[usize],
     bump: A,
 ) -> bool {
-    let mut all_cross = true;
-    for &nv in neg_vs {
-        if !all_cross {
-            break;
-        }
-        for &pv in pos_vs {
-            if !c
-                .iter()
-                .circular_tuple_windows()
-                .any(|(&va, &vb)| vert_inner_segment_cross(mesh, nv, pv, va, vb, bump))
-            {
-                all_cross = false;
-                break;
-            }
-        }
-    }
-
-    if all_cross {
-        return true;
-    }
-
-    for &nv in neg_vs {
-        for &pv in pos_vs {
-            if vert_inner_segment_cross_inner_triangle(mesh, nv, pv, c[0], c[1], c[2], bump) {
-                return true;
-            }
+    let verts = &mesh.tets[tid].data;
+    for i in 0..4 {
+        let [va, vb, vc] = [1, 2, 3].map(|j| verts[(i + j) % 4]);
+        let inner = double_to_sign(mesh.orient3d(va, vb, vc, verts[i], bump));
+        if c.iter()
+            .all(|&v| double_to_sign(mesh.orient3d(va, vb, vc, v, bump)) != inner)
+        {
+            return false;
         }
     }
 
-    for (&v1, &v2) in c.iter().circular_tuple_windows() {
-        for (&va, &vb, &vc) in mesh.tets[tid].data.iter().circular_tuple_windows() {
-            if vert_inner_segment_cross_inner_triangle(mesh, v1, v2, va, vb, vc, bump) {
-                return true;
-            }
+    // the tet cuts the plane of the constraint in the polygon of the zero vertices and of
+    // the points on the edges between the negative and the positive vertices
+    for (&ca, &cb, &cc) in c.iter().circular_tuple_windows() {
+        let has_inside = pos_vs.iter().any(|&pv| {
+            let inner = double_to_sign(mesh.orient3d(ca, cb, pv, cc, bump));
+            zero_vs
+                .iter()
+                .chain(neg_vs)
+                .any(|&v| double_to_sign(mesh.orient3d(ca, cb, pv, v, bump)) == inner)
+        });
+        if !has_inside {
+            return false;
         }
     }
-    return false;
+    true
 }
 
 fn interior_intersections<A: Allocator + Copy>(
-- 
2.43.0


From 31097a7e4188d7c31f7e0ec2b3e4db6d9123460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 15/22] fix: an edge between two vertices where outlines touch
 has a successor at each of them

---
 src/polygonlization/bsp_complex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 68d6909..c4de74e 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1017,7 +1017,8 @@ impl BSPComplex {
                         if face_signs[fid] < 0 {
                             std::mem::swap(&mut ha, &mut hb);
                         }
-                        he_next_map.insert(*ha, *hb);
+                        // an edge has a different successor at each of its vertices
+                        he_next_map.insert((v, *ha), *hb);
                     }
                 }
             }
@@ -1053,7 +1054,7 @@ impl BSPComplex {
                             let mut cur = he.0;
                             let next_hid;
                             loop {
-                                let next = *he_next_map.get(&cur).unwrap();
+                                let next = *he_next_map.get(&(vb, cur)).unwrap();
                                 if let Some(&hid) =
                                     group.iter().find(|&&idx| halfedges[idx].0 == next)
                                 {
-- 
2.43.0


From a92f72fd0f98253ce940baf76e3e79a5ca0dafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 16/22] fix: input that encloses nothing because it is empty or
 lies on one plane gives an empty mesh

---
 src/polygonlization/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index d7162da..7584d05 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -65,8 +65,15 @@ fn make_mesh_for_proper_triangles(
     triangles: Vec<usize>,
     tri_in_shells: &[usize],
 ) -> (Vec<f64>, Vec<usize>) {
+    if triangles.is_empty() {
+        return (Vec::new(), Vec::new());
+    }
     let mut constraints = Constraints::new(triangles);
     let mut tet_mesh = tetrahedralize(points);
+    if tet_mesh.tets.is_empty() {
+        // all points lie on one plane: nothing is enclosed
+        return (Vec::new(), Vec::new());
+    }
     constraints.place_virtual_constraints(&tet_mesh);
     let tet_marks = constraints.insert_constraints(&mut tet_mesh);
     let mut complex = BSPComplex::new(tet_mesh, &constraints, tet_marks);
-- 
2.43.0


From 46d2996e08afde1d02d41f3487d3e2238593c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:51 +0000
Subject: [PATCH 17/22] fix: the last tail products of orient3d use the x tail
 of the third difference

---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index ba4f1d9..3a82cf0 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -729,7 +729,7 @@ fn orient3d_adapt<A: Allocator + Copy>(
         bdxtail, cdytail, cdztail, cdz, adz, adytail, adztail, &mut fin, allocator,
     );
     helper2(
-        cdztail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
+        cdxtail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
     );
 
     if adztail != 0.0 {
-- 
2.43.0


From cad9e008f2d3d84cd8c08701bc7c2d90dec12932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:29 +0000
Subject: [PATCH 18/22] fix: virtual constraints were placed at the wrong edge
 of an open triangle

---
 src/polygonlization/conforming_mesh.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 2ef2055..a637c9b 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -42,10 +42,12 @@ impl Constraints {
         for (idx, tri) in self.triangles.chunks(3).enumerate() {
             for (i, (&va, &vb)) in tri.iter().circular_tuple_windows().enumerate() {
                 let key = if va < vb { (va, vb) } else { (vb, va) };
+                // a halfedge is named by its opposite corner
+                let opposite = (i + 2) % 3;
                 if let Some(vec) = edge_map.get_mut(&key) {
-                    vec.push((idx, i));
+                    vec.push((idx, opposite));
                 } else {
-                    edge_map.insert(key, vec![(idx, i)]);
+                    edge_map.insert(key, vec![(idx, opposite)]);
                 }
             }
         }
-- 
2.43.0


From fe0354f62c20c1e4e84b75085d8b0388423ca3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:42 +0000
Subject: [PATCH 19/22] fix: tetrahedralize panicked on a point given more than
 once and on no points

---
 src/triangle/tetrahedron.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 6604b62..0ade50e 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1099,6 +1099,9 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
 }
 
 pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
+    if points.is_empty() {
+        return TetMesh::new(points);
+    }
     let cmp = |x: &&f64, y: &&f64| x.partial_cmp(y).unwrap();
     let bbox = [
         // min_corner
@@ -1189,9 +1192,8 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
     );
     for i in 4..mesh.n_points {
         bump.reset();
-        if !insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump) {
-            break;
-        }
+        // a point given more than once is inserted only once
+        insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump);
     }
 
     let mut count = 0;
@@ -1215,6 +1217,9 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
 
     // make p2t[i] not be a ghost
     for i in 0..mesh.n_points {
+        if mesh.p2t[i] == INVALID_IND {
+            continue;
+        }
         mesh.p2t[i] = tet_map[mesh.p2t[i]];
         if mesh.is_hull_tet(mesh.p2t[i]) {
             mesh.p2t[i] = mesh.tets[mesh.p2t[i]].nei[3].tet;
-- 
2.43.0


From 9cf03cd3e8e7d872777bc8a790365fad8fcf2654 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 05:27:03 +0000
Subject: [PATCH 20/22] fix: exact coordinates of implicit points were scaled
 where their tails underflow

The exact homogeneous coordinates of an intersection point are scaled to a
largest exponent of zero, so that the tails of products of four or six of
them fall below the smallest double: three points on one line, or four on one
plane, were given a sign although their coordinates were ordinary doubles.
Scale to the middle of the range instead.
---
 src/predicates/generic_point.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/predicates/generic_point.rs b/src/predicates/generic_point.rs
index 3b1d565..f850939 100644
--- a/src/predicates/generic_point.rs
+++ b/src/predicates/generic_point.rs
@@ -37,7 +37,8 @@ fn normalize_lambda3d(x: &mut [f64], y: &mut [f64], z: &mut [f64], d: &mut [f64]
         .map(|arr| estimate(arr))
         .max_by(|x, y| x.abs().total_cmp(&y.abs()))
         .unwrap();
-    let e = get_exponent(max_val);
+    // products of six of these and all their tails have to fit into the range of doubles
+    let e = (get_exponent(max_val) - 165).max(-1023);
     if e != 0 {
         let s = 2.0f64.powi(-e);
         for arr in data {
-- 
2.43.0


From 824936957f801cd53a49926194ed803dee6d6df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:03 +0000
Subject: [PATCH 21/22] fix: merged faces damaged by rounding made the
 triangulation panic, hang or leave gaps

The merged faces are triangulated in rounded coordinates, where vertices may
coincide and edges cross although they are apart in exact coordinates. The
triangulation then panicked, did not return or did not reach the outline.
Check the outline and the result, and keep the unmerged faces instead.
---
 src/polygonlization/bsp_complex.rs | 105 ++++++++++++++++++++++++++++-
 1 file changed, 104 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index c4de74e..70ce566 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -771,7 +771,7 @@ impl BSPComplex {
         let mut v_old_to_new = vec![INVALID_IND; self.vertex_data.len()];
         let mut loop_vert_indices = vec![INVALID_IND; self.vertex_data.len()];
 
-        for (face_verts, axis) in self.merge_faces(kept_faces) {
+        for (face_verts, axis) in self.merge_faces(kept_faces.clone()) {
             bump.reset();
             let n_faces_verts = face_verts.iter().flatten().count();
             let mut points_2d = Vec::with_capacity_in(n_faces_verts << 1, &bump);
@@ -836,12 +836,51 @@ impl BSPComplex {
                 }
             }
 
+            // rounding may have damaged the outline
+            if !is_simple(&points_2d, &segments, &bump) {
+                return self.unmerged_faces(&kept_faces, &explicit_points);
+            }
             let face_triangles = triangulate(&points_2d, &segments, &bump);
+            if !is_boundary(&face_triangles, &segments) {
+                return self.unmerged_faces(&kept_faces, &explicit_points);
+            }
             triangles.extend(face_triangles.into_iter().map(|idx| face_new_verts[idx]));
         }
         (out_points, triangles)
     }
 
+    /// The kept faces as they are, each cut into a fan.
+    fn unmerged_faces(
+        &self,
+        kept_faces: &[i32],
+        explicit_points: &[f64],
+    ) -> (Vec<f64>, Vec<usize>) {
+        let mut out_points = Vec::new();
+        let mut triangles = Vec::new();
+        let mut v_old_to_new = vec![INVALID_IND; self.vertex_data.len()];
+        for face in self.mesh.faces() {
+            let sign = kept_faces[*face];
+            if sign == 0 {
+                continue;
+            }
+            let mut verts = Vec::from_iter(face.halfedges().map(|he| {
+                let vid = *he.from();
+                if v_old_to_new[vid] == INVALID_IND {
+                    v_old_to_new[vid] = out_points.len() / 3;
+                    out_points.extend(point(explicit_points, vid.0));
+                }
+                v_old_to_new[vid]
+            }));
+            if sign < 0 {
+                verts.reverse();
+            }
+            for pair in verts[1..].windows(2) {
+                triangles.extend([verts[0], pair[0], pair[1]]);
+            }
+        }
+        (out_points, triangles)
+    }
+
     fn merge_faces(&self, kept_faces: Vec<i32>) -> Vec<(Vec<Vec<VertexId>>, usize)> {
         let mut edge_faces = vec![Vec::new(); self.edge_data.len()];
         let mut f_old_to_new = vec![INVALID_IND; self.face_data.len()];
@@ -2010,3 +2049,67 @@ fn poly_area(points: &[f64], poly: &[usize]) -> f64 {
         })
         .sum::<f64>()
 }
+
+/// Whether the segments of a polygon meet only where they share a point.
+fn is_simple<A: Allocator + Copy>(points: &[f64], segments: &[usize], bump: A) -> bool {
+    let p = |idx: usize| &points[(idx << 1)..((idx << 1) + 2)];
+    let apart = |ab: &[usize], cd: &[usize]| {
+        (0..2).any(|i| {
+            let [a, b, c, d] = [p(ab[0])[i], p(ab[1])[i], p(cd[0])[i], p(cd[1])[i]];
+            a.max(b) < c.min(d) || c.max(d) < a.min(b)
+        })
+    };
+    let side = |ab: &[usize], c: usize| {
+        double_to_sign(crate::predicates::orient2d(p(ab[0]), p(ab[1]), p(c), bump))
+    };
+    // the segments have no point in common
+    let separated = |ab: &[usize], cd: &[usize]| {
+        let sides = [
+            [side(ab, cd[0]), side(ab, cd[1])],
+            [side(cd, ab[0]), side(cd, ab[1])],
+        ];
+        sides
+            .iter()
+            .any(|s| s[0] == s[1] && s[0] != Orientation::Zero)
+    };
+    for (i, ab) in segments.chunks(2).enumerate() {
+        if p(ab[0]) == p(ab[1]) {
+            return false;
+        }
+        for cd in segments[..(i << 1)].chunks(2) {
+            if apart(ab, cd) {
+                continue;
+            }
+            let common = ab.iter().find(|v| cd.contains(v));
+            let meet = if let Some(&v) = common {
+                // they share a point and must leave it in different directions
+                let other = |s: &[usize]| if s[0] == v { s[1] } else { s[0] };
+                let (a, c) = (other(ab), other(cd));
+                side(ab, c) == Orientation::Zero
+                    && (0..2).any(|i| (p(a)[i] - p(v)[i]) * (p(c)[i] - p(v)[i]) > 0.0)
+            } else {
+                !separated(ab, cd)
+            };
+            if meet {
+                return false;
+            }
+        }
+    }
+    true
+}
+
+/// Whether the triangles are bounded by the segments.
+fn is_boundary(triangles: &[usize], segments: &[usize]) -> bool {
+    let mut counts = HashMap::new();
+    for tri in triangles.chunks(3) {
+        for (&a, &b) in tri.iter().circular_tuple_windows() {
+            *counts.entry((a, b)).or_insert(0) += 1;
+            *counts.entry((b, a)).or_insert(0) -= 1;
+        }
+    }
+    for ab in segments.chunks(2) {
+        *counts.entry((ab[0], ab[1])).or_insert(0) -= 1;
+        *counts.entry((ab[1], ab[0])).or_insert(0) += 1;
+    }
+    counts.into_values().all(|count| count == 0)
+}
-- 
2.43.0


From 96069797ff168d1803032e0881d70b23a159a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:56 +0000
Subject: [PATCH 22/22] fix: triangulating points on one line with segments
 panicked

---
 src/triangle/triangle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 7b786c2..ae19eb2 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -44,6 +44,10 @@ pub fn triangulate<A: Allocator + Copy>(
     );
 
     let mut ghost = mark_ghost(&mesh.triangles, &mut hull_left, bump);
+    if ghost.iter().all(|&is_ghost| is_ghost) {
+        // all points lie on one line: there is no triangle to insert a segment into
+        return Vec::new_in(bump);
+    }
     form_skeleton(&mut mesh, &ghost, segments, bump);
     let mut visited = std::vec::from_elem_in(false, mesh.triangles.len(), bump);
     for i in 0..visited.len() {
-- 
2.43.0

