From 38791942f9d3c915d790bda94fab7c8e5cc38b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:51 +0000
Subject: [PATCH 01/12] fix: keep polyline projection on the nearest segment

The offset along the nearest segment was not limited to the segment, so a
point beyond a corner was projected onto the following segment, and a
repeated vertex gave NaN.
---
 src/curve/polyline.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index a244777..b6cce36 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -69,9 +69,19 @@ impl Curve for Polyline {
             }
         }
 
-        let length = self.segment_lengths.iter().take(min_index).sum::<Float>()
-            + (point - self.vertices[min_index])
-                .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize());
+        if self.length == 0.0 {
+            return 0.0;
+        }
+        // the nearest point may be an end of the segment: stay on the segment
+        let segment = self.vertices[min_index + 1] - self.vertices[min_index];
+        let segment_length = self.segment_lengths[min_index];
+        let offset = if segment_length > 0.0 {
+            ((point - self.vertices[min_index]).dot(segment) / segment_length)
+                .clamp(0.0, segment_length)
+        } else {
+            0.0
+        };
+        let length = self.segment_lengths.iter().take(min_index).sum::<Float>() + offset;
         (length / self.length).clamp(0.0, 1.0)
     }
 }
-- 
2.43.0


From a4ebc6c1ab33ad0920ecca049bd68021ea7d9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:23 +0000
Subject: [PATCH 02/12] fix: polyline evaluation just below the end and of zero
 length

Rounding of the running length could exceed the last segment and reach
unreachable!(); a polyline of zero length evaluated to NaN.
---
 src/curve/polyline.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index b6cce36..3f678c5 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -48,12 +48,13 @@ impl Curve for Polyline {
             for (index, &segment_length) in self.segment_lengths.iter().enumerate() {
                 if length > segment_length {
                     length -= segment_length;
-                } else {
+                } else if segment_length > 0.0 {
                     return self.vertices[index]
                         .lerp(self.vertices[index + 1], length / segment_length);
                 }
             }
-            unreachable!()
+            // the remaining length can exceed the last segment by rounding
+            self.end()
         }
     }
 
-- 
2.43.0


From 9bb349aed62afa6f8cd4d3596321faa4fcef85a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:10 +0000
Subject: [PATCH 03/12] fix: stop surface projection at a singular system

---
 src/surface/bspline.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 5717765..1cd5da3 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -157,6 +157,10 @@ impl BSplineSurface<Point3> {
                     let j = Mat2::from_cols_array(&[fu, gu, fv, gv]);
                     let k = Vec2::new(-r.dot(su), -r.dot(sv));
                     let delta = j.inverse() * k;
+                    if !delta.is_finite() {
+                        // singular system, no further step is possible
+                        break;
+                    }
                     u = utils::clamp_in_range(u + delta.x, u_range);
                     v = utils::clamp_in_range(v + delta.y, v_range);
                 }
-- 
2.43.0


From dbaa82f201f7456753bca6737ef717e019cfe9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:14 +0000
Subject: [PATCH 04/12] fix: closed circular edges cover the full circle

---
 src/curve/circle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/circle.rs b/src/curve/circle.rs
index 216d839..29dc47b 100644
--- a/src/curve/circle.rs
+++ b/src/curve/circle.rs
@@ -31,10 +31,10 @@ impl Curve for Circle {
     // The sense of a curve is in the direction of increasing parameter
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
         let (a0, a1) = range;
-        if same_sense && a0 > a1 {
+        if same_sense && a0 >= a1 {
             return (a0, a1 + crate::consts::TAU);
         }
-        if !same_sense && a0 < a1 {
+        if !same_sense && a0 <= a1 {
             return (a0 + crate::consts::TAU, a1);
         }
         (a0, a1)
-- 
2.43.0


From 298b1bcf3c5a7e6b567e82eca702d8bdbcae2320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:51 +0000
Subject: [PATCH 05/12] fix: boxed surfaces return the normals of the surface
 they hold

---
 src/surface.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface.rs b/src/surface.rs
index e9c65b7..1f50a33 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -24,6 +24,10 @@ impl Surface for Box<dyn Surface> {
         self.as_ref().get_point(u, v)
     }
 
+    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
+        self.as_ref().get_normals(params)
+    }
+
     fn trim(&self, bounds: &[EdgeLoop]) -> TriangleMesh {
         self.as_ref().trim(bounds)
     }
-- 
2.43.0


From 3451fc8445ed9455b4394dcdf8a871f3490d4989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:39 +0000
Subject: [PATCH 06/12] fix: edge loop polygons drop every closing duplicate
 and may be empty

---
 src/surface.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/surface.rs b/src/surface.rs
index 1f50a33..29bb2ce 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -83,9 +83,10 @@ impl EdgeLoop {
             vertices.extend(edge.get_points());
         }
         vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));
-        if vertices[0]
-            .distance_squared(vertices[vertices.len() - 1])
-            .near(0.0)
+        while !vertices.is_empty()
+            && vertices[0]
+                .distance_squared(vertices[vertices.len() - 1])
+                .near(0.0)
         {
             vertices.pop();
         }
-- 
2.43.0


From f8ca2049c4f6f19ebf2ab418318d92dc0998436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:12 +0000
Subject: [PATCH 07/12] fix: point cloud writers write every byte or report an
 error

---
 src/points.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 77f3391..8db6a68 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -43,7 +43,7 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
 pub fn save_point_cloud<P: AsRef<Path>>(points: &[Point3], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
+        file.write_all(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
     }
     Ok(())
 }
@@ -54,7 +54,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 ) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for (point, normal) in points {
-        file.write(
+        file.write_all(
             format!(
                 "{} {} {} {} {} {}\n",
                 point.x, point.y, point.z, normal.x, normal.y, normal.z
@@ -68,7 +68,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 pub fn save_points<P: AsRef<Path>>(points: &[Point2], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{},{}\n", point.x, point.y).as_bytes())?;
+        file.write_all(format!("{},{}\n", point.x, point.y).as_bytes())?;
     }
     Ok(())
 }
-- 
2.43.0


From 3590b58fa06f1badc80177573c5d4cbe4e719b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:12 +0000
Subject: [PATCH 08/12] fix: STL export reports failed writes

---
 src/model.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index a75f71b..bc5c29a 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -33,33 +33,34 @@ impl<F: Face> Model<F> {
         let mut header = Vec::with_capacity(header_size);
         writeln!(header, "Binary STL file\nName: {:57}", name)?;
         header.truncate(header_size);
-        writer.write(&header)?;
+        writer.write_all(&header)?;
 
         let mut triangle_count: usize = 0;
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
 
         for face in &self.faces {
             let mesh = face.get_triangle_mesh();
             triangle_count += mesh.triangle_count();
             for triangle in mesh.triangles.chunks(3) {
                 // normal
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
                 // vertices
                 for index in triangle {
                     let point = &mesh.vertices[*index as usize];
-                    writer.write(&(point.x as f32).to_le_bytes())?;
-                    writer.write(&(point.y as f32).to_le_bytes())?;
-                    writer.write(&(point.z as f32).to_le_bytes())?;
+                    writer.write_all(&(point.x as f32).to_le_bytes())?;
+                    writer.write_all(&(point.y as f32).to_le_bytes())?;
+                    writer.write_all(&(point.z as f32).to_le_bytes())?;
                 }
                 // attribute byte count
-                writer.write(&[0u8, 0u8])?;
+                writer.write_all(&[0u8, 0u8])?;
             }
         }
         writer.seek(SeekFrom::Start(header_size as u64))?;
         dbg!(triangle_count);
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 75e8c72a66ad2d215aa9a97e61f9ffc90b118058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:55 +0000
Subject: [PATCH 09/12] fix: forget a concave point that ear clipping drops as
 colinear

---
 src/utils/polygon.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 16d916d..9ba747a 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -108,6 +108,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((m + i - 1).rem_euclid(m));
                             }
                             _ => {}
@@ -120,6 +121,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((i + 1).rem_euclid(m));
                             }
                             _ => {}
-- 
2.43.0


From b87b5359b1ddb2acd596168e2a46347e39ad9a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:55 +0000
Subject: [PATCH 10/12] fix: ear clipping of a polygon without corners returns
 no triangles

---
 src/utils/polygon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 9ba747a..2749345 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -69,7 +69,7 @@ pub fn trianglate_polygon(
     mut concave_points: Vec<usize>,
 ) -> Vec<u32> {
     let n = vertices.len();
-    let mut triangles = Vec::with_capacity((n - 2) * 3);
+    let mut triangles = Vec::with_capacity(n.saturating_sub(2) * 3);
     let mut prev_m = usize::MAX;
 
     loop {
-- 
2.43.0


From 8a28aa01a9b90bb1cc7e255a1501a0ba13c855b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:55 +0000
Subject: [PATCH 11/12] fix: ear clipping judges each corner of a ring with
 bridges by its own turn

---
 src/utils/polygon.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 2749345..6f66c6d 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -90,7 +90,7 @@ pub fn trianglate_polygon(
         let mut i = 0;
         while i < m {
             let curr = vertices[i];
-            if concave_points.binary_search(&curr).is_err() {
+            if m > 2 {
                 let prev = vertices[(m + i - 1).rem_euclid(m)];
                 let next = vertices[(i + 1).rem_euclid(m)];
                 if is_ear(points, &concave_points, prev, curr, next) {
@@ -101,8 +101,8 @@ pub fn trianglate_polygon(
                     let mut to_delete = vec![i];
 
                     // update concave_points
-                    if let Ok(j) = concave_points.binary_search(&prev) {
-                        let prev_prev = vertices[(m + i - 2).rem_euclid(m)];
+                    let prev_prev = vertices[(m + i - 2).rem_euclid(m)];
+                    if let Some(j) = find_concave(points, &concave_points, prev_prev, prev, curr) {
                         match compute_convexity(points[prev_prev], points[prev], points[next]) {
                             Convexity::Convex => {
                                 concave_points.remove(j);
@@ -114,8 +114,8 @@ pub fn trianglate_polygon(
                             _ => {}
                         }
                     }
-                    if let Ok(j) = concave_points.binary_search(&next) {
-                        let next_next = vertices[(i + 2).rem_euclid(m)];
+                    let next_next = vertices[(i + 2).rem_euclid(m)];
+                    if let Some(j) = find_concave(points, &concave_points, curr, next, next_next) {
                         match compute_convexity(points[prev], points[next], points[next_next]) {
                             Convexity::Convex => {
                                 concave_points.remove(j);
@@ -175,8 +175,13 @@ fn is_ear(
     curr: usize,
     next: usize,
 ) -> bool {
+    // a ring with bridges visits a vertex twice, so being listed as concave does not tell
+    match compute_convexity(points[prev], points[curr], points[next]) {
+        Convexity::Convex => {}
+        _ => return false,
+    }
     for &other in concave_points {
-        if other != prev && other != next {
+        if other != prev && other != curr && other != next {
             if is_inside_triangle(points[prev], points[curr], points[next], points[other]) {
                 return false;
             }
@@ -185,6 +190,20 @@ fn is_ear(
     return true;
 }
 
+// position of the corner in concave_points, if it is concave
+fn find_concave(
+    points: &[Point2],
+    concave_points: &[usize],
+    prev: usize,
+    curr: usize,
+    next: usize,
+) -> Option<usize> {
+    match compute_convexity(points[prev], points[curr], points[next]) {
+        Convexity::Concave => concave_points.binary_search(&curr).ok(),
+        _ => None,
+    }
+}
+
 pub fn merge_polygons(points: &[Point2], polygons: &[usize]) -> VecDeque<usize> {
     // find points with maximum x
     let mut sorted_polygons = Vec::with_capacity(polygons.len());
-- 
2.43.0


From 0bd18c6c66165d7151cc97244362ed1abcf67c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:22 +0000
Subject: [PATCH 12/12] fix: inserting a knot into an unclamped B-spline no
 longer underflows

---
 src/curve/bspline.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 5dced54..90626d7 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -55,8 +55,12 @@ impl BSplineCurve<Point3> {
             for i in (start..end).rev() {
                 let delta = self.knots[i + p + 1] - self.knots[i];
                 let a = (knot - self.knots[i]) * utils::inv_or_zero(delta);
-                self.control_points[i] =
-                    self.control_points[i - 1] * (1.0 - a) + self.control_points[i] * a;
+                let previous = if i > 0 {
+                    self.control_points[i - 1]
+                } else {
+                    Point3::ZERO
+                };
+                self.control_points[i] = previous * (1.0 - a) + self.control_points[i] * a;
             }
         }
     }
-- 
2.43.0

