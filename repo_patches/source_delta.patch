From 87eaf16ae4d6935a27c9c2d8f63684c26b692bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 1/7] fix: Euclidean distance of side-by-side rectangles is the
 positive gap, not the negative one

---
 src/geom/euclidean/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index d395e7c..aa2e668 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -13,10 +13,10 @@ where
     match (overlap_x, overlap_y) {
         // If there is any overlap, then the distance is zero
         (true, true) => T::zero(),
-        // When x overlaps, distance is the smallest y-difference,
-        // and similarly for y-overlaps
-        (true, false) => (r1.min().y - r2.max().y).min(r2.min().y - r1.max().y),
-        (false, true) => (r1.min().x - r2.max().x).min(r2.min().x - r1.max().x),
+        // When x overlaps, distance is the y-gap, and similarly for y-overlaps.
+        // Only one of the two differences is positive, and that one is the gap.
+        (true, false) => (r1.min().y - r2.max().y).max(r2.min().y - r1.max().y),
+        (false, true) => (r1.min().x - r2.max().x).max(r2.min().x - r1.max().x),
         // When neither overlaps, take the distance from closest corners
         (false, false) => {
             let (x1, x2) = if r1.max().x < r2.min().x {
-- 
2.43.0


From fea1127a8e2bde51752fe941ccb2f7ee725f80cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 2/7] fix: find_r keeps cells at exactly the search radius, so
 a datum at distance r is found

---
 src/quadtrees/bounds/mod.rs | 2 +-
 src/quadtrees/point/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index 699e9ef..ad02e27 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -148,7 +148,7 @@ where
             // No need to check the children if the bounds are too far,
             // checking bounds is cheaper then checking each child
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
diff --git a/src/quadtrees/point/mod.rs b/src/quadtrees/point/mod.rs
index 79f7c7a..2e92591 100644
--- a/src/quadtrees/point/mod.rs
+++ b/src/quadtrees/point/mod.rs
@@ -180,7 +180,7 @@ where
             // processed - skip processing if the edge of the node is further
             // than the current
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
-- 
2.43.0


From bc8b1a4014ab5b1937a22ddbea9a468fa6cca454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 3/7] fix: knn with k = 0 returns no data instead of one datum

---
 src/quadtrees/knn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quadtrees/knn.rs b/src/quadtrees/knn.rs
index c221608..36ff56b 100644
--- a/src/quadtrees/knn.rs
+++ b/src/quadtrees/knn.rs
@@ -26,6 +26,11 @@ where
         return Err(Error::OutOfBounds);
     }
 
+    // The loop below only checks the count after pushing a result
+    if k == 0 {
+        return Ok(vec![]);
+    }
+
     // We work on a tuple that contains the distance plus an enum
     // containing either a child or a node, and start by seeding the root
     let mut work_stack = vec![(NodeType::Node(root), root_d)];
-- 
2.43.0


From 3437d5786c28e59b5e3d9fc32e1dc7f7cda507ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 4/7] fix: spherical distance from a line string to a point is
 computed, as from a point to a line string

---
 src/geom/spherical/dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/spherical/dist.rs b/src/geom/spherical/dist.rs
index 77d7399..86bcdb3 100644
--- a/src/geom/spherical/dist.rs
+++ b/src/geom/spherical/dist.rs
@@ -70,7 +70,7 @@ where
 {
     fn dist_haversine(&self, rhs: &GeometryRef<T>) -> Result<T, Error> {
         match rhs {
-            GeometryRef::Point(_) => Err(Error::InvalidDistance),
+            GeometryRef::Point(d) => Ok(dist_pt_linestring(d, self)),
             GeometryRef::Line(_) => Err(Error::InvalidDistance),
             GeometryRef::LineString(_) => Err(Error::InvalidDistance),
             GeometryRef::Polygon(_) => Err(Error::InvalidDistance),
-- 
2.43.0


From 911f241024cc12af0b0619bffda7bec75b791739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 5/7] fix: spherical point-rectangle distance is the least
 great-circle distance, not that of a planar projection

---
 src/geom/spherical/math.rs | 55 ++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 47b36b1..687e947 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -1,4 +1,4 @@
-use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect, coord};
+use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect};
 use std::f64::consts::PI;
 use std::ops::{Add, Sub};
 
@@ -11,13 +11,6 @@ macro_rules! p {
     };
 }
 
-/// Helper macro to make a line
-macro_rules! l {
-    ($x1:expr, $y1:expr, $x2:expr, $y2:expr) => {
-        Line::new(coord!(x: $x1, y: $y1), coord!(x: $x2, y: $y2))
-    };
-}
-
 /// Internal struct for ensuring Lng wrapping math works correctly.
 #[derive(Debug, Clone, Copy)]
 struct Lng<T>(T)
@@ -181,25 +174,35 @@ where
         return T::zero();
     }
 
-    // Take the "left" edge whenever the point is to the left of the rect and
-    // the right edge whenever its to the right of the rect. This works even
-    // when diagonal to these edges as in these cases the closest point is the
-    // corner, which is shared with the other candidate line.
-    let line = if x < rect.min().x {
-        // smallest x-value
-        l!(rect.min().x, rect.min().y, rect.min().x, rect.max().y)
-    } else if x > rect.max().x {
-        // largest x-value
-        l!(rect.max().x, rect.min().y, rect.max().x, rect.max().y)
-    } else if y < rect.min().y {
-        // smallest y-value
-        l!(rect.min().x, rect.min().y, rect.max().x, rect.min().y)
-    } else {
-        // largest y-value as final case
-        l!(rect.min().x, rect.max().y, rect.max().x, rect.max().y)
-    };
+    // When the rect spans the point's lng, the closest point lies on the same
+    // meridian, and latitude math maps directly to radians
+    if x >= rect.min().x && x <= rect.max().x {
+        return if y < rect.min().y {
+            rect.min().y - y
+        } else {
+            y - rect.max().y
+        };
+    }
+
+    // Otherwise the closest point lies on one of the two meridian edges. It is
+    // either one of the corners or, because great circles bulge towards the
+    // poles, the foot of the great circle perpendicular to the meridian. Both
+    // edges are candidates as the shorter way may cross the antimeridian.
+    let (y_min, y_max) = (rect.min().y, rect.max().y);
+    let mut min_dist = T::infinity();
+
+    for edge_x in [rect.min().x, rect.max().x] {
+        let foot = y.sin().atan2(y.cos() * (edge_x - x).cos());
 
-    dist_pt_line(pt, &line)
+        for edge_y in [y_min, y_max, foot.max(y_min).min(y_max)] {
+            let d = dist_pt_pt(pt, &p!(edge_x, edge_y));
+            if d < min_dist {
+                min_dist = d;
+            }
+        }
+    }
+
+    min_dist
 }
 
 // Calculate Spherical bounds distances.
-- 
2.43.0


From 8fa8f0424a29f1e4e86b5a0607fa6369a6924657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 6/7] fix: spherical distance of near-antipodal points is not
 NaN

---
 src/geom/spherical/math.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 687e947..2813d73 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -88,6 +88,10 @@ where
     let a = (delta_theta / two).sin().powi(2)
         + theta1.cos() * theta2.cos() * (delta_lambda / two).sin().powi(2);
 
+    // Rounding can push the haversine of near-antipodal points past one, where
+    // asin is not defined
+    let a = if a > T::one() { T::one() } else { a };
+
     two * a.sqrt().asin()
 }
 
-- 
2.43.0


From 11adbfcde3f9b0e56de79e878caff18d8d1fa334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 7/7] fix: euclidean distances without a segment to measure are
 errors, not panics

---
 src/geom/mod.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index a3a4210..440fabd 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -61,7 +61,10 @@ where
     pub fn dist_geom(&self, geom: &GeometryRef<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
-            CalcMethod::Euclidean => Ok(self.geom.dist_euclidean(geom)),
+            CalcMethod::Euclidean => {
+                check_segments(&self.geom, geom)?;
+                Ok(self.geom.dist_euclidean(geom))
+            }
             CalcMethod::Spherical => self.geom.dist_haversine(geom),
         }
     }
@@ -71,12 +74,37 @@ where
     pub fn dist_bbox(&self, bbox: &Rect<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
-            CalcMethod::Euclidean => Ok(bbox.dist_euclidean(&self.geom)),
+            CalcMethod::Euclidean => {
+                check_segments(&GeometryRef::Rect(bbox), &self.geom)?;
+                Ok(bbox.dist_euclidean(&self.geom))
+            }
             CalcMethod::Spherical => bbox.dist_haversine(&self.geom),
         }
     }
 }
 
+/// The euclidean distance between two line strings, polygons or rectangles is measured from segment
+/// to segment, and panics when a line string or ring has none, so those are errors instead.
+fn check_segments<T>(a: &GeometryRef<T>, b: &GeometryRef<T>) -> Result<(), Error>
+where
+    T: QtFloat,
+{
+    let has_segments = |geom: &GeometryRef<T>| match geom {
+        GeometryRef::Point(_) | GeometryRef::Line(_) => None,
+        GeometryRef::LineString(l) => Some(l.0.len() > 1),
+        GeometryRef::Polygon(p) => {
+            let holes = p.interiors().iter().all(|r| r.0.len() > 1);
+            Some(holes && p.exterior().0.len() > 1)
+        }
+        GeometryRef::Rect(_) => Some(true),
+    };
+
+    match (has_segments(a), has_segments(b)) {
+        (Some(a), Some(b)) if !(a && b) => Err(Error::InvalidDistance),
+        _ => Ok(()),
+    }
+}
+
 /// The main constraint for QuadTree input data. Both inserted items and test comparators must
 /// implement [`AsGeom`] to be used in any [`QuadTree`] implementation. It provides a methos that
 /// converts an arbitrary geometry, or any custom type containing some form of geometry into a
-- 
2.43.0

