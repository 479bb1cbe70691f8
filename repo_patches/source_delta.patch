From 5606a82034b45f9aa62316ddd9e3a0840e58b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 01/22] fix: treat negative zero direction components as
 negative when caching ray signs

1/-0.0 is -inf, so the slab test has to swap the box corners for it; comparing
with 0.0 did not, and such a ray missed every box.
---
 src/ray.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ray.rs b/src/ray.rs
index 5e7defd..27d0d4a 100644
--- a/src/ray.rs
+++ b/src/ray.rs
@@ -18,9 +18,9 @@ pub struct Ray {
 impl From<(Vec3, Vec3)> for Ray {
     fn from(vectors: (Vec3, Vec3)) -> Self {
         let signs = [
-            (vectors.1.x < 0.0) as u8,
-            (vectors.1.y < 0.0) as u8,
-            (vectors.1.z < 0.0) as u8,
+            vectors.1.x.is_sign_negative() as u8,
+            vectors.1.y.is_sign_negative() as u8,
+            vectors.1.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -131,9 +131,9 @@ impl RayPacket4 {
         );
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -165,9 +165,9 @@ impl Ray {
 
     pub fn new(origin: Vec3, direction: Vec3) -> Ray {
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -187,9 +187,9 @@ impl Ray {
         let direction = self.direction - tmp;
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
-- 
2.43.0


From 882170c6aa8d520a191a8d4e50ba77b2fd9b2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 02/22] fix: let packets hit flat boxes

A box without extent along an axis is entered and left at the same distance; the
packet tests used a strict comparison and rejected it, unlike the single-ray tests.
---
 src/aabb.rs      | 2 +-
 src/mbvh_node.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aabb.rs b/src/aabb.rs
index 7635d2f..276bc12 100644
--- a/src/aabb.rs
+++ b/src/aabb.rs
@@ -235,7 +235,7 @@ impl<E: Debug + Copy> Aabb<E> {
         let t_min = t_min_x.max(t_min_y.max(t_min_z));
         let t_max = t_max_x.min(t_max_y.min(t_max_z));
 
-        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpgt(t_min) & t_min.cmplt(packet.t);
+        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpge(t_min) & t_min.cmplt(packet.t);
         if mask.any() {
             Some(t_min.into())
         } else {
diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index b4b3713..d4064f4 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -274,7 +274,7 @@ impl MbvhNode {
             let t_min: Vec4 = t_min.max(t1.min(t2));
             let t_max: Vec4 = t_max.min(t1.max(t2));
 
-            let greater_than_min = t_max.cmpgt(t_min);
+            let greater_than_min = t_max.cmpge(t_min);
             let less_than_t = t_min.cmplt(Vec4::splat(packet.t[i]));
             result |= greater_than_min & less_than_t;
 
-- 
2.43.0


From 92e52df9208416bb1df5f057a755f3f5e246701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 03/22] fix: keep child and primitive references when refitting

Refitting overwrote the whole bounds including the count and first-index fields
stored in it, which left every node an empty leaf.
---
 src/bvh.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bvh.rs b/src/bvh.rs
index 5ff07ae..707e5ca 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -177,6 +177,9 @@ impl Bvh {
         for i in (0..self.nodes.len()).rev() {
             // Create new aabb
             let mut aabb = Aabb::new();
+            // Keep the child/primitive references that are stored alongside the bounds
+            aabb.extra1 = self.nodes[i].bounds.extra1;
+            aabb.extra2 = self.nodes[i].bounds.extra2;
 
             // Check if node is valid
             if let Some(left_first) = self.nodes[i].get_left_first() {
-- 
2.43.0


From a4922a15d47b719b53f7946b83bcb10c5337a29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 04/22] fix: interpolate along the edge when splitting a
 triangle

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index b27d21f..5719260 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -90,7 +90,7 @@ pub trait SpatialTriangle {
 
         let split_edge = |a: Vec3, b: Vec3| -> Vec3 {
             let t = (Vec3::splat(position) - Vec3::splat(a[axis])) / Vec3::splat(b[axis] - a[axis]);
-            a * t * (b - a)
+            a + t * (b - a)
         };
 
         let q0 = p[0][axis] <= position;
-- 
2.43.0


From fbb2f643cac8b30d29772c48c7c64ad51ac764a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 05/22] fix: hand the moved references to the right child of a
 spatial split

The right references are moved back to leave split space for the left child, but
the right work item kept the old range and the left one got no space, so
primitives were dropped from the tree.
---
 src/builders/spatial_sah.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 5719260..558fc9c 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -392,7 +392,8 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             0
         } else {
             (remaining_split_count as f32 * (left_cost / (left_cost + right_cost))) as usize
-        };
+        }
+        .min(remaining_split_count);
 
         // Move references of the right child to end of the list to leave some split space for the left one
         if left_split_count > 0 {
@@ -422,6 +423,9 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
         }
 
         let left_end = right_begin;
+        // The references of the right child now start after the split space of the left child
+        let right_begin = right_begin + left_split_count;
+        let right_end = right_end + left_split_count;
 
         let left_item = WorkItem::new(
             new_nodes.left,
-- 
2.43.0


From 543af3bb5a48fb3f8e470697ebbf2a1df911de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 06/22] fix: offset the fallback split position by the start of
 the work item

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 558fc9c..c5f787c 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -651,7 +651,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             // references are on a single side. This code block splits the number of primitives
             // equally to either side to prevent every primitive going to one side.
             if left_count > 0 {
-                left_end = left_count / 2;
+                left_end = self.work_item.begin + left_count / 2;
             } else {
                 left_end += right_count / 2;
             }
-- 
2.43.0


From c01aff8612eeb4fc155adddee95d7d1838e80db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 07/22] fix: sort references with a total order

Treating centers closer than 1e-4 as equal is not transitive; the standard
library's sort may panic on such an order.
---
 src/builders/spatial_sah.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index c5f787c..765e2bd 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -320,13 +320,9 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
                     let a_center = a.center[axis];
                     let b_center = b.center[axis];
 
-                    if a_center < b_center {
-                        std::cmp::Ordering::Less
-                    } else if (a_center - b_center).abs() < 0.0001 {
-                        std::cmp::Ordering::Equal
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
+                    a_center
+                        .partial_cmp(&b_center)
+                        .unwrap_or(std::cmp::Ordering::Equal)
                 });
             }
         }
-- 
2.43.0


From 0269dc07bc085c596c191092137be5ecd4ffdb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 08/22] fix: pad the leaf bounds of spatial builds like the
 other builders do

Leaf boxes that meet exactly in a split plane let axis-parallel rays in that
plane slip through.
---
 src/builders/spatial_sah.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 765e2bd..a0507da 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -731,6 +731,8 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> Task for SpatialSahBuildTask<'a, T
         let references = self.references.clone();
 
         let make_leaf = |node: &mut BvhNode, begin: usize, end: usize| {
+            // Offset by a small epsilon to make sure the bounds encapsulate all of the geometry
+            node.bounds.offset_by(0.0001);
             let prim_count = end - begin;
             let first_prim = reference_count.fetch_add(prim_count, SeqCst);
 
-- 
2.43.0


From 9cc43bb0639379d0b5451db0fddc5d8c58468ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 09/22] fix: use the median split position for the left box as
 well

With the median fallback the left box was still taken from the bins of the
rejected split, so it did not enclose the primitives that went left.
---
 src/builders/binned_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index 3bf88c3..c1e6c54 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -230,7 +230,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
             let mut right_box = Aabb::empty();
 
             let bins = &self.bins_per_axis[best_axis];
-            for bin in bins[0..(best_splits[best_axis].count as usize)].iter() {
+            for bin in bins[0..split_index].iter() {
                 left_box.grow_bb(&bin.aabb);
             }
 
-- 
2.43.0


From 437329b95545d70d5fe4b2cb526068bd72180f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 10/22] fix: honour the maximum leaf size when centers fall
 into one bin

A node whose primitives all fall on one side of the split became a leaf of any
size; split its primitives evenly instead.
---
 src/builders/binned_sah.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index c1e6c54..c03f22c 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -210,7 +210,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
         }
 
         let primitives = self.builder.primitives;
-        let begin_right = self.begin
+        let mut begin_right = self.begin
             + partition(self.prim_indices, 0..(self.end - self.begin), |i| {
                 let i = *i;
                 let center = primitives[i as usize].center();
@@ -218,6 +218,12 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
                     < split_index
             });
 
+        // The centers cannot be separated by bins, split evenly if this node is too large for a leaf
+        let separated = begin_right > self.begin && begin_right < self.end;
+        if !separated && self.work_size() > self.builder.max_leaf_size {
+            begin_right = (self.begin + self.end) / 2;
+        }
+
         // Check if the split does not leave one side empty
         if begin_right > self.begin && begin_right < self.end {
             // Allocate two nodes
@@ -238,6 +244,18 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
                 right_box.grow_bb(&bin.aabb);
             }
 
+            if !separated {
+                left_box = Aabb::empty();
+                right_box = Aabb::empty();
+                for (i, p_id) in self.prim_indices.iter().enumerate() {
+                    if i < begin_right - self.begin {
+                        left_box.grow_bb(&self.builder.aabbs[*p_id as usize]);
+                    } else {
+                        right_box.grow_bb(&self.builder.aabbs[*p_id as usize]);
+                    }
+                }
+            }
+
             // Retrieve references to new nodes
             let left_node = new_nodes.left_node;
             let right_node = new_nodes.right_node;
-- 
2.43.0


From 8a9424405a66afea10939b3abfdd23391c5fff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 11/22] fix: keep the order of primitives when computing their
 boxes

par_bridge does not preserve order, so with aabbs left out the boxes could be
assigned to the wrong primitives.
---
 src/bvh.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 707e5ca..3718a2a 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -76,8 +76,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
             Ok(SpatialSahBuilder::new(&aabbs, self.primitives, self.primitives_per_leaf).build())
@@ -101,8 +100,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
@@ -127,8 +125,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From adf5bd68de48e1e5e37e591644e85600034b2cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 12/22] fix: load quad node bounds without assuming 16-byte
 alignment

MbvhNode is only 4-byte aligned.
---
 src/mbvh_node.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index d4064f4..8f4dff3 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -84,12 +84,12 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -115,9 +115,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -140,9 +140,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
-- 
2.43.0


From cb1b898c170aebf0ed291f96b1a6f22ddb5b316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 13/22] fix: skip primitives missing from the slice during
 traversal

The BVH iterators restarted the leaf and never returned, the MBVH iterators
skipped the rest of the leaf.
---
 src/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index eda2d61..43cfa88 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -111,6 +111,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -226,6 +227,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut RayPacket4, &'b mut RayPacket4>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -339,6 +341,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                                     std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
@@ -453,6 +456,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                                     )
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
-- 
2.43.0


From aa5699ae4e92f329ce83505f9dd87f6ded66e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 14/22] fix: do not read the first quad node of an empty MBVH
 during traversal

---
 src/iter.rs         | 8 ++++++++
 src/iter_indices.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index 43cfa88..8005729 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -308,6 +308,10 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
     type Item = (&'a T, &'b mut Ray);
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.nodes.is_empty() {
+            return None;
+        }
+
         loop {
             let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
 
@@ -421,6 +425,10 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
     type Item = (&'a T, &'b mut RayPacket4);
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.nodes.is_empty() {
+            return None;
+        }
+
         loop {
             let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
 
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 9e603c7..2cd7935 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -265,6 +265,10 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
     type Item = (u32, &'a mut Ray);
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.nodes.is_empty() {
+            return None;
+        }
+
         loop {
             let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
 
@@ -368,6 +372,10 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
     type Item = (u32, &'a mut RayPacket4);
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.nodes.is_empty() {
+            return None;
+        }
+
         loop {
             let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
 
-- 
2.43.0


From 56e369b301c631c892191e5ee0292581b28e0c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 15/22] fix: let the traversal stack grow beyond 32 entries

The SAH builders go 64 levels deep and clustering has no limit; deeper trees made
BVH traversal panic and MBVH traversal write past the end of the stack.
---
 src/bvh_node.rs     |  6 +++---
 src/iter.rs         | 38 +++++++++++++++++---------------------
 src/iter_indices.rs | 38 +++++++++++++++++---------------------
 src/utils.rs        | 45 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 82 insertions(+), 45 deletions(-)

diff --git a/src/bvh_node.rs b/src/bvh_node.rs
index 6723328..8c76ecc 100644
--- a/src/bvh_node.rs
+++ b/src/bvh_node.rs
@@ -1,7 +1,7 @@
 use glam::*;
 use std::fmt::{Display, Formatter};
 
-use crate::{Aabb, Ray, RayPacket4};
+use crate::{utils::TraversalStack, Aabb, Ray, RayPacket4};
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -150,7 +150,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes(
         left: Option<f32>,
         right: Option<f32>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
@@ -180,7 +180,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes4(
         left: Option<[f32; 4]>,
         right: Option<[f32; 4]>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
diff --git a/src/iter.rs b/src/iter.rs
index 8005729..6e42a20 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,4 +1,4 @@
-use crate::*;
+use crate::{utils::TraversalStack, *};
 
 pub trait RayIterator<'a, 'b, T: 'a + Primitive>: Iterator<Item = (&'a T, &'b mut Ray)> {}
 pub trait PacketIterator<'a, 'b, T: 'a + Primitive>:
@@ -22,7 +22,7 @@ pub trait IntoPacketIterator<'a, 'b, T: 'a + Primitive> {
 pub struct BvhIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -46,7 +46,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -73,7 +73,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -93,7 +93,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -132,7 +132,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 pub struct BvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -159,7 +159,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -189,7 +189,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -209,7 +209,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -251,7 +251,7 @@ pub struct MbvhIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -273,7 +273,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -295,7 +295,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -350,9 +350,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -368,7 +366,7 @@ pub struct MbvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -390,7 +388,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -412,7 +410,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -469,9 +467,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 2cd7935..cb17354 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -1,4 +1,4 @@
-use crate::*;
+use crate::{utils::TraversalStack, *};
 
 pub trait RayIndexIterator<'a>: Iterator<Item = (u32, &'a mut Ray)> {}
 pub trait PacketIndexIterator<'a>: Iterator<Item = (u32, &'a mut RayPacket4)> {}
@@ -19,7 +19,7 @@ pub trait IntoPacketIndexIterator<'a> {
 pub struct BvhIndexIterator<'a> {
     ray: &'a mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -38,7 +38,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -55,7 +55,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -74,7 +74,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -110,7 +110,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 pub struct BvhPacketIndexIterator<'a> {
     ray: &'a mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -135,7 +135,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -158,7 +158,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -177,7 +177,7 @@ impl<'a> Iterator for BvhPacketIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -216,7 +216,7 @@ pub struct MbvhIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -237,7 +237,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -253,7 +253,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -305,9 +305,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -323,7 +321,7 @@ pub struct MbvhPacketIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -344,7 +342,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -360,7 +358,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -411,9 +409,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/utils.rs b/src/utils.rs
index 79f7c8f..b0e65ec 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -95,6 +95,51 @@ where
     count
 }
 
+/// Stack of node indices for traversal, only allocates for trees deeper than its inline storage.
+#[derive(Debug, Clone)]
+pub struct TraversalStack {
+    inline: [i32; 32],
+    spill: Vec<i32>,
+}
+
+impl TraversalStack {
+    #[inline(always)]
+    pub fn new() -> Self {
+        Self {
+            inline: [0; 32],
+            spill: Vec::new(),
+        }
+    }
+}
+
+impl Index<usize> for TraversalStack {
+    type Output = i32;
+
+    #[inline(always)]
+    fn index(&self, index: usize) -> &Self::Output {
+        if index < self.inline.len() {
+            &self.inline[index]
+        } else {
+            &self.spill[index - self.inline.len()]
+        }
+    }
+}
+
+impl IndexMut<usize> for TraversalStack {
+    #[inline(always)]
+    fn index_mut(&mut self, index: usize) -> &mut Self::Output {
+        if index < self.inline.len() {
+            &mut self.inline[index]
+        } else {
+            let index = index - self.inline.len();
+            if index >= self.spill.len() {
+                self.spill.resize(index + 1, 0);
+            }
+            &mut self.spill[index]
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct UnsafeSliceWrapper<'a, T: Sized> {
     ptr: *mut T,
-- 
2.43.0


From 212272194b4318a6be4209dbd844bde5295c1456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 16/22] fix: compute the triangle boxes of the C interface from
 the right vertices

aabb() multiplied the offset of the first vertex with the stride and divided by
four, reading other triangles' vertices or memory outside the buffer.
---
 rtbvh_ffi/src/lib.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 4a5d8df..e2f70dc 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -280,17 +280,9 @@ impl Primitive for RTTriangleWrapper {
 
     fn aabb(&self) -> Aabb {
         let mut aabb = Aabb::empty();
-        unsafe {
-            let ptr0 = self
-                .vertices
-                .add((self.vertex0_offset * self.vertex_stride / 4) as usize);
-            let ptr1 = ptr0.add((self.vertex_stride / 4) as usize);
-            let ptr2 = ptr0.add((self.vertex_stride / 4) as usize * 2);
-
-            aabb.grow(vec3(*ptr0, *ptr0.add(1), *ptr0.add(2)));
-            aabb.grow(vec3(*ptr1, *ptr1.add(1), *ptr1.add(2)));
-            aabb.grow(vec3(*ptr2, *ptr2.add(1), *ptr2.add(2)));
-        }
+        aabb.grow(self.vertex0());
+        aabb.grow(self.vertex1());
+        aabb.grow(self.vertex2());
 
         aabb
     }
-- 
2.43.0


From c440ddbf2cdeea14c3b4830708b9769ad7b6cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 17/22] fix: accept caller buffers with the alignment of their
 C types

Boxes were viewed as 16-byte aligned Aabb and packet distances written as a
16-byte aligned Vec4, although the C structs only promise 4 bytes; refit also
assumed one box per index instead of one per primitive.
---
 rtbvh_ffi/src/lib.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index e2f70dc..8007d93 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -172,6 +172,14 @@ impl From<RTAabb> for Aabb {
     }
 }
 
+/// Copies boxes of the caller, which are less strictly aligned than our own.
+unsafe fn copy_aabbs(aabbs: *const RTAabb, count: usize) -> Vec<Aabb> {
+    slice::from_raw_parts(aabbs, count)
+        .iter()
+        .map(|bb| Aabb::from(*bb))
+        .collect()
+}
+
 #[derive(Debug, Copy, Clone)]
 #[repr(C)]
 pub struct RTBvhNode {
@@ -348,10 +356,11 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
+    let aabbs = aabbs.as_deref();
 
     let primitives: Vec<RTTriangleWrapper> = (0..prim_count)
         .into_iter()
@@ -441,10 +450,11 @@ pub unsafe extern "C" fn create_bvh(
     );
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
+    let aabbs = aabbs.as_deref();
 
     let bvh = match center_stride {
         12 => {
@@ -515,10 +525,9 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            bvh.refit(slice::from_raw_parts(
-                aabbs as *const Aabb,
-                bvh.prim_count(),
-            ));
+            // Primitives may be referenced more than once, so the number of indices is no bound
+            let prim_count = bvh.indices().iter().max().map_or(0, |i| *i as usize + 1);
+            bvh.refit(&copy_aabbs(aabbs, prim_count));
         })
         .is_some();
 
@@ -672,7 +681,7 @@ pub unsafe extern "C" fn intersect_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
@@ -821,7 +830,7 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
-- 
2.43.0


From c815e584cff461609dc851c6eb8349777e29a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 18/22] fix: split oversized spatial work items even when no
 split has a finite cost

---
 src/builders/spatial_sah.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index a0507da..5cdb23d 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -769,8 +769,10 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> Task for SpatialSahBuildTask<'a, T
 
         let max_split_cost = node.bounds.half_area()
             * (self.work_item.work_size() as f32 - self.builder.traversal_cost);
+        // Boxes of degenerate references can make every cost overflow, leaving no split to pick
+        let no_split_found = !use_spatial_split && best_object_split.index.is_none();
         // Make sure the cost of splitting does not exceed the cost of not splitting
-        if best_cost >= max_split_cost {
+        if best_cost >= max_split_cost || no_split_found {
             // In case splitting results in worse node costs, use median split as fallback strategy
             if self.work_item.work_size() > self.builder.max_leaf_size {
                 use_spatial_split = false;
-- 
2.43.0


From c009b81f072b3c29d7390eda99b132c1a3057988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 19/22] fix: report null pointers passed to create_spatial_Bvh
 as errors

---
 rtbvh_ffi/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 8007d93..1179dee 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -353,6 +353,10 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     prims_per_leaf: u32,
     result: *mut RTBvh,
 ) -> ResultCode {
+    if centers.is_null() || vertices.is_null() || result.is_null() {
+        return ResultCode::Error;
+    }
+
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
-- 
2.43.0


From 5fd77f476c9dfb75d7441cca7c44e19d65fee690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 20/22] fix: validate an empty BVH without panicking

---
 src/bvh.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 3718a2a..e2a4e9c 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -231,7 +231,10 @@ impl Bvh {
     /// tree structure
     pub fn validate(&self, prim_count: usize) -> bool {
         let mut found_indices = vec![0_u8; prim_count];
-        self.traverse_check(&self.nodes[0], found_indices.as_mut());
+        // An empty tree has no root and references nothing
+        if let Some(root) = self.nodes.first() {
+            self.traverse_check(root, found_indices.as_mut());
+        }
 
         let mut valid = true;
         for (i, index) in found_indices.iter().copied().enumerate() {
-- 
2.43.0


From ed16d671321652940ffe14f29a3853d8abb9dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:33 +0000
Subject: [PATCH 21/22] fix: judge parallel rays relative to the triangle's
 size, not by a fixed epsilon

---
 src/builders/spatial_sah.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 5cdb23d..c72edf6 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -138,7 +138,8 @@ pub trait SpatialTriangle {
         let edge2 = v2 - v0;
         let h_val = ray.direction.cross(edge2);
         let a_val = edge1.dot(h_val);
-        if a_val > -1e-5 && a_val < 1e-5 {
+        // Relative to the terms of the sum: small triangles are not parallel to every ray
+        if a_val.abs() <= 1e-6 * (edge1 * h_val).abs().dot(Vec3::ONE) {
             return false;
         }
         let f_val = 1.0 / a_val;
@@ -196,8 +197,9 @@ pub trait SpatialTriangle {
         let h_z = (packet.direction_x * edge2_y) - (packet.direction_y * edge2_x);
 
         let a = (edge1_x * h_x) + (edge1_y * h_y) + (edge1_z * h_z);
-        let epsilon = Vec4::from([1e-6; 4]);
-        let mask = a.cmple(-epsilon) | a.cmpge(epsilon);
+        // Relative to the terms of the sum: small triangles are not parallel to every ray
+        let terms = (edge1_x * h_x).abs() + (edge1_y * h_y).abs() + (edge1_z * h_z).abs();
+        let mask = a.abs().cmpgt(Vec4::splat(1e-6) * terms);
         if mask.bitmask() == 0 {
             return None;
         }
-- 
2.43.0


From f644f1dbd7114207b19dd3d1e61ccea23b7f2cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:35 +0000
Subject: [PATCH 22/22] Revert "fix: sort references with a total order"

The standard sorts only ask whether one element is less than another, and that
part of the comparison was a proper order: there was no defect to repair.
---
 src/builders/spatial_sah.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index c72edf6..a44fad5 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -322,9 +322,13 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
                     let a_center = a.center[axis];
                     let b_center = b.center[axis];
 
-                    a_center
-                        .partial_cmp(&b_center)
-                        .unwrap_or(std::cmp::Ordering::Equal)
+                    if a_center < b_center {
+                        std::cmp::Ordering::Less
+                    } else if (a_center - b_center).abs() < 0.0001 {
+                        std::cmp::Ordering::Equal
+                    } else {
+                        std::cmp::Ordering::Greater
+                    }
                 });
             }
         }
-- 
2.43.0

