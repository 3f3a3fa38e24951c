From 46581b07b992dbe96682ac9139833f5ee889af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 01/43] fix: iterating and sorting an empty buffer no longer
 panics on alignment

---
 pasture-core/src/containers/attribute_iterators.rs | 14 ++++++++++++--
 pasture-core/src/containers/buffer_views.rs        |  4 ++++
 pasture-core/src/containers/point_iterators.rs     | 14 ++++++++++++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index a36ac4e..587e59e 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -77,7 +77,12 @@ impl<'a, T: PrimitiveType> AttributeIteratorByRef<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_ref(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice(attribute_memory),
+            // The memory of an empty buffer can have any alignment, so it can't be cast
+            attribute_data: if attribute_memory.is_empty() {
+                &[]
+            } else {
+                bytemuck::cast_slice(attribute_memory)
+            },
             current_index: 0,
         }
     }
@@ -119,7 +124,12 @@ impl<'a, T: PrimitiveType> AttributeIteratorByMut<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_mut(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice_mut(attribute_memory),
+            // The memory of an empty buffer can have any alignment, so it can't be cast
+            attribute_data: if attribute_memory.is_empty() {
+                &mut []
+            } else {
+                bytemuck::cast_slice_mut(attribute_memory)
+            },
             current_index: 0,
         }
     }
diff --git a/pasture-core/src/containers/buffer_views.rs b/pasture-core/src/containers/buffer_views.rs
index b44ed20..4d1420e 100644
--- a/pasture-core/src/containers/buffer_views.rs
+++ b/pasture-core/src/containers/buffer_views.rs
@@ -235,6 +235,10 @@ impl<'a, 'b, B: InterleavedBufferMut<'a>, T: PointType> PointViewMut<'a, 'b, B,
 
     /// Sorts the point buffer using the given `comparator` function
     pub fn sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, comparator: F) {
+        // The memory of an empty buffer can have any alignment, so it can't be cast
+        if self.buffer.is_empty() {
+            return;
+        }
         let typed_points: &mut [T] =
             bytemuck::cast_slice_mut(self.buffer.get_point_range_mut(0..self.buffer.len()));
         typed_points.sort_by(comparator);
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index dedacdf..0d33099 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -60,7 +60,12 @@ where
     fn from(value: &'a B) -> Self {
         let points_memory = value.get_point_range_ref(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice(points_memory),
+            // The memory of an empty buffer can have any alignment, so it can't be cast
+            point_data: if points_memory.is_empty() {
+                &[]
+            } else {
+                bytemuck::cast_slice(points_memory)
+            },
             current_index: 0,
         }
     }
@@ -100,7 +105,12 @@ where
     fn from(value: &'a mut B) -> Self {
         let memory_for_all_points = value.get_point_range_mut(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice_mut(memory_for_all_points),
+            // The memory of an empty buffer can have any alignment, so it can't be cast
+            point_data: if memory_for_all_points.is_empty() {
+                &mut []
+            } else {
+                bytemuck::cast_slice_mut(memory_for_all_points)
+            },
             current_index: 0,
             _phantom: Default::default(),
         }
-- 
2.43.0


From aa46c0e0ba6863c7c9208db2db2d2168a1e7ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 02/43] fix: pushing no points into a HashMapBuffer with an
 empty layout no longer divides by zero

---
 pasture-core/src/containers/point_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 335dd8d..535f541 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1278,6 +1278,10 @@ where
 {
     unsafe fn push_points(&mut self, point_bytes: &[u8]) {
         let point_size = self.point_layout.size_of_point_entry() as usize;
+        if point_size == 0 {
+            assert_eq!(0, point_bytes.len());
+            return;
+        }
         assert_eq!(point_bytes.len() % point_size, 0);
         let num_points_added = point_bytes.len() / point_size;
         for attribute in self.point_layout.attributes() {
-- 
2.43.0


From ff1b386c81fb1864d187b692821905d7243e851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 03/43] fix: a slice can be sliced by its full range and by an
 empty range at its end

---
 pasture-core/src/containers/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 5f764a5..77cc1f2 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -187,8 +187,8 @@ impl<'a, T: BorrowedBuffer<'a> + Sized> SliceBuffer<'a> for BufferSlice<'a, T> {
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&self, range: Range<usize>) -> BufferSlice<'a, T> {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -424,8 +424,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBuffer<'a>
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&'a self, range: Range<usize>) -> Self::SliceType {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -444,8 +444,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBufferMut<'
     type SliceTypeMut = BufferSliceMut<'a, T>;
 
     fn slice_mut(&'a mut self, range: Range<usize>) -> Self::SliceTypeMut {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
-- 
2.43.0


From f367657657f913a9bec1a0f13b9fa408d833c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 04/43] fix: a mutable slice rejects indices outside of its own
 length

---
 pasture-core/src/containers/slice.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 77cc1f2..25c21cc 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -219,18 +219,11 @@ impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
     }
 
     fn get_and_check_global_point_index(&self, local_index: usize) -> usize {
-        assert!(local_index < self.point_range.end);
-        local_index + self.point_range.start
+        get_and_check_global_point_index(local_index, &self.point_range)
     }
 
     fn get_and_check_global_point_range(&self, local_range: Range<usize>) -> Range<usize> {
-        assert!(local_range.end <= self.point_range.end);
-        if local_range.start >= local_range.end {
-            // Doesn't matter what range we return, as long as it is empty
-            self.point_range.end..self.point_range.end
-        } else {
-            (local_range.start + self.point_range.start)..(local_range.end + self.point_range.start)
-        }
+        get_and_check_global_point_range(local_range, &self.point_range)
     }
 }
 
-- 
2.43.0


From ab0213dc7907a83d73cee047f129f4a85a7fff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 05/43] fix: skipping past the end of an iterator ends it
 instead of reading out of bounds

---
 pasture-core/src/containers/attribute_iterators.rs | 12 +++++++++---
 pasture-core/src/containers/point_iterators.rs     | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index 587e59e..7efb9ac 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -55,7 +55,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -102,7 +102,10 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.attribute_data.len());
         self.next()
     }
 }
@@ -151,7 +154,10 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.attribute_data.len());
         self.next()
     }
 }
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index 0d33099..cd33a6c 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -42,7 +42,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -85,7 +85,10 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.point_data.len());
         self.next()
     }
 }
@@ -133,7 +136,10 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.point_data.len());
         self.next()
     }
 }
-- 
2.43.0


From 22854e7a8d211c59ad7bdb1b220064088e494eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 06/43] fix: collecting points no longer trusts the upper bound
 of an iterator's size hint

---
 pasture-core/src/containers/point_buffer.rs | 45 ++++++---------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 535f541..828eac9 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -851,39 +851,18 @@ impl<T: PointType> FromIterator<T> for VectorBuffer {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let point_layout = T::layout();
         let iter = iter.into_iter();
-        let (_, maybe_known_length) = iter.size_hint();
-        if let Some(known_length) = maybe_known_length {
-            let num_bytes = known_length * point_layout.size_of_point_entry() as usize;
-            let storage = vec![0; num_bytes];
-            let mut buffer = Self {
-                point_layout,
-                storage,
-                length: known_length,
-            };
-            // Overwrite the preallocated memory of the buffer with the points in the iterator:
-            iter.enumerate().for_each(|(index, point)| {
-                let point_bytes = bytemuck::bytes_of(&point);
-                // Safe because we created `buffer` from `T::layout()`, so we know the layouts match
-                unsafe {
-                    buffer.set_point(index, point_bytes);
-                }
-            });
-            buffer
-        } else {
-            let mut buffer = Self {
-                point_layout,
-                storage: Default::default(),
-                length: 0,
-            };
-            iter.for_each(|point| {
-                let point_bytes = bytemuck::bytes_of(&point);
-                // Safe because we know that `buffer` has the same layout as `T`
-                unsafe {
-                    buffer.push_points(point_bytes);
-                }
-            });
-            buffer
-        }
+        // The size hint is only used to reserve memory: Neither of its bounds has to match the number of points that
+        // the iterator actually yields
+        let (min_length, _) = iter.size_hint();
+        let mut buffer = Self::with_capacity(min_length, point_layout);
+        iter.for_each(|point| {
+            let point_bytes = bytemuck::bytes_of(&point);
+            // Safe because we know that `buffer` has the same layout as `T`
+            unsafe {
+                buffer.push_points(point_bytes);
+            }
+        });
+        buffer
     }
 }
 
-- 
2.43.0


From 69cf8ca8594bf97b2a3708ee74708555d11abbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 07/43] fix: a resize that is too large or runs out of memory
 leaves the buffer as it was

---
 pasture-core/src/containers/point_buffer.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 828eac9..3678623 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -757,7 +757,10 @@ where
 
     fn resize(&mut self, count: usize) {
         let size_of_point = self.point_layout.size_of_point_entry() as usize;
-        self.storage.resize(count * size_of_point, 0);
+        let new_num_bytes = count
+            .checked_mul(size_of_point)
+            .expect("Size of the buffer exceeds the address space");
+        self.storage.resize(new_num_bytes, 0);
         self.length = count;
     }
 
@@ -1278,9 +1281,16 @@ where
     }
 
     fn resize(&mut self, count: usize) {
+        // Check and reserve the memory for all attributes before changing any of them, so that all attributes keep the
+        // same length even if `count` is too large or there is not enough memory
         for (attribute, storage) in self.attributes_storage.iter_mut() {
-            let new_num_bytes = count * attribute.size() as usize;
-            storage.resize(new_num_bytes, 0);
+            let new_num_bytes = count
+                .checked_mul(attribute.size() as usize)
+                .expect("Size of the buffer exceeds the address space");
+            storage.reserve(new_num_bytes.saturating_sub(storage.len()));
+        }
+        for (attribute, storage) in self.attributes_storage.iter_mut() {
+            storage.resize(count * attribute.size() as usize, 0);
         }
         self.length = count;
     }
-- 
2.43.0


From 6766b9960e2154e156f07d9be0ef1e3439262a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 08/43] fix: growing a HashMapBuffer that fails half-way leaves
 all attributes with the same length

---
 pasture-core/src/containers/point_buffer.rs | 45 ++++++++++++++-------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 3678623..b3c7722 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1060,6 +1060,18 @@ impl HashMapBuffer {
         }
     }
 
+    /// Reserves memory for `additional` points in the storage of all attributes. Growing this buffer changes one
+    /// attribute after the other, so by calling this first, running out of memory can't leave the attributes with
+    /// different lengths
+    fn reserve(&mut self, additional: usize) {
+        for (attribute, storage) in self.attributes_storage.iter_mut() {
+            let additional_bytes = additional
+                .checked_mul(attribute.size() as usize)
+                .expect("Size of the buffer exceeds the address space");
+            storage.reserve(additional_bytes);
+        }
+    }
+
     fn get_byte_range_for_attribute(
         point_index: usize,
         attribute: &PointAttributeDefinition,
@@ -1266,6 +1278,7 @@ where
         }
         assert_eq!(point_bytes.len() % point_size, 0);
         let num_points_added = point_bytes.len() / point_size;
+        self.reserve(num_points_added);
         for attribute in self.point_layout.attributes() {
             let storage = self
                 .attributes_storage
@@ -1281,14 +1294,7 @@ where
     }
 
     fn resize(&mut self, count: usize) {
-        // Check and reserve the memory for all attributes before changing any of them, so that all attributes keep the
-        // same length even if `count` is too large or there is not enough memory
-        for (attribute, storage) in self.attributes_storage.iter_mut() {
-            let new_num_bytes = count
-                .checked_mul(attribute.size() as usize)
-                .expect("Size of the buffer exceeds the address space");
-            storage.reserve(new_num_bytes.saturating_sub(storage.len()));
-        }
+        self.reserve(count.saturating_sub(self.length));
         for (attribute, storage) in self.attributes_storage.iter_mut() {
             storage.resize(count * attribute.size() as usize, 0);
         }
@@ -1312,16 +1318,27 @@ where
 
     fn append_columnar<'b, B: ColumnarBuffer<'b>>(&mut self, other: &'_ B) {
         assert_eq!(self.point_layout(), other.point_layout());
-        for attribute in self.point_layout.attributes() {
+        let num_points_added = other.len();
+        // Access everything that can fail before changing any of the attributes
+        let attribute_ranges = self
+            .point_layout
+            .attributes()
+            .map(|attribute| {
+                let attribute_definition = attribute.attribute_definition();
+                let attribute_range =
+                    other.get_attribute_range_ref(attribute_definition, 0..num_points_added);
+                (attribute_definition.clone(), attribute_range)
+            })
+            .collect::<Vec<_>>();
+        self.reserve(num_points_added);
+        for (attribute_definition, attribute_range) in attribute_ranges {
             let storage = self
                 .attributes_storage
-                .get_mut(attribute.attribute_definition())
+                .get_mut(&attribute_definition)
                 .expect("Attribute not found in storage of this buffer");
-            storage.extend_from_slice(
-                other.get_attribute_range_ref(attribute.attribute_definition(), 0..other.len()),
-            );
+            storage.extend_from_slice(attribute_range);
         }
-        self.length += other.len();
+        self.length += num_points_added;
     }
 }
 
-- 
2.43.0


From 9705055f203947b44f312857af35296e444dda33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 09/43] fix: RawPointConverter no longer skips attributes that
 have the same datatype in both layouts

---
 .../layout/conversion/attribute_conversion.rs | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 3e11e2d..00d6a5c 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -70,23 +70,23 @@ impl RawPointConverter {
         let converters = from_layout
             .attributes()
             .filter(|&from_attribute| to_layout.has_attribute_with_name(from_attribute.name()))
-            .filter_map(|from_attribute| {
+            .map(|from_attribute| {
                 let to_attribute = to_layout
                     .get_attribute_by_name(from_attribute.name())
                     .unwrap();
+                // There is no converter for attributes with equal datatypes, these are copied
                 let conversion_fn = get_converter_for_attributes(
                     from_attribute.attribute_definition(),
                     to_attribute.attribute_definition(),
-                );
-                conversion_fn.map(|conversion_fn| {
-                    RawAttributeConverter::new(
-                        conversion_fn,
-                        from_attribute.offset(),
-                        from_attribute.size(),
-                        to_attribute.offset(),
-                        to_attribute.size(),
-                    )
-                })
+                )
+                .unwrap_or(convert_unit);
+                RawAttributeConverter::new(
+                    conversion_fn,
+                    from_attribute.offset(),
+                    from_attribute.size(),
+                    to_attribute.offset(),
+                    to_attribute.size(),
+                )
             })
             .collect::<Vec<_>>();
 
-- 
2.43.0


From d3bdcf2cf743f5a673ab957615c5bd492c5b090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 10/43] fix: pushing the same attribute twice is rejected and a
 failed commit adds no data

---
 pasture-core/src/containers/point_buffer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index b3c7722..6311177 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -901,7 +901,8 @@ impl<'a> HashMapBufferAttributePusher<'a> {
     /// If `attribute` is not part of the `PointLayout` of the underlying buffer.<br>
     /// If `T::data_type()` does not match `attribute.datatype()`.<br>
     /// If this is not the first call to `push_attribute_range`, and `data.len()` does not match the length of the
-    /// data that was passed to the first invocation of `push_attribute_range`
+    /// data that was passed to the first invocation of `push_attribute_range`<br>
+    /// If data for `attribute` was already pushed
     pub fn push_attribute_range<T: PrimitiveType>(
         &mut self,
         attribute: &PointAttributeDefinition,
@@ -912,6 +913,10 @@ impl<'a> HashMapBufferAttributePusher<'a> {
             .attributes_storage
             .get_mut(attribute)
             .expect("Attribute not found in PointLayout of this buffer");
+        assert!(
+            storage.is_empty(),
+            "Data for this attribute was already pushed"
+        );
         if let Some(point_count) = self.num_new_points {
             assert_eq!(point_count, data.len());
         } else {
@@ -940,6 +945,7 @@ impl<'a> HashMapBufferAttributePusher<'a> {
             .values()
             .all(|vector| !vector.is_empty()));
 
+        self.buffer.reserve(num_new_points);
         for (attribute, mut data) in self.attributes_storage {
             // Can safely unwrap, because self.attributes_storage was initialized from the `PointLayout` of the buffer!
             let buffer_storage = self.buffer.attributes_storage.get_mut(&attribute).unwrap();
-- 
2.43.0


From e81d133f4c8be251a8fcddd4f369ec1f69bafca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 11/43] fix: the hull points of an empty buffer are an empty
 list instead of a panic

---
 pasture-algorithms/src/convexhull.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 01f2390..e1f909f 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -69,8 +69,7 @@ pub fn convex_hull_as_points<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<us
             points.insert(tri.b);
             points.insert(tri.c);
         }
-    } else {
-        let tri = triangles[0];
+    } else if let Some(tri) = triangles.first() {
         points.insert(tri.a);
         points.insert(tri.b);
         if tri.c != 0 {
-- 
2.43.0


From 19dab0cdbbe89ec83d21dd1fd6cbc0ffff2a8892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 12/43] fix: downsampling an empty buffer adds no points
 instead of panicking

---
 pasture-algorithms/src/voxel_grid.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 96e62fd..d92ac4e 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -119,7 +119,11 @@ pub fn voxelgrid_filter<'a, 'b, PB: BorrowedBuffer<'a>, PBW: OwningBuffer<'b>>(
     }
 
     // get the bounding box of the pointcloud
-    let aabb = calculate_bounds(buffer).unwrap();
+    let aabb = match calculate_bounds(buffer) {
+        Some(aabb) => aabb,
+        // no points, no voxels
+        None => return,
+    };
 
     // create arrays with all markers of one axis
     let (markers_x, markers_y, markers_z) =
-- 
2.43.0


From 0c99ccee07da20eb3444a374b1a1b1b33d3b5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 13/43] fix: the most common value of a voxel does not depend
 on the hash seed

---
 pasture-algorithms/src/voxel_grid.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index d92ac4e..c132337 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, u16};
+use std::{cmp::Reverse, collections::HashMap, u16};
 
 use pasture_core::{
     containers::{BorrowedBuffer, OwningBuffer, UntypedPoint, UntypedPointBuffer},
@@ -319,15 +319,12 @@ fn centroid_most_common<'a, T: BorrowedBuffer<'a>>(
             _ => unimplemented!(),
         }
     }
-    let mut highest_count = 0;
-    let mut curr_key: String = "".to_string();
-    for (key, value) in map {
-        if value > highest_count {
-            highest_count = value;
-            curr_key = key;
-        }
-    }
-    curr_key.parse::<isize>().unwrap()
+    // Among equally common values the smallest one is chosen, independent of the iteration order of the map
+    map.into_iter()
+        .map(|(key, count)| (count, Reverse(key.parse::<isize>().unwrap())))
+        .max()
+        .map(|(_, Reverse(value))| value)
+        .unwrap()
 }
 
 /// returns the average value in the voxel for attribute_definition
-- 
2.43.0


From 4e845d1399e546daa11aa552a1a391d0c8b0697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 14/43] fix: the maximum of a voxel with only negative values
 is not zero

---
 pasture-algorithms/src/voxel_grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index c132337..627e4fd 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -173,7 +173,7 @@ fn centroid_max_pool<'a, T: BorrowedBuffer<'a>>(
     attribute_definition: &PointAttributeDefinition,
     point_type: PointAttributeDataType,
 ) -> f64 {
-    let mut curr_max = 0.0;
+    let mut curr_max = f64::NEG_INFINITY;
     let mut value;
     for p in &v.points {
         match point_type {
-- 
2.43.0


From 09924e227ace2b22379f6725461a59bb3dc4960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 15/43] fix: the maximum point ID of a voxel is exact

---
 pasture-algorithms/src/voxel_grid.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 627e4fd..d803663 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -660,8 +660,9 @@ fn set_all_attributes<'a, PB: BorrowedBuffer<'a>>(
         } else if a.name() == attributes::POINT_ID.name()
             && a.datatype() == attributes::POINT_ID.datatype()
         {
-            let max =
-                centroid_max_pool::<PB>(v, buffer, &attributes::POINT_ID, a.datatype()) as u64;
+            // not via centroid_max_pool, a f64 can't represent all IDs
+            let point_ids = buffer.view_attribute::<u64>(&attributes::POINT_ID);
+            let max = v.points.iter().map(|p| point_ids.at(*p)).max().unwrap();
             let m_slice = bytemuck::bytes_of(&max);
             centroid
                 .set_raw_attribute(&attributes::POINT_ID, m_slice)
-- 
2.43.0


From 625d492a7ad02db908b978cf44aba269ce9d3f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 16/43] fix: convex hulls of positions that are not
 Vector3<f64> no longer panic

---
 pasture-algorithms/src/convexhull.rs | 54 ++++++++++++++--------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index e1f909f..336125c 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -92,25 +92,28 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
         }
     };
 
-    let mut pointid: usize = 0;
-    if position_attribute.datatype() == POSITION_3D.datatype() {
-        for point in buffer.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+    // The algorithm looks back at positions of earlier points, which may need a conversion
+    let positions: Vec<Vector3<f64>> = if position_attribute.datatype() == POSITION_3D.datatype() {
+        buffer
+            .view_attribute::<Vector3<f64>>(&POSITION_3D)
+            .into_iter()
+            .collect()
     } else {
-        for point in buffer
+        buffer
             .view_attribute_with_conversion::<Vector3<f64>>(&POSITION_3D)
             .expect("Can't convert POSITION_3D attribute")
-        {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+            .into_iter()
+            .collect()
     };
+
+    for (pointid, point) in positions.iter().enumerate() {
+        iteration(&positions, pointid, *point, &mut triangles);
+    }
     triangles
 }
 
 /// Performs a single iteration of the cunvex hull algorithm.
+/// `positions`: the positions of all points within the buffer
 /// `pointid`: current index within the buffer
 /// `point`: current point to be checked against the convex hull, possibly extends the convex hull
 /// `triangles`: the set of triangles forming the convex hull
@@ -119,8 +122,8 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
 /// If the point lies outside of the current convex hull the hull has to be extended to include the current point.
 /// If 'triangles' contain only one entry: no full triangle has been found yet. In case of linearily dependant points no second triangle is added.
 /// If all 'triangles' are in a plane with 'point' a special triangulation procedure is needed to prevent a degenerated triangle mesh.
-fn iteration<'a, T: BorrowedBuffer<'a>>(
-    buffer: &'a T,
+fn iteration(
+    positions: &[Vector3<f64>],
     pointid: usize,
     point: Vector3<f64>,
     triangles: &mut Vec<Triangle>,
@@ -137,8 +140,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         if pointid == 1 {
             first.b = pointid;
         } else {
-            let first_a = buffer.view_attribute(&POSITION_3D).at(first.a);
-            let first_b = buffer.view_attribute(&POSITION_3D).at(first.b);
+            let first_a = positions[first.a];
+            let first_b = positions[first.b];
             let ab: Vector3<f64> = first_b - first_a;
             let ab_mag_sqr = ab.magnitude_squared();
             if ab_mag_sqr == 0.0 {
@@ -175,7 +178,7 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         let mut planar_triangles = Vec::new();
 
         triangles.retain(|tri| {
-            let tri_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(tri.a);
+            let tri_a: Vector3<f64> = positions[tri.a];
             let pa: Vector3<f64> = tri_a - point;
             let dot = pa.dot(&tri.normal);
             if dot < 0.0 {
@@ -191,8 +194,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
 
         if !outer_edges.is_empty() || !inner_edges.is_empty() {
             for edge in outer_edges.iter() {
-                let edge_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.a);
-                let edge_b: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.b);
+                let edge_a: Vector3<f64> = positions[edge.a];
+                let edge_b: Vector3<f64> = positions[edge.b];
                 triangles.push(Triangle {
                     a: edge.a,
                     b: edge.b,
@@ -204,11 +207,10 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
             // Find all edges of the triangle of which the edge-normal is facing the point.
             let mut edges_facing_point = Vec::new();
             let mut edge_triangle_id = Vec::new();
-            let position_view = buffer.view_attribute(&POSITION_3D);
             for (i, pt) in planar_triangles.iter().enumerate() {
-                let planar_a = position_view.at(pt.a);
-                let planar_b = position_view.at(pt.b);
-                let planar_c = position_view.at(pt.c);
+                let planar_a = positions[pt.a];
+                let planar_b = positions[pt.b];
+                let planar_c = positions[pt.c];
                 let dist_ab = dist_point_to_edge(point, planar_a, planar_b, pt.normal);
                 if dist_ab >= 0.0 {
                     edges_facing_point.push(Edge { a: pt.a, b: pt.b });
@@ -234,8 +236,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
             let mut edge_triangle_normals = Vec::new();
             for i in (0..edges_facing_point.len()).rev() {
                 let edg = edges_facing_point[i];
-                let edg_a: Vector3<f64> = position_view.at(edg.a);
-                let edg_b: Vector3<f64> = position_view.at(edg.b);
+                let edg_a: Vector3<f64> = positions[edg.a];
+                let edg_b: Vector3<f64> = positions[edg.b];
                 let dist_edg_a_p = (edg_a - point).magnitude_squared();
                 let dist_edg_b_p = (edg_b - point).magnitude_squared();
                 let dist_edg_p = dist_point_to_line_segment(point, edg_a, edg_b);
@@ -248,8 +250,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                             planar_triangles[edge_triangle_id[other_edge_id]].normal;
                         if edg_triangle_normal.dot(&other_edg_triangle_normal) > 0.0 {
                             let other_edg = edges_facing_point[other_edge_id];
-                            let other_edg_a: Vector3<f64> = position_view.at(other_edg.a);
-                            let other_edg_b: Vector3<f64> = position_view.at(other_edg.b);
+                            let other_edg_a: Vector3<f64> = positions[other_edg.a];
+                            let other_edg_b: Vector3<f64> = positions[other_edg.b];
                             let point_other_edg_a = other_edg_a - point;
                             let point_other_edg_b = other_edg_b - point;
                             let point_other_edg_a_norm =
-- 
2.43.0


From 65c15f14a74f58d78b2963804fd663b37668b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 17/43] fix: write 3D Tiles table headers completely when the
 destination accepts only part of a write

---
 pasture-io/src/tiles3d/common.rs      | 2 +-
 pasture-io/src/tiles3d/pnts_writer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/tiles3d/common.rs b/pasture-io/src/tiles3d/common.rs
index 3a885c1..462b927 100644
--- a/pasture-io/src/tiles3d/common.rs
+++ b/pasture-io/src/tiles3d/common.rs
@@ -46,7 +46,7 @@ pub fn write_json_header<W: Write>(
 
     if num_padding_bytes > 0 {
         writer
-            .write(&vec![0x20; num_padding_bytes])
+            .write_all(&vec![0x20; num_padding_bytes])
             .context("Could not write padding bytes of JSON header to writer")?;
     }
 
diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 18bdfd9..cb2ed7b 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -214,11 +214,11 @@ impl<W: Write + Seek> PntsWriter<W> {
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
-            .write(feature_table_blob.as_slice())
+            .write_all(feature_table_blob.as_slice())
             .context("Error while writing FeatureTable header")?;
         self.write_feature_table_body()?;
         self.writer
-            .write(batch_table_blob.as_slice())
+            .write_all(batch_table_blob.as_slice())
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
-- 
2.43.0


From d6708a2bfc4ffa7c6e013dfa2f6e35ff1b60ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 18/43] fix: PntsWriter writes points that were added after a
 flush, and rewrites the file on each flush

---
 pasture-io/src/tiles3d/pnts_writer.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index cb2ed7b..e7bd0ce 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -2,7 +2,7 @@ use std::{
     borrow::Cow,
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, Seek, Write},
+    io::{Cursor, Seek, SeekFrom, Write},
 };
 
 use anyhow::{Context, Result};
@@ -72,6 +72,8 @@ pub struct PntsWriter<W: Write + Seek> {
     attribute_converters: HashMap<String, Option<AttributeConversionFn>>,
     rtc_center: Option<Vector3<f64>>,
     requires_flush: bool,
+    /// Position of the .pnts data within `writer`, known once the first flush was started
+    start_position: Option<u64>,
 }
 
 impl<W: Write + Seek> PntsWriter<W> {
@@ -91,6 +93,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             attribute_converters,
             rtc_center: None,
             requires_flush: true,
+            start_position: None,
         }
     }
 
@@ -99,6 +102,7 @@ impl<W: Write + Seek> PntsWriter<W> {
     /// **does not automatically translate points relative to this center!** This has to be done prior to calling `write`!
     pub fn set_rtc_center(&mut self, rtc_center: Vector3<f64>) {
         self.rtc_center = Some(rtc_center);
+        self.requires_flush = true;
     }
 
     /// Makes the given `PointLayout` compatible with the supported point semantics of the 3D Tiles .pnts format. Doing
@@ -211,12 +215,23 @@ impl<W: Write + Seek> PntsWriter<W> {
                 .expect("Size of BatchTable binary body exceeds maximum size of 4GiB!"),
         );
 
+        // A .pnts file can't be appended to, so every flush (also a repeated one after an error) has to
+        // write the whole file from its start
+        let start_position = match self.start_position {
+            Some(position) => self
+                .writer
+                .seek(SeekFrom::Start(position))
+                .context("Error while seeking to the start of the .pnts file")?,
+            None => self.writer.stream_position()?,
+        };
+        self.start_position = Some(start_position);
+
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
             .write_all(feature_table_blob.as_slice())
             .context("Error while writing FeatureTable header")?;
-        self.write_feature_table_body()?;
+        self.write_feature_table_body(start_position)?;
         self.writer
             .write_all(batch_table_blob.as_slice())
             .context("Error while writing BatchTable header")?;
@@ -297,7 +312,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             .sum()
     }
 
-    fn write_feature_table_body(&mut self) -> Result<()> {
+    fn write_feature_table_body(&mut self, start_position: u64) -> Result<()> {
         let num_points = self.cached_points.len();
 
         for attribute in self.default_layout.attributes() {
@@ -320,7 +335,7 @@ impl<W: Write + Seek> PntsWriter<W> {
         }
 
         // Write padding bytes to ensure we are at an 8-byte boundary!
-        let current_write_position = self.writer.stream_position()?;
+        let current_write_position = self.writer.stream_position()? - start_position;
         let next_8_byte_boundary = current_write_position.align_to(8);
         let num_padding_bytes = next_8_byte_boundary - current_write_position;
         if num_padding_bytes > 0 {
@@ -338,6 +353,8 @@ impl<W: Write + Seek> PointWriter for PntsWriter<W> {
             panic!("PointLayout of buffer does not match the PointLayout that this PntsReader was constructed with! Make sure that you only pass PointBuffers with the same layout as the one you used to create this PntsWriter!");
         }
 
+        self.requires_flush = true;
+
         if points.point_layout() == self.cached_points.point_layout() {
             self.cached_points.append(points);
         } else {
-- 
2.43.0


From cf42210ac622d3aae0023814f84c8491b304af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 19/43] fix: PntsWriter::flush flushes the destination

---
 pasture-io/src/tiles3d/pnts_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index e7bd0ce..7e86926 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -237,6 +237,10 @@ impl<W: Write + Seek> PntsWriter<W> {
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
+        self.writer
+            .flush()
+            .context("Error while flushing .pnts file")?;
+
         self.requires_flush = false;
 
         Ok(())
-- 
2.43.0


From df0b3064da1ff436c805a7e6cb806c4d8c0378f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 20/43] fix: PntsReader applies the RTC_CENTER offset only to
 the positions it read, and checks their type before reading

---
 pasture-io/src/tiles3d/pnts_reader.rs | 94 +++++++++++++++++----------
 1 file changed, 60 insertions(+), 34 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index c81ca47..457f3c7 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -244,42 +244,68 @@ impl<R: BufRead + Seek> PntsReader<R> {
         ))
     }
 
-    fn apply_rtc_center_offset<'a, 'b, B: BorrowedMutBuffer<'a>>(
+    /// Returns the `RTC_CENTER` offset if it has to be applied when reading into a buffer with the given `target_layout`
+    fn rtc_center_offset_for_layout(
         &self,
+        target_layout: &PointLayout,
+    ) -> Result<Option<Vector3<f64>>> {
+        if let PntsReadPositionsMode::RelativeToCenter = self.read_positions_mode {
+            return Ok(None);
+        }
+        if !self.layout.has_attribute_with_name(POSITION_3D.name()) {
+            return Ok(None);
+        }
+        let maybe_position = target_layout.get_attribute_by_name(POSITION_3D.name());
+        match (self.metadata.rtc_center(), maybe_position) {
+            (Some(rtc_center), Some(position_attribute)) => match position_attribute.datatype() {
+                PointAttributeDataType::Vec3f32 | PointAttributeDataType::Vec3f64 => {
+                    Ok(Some(rtc_center))
+                }
+                other => bail!("Failed to apply RTC_CENTER offset: Unsupported datatype {other} for POSITION_3D attribute"),
+            },
+            _ => Ok(None),
+        }
+    }
+
+    /// Applies the given `RTC_CENTER` offset to the first `num_points` positions in the given `point_buffer`
+    fn apply_rtc_center_offset<'a, 'b, B: BorrowedMutBuffer<'a>>(
+        rtc_center: Vector3<f64>,
         point_buffer: &'b mut B,
-    ) -> Result<()>
-    where
+        num_points: usize,
+    ) where
         'a: 'b,
     {
-        let maybe_position = point_buffer
+        let position_attribute = point_buffer
             .point_layout()
-            .get_attribute_by_name(POSITION_3D.name());
-        if let (Some(rtc_center), Some(position_attribute)) =
-            (self.metadata.rtc_center(), maybe_position)
-        {
-            // The default datatype for positions in the PNTS format is Vec3f32, so we try to apply the offset
-            // first on this datatype. If the datatype does not match, we can only use Vec3f64, other types are
-            // not supported at the moment
-            let position_attribute = position_attribute.clone();
-            match position_attribute.datatype() {
-                PointAttributeDataType::Vec3f32 => point_buffer.transform_attribute(
-                    position_attribute.attribute_definition(),
-                    |_, position: Vector3<f32>| -> Vector3<f32> {
-                        Vector3::new(
-                            (position.x as f64 + rtc_center.x) as f32,
-                            (position.y as f64 + rtc_center.y) as f32,
-                            (position.z as f64 + rtc_center.z) as f32,
-                        )
-                    },
-                ),
-                PointAttributeDataType::Vec3f64 => point_buffer.transform_attribute(
-                    position_attribute.attribute_definition(),
-                    |_, position: Vector3<f64>| -> Vector3<f64> { position + rtc_center },
-                ),
-                other => bail!("Unsupported datatype {other} for POSITION_3D attribute"),
+            .get_attribute_by_name(POSITION_3D.name())
+            .expect("Point buffer has no POSITION_3D attribute")
+            .attribute_definition()
+            .clone();
+        // The default datatype for positions in the PNTS format is Vec3f32, so we try to apply the offset
+        // first on this datatype. If the datatype does not match, it must be Vec3f64, as other types are
+        // not supported at the moment
+        if position_attribute.datatype() == PointAttributeDataType::Vec3f32 {
+            let mut positions =
+                point_buffer.view_attribute_mut::<Vector3<f32>>(&position_attribute);
+            for point_index in 0..num_points {
+                let position = positions.at(point_index);
+                positions.set_at(
+                    point_index,
+                    Vector3::new(
+                        (position.x as f64 + rtc_center.x) as f32,
+                        (position.y as f64 + rtc_center.y) as f32,
+                        (position.z as f64 + rtc_center.z) as f32,
+                    ),
+                );
+            }
+        } else {
+            let mut positions =
+                point_buffer.view_attribute_mut::<Vector3<f64>>(&position_attribute);
+            for point_index in 0..num_points {
+                let position = positions.at(point_index);
+                positions.set_at(point_index, position + rtc_center);
             }
         }
-        Ok(())
     }
 }
 
@@ -306,6 +332,7 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
         }
 
         let target_layout = point_buffer.point_layout().clone();
+        let rtc_center_offset = self.rtc_center_offset_for_layout(&target_layout)?;
         for attribute in self.layout.attributes() {
             // Try to read this attribute only if it exists in the target buffer's PointLayout
             if let Some(target_attribute) = target_layout.get_attribute_by_name(attribute.name()) {
@@ -355,13 +382,12 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
             }
         }
 
-        self.current_point_index += num_to_read;
-
-        if let PntsReadPositionsMode::Absolute = self.read_positions_mode {
-            self.apply_rtc_center_offset(point_buffer)
-                .context("Failed to apply RTC_CENTER offset")?;
+        if let Some(rtc_center) = rtc_center_offset {
+            Self::apply_rtc_center_offset(rtc_center, point_buffer, num_to_read);
         }
 
+        self.current_point_index += num_to_read;
+
         Ok(num_to_read)
     }
 
-- 
2.43.0


From e2a43aa363b27e1be333852c77ed35070817a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 21/43] fix: seeking in a PntsReader does not overflow

---
 pasture-io/src/tiles3d/pnts_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index 457f3c7..41f081b 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -406,11 +406,11 @@ impl<R: BufRead + Seek> SeekToPoint for PntsReader<R> {
             SeekFrom::Start(offset) => offset,
             SeekFrom::End(offset) => {
                 let max_point_as_i64: i64 = self.metadata.points_length().try_into()?;
-                (max_point_as_i64 + offset).try_into()?
+                max_point_as_i64.saturating_add(offset).try_into()?
             }
             SeekFrom::Current(offset) => {
                 let cur_point_asi64: i64 = self.current_point_index.try_into()?;
-                (cur_point_asi64 + offset).try_into()?
+                cur_point_asi64.saturating_add(offset).try_into()?
             }
         };
         let new_point_idx_clamped = clamp(new_point_idx, 0, self.metadata.points_length() as u64);
-- 
2.43.0


From ddab195ea6d1c6aefc50695067860e89f70c584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 22/43] fix: reading a 3D Tiles JSON header does not allocate
 more memory than the file has data

---
 pasture-io/src/tiles3d/common.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/tiles3d/common.rs b/pasture-io/src/tiles3d/common.rs
index 462b927..333ca00 100644
--- a/pasture-io/src/tiles3d/common.rs
+++ b/pasture-io/src/tiles3d/common.rs
@@ -6,16 +6,23 @@ use pasture_core::{
 use serde_json::Value;
 use std::{
     convert::TryInto,
-    io::{BufRead, Seek, Write},
+    io::{BufRead, Read, Seek, Write},
 };
 
 /// Reads a JSON header (e.g. FeatureTable or BatchTable header) from the given `reader` according to the given
 /// `header_size`
 pub fn read_json_header<R: BufRead + Seek>(mut reader: R, header_size: usize) -> Result<Value> {
-    let mut str_buf = vec![0; header_size];
+    // The header size comes from the file, so don't allocate memory based on it without knowing that
+    // there is actually that much data
+    let mut str_buf = vec![];
     reader
-        .read_exact(str_buf.as_mut_slice())
-        .context("JSON header size is larger than the remaining number of bytes in the reader")?;
+        .by_ref()
+        .take(header_size as u64)
+        .read_to_end(&mut str_buf)
+        .context("Could not read JSON header")?;
+    if str_buf.len() < header_size {
+        bail!("JSON header size is larger than the remaining number of bytes in the reader");
+    }
     let header_text = String::from_utf8(str_buf).context("JSON header is no valid UTF-8 text")?;
     let json: Value =
         serde_json::from_str(header_text.as_str()).context("Could not parse JSON header")?;
-- 
2.43.0


From 7faf6edbae1eecb39fad4bb49e5990e8b94840dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 23/43] fix: PntsReader rejects files whose attributes do not
 lie within the feature table

---
 pasture-io/src/tiles3d/pnts_reader.rs | 31 +++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index 41f081b..49f3c64 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -77,6 +77,13 @@ impl<R: BufRead + Seek> PntsReader<R> {
             Self::layout_from_feature_table_header(&mut feature_table_header)?;
         let metadata = Self::metadata_from_feature_table_header(&mut feature_table_header)?;
 
+        Self::verify_attribute_ranges(
+            &layout,
+            &attribute_offsets,
+            metadata.points_length(),
+            header.feature_table_binary_byte_length as u64,
+        )?;
+
         // TODO Log all parameters that could not be parsed. This requires logging support for pasture
 
         let feature_table_binary_offset = read.stream_position()?;
@@ -175,6 +182,30 @@ impl<R: BufRead + Seek> PntsReader<R> {
         Ok((layout, attribute_offsets))
     }
 
+    /// Verifies that the values of all attributes in the given `layout` lie within the binary body of the FeatureTable
+    fn verify_attribute_ranges(
+        layout: &PointLayout,
+        attribute_offsets: &HashMap<String, u64>,
+        num_points: usize,
+        feature_table_binary_byte_length: u64,
+    ) -> Result<()> {
+        for attribute in layout.attributes() {
+            let end_of_attribute = attribute
+                .size()
+                .checked_mul(num_points as u64)
+                .and_then(|byte_size| byte_size.checked_add(attribute_offsets[attribute.name()]));
+            match end_of_attribute {
+                Some(end) if end <= feature_table_binary_byte_length => (),
+                _ => bail!(
+                    "Values of attribute {} exceed the size of the FeatureTable binary body ({} bytes)",
+                    attribute.name(),
+                    feature_table_binary_byte_length
+                ),
+            }
+        }
+        Ok(())
+    }
+
     fn metadata_from_feature_table_header(
         header: &mut HashMap<String, FeatureTableValue>,
     ) -> Result<PntsMetadata> {
-- 
2.43.0


From bd80930519186d7a40608f592797c4464804226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 24/43] fix: AsciiWriter writes the classification and user
 data columns from their own attributes

---
 pasture-io/src/ascii/raw_writer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index 4e8da8c..731a9ad 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -124,15 +124,13 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
                         }
                         PointDataType::Classification => {
                             let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
+                                point.get_attribute::<u64>(&attributes::CLASSIFICATION)?;
                             self.writer
                                 .write_all(classification.to_string().as_bytes())?;
                         }
                         PointDataType::UserData => {
-                            let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
-                            self.writer
-                                .write_all(classification.to_string().as_bytes())?;
+                            let user_data = point.get_attribute::<u64>(&attributes::USER_DATA)?;
+                            self.writer.write_all(user_data.to_string().as_bytes())?;
                         }
                         PointDataType::ColorR => {
                             let color =
-- 
2.43.0


From 9ddc0eaf3fe49274771042166e5f92ade10bcac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 25/43] fix: AsciiWriter refuses points without the required
 attributes before writing anything

---
 pasture-io/src/ascii/ascii_format_util.rs | 26 +++++++++++++++++++++++
 pasture-io/src/ascii/raw_writer.rs        |  9 +++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/ascii/ascii_format_util.rs b/pasture-io/src/ascii/ascii_format_util.rs
index bf55ada..ef8ff51 100644
--- a/pasture-io/src/ascii/ascii_format_util.rs
+++ b/pasture-io/src/ascii/ascii_format_util.rs
@@ -1,4 +1,6 @@
 use anyhow::{bail, Result};
+use pasture_core::layout::{attributes, PointAttributeDefinition};
+
 // This enum maps the different entrys on an ascii file to later map these entries to the corresponding attribute.
 #[derive(Debug)]
 pub(crate) enum PointDataType {
@@ -29,6 +31,30 @@ impl std::fmt::Display for PointDataType {
 }
 
 impl PointDataType {
+    /// Returns the point attribute that contains the data of this entry. Returns `None` if this entry should be skipped
+    pub(crate) fn attribute(&self) -> Option<PointAttributeDefinition> {
+        match self {
+            PointDataType::Skip => None,
+            PointDataType::CoordinateX
+            | PointDataType::CoordinateY
+            | PointDataType::CoordinateZ => Some(attributes::POSITION_3D),
+            PointDataType::Intensity => Some(attributes::INTENSITY),
+            PointDataType::ReturnNumber => Some(attributes::RETURN_NUMBER),
+            PointDataType::NumberOfReturns => Some(attributes::NUMBER_OF_RETURNS),
+            PointDataType::Classification => Some(attributes::CLASSIFICATION),
+            PointDataType::UserData => Some(attributes::USER_DATA),
+            PointDataType::ColorR | PointDataType::ColorG | PointDataType::ColorB => {
+                Some(attributes::COLOR_RGB)
+            }
+            PointDataType::GpsTime => Some(attributes::GPS_TIME),
+            PointDataType::PointSourceID => Some(attributes::POINT_SOURCE_ID),
+            PointDataType::EdgeOfFlightLine => Some(attributes::EDGE_OF_FLIGHT_LINE),
+            PointDataType::ScanDirectionFlag => Some(attributes::SCAN_DIRECTION_FLAG),
+            PointDataType::ScanAngleRank => Some(attributes::SCAN_ANGLE_RANK),
+            PointDataType::Nir => Some(attributes::NIR),
+        }
+    }
+
     //from LAStools
     //s - skip this number
     //x - x coordinate
diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index 731a9ad..a11e690 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -1,6 +1,6 @@
 use super::PointDataType;
 use crate::base::PointWriter;
-use anyhow::{Context, Result};
+use anyhow::{bail, Context, Result};
 use pasture_core::containers::{BorrowedBuffer, UntypedPoint, UntypedPointSlice};
 use pasture_core::layout::{attributes, PointLayout};
 use pasture_core::nalgebra::Vector3;
@@ -45,6 +45,13 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
         //let point = UntypedPointBuffer::new(&self.default_layout);
         let buffer_layout = points.point_layout();
 
+        // Don't write incomplete lines if the points can't be written in the given format
+        for attribute in self.parse_layout.iter().filter_map(|item| item.attribute()) {
+            if !buffer_layout.has_attribute(&attribute) {
+                bail!("Cannot find attribute.");
+            }
+        }
+
         // Similar to RawLASReader, write points in chunks of a fixed size to prevent overhead of
         // repeated virtual calls to 'dyn PointBuffer'
 
-- 
2.43.0


From be50cbc79ae95bc5a0905cd701d52a1069b12915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 26/43] fix: the default layout of AsciiReader follows the
 format string instead of a random hash order

---
 pasture-io/src/ascii/raw_reader.rs | 35 +++++++-----------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index a7fdf0c..812927e 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -3,12 +3,11 @@ use byteorder::{LittleEndian, WriteBytesExt};
 use itertools::{EitherOrBoth::*, Itertools};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::layout::attributes;
+use pasture_core::layout::FieldAlignment;
 use pasture_core::layout::PointAttributeDefinition;
 use pasture_core::layout::PointLayout;
 use pasture_core::meta::Metadata;
-use std::collections::HashSet;
 use std::io::{BufRead, Read};
-use std::iter::FromIterator;
 use std::str::FromStr;
 
 use super::AsciiMetadata;
@@ -39,31 +38,13 @@ impl<T: Read + BufRead> RawAsciiReader<T> {
     }
 
     fn get_point_layout_from_parse_layout(parse_layout: &[PointDataType]) -> PointLayout {
-        let hashset = parse_layout
-            .iter()
-            .filter(|data_type| !matches!(data_type, PointDataType::Skip))
-            .map(|data_type| match data_type {
-                PointDataType::CoordinateX
-                | PointDataType::CoordinateY
-                | PointDataType::CoordinateZ => attributes::POSITION_3D,
-                PointDataType::Intensity => attributes::INTENSITY,
-                PointDataType::ReturnNumber => attributes::RETURN_NUMBER,
-                PointDataType::NumberOfReturns => attributes::NUMBER_OF_RETURNS,
-                PointDataType::Classification => attributes::CLASSIFICATION,
-                PointDataType::UserData => attributes::USER_DATA,
-                PointDataType::ColorR | PointDataType::ColorG | PointDataType::ColorB => {
-                    attributes::COLOR_RGB
-                }
-                PointDataType::GpsTime => attributes::GPS_TIME,
-                PointDataType::PointSourceID => attributes::POINT_SOURCE_ID,
-                PointDataType::EdgeOfFlightLine => attributes::EDGE_OF_FLIGHT_LINE,
-                PointDataType::ScanDirectionFlag => attributes::SCAN_DIRECTION_FLAG,
-                PointDataType::ScanAngleRank => attributes::SCAN_ANGLE_RANK,
-                PointDataType::Nir => attributes::NIR,
-                PointDataType::Skip => panic!("Skip should be filtered"),
-            })
-            .collect::<HashSet<_>>();
-        PointLayout::from_attributes(&Vec::from_iter(hashset))
+        let mut point_layout = PointLayout::default();
+        for attribute in parse_layout.iter().filter_map(|item| item.attribute()) {
+            if !point_layout.has_attribute(&attribute) {
+                point_layout.add_attribute(attribute, FieldAlignment::Default);
+            }
+        }
+        point_layout
     }
 
     fn parse_point(
-- 
2.43.0


From 2d6e01e85586ddf039bfe800a5eb0653008df1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 27/43] fix: AsciiReader returns the number of points that were
 actually read

---
 pasture-io/src/ascii/raw_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index 812927e..e3186f9 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -282,6 +282,7 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
     {
         let layout = point_buffer.point_layout().clone();
         let mut temp_point = UntypedPointBuffer::new(&layout);
+        let mut num_points_read = 0;
         //read line by line
         for (index, line) in (&mut self.reader).lines().take(count).enumerate() {
             let line = line?;
@@ -292,8 +293,9 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
             unsafe {
                 point_buffer.set_point(index, temp_point.get_buffer());
             }
+            num_points_read += 1;
         }
-        Ok(count)
+        Ok(num_points_read)
     }
 
     fn get_default_point_layout(&self) -> &PointLayout {
-- 
2.43.0


From 24d39dcfb93fae281ca0f5ec81c3d0f883c04552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 28/43] fix: AsciiReader converts attributes into the datatypes
 of the target buffer

---
 pasture-io/src/ascii/raw_reader.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index e3186f9..1f2a847 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -3,6 +3,7 @@ use byteorder::{LittleEndian, WriteBytesExt};
 use itertools::{EitherOrBoth::*, Itertools};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::layout::attributes;
+use pasture_core::layout::conversion::RawPointConverter;
 use pasture_core::layout::FieldAlignment;
 use pasture_core::layout::PointAttributeDefinition;
 use pasture_core::layout::PointLayout;
@@ -280,8 +281,13 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
     where
         'a: 'b,
     {
-        let layout = point_buffer.point_layout().clone();
-        let mut temp_point = UntypedPointBuffer::new(&layout);
+        // Lines are parsed in the default layout, whose datatypes are the ones that the format literals define,
+        // and then converted into the layout of `point_buffer`
+        let default_layout = self.point_layout.clone();
+        let converter = RawPointConverter::from_to(&default_layout, point_buffer.point_layout());
+        let mut temp_point = UntypedPointBuffer::new(&default_layout);
+        let mut converted_point =
+            vec![0; point_buffer.point_layout().size_of_point_entry() as usize];
         let mut num_points_read = 0;
         //read line by line
         for (index, line) in (&mut self.reader).lines().take(count).enumerate() {
@@ -291,7 +297,8 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
                 .with_context(|| format!("ReadError in line {}.", index))?;
             //put it in the buffer
             unsafe {
-                point_buffer.set_point(index, temp_point.get_buffer());
+                converter.convert(temp_point.get_buffer(), &mut converted_point);
+                point_buffer.set_point(index, &converted_point);
             }
             num_points_read += 1;
         }
-- 
2.43.0


From 1607d393f4cd9845413380745cebbcf6a57452d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 29/43] fix: LAS positions are rounded to the nearest
 representable position, and positions out of range are an error

---
 pasture-io/src/las/write_helpers.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/write_helpers.rs b/pasture-io/src/las/write_helpers.rs
index ecb420b..2e096a2 100644
--- a/pasture-io/src/las/write_helpers.rs
+++ b/pasture-io/src/las/write_helpers.rs
@@ -1,6 +1,6 @@
 use std::{convert::TryInto, io::Write};
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 use byteorder::{LittleEndian, WriteBytesExt};
 use pasture_core::nalgebra::Vector3;
 
@@ -12,9 +12,28 @@ pub(crate) fn write_position_as_las_position<T: Write>(
     las_header: &las::raw::Header,
     mut writer: T,
 ) -> Result<()> {
-    let local_x : i32 = (((world_space_position.x - las_header.x_offset) / las_header.x_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_y : i32 = (((world_space_position.y - las_header.y_offset) / las_header.y_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_z : i32 = (((world_space_position.z - las_header.z_offset) / las_header.z_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    // Rounds to the nearest position that the file can represent
+    let to_local = |world: f64, offset: f64, scale: f64| -> Result<i32> {
+        let local = ((world - offset) / scale).round() as i64;
+        local
+            .try_into()
+            .context("Position is out of bounds given the current LAS offset and scale!")
+    };
+    let local_x = to_local(
+        world_space_position.x,
+        las_header.x_offset,
+        las_header.x_scale_factor,
+    )?;
+    let local_y = to_local(
+        world_space_position.y,
+        las_header.y_offset,
+        las_header.y_scale_factor,
+    )?;
+    let local_z = to_local(
+        world_space_position.z,
+        las_header.z_offset,
+        las_header.z_scale_factor,
+    )?;
     writer.write_i32::<LittleEndian>(local_x)?;
     writer.write_i32::<LittleEndian>(local_y)?;
     writer.write_i32::<LittleEndian>(local_z)?;
-- 
2.43.0


From 137661e27b39d8050baed531e26cc425e202a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 30/43] fix: LAS writers count the points by return for buffers
 in any layout

---
 pasture-io/src/las/raw_writers.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 1d580b2..ebdde1e 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -463,12 +463,17 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                 write_position_as_las_position(&position, &self.current_header, &mut self.writer)?;
                 update_bounds_in_las_header(&position, &mut self.current_header);
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
+
                 self.writer
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -489,7 +494,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
@@ -1000,12 +1005,17 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                 )?;
                 update_bounds_in_las_header(&position, &mut self.current_header);
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
+
                 las_point_write
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -1026,7 +1036,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
-- 
2.43.0


From 7f8953e8b3fe466731cb59f1254057cddc98ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 31/43] fix: writing LAZ points in a custom layout compresses
 exactly the given points

---
 pasture-io/src/las/raw_writers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index ebdde1e..c06c35d 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -1113,10 +1113,10 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
             }
 
             las_point_buffer = las_point_write.into_inner();
-            self.writer.compress_many(
-                &las_point_buffer[0..num_points_in_chunk
-                    * self.current_header.point_data_record_length as usize],
-            )?;
+            let bytes_in_current_las_chunk =
+                points_in_cur_chunk * self.current_header.point_data_record_length as usize;
+            self.writer
+                .compress_many(&las_point_buffer[..bytes_in_current_las_chunk])?;
 
             chunk_buffer = point_read.into_inner();
         }
-- 
2.43.0


From 79d9a8664b596483e9d67a285457537e7be543e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 32/43] fix: LASWriter continues after the written points when
 a flush or a write fails, flushes its destination and updates the start of
 the EVLRs

---
 pasture-io/src/las/raw_writers.rs | 54 +++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index c06c35d..c6cf52d 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -96,8 +96,10 @@ pub(crate) struct RawLASWriter<T: std::io::Write + std::io::Seek> {
     default_layout: PointLayout,
     current_header: las::raw::Header,
     evlrs: Vec<las::raw::Vlr>,
-    _point_start_index: u64,
+    point_start_index: u64,
     requires_flush: bool,
+    /// Is `writer` known to be at the end of the points written so far?
+    is_at_end_of_points: bool,
 }
 
 impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
@@ -149,8 +151,9 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                 .iter()
                 .map(|evlr| evlr.clone().into_raw(true))
                 .collect::<Result<Vec<_>, _>>()?,
-            _point_start_index: point_start_index,
+            point_start_index,
             requires_flush: true,
+            is_at_end_of_points: true,
         })
     }
 
@@ -161,23 +164,36 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
         Ok(self.writer)
     }
 
+    /// Offset in the file to the first byte after the points written so far
+    fn end_of_points(&self) -> u64 {
+        let num_points = self
+            .current_header
+            .large_file
+            .as_ref()
+            .expect("LAS header must contain large_file field!")
+            .number_of_point_records;
+        self.point_start_index + num_points * self.current_header.point_data_record_length as u64
+    }
+
     /// Writes the current header to the start of the file
     fn write_header(&mut self) -> Result<()> {
         finalize_las_header(&mut self.current_header);
 
-        let current_position = self.writer.stream_position()?;
         self.writer.seek(SeekFrom::Start(0))?;
         self.current_header.write_to(&mut self.writer)?;
-        self.writer.seek(SeekFrom::Start(current_position))?;
         Ok(())
     }
 
-    /// Writes the extended VLRs to the end of the file
+    /// Writes the extended VLRs after the points
     fn write_evlrs(&mut self) -> Result<()> {
-        // Assumes that self.writer is at the end of the file!
+        let end_of_points = self.end_of_points();
+        self.writer.seek(SeekFrom::Start(end_of_points))?;
         for evlr in self.evlrs.iter() {
             evlr.write_to(&mut self.writer)?;
         }
+        if let Some(evlr_header) = self.current_header.evlr.as_mut() {
+            evlr_header.start_of_first_evlr = end_of_points;
+        }
         Ok(())
     }
 
@@ -338,8 +354,6 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             &points_by_return,
             &mut self.current_header,
         );
-        self.requires_flush = true;
-
         Ok(())
     }
 
@@ -583,19 +597,31 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             &points_by_return,
             &mut self.current_header,
         );
-        self.requires_flush = true;
-
         Ok(())
     }
 }
 
 impl<T: std::io::Write + std::io::Seek> PointWriter for RawLASWriter<T> {
     fn write<'a, B: BorrowedBuffer<'a>>(&mut self, points: &'a B) -> Result<()> {
-        if *points.point_layout() == self.default_layout {
+        if !self.is_at_end_of_points {
+            let end_of_points = self.end_of_points();
+            self.writer.seek(SeekFrom::Start(end_of_points))?;
+        }
+
+        // If writing fails, the next write has to continue after the points that were written successfully
+        self.is_at_end_of_points = false;
+        self.requires_flush = true;
+        let header_before_write = self.current_header.clone();
+        let result = if *points.point_layout() == self.default_layout {
             self.write_points_default_layout(points)
         } else {
             self.write_points_custom_layout(points)
+        };
+        match result {
+            Ok(_) => self.is_at_end_of_points = true,
+            Err(_) => self.current_header = header_before_write,
         }
+        result
     }
 
     fn flush(&mut self) -> Result<()> {
@@ -603,10 +629,10 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawLASWriter<T> {
             return Ok(());
         }
 
-        let current_index = self.writer.stream_position()?;
-        self.write_header()?;
+        self.is_at_end_of_points = false;
         self.write_evlrs()?;
-        self.writer.seek(SeekFrom::Start(current_index))?;
+        self.write_header()?;
+        self.writer.flush()?;
 
         self.requires_flush = false;
 
-- 
2.43.0


From 788b232298188a4a0eb18db1a62f2fffcc1a99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 33/43] fix: LASWriter writes the padding after the VLRs
 instead of panicking

---
 pasture-io/src/las/raw_writers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index c6cf52d..881ddc8 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -139,6 +139,8 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             raw_vlr.write_to(&mut write)?;
         }
 
+        write.write_all(header.vlr_padding())?;
+
         let point_start_index = write.stream_position()?;
         assert_eq!(point_start_index, raw_header.offset_to_point_data as u64);
 
-- 
2.43.0


From e83fa9622b43a588e7e7eb64bd0c122ca0e0bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 34/43] fix: LAZ files keep the VLRs, VLR padding and EVLRs of
 the given header

---
 pasture-io/src/las/raw_writers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 881ddc8..33b58c1 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -701,7 +701,10 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
         };
 
         let mut header_builder = Builder::new(raw_header)?;
+        header_builder.vlrs = header.vlrs().clone();
         header_builder.vlrs.push(laz_vlr);
+        header_builder.vlr_padding = header.vlr_padding().clone();
+        header_builder.evlrs = header.evlrs().clone();
         let header_with_laz_vlr = header_builder.into_header()?;
         header_with_laz_vlr
             .clone()
@@ -1177,6 +1180,9 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
     fn write_evlrs(&mut self) -> Result<()> {
         let mut raw_writer = self.writer.get_mut();
         // Assumes that self.writer is at the end of the file!
+        if let Some(evlr_header) = self.current_header.evlr.as_mut() {
+            evlr_header.start_of_first_evlr = raw_writer.stream_position()?;
+        }
         for evlr in self.evlrs.iter() {
             evlr.write_to(&mut raw_writer)?;
         }
-- 
2.43.0


From 1846f96976efa7baf2da6b5d58c0e5906661f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 35/43] fix: writing points to a LAZ file of a version before
 1.4 no longer panics

---
 pasture-io/src/las/raw_writers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 33b58c1..da191f2 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -721,10 +721,15 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
         let laz_writer = LasZipCompressor::new(write, raw_laz_vlr).map_err(map_laz_err)?;
 
+        let mut current_header = header_with_laz_vlr.into_raw()?;
+        current_header
+            .large_file
+            .get_or_insert_with(Default::default);
+
         Ok(Self {
             writer: laz_writer,
             default_layout,
-            current_header: header_with_laz_vlr.into_raw()?,
+            current_header,
             evlrs: header
                 .evlrs()
                 .iter()
-- 
2.43.0


From 699ba3fd6bf6c6594e57b0bba3371a0d1fe2b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 36/43] fix: LAZ files are finished once, and a writer that
 failed does not report success afterwards

---
 pasture-io/src/las/raw_writers.rs | 46 +++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index da191f2..5bf9477 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -4,7 +4,7 @@ use std::{
     io::{Cursor, SeekFrom},
 };
 
-use anyhow::{anyhow, Context, Result};
+use anyhow::{anyhow, bail, Context, Result};
 use byteorder::{LittleEndian, NativeEndian, ReadBytesExt, WriteBytesExt};
 use las_rs::{point::Format, Builder, Vlr};
 use laz::{LasZipCompressor, LazItemRecordBuilder, LazVlr};
@@ -651,7 +651,10 @@ pub(crate) struct RawLAZWriter<T: std::io::Write + std::io::Seek + Send + 'stati
     default_layout: PointLayout,
     current_header: las::raw::Header,
     evlrs: Vec<las::raw::Vlr>,
+    /// The compressed data ends with the first flush
     requires_flush: bool,
+    /// Once writing or flushing has failed, the state of the compressor is unknown
+    has_failed: bool,
 }
 
 impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
@@ -735,7 +738,8 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                 .iter()
                 .map(|evlr| evlr.clone().into_raw(true))
                 .collect::<Result<Vec<_>, _>>()?,
-            requires_flush: false,
+            requires_flush: true,
+            has_failed: false,
         })
     }
 
@@ -912,8 +916,6 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
             &points_by_return,
             &mut self.current_header,
         );
-        self.requires_flush = true;
-
         Ok(())
     }
 
@@ -1162,8 +1164,6 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
             &points_by_return,
             &mut self.current_header,
         );
-        self.requires_flush = true;
-
         Ok(())
     }
 
@@ -1195,19 +1195,47 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
     }
 
     fn do_flush(&mut self) -> Result<()> {
+        self.check_not_failed()?;
+        if !self.requires_flush {
+            return Ok(());
+        }
+
+        self.has_failed = true;
         self.writer.done()?;
         self.write_evlrs()?;
-        self.write_header()
+        self.write_header()?;
+        self.writer.get_mut().flush()?;
+        self.has_failed = false;
+        self.requires_flush = false;
+        Ok(())
+    }
+
+    fn check_not_failed(&self) -> Result<()> {
+        if self.has_failed {
+            bail!("The LAZ file is incomplete because writing to it has failed before");
+        }
+        Ok(())
     }
 }
 
 impl<T: std::io::Write + std::io::Seek + Send + 'static> PointWriter for RawLAZWriter<T> {
     fn write<'a, B: BorrowedBuffer<'a>>(&mut self, points: &'a B) -> Result<()> {
-        if *points.point_layout() != self.default_layout {
+        self.check_not_failed()?;
+        if points.is_empty() {
+            return Ok(());
+        }
+        if !self.requires_flush {
+            bail!("Points can't be added to a LAZ file after it has been flushed");
+        }
+
+        self.has_failed = true;
+        let result = if *points.point_layout() != self.default_layout {
             self.write_points_custom_layout(points)
         } else {
             self.write_points_default_layout(points)
-        }
+        };
+        self.has_failed = result.is_err();
+        result
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From fe690c74ea6234a9e9e45655c1bd149db8286ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 37/43] fix: undescribed extra bytes in LAS points have the
 size that the described ones leave

---
 pasture-io/src/las/las_layout.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index 439008f..4d637c6 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -168,13 +168,15 @@ pub fn point_layout_from_las_metadata(
         base_layout.add_attribute(extra_byte_attribute, FieldAlignment::Packed(1));
     }
 
-    let num_undescribed_bytes = format.extra_bytes as usize - num_described_bytes;
+    let num_undescribed_bytes = (format.extra_bytes as usize)
+        .checked_sub(num_described_bytes)
+        .ok_or_else(|| anyhow!("Extra Bytes VLR describes more bytes than the points have"))?;
     if num_undescribed_bytes > 0 {
         // Add a PointAttributeDefinition describing a raw byte array for all undescribed extra bytes
         base_layout.add_attribute(
             PointAttributeDefinition::custom(
                 Cow::Borrowed("UndescribedExtraBytes"),
-                PointAttributeDataType::ByteArray(num_described_bytes as u64),
+                PointAttributeDataType::ByteArray(num_undescribed_bytes as u64),
             ),
             FieldAlignment::Packed(1),
         );
-- 
2.43.0


From 3f82b09a7e8b47b27a5d6187a1ebc8a2cbf6c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 38/43] fix: LASWriter writes extra bytes, which its header
 already announces

---
 pasture-io/src/las/raw_writers.rs  | 27 +++++++++++++----
 pasture-io/src/las/read_helpers.rs | 48 +++++++++++++++++++++++++++++-
 2 files changed, 68 insertions(+), 7 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 5bf9477..8d1c1f6 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, SeekFrom},
+    io::{Cursor, Read, SeekFrom},
 };
 
 use anyhow::{anyhow, bail, Context, Result};
@@ -14,11 +14,12 @@ use crate::base::PointWriter;
 
 use super::{
     get_classification_flags_reader, get_classification_reader, get_color_reader,
-    get_edge_of_flight_line_reader, get_extended_scan_angle_rank_reader, get_gps_time_reader,
-    get_intensity_reader, get_nir_reader, get_number_of_returns_reader, get_point_source_id_reader,
-    get_position_reader, get_return_number_reader, get_return_point_waveform_location_reader,
-    get_scan_angle_rank_reader, get_scan_direction_flag_reader, get_scanner_channel_reader,
-    get_user_data_reader, get_wave_packet_descriptor_index_reader, get_waveform_data_offset_reader,
+    get_edge_of_flight_line_reader, get_extended_scan_angle_rank_reader, get_extra_bytes_readers,
+    get_gps_time_reader, get_intensity_reader, get_nir_reader, get_number_of_returns_reader,
+    get_point_source_id_reader, get_position_reader, get_return_number_reader,
+    get_return_point_waveform_location_reader, get_scan_angle_rank_reader,
+    get_scan_direction_flag_reader, get_scanner_channel_reader, get_user_data_reader,
+    get_wave_packet_descriptor_index_reader, get_waveform_data_offset_reader,
     get_waveform_packet_size_reader, get_waveform_parameters_reader, map_laz_err,
     point_layout_from_las_metadata, write_las_bit_attributes, write_position_as_las_position,
     BitAttributes, BitAttributesExtended, BitAttributesRegular,
@@ -216,6 +217,9 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
         let mut chunk_buffer: Vec<u8> = vec![0; num_points_in_chunk * size_of_single_point];
 
         let source_format = Format::new(self.current_header.point_data_record_format)?;
+        let num_extra_bytes =
+            self.current_header.point_data_record_length as usize - source_format.len() as usize;
+        let mut extra_bytes = vec![0; num_extra_bytes];
 
         let mut points_by_return: HashMap<u8, u64> = HashMap::new();
         let max_return_number = if self.current_header.large_file.is_some() {
@@ -346,6 +350,10 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     self.writer.write_f32::<LittleEndian>(py)?;
                     self.writer.write_f32::<LittleEndian>(pz)?;
                 }
+
+                // The extra bytes are the last attributes of the default layout, without any padding
+                point_read.read_exact(&mut extra_bytes)?;
+                self.writer.write_all(&extra_bytes)?;
             }
 
             chunk_buffer = point_read.into_inner();
@@ -373,6 +381,8 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
         let mut chunk_buffer: Vec<u8> = vec![0; num_points_in_chunk * size_of_single_point];
 
         let target_format = Format::new(self.current_header.point_data_record_format)?;
+        let extra_bytes_readers =
+            get_extra_bytes_readers(points.point_layout(), &self.default_layout, &target_format)?;
 
         let mut points_by_return: HashMap<u8, u64> = HashMap::new();
         let max_return_number = if self.current_header.large_file.is_some() {
@@ -589,6 +599,11 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     self.writer.write_f32::<LittleEndian>(params.y)?;
                     self.writer.write_f32::<LittleEndian>(params.z)?;
                 }
+
+                for reader in extra_bytes_readers.iter() {
+                    self.writer
+                        .write_all(&reader(point_index, &mut point_read)?)?;
+                }
             }
 
             chunk_buffer = point_read.into_inner();
diff --git a/pasture-io/src/las/read_helpers.rs b/pasture-io/src/las/read_helpers.rs
index 9cc16d7..6f62827 100644
--- a/pasture-io/src/las/read_helpers.rs
+++ b/pasture-io/src/las/read_helpers.rs
@@ -2,13 +2,16 @@ use std::io::Cursor;
 
 use anyhow::Result;
 use byteorder::{NativeEndian, ReadBytesExt};
+use las::point::Format;
 use pasture_core::{
     layout::attributes,
-    layout::conversion::get_converter_for_attributes,
+    layout::conversion::{convert_unit, get_converter_for_attributes},
     layout::{conversion::AttributeConversionFn, PointAttributeMember, PointLayout, PrimitiveType},
     nalgebra::Vector3,
 };
 
+use super::point_layout_from_las_point_format;
+
 /// ReaderFn is a helper function that allows reading a single value of a specific point attribute from an arbitrary
 /// buffer, applying all necessary conversions or falling back to default values if required. This abstraction is
 /// necessary to deal with the general case of an arbitrary source point layout in the LASWriter that has to be
@@ -488,6 +491,49 @@ make_get_reader_fn!(
     read_waveform_parameters_in_default_layout
 );
 
+/// Returns readers for the extra bytes attributes of `las_layout`, i.e. all attributes after those that the given `format`
+/// defines. The readers return the attribute values as raw bytes. Attributes that `source_layout` lacks are zero
+pub(crate) fn get_extra_bytes_readers(
+    source_layout: &PointLayout,
+    las_layout: &PointLayout,
+    format: &Format,
+) -> Result<Vec<ReaderFn<Vec<u8>>>> {
+    let num_standard_attributes = point_layout_from_las_point_format(format, false)?
+        .attributes()
+        .count();
+    let size_of_single_point = source_layout.size_of_point_entry() as usize;
+    las_layout
+        .attributes()
+        .skip(num_standard_attributes)
+        .map(|las_attribute| -> Result<ReaderFn<Vec<u8>>> {
+            let size = las_attribute.size() as usize;
+            let source_attribute = match source_layout.get_attribute_by_name(las_attribute.name()) {
+                None => return Ok(Box::new(move |_, _| Ok(vec![0; size]))),
+                Some(attribute) => attribute.clone(),
+            };
+            // There is no converter for attributes with equal datatypes, these are copied
+            let converter = get_converter_for_attributes(
+                source_attribute.attribute_definition(),
+                las_attribute.attribute_definition(),
+            )
+            .unwrap_or(convert_unit);
+            Ok(Box::new(move |current_point_index, point_read| {
+                let attribute_start = (current_point_index * size_of_single_point)
+                    + source_attribute.offset() as usize;
+                let attribute_end = attribute_start + source_attribute.size() as usize;
+                let mut ret = vec![0; size];
+                unsafe {
+                    converter(
+                        &point_read.get_ref()[attribute_start..attribute_end],
+                        &mut ret,
+                    );
+                }
+                Ok(ret)
+            }))
+        })
+        .collect()
+}
+
 /// Attempts to convert the given LAS string (a fixed-size byte array, potentially null-terminated) into a
 /// Rust `String`. As per the LAS specification, `las_string` will be null-terminated ONLY IF the length of
 /// the string is less than the size of the array (i.e. `N`)!
-- 
2.43.0


From b503b39b77d74e27cbf502f9671af4497128014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 39/43] fix: parsing an Extra Bytes VLR does not depend on the
 alignment of its data

---
 pasture-io/src/las/las_metadata.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index f53bfa8..deba5b5 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -711,10 +711,12 @@ impl TryFrom<&'_ Vlr> for ExtraBytesVlr {
             bail!("VLR data size ({} bytes) is not a multiple of the size of an EXTRA_BYTES entry ({} bytes)", value.data.len(), RAW_EXTRA_BYTES_ENTRY_SIZE);
         }
 
-        let raw_entries: &[RawExtraBytesEntry] = bytemuck::cast_slice(&value.data);
-        let entries = raw_entries
-            .iter()
-            .map(|raw_entry| raw_entry.try_into())
+        // The VLR data is not necessarily aligned
+        let entries = value
+            .data
+            .chunks_exact(RAW_EXTRA_BYTES_ENTRY_SIZE)
+            .map(|entry| bytemuck::pod_read_unaligned::<RawExtraBytesEntry>(entry))
+            .map(|raw_entry| (&raw_entry).try_into())
             .collect::<Result<_, _>>()?;
 
         Ok(Self { entries })
-- 
2.43.0


From bcffb3b4ec56092ea1d853028b0ef9416c3cafcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 40/43] fix: a failed read or seek in a LAS or LAZ file leaves
 the reader at its position, and seeking before the first point is an error

---
 pasture-io/src/las/raw_readers.rs | 127 +++++++++++++++++++-----------
 1 file changed, 83 insertions(+), 44 deletions(-)

diff --git a/pasture-io/src/las/raw_readers.rs b/pasture-io/src/las/raw_readers.rs
index 2b611c4..77c90ac 100644
--- a/pasture-io/src/las/raw_readers.rs
+++ b/pasture-io/src/las/raw_readers.rs
@@ -166,6 +166,23 @@ fn get_default_las_converter<'a>(
     Ok(converter)
 }
 
+/// Returns the index of the point that a seek to `position` ends at
+fn position_of_seek(
+    position: SeekFrom,
+    current_point_index: usize,
+    point_count: usize,
+) -> Result<usize> {
+    let new_position = match position {
+        SeekFrom::Start(from_start) => from_start as i128,
+        SeekFrom::End(from_end) => point_count as i128 + from_end as i128,
+        SeekFrom::Current(from_current) => current_point_index as i128 + from_current as i128,
+    };
+    if new_position < 0 {
+        bail!("It is an error to seek to a point position smaller than zero!");
+    }
+    Ok(new_position.min(point_count as i128) as usize)
+}
+
 pub(crate) trait LASReaderBase {
     /// Returns the remaining number of points in the underyling `LASReaderBase`
     fn remaining_points(&self) -> usize;
@@ -178,6 +195,8 @@ pub struct RawLASReader<T: Read + Seek> {
     layout: PointLayout,
     las_point_records_layout: PointLayout,
     current_point_index: usize,
+    /// Is `reader` known to be at the point with the index `current_point_index`?
+    is_at_current_point: bool,
     offset_to_first_point_in_file: u64,
     size_of_point_in_file: u64,
 }
@@ -235,6 +254,7 @@ impl<T: Read + Seek> RawLASReader<T> {
             layout: point_layout,
             las_point_records_layout: matching_memory_layout,
             current_point_index: 0,
+            is_at_current_point: true,
             offset_to_first_point_in_file,
             size_of_point_in_file,
         })
@@ -244,6 +264,21 @@ impl<T: Read + Seek> RawLASReader<T> {
         &self.metadata
     }
 
+    /// Makes the point at `point_index` the next point to read
+    fn go_to_point(&mut self, point_index: usize) -> Result<()> {
+        if self.current_point_index == point_index && self.is_at_current_point {
+            return Ok(());
+        }
+
+        self.is_at_current_point = false;
+        let position_within_file =
+            self.offset_to_first_point_in_file + point_index as u64 * self.size_of_point_in_file;
+        self.reader.seek(SeekFrom::Start(position_within_file))?;
+        self.current_point_index = point_index;
+        self.is_at_current_point = true;
+        Ok(())
+    }
+
     fn read_into_default_layout<'a, 'b, B: BorrowedMutBuffer<'a>>(
         &mut self,
         point_buffer: &'b mut B,
@@ -291,8 +326,6 @@ impl<T: Read + Seek> RawLASReader<T> {
             }
         }
 
-        self.current_point_index += num_points_to_read;
-
         Ok(num_points_to_read)
     }
 
@@ -375,11 +408,17 @@ impl<T: Read + Seek> PointReader for RawLASReader<T> {
             panic!("point_buffer.len() must be >= count");
         }
 
-        if *point_buffer.point_layout() != self.las_point_records_layout {
-            self.read_into_custom_layout(point_buffer, count)
+        self.go_to_point(self.current_point_index)?;
+        // If reading fails, the next read has to start at the same point again
+        self.is_at_current_point = false;
+        let num_points_read = if *point_buffer.point_layout() != self.las_point_records_layout {
+            self.read_into_custom_layout(point_buffer, count)?
         } else {
-            self.read_into_default_layout(point_buffer, count)
-        }
+            self.read_into_default_layout(point_buffer, count)?
+        };
+        self.current_point_index += num_points_read;
+        self.is_at_current_point = true;
+        Ok(num_points_read)
     }
 
     fn get_metadata(&self) -> &dyn Metadata {
@@ -393,23 +432,12 @@ impl<T: Read + Seek> PointReader for RawLASReader<T> {
 
 impl<T: Read + Seek> SeekToPoint for RawLASReader<T> {
     fn seek_point(&mut self, position: SeekFrom) -> Result<usize> {
-        let new_position = match position {
-            SeekFrom::Start(from_start) => from_start as i64,
-            SeekFrom::End(from_end) => self.metadata.point_count() as i64 + from_end,
-            SeekFrom::Current(from_current) => self.current_point_index as i64 + from_current,
-        };
-        if new_position < 0 {
-            panic!("RawLASReader::seek_point: It is an error to seek to a point position smaller than zero!");
-        }
-        let clamped_position =
-            std::cmp::min(self.metadata.point_count() as i64, new_position) as usize;
-
-        if self.current_point_index != clamped_position {
-            let position_within_file = self.offset_to_first_point_in_file
-                + clamped_position as u64 * self.size_of_point_in_file;
-            self.reader.seek(SeekFrom::Start(position_within_file))?;
-            self.current_point_index = clamped_position;
-        }
+        let position = position_of_seek(
+            position,
+            self.current_point_index,
+            self.metadata.point_count(),
+        )?;
+        self.go_to_point(position)?;
 
         Ok(self.current_point_index)
     }
@@ -421,6 +449,8 @@ pub struct RawLAZReader<'a, T: Read + Seek + Send + 'a> {
     layout: PointLayout,
     las_point_records_layout: PointLayout,
     current_point_index: usize,
+    /// Is `reader` known to be at the point with the index `current_point_index`?
+    is_at_current_point: bool,
     size_of_point_in_file: u64,
 }
 
@@ -482,6 +512,7 @@ impl<'a, T: Read + Seek + Send + 'a> RawLAZReader<'a, T> {
             layout: point_layout,
             las_point_records_layout: matching_memory_layout,
             current_point_index: 0,
+            is_at_current_point: true,
             size_of_point_in_file,
         })
     }
@@ -490,6 +521,19 @@ impl<'a, T: Read + Seek + Send + 'a> RawLAZReader<'a, T> {
         &self.metadata
     }
 
+    /// Makes the point at `point_index` the next point to read
+    fn go_to_point(&mut self, point_index: usize) -> Result<()> {
+        if self.current_point_index == point_index && self.is_at_current_point {
+            return Ok(());
+        }
+
+        self.is_at_current_point = false;
+        self.reader.seek(point_index as u64)?;
+        self.current_point_index = point_index;
+        self.is_at_current_point = true;
+        Ok(())
+    }
+
     fn read_into_default_layout<'b, 'c, B: BorrowedMutBuffer<'b>>(
         &mut self,
         point_buffer: &'c mut B,
@@ -537,8 +581,6 @@ impl<'a, T: Read + Seek + Send + 'a> RawLAZReader<'a, T> {
             }
         }
 
-        self.current_point_index += num_points_to_read;
-
         Ok(num_points_to_read)
     }
 
@@ -596,11 +638,17 @@ impl<'a, T: Read + Seek + Send + 'a> PointReader for RawLAZReader<'a, T> {
             panic!("point_buffer.len() must be >= count");
         }
 
-        if *point_buffer.point_layout() != self.las_point_records_layout {
-            self.read_into_custom_layout(point_buffer, count)
+        self.go_to_point(self.current_point_index)?;
+        // If reading fails, the next read has to start at the same point again
+        self.is_at_current_point = false;
+        let num_points_read = if *point_buffer.point_layout() != self.las_point_records_layout {
+            self.read_into_custom_layout(point_buffer, count)?
         } else {
-            self.read_into_default_layout(point_buffer, count)
-        }
+            self.read_into_default_layout(point_buffer, count)?
+        };
+        self.current_point_index += num_points_read;
+        self.is_at_current_point = true;
+        Ok(num_points_read)
     }
 
     fn get_metadata(&self) -> &dyn Metadata {
@@ -614,21 +662,12 @@ impl<'a, T: Read + Seek + Send + 'a> PointReader for RawLAZReader<'a, T> {
 
 impl<'a, T: Read + Seek + Send + 'a> SeekToPoint for RawLAZReader<'a, T> {
     fn seek_point(&mut self, position: SeekFrom) -> Result<usize> {
-        let new_position = match position {
-            SeekFrom::Start(from_start) => from_start as i64,
-            SeekFrom::End(from_end) => self.metadata.point_count() as i64 + from_end,
-            SeekFrom::Current(from_current) => self.current_point_index as i64 + from_current,
-        };
-        if new_position < 0 {
-            panic!("RawLAZReader::seek_point: It is an error to seek to a point position smaller than zero!");
-        }
-        let clamped_position =
-            std::cmp::min(self.metadata.point_count() as i64, new_position) as usize;
-
-        if self.current_point_index != clamped_position {
-            self.reader.seek(clamped_position as u64)?;
-            self.current_point_index = clamped_position;
-        }
+        let position = position_of_seek(
+            position,
+            self.current_point_index,
+            self.metadata.point_count(),
+        )?;
+        self.go_to_point(position)?;
 
         Ok(self.current_point_index)
     }
-- 
2.43.0


From 8793982658757d74bee6467d54156ee9553ce682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 41/43] fix: PntsWriter does not panic on drop about a failure
 that flush has already returned

---
 pasture-io/src/tiles3d/pnts_writer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 7e86926..22fef97 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -74,6 +74,8 @@ pub struct PntsWriter<W: Write + Seek> {
     requires_flush: bool,
     /// Position of the .pnts data within `writer`, known once the first flush was started
     start_position: Option<u64>,
+    /// Whether the last `flush` failed, so that the caller already knows about the failure
+    failure_reported: bool,
 }
 
 impl<W: Write + Seek> PntsWriter<W> {
@@ -94,6 +96,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             rtc_center: None,
             requires_flush: true,
             start_position: None,
+            failure_reported: false,
         }
     }
 
@@ -413,7 +416,9 @@ impl<W: Write + Seek> PointWriter for PntsWriter<W> {
         if !self.requires_flush {
             return Ok(());
         }
-        self.write_cached_points()
+        let result = self.write_cached_points();
+        self.failure_reported = result.is_err();
+        result
     }
 
     fn get_default_point_layout(&self) -> &PointLayout {
@@ -423,7 +428,13 @@ impl<W: Write + Seek> PointWriter for PntsWriter<W> {
 
 impl<W: Write + Seek> Drop for PntsWriter<W> {
     fn drop(&mut self) {
-        self.flush().expect("Error while flushing PntsWriter")
+        // Dropping the writer must not turn an error that was already returned into a panic
+        let failure_reported = self.failure_reported;
+        if let Err(why) = self.flush() {
+            if !failure_reported && !std::thread::panicking() {
+                panic!("Error while flushing PntsWriter: {why:?}");
+            }
+        }
     }
 }
 
-- 
2.43.0


From 90b542d811f5301868c6ef0f227c7fe132ce8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 42/43] fix: read_all_into appends the points to the buffer

---
 pasture-io/src/base/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/base/mod.rs b/pasture-io/src/base/mod.rs
index 31f8716..9575d7a 100644
--- a/pasture-io/src/base/mod.rs
+++ b/pasture-io/src/base/mod.rs
@@ -2,6 +2,7 @@ use anyhow::{Context, Result};
 use pasture_core::containers::BorrowedBuffer;
 use pasture_core::containers::MakeBufferFromLayout;
 use pasture_core::containers::OwningBuffer;
+use pasture_core::containers::VectorBuffer;
 
 mod reader;
 use std::path::Path;
@@ -49,7 +50,13 @@ pub fn read_all_into<'a, B: OwningBuffer<'a>, P: AsRef<Path>>(
         "Could not determine number of points in point cloud file {}",
         path.as_ref().display()
     ))?;
-    reader.read_into(buffer, num_points)
+    // `read_into` overwrites points and might fail halfway, so the points are only appended once they are all read
+    let mut new_points = VectorBuffer::new_from_layout(buffer.point_layout().clone());
+    new_points.resize(num_points);
+    let num_points_read = reader.read_into(&mut new_points, num_points)?;
+    new_points.resize(num_points_read);
+    buffer.append(&new_points);
+    Ok(num_points_read)
 }
 
 /// Writes all points in the given `buffer` into the file at `path`
-- 
2.43.0


From b96b4fa99005f2eeb0305f0950e2fcaae18841d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 43/43] fix: files with the extension .LAZ in upper case are
 compressed LAS files

---
 pasture-io/src/las/las_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index deba5b5..b90ba83 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -67,7 +67,7 @@ pub fn pasture_bounds_to_las_bounds(bounds: &AABB<f64>) -> Bounds {
 pub fn path_is_compressed_las_file<P: AsRef<Path>>(path: P) -> Result<bool> {
     path.as_ref()
         .extension()
-        .map(|extension| extension == "laz")
+        .map(|extension| extension.eq_ignore_ascii_case("laz"))
         .ok_or(anyhow!(
             "Could not determine file extension of file {}",
             path.as_ref().display()
-- 
2.43.0

