From 09e8ff41c866eca574ebb3958576335f173b26d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 01/13] fix: read fields by name instead of by memory order

The offset table was sorted by offset, so a message storing the requested
fields in another order than the point type swapped their values. Duplicate
field names overflowed the table (debug assertion).
---
 rpcl2/src/iterator.rs | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index a6d703c..d727ae0 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -279,38 +279,21 @@ where
             return Err(MsgConversionError::FieldsNotFound(names_not_found));
         }
 
-        let mut pdata_with_offsets = Vec::with_capacity(N);
-        for field in cloud.fields.iter() {
-            if fields_only.contains(&field.name) {
-                pdata_with_offsets.push((
-                    field.name.clone(),
-                    field.datatype.try_into()?,
-                    field.offset as usize,
-                ));
-            }
-        }
-
-        pdata_with_offsets
-            .sort_unstable_by(|(_, _, offset1), (_, _, offset2)| offset1.cmp(offset2));
-
-        debug_assert!(
-            pdata_with_offsets.len() == N,
-            "Not all fields were found in the message. Expected {} but found {}.",
-            N,
-            pdata_with_offsets.len()
-        );
+        debug_assert!(fields_only.len() == N);
 
+        // Look the fields up by name, so that `offsets` and `pdata` are in the order of the point type.
         let mut offsets = [usize::default(); N];
         let mut pdata = vec![(String::default(), FieldDatatype::default()); N];
-
-        pdata_with_offsets
-            .into_iter()
+        for ((name, pdata), pdata_offset) in fields_only
+            .iter()
             .zip(pdata.iter_mut())
             .zip(offsets.iter_mut())
-            .for_each(|(((name, datatype, offset), pdata), pdata_offset)| {
-                *pdata = (name, datatype);
-                *pdata_offset = offset;
-            });
+        {
+            if let Some(field) = cloud.fields.iter().find(|field| field.name == *name) {
+                *pdata = (field.name.clone(), field.datatype.try_into()?);
+                *pdata_offset = field.offset as usize;
+            }
+        }
 
         let point_step_size = cloud.point_step as usize;
         let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-- 
2.43.0


From 99f39d36952fbef49b6945fe19da55eb0e7409ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 02/13] fix: require every requested field to lie inside
 point_step

Only the field with the highest offset was checked; a wider field at a lower
offset could be read past the end of the last point.
---
 rpcl2/src/iterator.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index d727ae0..cc71adf 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -301,17 +301,17 @@ where
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-        let last_offset = match offsets.last() {
-            Some(offset) => *offset,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
-
-        let last_pdata = match pdata.last() {
-            Some(pdata) => pdata,
+        // The requested fields can be anywhere in the point, so the last one in memory counts.
+        let size_with_last_pdata = match offsets
+            .iter()
+            .zip(pdata.iter())
+            .map(|(offset, (_, datatype))| offset + datatype.size())
+            .max()
+        {
+            Some(size) => size,
             None => return Err(MsgConversionError::DataLengthMismatch),
         };
 
-        let size_with_last_pdata = last_offset + last_pdata.1.size();
         if size_with_last_pdata > point_step_size {
             return Err(MsgConversionError::DataLengthMismatch);
         }
-- 
2.43.0


From a5c054926eac16b3bc053fe7012a1f7f3ad75650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 03/13] fix: reject messages whose size computation overflows

point_step * width * height overflowed usize: a panic in debug builds, and in
release builds a wrapped product could match the data length and lead to reads
far outside of the buffer.
---
 rpcl2/src/iterator.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index cc71adf..a536e41 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -296,8 +296,10 @@ where
         }
 
         let point_step_size = cloud.point_step as usize;
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-        if point_step_size * cloud_length != cloud.data.len() {
+        let cloud_length = (cloud.dimensions.width as usize)
+            .checked_mul(cloud.dimensions.height as usize)
+            .ok_or(MsgConversionError::DataLengthMismatch)?;
+        if point_step_size.checked_mul(cloud_length) != Some(cloud.data.len()) {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
@@ -305,7 +307,7 @@ where
         let size_with_last_pdata = match offsets
             .iter()
             .zip(pdata.iter())
-            .map(|(offset, (_, datatype))| offset + datatype.size())
+            .map(|(offset, (_, datatype))| offset.saturating_add(datatype.size()))
             .max()
         {
             Some(size) => size,
@@ -316,8 +318,6 @@ where
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-
         let data = ByteBufferView::new(
             cloud.data,
             point_step_size,
-- 
2.43.0


From f91fc8a0d5fb7a97ce36f6345d9b19c1f73f65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 04/13] fix: half-open cursors, so that empty clouds and
 next_back work

Inclusive end cursors underflowed for an empty cloud, for an empty part of a
split and when next_back reached the first point: a panic in debug builds, reads
out of bounds or endless iteration in release builds.
---
 rpcl2/src/iterator.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index a536e41..548455a 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -30,7 +30,7 @@ where
     C: PointConvertible<N>,
 {
     iteration: usize,
-    iteration_back: usize,
+    iteration_back: usize, // exclusive
     data: ByteBufferView<N>,
     _phantom: core::marker::PhantomData<C>,
 }
@@ -51,12 +51,12 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.iteration_back < self.iteration {
+        if self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
-        let p = self.data.point_at(self.iteration_back);
         self.iteration_back -= 1;
+        let p = self.data.point_at(self.iteration_back);
         Some(C::from(p))
     }
 }
@@ -149,7 +149,7 @@ where
     }
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.iteration >= self.data.len() || self.iteration_back < self.iteration {
+        if self.iteration >= self.iteration_back {
             return None; // iteration finished
         }
 
@@ -165,7 +165,7 @@ struct ByteBufferView<const N: usize> {
     #[cfg(not(feature = "rayon"))]
     data: Vec<u8>,
     start_point_idx: usize,
-    end_point_idx: usize,
+    end_point_idx: usize, // exclusive
     point_step_size: usize,
     offsets: [usize; N],
     pdata: Vec<(String, FieldDatatype)>,
@@ -198,7 +198,7 @@ impl<const N: usize> ByteBufferView<N> {
 
     #[inline]
     fn len(&self) -> usize {
-        self.end_point_idx - self.start_point_idx + 1
+        self.end_point_idx - self.start_point_idx
     }
 
     #[inline]
@@ -226,7 +226,7 @@ impl<const N: usize> ByteBufferView<N> {
         Self {
             data: self.data.clone(),
             start_point_idx: start,
-            end_point_idx: start + size - 1,
+            end_point_idx: start + size,
             point_step_size: self.point_step_size,
             offsets: self.offsets,
             pdata: self.pdata.clone(),
@@ -322,7 +322,7 @@ where
             cloud.data,
             point_step_size,
             0,
-            cloud_length - 1,
+            cloud_length,
             offsets,
             pdata,
             cloud.endian,
@@ -330,7 +330,7 @@ where
 
         Ok(Self {
             iteration: 0,
-            iteration_back: cloud_length - 1,
+            iteration_back: cloud_length,
             data,
             _phantom: core::marker::PhantomData,
         })
@@ -346,7 +346,7 @@ where
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
         Self {
             iteration: 0,
-            iteration_back: data.len() - 1,
+            iteration_back: data.len(),
             data,
             _phantom: core::marker::PhantomData,
         }
-- 
2.43.0


From 83d5e135cda18fd469208a153658e717476a4ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 05/13] fix: report the remaining points in size_hint and len

They kept reporting the size of the whole cloud after points were consumed,
against the contracts of Iterator and ExactSizeIterator.
---
 rpcl2/src/iterator.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 548455a..92cfdb6 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -41,7 +41,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 }
 
@@ -76,7 +76,7 @@ where
     }
 
     fn opt_len(&self) -> Option<usize> {
-        Some(self.data.len())
+        Some(self.remaining())
     }
 }
 
@@ -86,7 +86,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 
     fn drive<Co>(self, consumer: Co) -> Co::Result
@@ -144,8 +144,8 @@ where
     type Item = C;
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let buf_len = self.data.len();
-        (buf_len, Some(buf_len))
+        let remaining = self.remaining();
+        (remaining, Some(remaining))
     }
 
     fn next(&mut self) -> Option<Self::Item> {
@@ -341,6 +341,12 @@ impl<const N: usize, C> PointCloudIterator<N, C>
 where
     C: PointConvertible<N>,
 {
+    /// Number of points still to come.
+    #[inline]
+    fn remaining(&self) -> usize {
+        self.iteration_back - self.iteration
+    }
+
     #[inline]
     #[must_use]
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
-- 
2.43.0


From 14190763ea08cada5e2f9d4265e3b14f50c0c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 06/13] fix: split the remaining points of an iterator

split_at ignored the points that were consumed already and handed them out a
second time; an index beyond the end produced views out of the buffer in
release builds.
---
 rpcl2/src/iterator.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 92cfdb6..41c7fe6 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -361,7 +361,15 @@ where
     #[inline]
     #[must_use]
     pub fn split_at(self, point_index: usize) -> (Self, Self) {
-        let (left_data, right_data) = self.data.split_at(point_index);
+        // Only the points that are still to come are split.
+        assert!(
+            point_index <= self.remaining(),
+            "Split index is out of bounds."
+        );
+        let mut data = self.data;
+        data.end_point_idx = data.start_point_idx + self.iteration_back;
+        data.start_point_idx += self.iteration;
+        let (left_data, right_data) = data.split_at(point_index);
         (
             Self::from_byte_buffer_view(left_data),
             Self::from_byte_buffer_view(right_data),
-- 
2.43.0


From baf4d9f420723fd56684ba6d77044f386e5bbd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 07/13] fix: compare layouts of messages with fewer entries
 than the layout

A debug assertion counted the padding of the target layout as fields, so
try_into_vec panicked on the library's own messages in debug builds. Missing
fields are reported like in try_into_iter instead of as ExhaustedSource.
---
 rpcl2/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index e51a875..0eff37a 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -506,7 +506,6 @@ impl PointCloud2Msg {
         let target_layout = KnownLayoutInfo::try_from(C::layout())?;
 
         debug_assert!(field_names.len() <= target_layout.fields.len());
-        debug_assert!(self.fields.len() >= target_layout.fields.len());
 
         let mut offset: u32 = 0;
         let mut field_counter = 0;
@@ -517,8 +516,9 @@ impl PointCloud2Msg {
                     size,
                     count,
                 } => {
+                    // The conversion via iterator reports the fields that are missing.
                     if field_counter >= self.fields.len() || field_counter >= field_names.len() {
-                        return Err(MsgConversionError::ExhaustedSource);
+                        return Ok(ByteSimilarity::Different);
                     }
 
                     let msg_f = unsafe { self.fields.get_unchecked(field_counter) };
-- 
2.43.0


From 3675065f53219ed74c92555ed53ddb78274d1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 08/13] fix: validate the message before raw copies in
 try_into_vec

The raw copies trusted width and data: a data length beyond width * point_step
wrote past the result, a shorter one left points uninitialized, rows beyond the
first were dropped, the last point was read past the end of the data when
point_step was smaller than the point, and points were read unaligned.
---
 rpcl2/src/lib.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 0eff37a..ea2d081 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -541,6 +541,12 @@ impl PointCloud2Msg {
             }
         }
 
+        // Raw copies move whole points, so the layout has to cover C exactly and fit into every
+        // point of the message.
+        if offset as usize != core::mem::size_of::<C>() || offset > self.point_step {
+            return Ok(ByteSimilarity::Different);
+        }
+
         Ok(if offset == self.point_step {
             ByteSimilarity::Equal
         } else {
@@ -750,9 +756,15 @@ impl PointCloud2Msg {
                     ByteSimilarity::Different => return Ok(self.try_into_iter()?.collect()),
                 };
 
-                let cloud_width = self.dimensions.width as usize;
                 let point_step = self.point_step as usize;
-                let mut vec: Vec<C> = Vec::with_capacity(cloud_width);
+                let cloud_length = (self.dimensions.width as usize)
+                    .checked_mul(self.dimensions.height as usize)
+                    .ok_or(MsgConversionError::DataLengthMismatch)?;
+                if point_step.checked_mul(cloud_length) != Some(self.data.len()) {
+                    return Err(MsgConversionError::DataLengthMismatch);
+                }
+
+                let mut vec: Vec<C> = Vec::with_capacity(cloud_length);
                 if bytematch {
                     unsafe {
                         core::ptr::copy_nonoverlapping(
@@ -760,13 +772,13 @@ impl PointCloud2Msg {
                             vec.as_mut_ptr().cast::<u8>(),
                             self.data.len(),
                         );
-                        vec.set_len(cloud_width);
+                        vec.set_len(cloud_length);
                     }
                 } else {
                     unsafe {
-                        for i in 0..cloud_width {
+                        for i in 0..cloud_length {
                             let point_ptr = self.data.as_ptr().add(i * point_step).cast::<C>();
-                            let point = point_ptr.read();
+                            let point = point_ptr.read_unaligned();
                             vec.push(point);
                         }
                     }
-- 
2.43.0


From b6c130ac8c29db03c8c754d03e3f6edcec666556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 09/13] fix: convert field by field in try_from_vec if the
 layout is not exact

The derived layout of a struct without repr(C), whose fields are reordered by
the compiler, is larger than the struct: the raw copy read past the end of the
vector and described wrong offsets.
---
 rpcl2/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index ea2d081..4ef1584 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -706,6 +706,11 @@ impl PointCloud2Msg {
                     )
                 };
 
+                // Without an exact layout of C (e.g. reordered fields), its memory can not be copied.
+                if point_step as usize != core::mem::size_of::<C>() {
+                    return Self::try_from_iter(vec);
+                }
+
                 let bytes_total = vec.len() * point_step as usize;
                 cloud.data.resize(bytes_total, u8::default());
                 let raw_data: *mut C = cloud.data.as_mut_ptr() as *mut C;
-- 
2.43.0


From 02791851984988a663387f1b04658e47b853e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 10/13] fix: refuse clouds that do not fit the 32-bit numbers
 of the message

Width and row_step were truncated or wrapped for large clouds (debug builds:
panic), and the builder compared a truncated data length.
---
 rpcl2/src/lib.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 4ef1584..fc1194a 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -438,7 +438,7 @@ impl PointCloud2MsgBuilder {
             return Err(MsgConversionError::InvalidFieldFormat);
         }
 
-        if self.data.len() as u32 % self.point_step != 0 {
+        if self.data.len() % self.point_step as usize != 0 {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
@@ -609,7 +609,7 @@ impl PointCloud2Msg {
                 pdata_offsets_acc,
             )
         };
-        let mut cloud_width = 0;
+        let mut cloud_width: usize = 0;
 
         iterable.into_iter().for_each(|pointdata| {
             let point: RPCL2Point<N> = pointdata.into();
@@ -624,8 +624,13 @@ impl PointCloud2Msg {
             cloud_width += 1;
         });
 
+        let cloud_width = u32::try_from(cloud_width)?;
+        let row_step = cloud_width
+            .checked_mul(point_step)
+            .ok_or(MsgConversionError::NumberConversion)?;
+
         cloud = cloud.width(cloud_width);
-        cloud = cloud.row_step(cloud_width * point_step);
+        cloud = cloud.row_step(row_step);
 
         cloud.build()
     }
@@ -711,6 +716,11 @@ impl PointCloud2Msg {
                     return Self::try_from_iter(vec);
                 }
 
+                let cloud_width = u32::try_from(vec.len())?;
+                let row_step = cloud_width
+                    .checked_mul(point_step)
+                    .ok_or(MsgConversionError::NumberConversion)?;
+
                 let bytes_total = vec.len() * point_step as usize;
                 cloud.data.resize(bytes_total, u8::default());
                 let raw_data: *mut C = cloud.data.as_mut_ptr() as *mut C;
@@ -722,10 +732,7 @@ impl PointCloud2Msg {
                     );
                 }
 
-                Ok(cloud
-                    .width(vec.len() as u32)
-                    .row_step(vec.len() as u32 * point_step)
-                    .build()?)
+                Ok(cloud.width(cloud_width).row_step(row_step).build()?)
             }
             _ => Self::try_from_iter(vec),
         }
-- 
2.43.0


From c5f4bed501bdf55fd8cdbf302c75442f4518104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 11/13] fix: keep the name of derived fields with other
 attributes

A field with any attribute but rpcl2 (a doc comment for example) lost its name:
layout() panicked or gave the following fields the wrong names.
---
 rpcl2-derive/src/lib.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index a3ca95a..39e7795 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -32,28 +32,26 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        if f.attrs.is_empty() {
-            field_names.push(f.ident.as_ref().unwrap().to_token_stream().to_string());
-        } else {
-            f.attrs.iter().for_each(|attr| {
-                if attr.path().is_ident("rpcl2") {
-                    let res = attr.parse_nested_meta(|meta| {
-                        if meta.path.is_ident("rename") {
-                            let new_name;
-                            parenthesized!(new_name in meta.input);
-                            let lit: LitStr = new_name.parse()?;
-                            field_names.push(lit.value());
-                            Ok(())
-                        } else {
-                            panic!("expected `name` attribute");
-                        }
-                    });
-                    if let Err(err) = res {
-                        panic!("Error parsing attribute: {}", err);
+        let mut field_name = f.ident.as_ref().unwrap().to_token_stream().to_string();
+        f.attrs.iter().for_each(|attr| {
+            if attr.path().is_ident("rpcl2") {
+                let res = attr.parse_nested_meta(|meta| {
+                    if meta.path.is_ident("rename") {
+                        let new_name;
+                        parenthesized!(new_name in meta.input);
+                        let lit: LitStr = new_name.parse()?;
+                        field_name = lit.value();
+                        Ok(())
+                    } else {
+                        panic!("expected `name` attribute");
                     }
+                });
+                if let Err(err) = res {
+                    panic!("Error parsing attribute: {}", err);
                 }
-            });
-        }
+            }
+        });
+        field_names.push(field_name);
     }
 
     field_names
-- 
2.43.0


From 015dadfcac8236dca2e312cbdd11a14522bc4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 12/13] fix: name derived fields without the r# of raw
 identifiers

A field `r#type` was announced as "r#type" and not found in messages that call it "type".
---
 rpcl2-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index 39e7795..32514c1 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -6,6 +6,7 @@ use std::collections::HashMap;
 use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::{parenthesized, parse_macro_input, Data, DeriveInput, Fields, LitStr};
 
 fn get_allowed_types() -> HashMap<&'static str, usize> {
@@ -32,7 +33,7 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        let mut field_name = f.ident.as_ref().unwrap().to_token_stream().to_string();
+        let mut field_name = f.ident.as_ref().unwrap().unraw().to_string();
         f.attrs.iter().for_each(|attr| {
             if attr.path().is_ident("rpcl2") {
                 let res = attr.parse_nested_meta(|meta| {
-- 
2.43.0


From ed91d5bcf211ea981f8849b63474fdcb5a9a4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:24 +0000
Subject: [PATCH 13/13] fix: refuse point types without fields in try_into_vec
 like in try_into_iter

---
 rpcl2/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index fc1194a..30e46b4 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -507,6 +507,11 @@ impl PointCloud2Msg {
 
         debug_assert!(field_names.len() <= target_layout.fields.len());
 
+        // A point type without fields is not readable, as reported by the conversion via iterator.
+        if field_names.is_empty() {
+            return Ok(ByteSimilarity::Different);
+        }
+
         let mut offset: u32 = 0;
         let mut field_counter = 0;
         for f in target_layout.fields.iter() {
-- 
2.43.0

