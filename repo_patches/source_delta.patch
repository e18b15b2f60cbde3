From 8e38da667873a10e70ebe3a4f9fab887670e8d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 1/9] fix: use exclusive iteration bounds so empty, exhausted
 and split iterators neither overflow nor read out of bounds

---
 rpcl2/src/iterator.rs | 45 ++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index a6d703c..2a5370b 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -30,7 +30,7 @@ where
     C: PointConvertible<N>,
 {
     iteration: usize,
-    iteration_back: usize,
+    iteration_back: usize, // exclusive
     data: ByteBufferView<N>,
     _phantom: core::marker::PhantomData<C>,
 }
@@ -41,7 +41,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 }
 
@@ -51,12 +51,12 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.iteration_back < self.iteration {
+        if self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
-        let p = self.data.point_at(self.iteration_back);
         self.iteration_back -= 1;
+        let p = self.data.point_at(self.iteration_back);
         Some(C::from(p))
     }
 }
@@ -76,7 +76,7 @@ where
     }
 
     fn opt_len(&self) -> Option<usize> {
-        Some(self.data.len())
+        Some(self.remaining())
     }
 }
 
@@ -86,7 +86,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 
     fn drive<Co>(self, consumer: Co) -> Co::Result
@@ -144,12 +144,12 @@ where
     type Item = C;
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let buf_len = self.data.len();
-        (buf_len, Some(buf_len))
+        let remaining = self.remaining();
+        (remaining, Some(remaining))
     }
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.iteration >= self.data.len() || self.iteration_back < self.iteration {
+        if self.iteration >= self.iteration_back {
             return None; // iteration finished
         }
 
@@ -165,7 +165,7 @@ struct ByteBufferView<const N: usize> {
     #[cfg(not(feature = "rayon"))]
     data: Vec<u8>,
     start_point_idx: usize,
-    end_point_idx: usize,
+    end_point_idx: usize, // exclusive
     point_step_size: usize,
     offsets: [usize; N],
     pdata: Vec<(String, FieldDatatype)>,
@@ -198,7 +198,7 @@ impl<const N: usize> ByteBufferView<N> {
 
     #[inline]
     fn len(&self) -> usize {
-        self.end_point_idx - self.start_point_idx + 1
+        self.end_point_idx - self.start_point_idx
     }
 
     #[inline]
@@ -226,7 +226,7 @@ impl<const N: usize> ByteBufferView<N> {
         Self {
             data: self.data.clone(),
             start_point_idx: start,
-            end_point_idx: start + size - 1,
+            end_point_idx: start + size,
             point_step_size: self.point_step_size,
             offsets: self.offsets,
             pdata: self.pdata.clone(),
@@ -339,7 +339,7 @@ where
             cloud.data,
             point_step_size,
             0,
-            cloud_length - 1,
+            cloud_length,
             offsets,
             pdata,
             cloud.endian,
@@ -347,7 +347,7 @@ where
 
         Ok(Self {
             iteration: 0,
-            iteration_back: cloud_length - 1,
+            iteration_back: cloud_length,
             data,
             _phantom: core::marker::PhantomData,
         })
@@ -363,15 +363,28 @@ where
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
         Self {
             iteration: 0,
-            iteration_back: data.len() - 1,
+            iteration_back: data.len(),
             data,
             _phantom: core::marker::PhantomData,
         }
     }
 
+    /// Number of points that are not yet taken from either end.
+    #[inline]
+    fn remaining(&self) -> usize {
+        self.iteration_back - self.iteration
+    }
+
+    /// Split the remaining points into the first `point_index` ones and the rest.
+    ///
+    /// # Panics
+    /// Panics if there are less than `point_index` points remaining.
     #[inline]
     #[must_use]
-    pub fn split_at(self, point_index: usize) -> (Self, Self) {
+    pub fn split_at(mut self, point_index: usize) -> (Self, Self) {
+        assert!(point_index <= self.remaining());
+        self.data.end_point_idx = self.data.start_point_idx + self.iteration_back;
+        self.data.start_point_idx += self.iteration;
         let (left_data, right_data) = self.data.split_at(point_index);
         (
             Self::from_byte_buffer_view(left_data),
-- 
2.43.0


From 44b7a2c230f6b512ddd852a7be0918655797cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 2/9] fix: look up every field of the point by its name instead
 of by offset order

---
 rpcl2/src/iterator.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 2a5370b..92c7ce6 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -280,8 +280,8 @@ where
         }
 
         let mut pdata_with_offsets = Vec::with_capacity(N);
-        for field in cloud.fields.iter() {
-            if fields_only.contains(&field.name) {
+        for name in fields_only.iter() {
+            if let Some(field) = cloud.fields.iter().find(|field| field.name == *name) {
                 pdata_with_offsets.push((
                     field.name.clone(),
                     field.datatype.try_into()?,
@@ -290,9 +290,6 @@ where
             }
         }
 
-        pdata_with_offsets
-            .sort_unstable_by(|(_, _, offset1), (_, _, offset2)| offset1.cmp(offset2));
-
         debug_assert!(
             pdata_with_offsets.len() == N,
             "Not all fields were found in the message. Expected {} but found {}.",
-- 
2.43.0


From 621ff88aa70b84002fce209f0039a7d732ed9d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 3/9] fix: reject overflowing dimensions and any field reaching
 over the point step

---
 rpcl2/src/iterator.rs | 24 +++++++-----------------
 rpcl2/src/lib.rs      | 12 ++++++++++++
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 92c7ce6..fbb7c72 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -310,27 +310,17 @@ where
             });
 
         let point_step_size = cloud.point_step as usize;
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-        if point_step_size * cloud_length != cloud.data.len() {
-            return Err(MsgConversionError::DataLengthMismatch);
-        }
-
-        let last_offset = match offsets.last() {
-            Some(offset) => *offset,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
+        let cloud_length = cloud.checked_point_count()?;
 
-        let last_pdata = match pdata.last() {
-            Some(pdata) => pdata,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
-
-        let size_with_last_pdata = last_offset + last_pdata.1.size();
-        if size_with_last_pdata > point_step_size {
+        if offsets.is_empty() {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
+        for (offset, (_, datatype)) in offsets.iter().zip(pdata.iter()) {
+            if offset.saturating_add(datatype.size()) > point_step_size {
+                return Err(MsgConversionError::DataLengthMismatch);
+            }
+        }
 
         let data = ByteBufferView::new(
             cloud.data,
diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index e51a875..c612263 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -497,6 +497,18 @@ fn ordered_field_names<const N: usize, C: PointConvertible<N>>() -> Vec<String>
 }
 
 impl PointCloud2Msg {
+    /// Number of points in the message if the dimensions match the length of the byte buffer.
+    pub(crate) fn checked_point_count(&self) -> Result<usize, MsgConversionError> {
+        let point_count =
+            (self.dimensions.width as usize).checked_mul(self.dimensions.height as usize);
+        match point_count {
+            Some(count) if count.checked_mul(self.point_step as usize) == Some(self.data.len()) => {
+                Ok(count)
+            }
+            _ => Err(MsgConversionError::DataLengthMismatch),
+        }
+    }
+
     #[inline]
     fn byte_similarity<const N: usize, C>(&self) -> Result<ByteSimilarity, MsgConversionError>
     where
-- 
2.43.0


From 2513b0a8fd3d9e0a70ed5cc8a7e810449f41230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 4/9] fix: check sizes, rows and alignment before copying
 message bytes into points

---
 rpcl2/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index c612263..5e70862 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -518,7 +518,6 @@ impl PointCloud2Msg {
         let target_layout = KnownLayoutInfo::try_from(C::layout())?;
 
         debug_assert!(field_names.len() <= target_layout.fields.len());
-        debug_assert!(self.fields.len() >= target_layout.fields.len());
 
         let mut offset: u32 = 0;
         let mut field_counter = 0;
@@ -553,6 +552,11 @@ impl PointCloud2Msg {
             }
         }
 
+        // Direct copies need the layout to describe the memory of the type and to fit into the step.
+        if offset as usize != core::mem::size_of::<C>() || offset > self.point_step {
+            return Ok(ByteSimilarity::Different);
+        }
+
         Ok(if offset == self.point_step {
             ByteSimilarity::Equal
         } else {
@@ -762,9 +766,9 @@ impl PointCloud2Msg {
                     ByteSimilarity::Different => return Ok(self.try_into_iter()?.collect()),
                 };
 
-                let cloud_width = self.dimensions.width as usize;
+                let point_count = self.checked_point_count()?;
                 let point_step = self.point_step as usize;
-                let mut vec: Vec<C> = Vec::with_capacity(cloud_width);
+                let mut vec: Vec<C> = Vec::with_capacity(point_count);
                 if bytematch {
                     unsafe {
                         core::ptr::copy_nonoverlapping(
@@ -772,13 +776,13 @@ impl PointCloud2Msg {
                             vec.as_mut_ptr().cast::<u8>(),
                             self.data.len(),
                         );
-                        vec.set_len(cloud_width);
+                        vec.set_len(point_count);
                     }
                 } else {
                     unsafe {
-                        for i in 0..cloud_width {
+                        for i in 0..point_count {
                             let point_ptr = self.data.as_ptr().add(i * point_step).cast::<C>();
-                            let point = point_ptr.read();
+                            let point = point_ptr.read_unaligned();
                             vec.push(point);
                         }
                     }
-- 
2.43.0


From dd90cfc7e9293f232ec32ae56884c9a38938e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 5/9] fix: reject clouds whose sizes do not fit the message
 instead of wrapping them

---
 rpcl2/src/lib.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 5e70862..2bdf57f 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -431,14 +431,14 @@ impl PointCloud2MsgBuilder {
             .map(FieldDatatype::try_from)
             .collect::<Result<Vec<_>, _>>()?
             .iter()
-            .map(|f| f.size() as u32)
-            .sum::<_>();
+            .map(|f| f.size())
+            .sum::<usize>();
 
-        if self.point_step < fields_size {
+        if (self.point_step as usize) < fields_size {
             return Err(MsgConversionError::InvalidFieldFormat);
         }
 
-        if self.data.len() as u32 % self.point_step != 0 {
+        if self.data.len() % self.point_step as usize != 0 {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
@@ -509,6 +509,15 @@ impl PointCloud2Msg {
         }
     }
 
+    /// Width and row step for a number of points if they fit the message.
+    fn checked_row(point_count: usize, point_step: u32) -> Result<(u32, u32), MsgConversionError> {
+        let width = u32::try_from(point_count)?;
+        let row_step = width
+            .checked_mul(point_step)
+            .ok_or(MsgConversionError::NumberConversion)?;
+        Ok((width, row_step))
+    }
+
     #[inline]
     fn byte_similarity<const N: usize, C>(&self) -> Result<ByteSimilarity, MsgConversionError>
     where
@@ -619,7 +628,7 @@ impl PointCloud2Msg {
                 pdata_offsets_acc,
             )
         };
-        let mut cloud_width = 0;
+        let mut point_count: usize = 0;
 
         iterable.into_iter().for_each(|pointdata| {
             let point: RPCL2Point<N> = pointdata.into();
@@ -631,11 +640,12 @@ impl PointCloud2Msg {
                 cloud.data.extend_from_slice(truncated_bytes);
             });
 
-            cloud_width += 1;
+            point_count += 1;
         });
 
+        let (cloud_width, row_step) = Self::checked_row(point_count, point_step)?;
         cloud = cloud.width(cloud_width);
-        cloud = cloud.row_step(cloud_width * point_step);
+        cloud = cloud.row_step(row_step);
 
         cloud.build()
     }
@@ -716,6 +726,7 @@ impl PointCloud2Msg {
                     )
                 };
 
+                let (cloud_width, row_step) = Self::checked_row(vec.len(), point_step)?;
                 let bytes_total = vec.len() * point_step as usize;
                 cloud.data.resize(bytes_total, u8::default());
                 let raw_data: *mut C = cloud.data.as_mut_ptr() as *mut C;
@@ -727,10 +738,7 @@ impl PointCloud2Msg {
                     );
                 }
 
-                Ok(cloud
-                    .width(vec.len() as u32)
-                    .row_step(vec.len() as u32 * point_step)
-                    .build()?)
+                Ok(cloud.width(cloud_width).row_step(row_step).build()?)
             }
             _ => Self::try_from_iter(vec),
         }
-- 
2.43.0


From a799a44ce7cade8bf47181e168f26a264ecf1f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 6/9] fix: only copy points directly when their layout
 describes their memory

---
 rpcl2/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 2bdf57f..d5927fd 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -726,6 +726,11 @@ impl PointCloud2Msg {
                     )
                 };
 
+                if point_step as usize != core::mem::size_of::<C>() {
+                    // The layout does not describe the memory of the type.
+                    return Self::try_from_iter(vec);
+                }
+
                 let (cloud_width, row_step) = Self::checked_row(vec.len(), point_step)?;
                 let bytes_total = vec.len() * point_step as usize;
                 cloud.data.resize(bytes_total, u8::default());
-- 
2.43.0


From 1aec142fdffd6cad01275a96dbbbf79e0d8791e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 7/9] fix: keep the name of derived fields that carry unrelated
 attributes

---
 rpcl2-derive/src/lib.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index a3ca95a..39e7795 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -32,28 +32,26 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        if f.attrs.is_empty() {
-            field_names.push(f.ident.as_ref().unwrap().to_token_stream().to_string());
-        } else {
-            f.attrs.iter().for_each(|attr| {
-                if attr.path().is_ident("rpcl2") {
-                    let res = attr.parse_nested_meta(|meta| {
-                        if meta.path.is_ident("rename") {
-                            let new_name;
-                            parenthesized!(new_name in meta.input);
-                            let lit: LitStr = new_name.parse()?;
-                            field_names.push(lit.value());
-                            Ok(())
-                        } else {
-                            panic!("expected `name` attribute");
-                        }
-                    });
-                    if let Err(err) = res {
-                        panic!("Error parsing attribute: {}", err);
+        let mut field_name = f.ident.as_ref().unwrap().to_token_stream().to_string();
+        f.attrs.iter().for_each(|attr| {
+            if attr.path().is_ident("rpcl2") {
+                let res = attr.parse_nested_meta(|meta| {
+                    if meta.path.is_ident("rename") {
+                        let new_name;
+                        parenthesized!(new_name in meta.input);
+                        let lit: LitStr = new_name.parse()?;
+                        field_name = lit.value();
+                        Ok(())
+                    } else {
+                        panic!("expected `name` attribute");
                     }
+                });
+                if let Err(err) = res {
+                    panic!("Error parsing attribute: {}", err);
                 }
-            });
-        }
+            }
+        });
+        field_names.push(field_name);
     }
 
     field_names
-- 
2.43.0


From 513a467293233a29fd0a367501ae496f6b141eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 8/9] fix: generate layout code that needs neither std nor an
 allocator

---
 rpcl2-derive/src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index 39e7795..e80735b 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -102,6 +102,7 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
     }
 
     let field_len_token: usize = fields.len();
+    let max_layout_len: usize = 2 * fields.len() + 1; // padding in front of every field and at the end
     let rename_arr = struct_field_rename_array(&input);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let layout = layout_of_type(&name, &input.data);
@@ -110,13 +111,14 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
         unsafe impl #impl_generics ::ros_pointcloud2::PointConvertible<#field_len_token> for #name #ty_generics #where_clause {
             fn layout() -> ::ros_pointcloud2::LayoutDescription {
                 let mut last_field_end = 0;
-                let mut fields = Vec::new();
+                let mut fields = [(1, "", 0); #max_layout_len];
+                let mut layout_len = 0;
 
                 #layout
 
                 let mut rename_idx = 0;
-                let rename_arr = vec![#(#rename_arr),*];
-                let field_info: Vec<::ros_pointcloud2::LayoutField> = fields.into_iter().map(|field| {
+                let rename_arr = [#(#rename_arr),*];
+                let field_info = fields.map(|field| {
                     match field {
                         (0, ty, size) => {
                             rename_idx += 1;
@@ -125,9 +127,9 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
                         (1, _, size) => ::ros_pointcloud2::LayoutField::padding(size),
                         _ => unreachable!(),
                     }
-                }).collect();
+                });
 
-                ::ros_pointcloud2::LayoutDescription::new(field_info.as_slice())
+                ::ros_pointcloud2::LayoutDescription::new(&field_info[..layout_len])
             }
         }
     };
@@ -188,9 +190,11 @@ fn layout_of_type(struct_name: &Ident, data: &Data) -> proc_macro2::TokenStream
                         let size = ::core::mem::size_of::<#field_ty>();
                         let offset = ::core::mem::offset_of!(#struct_name, #field_name);
                         if offset > last_field_end {
-                            fields.push((1, "", offset - last_field_end));
+                            fields[layout_len] = (1, "", offset - last_field_end);
+                            layout_len += 1;
                         }
-                        fields.push((0, #field_ty_str, size));
+                        fields[layout_len] = (0, #field_ty_str, size);
+                        layout_len += 1;
                         last_field_end = offset + size;
                     }
                 });
@@ -198,9 +202,10 @@ fn layout_of_type(struct_name: &Ident, data: &Data) -> proc_macro2::TokenStream
                 quote! {
                     #(#values)*
 
-                    let struct_size = ::std::mem::size_of::<#struct_name>();
+                    let struct_size = ::core::mem::size_of::<#struct_name>();
                     if struct_size > last_field_end {
-                        fields.push((1, "", struct_size - last_field_end));
+                        fields[layout_len] = (1, "", struct_size - last_field_end);
+                        layout_len += 1;
                     }
                 }
             }
-- 
2.43.0


From 86c4702069e3f80ba8afaaa8591ca0f0814e1dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 9/9] fix: list fields with raw identifiers under their plain
 name

---
 rpcl2-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index e80735b..f67c1e7 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -6,6 +6,7 @@ use std::collections::HashMap;
 use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::{parenthesized, parse_macro_input, Data, DeriveInput, Fields, LitStr};
 
 fn get_allowed_types() -> HashMap<&'static str, usize> {
@@ -32,7 +33,7 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        let mut field_name = f.ident.as_ref().unwrap().to_token_stream().to_string();
+        let mut field_name = f.ident.as_ref().unwrap().unraw().to_string();
         f.attrs.iter().for_each(|attr| {
             if attr.path().is_ident("rpcl2") {
                 let res = attr.parse_nested_meta(|meta| {
-- 
2.43.0

