From bb9c90bf3a0839f092f1857a4928c8606aea1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 01/11] fix: vector layouts return zero-based (row, col) pairs
 from convert_1d_2d

The constant component of the pair was 1, which is outside the vector;
convert_2d_1d and all access methods are zero-based.
---
 src/layouts/arbitrary_stride_column_vector.rs | 2 +-
 src/layouts/arbitrary_stride_row_vector.rs    | 2 +-
 src/layouts/column_vector.rs                  | 2 +-
 src/layouts/row_vector.rs                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index ab1251f..bd01119 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 86ccf21..70bab47 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideRowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 6b18f6d..210ac49 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for ColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/row_vector.rs b/src/layouts/row_vector.rs
index cc4cfc3..f0f5241 100644
--- a/src/layouts/row_vector.rs
+++ b/src/layouts/row_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for RowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
-- 
2.43.0


From 4af7d46bd5d496d3faae372968f9260e0f8ec86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 02/11] fix: strided layouts report the stride they were built
 with

stride() returned the stride of a dense matrix, so that blocks of blocks
and matrix products with strided operands addressed wrong elements.
---
 src/layouts/arbitrary_stride_column_major.rs | 2 +-
 src/layouts/arbitrary_stride_row_major.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index 3f062a4..ac21da6 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -52,7 +52,7 @@ impl LayoutType for ArbitraryStrideColumnMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (1, self.dim.0)
+        self.stride
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e611a2d..e02b6fb 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -51,7 +51,7 @@ impl LayoutType for ArbitraryStrideRowMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (self.dim.1, 1)
+        self.stride
     }
 
     #[inline]
-- 
2.43.0


From 8090eba0465cc71eeabca30586f8f5ddcfe05f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 03/11] fix: ColumnVector::from_dimension checks the number of
 columns

It asserted that the number of rows is one, so every column vector layout
except 1x1 was refused and 1xn was accepted as a vector of length one.
---
 src/layouts/column_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 210ac49..3254bde 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -64,7 +64,7 @@ impl LayoutType for ColumnVector {
 impl BaseLayoutType for ColumnVector {
     fn from_dimension(dim: (IndexType, IndexType)) -> Self {
         assert_eq!(
-            dim.0, 1,
+            dim.1, 1,
             "Number of columns is {} but must be one for ColumnVector.",
             dim.1
         );
-- 
2.43.0


From d9018105d733a9e89752c10cfaf0c8de58800049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 04/11] fix: exact 1d to 2d index conversion for large upper
 triangular layouts

The row was computed from a rounded f64 square root, which is off by one
for some indices beyond about 2^51.
---
 src/layouts/upper_triangular.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/layouts/upper_triangular.rs b/src/layouts/upper_triangular.rs
index 8850079..bc2e182 100644
--- a/src/layouts/upper_triangular.rs
+++ b/src/layouts/upper_triangular.rs
@@ -24,7 +24,13 @@ impl LayoutType for UpperTriangular {
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
         let p = -0.5 + f64::sqrt(0.25 + 2.0 * (index as f64));
-        let p = f64::floor(p) as IndexType;
+        let mut p = f64::floor(p) as IndexType;
+        // The floating point root can be off by one for very large indices.
+        if (p * (p + 1)) / 2 > index {
+            p -= 1;
+        } else if ((p + 1) * (p + 2)) / 2 <= index {
+            p += 1;
+        }
         (
             self.dim - 1 - p,
             self.dim - 1 - p + index - (p * (p + 1)) / 2,
-- 
2.43.0


From 2cc1b2952e8cf208e2ad3e4126e47283c661e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 05/11] fix: empty blocks and empty strided matrices from
 pointers

The extent was computed from dim - 1, which underflows: empty blocks (and
splits on the border) panicked with overflow checks and got a slice of
arbitrary length without them.
---
 src/matrix/constructors.rs  | 12 ++++++++++--
 src/matrix/matrix_slices.rs | 26 ++++++++++++++++++++------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/matrix/constructors.rs b/src/matrix/constructors.rs
index f99eb46..0ecb449 100644
--- a/src/matrix/constructors.rs
+++ b/src/matrix/constructors.rs
@@ -138,7 +138,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts_mut(ptr, nindices);
                 let data = SliceContainerMut::<'a, Item>::new(slice);
 
@@ -154,7 +158,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts(ptr, nindices);
                 let data = SliceContainer::<'a, Item>::new(slice);
 
diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 2405171..13a7027 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -7,6 +7,20 @@ use crate::layouts::*;
 use crate::traits::*;
 use crate::types::{HScalar, IndexType};
 
+/// Raw index of the first element of a block. An empty block has no first element
+/// and its position may lie outside the memory of the matrix.
+fn block_start<L: LayoutType>(
+    layout: &L,
+    top_left: (IndexType, IndexType),
+    dim: (IndexType, IndexType),
+) -> IndexType {
+    if dim.0 == 0 || dim.1 == 0 {
+        0
+    } else {
+        layout.convert_2d_raw(top_left.0, top_left.1)
+    }
+}
+
 macro_rules! block_matrix {
     ($Layout:ident, $StrideLayout:ident, $RS:ident, $CS:ident) => {
         impl<Item: HScalar, Data: DataContainer<Item = Item>>
@@ -28,7 +42,7 @@ macro_rules! block_matrix {
                     (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
                     self.layout().dim()
                 );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                let start_index = block_start(self.layout(), top_left, dim);
                 unsafe {
                     SliceMatrix::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
                         self.get_pointer().add(start_index),
@@ -57,7 +71,7 @@ macro_rules! block_matrix {
                     (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
                     self.layout().dim()
                 );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                let start_index = block_start(self.layout(), top_left, dim);
 
                 unsafe {
                     SliceMatrixMut::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
@@ -108,10 +122,10 @@ macro_rules! subdivide_matrix {
                 let origin2 = (split_at.0, 0);
                 let origin3 = split_at;
 
-                let start0 = self.layout().convert_2d_raw(origin0.0, origin0.1) as isize;
-                let start1 = self.layout().convert_2d_raw(origin1.0, origin1.1) as isize;
-                let start2 = self.layout().convert_2d_raw(origin2.0, origin2.1) as isize;
-                let start3 = self.layout().convert_2d_raw(origin3.0, origin3.1) as isize;
+                let start0 = block_start(self.layout(), origin0, dim0) as isize;
+                let start1 = block_start(self.layout(), origin1, dim1) as isize;
+                let start2 = block_start(self.layout(), origin2, dim2) as isize;
+                let start3 = block_start(self.layout(), origin3, dim3) as isize;
 
                 let blocks = unsafe {
                     (
-- 
2.43.0


From e137511056dc7bc1a8e170415c72eef6227ef5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 06/11] fix: block bounds check does not overflow

The sum of position and dimension wrapped around in builds without
overflow checks, which gave blocks outside of the matrix memory.
---
 src/matrix/matrix_slices.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 13a7027..a04f4cf 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -7,6 +7,25 @@ use crate::layouts::*;
 use crate::traits::*;
 use crate::types::{HScalar, IndexType};
 
+/// Check that a block lies inside a matrix with dimension `matrix_dim`.
+fn assert_block_in_bounds(
+    top_left: (IndexType, IndexType),
+    dim: (IndexType, IndexType),
+    matrix_dim: (IndexType, IndexType),
+) {
+    // No sums of user provided values, since these can overflow.
+    assert!(
+        top_left.0 <= matrix_dim.0
+            && dim.0 <= matrix_dim.0 - top_left.0
+            && top_left.1 <= matrix_dim.1
+            && dim.1 <= matrix_dim.1 - top_left.1,
+        "Block at {:?} with dim {:?} out of bounds for matrix with dim {:?}",
+        top_left,
+        dim,
+        matrix_dim
+    );
+}
+
 /// Raw index of the first element of a block. An empty block has no first element
 /// and its position may lie outside the memory of the matrix.
 fn block_start<L: LayoutType>(
@@ -35,13 +54,7 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrix<'a, Item, $StrideLayout, $RS, $CS> {
-                assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
-                );
+                assert_block_in_bounds(top_left, dim, self.layout().dim());
                 let start_index = block_start(self.layout(), top_left, dim);
                 unsafe {
                     SliceMatrix::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
@@ -64,13 +77,7 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrixMut<'a, Item, $StrideLayout, $RS, $CS> {
-                assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
-                );
+                assert_block_in_bounds(top_left, dim, self.layout().dim());
                 let start_index = block_start(self.layout(), top_left, dim);
 
                 unsafe {
-- 
2.43.0


From 6b36c7b301596031ad9a66db73b85df94bb0ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 07/11] fix: split_in_four_mut refuses a split position outside
 the matrix

Without overflow checks the dimensions of the blocks wrapped around and
the blocks covered memory outside of the matrix.
---
 src/matrix/matrix_slices.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index a04f4cf..def56c7 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -117,6 +117,12 @@ macro_rules! subdivide_matrix {
                 SliceMatrixMut<'a, Item, $StrideLayout, Dynamic, Dynamic>,
             ) {
                 let dim = self.layout().dim();
+                assert!(
+                    split_at.0 <= dim.0 && split_at.1 <= dim.1,
+                    "Split position {:?} out of bounds for matrix with dim {:?}",
+                    split_at,
+                    dim
+                );
                 let stride = self.layout().stride();
                 let ptr = self.get_pointer_mut();
                 let dim0 = split_at;
-- 
2.43.0


From 39f4e37d2f6edfbe998d4b2a6877a34a9253d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 08/11] fix: matrix construction checks that every element lies
 in the data

Only the number of elements was compared with the container. Elements of
strided layouts could lie beyond the container, and a dimension whose
element count wraps around was accepted without overflow checks.
---
 src/base_matrix.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b993e47..9dcd8cb 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -36,12 +36,25 @@ impl<
     > BaseMatrix<Item, Data, L, RS, CS>
 {
     pub fn new(data: Data, layout: L) -> Self {
+        let dim = layout.dim();
+        assert!(
+            dim.0.checked_mul(dim.1).is_some(),
+            "Number of elements is not representable for dim {:?}",
+            dim
+        );
         assert!(
             layout.number_of_elements() <= data.number_of_elements(),
             "Number of elements in data: {}. But layout number of elements is {})",
             data.number_of_elements(),
             layout.number_of_elements(),
         );
+        assert!(
+            layout.number_of_elements() == 0
+                || layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) < data.number_of_elements(),
+            "Last element of layout with dim {:?} lies outside of data with {} elements",
+            dim,
+            data.number_of_elements()
+        );
         BaseMatrix::<Item, Data, L, RS, CS> {
             data,
             layout,
-- 
2.43.0


From e2df2f8906ae4b5fe044357ca9a0dcc4d74c6507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 09/11] fix: strided layouts refuse an extent that is not
 representable

Positions wrapped around in builds without overflow checks, which
defeated the check of the extent against the data container.
---
 src/layouts.rs                                | 19 +++++++++++++++++++
 src/layouts/arbitrary_stride_column_major.rs  |  1 +
 src/layouts/arbitrary_stride_column_vector.rs |  1 +
 src/layouts/arbitrary_stride_row_major.rs     |  1 +
 src/layouts/arbitrary_stride_row_vector.rs    |  1 +
 5 files changed, 23 insertions(+)

diff --git a/src/layouts.rs b/src/layouts.rs
index 754dc47..dd618bd 100644
--- a/src/layouts.rs
+++ b/src/layouts.rs
@@ -23,3 +23,22 @@ pub use column_vector::*;
 pub use row_major::*;
 pub use row_vector::*;
 pub use upper_triangular::*;
+
+/// Check that the position of the last element of a strided layout is representable.
+fn assert_extent(
+    dim: (crate::types::IndexType, crate::types::IndexType),
+    stride: (crate::types::IndexType, crate::types::IndexType),
+) {
+    if dim.0 == 0 || dim.1 == 0 {
+        return;
+    }
+    let rows = (dim.0 - 1).checked_mul(stride.0);
+    let cols = (dim.1 - 1).checked_mul(stride.1);
+    assert!(
+        rows.and_then(|r| cols.and_then(|c| r.checked_add(c)))
+            .is_some(),
+        "Memory extent is not representable for dim {:?} and stride {:?}",
+        dim,
+        stride
+    );
+}
diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index ac21da6..16b4337 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -17,6 +17,7 @@ pub struct ArbitraryStrideColumnMajor {
 
 impl ArbitraryStrideColumnMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        super::assert_extent(dim, stride);
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index bd01119..a5a7e1f 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -18,6 +18,7 @@ pub struct ArbitraryStrideColumnVector {
 
 impl ArbitraryStrideColumnVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        super::assert_extent((dim, 1), (stride, 1));
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e02b6fb..fc7e5b5 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -16,6 +16,7 @@ pub struct ArbitraryStrideRowMajor {
 
 impl ArbitraryStrideRowMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        super::assert_extent(dim, stride);
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 70bab47..737b358 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -18,6 +18,7 @@ pub struct ArbitraryStrideRowVector {
 
 impl ArbitraryStrideRowVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        super::assert_extent((1, dim), (1, stride));
         Self { dim, stride }
     }
 }
-- 
2.43.0


From dff417d181c211fbaa96bae024d90c5e61d88c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 10/11] fix: length of a row vector is the length of its layout

It was the size of the container, which may be larger.
---
 src/base_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index 9dcd8cb..46f273a 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -162,7 +162,7 @@ macro_rules! vector_length {
             > BaseMatrix<Item, Data, $Layout, RS, CS>
         {
             pub fn length(&self) -> IndexType {
-                self.data.number_of_elements()
+                self.layout.number_of_elements()
             }
         }
     };
-- 
2.43.0


From 90152f4f94cd4be1d0af6a1eba829dfdf5b1b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:12 +0000
Subject: [PATCH 11/11] fix: check the storage's extent with the layout's last
 stored element

Layouts that do not store the element (rows - 1, cols - 1), for example a lower
triangular one with more columns than rows, were asked for its position.
---
 src/base_matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index 46f273a..cfdca3c 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -50,7 +50,8 @@ impl<
         );
         assert!(
             layout.number_of_elements() == 0
-                || layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) < data.number_of_elements(),
+                || layout.convert_1d_raw(layout.number_of_elements() - 1)
+                    < data.number_of_elements(),
             "Last element of layout with dim {:?} lies outside of data with {} elements",
             dim,
             data.number_of_elements()
-- 
2.43.0

