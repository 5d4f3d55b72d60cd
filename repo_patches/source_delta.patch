From dfa3019cd78b24a89da45c9787ec4364d8c86969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:56 +0000
Subject: [PATCH 01/46] fix: keep the matrix or vector usable when reinit
 refuses a size

A refused reinit left the object uninitialized.
---
 linalg/src/matrix.rs | 3 +++
 linalg/src/vector.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 94b4187..ac61314 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -63,6 +63,9 @@ impl Matrix {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        is_valid_rows_number(rows)?;    // Check the new size before giving up the current one.
+        is_valid_cols_number(cols)?;
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows, cols)?;     // Reinitialize the matrix.
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index c92fad8..1869690 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -49,6 +49,8 @@ impl<T: Default + Copy> Vector<T> {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        is_valid_rows_number(rows)?;    // Check the new size before giving up the current one.
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows)?;           // Reinitialize the vector.
-- 
2.43.0


From 27a622c1fa5ab91d2469ae60f97090c9c2793bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:58 +0000
Subject: [PATCH 02/46] fix: check the arguments of add_row and add_col before
 enlarging the matrix

A refused call left the matrix with an extra row or column.
---
 linalg/src/matrix.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index ac61314..22e2f57 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -333,9 +333,16 @@ impl Matrix {
 
     /// This method is used to add a row to a matrix of size m x n from a vector of size n x 1. The result is a matrix of size m+1 x n.
     pub fn add_row(self: &mut Self, vect: &Vector<f32>, row: u8) -> Result<(), LinalgError> {
-        let rows = self.rows + 1;   // Calculate the new rows number.
+        let rows = self.get_rows()? + 1;    // Calculate the new rows number.
 
         is_valid_rows_number(rows)?;    // Check that the new number of rows does not exceed M_MAX.
+        is_valid_row(row, rows)?;       // Check that the position of the new row exists.
+
+        // Check that the number of columns in the matrix is the same as the number of rows in the vector.
+        if self.cols != vect.get_rows()? {
+            // The number of columns in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
 
         self.set_rows(rows)?;   // Update it.
 
@@ -353,9 +360,16 @@ impl Matrix {
 
     /// This method is used to add a column to a matrix of size m x n from a vector of size m x 1. The result is a matrix of size m x n+1.
     pub fn add_col(self: &mut Self, vect: &Vector<f32>, col: u8) -> Result<(), LinalgError> {
-        let cols = self.cols + 1;   // Calculate the new columns number.
+        let cols = self.get_cols()? + 1;    // Calculate the new columns number.
 
         is_valid_cols_number(cols)?;    // Check that the new number of columns does not exceed N_MAX.
+        is_valid_col(col, cols)?;       // Check that the position of the new column exists.
+
+        // Check that the number of rows in the matrix is the same as the number of rows in the vector.
+        if self.rows != vect.get_rows()? {
+            // The number of rows in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
 
         self.set_cols(cols)?;   // Update it.
 
-- 
2.43.0


From 631f9ead5ae91fa6ae95cca30f567a6292b72770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:00 +0000
Subject: [PATCH 03/46] fix: report an uninitialized matrix in del_row and
 is_lower_triangular

Both subtracted one from a zero row count and panicked.
---
 linalg/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 22e2f57..479bf1e 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -387,7 +387,7 @@ impl Matrix {
 
     /// This method is used to delete a row of a matrix of size m x n and save the deleted row into a vector of size n x 1. The result is a matrix of size m-1 x n.
     pub fn del_row(self: &mut Self, row: u8) -> Result<Vector<f32>, LinalgError> {
-        let rows = self.rows - 1;   // Calculate the new rows number.
+        let rows = self.get_rows()? - 1;    // Calculate the new rows number.
 
         is_valid_row(row, self.rows)?;  // Check if the row you want to delete exists.
         is_valid_rows_number(rows)?;    // Check that the new number of rows is not zero.
@@ -1250,7 +1250,7 @@ impl Matrix {
     /// This method is used to check if a matrix of size m x n is lower triangular.
     pub fn is_lower_triangular(self: &Self) -> Result<bool, LinalgError> {
         // Loops on every row except the last (which doesn't need to have null elements).
-        for row in 0..self.rows - 1 {
+        for row in 0..self.get_rows()? - 1 {
             // We loop for the columns corresponding to the upper triangular matrix as a function of the current row.
             for col in row + 1..self.cols {
                 // If the matrix is lower triangular, the element must always be zero, otherwise the matrix cannot be lower triangular.
-- 
2.43.0


From ad83a83974a2afc35efa0d1fb18386bab3c7a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:22 +0000
Subject: [PATCH 04/46] fix: refuse operations on uninitialized matrices and
 vectors

Several methods looped over zero rows and reported success instead of NotInit.
---
 linalg/src/matrix.rs | 16 ++++++++--------
 linalg/src/vector.rs | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 479bf1e..fa7ca37 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -479,7 +479,7 @@ impl Matrix {
     /// This method is used to fill an entire matrix of size m x n with a given value.
     pub fn fill(self: &mut Self, value: f32) -> Result<(), LinalgError> {
         // Assign the value to each element of the matrix.
-        for row in 0..self.rows {                   // Iterate for each row of the matrix.
+        for row in 0..self.get_rows()? {                   // Iterate for each row of the matrix.
             for col in 0..self.cols {               // Iterate for each column of the matrix.
                 self.set_element(row, col, value)?; // Set the value.
             }
@@ -679,7 +679,7 @@ impl Matrix {
     // This method is used to ...
     pub fn add_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate for each row of the matrix.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             // Iterate for each column of the matrix.
             for col in 0..self.cols {
                 let element = self.get_element(row, col)? + scalar; // Perform addition.
@@ -797,7 +797,7 @@ impl Matrix {
     // This method is used to ...
     pub fn sub_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate for each row of the matrix.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             // Iterate for each column of the matrix.
             for col in 0..self.cols {
                 let element = self.get_element(row, col)? - scalar; // Perform subtraction.
@@ -828,7 +828,7 @@ impl Matrix {
     /// This method is used to perform the matrix multiplication operation on two matrices of sizes m x n and (n x k) respectively.
     // Naive implementation, as it is not very efficient for large matrices (for larger matrices, use the "divide and conquer" strategy).
     pub fn mul(self: &mut Self, matrix1: &Self, matrix2: &Self) -> Result<(), LinalgError> {
-        if matrix1.cols != matrix2.rows || self.rows != matrix1.rows || self.cols != matrix2.cols {
+        if matrix1.get_cols()? != matrix2.get_rows()? || self.get_rows()? != matrix1.rows || self.cols != matrix2.cols {
             return Err(LinalgError::InvalidSize)    // Return an error.
         }
 
@@ -955,7 +955,7 @@ impl Matrix {
     /// This method is used to multiply by a scalar all elements of a matrix of size m x n.
     pub fn mul_by_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate through each element and multiply it by the scalar.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             for col in 0..self.cols {
                 let element = self.get_element(row, col)? * scalar;
                 self.set_element(row, col, element)?;
@@ -968,7 +968,7 @@ impl Matrix {
     /// This method is used to apply an exponent to all elements of a matrix of size m x n.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
         // Iterate through each element and apply exponent.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             for col in 0..self.cols {
                 let element = powf(self.get_element(row, col)?, exponent);
                 self.set_element(row, col, element)?;
@@ -1234,7 +1234,7 @@ impl Matrix {
     /// This method is used to check if a matrix of size m x n is upper triangular.
     pub fn is_upper_triangular(self: &Self) -> Result<bool, LinalgError> {
         // Loops on every row except the first (which doesn't need to have null elements).
-        for row in 1..self.rows {
+        for row in 1..self.get_rows()? {
             // We loop for the columns corresponding to the lower triangular matrix as a function of the current row.
             for col in 0..row {
                 // If the matrix is upper diagonal, the element must always be zero, otherwise the matrix cannot be upper diagonal.
@@ -1268,7 +1268,7 @@ impl Matrix {
         let mut frobenius_norm: f32 = 0.0;
 
         // Iterate through each element, square it, and accumulate the sum.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             for col in 0..self.cols {
                 frobenius_norm += self.get_element(row, col)? * self.get_element(row, col)?;
             }
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index 1869690..b8f30ff 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -178,7 +178,7 @@ impl Vector<f32> {
     /// This method is used to fill an entire vector of size m x 1 with a given value.
     pub fn fill(self: &mut Self, value: f32) -> Result<(), LinalgError> {
         // Assign the value to each element of the vector.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             self.set_element(row, value)?;  // Set the value.
         }
 
@@ -322,7 +322,7 @@ impl Vector<f32> {
     /// This method is used to ...
     pub fn add_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate for each row of the vector.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             let element = self.get_element(row)? + scalar;  // Perform addition.
 
             self.set_element(row, element)?;    // Set the new value of the element.
@@ -420,7 +420,7 @@ impl Vector<f32> {
     /// This method is used to ...
     pub fn sub_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate for each row of the vector.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             let element = self.get_element(row)? - scalar;  // Perform subtraction.
 
             self.set_element(row, element)?;    // Set the new value of the element.
@@ -450,7 +450,7 @@ impl Vector<f32> {
         let mut norm: f32 = 0.0;
 
         // Iterate through each element, square it, and accumulate the sum.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             norm += self.get_element(row)? * self.get_element(row)?;
         }
 
@@ -503,7 +503,7 @@ impl Vector<f32> {
     /// This method is used to ...
     pub fn mul_by_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
         // Iterate through each element and multiply it by the scalar.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             let element = self.get_element(row)? * scalar;  // Peform multiplication.
 
             self.set_element(row, element)?;    // Set the new value of the element.
@@ -636,7 +636,7 @@ impl Vector<f32> {
     /// This method is used to apply an exponent to all elements of a vector of size m x 1.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
         // Iterate through each element and apply exponent.
-        for row in 0..self.rows {
+        for row in 0..self.get_rows()? {
             let element = powf(self.get_element(row)?, exponent);
             self.set_element(row, element)?;
         }
-- 
2.43.0


From 1e37d2bb4734e49ecb8100c283e814a46d4e9ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:23 +0000
Subject: [PATCH 05/46] fix: let is_upper_triangular handle matrices with more
 rows than columns

It read past the last column and returned an error.
---
 linalg/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index fa7ca37..363b969 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1236,7 +1236,7 @@ impl Matrix {
         // Loops on every row except the first (which doesn't need to have null elements).
         for row in 1..self.get_rows()? {
             // We loop for the columns corresponding to the lower triangular matrix as a function of the current row.
-            for col in 0..row {
+            for col in 0..min(row, self.cols) {
                 // If the matrix is upper diagonal, the element must always be zero, otherwise the matrix cannot be upper diagonal.
                 if !allclose(self.get_element(row, col)?, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
                     return Ok(false);   // Return the result with no error.
-- 
2.43.0


From 5929a372d0c20fe6cb1d7c0410424d84beec1bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:25 +0000
Subject: [PATCH 06/46] fix: return an error when a norm, product, trace or
 determinant overflows

These returned infinity or NaN as a valid result.
---
 linalg/src/matrix.rs | 8 ++++++++
 linalg/src/vector.rs | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 363b969..a92cd36 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1001,6 +1001,8 @@ impl Matrix {
             trace += self.get_element(i, i)?;   // Add the element at position (i, i) to the trace.
         }
 
+        is_valid_value(trace).map_err(LinalgError::UtilsError)?;   // Check that the result did not overflow.
+
         Ok(trace)   // Return the computed trace with no error.
     }
 
@@ -1276,6 +1278,8 @@ impl Matrix {
 
         frobenius_norm = sqrtf(frobenius_norm);
 
+        is_valid_value(frobenius_norm).map_err(LinalgError::UtilsError)?;   // Check that the result did not overflow.
+
         Ok(frobenius_norm)
     }
 
@@ -1307,6 +1311,8 @@ impl Matrix {
             determinant = -determinant;
         }
 
+        is_valid_value(determinant).map_err(LinalgError::UtilsError)?;   // Check that the result did not overflow.
+
         Ok(determinant) // Return the determinant with no error.
     }
 
@@ -1406,6 +1412,8 @@ impl Matrix {
             determinant += sign * product;  // Add or subtract the product according to the sign.
         }
 
+        is_valid_value(determinant).map_err(LinalgError::UtilsError)?;   // Check that the result did not overflow.
+
         Ok(determinant) // Return the determinant with no error.
     }
 
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index b8f30ff..578fd8b 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -456,6 +456,8 @@ impl Vector<f32> {
 
         norm = sqrtf(norm);  // Calculate the square root of the sum to obtain the Euclidean norm.
 
+        is_valid_value(norm).map_err(LinalgError::UtilsError)?;   // Check that the result did not overflow.
+
         // Check for numerical precision issues and set very small norms to zero.
         if norm <= EPSILON {
             norm = 0.0;
@@ -543,6 +545,8 @@ impl Vector<f32> {
             scalar += self.get_element(row)? * other.get_element(row)?;
         }
 
+        is_valid_value(scalar).map_err(LinalgError::UtilsError)?;   // Check that the result did not overflow.
+
         Ok(scalar)  // Return the result with no error.
     }
 
-- 
2.43.0


From 0880828652792d54bbec83d84772a1ba4c795d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:52 +0000
Subject: [PATCH 07/46] fix: refuse a non-finite exponent in power_elements

Elements equal to one, or an infinite exponent, let it through.
---
 linalg/src/matrix.rs | 2 ++
 linalg/src/vector.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index a92cd36..24c7ba4 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -967,6 +967,8 @@ impl Matrix {
 
     /// This method is used to apply an exponent to all elements of a matrix of size m x n.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
+        is_valid_value(exponent).map_err(LinalgError::UtilsError)?; // Check that the exponent is valid.
+
         // Iterate through each element and apply exponent.
         for row in 0..self.get_rows()? {
             for col in 0..self.cols {
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index 578fd8b..7b12694 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -639,6 +639,8 @@ impl Vector<f32> {
 
     /// This method is used to apply an exponent to all elements of a vector of size m x 1.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
+        is_valid_value(exponent).map_err(LinalgError::UtilsError)?; // Check that the exponent is valid.
+
         // Iterate through each element and apply exponent.
         for row in 0..self.get_rows()? {
             let element = powf(self.get_element(row)?, exponent);
-- 
2.43.0


From 1ff8fec2ad311206c994eca1f5640d153758949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:53 +0000
Subject: [PATCH 08/46] fix: pick the pivot of the LU decomposition by
 magnitude in the current column

The comparison used signed values and always column zero, so invertible matrices were called singular.
---
 linalg/src/linalg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 7cf2635..ad91e6f 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -22,7 +22,7 @@ pub fn lup(mat: &Matrix) -> Result<(Matrix, Vector<u8>), LinalgError> {
         let mut row_max = row;
 
         for col in (row + 1)..mat.get_cols()? {
-            if lu.get_element(p.get_element(col)?, row)? > lu.get_element(p.get_element(row_max)?, 0)? {
+            if fabsf(lu.get_element(p.get_element(col)?, row)?) > fabsf(lu.get_element(p.get_element(row_max)?, row)?) {
                 row_max = col;
             }
         }
-- 
2.43.0


From 99dc4d79e8c4dbdb35520f67a853974fdcd54b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:55 +0000
Subject: [PATCH 09/46] fix: compute the sign of the row permutation in det

Two independent row exchanges were counted as an odd permutation.
---
 linalg/src/matrix.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 24c7ba4..e739c99 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1301,18 +1301,15 @@ impl Matrix {
             determinant *= lu.get_element(p.get_element(row)?, row)?;
         }
 
-        let mut col: u8 = 0;
-
+        // The sign depends on the parity of the number of inversions in the pivot vector.
         for row in 0..self.rows {
-            if p.get_element(row)? != row {
-                col += 1;
+            for col in (row + 1)..self.rows {
+                if p.get_element(row)? > p.get_element(col)? {
+                    determinant = -determinant;
+                }
             }
         }
 
-        if col != 0 && (col - 1) % 2 == 1 {
-            determinant = -determinant;
-        }
-
         is_valid_value(determinant).map_err(LinalgError::UtilsError)?;   // Check that the result did not overflow.
 
         Ok(determinant) // Return the determinant with no error.
-- 
2.43.0


From 6420523dcbeaa4509b5fcabd77e6c41d34e13936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:56 +0000
Subject: [PATCH 10/46] fix: leave the matrix unchanged when invert fails

An overflow while solving for a later column left it partly overwritten.
---
 linalg/src/matrix.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index e739c99..0519ef6 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -932,6 +932,9 @@ impl Matrix {
             Err(_) => return Err(LinalgError::NotInversible),
         };
 
+        // Build the result apart so that the matrix is unchanged if it can't be inverted.
+        let mut inverse = self.duplicate()?;
+
         for row in 0..self.rows {
             tmp_vec.set_element(row, 1.0)?;
 
@@ -941,13 +944,14 @@ impl Matrix {
             };
 
             for col in 0..self.cols {
-                self.set_element(row, col, x.get_element(col)?)?;
+                inverse.set_element(row, col, x.get_element(col)?)?;
             }
 
             tmp_vec.set_element(row, 0.0)?;
         }
 
-        self.transpose()?;  // Transpose the result to get the inverse.
+        inverse.transpose()?;   // Transpose the result to get the inverse.
+        self.copy_from(&inverse)?;
 
         Ok(())
     }
-- 
2.43.0


From 76af891bc65feede32d99cc20d6b797a0d97bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:58 +0000
Subject: [PATCH 11/46] fix: restart the sum for every element of R in lr

The sum carried over from the previous element.
---
 linalg/src/matrix.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 0519ef6..c4ea72f 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1057,6 +1057,8 @@ impl Matrix {
 
         for col in 0..n {
             for j in col..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(col, k)? * r.get_element(k, j)?;
                 }
-- 
2.43.0


From 56ba6334849cf431388682aa09e38f302e8540d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:00 +0000
Subject: [PATCH 12/46] fix: make lu_crout factor regular matrices

The singularity test was inverted and the sums were not restarted for every element.
---
 linalg/src/matrix.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index c4ea72f..0be5ca0 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1127,6 +1127,8 @@ impl Matrix {
         for row in 0..n {
             // Step 1 - Find U.
             for col in row..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(row, k)? * u.get_element(k, col)?;
                 }
@@ -1136,10 +1138,10 @@ impl Matrix {
                 u.set_element(row, col, element)?;
             }
 
-            sum = 0.0;
-
             // Step 2 - Find L using U.
             for col in (row+1)..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(col, k)? * u.get_element(k, row)?;
                 }
@@ -1147,7 +1149,7 @@ impl Matrix {
                 let u_element = u.get_element(row, row)?;
 
                 // The matrix A may be singular (non-invertible) or poor conditionned (due to numerical errors).
-                if !allclose(u_element, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
+                if allclose(u_element, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
                     return Err(LinalgError::Singular);  // Return an error (avoid a division by 0).
                 }
 
-- 
2.43.0


From 8019784128cdb3fd96fbc1877e5c0f249c71cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:59 +0000
Subject: [PATCH 13/46] fix: return an orthogonal Q and a matching R from
 qr_decomp

The decomposition stopped at the first dependent column, leaving Q neither
orthogonal nor complete, and gave R the wrong size for non-square matrices.
---
 linalg/src/matrix.rs | 48 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 0be5ca0..c76b6f4 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1190,7 +1190,7 @@ impl Matrix {
         q.copy_from(&self)?;
 
         let mut r: Matrix = Matrix::new();
-        r.init(self.rows, self.cols)?;
+        r.init(self.cols, self.cols)?;
 
         let mut tmp: Matrix = Matrix::new();
         tmp.init(self.rows, self.cols)?;
@@ -1225,7 +1225,51 @@ impl Matrix {
                     q.set_element(k, col, element)?;
                 }
             } else {
-                break;
+                // The column depends on the previous ones, so complete the basis with the first suitable canonical vector.
+                for axis in 0..self.rows {
+                    for k in 0..self.rows {
+                        q.set_element(k, col, if k == axis { 1.0 } else { 0.0 })?;
+                    }
+
+                    // Orthogonalise it twice to limit rounding errors.
+                    for _ in 0..2 {
+                        for row in 0..col {
+                            let mut dot_product: f32 = 0.0;
+
+                            for k in 0..self.rows {
+                                dot_product += q.get_element(k, row)? * q.get_element(k, col)?;
+                            }
+
+                            for k in 0..self.rows {
+                                let element = q.get_element(k, col)? - dot_product * q.get_element(k, row)?;
+                                q.set_element(k, col, element)?;
+                            }
+                        }
+                    }
+
+                    let mut norm: f32 = 0.0;
+
+                    for k in 0..self.rows {
+                        norm += q.get_element(k, col)? * q.get_element(k, col)?;
+                    }
+
+                    norm = sqrtf(norm);
+
+                    // At least one canonical vector has a component of norm 1/2 or more outside of an incomplete basis.
+                    if norm > 0.4 {
+                        for k in 0..self.rows {
+                            let element = q.get_element(k, col)? / norm;
+                            q.set_element(k, col, element)?;
+                        }
+
+                        break;
+                    }
+
+                    // The basis is already complete (more columns than rows).
+                    for k in 0..self.rows {
+                        q.set_element(k, col, 0.0)?;
+                    }
+                }
             }
         }
 
-- 
2.43.0


From fe213ba4d3471fb2620ba67618864ce543724b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:00 +0000
Subject: [PATCH 14/46] fix: make the Cholesky factor lower triangular and
 refuse singular matrices

The elements above the diagonal were filled in as well, and a zero minor
counted as positive.
---
 linalg/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index c76b6f4..744d6b1 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1553,7 +1553,7 @@ impl Matrix {
             }
 
             // Check the determinant of the submatrix.
-            if tmp.det()? < 0.0 {
+            if tmp.det()? <= 0.0 {
                 return Ok(false);
             }
         }
@@ -1613,7 +1613,7 @@ impl Matrix {
                 l.set_element(col, col, EPSILON)?;
             }
 
-            for row in 0..self.rows {
+            for row in col..self.rows {
                 let mut s2: f32 = 0.0;
 
                 for k in 0..col {
-- 
2.43.0


From 561d71515ab01ed383618bb054c2fbb43667a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:02 +0000
Subject: [PATCH 15/46] fix: make eigen report only converged results

The eigenvalues were zeroed when the iterations ran out, slow convergence was
mistaken for convergence, and the shift was not an eigenvalue estimate. A 1 x 1
matrix with shift panicked.
---
 linalg/src/linalg.rs | 48 +++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index ad91e6f..6096cc7 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -125,33 +125,28 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
     let mut eigenvalues: Vector<f32> = Vector::new();
     eigenvalues.init(m)?;
 
-    // Create a vector containing the eigenvalues calculated in the previous loop.
-    let mut previous_eigenvalues: Vector<f32> = Vector::new();
-    previous_eigenvalues.init(m)?;
-
-    // Create a vector containing the variation of calculated eigenvalues.
-    let mut delta_eigenvalues: Vector<f32> = Vector::new();
-    delta_eigenvalues.init(m)?;
+    let norm = mat.calculate_frobenius_norm()?; // Norm of the input matrix, used to check for convergence.
 
     for _iter in 0..niter {
         let mut tmp = Matrix::new();    // Create a new matrix.
         tmp.init(m, m)?;                // Initialize the new matrix with the same size as the input matrix.
 
-        if shifted {
+        if shifted && m > 1 {
             // Apply Wilkinson shift method to determine the shift.
             let a_ = a.get_element(m - 2, m - 2)?;
             let b = a.get_element(m - 2, m - 1)?;
             let c = a.get_element(m - 1, m - 1)?;
 
-            let delta = ((a_ - c) / 2.0) * ((a_ - c) / 2.0) + b * b;
+            let delta = (a_ - c) / 2.0;
 
-            #[allow(unused_assignments)]
-            let mut s: f32 = 0.0;
+            let mut s: f32 = c;
 
-            if a_ < c {
-                s = c - delta / (fabsf(b) + sqrtf(delta));
-            } else {
-                s = c + delta / (fabsf(b) + sqrtf(delta));
+            if b != 0.0 {
+                if delta < 0.0 {
+                    s = c + b * b / (fabsf(delta) + sqrtf(delta * delta + b * b));
+                } else {
+                    s = c - b * b / (fabsf(delta) + sqrtf(delta * delta + b * b));
+                }
             }
 
             //Q, R = qr_decomposition(A - s*I)
@@ -190,23 +185,22 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
             eigenvalues.set_element(k, a.get_element(k, k)?)?;
         }
 
-        // Calculate the relative variation in eigenvalues.
-        delta_eigenvalues.sub(&eigenvalues, &previous_eigenvalues)?;
-        let relative_variation = delta_eigenvalues.calculate_norm()? / eigenvalues.calculate_norm()?;
+        // Calculate the norm of the part below the diagonal, which vanishes as the algorithm converges.
+        let mut residual: f32 = 0.0;
 
-        // Check for convergence.
-        if relative_variation < EPSILON {
-            break;
-        } else {
-            // Update the previous eigenvalues for the next iteration.
-            for k in 0..m {
-                eigenvalues.set_element(k, 0.0)?;
-                previous_eigenvalues.set_element(k, a.get_element(k, k)?)?;
+        for row in 1..m {
+            for col in 0..row {
+                residual += a.get_element(row, col)? * a.get_element(row, col)?;
             }
         }
+
+        // Check for convergence.
+        if sqrtf(residual) <= EPSILON * norm {
+            return Ok((eigenvalues, eigenvectors)); // Return eigen values and eigen vectors of the matrix with no error.
+        }
     }
 
-    Ok((eigenvalues, eigenvectors)) // Return eigen values and eigen vectors of the matrix with no error.
+    Err(LinalgError::Unsolvable)    // The maximum number of iterations was reached before converging.
 }
 
 /*
-- 
2.43.0


From a470cb880c808c8be3243091d93d9fb52fb17555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:23 +0000
Subject: [PATCH 16/46] fix: compute the logarithm of rotations close to the
 identity

The angle or the factor was undefined for the identity and for matrices whose
trace rounds above three.
---
 linalg/src/matrix.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 744d6b1..ebedf39 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1,7 +1,7 @@
 extern crate utils;
 extern crate libm;
 
-use utils::utils::{is_valid_value, allclose, min, factorial};
+use utils::utils::{is_valid_value, allclose, min, clip, factorial};
 use libm::{powf, sqrtf, fabsf, acosf, sinf};
 
 use crate::common::{M_MAX, N_MAX, EPSILON, LinalgError, is_valid_rows_number, is_valid_cols_number, is_valid_row, is_valid_col};
@@ -1791,13 +1791,16 @@ impl Matrix {
             //return Err(LinalgError::); // Return an error.
         }
 
-        let theta = acosf((self.trace()? - 1.0) / 2.0);
+        let theta = acosf(clip((self.trace()? - 1.0) / 2.0, -1.0, 1.0));
+
+        // The factor tends to one half when the angle vanishes.
+        let factor = if theta > EPSILON { theta / (2.0 * sinf(theta)) } else { 0.5 };
 
         let mut transposed_mat = self.duplicate()?; // Duplicate the actual matrix.
         transposed_mat.transpose()?;                // Tranpose it.
 
         let mut result_mat = self.sub_new(&transposed_mat)?;
-        result_mat.mul_by_scalar_in_place(theta / (2.0 * sinf(theta)))?;
+        result_mat.mul_by_scalar_in_place(factor)?;
 
         Ok(result_mat)  // Return the result matrix with no error.
     }
@@ -1816,13 +1819,16 @@ impl Matrix {
             //return Err(LinalgError::); // Return an error.
         }
 
-        let theta = acosf((self.trace()? - 1.0) / 2.0);
+        let theta = acosf(clip((self.trace()? - 1.0) / 2.0, -1.0, 1.0));
+
+        // The factor tends to one half when the angle vanishes.
+        let factor = if theta > EPSILON { theta / (2.0 * sinf(theta)) } else { 0.5 };
 
         let mut transposed_mat = self.duplicate()?; // Duplicate the actual matrix.
         transposed_mat.transpose()?;                // Tranpose it.
 
         self.sub_in_place(&transposed_mat)?;
-        self.mul_by_scalar_in_place(theta / (2.0 * sinf(theta)))?;
+        self.mul_by_scalar_in_place(factor)?;
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From 37ae6b6923ef01415618e5a4449ad28d1f3aa8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:24 +0000
Subject: [PATCH 17/46] fix: interpolate between parallel vectors in slerp

Identical vectors divided by zero, and a product rounded above one had no angle.
---
 linalg/src/vector.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index 7b12694..93278f7 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -1,6 +1,6 @@
 extern crate utils;
 
-use utils::utils::{is_valid_value, in_range, allclose};
+use utils::utils::{is_valid_value, in_range, allclose, clip};
 use libm::{acosf, sinf, sqrtf, powf};
 
 use crate::common::{M_MAX, EPSILON, LinalgError};
@@ -585,7 +585,12 @@ impl Vector<f32> {
 
         // Perform scalar product.
         let scalar = vect1.dot_product(&vect2)?;
-        let theta = acosf(scalar);  // Angle between the axis of the first vector and the second one.
+        let theta = acosf(clip(scalar, -1.0, 1.0)); // Angle between the axis of the first vector and the second one.
+
+        // The vectors are parallel, the interpolation is linear.
+        if theta <= EPSILON {
+            return self.lerp(vect1, vect2, alpha);
+        }
 
         // Create a copy of the first vector.
         let mut v1 = Self::new();
-- 
2.43.0


From d68991a232d3380bc49e8b907be9229429706f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:39 +0000
Subject: [PATCH 18/46] fix: store the given parts in a new complex number

Complex::new ignored its arguments and always created zero.
---
 dsp/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/src/complex.rs b/dsp/src/complex.rs
index 866bac9..772d865 100644
--- a/dsp/src/complex.rs
+++ b/dsp/src/complex.rs
@@ -34,8 +34,8 @@ impl Complex {
         is_valid_value(im)?;    // Check that the imaginary part value is valid.
 
         let z = Self {
-            re: 0.0,    // Default real part value of the complex number.
-            im: 0.0,    // Default imaginary part valueof the complex number.
+            re: re, // Real part value of the complex number.
+            im: im, // Imaginary part value of the complex number.
         };
 
         Ok(z)   // Return no error.
-- 
2.43.0


From e71afdb10452c5eb6468be02bde5e85c58bbc69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:25 +0000
Subject: [PATCH 19/46] fix: apply the real part in the quaternion exponential

Real quaternions always gave one, and the in-place form skipped the real part
when the vector part was close to a quarter turn.
---
 quaternion/src/quaternion.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 7d99291..1d534e2 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -453,7 +453,7 @@ impl Quaternion for Vector<f32> {
     fn exp(self: &mut Self) -> Result<(), LinalgError> {
         // Check if the quaternion is real.
         if self.is_real()? {
-            self.fillq(1.0, 0.0, 0.0, 0.0)?;
+            self.fillq(powf(E, self.get_element(0)?), 0.0, 0.0, 0.0)?;
 
             return Ok(());  // Return no error.
         }
@@ -465,10 +465,12 @@ impl Quaternion for Vector<f32> {
 
         qv.mul_by_scalar_in_place(sinf(qv_norm))?;
 
+        let is_pure = self.is_pure()?;          // Must be checked before the quaternion is overwritten.
+
         self.fillq(cosf(qv_norm), qv.get_element(0)?, qv.get_element(1)?, qv.get_element(2)?)?;
 
         // Check if the quaternion is pure.
-        if self.is_pure()? {
+        if is_pure {
             return Ok(());  // Return no error.
         }
 
@@ -483,7 +485,7 @@ impl Quaternion for Vector<f32> {
 
         // Check if the quaternion is real.
         if self.is_real()? {
-            q_exp.fillq(1.0, 0.0, 0.0, 0.0)?;
+            q_exp.fillq(powf(E, self.get_element(0)?), 0.0, 0.0, 0.0)?;
 
             return Ok(q_exp);   // Return the result with no error.
         }
-- 
2.43.0


From 46a1e124484116afbca3bc591f2c83786b5bd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:26 +0000
Subject: [PATCH 20/46] fix: use the same rotation convention in hughes as in
 convert_to_dcm

The result was the conjugate of the quaternion the matrix came from.
---
 quaternion/src/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 1d534e2..626a424 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -555,9 +555,9 @@ impl Quaternion for Vector<f32> {
             qy = e.get_element(1)?;
             qz = e.get_element(2)?;
         } else {    // eq. 16 on p. 18 of "Spacecraft Attitude Dynamics".
-            qx = 0.25 * (dcm.get_element(1, 2)? - dcm.get_element(2, 1)?) / n;
-            qy = 0.25 * (dcm.get_element(2, 0)? - dcm.get_element(0, 2)?) / n;
-            qz = 0.25 * (dcm.get_element(0, 1)? - dcm.get_element(1, 0)?) / n;
+            qx = 0.25 * (dcm.get_element(2, 1)? - dcm.get_element(1, 2)?) / n;
+            qy = 0.25 * (dcm.get_element(0, 2)? - dcm.get_element(2, 0)?) / n;
+            qz = 0.25 * (dcm.get_element(1, 0)? - dcm.get_element(0, 1)?) / n;
         }
 
         // Fill the quaternion.
-- 
2.43.0


From 116eba8b65271356f8b986e64b60e2183419cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:08 +0000
Subject: [PATCH 21/46] fix: keep small rotations in hughes

Rotations of up to half a degree were returned as the identity, because the trace
hardly changes with a small angle. The general formula covers the identity.
---
 quaternion/src/quaternion.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 626a424..966494d 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -528,14 +528,6 @@ impl Quaternion for Vector<f32> {
         let mut trace = dcm.trace()?;
         trace = clip(trace, -1.0, 3.0);
 
-        // Check if the rotation is null.
-        if allclose(trace, 3.0, EPSILON).map_err(LinalgError::UtilsError)? {
-            // The trace is 3, which implies that the DCM is the identity matrix and therefore the rotation is null.
-            self.fillq(1.0, 0.0, 0.0, 0.0)?;
-
-            return Ok(());  // Return no error.
-        }
-
         // Calculate the real part of the quaternion.
         let n = 0.5 * sqrtf(1.0 + trace);  // eq. 15 on p. 18 of "Spacecraft Attitude Dynamics".
 
-- 
2.43.0


From 512759d334c59ca6088c73711e551085ed9a1710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:10 +0000
Subject: [PATCH 22/46] fix: recover the signs of the vector part when
 converting a DCM to a quaternion

sarabandi returned only magnitudes, all three methods lost the signs at half
turns, and chiaverini also limited each component to 0.7.
---
 quaternion/src/quaternion.rs | 72 ++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 966494d..c57b947 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -5,8 +5,8 @@ extern crate libm;
 use linalg::vector::Vector;
 use linalg::matrix::Matrix;
 use linalg::common::{EPSILON, LinalgError, E};
-use utils::utils::{allclose, clip, Sign};
-use libm::{sqrtf, atan2f, asinf, powf, cosf, sinf};
+use utils::utils::{allclose, clip};
+use libm::{sqrtf, atan2f, asinf, powf, cosf, sinf, fabsf, copysignf};
 
 pub trait Quaternion {
     /// This method is used to check if a vector can be used as a quaternion.
@@ -77,6 +77,35 @@ pub trait Quaternion {
     //fn convert_from_euler(self: &mut Self, phi: f32, theta: f32, psi: f32) -> Result<(), LinalgError>;
 }
 
+/// This function is used to find the signs of the vector part of the quaternion (with a positive real part) of a DCM.
+fn vector_part_signs(dcm: &Matrix) -> Result<(f32, f32, f32), LinalgError> {
+    // The antisymmetric part of the DCM is 4.qw.(qx, qy, qz).
+    let mut x = dcm.get_element(2, 1)? - dcm.get_element(1, 2)?;
+    let mut y = dcm.get_element(0, 2)? - dcm.get_element(2, 0)?;
+    let mut z = dcm.get_element(1, 0)? - dcm.get_element(0, 1)?;
+
+    // It vanishes for a half turn: use the symmetric part, relative to the largest component, instead.
+    if dcm.trace()? < 0.0 && fabsf(x) <= EPSILON && fabsf(y) <= EPSILON && fabsf(z) <= EPSILON {
+        let xx = dcm.get_element(0, 0)?;
+        let yy = dcm.get_element(1, 1)?;
+        let zz = dcm.get_element(2, 2)?;
+
+        let xy = dcm.get_element(0, 1)? + dcm.get_element(1, 0)?;
+        let xz = dcm.get_element(0, 2)? + dcm.get_element(2, 0)?;
+        let yz = dcm.get_element(1, 2)? + dcm.get_element(2, 1)?;
+
+        (x, y, z) = if xx >= yy && xx >= zz {
+            (1.0, xy, xz)
+        } else if yy >= zz {
+            (xy, 1.0, yz)
+        } else {
+            (xz, yz, 1.0)
+        };
+    }
+
+    Ok((copysignf(1.0, x), copysignf(1.0, y), copysignf(1.0, z)))   // Return the signs with no error.
+}
+
 impl Quaternion for Vector<f32> {
     // This method is used to check if a vector can be used as a quaternion.
     fn is_quaternion(self: &Self) -> Result<bool, LinalgError> {
@@ -536,16 +565,14 @@ impl Quaternion for Vector<f32> {
         let qz: f32;
 
         // Calculate the vector part of the quaternion.
-        if allclose(n, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
+        // The square root magnifies the rounding errors of the trace, hence the tolerance.
+        if allclose(n, 0.0, 10.0 * EPSILON).map_err(LinalgError::UtilsError)? {
             // The trace is -1, which implies that the real part of quaternion is null and therefore the quaternion is pure.
-            let mut e = dcm.diag(None)?;
-            e.add_scalar_in_place(1.0)?;
-            e.mul_by_scalar_in_place(0.5)?;
-            e.power_elements(0.5)?;
-
-            qx = e.get_element(0)?;
-            qy = e.get_element(1)?;
-            qz = e.get_element(2)?;
+            let (x_sign, y_sign, z_sign) = vector_part_signs(dcm)?;
+
+            qx = x_sign * sqrtf(clip(0.5 * (dcm.get_element(0, 0)? + 1.0), 0.0, 1.0));
+            qy = y_sign * sqrtf(clip(0.5 * (dcm.get_element(1, 1)? + 1.0), 0.0, 1.0));
+            qz = z_sign * sqrtf(clip(0.5 * (dcm.get_element(2, 2)? + 1.0), 0.0, 1.0));
         } else {    // eq. 16 on p. 18 of "Spacecraft Attitude Dynamics".
             qx = 0.25 * (dcm.get_element(2, 1)? - dcm.get_element(1, 2)?) / n;
             qy = 0.25 * (dcm.get_element(0, 2)? - dcm.get_element(2, 0)?) / n;
@@ -586,20 +613,16 @@ impl Quaternion for Vector<f32> {
         trace = clip(trace, -1.0, 3.0);
 
         // TODO: try to be more efficient.
-        let dcm_32 = dcm.get_element(2, 1)?;
-        let dcm_23 = dcm.get_element(1, 2)?;
         let dcm_11 = dcm.get_element(0, 0)?;
         let dcm_22 = dcm.get_element(1, 1)?;
         let dcm_33 = dcm.get_element(2, 2)?;
-        let dcm_13 = dcm.get_element(0, 2)?;
-        let dcm_31 = dcm.get_element(2, 0)?;
-        let dcm_21 = dcm.get_element(1, 0)?;
-        let dcm_12 = dcm.get_element(0, 1)?;
+
+        let (x_sign, y_sign, z_sign) = vector_part_signs(dcm)?;
 
         let qw = 0.5 * sqrtf(trace + 1.0);
-        let qx = 0.5 * (dcm_32 - dcm_23).sign() * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 1.0) + 1.0);
-        let qy = 0.5 * (dcm_13 - dcm_31).sign() * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 1.0) + 1.0);
-        let qz = 0.5 * (dcm_21 - dcm_12).sign() * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 1.0) + 1.0);
+        let qx = 0.5 * x_sign * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 3.0) + 1.0);
+        let qy = 0.5 * y_sign * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 3.0) + 1.0);
+        let qz = 0.5 * z_sign * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 3.0) + 1.0);
 
         // Fill the quaternion.
         self.set_element(0, qw)?;
@@ -702,11 +725,14 @@ impl Quaternion for Vector<f32> {
             qz = 0.5 * sqrtf(nominator / denominator);
         }
 
+        // The equations above only give the magnitudes.
+        let (x_sign, y_sign, z_sign) = vector_part_signs(dcm)?;
+
         // Fill the quaternion.
         self.set_element(0, qw)?;
-        self.set_element(1, qx)?;
-        self.set_element(2, qy)?;
-        self.set_element(3, qz)?;
+        self.set_element(1, x_sign * qx)?;
+        self.set_element(2, y_sign * qy)?;
+        self.set_element(3, z_sign * qz)?;
 
         // TODO: check if the quaternion is correct. ex: (0 0 0 0) is not force qw to 1 or return an error.
         // Add some code here.
-- 
2.43.0


From c55265b34af541ff27b222f1d0e74a8bf4a5fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:11 +0000
Subject: [PATCH 23/46] fix: always return valid Euler angles

The pitch of a vertical attitude was NaN when rounding pushed its sine above one.
---
 quaternion/src/quaternion.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index c57b947..12a168d 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -5,7 +5,7 @@ extern crate libm;
 use linalg::vector::Vector;
 use linalg::matrix::Matrix;
 use linalg::common::{EPSILON, LinalgError, E};
-use utils::utils::{allclose, clip};
+use utils::utils::{allclose, clip, is_valid_value};
 use libm::{sqrtf, atan2f, asinf, powf, cosf, sinf, fabsf, copysignf};
 
 pub trait Quaternion {
@@ -757,9 +757,14 @@ impl Quaternion for Vector<f32> {
         let qz = self.get_qz()?;
 
         let phi = atan2f(2.0*(qw*qx + qy*qz), 1.0 - 2.0*(qx*qx + qy*qy));   // Calculate roll angle.
-        let theta = asinf(2.0*(qw*qy - qz*qx));                             // Calculate pitch angle.
+        let theta = asinf(clip(2.0*(qw*qy - qz*qx), -1.0, 1.0));            // Calculate pitch angle.
         let psi = atan2f(2.0*(qw*qz + qx*qy), 1.0 - 2.0*(qy*qy + qz*qz));   // Calculate yaw angle.
 
+        // Check that the angles are valid (very large components overflow).
+        is_valid_value(phi).map_err(LinalgError::UtilsError)?;
+        is_valid_value(theta).map_err(LinalgError::UtilsError)?;
+        is_valid_value(psi).map_err(LinalgError::UtilsError)?;
+
         // Store each angle in the vector.
         /*
         euler_angles.set_element(0, phi)?;
-- 
2.43.0


From 9c40f4161da89b92701ceaef5d33544f0e6c8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:12 +0000
Subject: [PATCH 24/46] fix: leave the quaternion unchanged when fillq refuses
 a component

---
 quaternion/src/quaternion.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 12a168d..77f29f5 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -305,6 +305,12 @@ impl Quaternion for Vector<f32> {
             return Err(LinalgError::InvalidSize);   // Return an error.
         }
 
+        // Check all the components before changing any of them.
+        is_valid_value(qw).map_err(LinalgError::UtilsError)?;
+        is_valid_value(qx).map_err(LinalgError::UtilsError)?;
+        is_valid_value(qy).map_err(LinalgError::UtilsError)?;
+        is_valid_value(qz).map_err(LinalgError::UtilsError)?;
+
         // Fill the quaternion.
         self.set_element(0, qw)?;
         self.set_element(1, qx)?;
-- 
2.43.0


From 268b135e410adbadb6bc3c138b226b648e9d7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:38 +0000
Subject: [PATCH 25/46] fix: apply each soft iron correction to the axes it is
 named after

The magnetometer stored the cross-axis corrections in the wrong cells of its
correction matrix, so for example the xz term acted on the y axis. Use the same
layout as the gyrometer and the accelerometer.
---
 open_ahrs/src/magnetometer.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index def25da..c0d7b27 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -118,12 +118,12 @@ impl Magnetometer {
         self.scale_and_soft_iron_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_soft_iron_correction.set_element(2, 2, config.z_axis_scale_correction)?;
 
-        self.scale_and_soft_iron_correction.set_element(0, 1, config.xy_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 0, config.xz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(0, 2, config.yx_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 0, config.yz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 2, config.zx_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 1, config.zy_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(1, 0, config.xy_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(2, 0, config.xz_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(0, 1, config.yx_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(2, 1, config.yz_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(0, 2, config.zx_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(1, 2, config.zy_soft_iron_correction)?;
 
         self.hard_iron_biases.set_element(0, config.x_axis_hard_iron_bias)?;
         self.hard_iron_biases.set_element(1, config.y_axis_hard_iron_bias)?;
@@ -169,12 +169,12 @@ impl Magnetometer {
                 config.y_axis_scale_correction = self.scale_and_soft_iron_correction.get_element(1, 1)?;
                 config.z_axis_scale_correction = self.scale_and_soft_iron_correction.get_element(2, 2)?;
 
-                config.xy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 1)?;
-                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
-                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
-                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
-                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
-                config.zy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 1)?;
+                config.xy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
+                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
+                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 1)?;
+                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 1)?;
+                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
+                config.zy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
 
                 config.x_axis_hard_iron_bias = self.hard_iron_biases.get_element(0)?;
                 config.y_axis_hard_iron_bias = self.hard_iron_biases.get_element(1)?;
-- 
2.43.0


From 8b609b15e1bee05d3628a926642266afc9cabaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:39 +0000
Subject: [PATCH 26/46] fix: keep the previous sensor configuration when a new
 one is refused

A configuration with a non-finite value was stored up to the offending element
and then refused, which left a mix of two configurations behind.
---
 open_ahrs/src/accelerometer.rs | 12 ++++++++++++
 open_ahrs/src/gyrometer.rs     | 12 ++++++++++++
 open_ahrs/src/magnetometer.rs  | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index 2d6c917..50bf153 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -107,6 +107,18 @@ impl Accelerometer {
 
     // This function sets the configuration privately
     fn private_set_config(self: &mut Self, config: &AccelerometerConfig) -> Result<(), OpenAHRSError> {
+        // Apply the configuration to a new accelerometer first, so that a refused configuration leaves this one unchanged.
+        let mut acc = Self::new()?;
+        acc.apply_config(&config)?;
+
+        self.scale_and_axes_misalignment_correction = acc.scale_and_axes_misalignment_correction;
+        self.static_biases = acc.static_biases;
+
+        Ok(())
+    }
+
+    // This function stores each element of the configuration.
+    fn apply_config(self: &mut Self, config: &AccelerometerConfig) -> Result<(), OpenAHRSError> {
         self.scale_and_axes_misalignment_correction.set_element(0, 0, config.x_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(2, 2, config.z_axis_scale_correction)?;
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index dbb6f2a..eb628fd 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -107,6 +107,18 @@ impl Gyrometer {
 
     // This function sets the configuration privately
     fn private_set_config(self: &mut Self, config: &GyrometerConfig) -> Result<(), OpenAHRSError> {
+        // Apply the configuration to a new gyrometer first, so that a refused configuration leaves this one unchanged.
+        let mut gyr = Self::new()?;
+        gyr.apply_config(&config)?;
+
+        self.scale_and_axes_misalignment_correction = gyr.scale_and_axes_misalignment_correction;
+        self.static_biases = gyr.static_biases;
+
+        Ok(())
+    }
+
+    // This function stores each element of the configuration.
+    fn apply_config(self: &mut Self, config: &GyrometerConfig) -> Result<(), OpenAHRSError> {
         self.scale_and_axes_misalignment_correction.set_element(0, 0, config.x_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(2, 2, config.z_axis_scale_correction)?;
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index c0d7b27..a17b019 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -114,6 +114,18 @@ impl Magnetometer {
 
     // This function is used to initialize a magnetometer.
     fn private_set_config(self: &mut Self, config: &MagnetometerConfig) -> Result<(), OpenAHRSError> {
+        // Apply the configuration to a new magnetometer first, so that a refused configuration leaves this one unchanged.
+        let mut mag = Self::new()?;
+        mag.apply_config(&config)?;
+
+        self.scale_and_soft_iron_correction = mag.scale_and_soft_iron_correction;
+        self.hard_iron_biases = mag.hard_iron_biases;
+
+        Ok(())
+    }
+
+    // This function stores each element of the configuration.
+    fn apply_config(self: &mut Self, config: &MagnetometerConfig) -> Result<(), OpenAHRSError> {
         self.scale_and_soft_iron_correction.set_element(0, 0, config.x_axis_scale_correction)?;
         self.scale_and_soft_iron_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_soft_iron_correction.set_element(2, 2, config.z_axis_scale_correction)?;
-- 
2.43.0


From c133956cec43ffaab064eeb1696be11a9d42b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:40 +0000
Subject: [PATCH 27/46] fix: keep the previous measurement when a sensor update
 fails

When a correction overflowed, the sensor reported the uncorrected measurement
minus its bias as if it were the corrected one.
---
 open_ahrs/src/accelerometer.rs | 18 +++++++++++-------
 open_ahrs/src/gyrometer.rs     | 18 +++++++++++-------
 open_ahrs/src/magnetometer.rs  | 18 +++++++++++-------
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index 50bf153..a5daa54 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -193,9 +193,11 @@ impl Accelerometer {
     }
 
     // This function is used to correct the raw measurements.
-    fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+    fn correct(self: &mut Self, raw_measurements: &Vector<f32>) -> Result<(), OpenAHRSError> {
+        let mut corrected_measurements: Vector<f32> = Vector::new();
+        corrected_measurements.init(3)?;
+        corrected_measurements.sub(&raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
+        let mut corrected_measurements = corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
@@ -210,11 +212,13 @@ impl Accelerometer {
             Err(OpenAHRSError::AccNotInit)  // Retrurn an error.
         } else {
             // Store the accelerometer raw measurements.
-            self.raw_measurements.set_element(0, gx)?;
-            self.raw_measurements.set_element(1, gy)?;
-            self.raw_measurements.set_element(2, gz)?;
+            let mut raw_measurements = self.raw_measurements.duplicate()?;
+            raw_measurements.set_element(0, gx)?;
+            raw_measurements.set_element(1, gy)?;
+            raw_measurements.set_element(2, gz)?;
 
-            self.correct()?;    // Correct raw measurements.
+            self.correct(&raw_measurements)?;           // Correct raw measurements.
+            self.raw_measurements = raw_measurements;   // Keep them only once they have been accepted.
 
             Ok(())  // Return no error.
         }
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index eb628fd..5e9af04 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -193,9 +193,11 @@ impl Gyrometer {
     }
 
     // This function is used to correct the raw measurements.
-    fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+    fn correct(self: &mut Self, raw_measurements: &Vector<f32>) -> Result<(), OpenAHRSError> {
+        let mut corrected_measurements: Vector<f32> = Vector::new();
+        corrected_measurements.init(3)?;
+        corrected_measurements.sub(&raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
+        let mut corrected_measurements = corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
@@ -210,11 +212,13 @@ impl Gyrometer {
             Err(OpenAHRSError::GyrNotInit)  // Retrurn an error.
         } else {
             // Store the gyrometer raw measurements.
-            self.raw_measurements.set_element(0, gx)?;
-            self.raw_measurements.set_element(1, gy)?;
-            self.raw_measurements.set_element(2, gz)?;
+            let mut raw_measurements = self.raw_measurements.duplicate()?;
+            raw_measurements.set_element(0, gx)?;
+            raw_measurements.set_element(1, gy)?;
+            raw_measurements.set_element(2, gz)?;
 
-            self.correct()?;    // Correct raw measurements.
+            self.correct(&raw_measurements)?;           // Correct raw measurements.
+            self.raw_measurements = raw_measurements;   // Keep them only once they have been accepted.
 
             Ok(())  // Return no error.
         }
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index a17b019..05de4e9 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -200,9 +200,11 @@ impl Magnetometer {
     }
 
     // This function is used to correct the raw measurements.
-    fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.hard_iron_biases)?;                           // Remove static biases (hard-iron effects) from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                          // Convert this vector into a matrix to perform matrix operations.
+    fn correct(self: &mut Self, raw_measurements: &Vector<f32>) -> Result<(), OpenAHRSError> {
+        let mut corrected_measurements: Vector<f32> = Vector::new();
+        corrected_measurements.init(3)?;
+        corrected_measurements.sub(&raw_measurements, &self.hard_iron_biases)?;                           // Remove static biases (hard-iron effects) from raw measurements.
+        let mut corrected_measurements = corrected_measurements.convert_to_matrix()?;                          // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_soft_iron_correction, &corrected_measurements.duplicate()?)?;    // Correct measurement distorsions (soft-iron effects, scale factors, axes misalignments and non-orthogonality).
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                       // Perform matrix-to-vector conversion to store the corrected measurements.
 
@@ -217,11 +219,13 @@ impl Magnetometer {
             Err(OpenAHRSError::MagNotInit)  // Retrurn an error.
         } else {
             // Store the magnetometer raw measurements.
-            self.raw_measurements.set_element(0, ax)?;
-            self.raw_measurements.set_element(1, ay)?;
-            self.raw_measurements.set_element(2, az)?;
+            let mut raw_measurements = self.raw_measurements.duplicate()?;
+            raw_measurements.set_element(0, ax)?;
+            raw_measurements.set_element(1, ay)?;
+            raw_measurements.set_element(2, az)?;
 
-            self.correct()?;    // Correct raw measurements.
+            self.correct(&raw_measurements)?;           // Correct raw measurements.
+            self.raw_measurements = raw_measurements;   // Keep them only once they have been accepted.
 
             Ok(())  // Return no error.
         }
-- 
2.43.0


From 51dcfa1129cc375fc0810b3e635f2bd65e083e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:21 +0000
Subject: [PATCH 28/46] fix: integrate body rates on the right in the AR Euler
 method

The Euler method multiplied the angular velocity and the attitude in the wrong
order. It treated the gyrometer rates as global rates, unlike the closed form
method.
---
 open_ahrs/src/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index 4af493a..dc514f9 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -148,7 +148,7 @@ impl AR {
 
                 let mut delta: Vector<f32> = Vector::new();
                 delta.init(4)?;
-                delta.mul(&w, &self.attitude)?;
+                delta.mul(&self.attitude, &w)?; // The angular velocity is expressed in the local reference frame.
 
                 qw += delta.get_qw()?;
                 qx += delta.get_qx()?;
-- 
2.43.0


From 7ad385b39765e60aff279f79981556a11e9f5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:22 +0000
Subject: [PATCH 29/46] fix: use matrix powers in the AR Taylor series

The terms of the series raised each element of the matrix to a power instead of
the matrix itself, and the factorial overflowed for high orders.
---
 open_ahrs/src/ar.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index dc514f9..aae2f29 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -8,7 +8,6 @@ use linalg::matrix::Matrix;
 use linalg::vector::Vector;
 use linalg::common::EPSILON;
 use libm::{cosf, sinf};
-use utils::utils::factorial;
 use crate::gyrometer::{GyrometerConfig, Gyrometer};
 use crate::common::{OpenAHRSError, NumericalIntegrationMethod as NIM, calculate_omega_matrix};
 
@@ -120,13 +119,13 @@ impl AR {
                 } else if self.method == NIM::TaylorSeries {
                     omega.mul_by_scalar_in_place(0.5 * self.ts)?;
 
+                    // S = 0.5 * dt * Omega
+                    let mut s = temp.duplicate()?;
+
                     for n in 1..=self.order {
-                        // S = 0.5 * dt * Omega
-                        let mut s = omega.duplicate()?;
-                        // A' = S^n / !n
-                        s.power_elements(n as f32)?;
-                        let factor = factorial(n);
-                        s.mul_by_scalar_in_place(1.0 / factor as f32)?;
+                        // A' = S^n / !n (each term is the previous one multiplied by S / n).
+                        s = s.mul_new(&omega)?;
+                        s.mul_by_scalar_in_place(1.0 / n as f32)?;
                         // A = A + A'
                         temp.add_in_place(&s)?;
                     }
-- 
2.43.0


From 197ff518b5e3a8b878c1fcca70571358a73f8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:23 +0000
Subject: [PATCH 30/46] fix: keep the previous attitude when an AR update fails

An attitude too large to be normalized was stored before the error was returned.
---
 open_ahrs/src/ar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index aae2f29..ed9b82b 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -158,8 +158,10 @@ impl AR {
                 return Err(OpenAHRSError::ARMethodError);   // Return an error.
             }
 
-            self.attitude.fillq(qw, qx, qy, qz)?;
-            self.attitude.normalize()?;
+            let mut attitude = self.attitude.duplicate()?;
+            attitude.fillq(qw, qx, qy, qz)?;
+            attitude.normalize()?;
+            self.attitude = attitude;   // Keep the new attitude only once it is known to be valid.
         } else {
             // The system is not moving (rotating) so the attitude doesn't change.
         }
-- 
2.43.0


From 25ae06ca8d385144cf9d19eb2c663ec1baa672a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:24 +0000
Subject: [PATCH 31/46] fix: allow a filter to be initialized after a refused
 initialization

A refused initialization left some elements of the AR, Aqua and Davenport filters
initialized. The filter could then never be initialized again, because those
elements refused to be initialized twice.
---
 open_ahrs/src/aqua.rs      | 27 +++++++++++++++++++--------
 open_ahrs/src/ar.rs        |  7 +++++--
 open_ahrs/src/davenport.rs |  6 +++---
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 2974d8c..67b7894 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -107,8 +107,14 @@ impl Aqua {
             return Err(OpenAHRSError::AquaFilterAlreadyInit); // Return an error.
         }
 
-        self.attitude.init(4)?;         // Initialize the attitude quaternion.
-        self.attitude.fill_identity()?; // Fill it as identity quaternion.
+        // Work on new elements first, so that a refused initialization leaves the filter as it was.
+        let mut gyr = Gyrometer::new()?;
+        let mut acc = Accelerometer::new()?;
+        let mut mag = Magnetometer::new()?;
+        let mut attitude: Vector<f32> = Vector::new();
+
+        attitude.init(4)?;         // Initialize the attitude quaternion.
+        attitude.fill_identity()?; // Fill it as identity quaternion.
 
         // Check the mode.
         if mode == Mode::MARG {
@@ -118,12 +124,12 @@ impl Aqua {
                 None => return Err(OpenAHRSError::NoGyroconfig),    // No gyrometer configuration and it's required. Return an error.
             };
 
-            self.gyr.init(&config)?;                 // Initialize the gyrometer.
-            self.acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
-            self.mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
+            gyr.init(&config)?;                 // Initialize the gyrometer.
+            acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
+            mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
         } else if mode == Mode::AM {
-            self.acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
-            self.mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
+            acc.init(&accelerometer_config)?;   // Initialize the accelerometer.
+            mag.init(&magnetometer_config)?;    // Initialize the magnetometer.
         } else {
             // Invalid mode.
             return Err(OpenAHRSError::InvalidAquaMode); // Return an error.
@@ -138,12 +144,17 @@ impl Aqua {
 
         // Set initial attitude manually.
         if let Some((qw, qx, qy, qz)) = quat {
-            self.attitude.fillq(qw, qx, qy, qz)?;
+            attitude.fillq(qw, qx, qy, qz)?;
         } else {    // Automatically initialize attitude.
             // Add some code here.
             // In MARG mode, the initial quaternion is determined from the accelerometer and magnetometer in the same way as in AM mode.
         }
 
+        self.gyr = gyr;
+        self.acc = acc;
+        self.mag = mag;
+        self.attitude = attitude;
+
         self.mode = mode;               // Set the mode.
 
         self.ts = ts;                   // Set sampling rate.
diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index ed9b82b..a3a1ef1 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -58,9 +58,12 @@ impl AR {
                 return Err(OpenAHRSError::ARFilterAlreadyInit); // Return an error.
             }
 
+            let mut attitude: Vector<f32> = Vector::new();
+            attitude.init(4)?;                      // Initialize the vector that will be used as quaternion.
+            attitude.fillq(qw, qx, qy, qz)?;        // Set initial attitude.
+
             self.gyr.init(&gyrometer_config)?;      // Initialize the gyrometer.
-            self.attitude.init(4)?;                 // Initialize the vector that will be used as quaternion.
-            self.attitude.fillq(qw, qx, qy, qz)?;   // Set initial attitude.
+            self.attitude = attitude;
             self.ts = ts;                           // Set sampling rate.
             self.method = method;                   // Set the numerical integration method that will be used to estimate the attitude.
             self.order = order;                     // Set the order of the method.
diff --git a/open_ahrs/src/davenport.rs b/open_ahrs/src/davenport.rs
index a180bd1..5348fe0 100644
--- a/open_ahrs/src/davenport.rs
+++ b/open_ahrs/src/davenport.rs
@@ -70,15 +70,15 @@ impl Davenport {
             return Err(OpenAHRSError::DavenportFilterAlreadyInit);  // Return an error.
         }
 
-        self.attitude.init(4)?;         // Initialize the attitude quaternion.
-        self.attitude.fill_identity()?; // Fill it as identity quaternion.
-
         // Check that the sensors observations weights are valid (they must be between 0 (not inclusive) and 1 inclusive).
         if !in_range(w1, EPSILON, 1.0_f32) || !in_range(w2, EPSILON, 1.0_f32){
             // The sensor(s) observation(s) weight(s) is/are not valid.
             return Err(OpenAHRSError::InvalidDavenportWeights); // Return an error.
         }
 
+        self.attitude.init(4)?;         // Initialize the attitude quaternion.
+        self.attitude.fill_identity()?; // Fill it as identity quaternion.
+
         self.w1 = w1;   // Set accelerometer observations weight.
         self.w2 = w2;   // Set magnetometer observations weight.
 
-- 
2.43.0


From 4e4ed02b6ce25d856d5c040308a920f59e89a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:23 +0000
Subject: [PATCH 32/46] fix: normalize the acceleration in the Aqua MARG
 correction

The tilt correction needs a unit gravity vector, but it was given the raw
acceleration. With measurements in m/s2 the square roots were then taken of
negative numbers and the update failed or gave a wrong correction.
---
 open_ahrs/src/aqua.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 67b7894..caa9578 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -383,7 +383,12 @@ impl Aqua {
             // Accelerometer-based correction step.
             let mut dcm_local_to_global = gyr_quat.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
-            temp.mul(&dcm_local_to_global, &a_local.convert_to_matrix()?)?;
+            let mut a_local_normalized: Vector<f32> = Vector::new();    // Only the direction of the acceleration is used to predict gravity.
+            a_local_normalized.init(3)?;
+            a_local_normalized.set_element(0, ax)?;
+            a_local_normalized.set_element(1, ay)?;
+            a_local_normalized.set_element(2, az)?;
+            temp.mul(&dcm_local_to_global, &a_local_normalized.convert_to_matrix()?)?;
             let a_global = temp.col_to_vector(0)?;
 
             // Retrieve vector components.
-- 
2.43.0


From fd7e4cf9c5291937800275553f21aa70259f4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:24 +0000
Subject: [PATCH 33/46] fix: decrease the Aqua adaptive gain linearly between
 its thresholds

The gain was negative between the two thresholds, so the interpolation refused
it and the update failed. It must go from the full gain at the first threshold
to zero at the second one.
---
 open_ahrs/src/aqua.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index caa9578..a5b05d6 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -255,7 +255,7 @@ impl Aqua {
 
         // Check if magnitude error falls within the specified thresholds.
         if self.t1 < norm_error && norm_error < self.t2 {
-			new_gain = gain*(self.t1 - norm_error)/self.t1;
+			new_gain = gain*(self.t2 - norm_error)/(self.t2 - self.t1);
 		}
 
         // If the magnitude error is below or equal to the first threshold, the gain doesn't change.
-- 
2.43.0


From ce4b0fcfec17152e6293c7dbda04467bdd342dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:25 +0000
Subject: [PATCH 34/46] fix: do not overwrite the configured Aqua gain with the
 adaptive one

A single disturbed acceleration set the stored gain to zero, which disabled the
accelerometer correction for the rest of the life of the filter.
---
 open_ahrs/src/aqua.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index a5b05d6..fe94795 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -415,11 +415,13 @@ impl Aqua {
 
             acc_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
+            let mut alpha = self.alpha; // The configured gain is kept for the next update.
+
             if self.adaptive {
-                self.alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
+                alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
             }
 
-            let acc_quat_interpolated = Self::interpolate(&acc_quat, self.alpha, self.t_acc)?;
+            let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
             self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
-- 
2.43.0


From 202514f85653fd432990bcbba56bf5e9d9ef4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:26 +0000
Subject: [PATCH 35/46] fix: keep the previous attitude when an Aqua update
 fails

The attitude was changed before the magnetometer correction was known to be
possible, so a failed update left a partly corrected attitude behind.
---
 open_ahrs/src/aqua.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index fe94795..376ce1f 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -348,6 +348,9 @@ impl Aqua {
         let mut mag_quat: Vector<f32> = Vector::new();  // Quaternion defining the orientation of the system and determined by magnetometer and gyrometer measurements.
         mag_quat.init(4)?;                              // Initialize it.
 
+        let mut attitude: Vector<f32> = Vector::new();  // Quaternion defining the new attitude.
+        attitude.init(4)?;                              // Initialize it.
+
         let mut temp = Matrix::new();
         temp.init(3, 1)?;
 
@@ -424,10 +427,10 @@ impl Aqua {
             let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
-            self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
+            attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
 
             // Magnetometer-based correction step.
-            let mut dcm_local_to_global = self.attitude.convert_to_dcm()?;
+            let mut dcm_local_to_global = attitude.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
             temp.mul(&dcm_local_to_global, &m_local.convert_to_matrix()?)?;
             // Global frame magnetic vector (Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 18, eq. 54).
@@ -470,7 +473,7 @@ impl Aqua {
 
             let mag_quat_interpolated = Self::interpolate(&mag_quat, self.beta, self.t_mag)?;
 
-            self.attitude.mul(&self.attitude.duplicate()?, &mag_quat_interpolated)?;
+            attitude.mul(&attitude.duplicate()?, &mag_quat_interpolated)?;
         } else if self.mode == Mode::AM {
             // Determine the partial orientation as a quaternion from the accelerometer measurements.
             if az < 0.0 {
@@ -514,10 +517,11 @@ impl Aqua {
 
             mag_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
-            self.attitude.mul(&acc_quat, &mag_quat)?;
+            attitude.mul(&acc_quat, &mag_quat)?;
         }
 
-        self.attitude.normalize()?;
+        attitude.normalize()?;
+        self.attitude = attitude;   // Keep the new attitude only once every step has succeeded.
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From f03faf67c7d41e7770fed63cf4342a47989fa265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:28 +0000
Subject: [PATCH 36/46] fix: correct the Aqua heading when the field points
 backwards

Close to an opposite heading the magnetometer correction lost all precision, and
at exactly the opposite heading it divided by zero and the update failed.
---
 open_ahrs/src/aqua.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 376ce1f..207b016 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -14,7 +14,7 @@ use linalg::matrix::Matrix;
 use linalg::vector::Vector;
 use linalg::common::EPSILON;
 use utils::utils::in_range;
-use libm::{sqrtf, fabsf};
+use libm::{sqrtf, fabsf, copysignf};
 
 #[derive(Debug)]
 #[derive(PartialEq)]
@@ -456,10 +456,17 @@ impl Aqua {
             }
             */
 
-            qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
-            qx = 0.0;
-            qy = 0.0;
-            qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
+            if lx >= 0.0 {
+                qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
+                qx = 0.0;
+                qy = 0.0;
+                qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
+            } else {    // Same rotation, without the cancellation that makes it inaccurate or undefined when the heading error is close to half a turn.
+                qw = fabsf(ly) / (sqrtf(2.0) * sqrtf(gamma - lx * sqrtf(gamma)));
+                qx = 0.0;
+                qy = 0.0;
+                qz = copysignf(sqrtf(gamma - lx * sqrtf(gamma)) / sqrtf(2.0 * gamma), ly);
+            }
 
             mag_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
-- 
2.43.0


From 4aa36380d142211bbb2075e8895942dfe19e7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:29 +0000
Subject: [PATCH 37/46] fix: draw random attitudes instead of always the same
 one

The random numbers were divided as integers, which gave zero every time, so all
the generated attitudes led to the same target.
---
 open_ahrs/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/open_ahrs/src/common.rs b/open_ahrs/src/common.rs
index ae76e4f..df2f748 100644
--- a/open_ahrs/src/common.rs
+++ b/open_ahrs/src/common.rs
@@ -95,9 +95,9 @@ pub fn generate_random_attitudes(number: u8) -> Result<Matrix, LinalgError> {
 
     for n in 0..number {
         // Warning  here.
-        let u1: f32 = (small_rng.next_u64() / u64::MAX) as f32; // Generates a random number between 0 and 1.
-        let u2: f32 = (small_rng.next_u64() / u64::MAX) as f32; // Generates a random number between 0 and 1.
-        let u3: f32 = (small_rng.next_u64() / u64::MAX) as f32; // Generates a random number between 0 and 1.
+        let u1: f32 = small_rng.next_u64() as f32 / u64::MAX as f32; // Generates a random number between 0 and 1.
+        let u2: f32 = small_rng.next_u64() as f32 / u64::MAX as f32; // Generates a random number between 0 and 1.
+        let u3: f32 = small_rng.next_u64() as f32 / u64::MAX as f32; // Generates a random number between 0 and 1.
 
         let s1 = sqrtf(1.0_f32 - u1);
         let s2 = sqrtf(u1);
-- 
2.43.0


From 859cf2871c94d1b2e03aebd31570146e5ead3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:11 +0000
Subject: [PATCH 38/46] fix: let is_lower_triangular check the last row of wide
 matrices

The last row was skipped, so a matrix with more columns than rows was reported as
lower triangular whatever its last row held.
---
 linalg/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index ebedf39..dabd694 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1305,8 +1305,8 @@ impl Matrix {
 
     /// This method is used to check if a matrix of size m x n is lower triangular.
     pub fn is_lower_triangular(self: &Self) -> Result<bool, LinalgError> {
-        // Loops on every row except the last (which doesn't need to have null elements).
-        for row in 0..self.get_rows()? - 1 {
+        // Loops on every row (the last one needs null elements when there are more columns than rows).
+        for row in 0..self.get_rows()? {
             // We loop for the columns corresponding to the upper triangular matrix as a function of the current row.
             for col in row + 1..self.cols {
                 // If the matrix is lower triangular, the element must always be zero, otherwise the matrix cannot be lower triangular.
-- 
2.43.0


From b5f97b25af94fbce5324afec668ea55c9a04d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:35 +0000
Subject: [PATCH 39/46] fix: keep Q orthogonal when the columns are nearly
 dependent

A single Gram-Schmidt pass lost orthogonality on nearly dependent columns. The
shifted eigenvalue iteration builds such matrices on purpose, so its eigenvectors
drifted.
---
 linalg/src/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index dabd694..c12f124 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1197,7 +1197,8 @@ impl Matrix {
 
         // Apply the Gram-Schmidt method to orthogonalise the columns and obtain the Q matrix.
         for col in 0..self.cols {
-            for row in 0..col {
+            // Go through the previous columns twice: when the columns are nearly dependent, a single pass leaves rounding errors comparable to what remains of the column.
+            for row in (0..col).chain(0..col) {
                 let mut dot_product: f32 = 0.0;
 
                 for k in 0..self.rows {
-- 
2.43.0


From c0a3380bfd94bc8830176253ac872f9a94aaa356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:10 +0000
Subject: [PATCH 40/46] fix: let the eigenvalue iteration converge on small
 nearly singular matrices

The QR decomposition takes columns below the absolute tolerance as null, so the
iteration could never reach a relative tolerance lower than that.
---
 linalg/src/linalg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 6096cc7..c248d3b 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -1,7 +1,7 @@
 use crate::matrix::Matrix;
 use crate::vector::Vector;
 use crate::common::{EPSILON, LinalgError};
-use libm::{fabsf, sqrtf};
+use libm::{fabsf, fmaxf, sqrtf};
 
 /// This function is used to perform LU decomposition of a matrix.
 pub fn lup(mat: &Matrix) -> Result<(Matrix, Vector<u8>), LinalgError> {
@@ -194,8 +194,8 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
             }
         }
 
-        // Check for convergence.
-        if sqrtf(residual) <= EPSILON * norm {
+        // Check for convergence (the tolerance is never lower than the one under which the QR decomposition takes a column as null).
+        if sqrtf(residual) <= EPSILON * fmaxf(norm, 1.0) {
             return Ok((eigenvalues, eigenvectors)); // Return eigen values and eigen vectors of the matrix with no error.
         }
     }
-- 
2.43.0


From 9cc6a1a7c272d259df409c4580dac97f9477deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:05 +0000
Subject: [PATCH 41/46] fix: refuse complex operations whose result is not a
 finite number

---
 dsp/src/complex.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dsp/src/complex.rs b/dsp/src/complex.rs
index 772d865..bf60643 100644
--- a/dsp/src/complex.rs
+++ b/dsp/src/complex.rs
@@ -126,24 +126,24 @@ impl Complex {
 
     /// This method is used to perform the addition of two complex number and store the result into another one.
     pub fn add(self: &mut Self, z1: &Self, z2: &Self) -> Result<(), UtilsError> {
-        self.re = z1.re + z2.re;    // Set the real part of the complex number.
-        self.im = z1.im + z2.im;    // Set the imaginary part of the complex number.
+        *self = Self::new(z1.re + z2.re, z1.im + z2.im)?;   // Set both parts of the complex number if they are valid.
 
         Ok(())  // Return no error.
     }
 
     /// This method is used to perform the subtraction of two complex number and store the result into another one.
     pub fn sub(self: &mut Self, z1: &Self, z2: &Self) -> Result<(), UtilsError> {
-        self.re = z1.re - z2.re;
-        self.im = z1.im - z2.im;
+        *self = Self::new(z1.re - z2.re, z1.im - z2.im)?;   // Set both parts of the complex number if they are valid.
 
         Ok(())  // Return no error.
     }
 
     /// This method is used to perform the multiplication of two complex number and store the result into another one.
     pub fn mul(self: &mut Self, z1: &Self, z2: &Self) -> Result<(), UtilsError> {
-        self.re = z1.re * z2.re - z1.im * z2.im;
-        self.im = z1.re * z2.im + z1.im * z2.re;
+        let re = z1.re * z2.re - z1.im * z2.im;
+        let im = z1.re * z2.im + z1.im * z2.re;
+
+        *self = Self::new(re, im)?; // Set both parts of the complex number if they are valid.
 
         Ok(())  // Return no error.
     }
@@ -156,9 +156,12 @@ impl Complex {
         }
 
         let denominator = z2.re * z2.re + z2.im * z2.im;    // Calculate the denominator.
+        is_valid_value(denominator)?;                       // Check that it is valid (it may overflow).
+
+        let re = (z1.re * z2.re + z1.im * z2.im) / denominator;
+        let im = (z1.im * z2.re - z1.re * z2.im) / denominator;
 
-        self.re = (z1.re * z2.re + z1.im * z2.im) / denominator;
-        self.im = (z1.im * z2.re - z1.re * z2.im) / denominator;
+        *self = Self::new(re, im)?; // Set both parts of the complex number if they are valid.
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From fc51cb6a952e4ab07015b1ef2a41e6cb7fd1c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:20 +0000
Subject: [PATCH 42/46] Give checks access to the FFT bit reversal under
 cfg(verif)

---
 dsp/src/fft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsp/src/fft.rs b/dsp/src/fft.rs
index 4a647a2..16847c0 100644
--- a/dsp/src/fft.rs
+++ b/dsp/src/fft.rs
@@ -57,6 +57,12 @@ impl FFT {
         Ok(r)   // Return the reversed bit with no error.
     }
 
+    /// This method gives the checks access to the bit reversal.
+    #[cfg(verif)]
+    pub fn verif_bitrev(n: u8, b: u8) -> Result<u8, FFTError> {
+        Self::bitrev(n, b)
+    }
+
     /// This method is used to ...
     fn dftmerge(self: &Self, x: &mut [Complex]) -> Result<(), FFTError> {
         let mut m: u8 = 2;
-- 
2.43.0


From 7f6c47468fefa12cb812aa85aed5280cd66ce3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:45 +0000
Subject: [PATCH 43/46] Give checks access to the prototype DFT under
 cfg(verif)

---
 temp/dsp/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/temp/dsp/src/main.rs b/temp/dsp/src/main.rs
index a316708..b11314c 100644
--- a/temp/dsp/src/main.rs
+++ b/temp/dsp/src/main.rs
@@ -266,6 +266,12 @@ fn dft_naive(x: [Complex; N_MAX]) -> Result<[Complex; N_MAX], UtilsError> {
     Ok(X)   // Return the result of the DFT with no error.
 }
 
+/// This function gives the checks access to the DFT.
+#[cfg(verif)]
+pub fn verif_dft_naive(x: [Complex; N_MAX]) -> Result<[Complex; N_MAX], UtilsError> {
+    dft_naive(x)
+}
+
 #[allow(non_snake_case)]
 fn main() {
     // Création d'un tableau d'exemple de nombres complexes
-- 
2.43.0


From df05fdd4018d66a6626482b846dce7881e8ca43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:17 +0000
Subject: [PATCH 44/46] fix: ignore a null acceleration instead of turning the
 attitude towards a half turn

---
 open_ahrs/src/aqua.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 207b016..a392d0b 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -424,6 +424,11 @@ impl Aqua {
                 alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
             }
 
+            // A null acceleration has no direction, so it can't correct the attitude.
+            if a_local_norm <= EPSILON {
+                alpha = 0.0;
+            }
+
             let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
@@ -482,6 +487,12 @@ impl Aqua {
 
             attitude.mul(&attitude.duplicate()?, &mag_quat_interpolated)?;
         } else if self.mode == Mode::AM {
+            // Check that the acceleration has a direction.
+            if a_local_norm <= EPSILON {
+                // The attitude can't be determined from a null acceleration.
+                return Err(OpenAHRSError::LinalgError(linalg::common::LinalgError::Unsolvable));    // Return an error.
+            }
+
             // Determine the partial orientation as a quaternion from the accelerometer measurements.
             if az < 0.0 {
                 let l1 = sqrtf((1.0 - az) / 2.0);
-- 
2.43.0


From 210555968aeec50960edd14cf9c68b9b472cbe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:42 +0000
Subject: [PATCH 45/46] fix: return Euler angles of the same rotation at
 vertical pitch

---
 quaternion/src/quaternion.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 77f29f5..4e192fb 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -766,6 +766,13 @@ impl Quaternion for Vector<f32> {
         let theta = asinf(clip(2.0*(qw*qy - qz*qx), -1.0, 1.0));            // Calculate pitch angle.
         let psi = atan2f(2.0*(qw*qz + qx*qy), 1.0 - 2.0*(qy*qy + qz*qz));   // Calculate yaw angle.
 
+        // At vertical pitch, roll and yaw turn about the same axis and both arguments of their arctangents vanish: take the whole turn as yaw.
+        let (phi, psi) = if fabsf(2.0*(qw*qy - qz*qx)) > 0.999999 {
+            (0.0, atan2f(2.0*(qw*qz - qx*qy), 1.0 - 2.0*(qx*qx + qz*qz)))
+        } else {
+            (phi, psi)
+        };
+
         // Check that the angles are valid (very large components overflow).
         is_valid_value(phi).map_err(LinalgError::UtilsError)?;
         is_valid_value(theta).map_err(LinalgError::UtilsError)?;
-- 
2.43.0


From 5bd32e96471c3b25e7bff276447c1d83d9e935f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:37:59 +0000
Subject: [PATCH 46/46] fix: return the logarithm of rotations close to half a
 turn

---
 linalg/src/matrix.rs | 57 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index c12f124..a87484c 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -2,7 +2,7 @@ extern crate utils;
 extern crate libm;
 
 use utils::utils::{is_valid_value, allclose, min, clip, factorial};
-use libm::{powf, sqrtf, fabsf, acosf, sinf};
+use libm::{powf, sqrtf, fabsf, acosf, sinf, atan2f, copysignf};
 
 use crate::common::{M_MAX, N_MAX, EPSILON, LinalgError, is_valid_rows_number, is_valid_cols_number, is_valid_row, is_valid_col};
 use crate::linalg::{lup, solve};
@@ -1773,6 +1773,51 @@ impl Matrix {
         Ok(vect)    // Return the diagonal as a vector with no error.
     }
 
+    /// This method is used to calculate the logarithmic map of a rotation matrix of size 3 x 3 whose angle is close to half a turn. The axis is taken from the sum of the matrix and its transpose.
+    fn log_half_turn(self: &Self) -> Result<Self, LinalgError> {
+        let cos = clip((self.trace()? - 1.0) / 2.0, -1.0, 1.0);
+
+        // Find the largest component of the axis.
+        let mut k = 0;
+
+        for row in 1..3 {
+            if self.get_element(row, row)? > self.get_element(k, k)? {
+                k = row;
+            }
+        }
+
+        // Calculate a vector along the axis: (R + R^T)/2 - cos(theta).I = (1 - cos(theta)).a.a^T.
+        let mut axis: Vector<f32> = Vector::new();
+        axis.init(3)?;
+
+        for row in 0..3 {
+            let element = 0.5 * (self.get_element(row, k)? + self.get_element(k, row)?);
+            axis.set_element(row, if row == k { element - cos } else { element })?;
+        }
+
+        axis.normalize()?;
+
+        // Its sense and the sine of the angle are given by the difference: R - R^T = 2.sin(theta).[a].
+        let x = self.get_element(2, 1)? - self.get_element(1, 2)?;
+        let y = self.get_element(0, 2)? - self.get_element(2, 0)?;
+        let z = self.get_element(1, 0)? - self.get_element(0, 1)?;
+        let sin = 0.5 * (x * axis.get_element(0)? + y * axis.get_element(1)? + z * axis.get_element(2)?);
+        let theta = atan2f(fabsf(sin), cos);
+
+        axis.mul_by_scalar_in_place(copysignf(theta, sin))?;
+
+        let mut result_mat = Self::new();
+        result_mat.init(3, 3)?;
+        result_mat.set_element(2, 1, axis.get_element(0)?)?;
+        result_mat.set_element(1, 2, -axis.get_element(0)?)?;
+        result_mat.set_element(0, 2, axis.get_element(1)?)?;
+        result_mat.set_element(2, 0, -axis.get_element(1)?)?;
+        result_mat.set_element(1, 0, axis.get_element(2)?)?;
+        result_mat.set_element(0, 1, -axis.get_element(2)?)?;
+
+        Ok(result_mat)  // Return the result matrix with no error.
+    }
+
     /// This method is used to calculate the logarithmic map of a rotation matrix or a Direct Cosine Matrix (DCM).
     /*
     It corresponds to the logarithm given by the Rodrigues rotation formula:
@@ -1794,6 +1839,11 @@ impl Matrix {
 
         let theta = acosf(clip((self.trace()? - 1.0) / 2.0, -1.0, 1.0));
 
+        // Close to half a turn, the difference with the transpose vanishes.
+        if theta > 3.0 && self.rows == 3 {
+            return self.log_half_turn();
+        }
+
         // The factor tends to one half when the angle vanishes.
         let factor = if theta > EPSILON { theta / (2.0 * sinf(theta)) } else { 0.5 };
 
@@ -1822,6 +1872,11 @@ impl Matrix {
 
         let theta = acosf(clip((self.trace()? - 1.0) / 2.0, -1.0, 1.0));
 
+        // Close to half a turn, the difference with the transpose vanishes.
+        if theta > 3.0 && self.rows == 3 {
+            return self.copy_from(&self.log_half_turn()?);
+        }
+
         // The factor tends to one half when the angle vanishes.
         let factor = if theta > EPSILON { theta / (2.0 * sinf(theta)) } else { 0.5 };
 
-- 
2.43.0

