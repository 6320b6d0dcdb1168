From 0e82adb64414b90c02bc73b2efee863b7a43a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 1/5] fix: row_vector panicked for matrices with more than one
 row

The returned 1 x N_COLS matrix was declared with N_ELEMENTS elements, so
Matrix::new rejected the row for every matrix with more than one row.
---
 poseidon-parameters/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 45a0517..6584988 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -146,7 +146,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
     Matrix<N_ROWS, N_COLS, N_ELEMENTS>
 {
     /// Get row vector at a specified row index
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_COLS> {
         let mut row_elements = [Fq::default(); N_COLS];
         for j in 0..N_COLS {
             row_elements[j] = self.get_element(i, j);
@@ -322,7 +322,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> Mul<Fq> for SquareMatrix<N_RO
 
 impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
     /// Get row vector at a specified row index.
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ROWS> {
         self.0.row_vector(i)
     }
 
-- 
2.43.0


From f54948797bf1eed3d82d08dd84ca0f12feaadf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 2/5] fix: inverting the 1x1 zero matrix panicked instead of
 returning NoMatrixInverse

---
 poseidon-parameters/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 6584988..9388214 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -214,7 +214,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
             let elements = [self
                 .get_element(0, 0)
                 .inverse()
-                .expect("inverse of single element must exist for 1x1 matrix")];
+                .ok_or(PoseidonParameterError::NoMatrixInverse)?];
             return Ok(Self::new(&elements));
         }
 
-- 
2.43.0


From a3df8408e4be1cd36e38807224f017584edb49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 3/5] fix: the minor of a 1x1 matrix is 1, not its element

---
 poseidon-parameters/src/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 9388214..6d4fab6 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -252,7 +252,8 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
     fn minors(&self) -> Self {
         match N_ROWS {
             0 => panic!("matrix has no elements!"),
-            1 => Self::new(&[self.get_element(0, 0)]),
+            // Removing the only row and column leaves the empty matrix, whose determinant is 1
+            1 => Self::new(&[Fq::from(1u64)]),
             2 => {
                 let a = self.get_element(0, 0);
                 let b = self.get_element(0, 1);
-- 
2.43.0


From 0c25ccfe9c3846f8007eba318f443cba9af74c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 4/5] fix: the native inverse S-box panicked on a zero state
 word

x^-1 is the total S-box with 0 mapped to 0; dividing by a zero word panicked
instead of continuing the permutation.
---
 poseidon-permutation/src/permutation.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/permutation.rs b/poseidon-permutation/src/permutation.rs
index a3c1c70..20356a4 100644
--- a/poseidon-permutation/src/permutation.rs
+++ b/poseidon-permutation/src/permutation.rs
@@ -219,7 +219,10 @@ impl<
     fn partial_sub_words(&mut self) {
         match self.parameters.alpha {
             Alpha::Exponent(exp) => self.state_words[0] = (self.state_words[0]).power([exp as u64]),
-            Alpha::Inverse => self.state_words[0] = Fq::from(1u64) / self.state_words[0],
+            // The S-box is total: it maps 0 to 0
+            Alpha::Inverse => {
+                self.state_words[0] = self.state_words[0].inverse().unwrap_or(Fq::from(0u64))
+            }
         }
     }
 
@@ -233,7 +236,7 @@ impl<
             }
             Alpha::Inverse => {
                 for i in 0..STATE_SIZE {
-                    self.state_words[i] = Fq::from(1u64) / self.state_words[i];
+                    self.state_words[i] = self.state_words[i].inverse().unwrap_or(Fq::from(0u64));
                 }
             }
         }
-- 
2.43.0


From 19ba44c2eb94e246f89348e6c1c831ff4cd1c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 5/5] fix: hashing only constants in a circuit panicked

---
 poseidon-permutation/src/r1cs.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/r1cs.rs b/poseidon-permutation/src/r1cs.rs
index 71b3a59..bf6d75c 100644
--- a/poseidon-permutation/src/r1cs.rs
+++ b/poseidon-permutation/src/r1cs.rs
@@ -173,8 +173,12 @@ impl<
                             * y
                     })
                     .collect();
-                let result = temp_vec.iter().sum();
-                result
+                // `sum` needs a constraint system, which a row of constants does not have
+                if temp_vec.iter().all(|x| x.is_constant()) {
+                    temp_vec.iter().fold(FpVar::zero(), |acc, x| acc + x)
+                } else {
+                    temp_vec.iter().sum()
+                }
             })
             .collect();
     }
-- 
2.43.0

