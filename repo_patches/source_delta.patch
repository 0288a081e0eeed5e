From 5e1dbf21d0c0fa19766e0f8825679cca9d38d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:09 +0000
Subject: [PATCH 1/4] verif hooks: read access to GMiMC and Neptune constants
 (cfg zkhash_verif)

---
 src/gmimc/gmimc_params.rs     |  9 +++++++++
 src/neptune/neptune_params.rs | 23 +++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/gmimc/gmimc_params.rs b/src/gmimc/gmimc_params.rs
index 366931e..5576d8c 100644
--- a/src/gmimc/gmimc_params.rs
+++ b/src/gmimc/gmimc_params.rs
@@ -50,3 +50,12 @@ impl<S: PrimeField> GmimcParams<S> {
         self.rounds
     }
 }
+
+// Verification hook: read access to the randomly drawn constants.
+#[allow(unexpected_cfgs)]
+#[cfg(zkhash_verif)]
+impl<S: PrimeField> GmimcParams<S> {
+    pub fn verif_round_constants(&self) -> Vec<S> {
+        self.round_constants.to_vec()
+    }
+}
diff --git a/src/neptune/neptune_params.rs b/src/neptune/neptune_params.rs
index 56eaf84..a5fc0e0 100644
--- a/src/neptune/neptune_params.rs
+++ b/src/neptune/neptune_params.rs
@@ -164,3 +164,26 @@ impl<S: PrimeField> NeptuneParams<S> {
         mat
     }
 }
+
+// Verification hook: read access to the randomly drawn constants.
+#[allow(unexpected_cfgs)]
+#[cfg(zkhash_verif)]
+impl<S: PrimeField> NeptuneParams<S> {
+    pub fn verif_round_constants(&self) -> Vec<Vec<S>> {
+        self.round_constants.to_vec()
+    }
+
+    // The external matrix, row by row.
+    pub fn verif_external_matrix(&self) -> Vec<Vec<S>> {
+        self.m_e.to_vec()
+    }
+
+    // The diagonal of the internal matrix minus one.
+    pub fn verif_internal_diag_m_1(&self) -> Vec<S> {
+        self.mu.to_vec()
+    }
+
+    pub fn verif_gamma(&self) -> S {
+        self.abc[2]
+    }
+}
-- 
2.43.0


From 6a895a4dc22823cd62f50b788cc321e1ae2ad225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:09 +0000
Subject: [PATCH 2/4] fix: implement the x^11 S-box that Poseidon2Params::new
 accepts

---
 src/poseidon2/poseidon2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/poseidon2/poseidon2.rs b/src/poseidon2/poseidon2.rs
index d8eb478..6c24903 100644
--- a/src/poseidon2/poseidon2.rs
+++ b/src/poseidon2/poseidon2.rs
@@ -79,6 +79,14 @@ impl<F: PrimeField> Poseidon2<F> {
                 out.mul_assign(input);
                 out
             }
+            11 => {
+                let mut out = input2;
+                out.square_in_place();
+                out.square_in_place();
+                out.mul_assign(&input2);
+                out.mul_assign(input);
+                out
+            }
             _ => {
                 panic!()
             }
-- 
2.43.0


From 66ad7e26d5129ad6c9364274e2bae3c18e044f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:09 +0000
Subject: [PATCH 3/4] fix: give the BN256 and Vesta Neptune instances the
 documented number of partial rounds

ceil(1.125 * ceil(log_5(2) * (128 - 6) + 3 + 4 + log_5(4))) = 69, which the
BLS12 and Pallas instances of the same width and degree already use.
---
 src/neptune/neptune_instances.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neptune/neptune_instances.rs b/src/neptune/neptune_instances.rs
index 97cd35b..41b7594 100644
--- a/src/neptune/neptune_instances.rs
+++ b/src/neptune/neptune_instances.rs
@@ -10,7 +10,7 @@ lazy_static! {
     // Number of partial rounds:
     // ceil(1.125 * ceil(log_d(2) * (min(kappa, log_2(p)) - 6) + 3 + t + log_d(t)))
     // BN256
-    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     // BLS12
     pub static ref NEPTUNE_BLS_4_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_BLS_8_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
@@ -26,5 +26,5 @@ lazy_static! {
     pub static ref NEPTUNE_PALLAS_4_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_PALLAS_8_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
     // Vesta
-    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
 }
\ No newline at end of file
-- 
2.43.0


From a89342b1eac2a8a65009cbaacbaa84fd71641ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:51 +0000
Subject: [PATCH 4/4] fix: pivot in mat_inverse so every invertible matrix is
 inverted

Without row exchanges an invertible matrix with a zero leading minor, such as
[[0, 1], [1, 0]], ended in a panic on the zero pivot.
---
 src/utils.rs | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e8a39a..9c588b6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -19,36 +19,40 @@ pub fn mat_inverse<F: PrimeField>(mat: &[Vec<F>]) -> Vec<Vec<F>> {
 
     // upper triangle
     for row in 0..n {
-        for j in 0..row {
-            // subtract from these rows
-            let el = m[row][j];
-            for col in 0..n {
-                // do subtraction for each col
-                if col < j {
-                    m[row][col] = F::zero();
-                } else {
-                    let mut tmp = m[j][col];
-                    tmp.mul_assign(&el);
-                    m[row][col].sub_assign(&tmp);
-                }
-                if col > row {
-                    inv[row][col] = F::zero();
-                } else {
+        let mut pivot = row;
+        loop {
+            for j in 0..row {
+                // subtract from these rows
+                let el = m[row][j];
+                for col in 0..n {
+                    // do subtraction for each col
+                    if col < j {
+                        m[row][col] = F::zero();
+                    } else {
+                        let mut tmp = m[j][col];
+                        tmp.mul_assign(&el);
+                        m[row][col].sub_assign(&tmp);
+                    }
                     let mut tmp = inv[j][col];
                     tmp.mul_assign(&el);
                     inv[row][col].sub_assign(&tmp);
                 }
             }
+            // try the next row below while the pivot is zero
+            pivot += 1;
+            if !m[row][row].is_zero() || pivot >= n {
+                break;
+            }
+            m.swap(row, pivot);
+            inv.swap(row, pivot);
         }
         // make 1 in diag
         let el_inv = m[row][row].inverse().unwrap();
         for col in 0..n {
+            inv[row][col].mul_assign(&el_inv);
             match col.cmp(&row) {
-                std::cmp::Ordering::Less => inv[row][col].mul_assign(&el_inv),
-                std::cmp::Ordering::Equal => {
-                    m[row][col] = F::one();
-                    inv[row][col].mul_assign(&el_inv)
-                }
+                std::cmp::Ordering::Less => (),
+                std::cmp::Ordering::Equal => m[row][col] = F::one(),
                 std::cmp::Ordering::Greater => m[row][col].mul_assign(&el_inv),
             }
         }
-- 
2.43.0

