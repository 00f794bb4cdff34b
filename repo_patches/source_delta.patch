From 4e65d0a029a3d2e16f8baeb54cb55de43bb41206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:07 +0000
Subject: [PATCH 1/4] hook: read-only view of sampled GMiMC and Neptune
 parameters (cfg verif_hooks)

---
 src/gmimc/gmimc_params.rs     |  9 +++++++++
 src/neptune/neptune_params.rs | 19 +++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/gmimc/gmimc_params.rs b/src/gmimc/gmimc_params.rs
index 366931e..836658c 100644
--- a/src/gmimc/gmimc_params.rs
+++ b/src/gmimc/gmimc_params.rs
@@ -50,3 +50,12 @@ impl<S: PrimeField> GmimcParams<S> {
         self.rounds
     }
 }
+
+// Read-only view of the sampled parameters for the conformance checks.
+#[cfg(verif_hooks)]
+impl<S: PrimeField> GmimcParams<S> {
+    /// (t, d, rounds, round constants)
+    pub fn verif_view(&self) -> (usize, usize, usize, Vec<S>) {
+        (self.t, self.d, self.rounds, self.round_constants.to_vec())
+    }
+}
diff --git a/src/neptune/neptune_params.rs b/src/neptune/neptune_params.rs
index 56eaf84..71456c1 100644
--- a/src/neptune/neptune_params.rs
+++ b/src/neptune/neptune_params.rs
@@ -164,3 +164,22 @@ impl<S: PrimeField> NeptuneParams<S> {
         mat
     }
 }
+
+// Read-only view of the sampled parameters for the conformance checks.
+#[cfg(verif_hooks)]
+impl<S: PrimeField> NeptuneParams<S> {
+    /// (t, d, full rounds, partial rounds)
+    pub fn verif_shape(&self) -> (usize, usize, usize, usize) {
+        (self.t, self.d, self.rounds - self.rounds_p, self.rounds_p)
+    }
+
+    /// (round constants, external matrix, diagonal of the internal matrix minus one, gamma)
+    pub fn verif_constants(&self) -> (Vec<Vec<S>>, Vec<Vec<S>>, Vec<S>, S) {
+        (
+            self.round_constants.to_vec(),
+            self.m_e.to_vec(),
+            self.mu.to_vec(),
+            self.abc[2],
+        )
+    }
+}
-- 
2.43.0


From 8dafd4fcb89ff0543a946c913117da9aac79114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:36 +0000
Subject: [PATCH 2/4] fix: invert matrices whose leading minors vanish

mat_inverse eliminated without pivoting and panicked on an invertible matrix as
soon as a pivot was zero, e.g. [[0,1],[1,0]]; Poseidon parameter construction
failed with it. Rows below now take over while the pivot is zero.
---
 src/utils.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e8a39a..0b05a16 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -19,36 +19,38 @@ pub fn mat_inverse<F: PrimeField>(mat: &[Vec<F>]) -> Vec<Vec<F>> {
 
     // upper triangle
     for row in 0..n {
-        for j in 0..row {
-            // subtract from these rows
-            let el = m[row][j];
-            for col in 0..n {
-                // do subtraction for each col
-                if col < j {
-                    m[row][col] = F::zero();
-                } else {
-                    let mut tmp = m[j][col];
-                    tmp.mul_assign(&el);
-                    m[row][col].sub_assign(&tmp);
-                }
-                if col > row {
-                    inv[row][col] = F::zero();
-                } else {
+        // rows below take over while the pivot is zero
+        for pivot in row..n {
+            m.swap(row, pivot);
+            inv.swap(row, pivot);
+            for j in 0..row {
+                // subtract from these rows
+                let el = m[row][j];
+                for col in 0..n {
+                    // do subtraction for each col
+                    if col < j {
+                        m[row][col] = F::zero();
+                    } else {
+                        let mut tmp = m[j][col];
+                        tmp.mul_assign(&el);
+                        m[row][col].sub_assign(&tmp);
+                    }
                     let mut tmp = inv[j][col];
                     tmp.mul_assign(&el);
                     inv[row][col].sub_assign(&tmp);
                 }
             }
+            if !m[row][row].is_zero() {
+                break;
+            }
         }
         // make 1 in diag
         let el_inv = m[row][row].inverse().unwrap();
         for col in 0..n {
+            inv[row][col].mul_assign(&el_inv);
             match col.cmp(&row) {
-                std::cmp::Ordering::Less => inv[row][col].mul_assign(&el_inv),
-                std::cmp::Ordering::Equal => {
-                    m[row][col] = F::one();
-                    inv[row][col].mul_assign(&el_inv)
-                }
+                std::cmp::Ordering::Less => {}
+                std::cmp::Ordering::Equal => m[row][col] = F::one(),
                 std::cmp::Ordering::Greater => m[row][col].mul_assign(&el_inv),
             }
         }
-- 
2.43.0


From 6126fd6c320e5de46d11842363758f7d2e25477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:36 +0000
Subject: [PATCH 3/4] fix: Poseidon2 S-box for degree 11

Poseidon2Params::new accepts d = 11, but the permutation panicked on every input
because the S-box had no case for it.
---
 src/poseidon2/poseidon2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/poseidon2/poseidon2.rs b/src/poseidon2/poseidon2.rs
index d8eb478..6c24903 100644
--- a/src/poseidon2/poseidon2.rs
+++ b/src/poseidon2/poseidon2.rs
@@ -79,6 +79,14 @@ impl<F: PrimeField> Poseidon2<F> {
                 out.mul_assign(input);
                 out
             }
+            11 => {
+                let mut out = input2;
+                out.square_in_place();
+                out.square_in_place();
+                out.mul_assign(&input2);
+                out.mul_assign(input);
+                out
+            }
             _ => {
                 panic!()
             }
-- 
2.43.0


From 4016315967de44311cb8dde6f68f11cbb6105b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:36 +0000
Subject: [PATCH 4/4] fix: Neptune partial rounds of the BN256 and Vesta
 instances

The round-number formula stated above the instances gives 69 for t = 4, d = 5
and any field of at least 128 bits, as BLS12 and Pallas use; BN256 and Vesta had 68.
---
 src/neptune/neptune_instances.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neptune/neptune_instances.rs b/src/neptune/neptune_instances.rs
index 97cd35b..41b7594 100644
--- a/src/neptune/neptune_instances.rs
+++ b/src/neptune/neptune_instances.rs
@@ -10,7 +10,7 @@ lazy_static! {
     // Number of partial rounds:
     // ceil(1.125 * ceil(log_d(2) * (min(kappa, log_2(p)) - 6) + 3 + t + log_d(t)))
     // BN256
-    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     // BLS12
     pub static ref NEPTUNE_BLS_4_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_BLS_8_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
@@ -26,5 +26,5 @@ lazy_static! {
     pub static ref NEPTUNE_PALLAS_4_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_PALLAS_8_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
     // Vesta
-    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
 }
\ No newline at end of file
-- 
2.43.0

