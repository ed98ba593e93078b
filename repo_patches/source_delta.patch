From 6bdb1ec44b1cea6d92dd1d353d09ae638597b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 01/11] fix: encrypt_rgsw must use the decomposition base of
 the ciphertext it fills

neg_gsw allocates RGSW(-s) with negs_base_log, but the gadget was scaled with
base_log, so every parameter set with negs_base_log != base_log gave wrong
results in expand and in all ORAM queries.
---
 src/rlwe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 8295b77..c72ff18 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -449,10 +449,11 @@ impl RLWESecretKey {
     ) {
         // first create a constant encryption of 0, then add the decomposed encoded value to it
         self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);
+        let base_log = out.decomposition_base_log().0;
         let mut buf = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());
         for (i, mut m) in out.0.as_mut_glwe_list().ciphertext_iter_mut().enumerate() {
             let level = (i / 2) + 1;
-            let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
+            let shift: usize = (Scalar::BITS as usize) - base_log * level;
             buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());
             mul_const(buf.as_mut_tensor(), 1 << shift);
             if i % 2 == 0 {
-- 
2.43.0


From 5bfc2d536c389182f2a08438669a2129abb16aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/11] fix: hash_to_mapping must refuse an index it cannot
 place

The check h >= h_count() inside `for h in 0..h_count()` was unreachable, so an
index whose rows were all taken was silently dropped from the mapping.
---
 src/naive_hash.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 1fb1441..167f34b 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -73,15 +73,17 @@ impl NaiveHash {
         // TODO this is just a greedy algorithm, can be improved
         let mut out: HashMap<usize, (usize, usize)> = HashMap::new();
         for i in is {
+            let mut placed = false;
             for h in 0..self.h_count() {
                 let (r, c) = self.hash_to_tuple(h, *i, d);
                 if let Entry::Vacant(e) = out.entry(r) {
                     e.insert((c, *i));
+                    placed = true;
                     break;
                 }
-                if h >= self.h_count() {
-                    panic!("all slots are taken for i={}", i);
-                }
+            }
+            if !placed {
+                panic!("all slots are taken for i={}", i);
             }
         }
         out
-- 
2.43.0


From 27ee31c25822624f61147fb421e077a481ec2279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 03/11] fix: compute_noise_ternary must encode the plaintext

It decoded the (unencoded) ternary plaintext, which maps 1 to 0, so the
message itself was reported as noise.
---
 src/rlwe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index c72ff18..cd991d3 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1290,7 +1290,7 @@ where
 {
     let mut tmp = PlaintextList::allocate(Scalar::zero(), ptxt.count());
     tmp.as_mut_tensor().fill_with_copy(ptxt.as_tensor());
-    Codec::poly_ternary_decode(&mut tmp.as_mut_polynomial());
+    Codec::poly_ternary_encode(&mut tmp.as_mut_polynomial());
     compute_noise(sk, ct, &tmp)
 }
 
-- 
2.43.0


From cb495eced87e01038be42f274b976cc464ef2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 04/11] fix: compute_noise must count an error of exactly q/2

abs() of the smallest signed value overflows to a negative number (or panics),
so an error of q/2 was ignored.
---
 src/rlwe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index cd991d3..8968ccb 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1269,10 +1269,10 @@ where
     pt.as_mut_polynomial()
         .update_with_wrapping_sub(&encoded_ptxt.as_polynomial());
 
-    let mut max_e: SignedScalar = 0;
+    let mut max_e: Scalar = 0;
     for x in pt.as_tensor().iter() {
         // convert x to signed
-        let z = (*x as SignedScalar).abs();
+        let z = (*x as SignedScalar).unsigned_abs();
         if z > max_e {
             max_e = z;
         }
-- 
2.43.0


From cf447e06c0d9e8c65e24fb7baa481732498c8eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 05/11] fix: update_body_with_mul must multiply the old body

The body was cleared before it was multiplied, so the result was always zero.
---
 src/rlwe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 8968ccb..5889c42 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -148,7 +148,12 @@ impl RLWECiphertext {
             .as_mut_tensor()
             .fill_with_copy(self.get_body().as_tensor());
         self.get_mut_body().as_mut_tensor().fill_with(Scalar::zero);
-        naive_update_with_mul(&mut self.get_mut_body().as_mut_polynomial(), other);
+
+        naive_update_with_mul_acc(
+            &mut self.get_mut_body().as_mut_polynomial(),
+            &poly_buffer.as_mut_view(),
+            other,
+        );
     }
 
     pub fn update_body_with_mul_with_buf(&mut self, other: &Polynomial<&[Scalar]>) {
-- 
2.43.0


From 4a61b7e5d55257eb533227b5123f67cf02075a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 06/11] fix: count the label bits of a tree with integers

The f64 logarithm loses the top bit of labels above 2^53 and overflows at
usize::MAX, and simulate panicked on trees whose labels are all 0.
---
 src/decision_tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index ee3bd66..c6cbf62 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -375,7 +375,7 @@ impl EncNode {
 
     /// Evaluate the tree.
     pub fn eval(&self, ctx: &Context, buf: &mut FftBuffer) -> Vec<RLWECiphertext> {
-        let max_leaf_bits = ((self.max_leaf() + 1) as f64).log2().ceil() as usize;
+        let max_leaf_bits = (usize::BITS - self.max_leaf().leading_zeros()) as usize;
         let mut out = vec![RLWECiphertext::allocate(ctx.poly_size); max_leaf_bits];
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one();
@@ -632,6 +632,10 @@ fn decrypt_and_recompose(sk: &RLWESecretKey, cts: &Vec<RLWECiphertext>, ctx: &Co
             _ => panic!("expected binary plaintext"),
         }
     }
+    if bv.is_empty() {
+        // all the labels are 0, so there are no bits to recompose
+        return Scalar::zero();
+    }
     bv.load::<Scalar>()
 }
 
-- 
2.43.0


From 8f2479f7c7fcddf158d831d759d7e29cf817150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 07/11] fix: allocate one FFT buffer per pool thread

rayon::max_num_threads() is the limit of the library (65535 on 64 bit), so
every server call allocated gigabytes of buffers that are never used.
---
 src/oram.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index 690a34b..60bc6c0 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -447,7 +447,7 @@ impl Server {
 
     /// Process a single access query.
     pub fn process_one(&mut self, query: ClientQuery) -> (RLWECiphertext, Duration) {
-        let buf = FftBufferPool::new(rayon::max_num_threads(), &self.ctx);
+        let buf = FftBufferPool::new(rayon::current_num_threads(), &self.ctx);
         let start = Instant::now();
         let (y, ls) = process_one_mt(&query, self.data[0].clone(), &self.neg_s, &buf, &self.ctx);
         let dur = start.elapsed();
@@ -457,7 +457,7 @@ impl Server {
 
     /// Process multiple access queries in parallel (but without batching).
     pub fn process_multi(&mut self, queries: Vec<ClientQuery>) -> (Vec<RLWECiphertext>, Duration) {
-        let buf = FftBufferPool::new(rayon::max_num_threads(), &self.ctx);
+        let buf = FftBufferPool::new(rayon::current_num_threads(), &self.ctx);
         let cols = self.cols();
         // first phase we execute the single query procedure and produce the output
         // (over multiple queries)
@@ -545,7 +545,7 @@ impl Server {
         hash: &NaiveHash,
     ) -> (Vec<RLWECiphertext>, Duration) {
         assert_eq!(queries.len(), self.rows());
-        let buf = FftBufferPool::new(rayon::max_num_threads(), &self.ctx);
+        let buf = FftBufferPool::new(rayon::current_num_threads(), &self.ctx);
         // first phase we execute the single query procedure and produce the output
         let start = Instant::now();
         let (ys, ls): (Vec<RLWECiphertext>, Vec<Vec<RGSWCiphertext>>) = queries
-- 
2.43.0


From efc9124034f7b265c39bbf9253dc12057f4a00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 08/11] fix: process_multi must not corrupt items addressed by
 several queries

Summing the selectors and the selected values of all queries only works if
every item is addressed at most once: two reads of one item turned it into
three times its value, and two writes into a mix of both. Apply the queries'
updates one after the other instead (still in parallel over the items).
---
 src/oram.rs | 72 ++++-------------------------------------------------
 1 file changed, 5 insertions(+), 67 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index 60bc6c0..80b223d 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -458,7 +458,6 @@ impl Server {
     /// Process multiple access queries in parallel (but without batching).
     pub fn process_multi(&mut self, queries: Vec<ClientQuery>) -> (Vec<RLWECiphertext>, Duration) {
         let buf = FftBufferPool::new(rayon::current_num_threads(), &self.ctx);
-        let cols = self.cols();
         // first phase we execute the single query procedure and produce the output
         // (over multiple queries)
         let start = Instant::now();
@@ -468,72 +467,11 @@ impl Server {
             .unzip();
         let dur = start.elapsed();
 
-        // sum the output of rw*t in parallel (over multiple queries)
-        let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
-            let tid = rayon::current_thread_index().unwrap();
-            let mut out = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
-            for j in 0..cols {
-                let tmp = rw(
-                    &query.op,
-                    &query.data,
-                    &self.data[0].clone().read().unwrap()[j],
-                    &self.ctx,
-                    &mut buf.pool[tid].clone().lock().unwrap(),
-                );
-                // L * t
-                l[j].external_product_with_buf(
-                    &mut out[j],
-                    &tmp,
-                    &mut buf.pool[tid].clone().lock().unwrap(),
-                );
-            }
-            out
-        });
-
-        let sumed_tmps = tmps.reduce(
-            || vec![RLWECiphertext::allocate(self.ctx.poly_size); cols],
-            |mut xs, ys| {
-                for i in 0..xs.len() {
-                    xs[i].update_with_add(&ys[i]);
-                }
-                xs
-            },
-        );
-
-        let sumed_ls = ls.into_par_iter().reduce(
-            || {
-                vec![
-                    RGSWCiphertext::allocate(
-                        self.ctx.poly_size,
-                        self.ctx.base_log,
-                        self.ctx.level_count
-                    );
-                    cols
-                ]
-            },
-            |mut xs, ys| {
-                for i in 0..xs.len() {
-                    xs[i].update_with_add(&ys[i]);
-                }
-                xs
-            },
-        );
-
-        // finally update the db in parallel (over multiple indices)
-        (0..cols)
-            .collect::<Vec<usize>>()
-            .into_par_iter()
-            .for_each(|j| {
-                let tid = rayon::current_thread_index().unwrap();
-                let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
-                sumed_ls[j].cmux_with_buf(
-                    &mut new_data,
-                    &self.data[0].clone().read().unwrap()[j],
-                    &sumed_tmps[j],
-                    &mut buf.pool[tid].clone().lock().unwrap(),
-                );
-                self.data[0].clone().write().unwrap()[j].fill_with_copy(&new_data);
-            });
+        // finally update the db, in parallel over the indices and one query after the other,
+        // since several queries may address the same item
+        for (query, l) in queries.iter().zip(ls) {
+            update_db_mt(query, self.data[0].clone(), l, &buf, &self.ctx);
+        }
 
         (ys, dur)
     }
-- 
2.43.0


From e255dd222d925a6efe3db8e262b84a6330af6061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 09/11] Add guarded observation points (cfg panacea_verif)

---
 src/lib.rs   |  3 +++
 src/rgsw.rs  |  2 ++
 src/verif.rs | 22 ++++++++++++++++++++++
 3 files changed, 27 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 63ee381..c49d935 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(deprecated)]
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 pub mod macros;
@@ -15,3 +16,5 @@ pub mod params;
 pub mod rgsw;
 pub mod rlwe;
 pub mod utils;
+#[cfg(panacea_verif)]
+pub mod verif;
diff --git a/src/rgsw.rs b/src/rgsw.rs
index 1fe50a9..e579de9 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -67,6 +67,8 @@ impl RGSWCiphertext {
         d: &RLWECiphertext,
         buf: &mut FftBuffer,
     ) {
+        #[cfg(panacea_verif)]
+        crate::verif::point("external_product");
         let glwe_size = GlweSize(2);
         let mut transformed = FourierGgswCiphertext::new(
             vec![
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..95cfef2
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,22 @@
+//! Observation points for runtime verification.
+//!
+//! Only compiled with `--cfg panacea_verif`. A monitor registers a callback,
+//! which is then called whenever execution passes one of the points.
+
+use std::sync::RwLock;
+
+type Callback = Box<dyn Fn(&'static str) + Send + Sync>;
+
+static CALLBACK: RwLock<Option<Callback>> = RwLock::new(None);
+
+/// Register the callback, or remove it.
+pub fn set_callback(cb: Option<Callback>) {
+    *CALLBACK.write().unwrap() = cb;
+}
+
+/// Execution passes the point `name`.
+pub fn point(name: &'static str) {
+    if let Some(cb) = CALLBACK.read().unwrap().as_ref() {
+        cb(name);
+    }
+}
-- 
2.43.0


From bff1a05b37e2fbe624c86c6739aaf96e9828a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 10/11] Add guarded accessors and observation points to the
 ORAM (cfg panacea_verif)

---
 src/oram.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/oram.rs b/src/oram.rs
index 80b223d..1552694 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -33,6 +33,7 @@ impl FftBufferPool {
     }
 }
 
+#[cfg_attr(panacea_verif, derive(Clone))]
 struct EncOP(RGSWCiphertext);
 
 enum OP {
@@ -41,6 +42,7 @@ enum OP {
 }
 
 /// The client's encrypted query.
+#[cfg_attr(panacea_verif, derive(Clone))]
 pub struct ClientQuery {
     a: Vec<RGSWCiphertext>,
     op: EncOP,
@@ -55,6 +57,14 @@ impl ClientQuery {
     }
 }
 
+#[cfg(panacea_verif)]
+impl ClientQuery {
+    /// The components of the query: encrypted index bits, encrypted operation and encrypted data.
+    pub fn verif_parts(&self) -> (&[RGSWCiphertext], &RGSWCiphertext, &RLWECiphertext) {
+        (&self.a, &self.op.0, &self.data)
+    }
+}
+
 /// ORAM client state.
 pub struct Client {
     pub sk: RLWESecretKey,
@@ -249,6 +259,8 @@ fn process_one_mt(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let f = |level: usize| {
+        #[cfg(panacea_verif)]
+        crate::verif::point("process_one_mt:level");
         let tid = rayon::current_thread_index().unwrap();
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
@@ -268,6 +280,8 @@ fn process_one_mt(
     assert_eq!(decomposed_l.len(), cols);
 
     let g = |j: usize| {
+        #[cfg(panacea_verif)]
+        crate::verif::point("process_one_mt:column");
         let tid = rayon::current_thread_index().unwrap();
         let l = decomposed_rlwe_to_rgsw(
             &decomposed_l[j],
@@ -327,6 +341,8 @@ fn update_db_mt(
             &tmp,
             &mut buf.pool[tid].clone().lock().unwrap(),
         );
+        #[cfg(panacea_verif)]
+        crate::verif::point("update_db_mt:before_write");
         data.clone().write().unwrap()[j].fill_with_copy(&new_data);
     };
 
@@ -410,6 +426,8 @@ fn update_db_st(
             &tmp,
             &mut buf.pool[tid].clone().lock().unwrap(),
         ); // 0 -> self.data, 1 -> tmp
+        #[cfg(panacea_verif)]
+        crate::verif::point("update_db_st:before_write");
         data.clone().write().unwrap()[j].fill_with_copy(&new_data);
     }
 }
@@ -512,6 +530,8 @@ impl Server {
                 .collect();
             let new_data =
                 correct_consistency(&positions, &self.data, &ls, &rw_flags, &self.ctx, &buf);
+            #[cfg(panacea_verif)]
+            crate::verif::point("correct_consistency:before_write");
             for (r, c) in positions {
                 self.data[r].clone().write().unwrap()[c] = new_data.clone();
             }
@@ -541,6 +561,17 @@ impl Server {
     }
 }
 
+#[cfg(panacea_verif)]
+impl Server {
+    /// A copy of the stored ciphertexts.
+    pub fn verif_data(&self) -> Vec<Vec<RLWECiphertext>> {
+        self.data
+            .iter()
+            .map(|row| row.read().unwrap().clone())
+            .collect()
+    }
+}
+
 /// Setup the ORAM client and server for experimentation.
 pub fn setup_random_oram(
     rows: usize,
-- 
2.43.0


From a8fb61bc2625c5268f5f57a0133914472d5377af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 11/11] fix: run parallel steps of one element on a thread
 outside of the pool

---
 src/oram.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index 1552694..d71df9d 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -250,6 +250,12 @@ fn rw(
     c0
 }
 
+// The index of the FFT buffer for the current thread. Rayon runs a parallel iterator
+// of a single element on the calling thread, which need not be a worker.
+fn buffer_index() -> usize {
+    rayon::current_thread_index().unwrap_or(0)
+}
+
 // process one query
 fn process_one_mt(
     query: &ClientQuery,
@@ -261,7 +267,7 @@ fn process_one_mt(
     let f = |level: usize| {
         #[cfg(panacea_verif)]
         crate::verif::point("process_one_mt:level");
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = buffer_index();
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one() << shift;
@@ -282,7 +288,7 @@ fn process_one_mt(
     let g = |j: usize| {
         #[cfg(panacea_verif)]
         crate::verif::point("process_one_mt:column");
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = buffer_index();
         let l = decomposed_rlwe_to_rgsw(
             &decomposed_l[j],
             neg_s,
@@ -324,7 +330,7 @@ fn update_db_mt(
     ctx: &Context,
 ) {
     let g = |j: usize, l: &RGSWCiphertext| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = buffer_index();
         let tmp: RLWECiphertext = rw(
             &query.op,
             &query.data,
@@ -364,7 +370,7 @@ fn process_one_st(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let mut demux_res: Vec<Vec<RLWECiphertext>> = vec![];
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = buffer_index();
     for level in 1..=ctx.level_count.0 {
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
@@ -407,7 +413,7 @@ fn update_db_st(
     buf: &FftBufferPool,
     ctx: &Context,
 ) {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = buffer_index();
     let cols = data.read().unwrap().len();
     for j in 0..cols {
         // update the database at index j
@@ -600,7 +606,7 @@ fn correct_consistency(
     ctx: &Context,
     buf: &FftBufferPool,
 ) -> RLWECiphertext {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = buffer_index();
     let first_r = positions[0].0;
     let first_c = positions[0].1;
     let v1s: Vec<RLWECiphertext> = positions
-- 
2.43.0

