From 2ef2a6d07e94c84162dec09b157adb3b0fae8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 1/8] fix: check the opened value in SpdzWise open and
 open_many

---
 iris-mpc/src/spdzwise/protocol.rs | 36 +++++++++++++++++++------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 731c3ed..c802914 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -870,13 +870,13 @@ where
         self.verifyqueue.push(share.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open(&mut self.aby3, share.get_value())
-        .await?;
+        let (a, b) = share.get_value().get_ab();
+        let c = self
+            .jmp_send_receive::<T::VerificationShare>(b.to_owned(), a.to_owned())
+            .await?;
+        self.jmp_verify().await?;
 
+        let result = T::VerificationShare::from_sharetype(a + b + c);
         Ok(T::from_verificationshare(result))
     }
 
@@ -884,16 +884,24 @@ where
         self.verifyqueue.extend(shares.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open_many(&mut self.aby3, shares.get_values())
-        .await?;
+        let (shares_a, shares_b): (Vec<_>, Vec<_>) = shares
+            .get_values()
+            .into_iter()
+            .map(|share| share.get_ab())
+            .unzip();
+
+        let shares_c = self
+            .jmp_send_receive_many::<T::VerificationShare>(&shares_b, &shares_a)
+            .await?;
+        self.jmp_verify().await?;
 
-        let result = result
+        let result = shares_a
             .into_iter()
-            .map(|r| T::from_verificationshare(r))
+            .zip(shares_b)
+            .zip(shares_c)
+            .map(|((a, b), c)| {
+                T::from_verificationshare(T::VerificationShare::from_sharetype(a + b + c))
+            })
             .collect();
 
         Ok(result)
-- 
2.43.0


From 702366c5632ceece19d053c8708a9b5e7a233554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 2/8] fix: open cut-and-choose triples with the cross-checked
 opening

---
 iris-mpc/src/spdzwise/protocol.rs | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index c802914..f221b6b 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -357,7 +357,7 @@ where
         let c_open = c_sacrifice.pop().expect("Enough triples generated");
 
         let opened = self
-            .aby3_open_bin_many::<u128>(vec![a_open, b_open, c_open])
+            .aby3_jmp_open_bin_many::<u128>(vec![a_open, b_open, c_open])
             .await?;
         if opened[0].to_owned() & &opened[1] != opened[2] {
             return Err(Error::VerifyError);
@@ -534,24 +534,6 @@ where
         self.aby3.and_many(a, b).await
     }
 
-    async fn aby3_open_bin_many<T: Sharable>(
-        &mut self,
-        shares: Vec<Aby3Share<T>>,
-    ) -> Result<Vec<T::Share>, Error>
-    where
-        Standard: Distribution<T::Share>,
-        Aby3Share<T>: Mul<T::Share, Output = Aby3Share<T>>,
-    {
-        let shares_b = shares.iter().map(|s| &s.b);
-        let shares_c = utils::send_iter_and_receive_iter(&mut self.aby3.network, shares_b).await?;
-        let res = shares
-            .iter()
-            .zip(shares_c)
-            .map(|(s, c)| c ^ &s.a ^ &s.b)
-            .collect();
-        Ok(res)
-    }
-
     async fn aby3_jmp_open_bin_many<T: Sharable>(
         &mut self,
         shares: Vec<Aby3Share<T>>,
-- 
2.43.0


From fb50dbd993580c931edb1734882414fa66e91f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 3/8] fix: coin the theta challenges of the Swift3 verification

The thetas that batch the products under test were drawn from a generator
whose key all three parties hold since preprocessing, so a cheating prover
knew the challenge before it computed its products.
---
 iris-mpc/src/swift3/protocol.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 3cbf2f1..f891b19 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -640,11 +640,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas, they must not be known before the products are fixed
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_and_dzkp::<ChaCha12Rng>(l, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.and_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -722,11 +723,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas, they must not be known before the products are fixed
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.mul_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -805,11 +807,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas, they must not be known before the products are fixed
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.dot_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
-- 
2.43.0


From cde06dc707bfb18da730b278c55a5f5664bf2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 4/8] fix: return verification failures of a query instead of
 panicking

---
 iris-mpc/src/iris/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index a62b616..07e100e 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -279,7 +279,7 @@ where
 
         let res = self.mpc.reduce_binary_or(bool_shares, chunk_size).await?;
 
-        self.mpc.verify().await.unwrap();
+        self.mpc.verify().await?;
         self.mpc.open_bit(res).await
     }
 }
-- 
2.43.0


From dce6a258d28b338c11a8378ae348baa81f5b50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 5/8] fix: refuse inner products of vectors of different
 lengths

---
 iris-mpc/src/aby3/protocol.rs     | 2 +-
 iris-mpc/src/spdzwise/protocol.rs | 6 +++++-
 iris-mpc/src/swift3/protocol.rs   | 6 ++++++
 iris-mpc/src/traits/mpc_trait.rs  | 4 ++++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index ec7dd9a..a0ac50e 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -471,7 +471,7 @@ where
         b: &[Vec<Share<T>>],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Share<T>>, Error> {
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || b.len() != masks.len() {
             return Err(Error::InvalidSizeError);
         }
 
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index f221b6b..caae914 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1141,7 +1141,7 @@ where
         masks: &[IrisCodeArray],
     ) -> Result<Vec<TShare<T>>, Error> {
         let len = b.len();
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || len != masks.len() {
             return Err(Error::InvalidSizeError);
         }
 
@@ -1149,6 +1149,10 @@ where
         let mut mac_shares_a = Vec::with_capacity(len);
 
         for (b, mask) in b.iter().zip(masks.iter()) {
+            if b.len() != IrisCodeArray::IRIS_CODE_SIZE {
+                return Err(Error::InvalidSizeError);
+            }
+
             let mut rand = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
             let mut rand2 = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
 
diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index f891b19..1f816cd 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2251,6 +2251,12 @@ where
             return Err(Error::InvalidSizeError);
         }
 
+        for (a_, b_) in a.iter().zip(b.iter()) {
+            if a_.len() != b_.len() {
+                return Err(Error::InvalidSizeError);
+            }
+        }
+
         let mut shares_d = Vec::with_capacity(len);
         let mut shares_e = Vec::with_capacity(len);
 
diff --git a/iris-mpc/src/traits/mpc_trait.rs b/iris-mpc/src/traits/mpc_trait.rs
index d5fff1c..f49706e 100644
--- a/iris-mpc/src/traits/mpc_trait.rs
+++ b/iris-mpc/src/traits/mpc_trait.rs
@@ -54,6 +54,10 @@ pub trait MpcTrait<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait> {
         b: &[Ashare::VecShare],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Ashare>, Error> {
+        if b.len() != masks.len() {
+            return Err(Error::InvalidSizeError);
+        }
+
         let mut a_vec = Vec::with_capacity(b.len());
         let mut b_vec = Vec::with_capacity(b.len());
 
-- 
2.43.0


From 18d116545f5a1eff627a74c289b9677a3ad81a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 6/8] fix: decode received vectors completely before iterating
 over them

---
 iris-mpc/src/aby3/utils.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 8adac11..27e3cdf 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -241,35 +241,25 @@ pub(crate) fn ring_iter_from_bytes<T>(bytes: BytesMut, n: usize) -> Result<RingB
 where
     T: RingImpl,
 {
-    if bytes.remaining() != n * ((T::K + 7) / 8) {
-        return Err(Error::ConversionError);
-    }
-
+    // Not every byte sequence of the right length is valid (e.g., for Bit), so decode it right away
     Ok(RingBytesIter {
-        bytes,
-        _marker: std::marker::PhantomData,
+        values: ring_vec_from_bytes(bytes, n)?.into_iter(),
     })
 }
 
 pub(crate) struct RingBytesIter<T> {
-    bytes: BytesMut,
-    _marker: std::marker::PhantomData<T>,
+    values: std::vec::IntoIter<T>,
 }
 
 impl<T: RingImpl> Iterator for RingBytesIter<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.bytes.remaining() == 0 {
-            None
-        } else {
-            Some(T::take_from_bytes_mut(&mut self.bytes).expect("checked while constructing"))
-        }
+        self.values.next()
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.bytes.remaining() / ((T::K + 7) / 8);
-        (len, Some(len))
+        self.values.size_hint()
     }
 }
 
-- 
2.43.0


From f8e7d4fdc1b23af7dc522cbd7a3d73caf6f11d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 7/8] fix: SpdzWise refuses types whose verification ring is
 less than 40 bits larger

---
 iris-mpc/src/spdzwise/protocol.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index caae914..dadb128 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -721,6 +721,11 @@ where
     }
 
     async fn preprocess(&mut self) -> Result<(), Error> {
+        #[allow(type_alias_bounds)]
+        type UShare<T: Sharable> = <T::VerificationShare as Sharable>::Share;
+
+        assert!(UShare::<T>::K - T::Share::K >= 40);
+
         <_ as MpcTrait<
             T::VerificationShare,
             Aby3Share<T::VerificationShare>,
-- 
2.43.0


From e1a28f658511404d357c308df2b969672f190cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:39 +0000
Subject: [PATCH 8/8] fix: report unexpected party ids from peers as errors
 instead of registering them or panicking

---
 mpc-net/src/lib.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/mpc-net/src/lib.rs b/mpc-net/src/lib.rs
index 8f6ead8..f6a66b5 100644
--- a/mpc-net/src/lib.rs
+++ b/mpc-net/src/lib.rs
@@ -127,12 +127,21 @@ impl MpcNetworkHandler {
                     );
                     let mut uni = conn.accept_uni().await?;
                     let other_party_id = uni.read_u32().await?;
-                    assert!(connections
-                        .insert(
-                            usize::try_from(other_party_id).expect("u32 fits into usize"),
-                            conn
-                        )
-                        .is_none());
+                    let other_party_id =
+                        usize::try_from(other_party_id).expect("u32 fits into usize");
+                    // the id comes from the network: only accept parties that should connect to us
+                    if other_party_id <= config.my_id || !certs.contains_key(&other_party_id) {
+                        return Err(eyre::eyre!(
+                            "unexpected connection from party {}",
+                            other_party_id
+                        ));
+                    }
+                    if connections.insert(other_party_id, conn).is_some() {
+                        return Err(eyre::eyre!(
+                            "second connection from party {}",
+                            other_party_id
+                        ));
+                    }
                 } else {
                     return Err(eyre::eyre!(
                         "server endpoint did not accept a connection from party {}",
@@ -201,14 +210,18 @@ impl MpcNetworkHandler {
                 let (mut send_stream, mut recv_stream) = conn.open_bi().await?;
                 send_stream.write_u32(self.my_id as u32).await?;
                 let their_id = recv_stream.read_u32().await?;
-                assert!(their_id == id as u32);
+                if their_id != id as u32 {
+                    return Err(unexpected_party_id(id, their_id));
+                }
                 let conn = Channel::new(recv_stream, send_stream, codec.clone());
                 assert!(channels.insert(id, conn).is_none());
             } else {
                 // we are the server, so we are the sender
                 let (mut send_stream, mut recv_stream) = conn.accept_bi().await?;
                 let their_id = recv_stream.read_u32().await?;
-                assert!(their_id == id as u32);
+                if their_id != id as u32 {
+                    return Err(unexpected_party_id(id, their_id));
+                }
                 send_stream.write_u32(self.my_id as u32).await?;
                 let conn = Channel::new(recv_stream, send_stream, codec.clone());
                 assert!(channels.insert(id, conn).is_none());
@@ -228,3 +241,10 @@ impl MpcNetworkHandler {
         }
     }
 }
+
+fn unexpected_party_id(expected: usize, received: u32) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidData,
+        format!("expected party id {expected}, but peer sent {received}"),
+    )
+}
-- 
2.43.0

