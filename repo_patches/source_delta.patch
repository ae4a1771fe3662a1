From 7d048e436c0565ed5383f96a61ec3560292c1bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 01/30] fix: VSS accepts deals whose commitments are not the
 ones of the session

verify_deal() evaluated whatever commitments the deal carried: a justification
could bring its own polynomial, and an empty list made the evaluation panic.
---
 src/share/vss/pedersen/vss.rs | 6 ++++++
 src/share/vss/rabin/vss.rs    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 5b6b0c9..c84b081 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -896,6 +896,12 @@ where
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // the share must be checked against the commitments of this session: as
+        // many as the threshold, and the same ones for every deal
+        if d.commitments.len() != d.t || self.commits != d.commitments {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+
         let fi = &d.sec_share;
         if fi.i >= self.verifiers.len() {
             return Err(VSSError::DealIndexOutOfBounds);
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 634ffe1..59ff500 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -878,6 +878,12 @@ where
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // the share must be checked against the commitments of this session: as
+        // many as the threshold, and the same ones for every deal
+        if d.commitments.len() != d.t || self.commits != d.commitments {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+
         let fi = &d.sec_share;
         let gi = &d.rnd_share;
         if fi.i != gi.i {
-- 
2.43.0


From f659ddf9e47f8b7ce746c7ac302b03c43734832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 02/30] fix: VSS panics on an encrypted deal whose nonce has
 the wrong length

---
 src/share/vss/pedersen/vss.rs | 7 +++++--
 src/share/vss/rabin/vss.rs    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index c84b081..f61e79a 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -12,7 +12,7 @@ use digest::Digest;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    dh::{AEAD, NONCE_SIZE},
+    dh::{DhError, AEAD, NONCE_SIZE},
     encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError},
     group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical},
     share::{
@@ -652,7 +652,10 @@ where
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            e.nonce
+                .as_slice()
+                .try_into()
+                .map_err(|_| DhError::DecryptionFailed("wrong nonce length".to_owned()))?,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 59ff500..8db5382 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -31,7 +31,7 @@ use std::io::Write;
 
 use core::fmt::{Debug, Display, Formatter};
 
-use crate::dh::{AEAD, NONCE_SIZE};
+use crate::dh::{DhError, AEAD, NONCE_SIZE};
 use crate::encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError};
 use crate::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
 use crate::share::poly::{self, new_pri_poly, PriShare, PubPoly};
@@ -696,7 +696,10 @@ where
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            e.nonce
+                .as_slice()
+                .try_into()
+                .map_err(|_| DhError::DecryptionFailed("wrong nonce length".to_owned()))?,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
-- 
2.43.0


From 322eb60bb06b2aed0adb76983335ac92518c066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 03/30] fix: Pedersen VSS lets the dealer override the
 threshold set by set_threshold()

---
 src/share/vss/pedersen/vss.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index f61e79a..0c233d1 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -884,7 +884,10 @@ where
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
-            self.t = d.t;
+            // a threshold set in advance must not be overridden by the dealer
+            if self.t == 0 {
+                self.t = d.t;
+            }
         }
 
         if !valid_t(d.t, &self.verifiers) {
-- 
2.43.0


From 8b7aecf5cdcaa76f0e0d64833a6ffd8f0260160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 04/30] fix: Pedersen VSS never records a justified complaint
 as an approval

The approval was set on a clone of the response and dropped.
---
 src/share/vss/pedersen/vss.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 0c233d1..b78fb42 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -975,7 +975,11 @@ where
         }
 
         match self.verify_deal(&j.deal, false) {
-            Ok(_) => r.status = STATUS_APPROVAL,
+            Ok(_) => {
+                // the complaint is justified: it becomes an approval
+                r.status = STATUS_APPROVAL;
+                self.responses.insert(j.index, r);
+            }
             Err(err) => {
                 // if one justification is bad, then flag the dealer as malicious
                 self.bad_dealer = true;
-- 
2.43.0


From 38e769d49ed1383693364e52227f06ef253c6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 05/30] fix: a verifier keeps its invalid deal after its
 complaint is justified

Once certified, deal() returned the share which did not verify.
---
 src/share/vss/pedersen/vss.rs | 10 +++++++++-
 src/share/vss/rabin/vss.rs    | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index b78fb42..bb5e8d1 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -695,7 +695,15 @@ where
     /// [`v.deal_certified()`].
     pub fn process_justification(&mut self, dr: &Justification<SUITE>) -> Result<(), VSSError> {
         match &mut self.aggregator {
-            Some(a) => a.verify_justification(dr),
+            Some(a) => {
+                a.verify_justification(dr)?;
+                if dr.index as usize == self.index {
+                    // our own complaint has been justified: the justified deal
+                    // replaces the one which did not verify
+                    a.deal = Some(dr.deal.clone());
+                }
+                Ok(())
+            }
             None => Err(VSSError::MissingAggregator),
         }
     }
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 8db5382..126679b 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -735,7 +735,15 @@ where
     /// [`v.enough_approvals()`] and if `true`, [`v.deal_certified()`].
     pub fn process_justification(&mut self, dr: &Justification<SUITE>) -> Result<(), VSSError> {
         match &mut self.aggregator {
-            Some(a) => a.verify_justification(dr),
+            Some(a) => {
+                a.verify_justification(dr)?;
+                if dr.index as usize == self.index {
+                    // our own complaint has been justified: the justified deal
+                    // replaces the one which did not verify
+                    a.deal = Some(dr.deal.clone());
+                }
+                Ok(())
+            }
             None => Err(VSSError::MissingAggregator),
         }
     }
-- 
2.43.0


From 5f8acba00525419babf44f14192de2e7d3ad5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 06/30] fix: VSS justifications can reveal a share of another
 verifier

A dealer could justify any complaint with the share of an accomplice, and a
verifier without a deal took the revealed share for its own.
---
 src/share/vss/error.rs        |  2 ++
 src/share/vss/pedersen/vss.rs | 11 +++++++++++
 src/share/vss/rabin/vss.rs    | 11 +++++++++++
 3 files changed, 24 insertions(+)

diff --git a/src/share/vss/error.rs b/src/share/vss/error.rs
index 8344ee4..b09c157 100644
--- a/src/share/vss/error.rs
+++ b/src/share/vss/error.rs
@@ -56,6 +56,8 @@ pub enum VSSError {
     JustificationNoComplaints,
     #[error("justification received for an approval")]
     JustificationForApproval,
+    #[error("justification received before any deal")]
+    JustificationWithoutDeal,
     #[error("all deals need to have same session id")]
     DealsSameID,
 }
diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index bb5e8d1..685ed32 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -982,6 +982,17 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
+        // without a deal of our own, the revealed one must not be taken for ours
+        if self.deal.is_none() {
+            return Err(VSSError::JustificationWithoutDeal);
+        }
+
+        // the revealed share must be the one of the complaining verifier
+        if j.deal.sec_share.i != j.index as usize {
+            self.bad_dealer = true;
+            return Err(VSSError::DealWrongIndex);
+        }
+
         match self.verify_deal(&j.deal, false) {
             Ok(_) => {
                 // the complaint is justified: it becomes an approval
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 126679b..1de385d 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -967,6 +967,17 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
+        // without a deal of our own, the revealed one must not be taken for ours
+        if self.deal.is_none() {
+            return Err(VSSError::JustificationWithoutDeal);
+        }
+
+        // the revealed share must be the one of the complaining verifier
+        if j.deal.sec_share.i != j.index as usize {
+            self.bad_dealer = true;
+            return Err(VSSError::DealWrongIndex);
+        }
+
         let verification = self.verify_deal(&j.deal, false);
         if verification.is_err() {
             self.bad_dealer = true;
-- 
2.43.0


From 73c50611634a286b6e43f83aede9968cbec1fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 07/30] fix: Pedersen DKG swallows the errors of the verifiers'
 initialisation

A duplicate public key gave a generator without verifiers, which panicked on the
first deal.
---
 src/share/dkg/pedersen/dkg.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 6ebd732..34616f3 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -388,7 +388,7 @@ where
         can_receive = true;
         old_threshold = c.public_coeffs.clone().unwrap().len();
     }
-    let dkg = DistKeyGenerator::<SUITE, READ> {
+    let mut dkg = DistKeyGenerator::<SUITE, READ> {
         dealer,
         old_aggregators: HashMap::new(),
         suite: c.suite,
@@ -410,11 +410,7 @@ where
         timeout: false,
     };
     if new_present {
-        let mut dkg_try = dkg.clone();
-        let res_init = dkg_try.init_verifiers(c);
-        if res_init.is_ok() {
-            return Ok(dkg_try);
-        }
+        dkg.init_verifiers(c)?;
     }
     Ok(dkg)
 }
@@ -532,7 +528,10 @@ where
 
         let resp;
         {
-            let ver = self.verifiers.get_mut(&dd.index).unwrap();
+            let ver = self
+                .verifiers
+                .get_mut(&dd.index)
+                .ok_or(DKGError::MissingVerifier)?;
             resp = ver.process_encrypted_deal(&dd.deal)?;
         }
 
-- 
2.43.0


From 3edd7de2ead09e82b87465ae72d3178182ceda32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 08/30] fix: Pedersen DKG with the default threshold is
 certified without any deal

When the configuration leaves the threshold to 0, the default one must be used
everywhere.
---
 src/share/dkg/pedersen/dkg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 34616f3..a7ee3b8 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -721,7 +721,7 @@ where
             return self.qual().len() >= self.c.old_threshold;
         }
         // in dkg case, the threshold is symmetric -> # verifiers = # dealers
-        self.qual().len() >= self.c.threshold
+        self.qual().len() >= self.new_t
     }
 
     /// [`certified()`] returns `true` if *all* deals are certified. This method should
@@ -1054,7 +1054,7 @@ where
             let mut ver = vss::new_verifier(c.suite, &c.longterm, pubb, &verifier_list)?;
             // set that the number of approval for this deal must be at the given
             // threshold regarding the new nodes. (see config.
-            ver.set_threshold(c.threshold);
+            ver.set_threshold(self.new_t);
             verifiers.insert(i as u32, ver);
         }
         self.verifiers = verifiers;
-- 
2.43.0


From cc4fa904d8850dd458d915a199cd59447e03e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 09/30] fix: resharing keeps its own approval of a deal which
 it rejects

The complaint was refused by VSS since the approval was already recorded, and the
deal with a wrong secret could be certified.
---
 src/share/dkg/pedersen/dkg.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index a7ee3b8..1451797 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -553,15 +553,16 @@ where
                         .unwrap()
                         .unsafe_set_response_dkg(idx as u32, vss::STATUS_COMPLAINT);
                 }
+                resp.status = vss::STATUS_COMPLAINT;
+                let msg = resp.hash(&self.suite)?;
+                resp.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
                 // indicate to VSS that this dkg's new status is complaint for this
-                // deal
+                // deal, in place of the approval VSS has recorded
                 self.verifiers
                     .get_mut(&dd.index)
                     .unwrap()
-                    .unsafe_set_response_dkg(self.nidx as u32, vss::STATUS_COMPLAINT);
-                resp.status = vss::STATUS_COMPLAINT;
-                let msg = resp.hash(&self.suite)?;
-                resp.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
+                    .responses
+                    .insert(resp.index, resp.clone());
                 Ok(Response {
                     index: dd.index,
                     response: resp,
-- 
2.43.0


From 70a648256f81d6d9210ef5b6cd2e178acb22b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 10/30] fix: resharing panics on a deal without commitments

---
 src/share/dkg/pedersen/dkg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 1451797..debadcc 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -571,7 +571,8 @@ where
             // Check that the received committed share is equal to the one we
             // generate from the known public polynomial
             let expected_pub_share = self.dpub.eval(dd.index as usize);
-            if !expected_pub_share.v.eq(&deal_commits.unwrap()[0]) {
+            let committed = deal_commits.as_ref().and_then(|commits| commits.first());
+            if committed != Some(&expected_pub_share.v) {
                 return reject();
             }
         }
-- 
2.43.0


From 13cf47bb0c72907039472c24fddaf6d254a169dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 11/30] fix: resharing accepts a justification which does not
 share the old secret

---
 src/share/dkg/pedersen/dkg.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index debadcc..1ffed34 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -692,6 +692,14 @@ where
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
         };
+        if self.is_resharing && self.can_receive {
+            // a justification can not make a deal whose secret is not the share
+            // of the distributed secret acceptable
+            let expected_pub_share = self.dpub.eval(j.index as usize);
+            if j.justification.deal.commitments.first() != Some(&expected_pub_share.v) {
+                return Err(DKGError::ShareDoesNotMatchPublicPoly);
+            }
+        }
         Ok(v.process_justification(&j.justification)?)
     }
 
-- 
2.43.0


From 062345bb061f221d35c256d954e73df49999bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 12/30] fix: renew() panics or truncates when the polynomials
 differ in degree

---
 src/share/dkg/pedersen/dkg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 1ffed34..b2bc804 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -1092,6 +1092,10 @@ impl<SUITE: Suite> DistKeyShare<SUITE> {
             return Err(DKGError::DifferentParty);
         }
 
+        if self.commits.len() != g.commits.len() {
+            return Err(DKGError::WrongRenewal);
+        }
+
         let new_share = self.share.v.clone() + g.share.v;
         let mut new_commits = Vec::with_capacity(self.commits.len());
         for i in 0..self.commits.len() {
-- 
2.43.0


From e2312e0e13d0e48d1415b366f46a8b39c389fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 13/30] fix: ECIES decryption panics on a ciphertext shorter
 than a point

---
 src/encrypt/ecies/ecies_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encrypt/ecies/ecies_impl.rs b/src/encrypt/ecies/ecies_impl.rs
index 1f89851..433aab7 100644
--- a/src/encrypt/ecies/ecies_impl.rs
+++ b/src/encrypt/ecies/ecies_impl.rs
@@ -63,6 +63,9 @@ pub fn decrypt<GROUP: Group>(
     // Reconstruct the ephemeral elliptic curve point
     let mut r_p = group.point();
     let l = group.point_len();
+    if ctx.len() < l {
+        return Err(EciesError::CiphertextTooShort);
+    }
     r_p.unmarshal_binary(&ctx[..l])?;
 
     // Compute shared DH key and derive the symmetric key and nonce via HKDF
@@ -96,4 +99,6 @@ pub enum EciesError {
     DhError(#[from] DhError),
     #[error("hkdf-derived key too short")]
     KeyTooShort,
+    #[error("ciphertext too short")]
+    CiphertextTooShort,
 }
-- 
2.43.0


From 7956c171c0293a6bf868c0cb38c0ae5358760a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 14/30] fix: recover_pub_poly() panics unless the shares are
 the first ones

The rank of a share was used in place of its index.
---
 src/share/poly.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index be34e4e..b5f6a96 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -617,11 +617,11 @@ pub fn recover_pub_poly<GROUP: Group>(
 
     let mut acc_poly = PubPoly::new(&g, None, &[]);
 
-    for (j, _) in x.iter().enumerate() {
-        let basis = lagrange_basis(&g, j, x.clone());
+    for j in x.keys() {
+        let basis = lagrange_basis(&g, *j, x.clone());
 
         // compute the L_j * y_j polynomial in point space
-        let tmp = basis.commit(Some(&y[&j]));
+        let tmp = basis.commit(Some(&y[j]));
         if acc_poly.commits.is_empty() {
             acc_poly = tmp;
             continue;
-- 
2.43.0


From 3d99722e5732c7bcbda202c252957af44bc1d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 15/30] fix: PubPoly::equal() ignores or panics on a different
 number of commitments

---
 src/share/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index b5f6a96..75a4bd0 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -512,6 +512,9 @@ impl<GROUP: Group> PubPoly<GROUP> {
         if self.g.to_string() != q.g.to_string() {
             return Ok(false);
         }
+        if self.commits.len() != q.commits.len() {
+            return Ok(false);
+        }
         let mut b = true;
         for i in 0..self.threshold() {
             let pb = self.commits[i].marshal_binary()?;
-- 
2.43.0


From e59cc0b175db3e3104e772681b40c7ef1c4095fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 16/30] fix: a failing random stream gives all-zero scalars

bits() ignored the error: every secret drawn from the stream was 0.
---
 src/util/random/random_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/random/random_stream.rs b/src/util/random/random_stream.rs
index 5b0070a..b00dbfa 100644
--- a/src/util/random/random_stream.rs
+++ b/src/util/random/random_stream.rs
@@ -17,7 +17,8 @@ use crate::{
 pub fn bits(bit_len: u64, exact: bool, rand: &mut impl Stream) -> Vec<u8> {
     let mut b: Vec<u8> = vec![0; ((bit_len + 7) / 8) as usize];
     let b_clone = b.clone();
-    _ = rand.xor_key_stream(&mut b, &b_clone);
+    rand.xor_key_stream(&mut b, &b_clone)
+        .expect("bits: random stream failure");
     let highbits = bit_len & 7;
     if highbits != 0 {
         b[0] &= !(0xff << highbits);
-- 
2.43.0


From a19ddd63ca20cf40b182bc34b7877df0e962ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 17/30] fix: XOF flush() panics and reseed() ignores a failed
 read

---
 src/xof/blake3/xof.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index 453722e..a2f9e56 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -59,14 +59,8 @@ impl std::io::Write for Xof {
     }
 
     fn flush(&mut self) -> Result<(), std::io::Error> {
-        match &mut self.implementation {
-            HashState::Readable { reader: _ } => {
-                todo!()
-                // Err(std::io::Error::new(std::io::ErrorKind::, "asdf"))
-            }
-            HashState::Writeable { writer: _ } => todo!(),
-        }
-        // self.implementation.flush()
+        // nothing is buffered
+        Ok(())
     }
 }
 impl std::io::Read for Xof {
@@ -98,7 +92,7 @@ impl traits::XOF for Xof {
             self.key = self.key[0..128].to_vec();
         }
         let mut k = self.key.clone();
-        _ = self.read(&mut k);
+        self.read_exact(&mut k).expect("reseed read error");
         self.key = k;
 
         // use new() to create a new one seeded with output from the old one.
-- 
2.43.0


From 795058865bb181e4aa5e0eb4c6ab9449936ca31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 18/30] fix: the canonicity checks overflow when overflow
 checks are enabled

Their subtractions are meant to wrap: with a profile which checks overflows,
verifying a signature panicked.
---
 src/group/edwards25519/point.rs  | 4 ++--
 src/group/edwards25519/scalar.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 679424c..db7f88d 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -303,7 +303,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
         // Constant time verification if one or more of the c's are zero
         let mut k = 0;
         (0..5).for_each(|i| {
-            k |= (c[i] as u16) - 1;
+            k |= (c[i] as u16).wrapping_sub(1);
         });
 
         (k >> 8) & 1 > 0
@@ -330,7 +330,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
         }
 
         // subtraction might underflow
-        c = (((c as u16) - 1) >> 8) as u8;
+        c = ((c as u16).wrapping_sub(1) >> 8) as u8;
         let d = ((0xEDu16.wrapping_sub(1u16.wrapping_sub(b[0] as u16))) >> 8) as u8;
 
         1 - (c & d & 1) == 1
diff --git a/src/group/edwards25519/scalar.rs b/src/group/edwards25519/scalar.rs
index 6888733..a3d347e 100644
--- a/src/group/edwards25519/scalar.rs
+++ b/src/group/edwards25519/scalar.rs
@@ -67,8 +67,8 @@ impl ScalarCanCheckCanonical for Scalar {
         for i in (0..=31).rev() {
             // subtraction might lead to an underflow which needs
             // to be accounted for in the right shift
-            c |= (((sb[i] as u16) - (l[i] as u16)) >> 8) as u8 & n;
-            n &= ((((sb[i] as u16) ^ (l[i] as u16)) - 1) >> 8) as u8;
+            c |= ((sb[i] as u16).wrapping_sub(l[i] as u16) >> 8) as u8 & n;
+            n &= (((sb[i] as u16) ^ (l[i] as u16)).wrapping_sub(1) >> 8) as u8;
         }
 
         c != 0
-- 
2.43.0


From c49641101785cdccc46327d0bc36499a8a019d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 19/30] fix: Point::is_canonical() rejects canonical encodings
 close to the prime

0xED - (1 - b[0]) was computed in place of 0xED - 1 - b[0].
---
 src/group/edwards25519/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index db7f88d..f308e87 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -331,7 +331,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
 
         // subtraction might underflow
         c = ((c as u16).wrapping_sub(1) >> 8) as u8;
-        let d = ((0xEDu16.wrapping_sub(1u16.wrapping_sub(b[0] as u16))) >> 8) as u8;
+        let d = ((0xEDu16 - 1).wrapping_sub(b[0] as u16) >> 8) as u8;
 
         1 - (c & d & 1) == 1
     }
-- 
2.43.0


From 0de8c883bcd49ea84162517292c0ad3a1017931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 20/30] fix: negative multiples of the modulus and negative
 BigInts are not reduced

---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index c033c7f..f189870 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -96,7 +96,7 @@ impl Int {
         self.v = BigInt::from(v);
         // specify euclidean modulus for negative number
         match self.v.sign() {
-            num_bigint::Sign::Minus => self.v = (self.v % m.clone()) + m.abs(),
+            num_bigint::Sign::Minus => self.v = ((self.v % m.clone()) + m.abs()) % m,
             _ => self.v %= m,
         }
         self
@@ -106,7 +106,7 @@ impl Int {
     fn init(mut self, v: BigInt, m: BigInt) -> Self {
         self.m = m.clone();
         self.bo = BigEndian;
-        self.v = v % m;
+        self.v = ((v % &m) + &m) % &m;
         self
     }
 
@@ -349,7 +349,7 @@ impl Scalar for Int {
         i.v = BigInt::from(v);
         // specify euclidean modulus for negative number
         match i.v.sign() {
-            num_bigint::Sign::Minus => i.v = (i.v % i.m.clone()) + i.m.abs(),
+            num_bigint::Sign::Minus => i.v = ((i.v % i.m.clone()) + i.m.abs()) % i.m.clone(),
             _ => i.v %= i.m.clone(),
         }
         i
-- 
2.43.0


From fdad7ba4e6adfd581ef9ae1f4eec489cd94bbe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 21/30] fix: Int::unmarshal_binary() keeps the out-of-range
 value it refuses

---
 src/group/integer_field/integer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index f189870..be281f9 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -265,12 +265,13 @@ impl BinaryUnmarshaler for Int {
         if self.bo == LittleEndian {
             buf = reverse(&vec![0_u8; buf.len()], &buf.to_vec());
         }
-        self.v = BigInt::from_bytes_be(Plus, buf.as_slice());
-        if matches!(self.v.cmp(&self.m), Greater | Equal) {
+        let v = BigInt::from_bytes_be(Plus, buf.as_slice());
+        if matches!(v.cmp(&self.m), Greater | Equal) {
             return Err(MarshallingError::InvalidInput(
                 "unmarshal_binary: value out of range".to_owned(),
             ));
         }
+        self.v = v;
         Ok(())
     }
 }
-- 
2.43.0


From e09e0ee75b796f18f1582b9aaf6489e10e543ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 22/30] fix: Int::div() multiplies instead of dividing

---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index be281f9..9edebd5 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -405,9 +405,9 @@ impl Scalar for Int {
 
     /// [`div()`] sets the target to `a * b^-1 mod m`, where `b^-1` is the modular inverse of `b`.
     fn div(mut self, a: &Self, b: &Self) -> Self {
-        let _t = BigInt::default();
-        self.v = a.v.clone() * b.v.clone();
-        self.v = self.v.clone() % self.m.clone();
+        let inverse = Int::default().inv(b);
+        self.m = a.m.clone();
+        self.v = a.v.clone() * inverse.v % self.m.clone();
         self
     }
 
-- 
2.43.0


From 226df88b3208049707c91d1018a9258a73ffec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 23/30] fix: Int::exp() ignores its base

---
 src/group/integer_field/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 9edebd5..12fa5fa 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -472,7 +472,7 @@ impl Int {
     pub fn exp(mut self, a: &Self, e: &BigInt) -> Self {
         self.m = a.m.clone();
         // to protect against golang/go#22830
-        self.v = self.v.modpow(e, &self.m);
+        self.v = a.v.modpow(e, &self.m);
         self
     }
 
-- 
2.43.0


From 657a3adab9632f8ccccb7852cc1e7e91276cc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 24/30] fix: encodings of small Ints are not padded

The little-endian encoding was shorter than marshal_size() and the big-endian one
panicked.
---
 src/group/integer_field/integer.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 12fa5fa..8a34b64 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -128,9 +128,10 @@ impl Int {
             return Err(IntError::NotRepresentable);
         }
 
-        let buf = vec![0; pad];
-        let buf2 = &buf[0..act];
-        Ok(reverse(buf2, &v_bytes))
+        let mut buf = vec![0; pad];
+        let reversed = reverse(&buf[0..act], &v_bytes);
+        buf[0..act].copy_from_slice(&reversed);
+        Ok(buf)
     }
 
     /// [`new_int()`] creates a new [`Int`] with a given [`BigInt`] and a [`BigInt`] `modulus`.
@@ -501,17 +502,13 @@ impl Int {
     /// at least `min` bytes but no more than `max` bytes long.
     /// Returns an [`Error`](IntError) if `max != 0` and the [`Int`] cannot be represented in `max` bytes.
     pub fn big_endian(&self, min: usize, max: usize) -> Result<Vec<u8>, IntError> {
-        let act = self.marshal_size();
-        let (mut pad, mut ofs) = (act, 0);
-        if pad < min {
-            (pad, ofs) = (min, min - act)
-        }
+        let pad = self.marshal_size().max(min);
         if max != 0 && pad > max {
             return Err(IntError::NotRepresentable);
         }
         let mut buf = vec![0_u8; pad];
         let b = self.v.to_bytes_be().1;
-        buf[ofs..].copy_from_slice(&b);
+        buf[pad - b.len()..].copy_from_slice(&b);
         Ok(buf)
     }
 }
-- 
2.43.0


From c30590f64fc8a3b6d4225646f5c3d92f8a7a4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 25/30] fix: setting a Scalar keeps high bytes of its former
 value

---
 src/group/edwards25519/scalar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/group/edwards25519/scalar.rs b/src/group/edwards25519/scalar.rs
index a3d347e..ef19c87 100644
--- a/src/group/edwards25519/scalar.rs
+++ b/src/group/edwards25519/scalar.rs
@@ -38,6 +38,7 @@ impl Scalar {
         let b = i
             .little_endian(32, 32)
             .unwrap_or_else(|_| Self::default().v.to_vec());
+        self.v = [0; 32];
         self.v.as_mut_slice()[0..b.len()].copy_from_slice(b.as_ref());
         self
     }
-- 
2.43.0


From a217f4f47127af6a68783f7a2902899f555a0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 26/30] fix: EdDSA signatures of a converted key pair reveal
 the private key

The prefix was empty: the nonce was the hash of the message.
---
 src/sign/eddsa/eddsa_sig.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 314d057..ebfbe8f 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -106,11 +106,16 @@ impl BinaryMarshaler for EdDSA<Curve> {
 impl From<Pair<EdPoint>> for EdDSA<Curve> {
     fn from(pair: Pair<EdPoint>) -> Self {
         let g = Curve::default();
+        // there is no seed to derive the prefix from, but without a secret one
+        // the nonces could be computed from the messages
+        let mut hash = Sha512::new();
+        hash.update(b"eddsa prefix");
+        hash.update(pair.private.v);
         Self {
             secret: g.scalar().set(&pair.private),
             public: g.point().set(&pair.public),
             seed: vec![],
-            prefix: vec![],
+            prefix: hash.finalize()[32..].to_vec(),
         }
     }
 }
-- 
2.43.0


From b71f7c65e515f8b4d79961a56d13793e025c9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 27/30] fix: marshalling an EdDSA key without seed panics

---
 src/sign/eddsa/eddsa_sig.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index ebfbe8f..83eccfd 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -96,6 +96,12 @@ impl BinaryMarshaler for EdDSA<Curve> {
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
         let p_buff = self.public.marshal_binary()?;
 
+        if self.seed.len() != 32 {
+            return Err(MarshallingError::InvalidInput(
+                "no seed to encode EdDSA private".to_owned(),
+            ));
+        }
+
         let mut eddsa = [0u8; 64];
         eddsa[..32].copy_from_slice(&self.seed);
         eddsa[32..].copy_from_slice(&p_buff);
-- 
2.43.0


From d05fe1950e18f04b76325abd8d7450d408ff3091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 28/30] fix: the Debug output of EdDSA reveals the private key

---
 src/sign/eddsa/eddsa_sig.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 83eccfd..0603ef4 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -1,5 +1,6 @@
 /// module eddsa implements the EdDSA signature algorithm according to
 /// RFC8032.
+use core::fmt::{Debug, Formatter};
 use digest::Digest;
 use serde::{Deserialize, Serialize};
 use sha2::Sha512;
@@ -14,7 +15,7 @@ use crate::{Group, Point, Scalar};
 
 /// [`EdDSA`] is a structure holding the data necessary to make a series of
 /// `EdDSA signatures`.
-#[derive(Debug, Serialize, Deserialize)]
+#[derive(Serialize, Deserialize)]
 pub struct EdDSA<GROUP: Group> {
     /// `secret` being already hashed + bit tweaked
     pub secret: <GROUP::POINT as Point>::SCALAR,
@@ -24,6 +25,14 @@ pub struct EdDSA<GROUP: Group> {
     pub prefix: Vec<u8>,
 }
 
+impl<GROUP: Group> Debug for EdDSA<GROUP> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
+        f.debug_struct("EdDSA")
+            .field("public", &self.public)
+            .finish()
+    }
+}
+
 const GROUP: Curve = Curve::new();
 
 impl EdDSA<Curve> {
-- 
2.43.0


From 8bb48870297d202ca542ce18c2055d6ac522546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 29/30] fix: evaluating a public polynomial without commitments
 panics

The secret commits of a peer can be empty.
---
 src/share/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index 75a4bd0..263c9fa 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -459,7 +459,7 @@ impl<GROUP: Group> PubPoly<GROUP> {
         let xi = self.g.scalar().set_int64(1 + (i as i64));
         let mut v = self.g.point();
         v = v.null();
-        for j in (0..=(self.threshold() - 1)).rev() {
+        for j in (0..self.threshold()).rev() {
             let v_clone = v.clone();
             v = v.mul(&xi, Some(&v_clone));
             let v_clone = v.clone();
-- 
2.43.0


From dcbfef2cea067ffe6408ebccc694c07460076e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 30/30] fix: reduce scalars at or above 2^255 before point
 multiplication

The multiplication routines require a[31] <= 127 and silently drop the
top digit otherwise, so an unreduced scalar from the wire multiplied to a
different point than its residue: a dealer could pass the share check
with a share that the scalar arithmetic then reads as another value.
---
 src/group/edwards25519/point.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index f308e87..f6ac443 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -1,6 +1,7 @@
 use core::fmt::{Debug, Display, Formatter, LowerHex, UpperHex};
 
 use serde::{Deserialize, Serialize};
+use subtle::{Choice, ConditionallySelectable};
 
 use crate::{
     cipher::Stream,
@@ -207,6 +208,14 @@ impl group::Point for Point {
     fn mul(mut self, s: &Scalar, p: Option<&Self>) -> Self {
         let mut a = s.v;
 
+        // The multiplication routines take scalars below 2^255: a scalar with
+        // the top bit set (it can come from the wire) is reduced first.
+        let reduced = s + Scalar::default();
+        let out_of_range = Choice::from(s.v[31] >> 7);
+        for (x, y) in a.iter_mut().zip(reduced.v) {
+            x.conditional_assign(&y, out_of_range);
+        }
+
         match p {
             None => {
                 ge_scalar_mult_base(&mut self.ge, &mut a);
-- 
2.43.0

