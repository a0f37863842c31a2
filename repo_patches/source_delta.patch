From 3cb818a6d45a71ba7b7926f0fc058900e7d71116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 01/10] fix: check the decoded length of `trytes` against the
 input before allocating

---
 src/pb3/typ/trytes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pb3/typ/trytes.rs b/src/pb3/typ/trytes.rs
index d36fe38..f669803 100644
--- a/src/pb3/typ/trytes.rs
+++ b/src/pb3/typ/trytes.rs
@@ -87,7 +87,8 @@ pub fn wrap_absorb_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_absorb_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_absorb_sized(s, b)?;
-    let mut x = Trits::zero(n.0 * 3);
+    guard(sizeof_ntrytes(n.0) <= b.size(), Err::Eof)?;
+    let mut x = Trits::zero(sizeof_ntrytes(n.0));
     unwrap_absorb_trits(x.slice_mut(), s, b)?;
     Ok(x)
 }
@@ -100,7 +101,8 @@ pub fn wrap_mask_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_mask_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_mask_sized(s, b)?;
-    let mut x = Trits::zero(n.0 * 3);
+    guard(sizeof_ntrytes(n.0) <= b.size(), Err::Eof)?;
+    let mut x = Trits::zero(sizeof_ntrytes(n.0));
     unwrap_mask_trits(x.slice_mut(), s, b)?;
     Ok(x)
 }
-- 
2.43.0


From a7a4de154431021a0a2aef6e710a4b701a403688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 02/10] fix: return Eof from trint unwrap_mask_sized on
 truncated input

---
 src/pb3/typ/trint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pb3/typ/trint.rs b/src/pb3/typ/trint.rs
index db47c90..3da507d 100644
--- a/src/pb3/typ/trint.rs
+++ b/src/pb3/typ/trint.rs
@@ -63,6 +63,7 @@ where
     /// `decr` codeword into a temp buffer and `decode` value.
     fn unwrap_mask_sized(s: &mut Spongos, b: &mut TritSlice) -> Result<Self> {
         let n = Self::sizeof();
+        guard(n <= b.size(), Err::Eof)?;
         let mut t = trits::Trits::zero(n);
         s.decr(b.advance(n), t.slice_mut());
         Self::decode_sized(&mut t.slice())
-- 
2.43.0


From 2d1102d372a63435ee08f3e7d812e85cb659ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 03/10] fix: return Eof from keyload unwrap when skipped
 recipient keys exceed the input

---
 src/app/channel/msg/keyload.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/app/channel/msg/keyload.rs b/src/app/channel/msg/keyload.rs
index dde8a3a..f444be8 100644
--- a/src/app/channel/msg/keyload.rs
+++ b/src/app/channel/msg/keyload.rs
@@ -143,6 +143,14 @@ pub fn wrap(
     s.commit();
 }
 
+/// Skip `count` repeated fields of `size` trits each.
+fn skip_items(count: usize, size: usize, b: &mut TritSlice) -> Result<()> {
+    let n = count.checked_mul(size).ok_or(Err::Eof)?;
+    guard(n <= b.size(), Err::Eof)?;
+    b.advance(n);
+    Ok(())
+}
+
 pub fn unwrap(
     lookup_link: impl Fn(TritSlice) -> Option<(Spongos, ())>,
     psks: &HashMap<psk::PskId, psk::Psk>,
@@ -176,12 +184,12 @@ pub fn unwrap(
                 key.unwrap_mask(&mut fork, b)?;
                 key_found = true;
             } else {
-                b.advance(pb3::sizeof_ntrytes(81));
+                skip_items(1, pb3::sizeof_ntrytes(81), b)?;
             }
         }
 
         let sizeof_keyloadpsk = pb3::sizeof_ntrytes(27) + pb3::sizeof_ntrytes(81);
-        b.advance((psks_count.0 - n) * sizeof_keyloadpsk);
+        skip_items(psks_count.0 - n, sizeof_keyloadpsk, b)?;
     }
 
     {
@@ -201,12 +209,12 @@ pub fn unwrap(
                 pb3::ntrukem::unwrap_ntrukem(key.slice_mut(), ntrusk, &mut fork, b)?;
                 key_found = true;
             } else {
-                b.advance(pb3::ntrukem::sizeof_ntrukem());
+                skip_items(1, pb3::ntrukem::sizeof_ntrukem(), b)?;
             }
         }
 
         let sizeof_keyloadntru = pb3::sizeof_ntrytes(27) + pb3::ntrukem::sizeof_ntrukem();
-        b.advance((ntrus_count.0 - n) * sizeof_keyloadntru);
+        skip_items(ntrus_count.0 - n, sizeof_keyloadntru, b)?;
     }
 
     guard(key_found, Err::KeyNotFound)?;
-- 
2.43.0


From 14a8ae56531e8ddeb712dc8e09110e7f3dcd2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 04/10] fix: is_same compares each slice's own offset

---
 src/trits/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 52e4b6d..01b21e0 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -257,7 +257,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
@@ -669,7 +669,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
-- 
2.43.0


From 0121c24d6ed8180bf24fcc943c0ca0f08cf570c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 05/10] fix: TritSliceMut::inc carries into the next trit

---
 src/trits/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 01b21e0..5154717 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -644,13 +644,14 @@ where
     }
 
     /// Increment trits in the range `[d..n)` as integer.
-    pub fn inc(self) -> bool {
+    pub fn inc(mut self) -> bool {
         while !self.is_empty() {
             let t = (1 + self.as_const().get_trit()) % 3;
             self.put_trit(t);
             if 0 != t {
                 return true;
             }
+            self = self.drop(1);
         }
         false
     }
-- 
2.43.0


From f7767d6dda0088f8757bd8992c092a3a00b6c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 06/10] fix: compare trits without early exit

---
 src/trits/b1t1.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trits/b1t1.rs b/src/trits/b1t1.rs
index 49cd857..9c89c0a 100644
--- a/src/trits/b1t1.rs
+++ b/src/trits/b1t1.rs
@@ -17,14 +17,14 @@ impl TritWord for Trit {
         }
     }
     fn unsafe_eq(n: usize, dx: usize, x: *const Self, dy: usize, y: *const Self) -> bool {
+        // No early exit: secret data (MAC tags) is compared here.
+        let mut diff: Self = 0;
         unsafe {
             for i in 0..n {
-                if *x.add(dx + i) != *y.add(dy + i) {
-                    return false;
-                }
+                diff |= *x.add(dx + i) ^ *y.add(dy + i);
             }
         }
-        true
+        diff == 0
     }
 
     fn put_trit(d: usize, p: *mut Self, t: Trit) {
-- 
2.43.0


From 3aea6d60f3daa15825aa3906243d117662674198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 07/10] fix: keep the coefficient reduced in small3_add1

---
 src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly.rs b/src/poly.rs
index 107ed0e..120d2d8 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -167,7 +167,7 @@ impl Poly {
         }
     }
     pub fn small3_add1(&mut self) {
-        self.coeffs[0] += COEFF_ONE;
+        self.coeffs[0] = coeff_add(self.coeffs[0], COEFF_ONE);
     }
     pub fn small_mul3(&mut self) {
         for i in 0..N {
-- 
2.43.0


From abf35c274931f40f783ac53d59b9f6a3e7be95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 08/10] fix: keep the root of an exhausted complete Merkle tree

---
 src/mss/mtcomplete.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/mss/mtcomplete.rs b/src/mss/mtcomplete.rs
index 9f1dfff..7dfd1e4 100644
--- a/src/mss/mtcomplete.rs
+++ b/src/mss/mtcomplete.rs
@@ -79,10 +79,6 @@ where
             self.skn += 1;
         }
 
-        if self.skn == max_skn(self.height) {
-            self.nodes = Vec::new();
-        }
-
         self.skn != max_skn(self.height)
     }
 
@@ -117,9 +113,7 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
-        if skn == max_skn(height) && nodes.is_empty() {
-        } else if skn < max_skn(height) && tree_size(height) == nodes.len() {
-        } else {
+        if max_skn(height) < skn || tree_size(height) != nodes.len() {
             return None;
         }
 
-- 
2.43.0


From 613d4b9144ef1c9c5de85ab3a970196f54585122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 09/10] fix: PublicKey is repr(transparent), as public_key()
 relies on its layout

---
 src/mss/mss.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mss/mss.rs b/src/mss/mss.rs
index 314e45e..4ce1060 100644
--- a/src/mss/mss.rs
+++ b/src/mss/mss.rs
@@ -174,6 +174,7 @@ where
 }
 
 #[derive(PartialEq, Eq, Clone, Debug)]
+#[repr(transparent)]
 pub struct PublicKey {
     pub(crate) pk: Trits,
 }
-- 
2.43.0


From 2e16ea5db1dbe5491ef02f262d0000e6bd422d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 10/10] fix: a rejected NTRU public key does not overwrite the
 current one

---
 src/ntru.rs           | 10 ----------
 src/pb3/typ/ntrupk.rs | 10 +++++-----
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/ntru.rs b/src/ntru.rs
index c6de51c..7d05c40 100644
--- a/src/ntru.rs
+++ b/src/ntru.rs
@@ -331,16 +331,6 @@ impl PublicKey {
         }
     }
 
-    /// Precompute polynomial `h = NTT(pk)` and check for invertibility.
-    pub(crate) fn validate(&mut self) -> bool {
-        if let Some(h) = pk_from_trits(self.pk.slice()) {
-            self.h = h;
-            true
-        } else {
-            false
-        }
-    }
-
     /// Public key identifier -- the first `PKID_SIZE` trits of the public key.
     pub fn id(&self) -> TritSlice {
         self.pk.slice().take(PKID_SIZE)
diff --git a/src/pb3/typ/ntrupk.rs b/src/pb3/typ/ntrupk.rs
index 477b36d..5f67331 100644
--- a/src/pb3/typ/ntrupk.rs
+++ b/src/pb3/typ/ntrupk.rs
@@ -1,6 +1,6 @@
 use crate::ntru;
 use crate::pb3::cmd::{absorb::Absorb, mask::Mask};
-use crate::pb3::err::{guard, Err, Result};
+use crate::pb3::err::{Err, Result};
 use crate::spongos::Spongos;
 use crate::trits::{TritSlice, TritSliceMut, Trits};
 
@@ -10,8 +10,8 @@ impl Absorb for ntru::PublicKey {
     }
 
     fn unwrap_absorb(&mut self, s: &mut Spongos, b: &mut TritSlice) -> Result<()> {
-        self.pk.unwrap_absorb(s, b)?;
-        guard(self.validate(), Err::NtruBadPublicKey)
+        *self = Self::unwrap_absorb_sized(s, b)?;
+        Ok(())
     }
 
     fn unwrap_absorb_sized(s: &mut Spongos, b: &mut TritSlice) -> Result<Self> {
@@ -27,8 +27,8 @@ impl Mask for ntru::PublicKey {
     }
 
     fn unwrap_mask(&mut self, s: &mut Spongos, b: &mut TritSlice) -> Result<()> {
-        self.pk.unwrap_mask(s, b)?;
-        guard(self.validate(), Err::NtruBadPublicKey)
+        *self = Self::unwrap_mask_sized(s, b)?;
+        Ok(())
     }
 
     fn unwrap_mask_sized(s: &mut Spongos, b: &mut TritSlice) -> Result<Self> {
-- 
2.43.0

