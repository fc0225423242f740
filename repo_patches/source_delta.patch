From 04783199cf53a25accdce010a9a4b2ac9eaff1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 01/94] fix: report CKS_RW_SO_FUNCTIONS for sessions opened
 while the SO is logged in

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index ab48f2a..35f2c78 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -352,7 +352,7 @@ impl Session {
                     }
                     CKU_SO => {
                         if rw {
-                            CKS_RW_USER_FUNCTIONS
+                            CKS_RW_SO_FUNCTIONS
                         } else {
                             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
                         }
-- 
2.43.0


From 7a1812503bdbf7f306658f0c4dfbe2682b8d1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 02/94] fix: login and logout must not take session locks while
 holding the token lock

All other functions lock a session first and then the token; login() and
logout() did the opposite and could deadlock with any of them.
---
 src/fns/sessmgmt.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index c433910..311f0cd 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -286,7 +286,9 @@ fn login(
     pin: CK_UTF8CHAR_PTR,
     pin_len: CK_ULONG,
 ) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* exclusive access: all sessions are changed below with the token locked,
+     * while other functions lock the token with a session locked */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
     /* avoid deadlock later when we change all sessions */
@@ -368,7 +370,8 @@ pub extern "C" fn fn_login(
 
 #[inline(always)]
 fn logout(s_handle: CK_SESSION_HANDLE) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* exclusive access, see login() */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
     /* avoid deadlock later when we change all sessions */
-- 
2.43.0


From db14e93eecc8d28e85f7bf8278fa093205333510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 03/94] fix: nssdb: drop derived keys when the master key
 changes

The cache of PBKDF2 derived keys is looked up by salt only and survived
logout, so after one successful login any wrong PIN was accepted, because the
password check was decrypted with the cached key. A failed check also removed
the keys of a user that was already logged in, and a wrong PIN was mostly
reported as CKR_ENCRYPTED_DATA_INVALID.
---
 src/storage/nssdb/ci.rs  | 18 +++++++++++++++---
 src/storage/nssdb/mod.rs | 16 ++++++++++++----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 47f3c75..53b4307 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -108,12 +108,18 @@ impl KeysWithCaching {
 
     /// Sets the master encryption key, zeroizing any previous key.
     pub fn set_key(&mut self, key: Vec<u8>) {
-        if let Some(oldkey) = &mut self.enckey {
-            zeromem(oldkey.as_mut_slice());
-        }
+        self.unset_key();
         self.enckey = Some(key);
     }
 
+    /// Replaces the master encryption key and returns the previous one, if
+    /// any. The cache of keys derived from the previous key is cleared.
+    pub fn replace_key(&mut self, key: Vec<u8>) -> Option<Vec<u8>> {
+        let oldkey = self.enckey.take();
+        self.set_key(key);
+        oldkey
+    }
+
     /// Unsets the master encryption key (zeroizing it) and clears the derived
     /// key cache.
     pub fn unset_key(&mut self) {
@@ -121,6 +127,12 @@ impl KeysWithCaching {
             zeromem(key.as_mut_slice());
             self.enckey = None;
         }
+        /* the cached keys were derived from the key just removed, and are
+         * looked up only by salt, so they must never outlive it */
+        match self.cache.get_mut() {
+            Ok(cache) => cache.clear(),
+            Err(e) => e.into_inner().clear(),
+        }
     }
 
     /// Attempts to get a read lock (`LockedKey`) for a cached derived key
diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 2e6ffa9..ce6db84 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1485,21 +1485,29 @@ impl Storage for NSSStorage {
         if originally_set && self.keys.check_key(enckey.as_slice()) {
             return Ok(());
         }
-        self.keys.set_key(enckey);
+        let previous = self.keys.replace_key(enckey);
         let check = match decrypt_data(facilities, &self.keys, data.as_slice())
         {
             Ok(plain) => {
                 if plain.as_slice() == NSS_PASS_CHECK {
                     Ok(())
                 } else {
-                    Err(CKR_PIN_INCORRECT)?
+                    Err(CKR_PIN_INCORRECT.into())
                 }
             }
+            /* a wrong pin usually leads to a padding error */
+            Err(e) if e.rv() == CKR_ENCRYPTED_DATA_INVALID => {
+                Err(CKR_PIN_INCORRECT.into())
+            }
             Err(e) => Err(e),
         };
         if check.is_err() {
-            /* unconditionally remove the key on failure */
-            self.keys.unset_key();
+            /* unconditionally remove the key on failure, a failed check
+             * must not affect a user that is already logged in though */
+            match previous {
+                Some(key) => self.keys.set_key(key),
+                None => self.keys.unset_key(),
+            }
             return check;
         }
 
-- 
2.43.0


From 20a48e20823dce3dda79ba447ede84876dbb4717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 04/94] fix: AES-CCM with a 7 byte nonce must not overflow the
 data length check

---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 48f9a44..b219882 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -214,7 +214,7 @@ impl AesOperation {
                 }
                 let l = 15 - params.ulNonceLen;
                 if params.ulDataLen == 0
-                    || params.ulDataLen > (1 << (8 * l))
+                    || (l < 8 && params.ulDataLen > (1 << (8 * l)))
                     || params.ulDataLen > (CK_ULONG::MAX - params.ulMACLen)
                 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
@@ -763,7 +763,7 @@ impl AesOperation {
                 }
                 let l = 15 - params.ulNonceLen;
                 if params.ulDataLen == 0
-                    || params.ulDataLen > (1 << (8 * l))
+                    || (l < 8 && params.ulDataLen > (1 << (8 * l)))
                     || params.ulDataLen > (CK_ULONG::MAX - params.ulMACLen)
                 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
-- 
2.43.0


From 43aa133a86ffccf7c11ccbecb8b6780e47f2fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 05/94] fix: AES-CTR counter space accounting

---
 src/ossl/aes.rs | 70 ++++++++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index b219882..97f2816 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -157,8 +157,10 @@ pub struct AesOperation {
     ctx: Option<OsslCipher>,
     /// Internal buffer for handling partial blocks or accumulating data.
     buffer: Vec<u8>,
-    /// Counter for blocks processed (used for CTR mode limits).
+    /// Marks that one-shot modes have already processed their data.
     blockctr: u128,
+    /// Number of bytes processed so far (used for CTR mode limits).
+    ctrbytes: u128,
     /// Option to report fips indicator status
     #[cfg(feature = "fips")]
     fips_approval: FipsApproval,
@@ -309,8 +311,9 @@ impl AesOperation {
                     }
                     let part = u128::try_from(ctrbits % 8)?;
                     if part > 0 {
+                        let mask = (1u128 << part) - 1;
                         maxblocks -=
-                            (u128::try_from(iv[15 - idx])? & part) << (idx * 8);
+                            (u128::try_from(iv[15 - idx])? & mask) << (idx * 8);
                     }
                     if maxblocks == 0 {
                         return Err(CKR_MECHANISM_PARAM_INVALID)?;
@@ -624,6 +627,7 @@ impl AesOperation {
             ctx: Some(ctx),
             buffer: Vec::new(),
             blockctr: 0,
+            ctrbytes: 0,
             #[cfg(feature = "fips")]
             fips_approval: fips_approval,
         })
@@ -663,6 +667,7 @@ impl AesOperation {
             ctx: Some(ctx),
             buffer: Vec::new(),
             blockctr: 0,
+            ctrbytes: 0,
             #[cfg(feature = "fips")]
             fips_approval: fips_approval,
         })
@@ -730,6 +735,19 @@ impl AesOperation {
         Ok(result)
     }
 
+    /// Checks that processing len more bytes does not exceed the number of
+    /// blocks available with the counter size selected by the application
+    fn ctr_check(&mut self, len: usize) -> Result<()> {
+        if self.params.maxblocks != 0 {
+            let bytes = self.ctrbytes + len as u128;
+            let blocks = bytes.div_ceil(AES_BLOCK_SIZE as u128);
+            if blocks > self.params.maxblocks {
+                return Err(self.op_err(CKR_DATA_LEN_RANGE));
+            }
+        }
+        Ok(())
+    }
+
     /// Internal helper for dealing with fatal errors
     fn op_err(&mut self, err: CK_RV) -> error::Error {
         self.finalized = true;
@@ -994,6 +1012,7 @@ impl AesOperation {
             ctx: None,
             buffer: Vec::new(),
             blockctr: 0,
+            ctrbytes: 0,
             #[cfg(feature = "fips")]
             fips_approval: FipsApproval::init(),
         })
@@ -1064,6 +1083,7 @@ impl AesOperation {
             ctx: None,
             buffer: Vec::new(),
             blockctr: 0,
+            ctrbytes: 0,
             #[cfg(feature = "fips")]
             fips_approval: FipsApproval::init(),
         })
@@ -1237,15 +1257,7 @@ impl Encryption for AesOperation {
                 }
             }
             CKM_AES_CTR => {
-                if self.params.maxblocks != 0 {
-                    let reqblocks = ((plain.len() + AES_BLOCK_SIZE - 1)
-                        / AES_BLOCK_SIZE)
-                        as u128;
-                    if self.blockctr + reqblocks > self.params.maxblocks {
-                        return Err(self.op_err(CKR_DATA_LEN_RANGE));
-                    }
-                    self.blockctr += reqblocks;
-                }
+                self.ctr_check(plain.len())?;
             }
             CKM_AES_KEY_WRAP => {
                 if plain.len() % AES_KWP_BLOCK != 0 {
@@ -1259,6 +1271,10 @@ impl Encryption for AesOperation {
             return Err(error::Error::buf_too_small(outlen));
         }
 
+        if self.mech == CKM_AES_CTR {
+            self.ctrbytes += plain.len() as u128;
+        }
+
         let ctx = match &mut self.ctx {
             Some(c) => c,
             None => return Err(self.op_err(CKR_GENERAL_ERROR)),
@@ -1398,15 +1414,7 @@ impl Encryption for AesOperation {
                 outlen = self.params.taglen;
                 ctx.get_tag(&mut cipher[..outlen])?;
             }
-            CKM_AES_CTR => {
-                self.finalized = true;
-                if self.params.maxblocks > 0 {
-                    if self.blockctr >= self.params.maxblocks {
-                        self.finalized = true;
-                        return Err(CKR_DATA_LEN_RANGE)?;
-                    }
-                }
-            }
+            CKM_AES_CTR => (),
             CKM_AES_CTS => (),
             #[cfg(not(feature = "fips"))]
             CKM_AES_CFB8 | CKM_AES_CFB1 | CKM_AES_CFB128 | CKM_AES_OFB => (),
@@ -1620,15 +1628,7 @@ impl Decryption for AesOperation {
                 self.params.datalen
             }
             CKM_AES_CTR => {
-                if self.params.maxblocks != 0 {
-                    let reqblocks = ((cipher.len() + AES_BLOCK_SIZE - 1)
-                        / AES_BLOCK_SIZE)
-                        as u128;
-                    if self.blockctr + reqblocks > self.params.maxblocks {
-                        return Err(self.op_err(CKR_DATA_LEN_RANGE));
-                    }
-                    self.blockctr += reqblocks;
-                }
+                self.ctr_check(cipher.len())?;
                 cipher.len()
             }
             CKM_AES_GCM => {
@@ -1651,6 +1651,10 @@ impl Decryption for AesOperation {
             return Err(error::Error::buf_too_small(outlen));
         }
 
+        if self.mech == CKM_AES_CTR {
+            self.ctrbytes += cipher.len() as u128;
+        }
+
         let ctx = match &mut self.ctx {
             Some(c) => c,
             None => return Err(self.op_err(CKR_GENERAL_ERROR)),
@@ -1860,13 +1864,7 @@ impl Decryption for AesOperation {
                     Err(_) => return Err(CKR_ENCRYPTED_DATA_INVALID)?,
                 }
             }
-            CKM_AES_CTR => {
-                if self.params.maxblocks > 0 {
-                    if self.blockctr >= self.params.maxblocks {
-                        return Err(CKR_DATA_LEN_RANGE)?;
-                    }
-                }
-            }
+            CKM_AES_CTR => (),
             CKM_AES_CTS => (),
             CKM_AES_ECB | CKM_AES_CBC => {
                 if self.buffer.len() != 0 {
-- 
2.43.0


From 8816cfe64319e25bc660d567953abf90bbcf99b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 06/94] fix: multi-part CKM_AES_CBC_PAD decryption with a split
 first block

---
 src/ossl/aes.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 97f2816..dd6291e 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1763,7 +1763,13 @@ impl Decryption for AesOperation {
                                 self.finalized = true;
                                 Err(CKR_DEVICE_ERROR)
                             })?;
-                        if plain_offset != AES_BLOCK_SIZE {
+                        /* with padding enabled the last block available is
+                         * withheld until more data comes, so nothing is
+                         * returned when this is the very first block */
+                        if plain_offset != AES_BLOCK_SIZE
+                            && !(self.mech == CKM_AES_CBC_PAD
+                                && plain_offset == 0)
+                        {
                             return Err(self.op_err(CKR_DEVICE_ERROR));
                         }
                         zeromem(self.buffer.as_mut_slice());
-- 
2.43.0


From b629068ca7fc14f250f82c1c8721b66900720c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 07/94] fix: multi-part AES-GCM decryption dropped data after a
 short part

---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index dd6291e..bf92dca 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1736,9 +1736,9 @@ impl Decryption for AesOperation {
                             zeromem(&mut self.buffer.as_mut_slice()[..buflen]);
                             let _ = self.buffer.drain(..buflen);
                         }
+                        /* The cipher buffer has been utilized */
+                        cipher_offset = cipher_end;
                     }
-                    /* The cipher buffer has been utilized */
-                    cipher_offset = cipher_end;
                 } else if cipher_end > self.params.taglen {
                     cipher_end -= self.params.taglen;
                     self.buffer.extend_from_slice(&cipher[cipher_end..]);
-- 
2.43.0


From 98972c1ceb2f14cb97e4b287055e14f8ba06c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 08/94] fix: one-shot AES encryption can be retried after
 CKR_BUFFER_TOO_SMALL

---
 src/ossl/aes.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index bf92dca..2338e88 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1205,6 +1205,12 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        /* check upfront, or data would be consumed by update when the final
+         * part does not fit, and the operation could not be retried */
+        let needed = self.encryption_len(plain.len(), true)?;
+        if cipher.len() < needed {
+            return Err(error::Error::buf_too_small(needed));
+        }
         let outl = self.encrypt_update(plain, cipher)?;
         if outl > cipher.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
@@ -1232,9 +1238,7 @@ impl Encryption for AesOperation {
                 }
                 /* some modes are one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
             }
@@ -1271,8 +1275,10 @@ impl Encryption for AesOperation {
             return Err(error::Error::buf_too_small(outlen));
         }
 
-        if self.mech == CKM_AES_CTR {
-            self.ctrbytes += plain.len() as u128;
+        match self.mech {
+            CKM_AES_CTR => self.ctrbytes += plain.len() as u128,
+            CKM_AES_CTS => self.blockctr = 1,
+            _ => (),
         }
 
         let ctx = match &mut self.ctx {
@@ -1585,9 +1591,7 @@ impl Decryption for AesOperation {
 
                 /* CTS mode is one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
             }
@@ -1651,8 +1655,10 @@ impl Decryption for AesOperation {
             return Err(error::Error::buf_too_small(outlen));
         }
 
-        if self.mech == CKM_AES_CTR {
-            self.ctrbytes += cipher.len() as u128;
+        match self.mech {
+            CKM_AES_CTR => self.ctrbytes += cipher.len() as u128,
+            CKM_AES_CTS => self.blockctr = 1,
+            _ => (),
         }
 
         let ctx = match &mut self.ctx {
-- 
2.43.0


From 67e2f8905c177efad78b3edfab575d8de26e44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 09/94] fix: AES-CCM must process exactly the announced amount
 of data

---
 src/ossl/aes.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 2338e88..c265b17 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1256,6 +1256,10 @@ impl Encryption for AesOperation {
                 if plain.len() + self.buffer.len() > self.params.datalen {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
+                if self.blockctr != 0 && plain.len() > 0 {
+                    /* all the announced data was already processed */
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
+                }
                 if plain.len() + self.buffer.len() < self.params.datalen {
                     outlen = 0;
                 }
@@ -1308,8 +1312,11 @@ impl Encryption for AesOperation {
                         }
                         zeromem(self.buffer.as_mut_slice());
                         self.buffer.clear();
+                        self.blockctr = 1;
                     }
                     plain_offset = plain_end;
+                } else {
+                    self.blockctr = 1;
                 }
             }
             CKM_AES_ECB | CKM_AES_CBC | CKM_AES_CBC_PAD => {
@@ -1412,6 +1419,11 @@ impl Encryption for AesOperation {
                     ));
                 }
 
+                if self.mech == CKM_AES_CCM && self.blockctr == 0 {
+                    /* not all the announced data was provided */
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
+                }
+
                 outlen = ctx.finalize(cipher)?;
                 if outlen != 0 {
                     self.finalized = true;
@@ -1601,6 +1613,10 @@ impl Decryption for AesOperation {
                 {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
+                if self.blockctr != 0 && cipher.len() > 0 {
+                    /* all the announced data was already processed */
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
+                }
             }
             CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
                 if cipher.len() % AES_KWP_BLOCK != 0 {
@@ -1704,6 +1720,7 @@ impl Decryption for AesOperation {
 
                     zeromem(self.buffer.as_mut_slice());
                     self.buffer.clear();
+                    self.blockctr = 1;
                 }
 
                 /* One way or another the cipher buffer has been utilized */
@@ -1858,7 +1875,7 @@ impl Decryption for AesOperation {
         let mut outlen = 0;
         match self.mech {
             CKM_AES_CCM => {
-                if self.buffer.len() > 0 {
+                if self.buffer.len() > 0 || self.blockctr == 0 {
                     return Err(CKR_DATA_LEN_RANGE)?;
                 }
             }
-- 
2.43.0


From 0e12954e8405c35a474fd518932f1d89d812f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 10/94] fix: do not leave unauthenticated plaintext in the
 output buffer

---
 src/ossl/aes.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index c265b17..f12839c 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1582,7 +1582,16 @@ impl Decryption for AesOperation {
         if outl > plain.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
         }
-        Ok(outl + self.decrypt_final(&mut plain[outl..])?)
+        match self.decrypt_final(&mut plain[outl..]) {
+            Ok(len) => Ok(outl + len),
+            Err(e) => {
+                /* do not release data that failed authentication */
+                if self.finalized {
+                    zeromem(&mut plain[..outl]);
+                }
+                Err(e)
+            }
+        }
     }
 
     /// Calls the underlying OpenSSL function to decrypt the ciphertext buffer
@@ -2396,7 +2405,8 @@ impl MsgDecryption for AesOperation {
                             }
                         }
                         Err(_) => {
-                            return Err(self.op_err(CKR_ENCRYPTED_DATA_INVALID))
+                            zeromem(plain);
+                            return Err(self.op_err(CKR_ENCRYPTED_DATA_INVALID));
                         }
                     }
                 } else {
-- 
2.43.0


From 34f5f4785337a011965d72f1f877c241578afc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 11/94] fix: clear the data accumulated by a previous AES-CCM
 message

---
 src/ossl/aes.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index f12839c..ff576d2 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1033,13 +1033,12 @@ impl AesOperation {
         }
 
         #[cfg(feature = "fips")]
-        {
-            zeromem(self.buffer.as_mut_slice());
-            self.fips_approval.reset();
-        }
+        self.fips_approval.reset();
 
         let iv_ptr = self.init_msg_params(parameter, parameter_len, aad)?;
 
+        zeromem(self.buffer.as_mut_slice());
+        self.buffer.clear();
         self.finalized = false;
         self.in_use = true;
 
@@ -1104,13 +1103,12 @@ impl AesOperation {
         }
 
         #[cfg(feature = "fips")]
-        {
-            zeromem(self.buffer.as_mut_slice());
-            self.fips_approval.reset();
-        }
+        self.fips_approval.reset();
 
         let _ = self.init_msg_params(parameter, parameter_len, aad)?;
 
+        zeromem(self.buffer.as_mut_slice());
+        self.buffer.clear();
         self.finalized = false;
         self.in_use = true;
 
-- 
2.43.0


From 0e73975163f8c46f0aacdc44e2651c8ca9a893e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 12/94] fix: output buffer size handling in one-shot AES
 messages

---
 src/ossl/aes.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index ff576d2..ca3da93 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2059,6 +2059,10 @@ impl MsgEncryption for AesOperation {
         plain: &[u8],
         cipher: &mut [u8],
     ) -> Result<usize> {
+        /* check upfront so that the message can be retried */
+        if cipher.len() < plain.len() {
+            return Err(error::Error::buf_too_small(plain.len()));
+        }
         self.msg_encrypt_begin(param, paramlen, aad)?;
         self.msg_encrypt_final(param, paramlen, plain, cipher)
     }
@@ -2229,8 +2233,8 @@ impl MsgEncryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
@@ -2249,6 +2253,10 @@ impl MsgDecryption for AesOperation {
         cipher: &[u8],
         plain: &mut [u8],
     ) -> Result<usize> {
+        /* check upfront so that the message can be retried */
+        if plain.len() < cipher.len() {
+            return Err(error::Error::buf_too_small(cipher.len()));
+        }
         self.msg_decrypt_begin(param, paramlen, aad)?;
         self.msg_decrypt_final(param, paramlen, cipher, plain)
     }
@@ -2434,8 +2442,8 @@ impl MsgDecryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
-- 
2.43.0


From 8ab7e38fd453df33ae776f9ef6e3850e4e0cdd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:01 +0000
Subject: [PATCH 13/94] fix: multi-part encryption and decryption with output
 in the input buffer

---
 src/fns/encryption.rs | 51 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 70e0e11..5140e08 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -12,6 +12,7 @@ use crate::check_allowed_mechs;
 use crate::error::Result;
 use crate::log_debug;
 use crate::mechanism::{Decryption, Encryption, MsgDecryption, MsgEncryption};
+use crate::misc::{bytes_to_vec, zeromem};
 use crate::pkcs11::*;
 use crate::session::Session;
 use crate::STATE;
@@ -19,6 +20,37 @@ use crate::STATE;
 #[cfg(feature = "fips")]
 use crate::{finalize_fips_approval, init_fips_approval};
 
+/// Calls an update function that reads from input and writes to output.
+///
+/// The standard allows the caller to use the same memory for the input and the
+/// output, but operations may hold back data from previous calls and therefore
+/// write at an offset from what they read, so overlapping input is copied.
+
+fn update_buffers<F>(
+    input: CK_BYTE_PTR,
+    ilen: usize,
+    output: CK_BYTE_PTR,
+    olen: usize,
+    update: F,
+) -> Result<usize>
+where
+    F: FnOnce(&[u8], &mut [u8]) -> Result<usize>,
+{
+    let (i, o) = (input as usize, output as usize);
+    if i < o.saturating_add(olen) && o < i.saturating_add(ilen) {
+        let mut data = bytes_to_vec(input, ilen);
+        let out: &mut [u8] =
+            unsafe { std::slice::from_raw_parts_mut(output, olen) };
+        let ret = update(&data, out);
+        zeromem(&mut data);
+        return ret;
+    }
+    let data: &[u8] = unsafe { std::slice::from_raw_parts(input, ilen) };
+    let out: &mut [u8] =
+        unsafe { std::slice::from_raw_parts_mut(output, olen) };
+    update(data, out)
+}
+
 #[inline(always)]
 fn encrypt_init(
     s_handle: CK_SESSION_HANDLE,
@@ -168,12 +200,15 @@ pub(crate) fn internal_encrypt_update(
     let len = if encrypted_part.is_null() {
         operation.encryption_len(plen, false)?
     } else {
-        let data: &[u8] = unsafe { std::slice::from_raw_parts(part, plen) };
         let penclen = unsafe { *pul_encrypted_part_len as CK_ULONG };
         let enclen = usize::try_from(penclen).map_err(|_| CKR_ARGUMENTS_BAD)?;
-        let encpart: &mut [u8] =
-            unsafe { std::slice::from_raw_parts_mut(encrypted_part, enclen) };
-        operation.encrypt_update(data, encpart)?
+        update_buffers(
+            part,
+            plen,
+            encrypted_part,
+            enclen,
+            |data, encpart| operation.encrypt_update(data, encpart),
+        )?
     };
     let cklen = CK_ULONG::try_from(len).map_err(|_| CKR_ARGUMENTS_BAD)?;
     unsafe { *pul_encrypted_part_len = cklen };
@@ -448,13 +483,11 @@ pub(crate) fn internal_decrypt_update(
     let len = if part.is_null() {
         operation.decryption_len(elen, false)?
     } else {
-        let enc: &[u8] =
-            unsafe { std::slice::from_raw_parts(encrypted_part, elen) };
         let pplen = unsafe { *pul_part_len as CK_ULONG };
         let plen = usize::try_from(pplen).map_err(|_| CKR_ARGUMENTS_BAD)?;
-        let dpart: &mut [u8] =
-            unsafe { std::slice::from_raw_parts_mut(part, plen) };
-        operation.decrypt_update(enc, dpart)?
+        update_buffers(encrypted_part, elen, part, plen, |enc, dpart| {
+            operation.decrypt_update(enc, dpart)
+        })?
     };
     let cklen = CK_ULONG::try_from(len).map_err(|_| CKR_ARGUMENTS_BAD)?;
     unsafe { *pul_part_len = cklen };
-- 
2.43.0


From 524dc0443a354541a3a131cb0c76733812433a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 14/94] fix: track the login required by
 CKA_ALWAYS_AUTHENTICATE per operation

---
 src/fns/sessmgmt.rs |   8 +---
 src/session.rs      | 111 ++++++++++++++++++++++++++++----------------
 2 files changed, 72 insertions(+), 47 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index 311f0cd..fc38a72 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -302,12 +302,8 @@ fn login(
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
     if user_type == CKU_CONTEXT_SPECIFIC {
         let session = rstate.get_session_mut(s_handle)?;
-        match session.check_login_status() {
-            Err(e) => match e.rv() {
-                CKR_USER_NOT_LOGGED_IN => (),
-                _ => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
-            },
-            Ok(()) => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
+        if !session.login_required() {
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
     }
 
diff --git a/src/session.rs b/src/session.rs
index 35f2c78..5a69f2d 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -49,14 +49,13 @@ impl SearchOperation for SessionSearch {
 }
 
 /// Represents the login status requirement for an active operation.
-#[derive(Debug)]
+#[derive(Clone, Copy, Debug)]
 pub enum OpLoginStatus {
-    /// No operation active.
-    NotInitialized,
     /// Active operation does not require login.
     NotRequired,
-    /// Active operation requires login, but user is not logged in.
-    Required,
+    /// Active operation requires login, but user is not logged in. The value
+    /// orders the pending operations by the time they were initialized.
+    Required(u64),
     /// Active operation requires login, and user is logged in.
     LoginOk,
 }
@@ -69,15 +68,18 @@ pub trait ManageOperation {
     fn check_no_op(so: &SessionOperations) -> Result<()>;
     fn get_op(so: &mut SessionOperations) -> Result<&mut Self>;
     fn set_op(so: &mut SessionOperations, op: Box<Self>);
+    fn login_status(so: &SessionOperations) -> OpLoginStatus;
+    fn set_login_status(so: &mut SessionOperations, status: OpLoginStatus);
 }
 
 /// Macro to implement the `ManageOperation` trait for a specific operation
 /// type.
 macro_rules! impl_mop {
-    ($optype:ident, $($opname:ident).+) => {
+    ($optype:ident, $($opname:ident).+, $index:literal) => {
         impl ManageOperation for dyn $optype {
             fn cancel_operation(so: &mut SessionOperations) -> Result<()> {
                 so.$($opname).+ = None;
+                so.login[$index] = OpLoginStatus::NotRequired;
                 Ok(())
             }
 
@@ -112,6 +114,18 @@ macro_rules! impl_mop {
 
             fn set_op(so: &mut SessionOperations, op: Box<Self>) {
                 so.$($opname).+ = Some(op);
+                so.login[$index] = OpLoginStatus::NotRequired;
+            }
+
+            fn login_status(so: &SessionOperations) -> OpLoginStatus {
+                so.login[$index]
+            }
+
+            fn set_login_status(
+                so: &mut SessionOperations,
+                status: OpLoginStatus,
+            ) {
+                so.login[$index] = status;
             }
         }
     };
@@ -130,17 +144,19 @@ pub struct SessionOperations {
     sign: Option<Box<dyn Sign>>,
     verify: Option<Box<dyn Verify>>,
     verifysig: Option<Box<dyn VerifySignature>>,
+    /// Login status of each of the operations above
+    login: [OpLoginStatus; 9],
 }
 
-impl_mop!(MsgEncryption, msg_encryption);
-impl_mop!(MsgDecryption, msg_decryption);
-impl_mop!(SearchOperation, search);
-impl_mop!(Encryption, encryption);
-impl_mop!(Decryption, decryption);
-impl_mop!(Digest, digest);
-impl_mop!(Sign, sign);
-impl_mop!(Verify, verify);
-impl_mop!(VerifySignature, verifysig);
+impl_mop!(MsgEncryption, msg_encryption, 0);
+impl_mop!(MsgDecryption, msg_decryption, 1);
+impl_mop!(SearchOperation, search, 2);
+impl_mop!(Encryption, encryption, 3);
+impl_mop!(Decryption, decryption, 4);
+impl_mop!(Digest, digest, 5);
+impl_mop!(Sign, sign, 6);
+impl_mop!(Verify, verify, 7);
+impl_mop!(VerifySignature, verifysig, 8);
 
 struct SaveStateData {
     mech: CK_MECHANISM_TYPE,
@@ -301,6 +317,7 @@ impl SessionOperations {
             sign: None,
             verify: None,
             verifysig: None,
+            login: [OpLoginStatus::NotRequired; 9],
         }
     }
 }
@@ -314,8 +331,8 @@ pub struct Session {
     //notify: CK_NOTIFY,
     /// Container for active cryptographic operations.
     operations: SessionOperations,
-    /// Tracks login requirement status for the current operation.
-    login_status: OpLoginStatus,
+    /// Number of operations that required a login so far.
+    login_count: u64,
     /// Tracks FIPS approval status for the current operation.
     fips_indicator: Option<bool>,
 }
@@ -365,7 +382,7 @@ impl Session {
             //application: std::ptr::null_mut(),
             //notify: unsafe { std::ptr::null_mut() },
             operations: SessionOperations::new(),
-            login_status: OpLoginStatus::NotInitialized,
+            login_count: 0,
             fips_indicator: None,
         })
     }
@@ -522,52 +539,64 @@ impl Session {
         O::check_no_op(&self.operations)
     }
 
-    /// Checks if the current login state permits the active operation.
-    ///
-    /// Returns `CKR_USER_NOT_LOGGED_IN` if login is required but not satisfied.
-    pub fn check_login_status(&self) -> Result<()> {
-        match self.login_status {
-            OpLoginStatus::NotInitialized => {
-                Err(CKR_OPERATION_NOT_INITIALIZED)?
-            }
-            OpLoginStatus::NotRequired => Ok(()),
-            OpLoginStatus::Required => Err(CKR_USER_NOT_LOGGED_IN)?,
-            OpLoginStatus::LoginOk => Ok(()),
-        }
+    /// Checks if an active operation is still waiting for a login.
+    pub fn login_required(&self) -> bool {
+        self.operations
+            .login
+            .iter()
+            .any(|s| matches!(s, OpLoginStatus::Required(_)))
     }
 
     /// Gets a mutable reference to the currently active operation of type `O`.
     ///
-    /// Checks login status before returning the operation.
+    /// Returns `CKR_USER_NOT_LOGGED_IN` if this operation requires a login
+    /// that has not been performed yet.
     pub fn get_operation<O: ManageOperation + ?Sized>(
         &mut self,
     ) -> Result<&mut O> {
-        self.check_login_status()?;
+        O::check_op(&self.operations)?;
+        match O::login_status(&self.operations) {
+            OpLoginStatus::Required(_) => Err(CKR_USER_NOT_LOGGED_IN)?,
+            OpLoginStatus::NotRequired | OpLoginStatus::LoginOk => (),
+        }
         O::get_op(&mut self.operations)
     }
 
     /// Sets the active operation of type `O`.
     ///
     /// Also resets the FIPS indicator and sets the login requirement status
-    /// based on `needs_login`.
+    /// of this operation based on `needs_login`.
     pub fn set_operation<O: ManageOperation + ?Sized>(
         &mut self,
         op: Box<O>,
         needs_login: bool,
     ) {
         self.fips_indicator = None; /* FIXME: per operation ? */
-        self.login_status = if needs_login {
-            OpLoginStatus::Required
-        } else {
-            OpLoginStatus::NotRequired
-        };
-
         O::set_op(&mut self.operations, op);
+        if needs_login {
+            self.login_count += 1;
+            O::set_login_status(
+                &mut self.operations,
+                OpLoginStatus::Required(self.login_count),
+            );
+        }
     }
 
-    /// Marks the current operation's login requirement as satisfied.
+    /// Marks the login requirement of the operation that was initialized last
+    /// among those waiting for a login as satisfied.
     pub fn set_login_ok(&mut self) {
-        self.login_status = OpLoginStatus::LoginOk;
+        let last = self
+            .operations
+            .login
+            .iter_mut()
+            .filter_map(|s| match *s {
+                OpLoginStatus::Required(n) => Some((n, s)),
+                _ => None,
+            })
+            .max_by_key(|(n, _)| *n);
+        if let Some((_, status)) = last {
+            *status = OpLoginStatus::LoginOk;
+        }
     }
 
     pub fn state_size(&mut self) -> Result<usize> {
-- 
2.43.0


From 38d857335a7c9023449d1de6292543bc1a2a2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 15/94] fix: a signature of the wrong length must end the
 verification operation

---
 src/fns/signing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 023c0bc..c7bed8f 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -387,6 +387,7 @@ fn verify(
     let sig_len =
         CK_ULONG::try_from(signature_len).map_err(|_| CKR_GENERAL_ERROR)?;
     if psignature_len != sig_len {
+        session.cancel_operation::<dyn Verify>()?;
         return Err(CKR_SIGNATURE_LEN_RANGE)?;
     }
     let dlen = usize::try_from(data_len).map_err(|_| CKR_ARGUMENTS_BAD)?;
@@ -505,6 +506,7 @@ fn verify_final(
     let sig_len =
         CK_ULONG::try_from(signature_len).map_err(|_| CKR_GENERAL_ERROR)?;
     if psignature_len != sig_len {
+        session.cancel_operation::<dyn Verify>()?;
         return Err(CKR_SIGNATURE_LEN_RANGE)?;
     }
     let signature: &mut [u8] =
-- 
2.43.0


From 57f8998beb7f38ac822a6aca8241afbd7a4acb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 16/94] fix: dual-function updates with output in the input
 buffer

---
 src/fns/dualcrypto.rs | 66 +++++++++++++++++++++++++++++++++++++++++--
 src/fns/encryption.rs | 15 ++++++++--
 2 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/src/fns/dualcrypto.rs b/src/fns/dualcrypto.rs
index 73025b7..476ad72 100644
--- a/src/fns/dualcrypto.rs
+++ b/src/fns/dualcrypto.rs
@@ -8,14 +8,36 @@
 use crate::error::Result;
 use crate::fns::digest::internal_digest_update;
 use crate::fns::encryption::{
-    internal_decrypt_update, internal_encrypt_update,
+    buffers_overlap, internal_decrypt_update, internal_encrypt_update,
 };
 use crate::fns::log_debug;
 use crate::fns::signing::{internal_sign_update, internal_verify_update};
 use crate::mechanism::{Digest, Sign, Verify};
+use crate::misc::{bytes_to_vec, zeromem};
 use crate::pkcs11::*;
 use crate::STATE;
 
+/// Helper to preserve an input buffer that overlaps with the output buffer
+
+fn copy_overlapping(
+    part: CK_BYTE_PTR,
+    part_len: CK_ULONG,
+    out: CK_BYTE_PTR,
+    pul_out_len: CK_ULONG_PTR,
+) -> Result<Option<Vec<u8>>> {
+    if out.is_null() {
+        return Ok(None);
+    }
+    let plen = usize::try_from(part_len).map_err(|_| CKR_ARGUMENTS_BAD)?;
+    let outlen = unsafe { *pul_out_len as CK_ULONG };
+    let olen = usize::try_from(outlen).map_err(|_| CKR_ARGUMENTS_BAD)?;
+    if buffers_overlap(part, plen, out, olen) {
+        Ok(Some(bytes_to_vec(part, plen)))
+    } else {
+        Ok(None)
+    }
+}
+
 /// Implementation of C_DigestEncryptUpdate function
 ///
 /// Version 3.1 Specification: [https://docs.oasis-open.org/pkcs11/pkcs11-spec/v3.1/os/pkcs11-spec-v3.1-os.html#_Toc111203347](https://docs.oasis-open.org/pkcs11/pkcs11-spec/v3.1/os/pkcs11-spec-v3.1-os.html#_Toc111203347)
@@ -36,6 +58,14 @@ fn digest_encrypt_update(
 
     session.check_op::<dyn Digest>()?;
 
+    /* the encrypted part may overwrite the plaintext */
+    let mut copy = copy_overlapping(
+        part,
+        part_len,
+        encrypted_part,
+        pul_encrypted_part_len,
+    )?;
+
     internal_encrypt_update(
         &mut session,
         part,
@@ -47,7 +77,18 @@ fn digest_encrypt_update(
         return Ok(());
     }
 
-    internal_digest_update(&mut session, part, part_len)
+    match copy {
+        Some(ref mut data) => {
+            let ret = internal_digest_update(
+                &mut session,
+                data.as_mut_ptr(),
+                part_len,
+            );
+            zeromem(data);
+            ret
+        }
+        None => internal_digest_update(&mut session, part, part_len),
+    }
 }
 
 pub extern "C" fn fn_digest_encrypt_update(
@@ -163,6 +204,14 @@ fn sign_encrypt_update(
 
     session.check_op::<dyn Sign>()?;
 
+    /* the encrypted part may overwrite the plaintext */
+    let mut copy = copy_overlapping(
+        part,
+        part_len,
+        encrypted_part,
+        pul_encrypted_part_len,
+    )?;
+
     internal_encrypt_update(
         &mut session,
         part,
@@ -174,7 +223,18 @@ fn sign_encrypt_update(
         return Ok(());
     }
 
-    internal_sign_update(&mut session, part, part_len)
+    match copy {
+        Some(ref mut data) => {
+            let ret = internal_sign_update(
+                &mut session,
+                data.as_mut_ptr(),
+                part_len,
+            );
+            zeromem(data);
+            ret
+        }
+        None => internal_sign_update(&mut session, part, part_len),
+    }
 }
 
 pub extern "C" fn fn_sign_encrypt_update(
diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 5140e08..6bca0a1 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -20,6 +20,18 @@ use crate::STATE;
 #[cfg(feature = "fips")]
 use crate::{finalize_fips_approval, init_fips_approval};
 
+/// Checks if an input and an output buffer provided by the caller overlap
+
+pub(crate) fn buffers_overlap(
+    input: CK_BYTE_PTR,
+    ilen: usize,
+    output: CK_BYTE_PTR,
+    olen: usize,
+) -> bool {
+    let (i, o) = (input as usize, output as usize);
+    i < o.saturating_add(olen) && o < i.saturating_add(ilen)
+}
+
 /// Calls an update function that reads from input and writes to output.
 ///
 /// The standard allows the caller to use the same memory for the input and the
@@ -36,8 +48,7 @@ fn update_buffers<F>(
 where
     F: FnOnce(&[u8], &mut [u8]) -> Result<usize>,
 {
-    let (i, o) = (input as usize, output as usize);
-    if i < o.saturating_add(olen) && o < i.saturating_add(ilen) {
+    if buffers_overlap(input, ilen, output, olen) {
         let mut data = bytes_to_vec(input, ilen);
         let out: &mut [u8] =
             unsafe { std::slice::from_raw_parts_mut(output, olen) };
-- 
2.43.0


From 65dab49e885f82ff0d0118ca930e95365bd642f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 17/94] fix: C_FindObjectsFinal must fail when no search is
 active

---
 src/fns/objmgmt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index 4555924..c48c5fc 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -563,6 +563,7 @@ pub extern "C" fn fn_find_objects(
 fn find_objects_final(s_handle: CK_SESSION_HANDLE) -> Result<()> {
     let rstate = STATE.rlock()?;
     let mut session = rstate.get_session_mut(s_handle)?;
+    session.check_op::<dyn SearchOperation>()?;
     session.cancel_operation::<dyn SearchOperation>()
 }
 
-- 
2.43.0


From bacfc2506669bcacb23ba08778c61e30ef494e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 18/94] fix: C_GetOperationState must return
 CKR_BUFFER_TOO_SMALL

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 5a69f2d..5bb437f 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -716,7 +716,7 @@ impl Session {
         match asn1::write_single(&pdata) {
             Ok(der) => {
                 if der.len() > state.len() {
-                    Err(CKR_GENERAL_ERROR)?
+                    Err(CKR_BUFFER_TOO_SMALL)?
                 } else {
                     state[..der.len()].clone_from_slice(der.as_slice());
                     Ok(der.len())
-- 
2.43.0


From 85858e5a9742c461b0ddaad1dee7fb3f45ff6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 19/94] fix: C_SetOperationState with a null state must not
 abort

---
 src/fns/sessmgmt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index fc38a72..2b40fec 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -227,6 +227,9 @@ fn set_operation_state(
     encryption_key: CK_OBJECT_HANDLE,
     authentication_key: CK_OBJECT_HANDLE,
 ) -> Result<()> {
+    if operation_state.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     if encryption_key != CK_INVALID_HANDLE {
         return Err(CKR_KEY_NOT_NEEDED)?;
     }
-- 
2.43.0


From db156dc114134f388519cf9b29c4a66e4710b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 20/94] fix: CTS with an output buffer smaller than whole
 blocks

A buffer of exactly the announced length made C_Encrypt and C_Decrypt fail
with CKR_DEVICE_ERROR, and a buffer larger than the output but smaller than
two blocks aborted the process.
---
 src/ossl/aes.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index ca3da93..3a44738 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1350,10 +1350,15 @@ impl Encryption for AesOperation {
             }
             CKM_AES_CTS => {
                 /* CTS requires a minimum of 2 blocks to perform stealing
+                 * and the OpenSSL wrapper requires room for whole blocks,
                  * so if the output is smaller we need to use a support buffer
                  * to call into OpenSSL */
-                if cipher.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                let room = std::cmp::max(
+                    AES_BLOCK_SIZE * 2,
+                    plain.len().next_multiple_of(AES_BLOCK_SIZE),
+                );
+                if cipher.len() < room {
+                    let mut buffer = vec![0u8; room];
                     cipher_offset =
                         ctx.update(plain, &mut buffer).or_else(|_| {
                             self.finalized = true;
@@ -1362,7 +1367,8 @@ impl Encryption for AesOperation {
                     if cipher_offset != plain.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    cipher.copy_from_slice(&buffer[..cipher_offset]);
+                    cipher[..cipher_offset]
+                        .copy_from_slice(&buffer[..cipher_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     plain_offset = plain_end;
@@ -1817,10 +1823,15 @@ impl Decryption for AesOperation {
             }
             CKM_AES_CTS => {
                 /* CTS requires a minimum of 2 blocks to perform stealing
+                 * and the OpenSSL wrapper requires room for whole blocks,
                  * so if the output is smaller we need to use a support buffer
                  * to call into OpenSSL */
-                if plain.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                let room = std::cmp::max(
+                    AES_BLOCK_SIZE * 2,
+                    cipher.len().next_multiple_of(AES_BLOCK_SIZE),
+                );
+                if plain.len() < room {
+                    let mut buffer = vec![0u8; room];
                     plain_offset =
                         ctx.update(cipher, &mut buffer).or_else(|_| {
                             self.finalized = true;
@@ -1829,7 +1840,8 @@ impl Decryption for AesOperation {
                     if plain_offset != cipher.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    plain.copy_from_slice(&buffer[..plain_offset]);
+                    plain[..plain_offset]
+                        .copy_from_slice(&buffer[..plain_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     cipher_offset = cipher_end;
-- 
2.43.0


From a4cfeb469d4841b4424e024a13253b07ef0ebb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 21/94] fix: C_DecryptFinal length convention for
 CKM_AES_CBC_PAD

The length query returned 0 although the last block is yet to be returned,
and a buffer that is too small terminated the operation with
CKR_ENCRYPTED_DATA_INVALID.
---
 src/ossl/aes.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 3a44738..249fffc 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1886,6 +1886,11 @@ impl Decryption for AesOperation {
             None => return Err(self.op_err(CKR_GENERAL_ERROR)),
         };
 
+        if self.mech == CKM_AES_CBC_PAD && plain.len() < AES_BLOCK_SIZE {
+            /* This is the only, non-fatal error */
+            return Err(error::Error::buf_too_small(AES_BLOCK_SIZE));
+        }
+
         self.finalized = true;
 
         #[cfg(feature = "fips")]
@@ -1988,7 +1993,8 @@ impl Decryption for AesOperation {
                     if (self.buffer.len() + data_len) % AES_BLOCK_SIZE != 0 {
                         return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
                     }
-                    self.buffer.len() + data_len
+                    /* the last block is always withheld by update */
+                    std::cmp::max(self.buffer.len() + data_len, AES_BLOCK_SIZE)
                 }
                 CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
                     if data_len % AES_KWP_BLOCK != 0 {
-- 
2.43.0


From c08bd891240aee51a54aaca227030da29790c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 22/94] fix: C_DecryptUpdate length query for CKM_AES_CCM

Querying the length for a part shorter than the tag terminated the
operation, and for longer parts returned less than the call demands.
---
 src/ossl/aes.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 249fffc..5e9a518 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2006,12 +2006,8 @@ impl Decryption for AesOperation {
             }
         } else {
             match self.mech {
-                CKM_AES_CCM => {
-                    if self.buffer.len() + data_len < self.params.taglen {
-                        return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
-                    }
-                    self.buffer.len() + data_len - self.params.taglen
-                }
+                /* update always requires what will be ultimately needed */
+                CKM_AES_CCM => self.params.datalen,
                 CKM_AES_GCM => {
                     if self.buffer.len() + data_len < self.params.taglen {
                         0
-- 
2.43.0


From 5e91451f1b59dda0b8aa2aecbfa5fbf9fca8cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 23/94] fix: refuse one-shot AES calls after a multi-part
 update

C_Encrypt/C_Decrypt after C_EncryptUpdate/C_DecryptUpdate silently
continued the multi-part operation instead of failing.
---
 src/ossl/aes.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 5e9a518..4bbbbba 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1200,7 +1200,7 @@ impl Encryption for AesOperation {
     /// Internally calls [AesOperation::encrypt_update] and
     /// [AesOperation::encrypt_final]
     fn encrypt(&mut self, plain: &[u8], cipher: &mut [u8]) -> Result<usize> {
-        if self.finalized {
+        if self.finalized || self.in_use {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         /* check upfront, or data would be consumed by update when the final
@@ -1226,8 +1226,6 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
-        self.in_use = true;
-
         let mut outlen = self.encryption_len(plain.len(), false)?;
         match self.mech {
             CKM_AES_CTS => {
@@ -1276,6 +1274,7 @@ impl Encryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.in_use = true;
 
         match self.mech {
             CKM_AES_CTR => self.ctrbytes += plain.len() as u128,
@@ -1579,9 +1578,13 @@ impl Decryption for AesOperation {
     /// Internally calls [AesOperation::decrypt_update] and
     /// [AesOperation::decrypt_final]
     fn decrypt(&mut self, cipher: &[u8], plain: &mut [u8]) -> Result<usize> {
-        if self.finalized {
+        if self.finalized || self.in_use {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        if self.mech == CKM_AES_CBC_PAD && cipher.len() == 0 {
+            /* there is always at least one block of padding */
+            return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
+        }
         let outl = self.decrypt_update(cipher, plain)?;
         if outl > plain.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
@@ -1638,7 +1641,6 @@ impl Decryption for AesOperation {
             }
             _ => (),
         }
-        self.in_use = true;
 
         let outlen = match self.mech {
             CKM_AES_CCM => {
@@ -1683,6 +1685,7 @@ impl Decryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.in_use = true;
 
         match self.mech {
             CKM_AES_CTR => self.ctrbytes += cipher.len() as u128,
-- 
2.43.0


From 1c1a79270d43ceb36d2fb1ae60b760d1d4bc9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 24/94] fix: length query for CKM_RSA_X_509 encryption and
 decryption

---
 src/ossl/rsa.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index e009014..de85d58 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -622,7 +622,9 @@ impl Encryption for RsaPKCSOperation {
 
     fn encryption_len(&mut self, _: usize, _: bool) -> Result<usize> {
         match self.mech {
-            CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => Ok(self.output_len),
+            CKM_RSA_X_509 | CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => {
+                Ok(self.output_len)
+            }
             _ => Err(CKR_GENERAL_ERROR)?,
         }
     }
@@ -698,7 +700,9 @@ impl Decryption for RsaPKCSOperation {
 
     fn decryption_len(&mut self, _: usize, _: bool) -> Result<usize> {
         match self.mech {
-            CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => Ok(self.output_len),
+            CKM_RSA_X_509 | CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => {
+                Ok(self.output_len)
+            }
             _ => Err(CKR_GENERAL_ERROR)?,
         }
     }
-- 
2.43.0


From 741edf0912edfce0efa8d9a81d259c672d380291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 25/94] fix: zero length output buffer in RSA C_Encrypt and
 C_Decrypt

A non-null buffer of zero bytes was taken for a length query: the call
returned CKR_OK with a length larger than the buffer and no data.
---
 src/ossl/rsa.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index de85d58..349e9cd 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -548,7 +548,7 @@ impl RsaPKCSOperation {
         info: &CK_MECHANISM_INFO,
     ) -> Result<Vec<u8>> {
         let mut op = Self::decrypt_new(mech, wrapping_key, info)?;
-        let outlen = op.decrypt(data, &mut [])?;
+        let outlen = op.decryption_len(data.len(), true)?;
         let mut result = vec![0u8; outlen];
         let outlen = op.decrypt(data, result.as_mut_slice())?;
         result.resize(outlen, 0);
@@ -584,12 +584,8 @@ impl Encryption for RsaPKCSOperation {
 
         let len = if let Some(ctx) = &mut self.encctx {
             let outlen = ctx.encrypt(plain, None)?;
-            if cipher.len() == 0 {
-                return Ok(outlen);
-            } else {
-                if cipher.len() < outlen {
-                    return Err(Error::buf_too_small(outlen));
-                }
+            if cipher.len() < outlen {
+                return Err(Error::buf_too_small(outlen));
             }
 
             self.finalized = true;
@@ -644,10 +640,6 @@ impl Decryption for RsaPKCSOperation {
 
         let len = if let Some(ctx) = &mut self.encctx {
             let mut outlen = ctx.decrypt(cipher, None)?;
-            if plain.len() == 0 {
-                return Ok(outlen);
-            }
-
             if plain.len() < outlen && plain.len() < self.output_len {
                 return Err(CKR_BUFFER_TOO_SMALL)?;
             }
-- 
2.43.0


From ccc221bcc66ba26f296a5e6f44221a7785084d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 26/94] fix: RSA OAEP with a key too small for the hash must
 fail cleanly

---
 src/ossl/rsa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index 349e9cd..2d0897b 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -268,7 +268,9 @@ impl RsaPKCSOperation {
                     mech.get_parameters::<CK_RSA_PKCS_OAEP_PARAMS>()?;
                 let hs = Self::hash_len(params.hashAlg)?;
 
-                Ok(modulus - 2 * hs - 2)
+                Ok(modulus
+                    .checked_sub(2 * hs + 2)
+                    .ok_or(CKR_KEY_SIZE_RANGE)?)
             }
             _ => Ok(0),
         }
-- 
2.43.0


From 460fa1e45987f2c6c427f8b673d6a53c7a9c2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 27/94] fix: zero length output buffer in C_WrapKey

A non-null buffer of zero bytes was taken for a length query: the call
returned CKR_OK with a length larger than the buffer and no data.
---
 src/fns/keymgmt.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 4034047..bdfe85a 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -312,9 +312,14 @@ fn wrap_key(
             usize::try_from(pwraplen).map_err(|_| CKR_ARGUMENTS_BAD)?;
         unsafe { std::slice::from_raw_parts_mut(wrapped_key, wraplen) }
     };
+    let available = wrapped.len();
     let outlen = match mech.wrap_key(&mechanism, &wkey, &key, wrapped, factory)
     {
         Ok(len) => {
+            /* mechanisms take an empty buffer for a length query */
+            if !wrapped_key.is_null() && len > available {
+                return Err(CKR_BUFFER_TOO_SMALL)?;
+            }
             #[cfg(feature = "fips")]
             session.set_fips_indicator(fips::indicators::is_approved(
                 mechanism.mechanism,
-- 
2.43.0


From 0cda4369b2dc1fc33322aca63dfb4cc3c560e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 28/94] fix: the SO must not reach private token objects

---
 src/token.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index 8c7ce83..403d662 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -546,7 +546,7 @@ impl Token {
             Some(o) => o.clone(),
             None => self.storage.fetch(&self.facilities, o_handle, &[])?,
         };
-        if !self.is_logged_in(KRY_UNSPEC) && obj.is_token() && obj.is_private()
+        if !self.is_logged_in(CKU_USER) && obj.is_token() && obj.is_private()
         {
             return Err(CKR_USER_NOT_LOGGED_IN)?;
         }
@@ -576,7 +576,7 @@ impl Token {
     ) -> Result<CK_OBJECT_HANDLE> {
         let handle: CK_OBJECT_HANDLE;
         if obj.is_token() {
-            if !self.is_logged_in(KRY_UNSPEC) {
+            if !self.can_write_token_object(&obj) {
                 return Err(CKR_USER_NOT_LOGGED_IN)?;
             }
             handle = self.storage.store(&mut self.facilities, obj)?;
@@ -591,6 +591,16 @@ impl Token {
         Ok(handle)
     }
 
+    /// Checks whether the current login state allows to store an object on
+    /// the token, private objects are accessible only to the normal user.
+    fn can_write_token_object(&self, obj: &Object) -> bool {
+        if obj.is_private() {
+            self.is_logged_in(CKU_USER)
+        } else {
+            self.is_logged_in(KRY_UNSPEC)
+        }
+    }
+
     /// Internal function to check for cert/trust object duplicates
     fn _is_duplicate(
         &mut self,
@@ -725,7 +735,7 @@ impl Token {
         let object = self.facilities.factories.create(template)?;
 
         if object.is_token() {
-            if !self.is_logged_in(KRY_UNSPEC) {
+            if !self.can_write_token_object(&object) {
                 return Err(CKR_USER_NOT_LOGGED_IN)?;
             }
 
@@ -783,7 +793,7 @@ impl Token {
         o_handle: CK_OBJECT_HANDLE,
         template: &mut [CK_ATTRIBUTE],
     ) -> Result<()> {
-        let is_logged = self.is_logged_in(KRY_UNSPEC);
+        let is_logged = self.is_logged_in(CKU_USER);
 
         /* value does not matter, only type does */
         let dnm: CK_BBOOL = CK_FALSE;
@@ -888,7 +898,7 @@ impl Token {
             _ => {
                 let o =
                     self.storage.fetch(&mut self.facilities, o_handle, &[])?;
-                if !self.is_logged_in(KRY_UNSPEC) && o.is_private() {
+                if !self.is_logged_in(CKU_USER) && o.is_private() {
                     return Err(CKR_USER_NOT_LOGGED_IN)?;
                 }
                 Cow::Owned(o)
@@ -926,7 +936,7 @@ impl Token {
             }
         }
 
-        if !self.is_logged_in(KRY_UNSPEC) {
+        if !self.is_logged_in(CKU_USER) {
             tmpl.add_owned_bool(CKA_PRIVATE, CK_FALSE)?;
         }
 
-- 
2.43.0


From 4a04ff9ab9b2e1a57bf4a7584d350884518e7f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 29/94] fix: C_GetObjectSize must check access to private
 objects

---
 src/token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index 403d662..0b4f2e2 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -879,6 +879,10 @@ impl Token {
                 &[],
             )?),
         };
+        if !self.is_logged_in(CKU_USER) && obj.is_token() && obj.is_private() {
+            /* do not reveal if the object exists or not */
+            return Err(CKR_OBJECT_HANDLE_INVALID)?;
+        }
         obj.rough_size()
     }
 
-- 
2.43.0


From 17df960702295e6ad0e5c58c19397bf219d4bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 30/94] fix: report failures to remove a token object

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 0b4f2e2..f670eb3 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -774,7 +774,7 @@ impl Token {
                 if !obj.is_destroyable() {
                     return Err(CKR_ACTION_PROHIBITED)?;
                 }
-                let _ = self.storage.remove(&self.facilities, o_handle);
+                self.storage.remove(&self.facilities, o_handle)?;
             }
         }
         self.facilities.handles.remove(o_handle);
-- 
2.43.0


From 40cc9b9150e243a0d9d55484fb7aabfa57ded563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 31/94] fix: do not leave a handle behind when storing an
 object fails

---
 src/storage/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index 611150b..f29a794 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -361,11 +361,11 @@ impl Storage for StdStorageFormat {
         }
 
         let mut handle = obj.get_handle();
+        self.store.store_obj(obj)?;
         if handle == CK_INVALID_HANDLE {
             handle = facilities.handles.next();
             facilities.handles.insert(handle, uid)?;
         }
-        self.store.store_obj(obj)?;
         Ok(handle)
     }
 
-- 
2.43.0


From 51900954ebaee898bab454296919c719ba58e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 32/94] fix: refuse to copy a token object through a read only
 session

---
 src/fns/objmgmt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index c48c5fc..3f9c9ee 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -146,6 +146,13 @@ fn copy_object(
     }
     let slot_id = session.get_slot_id();
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+    if !session.is_writable()
+        && !tmpl.iter().any(|a| a.type_ == CKA_TOKEN)
+        && token.get_object_by_handle(o_handle)?.is_token()
+    {
+        /* the copy would inherit CKA_TOKEN from the original */
+        return Err(CKR_SESSION_READ_ONLY)?;
+    }
 
     /* TODO: return CKR_ACTION_PROHIBITED instead of CKR_USER_NOT_LOGGED_IN ? */
     let oh = token.copy_object(s_handle, o_handle, tmpl)?;
-- 
2.43.0


From a49bdb89edb05db02eccee5e21c8eb8a1add182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 33/94] fix: refuse reserved attributes in generate, unwrap and
 derive templates

---
 src/object/factory.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 4d74146..431698e 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -121,6 +121,11 @@ impl ObjectAttr {
         self.attribute.get_type()
     }
 
+    /// Check if any of the specified flags is present on the ObjectAttr
+    pub fn is_any(&self, val: OAFlags) -> bool {
+        self.flags.intersects(val)
+    }
+
     /// Check if a specific flag is present on the ObjectAttr
     pub fn is(&self, val: OAFlags) -> bool {
         if val.is_empty() {
@@ -323,7 +328,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
-                    if attr.is(unacceptable_flags) {
+                    if attr.is_any(unacceptable_flags) {
                         return Err(CKR_ATTRIBUTE_TYPE_INVALID)?;
                     }
                     /* duplicate? */
-- 
2.43.0


From f55372058673be873be394191b821f81c734ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 34/94] fix: C_CopyObject must not change reserved attributes
 or key material

---
 src/object/factory.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 431698e..4fdf0fe 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -413,6 +413,11 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
+                    if attr.is_any(
+                        OAFlags::NeverSettable | OAFlags::SettableOnlyOnCreate,
+                    ) {
+                        return Err(CKR_ATTRIBUTE_READ_ONLY)?;
+                    }
                     if attr.is(OAFlags::Unchangeable) {
                         if attr
                             .is(OAFlags::ChangeToFalse | OAFlags::ChangeToTrue)
-- 
2.43.0


From 82444cd133f3b0bdf13b22ae02157e8b8fa1f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 35/94] fix: object class, key type and key material must not
 be modifiable

---
 src/aes.rs            | 2 +-
 src/hotp.rs           | 4 ++--
 src/object/certs.rs   | 2 +-
 src/object/factory.rs | 5 ++++-
 src/object/key.rs     | 7 ++++---
 5 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index d51d0ae..93511b9 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -113,7 +113,7 @@ impl AesKeyFactory {
             | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate;
+            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
 
         factory.data.finalize();
diff --git a/src/hotp.rs b/src/hotp.rs
index 3047024..6fa3be8 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -71,8 +71,8 @@ impl HOTPKeyFactory {
             | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
             val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_LEN; OAFlags::Defval; Attribute::from_ulong;
-            val 20));
+            CKA_VALUE_LEN; OAFlags::Defval | OAFlags::Unchangeable;
+            Attribute::from_ulong; val 20));
 
         /* default to true CKA_PRIVATE, CKA_SIGN, CKA_VERIFY */
         let private = attr_element!(
diff --git a/src/object/certs.rs b/src/object/certs.rs
index 9d47268..62776a8 100644
--- a/src/object/certs.rs
+++ b/src/object/certs.rs
@@ -24,7 +24,7 @@ pub trait CertFactory: ObjectFactory {
         self.add_common_storage_attrs(false);
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_CERTIFICATE_TYPE; OAFlags::AlwaysRequired;
+            CKA_CERTIFICATE_TYPE; OAFlags::AlwaysRequired | OAFlags::Unchangeable;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
             CKA_TRUSTED; OAFlags::Defval; Attribute::from_bool;
diff --git a/src/object/factory.rs b/src/object/factory.rs
index 4fdf0fe..47dae09 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -270,7 +270,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
     fn add_common_object_attrs(&mut self) {
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_CLASS; OAFlags::RequiredOnCreate;
+            CKA_CLASS; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
             CKA_UNIQUE_ID; OAFlags::NeverSettable | OAFlags::Unchangeable;
@@ -500,6 +500,9 @@ pub trait ObjectFactory: Debug + Send + Sync {
                     if attr.is(OAFlags::NeverSettable) {
                         return Err(CKR_ACTION_PROHIBITED)?;
                     }
+                    if attr.is(OAFlags::SettableOnlyOnCreate) {
+                        return Err(CKR_ATTRIBUTE_READ_ONLY)?;
+                    }
                     if attr.is(OAFlags::Unchangeable) {
                         if attr.attribute.get_attrtype() == AttrType::BoolType {
                             let val = ck_attr.to_bool()?;
diff --git a/src/object/key.rs b/src/object/key.rs
index ade2b24..e55b9ac 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -25,7 +25,8 @@ pub trait KeyFactory: ObjectFactory {
         self.add_common_storage_attrs(private);
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_KEY_TYPE; OAFlags::RequiredOnCreate; Attribute::from_ulong;
+            CKA_KEY_TYPE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
+            Attribute::from_ulong;
             val CK_UNAVAILABLE_INFORMATION));
         attrs.push(attr_element!(
             CKA_ID; OAFlags::empty(); Attribute::from_bytes;
@@ -531,8 +532,8 @@ impl GenericSecretKeyFactory {
             | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
             val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate; Attribute::from_bytes;
-            val Vec::new()));
+            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
 
         /* default to private */
         let private = attr_element!(
-- 
2.43.0


From 726110385e79cc4e3a46621b5519884700a1e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 36/94] fix: a refused C_SetAttributeValue must not change the
 object

---
 src/object/factory.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 47dae09..908a64b 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -542,9 +542,15 @@ pub trait ObjectFactory: Debug + Send + Sync {
         /* first check that all attributes can be changed */
         self.check_set_attributes(template)?;
 
+        /* ensure all values can be parsed before changing anything */
+        let attrs = template
+            .iter()
+            .map(|a| Attribute::from_ck_attr(a))
+            .collect::<Result<Vec<Attribute>>>()?;
+
         /* if checks clear out, apply changes */
-        for ck_attr in template {
-            obj.set_attr(Attribute::from_ck_attr(ck_attr)?)?;
+        for attr in attrs {
+            obj.set_attr(attr)?;
         }
 
         Ok(())
-- 
2.43.0


From 91d30c7cdc773c6703e03d69e3430106a536be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 37/94] fix: DH private values are sensitive

---
 src/ffdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffdh.rs b/src/ffdh.rs
index 4e8d868..d91d38c 100644
--- a/src/ffdh.rs
+++ b/src/ffdh.rs
@@ -191,7 +191,7 @@ impl FFDHPrivFactory {
             CKA_BASE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE; OAFlags::RequiredOnCreate
+            CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
             | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-- 
2.43.0


From 1911e7d19bbdeb0de7f87b7b7e269e1d8ec4fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 38/94] fix: key material stays unmodifiable, the HOTP counter
 still advances

---
 src/aes.rs            | 4 ++--
 src/hotp.rs           | 4 ++--
 src/object/factory.rs | 3 ---
 src/object/key.rs     | 4 ++--
 4 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index 93511b9..fc720d4 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -110,8 +110,8 @@ impl AesKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Defval | OAFlags::Sensitive
-            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate;
-            Attribute::from_bytes; val Vec::new()));
+            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate
+            | OAFlags::Unchangeable; Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_VALUE_LEN; OAFlags::RequiredOnGenerate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
diff --git a/src/hotp.rs b/src/hotp.rs
index 6fa3be8..308490d 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -68,8 +68,8 @@ impl HOTPKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_VALUE_LEN; OAFlags::Defval | OAFlags::Unchangeable;
             Attribute::from_ulong; val 20));
diff --git a/src/object/factory.rs b/src/object/factory.rs
index 908a64b..37d28b7 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -500,9 +500,6 @@ pub trait ObjectFactory: Debug + Send + Sync {
                     if attr.is(OAFlags::NeverSettable) {
                         return Err(CKR_ACTION_PROHIBITED)?;
                     }
-                    if attr.is(OAFlags::SettableOnlyOnCreate) {
-                        return Err(CKR_ATTRIBUTE_READ_ONLY)?;
-                    }
                     if attr.is(OAFlags::Unchangeable) {
                         if attr.attribute.get_attrtype() == AttrType::BoolType {
                             let val = ck_attr.to_bool()?;
diff --git a/src/object/key.rs b/src/object/key.rs
index e55b9ac..05347d8 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -529,8 +529,8 @@ impl GenericSecretKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_VALUE_LEN; OAFlags::RequiredOnGenerate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
-- 
2.43.0


From b82eb4d63ebc009da982662bb2fe0d61809a1f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 39/94] fix: nssdb: implement the removal of objects

---
 src/storage/nssdb/mod.rs | 51 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index ce6db84..6e120b8 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -982,6 +982,19 @@ impl NSSStorage {
         Self::save_metadata(tx, &name, val, &[])
     }
 
+    /// Removes the signature for an authenticated attribute from the metadata
+    /// table within a transaction.
+    fn remove_signature(
+        tx: &mut Transaction,
+        dbtype: &str,
+        nssobjid: u32,
+        atype: CK_ULONG,
+    ) -> Result<()> {
+        let name = format!("sig_{}_{:08x}_{:08x}", dbtype, nssobjid, atype);
+        tx.execute("DELETE FROM metaData WHERE id = ?", params![name])?;
+        Ok(())
+    }
+
     /// Updates attributes of an existing object in the specified table within
     /// a transaction.
     ///
@@ -1418,13 +1431,43 @@ impl Storage for NSSStorage {
         Ok(result)
     }
 
-    /// Removes an object by handle (currently not supported for NSS DB).
+    /// Removes an object, and the signatures of its authenticated attributes,
+    /// by handle.
     fn remove(
         &mut self,
-        _facilities: &TokenFacilities,
-        _handle: CK_OBJECT_HANDLE,
+        facilities: &TokenFacilities,
+        handle: CK_OBJECT_HANDLE,
     ) -> Result<()> {
-        Err(CKR_FUNCTION_NOT_SUPPORTED)?
+        let nssid = match facilities.handles.get(handle) {
+            Some(id) => id,
+            None => return Err(CKR_OBJECT_HANDLE_INVALID)?,
+        };
+        let (table, nssobjid) = nss_id_parse(nssid)?;
+
+        if !self.keys.available() {
+            return Err(CKR_USER_NOT_LOGGED_IN)?;
+        }
+
+        let mut conn = self.conn.lock()?;
+        let mut tx = conn.transaction()?;
+        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        tx.execute(
+            &format!("DELETE FROM {} WHERE id = ?", table),
+            params![nssobjid],
+        )?;
+        for attr_info in ALL_ATTRIBUTES.iter().filter(|a| a.authenticated) {
+            Self::remove_signature(
+                &mut tx,
+                if table == NSS_PUBLIC_TABLE {
+                    "cert"
+                } else {
+                    "key"
+                },
+                nssobjid,
+                attr_info.attr_type,
+            )?;
+        }
+        Ok(tx.commit()?)
     }
 
     /// Loads the token info (derived from configuration and DB state).
-- 
2.43.0


From 1aa1349f48ca092e4837209fe3dd03c0f6a3a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 40/94] fix: searches must not match sensitive attributes of
 unextractable keys

---
 src/storage/format.rs | 2 +-
 src/token.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index f29a794..ae62f31 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -430,7 +430,7 @@ impl Storage for StdStorageFormat {
         let mut objects = self.store.search(template)?;
         let mut result = Vec::<CK_OBJECT_HANDLE>::with_capacity(objects.len());
         for mut obj in objects.drain(..) {
-            if obj.is_sensitive() {
+            if obj.is_sensitive() || !obj.is_extractable() {
                 obj.set_zeroize();
                 match facilities.factories.check_sensitive(&obj, template) {
                     Err(_) => continue,
diff --git a/src/token.rs b/src/token.rs
index f670eb3..6297ae6 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -929,7 +929,7 @@ impl Token {
 
         /* First add internal session objects */
         for (_, o) in &self.session_objects {
-            if o.is_sensitive() {
+            if o.is_sensitive() || !o.is_extractable() {
                 match self.facilities.factories.check_sensitive(o, template) {
                     Err(_) => continue,
                     Ok(()) => (),
-- 
2.43.0


From 01d0882faddeb6fe1885ce77836b72c534735123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 41/94] fix: unset dates are found in the sqlite storage

---
 src/storage/sqlite.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/storage/sqlite.rs b/src/storage/sqlite.rs
index da54f1b..c88ae23 100644
--- a/src/storage/sqlite.rs
+++ b/src/storage/sqlite.rs
@@ -503,9 +503,12 @@ impl StorageRaw for SqliteStorage {
                     }
                     v
                 }),
-                AttrType::DateType => {
-                    Value::from(Attribute::from_ck_attr(a)?.to_date_string()?)
-                }
+                AttrType::DateType => Value::from(if a.to_slice()?.len() == 0 {
+                    /* unset dates are stored as an empty string */
+                    String::new()
+                } else {
+                    Attribute::from_ck_attr(a)?.to_date_string()?
+                }),
                 AttrType::DenyType | AttrType::IgnoreType => {
                     return Err(CKR_ATTRIBUTE_TYPE_INVALID)?
                 }
-- 
2.43.0


From bc014a7b78f7a3c56f55a4a23a9384ce8ba0c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 42/94] fix: unwrapped keys were not always sensitive nor never
 extractable

---
 src/object/key.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/object/key.rs b/src/object/key.rs
index 05347d8..5d7ca13 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -122,12 +122,19 @@ pub trait KeyFactory: ObjectFactory {
     /// Default key object unwrapping function
     ///
     /// Uses `internal_key_create()` with appropriate flags.
+    ///
+    /// Sets the values of [CKA_ALWAYS_SENSITIVE] and
+    /// [CKA_NEVER_EXTRACTABLE] required by spec: the key existed
+    /// outside of the token.
     fn key_unwrap(&self, template: &[CK_ATTRIBUTE]) -> Result<Object> {
-        self.internal_key_create(
+        let mut obj = self.internal_key_create(
             template,
             OAFlags::SettableOnlyOnCreate | OAFlags::NeverSettable,
             OAFlags::AlwaysRequired,
-        )
+        )?;
+        obj.set_attr(Attribute::from_bool(CKA_ALWAYS_SENSITIVE, false))?;
+        obj.set_attr(Attribute::from_bool(CKA_NEVER_EXTRACTABLE, false))?;
+        Ok(obj)
     }
 
     /// The internal key object derivation function
-- 
2.43.0


From 19c382c860b91b02adc4bd0214317c5b46da0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 43/94] fix: roll back partial key creation of undestroyable
 keys

---
 src/fns/keymgmt.rs |  8 ++++----
 src/token.rs       | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index bdfe85a..ca55bb4 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -200,7 +200,7 @@ fn generate_key_pair(
                     Ok(())
                 }
                 Err(e) => {
-                    let _ = token.destroy_object(pubh);
+                    let _ = token.discard_object(pubh);
                     Err(e)?
                 }
             }
@@ -700,9 +700,9 @@ fn derive_key(
                         Ok(h) => ah.push(h),
                         Err(e) => {
                             for h in ah {
-                                let _ = token.destroy_object(h);
+                                let _ = token.discard_object(h);
                             }
-                            let _ = token.destroy_object(kh);
+                            let _ = token.discard_object(kh);
                             return Err(e)?;
                         }
                     }
@@ -739,7 +739,7 @@ fn derive_key(
                     Ok(h) => ah.push(h),
                     Err(e) => {
                         for h in ah {
-                            let _ = token.destroy_object(h);
+                            let _ = token.discard_object(h);
                         }
                         return Err(e)?;
                     }
diff --git a/src/token.rs b/src/token.rs
index 6297ae6..43b1391 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -781,6 +781,16 @@ impl Token {
         Ok(())
     }
 
+    /// Removes an object that was just inserted by an operation that
+    /// ultimately failed, regardless of the CKA_DESTROYABLE attribute.
+    pub fn discard_object(&mut self, o_handle: CK_OBJECT_HANDLE) -> Result<()> {
+        if self.session_objects.remove(&o_handle).is_none() {
+            self.storage.remove(&self.facilities, o_handle)?;
+        }
+        self.facilities.handles.remove(o_handle);
+        Ok(())
+    }
+
     /// Retrieves specified attributes for an object identified by its handle.
     ///
     /// Checks session cache then storage. Performs login checks. Uses the
-- 
2.43.0


From 2aa9768f9ade03cccd643b97c1996a7a198968db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:18 +0000
Subject: [PATCH 44/94] fix: nssdb: restore CK_UNAVAILABLE_INFORMATION when
 reading numbers

---
 src/storage/nssdb/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 6e120b8..518c07a 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -546,7 +546,12 @@ impl NSSStorage {
                                 }
                             };
                             let number = u32::from_be_bytes(bytes);
-                            number as CK_ULONG
+                            /* u32::MAX stands for ULONG::MAX on disk */
+                            if number == u32::MAX {
+                                CK_UNAVAILABLE_INFORMATION
+                            } else {
+                                number as CK_ULONG
+                            }
                         };
                         Attribute::from_attr_slice(
                             cols[i],
-- 
2.43.0


From 880e7c5a2a7834657ac30720651f663a95f0c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:11 +0000
Subject: [PATCH 45/94] fix: nssdb: never return encrypted data as the value of
 a key

---
 src/storage/nssdb/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 518c07a..d473109 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1213,6 +1213,14 @@ impl Storage for NSSStorage {
                     sdbtype,
                 )?;
             }
+        } else if table == NSS_PRIVATE_TABLE {
+            /* never pass encrypted data as if it were the actual value */
+            if ALL_ATTRIBUTES
+                .iter()
+                .any(|a| a.sensitive && obj.get_attr(a.attr_type).is_some())
+            {
+                return Err(CKR_USER_NOT_LOGGED_IN)?;
+            }
         }
         /* add back the attributes that we requested, but that do not exist in DB */
         for a_info in ALL_ATTRIBUTES.iter().filter(|a| a.skippable) {
-- 
2.43.0


From 8fbdf205ff376b8af7edaf4b7740270548f46ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:11 +0000
Subject: [PATCH 46/94] fix: nssdb: repeated attributes in C_GetAttributeValue

---
 src/storage/nssdb/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index d473109..6ff7513 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1160,12 +1160,12 @@ impl Storage for NSSStorage {
             attrs.add_missing_ulong(CKA_SENSITIVE, &dnm);
             /* we can not query a DB for these */
             for a_info in ALL_ATTRIBUTES.iter().filter(|a| a.skippable) {
-                let _ = attrs.remove_ulong(a_info.attr_type);
+                while attrs.remove_attr(a_info.attr_type).is_some() {}
             }
             /* remove unknown attributes from query */
             for a in attributes {
                 if !is_db_attribute(a.type_) {
-                    let _ = attrs.remove_ulong(a.type_);
+                    while attrs.remove_attr(a.type_).is_some() {}
                 }
             }
             #[cfg(feature = "fips")]
-- 
2.43.0


From 5d9eeebf49bd70e4a9be66df2de60975b1b109e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:15 +0000
Subject: [PATCH 47/94] fix: setting a new PIN clears the lock flags

---
 src/token.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index 43b1391..f540be4 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -313,6 +313,9 @@ impl Token {
 
         self.storage.set_user_pin(&self.facilities, utype, pin)?;
 
+        /* a new PIN starts with a clean attempts counter */
+        self.update_auth_flags(utype, 0);
+
         if utype == CKU_USER {
             self.info.flags |= CKF_USER_PIN_INITIALIZED;
         }
-- 
2.43.0


From 8330eacd1c00cb68c2fac52578c4973885d29752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:26 +0000
Subject: [PATCH 48/94] fix: a failed C_Initialize leaves the library
 uninitialized and retryable

The configuration and the global state are now changed only once all the
slots of the configuration have been created, previously the library was
left initialized, with part of the slots, and the bad configuration stuck.
---
 src/config.rs      |  2 +-
 src/fns/general.rs | 49 +++++++++++++++++++++++-----------------------
 src/lib.rs         |  5 +++++
 3 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 266bbf4..d520d6e 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -254,7 +254,7 @@ impl Default for FipsBehavior {
 /// The main config structure is comprised of two elements, a general
 /// EC Point Encoding indicator and a list of slots
 
-#[derive(Debug, Serialize, Deserialize)]
+#[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct Config {
     /// Type of encoding for EC Public Points
     #[serde(default)]
diff --git a/src/fns/general.rs b/src/fns/general.rs
index 54c6105..cb5e227 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -19,6 +19,10 @@ use crate::STATE;
 fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
     let mut conf = crate::CONFIG.wlock()?;
 
+    /* work on a copy, the configuration is retained only if it can be
+     * applied as a whole */
+    let mut newconf = conf.clone();
+
     /* Before loading the default config see if there is a cutsom config
      * provided via reserved arg pointer */
     if !init_args.is_null() {
@@ -31,48 +35,43 @@ fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
                 Ok(s) => s,
                 Err(_) => return Err(CKR_ARGUMENTS_BAD)?,
             };
-            conf.from_init_args(init_arg)?;
+            newconf.from_init_args(init_arg)?;
         }
     }
 
-    if conf.slots.is_empty() {
+    if newconf.slots.is_empty() {
         match Config::default_config() {
-            Ok(defconf) => *conf = defconf,
+            Ok(defconf) => newconf = defconf,
             Err(_) => return Err(CKR_TOKEN_NOT_PRESENT)?,
         }
     }
 
-    conf.load_env_vars_overrides();
+    newconf.load_env_vars_overrides();
 
     let mut wstate = STATE.wlock_noinitcheck()?;
-    let mut already_init = false;
-
-    if wstate.is_initialized() {
-        already_init = true;
-    } else {
-        wstate.initialize();
-    }
+    let already_init = wstate.is_initialized();
 
     /* create slots for any new slot specified in the configuration
      * that has not been created yet, new slots can be added via
-     * init args so we check this every time */
-    for slot in &conf.slots {
+     * init args so we check this every time. Nothing is changed in the
+     * global state until all new slots have been successfully created */
+    let mut new_slots = Vec::new();
+    for slot in &newconf.slots {
         let slotnum =
             CK_SLOT_ID::try_from(slot.slot).map_err(|_| CKR_GENERAL_ERROR)?;
-        match Slot::new(slot) {
-            Ok(s) => match wstate.add_slot(slotnum, s) {
-                Ok(_) => (),
-                Err(e) => {
-                    let rv = e.rv();
-                    if rv != CKR_CRYPTOKI_ALREADY_INITIALIZED {
-                        return Err(e)?;
-                    }
-                    already_init = true;
-                }
-            },
-            Err(e) => return Err(e)?,
+        if wstate.has_slot(slotnum) {
+            continue;
         }
+        new_slots.push((slotnum, Slot::new(slot)?));
+    }
+
+    if !already_init {
+        wstate.initialize();
+    }
+    for (slotnum, slot) in new_slots {
+        wstate.add_slot(slotnum, slot)?;
     }
+    *conf = newconf;
 
     if already_init {
         return Err(CKR_CRYPTOKI_ALREADY_INITIALIZED)?;
diff --git a/src/lib.rs b/src/lib.rs
index 111a908..7e2d440 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,6 +167,11 @@ impl State {
         slotids
     }
 
+    /// Checks if a slot with this ID is already present.
+    pub(crate) fn has_slot(&self, slot_id: CK_SLOT_ID) -> bool {
+        self.slots.contains_key(&slot_id)
+    }
+
     /// Adds a new slot to the global state.
     pub(crate) fn add_slot(
         &mut self,
-- 
2.43.0


From 83be943e767acb6303636bdcd594c14de7ce789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:57 +0000
Subject: [PATCH 49/94] fix: honour ec_point_encoding in a configuration passed
 via init args

---
 src/config.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/config.rs b/src/config.rs
index d520d6e..dbc2957 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -497,6 +497,11 @@ impl Config {
     pub fn from_init_args(&mut self, args: &str) -> Result<()> {
         let conf = self.conf_from_args(args)?;
 
+        /* global options apply only if there is no configuration yet */
+        if self.slots.is_empty() {
+            self.ec_point_encoding = conf.ec_point_encoding;
+        }
+
         /* check and add slots */
         for mut slot in conf.slots {
             let mut found = false;
-- 
2.43.0


From e71414342a7ea19b58eaaf5669ce3456e506fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:57 +0000
Subject: [PATCH 50/94] fix: refuse a configuration file using a slot number or
 storage twice

Only configurations passed via the init args were checked.
---
 src/config.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index dbc2957..be2f5bc 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -409,7 +409,12 @@ impl Config {
         let filename = Self::find_conf()?;
 
         match Self::from_file(&filename) {
-            Ok(conf) => Ok(conf),
+            Ok(parsed) => {
+                let mut conf = Self::new();
+                conf.ec_point_encoding = parsed.ec_point_encoding;
+                conf.add_slots(parsed.slots)?;
+                Ok(conf)
+            }
             Err(e) => {
                 /* attempt fallback, return original error on fail */
                 match Self::from_legacy_conf_string(&filename) {
@@ -501,9 +506,13 @@ impl Config {
         if self.slots.is_empty() {
             self.ec_point_encoding = conf.ec_point_encoding;
         }
+        self.add_slots(conf.slots)
+    }
 
-        /* check and add slots */
-        for mut slot in conf.slots {
+    /// Checks and adds slots to the configuration. Neither a slot number
+    /// nor a storage can be used for more than one slot.
+    fn add_slots(&mut self, slots: Vec<Slot>) -> Result<()> {
+        for mut slot in slots {
             let mut found = false;
             /* check if it has already been loaded */
             for s in &self.slots {
-- 
2.43.0


From c45418f997e6a8bf1f7162a4ce9fcbc0f61a9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 51/94] fix: report an unreadable or invalid configuration file

When the file named by KRYOPTIC_CONF could not be parsed the legacy fallback
always succeeded with no slots at all instead of returning the error.
---
 src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index be2f5bc..fda57d5 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -418,11 +418,11 @@ impl Config {
             Err(e) => {
                 /* attempt fallback, return original error on fail */
                 match Self::from_legacy_conf_string(&filename) {
-                    Ok(mut conf) => {
+                    Ok(mut conf) if !conf.slots.is_empty() => {
                         conf.fix_slot_numbers();
                         Ok(conf)
                     }
-                    Err(_) => return Err(e),
+                    _ => return Err(e),
                 }
             }
         }
-- 
2.43.0


From 7ad9bb0e13edfaba153c3a19e3137dc007eda8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 52/94] fix: extracting a key at a byte aligned bit offset

Shifting a byte by 8 panics in debug builds, and mixes the following byte in
the derived key in release ones.
---
 src/native/simplekdf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 0ecf0e7..aee0596 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -344,9 +344,11 @@ impl Derive for SimpleKDFOperation {
                     let first_half = base_key_info.value
                         [(base_byte + i) % outlen]
                         << bit_shift;
+                    /* there is no second half when byte aligned */
                     let second_half = base_key_info.value
                         [(base_byte + i + 1) % outlen]
-                        >> (8 - bit_shift);
+                        .checked_shr(8 - bit_shift as u32)
+                        .unwrap_or(0);
                     secret[i] = first_half | second_half;
                 }
             }
-- 
2.43.0


From 0c80889c550adf210e17383dc9dbd88edfa63a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 53/94] fix: huge key length or bit offset overflows in key
 extraction

---
 src/native/simplekdf.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index aee0596..d32184a 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -278,10 +278,9 @@ impl Derive for SimpleKDFOperation {
         if self.mech == CKM_EXTRACT_KEY_FROM_KEY {
             let bit_offset =
                 self.bit_offset.ok_or(CKR_MECHANISM_PARAM_INVALID)?;
-            let required_bits = keylen * 8;
             let available_bits = base_key_info.value.len() * 8;
-            if (required_bits > available_bits)
-                || (bit_offset + 7) / 8 > available_bits as CK_ULONG
+            if (keylen > base_key_info.value.len())
+                || bit_offset.div_ceil(8) > available_bits as CK_ULONG
             {
                 return Err(CKR_TEMPLATE_INCONSISTENT)?;
             }
-- 
2.43.0


From 799bc714a2e740f58476d7d5f7e67c0c561dd845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 54/94] fix: check class and type of wrapping and unwrapping
 keys

---
 src/aes.rs | 12 ++++++++++++
 src/rsa.rs |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index fc720d4..5c86d9b 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -231,6 +231,16 @@ impl SecretKeyFactory for AesKeyFactory {
     }
 }
 
+/// Checks that a key can be used to wrap or unwrap other keys with AES
+///
+/// Beyond AES keys, generic secrets of a suitable length are accepted too.
+fn check_wrapping_key(key: &Object, op: CK_ATTRIBUTE_TYPE) -> Result<()> {
+    match key.check_key_ops(CKO_SECRET_KEY, CKK_GENERIC_SECRET, op) {
+        Ok(()) => Ok(()),
+        Err(_) => key.check_key_ops(CKO_SECRET_KEY, CKK_AES, op),
+    }
+}
+
 /// The Generic AES Mechanism object
 ///
 /// Implements access to the Mechanisms functions applicable to the AES
@@ -334,6 +344,7 @@ impl Mechanism for AesMechanism {
         if self.info.flags & CKF_WRAP != CKF_WRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        check_wrapping_key(wrapping_key, CKA_WRAP)?;
         AesOperation::wrap(
             mech,
             wrapping_key,
@@ -358,6 +369,7 @@ impl Mechanism for AesMechanism {
         if self.info.flags & CKF_UNWRAP != CKF_UNWRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        check_wrapping_key(wrapping_key, CKA_UNWRAP)?;
         let keydata = AesOperation::unwrap(mech, wrapping_key, data)?;
         key_template
             .as_key_factory()?
diff --git a/src/rsa.rs b/src/rsa.rs
index c52608b..5d71784 100644
--- a/src/rsa.rs
+++ b/src/rsa.rs
@@ -745,6 +745,7 @@ impl Mechanism for RsaPKCSMechanism {
         if self.info.flags & CKF_WRAP != CKF_WRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        wrapping_key.check_key_ops(CKO_PUBLIC_KEY, CKK_RSA, CKA_WRAP)?;
         RsaPKCSOperation::wrap(
             mech,
             wrapping_key,
@@ -774,6 +775,7 @@ impl Mechanism for RsaPKCSMechanism {
         if self.info.flags & CKF_UNWRAP != CKF_UNWRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        wrapping_key.check_key_ops(CKO_PRIVATE_KEY, CKK_RSA, CKA_UNWRAP)?;
         let keydata =
             RsaPKCSOperation::unwrap(mech, wrapping_key, data, &self.info)?;
         key_template
-- 
2.43.0


From 84d7ed321816d4e1b2d076f9d4616e7dbed6ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 55/94] fix: CBC key derivation used its IV after it was freed

---
 src/aes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index 5c86d9b..38626ec 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -549,7 +549,7 @@ impl Mechanism for AesMechanism {
 struct AesKDFOperation<'a> {
     mech: CK_MECHANISM_TYPE,
     finalized: bool,
-    iv: &'a [u8],
+    iv: Vec<u8>,
     data: &'a [u8],
     #[cfg(feature = "fips")]
     fips_approved: Option<bool>,
@@ -579,7 +579,7 @@ impl AesKDFOperation<'_> {
         Ok(AesKDFOperation {
             mech: CKM_AES_ECB,
             finalized: false,
-            iv: &[],
+            iv: Vec::new(),
             data: unsafe {
                 std::slice::from_raw_parts(
                     params.pData,
@@ -604,7 +604,7 @@ impl AesKDFOperation<'_> {
         Ok(AesKDFOperation {
             mech: CKM_AES_CBC,
             finalized: false,
-            iv: unsafe { std::slice::from_raw_parts(params.iv.as_ptr(), 16) },
+            iv: params.iv.to_vec(),
             data: unsafe {
                 std::slice::from_raw_parts(
                     params.pData,
-- 
2.43.0


From 2777fe2a87a6f03562befb8834978ce8fed237b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 56/94] fix: SP800-108 output length field is in bits and of
 the asked width

---
 src/native/sp800_108.rs | 91 +++++------------------------------------
 1 file changed, 11 insertions(+), 80 deletions(-)

diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index 96db177..1503d40 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -13,18 +13,6 @@ use crate::object::{Object, ObjectFactories};
 use crate::pkcs11::*;
 use crate::sp800_108::*;
 
-/// Helper macro to return the maximum value `size` bits can express,
-/// up to a maximum of 64 bit
-macro_rules! maxsize {
-    ($size: expr) => {
-        match $size {
-            8 | 16 | 24 | 32 | 40 | 48 | 56 => (1u64 << $size) - 1,
-            64 => u64::MAX,
-            _ => panic!("Invalid size"),
-        }
-    };
-}
-
 /// Helper macro to return the maximum value `size` bits can express,
 /// in increments of 8 bits, up to a maximum of 32 bits
 macro_rules! maxsize32 {
@@ -190,87 +178,30 @@ impl Sp800Operation {
     /// Feed the length of the sum of the segments or of the keys
     /// to be produced
     ///
-    /// NOTE: In this function the len is intentionally truncated by
-    /// casting, do not convert with try_from()
+    /// NOTE: In this function the len is intentionally truncated to the
+    /// requested width
     fn dkm_update(
         param: &Sp800DKMLengthFormat,
         klen: usize,
         slen: usize,
         op: &mut Box<dyn Mac>,
     ) -> Result<()> {
-        let mut len = match param.method {
+        let len = match param.method {
             CK_SP800_108_DKM_LENGTH_SUM_OF_SEGMENTS => slen,
             CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS => klen,
             _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         } as u64;
+        /* the length is expressed in bits */
+        let len = len.wrapping_mul(8);
         /* up to 64 bits */
         match param.bits {
-            8 => {
-                len = len % maxsize!(8);
-                op.mac_update(&[len as u8])
-            }
-            16 => {
-                len = len % maxsize!(16);
-                let data = if param.le {
-                    (len as u16).to_le_bytes()
-                } else {
-                    (len as u16).to_be_bytes()
-                };
-                op.mac_update(&data)
-            }
-            24 => {
-                len = len % maxsize!(24);
-                let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 3)
-                } else {
-                    ((len as u32).to_be_bytes(), 1, 4)
-                };
-                op.mac_update(&data[s..e])
-            }
-            32 => {
-                len = len % maxsize!(32);
-                let data = if param.le {
-                    (len as u32).to_le_bytes()
-                } else {
-                    (len as u32).to_be_bytes()
-                };
-                op.mac_update(&data)
-            }
-            40 => {
-                len = len % maxsize!(40);
-                let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 5)
-                } else {
-                    ((len as u32).to_be_bytes(), 3, 8)
-                };
-                op.mac_update(&data[s..e])
-            }
-            48 => {
-                len = len % maxsize!(48);
-                let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 6)
-                } else {
-                    ((len as u32).to_be_bytes(), 2, 8)
-                };
-                op.mac_update(&data[s..e])
-            }
-            56 => {
-                len = len % maxsize!(56);
-                let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 7)
-                } else {
-                    ((len as u32).to_be_bytes(), 1, 8)
-                };
-                op.mac_update(&data[s..e])
-            }
-            64 => {
-                len = len % maxsize!(64);
-                let data = if param.le {
-                    (len as u64).to_le_bytes()
+            8 | 16 | 24 | 32 | 40 | 48 | 56 | 64 => {
+                let width = param.bits / 8;
+                if param.le {
+                    op.mac_update(&len.to_le_bytes()[..width])
                 } else {
-                    (len as u64).to_be_bytes()
-                };
-                op.mac_update(&data)
+                    op.mac_update(&len.to_be_bytes()[(8 - width)..])
+                }
             }
             _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         }
-- 
2.43.0


From 9d9bc6ff71864068298fb1274585f507de64f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 57/94] fix: hash key derivation refuses keys longer than the
 digest

---
 src/hash.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hash.rs b/src/hash.rs
index 3e5666d..acb84e9 100644
--- a/src/hash.rs
+++ b/src/hash.rs
@@ -384,6 +384,9 @@ impl Derive for HashKDFOperation {
                         .as_secret_key_factory()?
                         .recommend_key_size(hashsize)?,
                 )?;
+                if keysize > CK_ULONG::try_from(hashsize)? {
+                    return Err(CKR_TEMPLATE_INCONSISTENT)?;
+                }
                 tmpl.add_ulong(CKA_VALUE_LEN, &keysize);
             }
         }
-- 
2.43.0


From d98b4b1c9d76bc6a4192a375c45a9b6fc582f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 58/94] fix: PBKDF2 refuses an iteration count of zero

---
 src/pbkdf2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pbkdf2.rs b/src/pbkdf2.rs
index 8591709..9532f93 100644
--- a/src/pbkdf2.rs
+++ b/src/pbkdf2.rs
@@ -126,6 +126,9 @@ impl Mechanism for PBKDF2Mechanism {
             _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         };
         let iter = usize::try_from(params.iterations)?;
+        if iter == 0 {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
 
         /* check early that we have key class and type defined */
         let factory =
-- 
2.43.0


From 03ed2af50afb6cd8bd8b15ccd75d3a537707ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 59/94] fix: default length of a derived key is checked by its
 key type

---
 src/misc.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/misc.rs b/src/misc.rs
index cc9dca8..05f80a3 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -144,22 +144,17 @@ pub fn common_derive_key_object(
     default_len: usize,
 ) -> Result<(Object, usize)> {
     let default_class = CKO_SECRET_KEY;
+    let default_value_len = CK_ULONG::try_from(default_len)?;
     let mut tmpl = CkAttrs::from(template);
     tmpl.add_missing_ulong(CKA_CLASS, &default_class);
-    let mut obj =
-        objfactories.derive_key_from_template(key, tmpl.as_slice())?;
+    if default_len != 0 {
+        /* let the key factory check this length too */
+        tmpl.add_missing_ulong(CKA_VALUE_LEN, &default_value_len);
+    }
+    let obj = objfactories.derive_key_from_template(key, tmpl.as_slice())?;
     let value_len = match obj.get_attr_as_ulong(CKA_VALUE_LEN) {
         Ok(val) => usize::try_from(val)?,
-        Err(_) => {
-            if default_len == 0 {
-                return Err(CKR_TEMPLATE_INCOMPLETE)?;
-            }
-            obj.set_attr(Attribute::from_ulong(
-                CKA_VALUE_LEN,
-                CK_ULONG::try_from(default_len)?,
-            ))?;
-            default_len
-        }
+        Err(_) => return Err(CKR_TEMPLATE_INCOMPLETE)?,
     };
     Ok((obj, value_len))
 }
-- 
2.43.0


From d47caa2a57894817b9c2b31ceedde9a829b147ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 60/94] fix: Diffie-Hellman secret is padded to the length of
 the prime

---
 ossl/src/derive.rs                   | 13 +++++++++++++
 ossl/src/non-openssl-sys-bindings.rs |  1 +
 2 files changed, 14 insertions(+)

diff --git a/ossl/src/derive.rs b/ossl/src/derive.rs
index eb214b0..e446e8a 100644
--- a/ossl/src/derive.rs
+++ b/ossl/src/derive.rs
@@ -910,6 +910,19 @@ impl FfdhDerive {
         peer: &mut EvpPkey,
         output: &mut [u8],
     ) -> Result<usize, Error> {
+        /* PKCS#3: the secret value is as long as the prime */
+        let pad: c_uint = 1;
+        let mut params_builder = OsslParamBuilder::new();
+        params_builder.add_uint(cstr!(OSSL_EXCHANGE_PARAM_PAD), &pad)?;
+        let params = params_builder.finalize();
+        let ret = unsafe {
+            EVP_PKEY_CTX_set_params(self.ctx.as_mut_ptr(), params.as_ptr())
+        };
+        if ret != 1 {
+            trace_ossl!("EVP_PKEY_CTX_set_params()");
+            return Err(Error::new(ErrorKind::OsslError));
+        }
+
         let ret = unsafe {
             EVP_PKEY_derive_set_peer(self.ctx.as_mut_ptr(), peer.as_mut_ptr())
         };
diff --git a/ossl/src/non-openssl-sys-bindings.rs b/ossl/src/non-openssl-sys-bindings.rs
index 0e8c6f5..0765d9e 100644
--- a/ossl/src/non-openssl-sys-bindings.rs
+++ b/ossl/src/non-openssl-sys-bindings.rs
@@ -77,6 +77,7 @@ pub const OSSL_PKEY_PARAM_FFC_P: &[u8; 2] = b"p\0";
 pub const OSSL_PKEY_PARAM_FFC_Q: &[u8; 2] = b"q\0";
 pub const OSSL_PKEY_PARAM_FFC_PBITS: &[u8; 6] = b"pbits\0";
 
+pub const OSSL_EXCHANGE_PARAM_PAD: &[u8; 4] = b"pad\0";
 pub const OSSL_EXCHANGE_PARAM_KDF_OUTLEN: &[u8; 11] = b"kdf-outlen\0";
 pub const OSSL_EXCHANGE_PARAM_KDF_TYPE: &[u8; 9] = b"kdf-type\0";
 pub const OSSL_EXCHANGE_PARAM_KDF_UKM: &[u8; 8] = b"kdf-ukm\0";
-- 
2.43.0


From e21ba0b7201093e56ec87827d47dce3764573820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 61/94] fix: Montgomery and Edwards private keys are wrapped in
 the RFC 8410 encoding

---
 src/ec/mod.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/ec/mod.rs b/src/ec/mod.rs
index 3c197a8..2593058 100644
--- a/src/ec/mod.rs
+++ b/src/ec/mod.rs
@@ -274,7 +274,13 @@ pub fn export_for_wrapping(key: &Object) -> Result<Vec<u8>> {
                     _ => return Err(CKR_GENERAL_ERROR)?,
                 }
             }
-            CKK_EC_EDWARDS | CKK_EC_MONTGOMERY => val.to_vec(),
+            CKK_EC_EDWARDS | CKK_EC_MONTGOMERY => {
+                /* RFC 8410: CurvePrivateKey ::= OCTET STRING */
+                match asn1::write_single(&val.as_slice()) {
+                    Ok(p) => p,
+                    _ => return Err(CKR_GENERAL_ERROR)?,
+                }
+            }
             _ => return Err(CKR_GENERAL_ERROR)?,
         }
     };
@@ -300,6 +306,24 @@ pub fn export_for_wrapping(key: &Object) -> Result<Vec<u8>> {
     ret
 }
 
+/// Returns the raw private key from the contents of the privateKey field of
+/// a PKCS#8 structure for Edwards and Montgomery keys (RFC 8410).
+///
+/// The raw key without the inner OCTET STRING is accepted as well.
+fn curve_private_key<'a>(
+    oid: &asn1::ObjectIdentifier,
+    data: &'a [u8],
+) -> Result<&'a [u8]> {
+    let size = ec_key_size(oid)?;
+    if data.len() == size {
+        return Ok(data);
+    }
+    match asn1::parse_single::<&[u8]>(data) {
+        Ok(raw) if raw.len() == size => Ok(raw),
+        _ => Err(CKR_WRAPPED_KEY_INVALID)?,
+    }
+}
+
 /// Common function to parse a private EC key from PKCS#8 encoded data
 pub fn import_from_wrapped(
     key_type: CK_KEY_TYPE,
@@ -354,11 +378,11 @@ pub fn import_from_wrapped(
             ecpkey.private_key.as_bytes()
         }
         CKK_EC_EDWARDS => match oid {
-            &ED25519_OID | &ED448_OID => pkeyval,
+            &ED25519_OID | &ED448_OID => curve_private_key(oid, pkeyval)?,
             _ => return Err(CKR_TEMPLATE_INCONSISTENT)?,
         },
         CKK_EC_MONTGOMERY => match oid {
-            &X25519_OID | &X448_OID => pkeyval,
+            &X25519_OID | &X448_OID => curve_private_key(oid, pkeyval)?,
             _ => return Err(CKR_TEMPLATE_INCONSISTENT)?,
         },
         _ => return Err(CKR_GENERAL_ERROR)?,
-- 
2.43.0


From b7b411b2a842763b7931d3224c2226262b377cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 62/94] fix: unwrapped secrets are cut to the CKA_VALUE_LEN of
 the template

---
 src/object/key.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/object/key.rs b/src/object/key.rs
index 5d7ca13..531cd5d 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -394,6 +394,17 @@ pub trait SecretKeyFactory: KeyFactory {
         mut data: Vec<u8>,
         template: &[CK_ATTRIBUTE],
     ) -> Result<Object> {
+        /* The wrapping algorithm may have 0 padded the key to the block size,
+         * the application provides the actual length in this case */
+        if let Some(attr) = template.iter().find(|x| x.type_ == CKA_VALUE_LEN) {
+            let len = usize::try_from(attr.to_ulong()?)?;
+            if len > data.len() {
+                zeromem(data.as_mut_slice());
+                return Err(CKR_KEY_SIZE_RANGE)?;
+            }
+            zeromem(&mut data[len..]);
+            data.truncate(len);
+        }
         let mut obj = match self.key_unwrap(template) {
             Ok(o) => o,
             Err(e) => {
-- 
2.43.0


From b68a9035ef5ea84ab289d0f87d882d90887d3de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 63/94] fix: C_UnwrapKey refuses an empty wrapped key

---
 src/ossl/aes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 4bbbbba..29111fe 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -728,6 +728,9 @@ impl AesOperation {
         wrapping_key: &Object,
         data: &[u8],
     ) -> Result<Vec<u8>> {
+        if data.is_empty() {
+            return Err(CKR_WRAPPED_KEY_LEN_RANGE)?;
+        }
         let mut op = Self::decrypt_new(mech, wrapping_key)?;
         let mut result = vec![0u8; data.len()];
         let outlen = op.decrypt(data, result.as_mut_slice())?;
-- 
2.43.0


From 3335527c53ea082dbff3601b4abfddbdfd76379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 64/94] fix: RSA unwrap refuses a wrapped key which is not as
 long as the modulus

---
 src/ossl/rsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index 2d0897b..a905dcf 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -550,6 +550,9 @@ impl RsaPKCSOperation {
         info: &CK_MECHANISM_INFO,
     ) -> Result<Vec<u8>> {
         let mut op = Self::decrypt_new(mech, wrapping_key, info)?;
+        if data.len() != op.output_len {
+            return Err(CKR_WRAPPED_KEY_LEN_RANGE)?;
+        }
         let outlen = op.decryption_len(data.len(), true)?;
         let mut result = vec![0u8; outlen];
         let outlen = op.decrypt(data, result.as_mut_slice())?;
-- 
2.43.0


From f6e541cec38038bc31c4be4ad228aefccb76157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 65/94] fix: AES key generation refuses lengths which are not
 AES key lengths

---
 src/aes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index 38626ec..48a59a6 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -322,6 +322,9 @@ impl Mechanism for AesMechanism {
             .map_err(|_| CKR_TEMPLATE_INCONSISTENT)?;
         key.ensure_ulong(CKA_KEY_TYPE, CKK_AES)
             .map_err(|_| CKR_TEMPLATE_INCONSISTENT)?;
+        check_key_len(usize::try_from(
+            key.get_attr_as_ulong(CKA_VALUE_LEN)?,
+        )?)?;
 
         default_secret_key_generate(&mut key)?;
         default_key_attributes(&mut key, mech.mechanism)?;
-- 
2.43.0


From fbdea2135ad021f0d1e11cd62aed945a33e58200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 66/94] fix: secret key generation refuses empty keys and
 lengths which can't be allocated

---
 src/object/key.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/object/key.rs b/src/object/key.rs
index 531cd5d..7460803 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -486,8 +486,16 @@ pub trait SecretKeyFactory: KeyFactory {
 /// attribute.
 pub fn default_secret_key_generate(key: &mut Object) -> Result<()> {
     let value_len = usize::try_from(key.get_attr_as_ulong(CKA_VALUE_LEN)?)?;
+    if value_len == 0 {
+        return Err(CKR_KEY_SIZE_RANGE)?;
+    }
 
-    let mut value: Vec<u8> = vec![0; value_len];
+    /* the length comes from the application, allocation may fail */
+    let mut value: Vec<u8> = Vec::new();
+    value
+        .try_reserve_exact(value_len)
+        .map_err(|_| CKR_HOST_MEMORY)?;
+    value.resize(value_len, 0);
     match CSPRNG
         .with(|rng| rng.borrow_mut().generate_random(value.as_mut_slice()))
     {
-- 
2.43.0


From f04db9a45944fb60df91d9915eed317bf625aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 67/94] fix: CKA_MODULUS can't be specified when an RSA key is
 generated or unwrapped

---
 src/rsa.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rsa.rs b/src/rsa.rs
index 5d71784..9c90953 100644
--- a/src/rsa.rs
+++ b/src/rsa.rs
@@ -215,7 +215,8 @@ impl RSAPubFactory {
         let attributes = factory.data.get_attributes_mut();
 
         attributes.push(attr_element!(
-            CKA_MODULUS; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
+            CKA_MODULUS; OAFlags::RequiredOnCreate
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_MODULUS_BITS; OAFlags::RequiredOnGenerate
@@ -369,7 +370,8 @@ impl RSAPrivFactory {
         let attributes = factory.data.get_attributes_mut();
 
         attributes.push(attr_element!(
-            CKA_MODULUS; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
+            CKA_MODULUS; OAFlags::RequiredOnCreate
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_PUBLIC_EXPONENT; OAFlags::RequiredOnCreate
-- 
2.43.0


From e08c97e3f223ac2ee267916c0f393bc93c71cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 68/94] fix: private values outside of [1, order-1] are refused
 for EC keys

---
 src/ec/mod.rs      | 53 ++++++++++++++++++++++++++++++++++++++++++++++
 src/ossl/common.rs |  9 ++++++++
 2 files changed, 62 insertions(+)

diff --git a/src/ec/mod.rs b/src/ec/mod.rs
index 2593058..e2ac36d 100644
--- a/src/ec/mod.rs
+++ b/src/ec/mod.rs
@@ -324,6 +324,57 @@ fn curve_private_key<'a>(
     }
 }
 
+/// Order of the base point of NIST curve P-256
+const EC_ORDER_SECP256R1: [u8; 32] = [
+    0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x00, 0xff, 0xff, 0xff,
+    0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17,
+    0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
+];
+
+/// Order of the base point of NIST curve P-384
+const EC_ORDER_SECP384R1: [u8; 48] = [
+    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xff, 0xff, 0xc7, 0x63, 0x4d, 0x81, 0xf4, 0x37, 0x2d, 0xdf, 0x58,
+    0x1a, 0x0d, 0xb2, 0x48, 0xb0, 0xa7, 0x7a, 0xec, 0xec, 0x19, 0x6a,
+    0xcc, 0xc5, 0x29, 0x73,
+];
+
+/// Order of the base point of NIST curve P-521
+const EC_ORDER_SECP521R1: [u8; 66] = [
+    0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xfa, 0x51, 0x86, 0x87, 0x83, 0xbf, 0x2f, 0x96, 0x6b, 0x7f, 0xcc,
+    0x01, 0x48, 0xf7, 0x09, 0xa5, 0xd0, 0x3b, 0xb5, 0xc9, 0xb8, 0x89,
+    0x9c, 0x47, 0xae, 0xbb, 0x6f, 0xb7, 0x1e, 0x91, 0x38, 0x64, 0x09,
+];
+
+/// Checks that a private value for one of the NIST curves is in the
+/// interval [1, order - 1]
+pub fn check_private_value(
+    oid: &asn1::ObjectIdentifier,
+    value: &[u8],
+) -> Result<()> {
+    let order: &[u8] = match oid {
+        &EC_SECP256R1 => &EC_ORDER_SECP256R1,
+        &EC_SECP384R1 => &EC_ORDER_SECP384R1,
+        &EC_SECP521R1 => &EC_ORDER_SECP521R1,
+        _ => return Err(CKR_GENERAL_ERROR)?,
+    };
+    let start = value
+        .iter()
+        .position(|b| *b != 0)
+        .ok_or(CKR_ATTRIBUTE_VALUE_INVALID)?;
+    let value = &value[start..];
+    if value.len() > order.len()
+        || (value.len() == order.len() && value >= order)
+    {
+        return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+    }
+    Ok(())
+}
+
 /// Common function to parse a private EC key from PKCS#8 encoded data
 pub fn import_from_wrapped(
     key_type: CK_KEY_TYPE,
@@ -375,6 +426,8 @@ pub fn import_from_wrapped(
                 Ok(k) => k,
                 Err(_) => return Err(CKR_WRAPPED_KEY_INVALID)?,
             };
+            check_private_value(oid, ecpkey.private_key.as_bytes())
+                .map_err(|_| CKR_WRAPPED_KEY_INVALID)?;
             ecpkey.private_key.as_bytes()
         }
         CKK_EC_EDWARDS => match oid {
diff --git a/src/ossl/common.rs b/src/ossl/common.rs
index ffe2b76..8704ac2 100644
--- a/src/ossl/common.rs
+++ b/src/ossl/common.rs
@@ -20,6 +20,8 @@ use ossl::{api_level, OsslContext};
 #[cfg(feature = "ecc")]
 use crate::ec::get_oid_from_obj;
 #[cfg(feature = "ecdsa")]
+use crate::ec::check_private_value;
+#[cfg(feature = "ecdsa")]
 use crate::ossl::ecdsa;
 #[cfg(feature = "eddsa")]
 use crate::ossl::eddsa;
@@ -101,6 +103,13 @@ pub fn pubkey_from_object(obj: &Object) -> Result<EvpPkey> {
 /// Creates a private `EvpPkey` from a PKCS#11 `Object`.
 #[allow(dead_code)]
 pub fn privkey_from_object(obj: &Object) -> Result<EvpPkey> {
+    #[cfg(feature = "ecdsa")]
+    if obj.get_attr_as_ulong(CKA_KEY_TYPE)? == CKK_EC {
+        check_private_value(
+            &get_oid_from_obj(obj)?,
+            obj.get_attr_as_bytes(CKA_VALUE)?,
+        )?;
+    }
     evp_pkey_from_object(obj, CKO_PRIVATE_KEY)
 }
 
-- 
2.43.0


From 88c174801cbb55c45763481b04a03a5ef245a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 69/94] fix: C_SeedRandom and C_GenerateRandom refuse a NULL
 buffer

---
 src/fns/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fns/mod.rs b/src/fns/mod.rs
index 6740160..3f20aff 100644
--- a/src/fns/mod.rs
+++ b/src/fns/mod.rs
@@ -48,6 +48,9 @@ fn seed_random(
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
     let len = usize::try_from(seed_len).map_err(|_| CKR_GENERAL_ERROR)?;
+    if seed.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let data: &[u8] = unsafe { std::slice::from_raw_parts(seed, len) };
     random_add_seed(data)
 }
@@ -83,6 +86,9 @@ fn generate_random(
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
     let rndlen = usize::try_from(random_len).map_err(|_| CKR_GENERAL_ERROR)?;
+    if random_data.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let data: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(random_data, rndlen) };
     get_random_data(data)
-- 
2.43.0


From 2b8644f9a10cfd5e7690be8fc9b498030daed067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 70/94] fix: C_VerifySignatureInit refuses a NULL signature

---
 src/fns/signing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index c7bed8f..5a45056 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -722,6 +722,9 @@ fn verify_signature_init(
         return Ok(());
     }
     session.check_no_op::<dyn VerifySignature>()?;
+    if psignature.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let mechanism = CK_MECHANISM::from_ptr(mechptr);
     let slot_id = session.get_slot_id();
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-- 
2.43.0


From 71cdf514f62b5733285ca15e0ac2a9f3baf729df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 71/94] fix: C_EncryptFinal and C_DecryptFinal refuse a NULL
 length pointer

---
 src/fns/encryption.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 6bca0a1..5cc46ad 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -288,7 +288,7 @@ fn encrypt_final(
     pul_last_encrypted_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
     let rstate = STATE.rlock()?;
-    if last_encrypted_part.is_null() && pul_last_encrypted_part_len.is_null() {
+    if pul_last_encrypted_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let mut session = rstate.get_session_mut(s_handle)?;
@@ -566,7 +566,7 @@ fn decrypt_final(
     last_part: CK_BYTE_PTR,
     pul_last_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
-    if last_part.is_null() && pul_last_part_len.is_null() {
+    if pul_last_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let rstate = STATE.rlock()?;
-- 
2.43.0


From 85f5d0a3ba5666961e78d906563a6645313d67f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 72/94] fix: importing an RSA key with an absurd
 CKA_MODULUS_BITS doesn't panic

---
 src/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa.rs b/src/rsa.rs
index 9c90953..bf30ba9 100644
--- a/src/rsa.rs
+++ b/src/rsa.rs
@@ -143,7 +143,7 @@ fn rsa_check_import(obj: &Object) -> Result<()> {
     };
     match obj.get_attr_as_ulong(CKA_MODULUS_BITS) {
         Ok(b) => {
-            let len = usize::try_from((b + 7) / 8)?;
+            let len = usize::try_from(b.div_ceil(8))?;
             if modulus.len() != len {
                 return Err(CKR_TEMPLATE_INCONSISTENT)?;
             }
-- 
2.43.0


From 77e8ca578ca30a34d539fc571b6a7ff81695aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 73/94] fix: an empty integer in a DER encoded key is an error,
 not a panic

---
 src/kasn1/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kasn1/mod.rs b/src/kasn1/mod.rs
index 356f71e..e37f2e7 100644
--- a/src/kasn1/mod.rs
+++ b/src/kasn1/mod.rs
@@ -35,6 +35,9 @@ impl<'a> DerEncBigUint<'a> {
     /// referenced when the format does not need to be altered, avoiding
     /// unnecessary memory allocation in most cases.
     pub fn new(data: &'a [u8]) -> Result<Self> {
+        if data.is_empty() {
+            return Err(CKR_GENERAL_ERROR)?;
+        }
         let mut de = DerEncBigUint {
             data: Cow::from(data),
         };
-- 
2.43.0


From e2c532c1b2a516f296225f4c62f754e0ad7f8e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:56 +0000
Subject: [PATCH 74/94] fix: deriving a key of a length which can't be
 allocated is an error, not an abort

---
 src/misc.rs             | 11 +++++++++++
 src/native/pbkdf2.rs    |  2 +-
 src/native/sp800_108.rs |  2 +-
 src/native/sshkdf.rs    |  2 +-
 src/native/tlskdf.rs    | 18 +++++++++++++++---
 src/ossl/ecdh.rs        |  2 +-
 src/ossl/hkdf.rs        |  2 +-
 src/ossl/kbkdf.rs       |  2 +-
 src/ossl/pbkdf2.rs      |  2 +-
 src/ossl/sshkdf.rs      |  2 +-
 10 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/misc.rs b/src/misc.rs
index 05f80a3..c5f2ae3 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -31,6 +31,17 @@ pub fn bytes_to_vec<T>(ptr: *const T, len: usize) -> Vec<u8> {
     }
 }
 
+/// Returns a zeroed vector of a length requested by an application
+///
+/// Fails with CKR_HOST_MEMORY when it can't be allocated.
+#[allow(dead_code)]
+pub fn zeroed_vec(len: usize) -> Result<Vec<u8>> {
+    let mut v = Vec::<u8>::new();
+    v.try_reserve_exact(len).map_err(|_| CKR_HOST_MEMORY)?;
+    v.resize(len, 0);
+    Ok(v)
+}
+
 /// Convenience macro to type cast any pointer into a CK_VOID_PTR
 macro_rules! void_ptr {
     ($ptr:expr) => {
diff --git a/src/native/pbkdf2.rs b/src/native/pbkdf2.rs
index 14507f1..3359d24 100644
--- a/src/native/pbkdf2.rs
+++ b/src/native/pbkdf2.rs
@@ -54,7 +54,7 @@ pub fn pbkdf2_derive(
 
     let l = (dklen + hlen - 1) / hlen;
 
-    let mut dkm = vec![0u8; dklen];
+    let mut dkm = crate::misc::zeroed_vec(dklen)?;
 
     let mech = mechanisms.get(prf)?;
 
diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index 1503d40..87b83e3 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -396,7 +396,7 @@ impl Derive for Sp800Operation {
             keys.push(obj);
         }
 
-        let mut dkm = vec![0u8; slen];
+        let mut dkm = crate::misc::zeroed_vec(slen)?;
 
         /* for each segment */
         let mut cursor = 0;
diff --git a/src/native/sshkdf.rs b/src/native/sshkdf.rs
index 40d33e5..03bc283 100644
--- a/src/native/sshkdf.rs
+++ b/src/native/sshkdf.rs
@@ -124,7 +124,7 @@ impl Derive for SSHKDFOperation {
         }
 
         let keyval = key.get_attr_as_bytes(CKA_VALUE)?;
-        let mut dkm = vec![0u8; value_len];
+        let mut dkm = misc::zeroed_vec(value_len)?;
 
         /* for each segment */
         let mut buffer = vec![0u8; segment];
diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index 89f65d2..ecf89c0 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -9,7 +9,9 @@ use crate::attribute::CkAttrs;
 use crate::error::Result;
 use crate::hmac::{hash_to_hmac_mech, register_mechs_only};
 use crate::mechanism::*;
-use crate::misc::{bytes_to_slice, bytes_to_vec, zeromem, CK_ULONG_SIZE};
+use crate::misc::{
+    bytes_to_slice, bytes_to_vec, zeroed_vec, zeromem, CK_ULONG_SIZE,
+};
 use crate::object::{Object, ObjectFactories};
 use crate::pkcs11::*;
 use std::fmt::Debug;
@@ -111,7 +113,12 @@ impl TLSPRF {
 
         /* use a buffer length that is a multiple of maclen,
          * then truncate to actual reqlen before returning */
-        let mut out = vec![0u8; ((reqlen + maclen - 1) / maclen) * maclen];
+        let mut out = zeroed_vec(
+            reqlen
+                .div_ceil(maclen)
+                .checked_mul(maclen)
+                .ok_or(CKR_KEY_SIZE_RANGE)?,
+        )?;
         let mut outlen = 0;
         while outlen < reqlen {
             self.op.reset()?;
@@ -750,7 +757,12 @@ impl TLSKDFOperation {
 
         let mech = mechanisms.get(self.prf)?;
         let seed = self.tls_prf_seed(false);
-        let dkmlen = (2 * (self.maclen + self.keylen + self.ivlen)) as usize;
+        let dkmlen = self
+            .maclen
+            .checked_add(self.keylen)
+            .and_then(|len| len.checked_add(self.ivlen))
+            .and_then(|len| len.checked_mul(2))
+            .ok_or(CKR_KEY_SIZE_RANGE)? as usize;
         let mut tlsprf = TLSPRF::init(key, mech, self.prf)?;
         let mut dkm = tlsprf.finish(&seed, dkmlen)?;
 
diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index 3f054a6..e65cae4 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -207,7 +207,7 @@ impl Derive for ECDHOperation {
         } else {
             /* Handle KDFs in token as OpenSSL does not support all cases */
             let digest = kdf_type_to_digest_alg(self.kdf)?;
-            let mut output = vec![0u8; keylen];
+            let mut output = crate::misc::zeroed_vec(keylen)?;
 
             if kdf_type_is_x963(self.kdf)? {
                 let mut kdf = X963KdfDerive::new(osslctx(), digest)?;
diff --git a/src/ossl/hkdf.rs b/src/ossl/hkdf.rs
index 7d1dc03..8e7aa91 100644
--- a/src/ossl/hkdf.rs
+++ b/src/ossl/hkdf.rs
@@ -292,7 +292,7 @@ impl Derive for HKDFOperation {
         #[cfg(feature = "fips")]
         self.fips_approval.clear();
 
-        let mut dkm = vec![0u8; keysize];
+        let mut dkm = crate::misc::zeroed_vec(keysize)?;
         kdf.derive(&mut dkm)?;
 
         #[cfg(feature = "fips")]
diff --git a/src/ossl/kbkdf.rs b/src/ossl/kbkdf.rs
index af73789..7c5a9d1 100644
--- a/src/ossl/kbkdf.rs
+++ b/src/ossl/kbkdf.rs
@@ -460,7 +460,7 @@ impl Derive for Sp800Operation {
         #[cfg(feature = "fips")]
         self.fips_approval.clear();
 
-        let mut dkm = vec![0u8; slen];
+        let mut dkm = crate::misc::zeroed_vec(slen)?;
         kdf.derive(&mut dkm)?;
 
         #[cfg(feature = "fips")]
diff --git a/src/ossl/pbkdf2.rs b/src/ossl/pbkdf2.rs
index 6da7d30..862b86c 100644
--- a/src/ossl/pbkdf2.rs
+++ b/src/ossl/pbkdf2.rs
@@ -22,7 +22,7 @@ pub fn pbkdf2_derive(
     kdf.set_iterations(iter);
     kdf.set_salt(salt.as_slice());
 
-    let mut dkm = vec![0u8; len];
+    let mut dkm = crate::misc::zeroed_vec(len)?;
     kdf.derive(&mut dkm)?;
 
     Ok(dkm)
diff --git a/src/ossl/sshkdf.rs b/src/ossl/sshkdf.rs
index dac79c3..fe509b3 100644
--- a/src/ossl/sshkdf.rs
+++ b/src/ossl/sshkdf.rs
@@ -121,7 +121,7 @@ impl Derive for SSHKDFOperation {
         #[cfg(feature = "fips")]
         self.fips_approval.clear();
 
-        let mut dkm = vec![0u8; value_len];
+        let mut dkm = crate::misc::zeroed_vec(value_len)?;
         kdf.derive(&mut dkm)?;
 
         #[cfg(feature = "fips")]
-- 
2.43.0


From b83a844122f021a01539169bb0e5de8a2aff24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:56 +0000
Subject: [PATCH 75/94] fix: SP800-108 additional keys may come with an empty
 template

---
 src/native/sp800_108.rs | 4 ++--
 src/ossl/kbkdf.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index 87b83e3..3b59f6f 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -368,8 +368,8 @@ impl Derive for Sp800Operation {
         /* additional keys */
         for ak in &self.addl_drv_keys {
             let tmpl: &[CK_ATTRIBUTE] = unsafe {
-                std::slice::from_raw_parts_mut(
-                    ak.pTemplate,
+                bytes_to_slice(
+                    ak.pTemplate as *const CK_ATTRIBUTE,
                     usize::try_from(ak.ulAttributeCount)
                         .map_err(|_| CKR_MECHANISM_PARAM_INVALID)?,
                 )
diff --git a/src/ossl/kbkdf.rs b/src/ossl/kbkdf.rs
index 7c5a9d1..abedcc7 100644
--- a/src/ossl/kbkdf.rs
+++ b/src/ossl/kbkdf.rs
@@ -429,8 +429,8 @@ impl Derive for Sp800Operation {
         /* additional keys */
         for ak in &self.addl_drv_keys {
             let tmpl: &[CK_ATTRIBUTE] = unsafe {
-                std::slice::from_raw_parts_mut(
-                    ak.pTemplate,
+                bytes_to_slice(
+                    ak.pTemplate as *const CK_ATTRIBUTE,
                     usize::try_from(ak.ulAttributeCount)
                         .map_err(|_| CKR_MECHANISM_PARAM_INVALID)?,
                 )
-- 
2.43.0


From 328fddd16fac0f61795e50b65a3c18d5112cef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 76/94] fix: refuse a NULL tag or MAC pointer in message
 operations

---
 src/ossl/aes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 29111fe..d19f121 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2189,6 +2189,9 @@ impl MsgEncryption for AesOperation {
         }
 
         let tagptr = self.check_msg_params(param, paramlen)?;
+        if tagptr.is_null() && self.params.taglen > 0 {
+            return Err(self.op_err(CKR_ARGUMENTS_BAD));
+        }
 
         let outlen = match self.mech {
             CKM_AES_CCM => {
@@ -2370,6 +2373,9 @@ impl MsgDecryption for AesOperation {
         }
 
         let tagptr = self.check_msg_params(param, paramlen)?;
+        if tagptr.is_null() && self.params.taglen > 0 {
+            return Err(self.op_err(CKR_ARGUMENTS_BAD));
+        }
 
         #[cfg(feature = "fips")]
         self.fips_approval.clear();
-- 
2.43.0


From 4f4a54002f4f3841425d0d1625b141f45ddb43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 77/94] fix: an interrupted C_InitToken leaves an uninitialized
 token, not a broken one

---
 src/storage/format.rs | 30 ++++++++++++++----------------
 src/token.rs          | 10 +++++++++-
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index ae62f31..fef78d8 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -209,15 +209,10 @@ impl StdStorageFormat {
         Ok(so_flags | usr_flags)
     }
 
-    /// Sets the default SO PIN during token initialization.
-    fn default_so_pin(&mut self, facilities: &TokenFacilities) -> Result<()> {
-        let data =
-            self.aci
-                .key_to_user_data(facilities, SO_ID, checked_pin(&[]))?;
-        self.store.store_user(SO_ID, &data)
-    }
-
-    /// Creates and stores the default token info during initialization.
+    /// Creates the default token info during initialization.
+    ///
+    /// This is not stored here: it is the caller that stores the token info,
+    /// as the last step of the initialization.
     fn default_token_info(
         &mut self,
         encrypted: bool,
@@ -232,7 +227,6 @@ impl StdStorageFormat {
         let mut value: [u8; 8] = [0u8; 8];
         CSPRNG.with(|rng| rng.borrow_mut().generate_random(&mut value))?;
         info.serial.copy_from_slice(hex::encode(value).as_bytes());
-        self.store.store_token_info(&info)?;
         Ok(info)
     }
 }
@@ -243,12 +237,19 @@ impl Storage for StdStorageFormat {
         self.store.open()?;
         self.store.is_initialized()?;
         let mut info = self.load_token_info()?;
+        if info.flags & CKF_TOKEN_INITIALIZED == 0 {
+            /* The token info is stored last, an initialization that was
+             * interrupted before that point never happened */
+            return Err(CKR_CRYPTOKI_NOT_INITIALIZED)?;
+        }
         info.flags |= self.init_pin_flags()?;
         Ok(info)
     }
 
-    /// Resets the raw storage, generates a new ACI master key, sets default
-    /// SO PIN.
+    /// Resets the raw storage and generates a new ACI master key.
+    ///
+    /// The token stays uninitialized until the caller sets the SO PIN and
+    /// stores the token info.
     fn reinit(
         &mut self,
         facilities: &TokenFacilities,
@@ -256,10 +257,7 @@ impl Storage for StdStorageFormat {
         self.store.db_reset()?;
         /* Create new KEK so default auth objects can be generated */
         self.aci.reset(facilities)?;
-        self.default_so_pin(facilities)?;
-        let mut info = self.default_token_info(self.aci.encrypts())?;
-        info.flags |= self.init_pin_flags()?;
-        Ok(info)
+        self.default_token_info(self.aci.encrypts())
     }
 
     /// Flushes the underlying raw storage.
diff --git a/src/token.rs b/src/token.rs
index f540be4..16f5ed2 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -249,7 +249,15 @@ impl Token {
     /// by storage), stores the new token label, and updates token flags.
     pub fn initialize(&mut self, pin: &[u8], label: &[u8]) -> Result<()> {
         if self.is_initialized() {
-            self.auth_user(CKU_SO, pin, true)?;
+            match self.auth_user(CKU_SO, pin, true) {
+                Ok(()) => (),
+                Err(e) => {
+                    /* a failed initialization leaves no SO behind */
+                    if e.rv() != CKR_USER_PIN_NOT_INITIALIZED {
+                        return Err(e);
+                    }
+                }
+            }
         };
 
         self.facilities.handles = Handles::new();
-- 
2.43.0


From 10efd1b24f7149a1a1cf769ad4af76c5ec24f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 78/94] fix: HOTP signing and verification use the counter as
 it is when they complete

Operations took the counter when they were initialized, so two of them could
return a value for the same counter, an error storing the new counter still
released the value, and a counter at its maximum aborted the process.
---
 src/fns/signing.rs | 113 ++++++++++++++++++++++++++++++++++++++-------
 src/hotp.rs        |  49 ++++++++++++++++++--
 src/mechanism.rs   |  28 +++++++++++
 3 files changed, 169 insertions(+), 21 deletions(-)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 5a45056..b6b3ce1 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -12,6 +12,7 @@ use crate::check_allowed_mechs;
 use crate::error::Result;
 use crate::log_debug;
 use crate::mechanism::{Sign, Verify, VerifySignature};
+use crate::misc::zeromem;
 use crate::pkcs11::*;
 use crate::session::Session;
 use crate::STATE;
@@ -112,14 +113,35 @@ fn sign(
     let signature: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
 
+    /* Stateful keys are held until their new state is stored, so that no
+     * other operation can start from the same state */
+    let mut stateful = match operation.stateful_key() {
+        Some(handle) => {
+            let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+            match token.get_object_by_handle(handle) {
+                Ok(key) => operation.refresh_state(&key)?,
+                Err(e) => {
+                    session.cancel_operation::<dyn Sign>()?;
+                    return Err(e);
+                }
+            }
+            Some(token)
+        }
+        None => None,
+    };
+
     operation.sign(data, signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
+    if let Some(token) = &mut stateful {
+        if let Some((handle, attrs)) = operation.updates_object() {
+            if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+                /* never release a value that may be used again */
+                zeromem(signature);
+                return Err(CKR_GENERAL_ERROR)?;
+            }
         }
     }
+    drop(stateful);
 
     unsafe {
         *pul_signature_len = sig_len;
@@ -240,14 +262,35 @@ fn sign_final(
     }
     let signature: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
+    /* Stateful keys are held until their new state is stored, so that no
+     * other operation can start from the same state */
+    let mut stateful = match operation.stateful_key() {
+        Some(handle) => {
+            let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+            match token.get_object_by_handle(handle) {
+                Ok(key) => operation.refresh_state(&key)?,
+                Err(e) => {
+                    session.cancel_operation::<dyn Sign>()?;
+                    return Err(e);
+                }
+            }
+            Some(token)
+        }
+        None => None,
+    };
+
     operation.sign_final(signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
+    if let Some(token) = &mut stateful {
+        if let Some((handle, attrs)) = operation.updates_object() {
+            if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+                /* never release a value that may be used again */
+                zeromem(signature);
+                return Err(CKR_GENERAL_ERROR)?;
+            }
         }
     }
+    drop(stateful);
 
     unsafe {
         *pul_signature_len = sig_len;
@@ -394,14 +437,33 @@ fn verify(
     let data: &[u8] = unsafe { std::slice::from_raw_parts(pdata, dlen) };
     let signature: &[u8] =
         unsafe { std::slice::from_raw_parts(psignature, signature_len) };
+    /* Stateful keys are held until their new state is stored, so that no
+     * other operation can start from the same state */
+    let mut stateful = match operation.stateful_key() {
+        Some(handle) => {
+            let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+            match token.get_object_by_handle(handle) {
+                Ok(key) => operation.refresh_state(&key)?,
+                Err(e) => {
+                    session.cancel_operation::<dyn Verify>()?;
+                    return Err(e);
+                }
+            }
+            Some(token)
+        }
+        None => None,
+    };
+
     operation.verify(data, signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
+    if let Some(token) = &mut stateful {
+        if let Some((handle, attrs)) = operation.updates_object() {
+            if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+                return Err(CKR_GENERAL_ERROR)?;
+            }
         }
     }
+    drop(stateful);
 
     #[cfg(feature = "fips")]
     {
@@ -511,14 +573,33 @@ fn verify_final(
     }
     let signature: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
+    /* Stateful keys are held until their new state is stored, so that no
+     * other operation can start from the same state */
+    let mut stateful = match operation.stateful_key() {
+        Some(handle) => {
+            let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+            match token.get_object_by_handle(handle) {
+                Ok(key) => operation.refresh_state(&key)?,
+                Err(e) => {
+                    session.cancel_operation::<dyn Verify>()?;
+                    return Err(e);
+                }
+            }
+            Some(token)
+        }
+        None => None,
+    };
+
     operation.verify_final(signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
+    if let Some(token) = &mut stateful {
+        if let Some((handle, attrs)) = operation.updates_object() {
+            if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+                return Err(CKR_GENERAL_ERROR)?;
+            }
         }
     }
+    drop(stateful);
 
     #[cfg(feature = "fips")]
     {
diff --git a/src/hotp.rs b/src/hotp.rs
index 308490d..1d46d5f 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -486,6 +486,18 @@ impl HOTPOperation {
         })
     }
 
+    /// Reloads the counter, that may have moved since the operation started
+    fn load_counter(&mut self, key: &Object) -> Result<()> {
+        let counter = key
+            .get_attr_as_bytes(CKA_OTP_COUNTER)
+            .map_err(|_| CKR_GENERAL_ERROR)?;
+        if counter.len() != self.counter.len() {
+            return Err(CKR_GENERAL_ERROR)?;
+        }
+        self.counter.copy_from_slice(counter);
+        Ok(())
+    }
+
     fn generate_otp(
         &mut self,
         counter: &[u8; 8],
@@ -551,6 +563,13 @@ impl Sign for HOTPOperation {
 
         self.finalized = true;
 
+        /* a counter that can not be advanced can not be used */
+        let next = match u64::from_be_bytes(self.counter).checked_add(1) {
+            Some(n) => n,
+            None if self.update.is_some() => return Err(CKR_GENERAL_ERROR)?,
+            None => 0,
+        };
+
         let mut otp = vec![0u8; self.length];
         let counter = self.counter;
         self.generate_otp(&counter, &mut otp)?;
@@ -578,9 +597,7 @@ impl Sign for HOTPOperation {
         }
 
         if self.update.is_some() {
-            let mut c_val = u64::from_be_bytes(self.counter);
-            c_val += 1;
-            self.counter = c_val.to_be_bytes();
+            self.counter = next.to_be_bytes();
             self.update = Some(true);
         }
 
@@ -593,6 +610,14 @@ impl Sign for HOTPOperation {
         Ok(struct_size + param_size + self.length)
     }
 
+    fn stateful_key(&self) -> Option<CK_OBJECT_HANDLE> {
+        self.update.map(|_| self.key_handle)
+    }
+
+    fn refresh_state(&mut self, key: &Object) -> Result<()> {
+        self.load_counter(key)
+    }
+
     fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
         if self.update == Some(true) {
             let mut attrs = CkAttrs::new();
@@ -639,12 +664,18 @@ impl Verify for HOTPOperation {
             self.generate_otp(&current_counter, &mut otp)?;
             if signature == otp {
                 if self.update.is_some() {
-                    self.counter = (c_val + 1).to_be_bytes();
+                    match c_val.checked_add(1) {
+                        Some(next) => self.counter = next.to_be_bytes(),
+                        None => break,
+                    }
                     self.update = Some(true);
                 }
                 return Ok(());
             }
-            c_val += 1;
+            c_val = match c_val.checked_add(1) {
+                Some(next) => next,
+                None => break,
+            };
         }
         Err(CKR_SIGNATURE_INVALID)?
     }
@@ -653,6 +684,14 @@ impl Verify for HOTPOperation {
         Ok(self.length)
     }
 
+    fn stateful_key(&self) -> Option<CK_OBJECT_HANDLE> {
+        self.update.map(|_| self.key_handle)
+    }
+
+    fn refresh_state(&mut self, key: &Object) -> Result<()> {
+        self.load_counter(key)
+    }
+
     fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
         if self.update == Some(true) {
             let mut attrs = CkAttrs::new();
diff --git a/src/mechanism.rs b/src/mechanism.rs
index 130eeb2..2e33d79 100644
--- a/src/mechanism.rs
+++ b/src/mechanism.rs
@@ -564,6 +564,20 @@ pub trait Sign: MechOperation {
         Err(CKR_GENERAL_ERROR)?
     }
 
+    /// Returns the handle of the key if the operation depends on, and changes,
+    /// the state stored with it (like an OTP counter).
+    fn stateful_key(&self) -> Option<CK_OBJECT_HANDLE> {
+        None
+    }
+
+    /// Loads the current state of the key into the operation.
+    ///
+    /// Called right before the operation completes, with the token held until
+    /// the updates are stored.
+    fn refresh_state(&mut self, _key: &Object) -> Result<()> {
+        Ok(())
+    }
+
     /// Returns updated attributes for an object if the operation modifies its state.
     ///
     /// This can be used by mechanisms to request the update of object
@@ -610,6 +624,20 @@ pub trait Verify: MechOperation {
         Err(CKR_GENERAL_ERROR)?
     }
 
+    /// Returns the handle of the key if the operation depends on, and changes,
+    /// the state stored with it (like an OTP counter).
+    fn stateful_key(&self) -> Option<CK_OBJECT_HANDLE> {
+        None
+    }
+
+    /// Loads the current state of the key into the operation.
+    ///
+    /// Called right before the operation completes, with the token held until
+    /// the updates are stored.
+    fn refresh_state(&mut self, _key: &Object) -> Result<()> {
+        Ok(())
+    }
+
     /// Returns updated attributes for an object if the operation modifies its state.
     ///
     /// This can be used by mechanisms to request the update of object
-- 
2.43.0


From 4cc17ba8fde3734642998af896c4265961d51ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 79/94] fix: bound the key derivation parameters read from
 storage

---
 src/storage/aci.rs      | 9 +++++++++
 src/storage/nssdb/ci.rs | 8 ++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/storage/aci.rs b/src/storage/aci.rs
index d0e3f88..e089411 100644
--- a/src/storage/aci.rs
+++ b/src/storage/aci.rs
@@ -21,6 +21,11 @@ use crate::CSPRNG;
 
 use asn1;
 
+/// The largest PBKDF2 iteration count honoured when read from storage. The
+/// count is not authenticated, and a damaged record must not keep a login
+/// busy for hours.
+const MAX_PBKDF2_ITERATIONS: u64 = 10_000_000;
+
 /// Derives a key using PBKDF2 (CKM_PKCS5_PBKD2) based on PKCS#5 v2.1.
 ///
 /// Uses the provided ASN.1 `PBKDF2Params` to configure the underlying
@@ -33,6 +38,10 @@ pub fn pbkdf2_derive(
 ) -> Result<Object> {
     let mech = facilities.mechanisms.get(CKM_PKCS5_PBKD2)?;
 
+    if params.iteration_count > MAX_PBKDF2_ITERATIONS {
+        return Err(CKR_MECHANISM_PARAM_INVALID)?;
+    }
+
     let ck_params = CK_PKCS5_PBKD2_PARAMS2 {
         saltSource: CKZ_SALT_SPECIFIED,
         pSaltSourceData: void_ptr!(params.salt.as_ptr()),
diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 53b4307..571328a 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -192,6 +192,10 @@ impl KeysWithCaching {
 /// Default PBE iteration count used by NSS (relevant for PBKDF2).
 pub const NSS_MP_PBE_ITERATION_COUNT: usize = 10000;
 
+/// Maximum length of the keys derived for encryption and signing, the length
+/// comes from the (unauthenticated) stored parameters.
+const MAX_DERIVED_KEY_LEN: u64 = 64;
+
 /// ASN.1 AlgorithmIdentifier used by NSS.
 ///
 /// NSS sometimes uses a broken encoding for algorithm parameters compared to
@@ -352,8 +356,8 @@ fn derive_key_internal<'a>(
         KeyOp::Signature => CKK_GENERIC_SECRET,
     };
     let ck_key_len: CK_ULONG = match params.key_length {
-        Some(l) => CK_ULONG::try_from(l)?,
-        None => return Err(CKR_MECHANISM_PARAM_INVALID)?,
+        Some(l) if l <= MAX_DERIVED_KEY_LEN => CK_ULONG::try_from(l)?,
+        _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
     };
     let ck_true: CK_BBOOL = CK_TRUE;
     let mut key_template = CkAttrs::with_capacity(5);
-- 
2.43.0


From 63829bf92430eadfaa9ce478f50806fd6a9f507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 80/94] fix: refuse truncated signatures of NSS attributes

---
 src/storage/nssdb/ci.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 571328a..17b9749 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -587,6 +587,12 @@ pub fn check_signature(
     };
 
     let result = match &pbmac1.message_auth_scheme.params {
+        /* never accept a truncated signature, it would make forgeries easy */
+        AlgorithmParameters::HmacWithSha256(None)
+            if info.enc_or_sig_data.len() != SHA256_LEN =>
+        {
+            Err(CKR_SIGNATURE_LEN_RANGE)?
+        }
         AlgorithmParameters::HmacWithSha256(None) => hmac_verify(
             facilities,
             CKM_SHA256_HMAC_GENERAL,
-- 
2.43.0


From 3ff42ea1e51e779c5048f08cbb272d8847951fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 81/94] fix: RSA key sizes are those of the modulus, without
 leading zeros

---
 src/ossl/rsa.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index a905dcf..7d7fe94 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -244,7 +244,13 @@ impl RsaPKCSOperation {
     /// Helper to get and validate the RSA key size from an `Object`.
     fn get_key_size(key: &Object, info: &CK_MECHANISM_INFO) -> Result<usize> {
         let modulus = key.get_attr_as_bytes(CKA_MODULUS)?;
-        let modulus_bits: CK_ULONG = modulus.len() as CK_ULONG * 8;
+        /* leading zeros do not count */
+        let modulus = match modulus.iter().position(|b| *b != 0) {
+            Some(idx) => &modulus[idx..],
+            None => return Err(CKR_KEY_SIZE_RANGE)?,
+        };
+        let modulus_bits: CK_ULONG = modulus.len() as CK_ULONG * 8
+            - modulus[0].leading_zeros() as CK_ULONG;
         if modulus_bits < info.ulMinKeySize
             || (info.ulMaxKeySize != 0 && modulus_bits > info.ulMaxKeySize)
         {
-- 
2.43.0


From 1ab3f980a09b1d6a359ac7b6c836dce9f7966702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 82/94] fix: TLS MACs need a key that may sign or verify

---
 src/fips/kats.rs     |  2 +-
 src/native/tlskdf.rs | 20 +++++++++++++-------
 src/tlskdf.rs        |  4 ++--
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/fips/kats.rs b/src/fips/kats.rs
index 02097f3..b0b61a6 100644
--- a/src/fips/kats.rs
+++ b/src/fips/kats.rs
@@ -124,7 +124,7 @@ pub static TLS_PRF_SELFTEST: LazyLock<FIPSSelftest> = LazyLock::new(|| {
 
     let mech = test_get_hmac(prf);
 
-    let mut tlsprf = match TLSPRF::init(&key, &mech, prf) {
+    let mut tlsprf = match TLSPRF::init(&key, &mech, prf, CKF_DERIVE) {
         Ok(a) => a,
         Err(_) => return FIPSSelftest::fail(),
     };
diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index ecf89c0..7a4f046 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -74,10 +74,12 @@ pub(crate) struct TLSPRF {
 
 impl TLSPRF {
     /// Initializes a new TLS PRF instance using the specified HMAC mechanism
+    /// for the type of operation the key is used for
     pub(crate) fn init(
         key: &Object,
         mech: &Box<dyn Mechanism>,
         prf: CK_MECHANISM_TYPE,
+        op_type: CK_FLAGS,
     ) -> Result<TLSPRF> {
         Ok(TLSPRF {
             op: mech.mac_new(
@@ -87,7 +89,7 @@ impl TLSPRF {
                     ulParameterLen: 0,
                 },
                 key,
-                CKF_DERIVE,
+                op_type,
             )?,
         })
     }
@@ -158,7 +160,7 @@ pub fn test_tlsprf(
     seed: &Vec<u8>,
     reqlen: usize,
 ) -> Result<Vec<u8>> {
-    let mut tlsprf = TLSPRF::init(key, mech, prf)?;
+    let mut tlsprf = TLSPRF::init(key, mech, prf, CKF_DERIVE)?;
     tlsprf.finish(seed, reqlen)
 }
 
@@ -645,7 +647,7 @@ impl TLSKDFOperation {
             _ => return Err(CKR_GENERAL_ERROR)?,
         };
         let dkmlen = TLS_MASTER_SECRET_SIZE as usize;
-        let mut tlsprf = TLSPRF::init(key, mech, self.prf)?;
+        let mut tlsprf = TLSPRF::init(key, mech, self.prf, CKF_DERIVE)?;
         let dkm = tlsprf.finish(&seed, dkmlen)?;
 
         factory.as_secret_key_factory()?.set_key(&mut dkey, dkm)?;
@@ -763,7 +765,7 @@ impl TLSKDFOperation {
             .and_then(|len| len.checked_add(self.ivlen))
             .and_then(|len| len.checked_mul(2))
             .ok_or(CKR_KEY_SIZE_RANGE)? as usize;
-        let mut tlsprf = TLSPRF::init(key, mech, self.prf)?;
+        let mut tlsprf = TLSPRF::init(key, mech, self.prf, CKF_DERIVE)?;
         let mut dkm = tlsprf.finish(&seed, dkmlen)?;
 
         let mut keys = Vec::<Object>::with_capacity(4);
@@ -872,7 +874,7 @@ impl TLSKDFOperation {
 
         let mech = mechanisms.get(self.prf)?;
         let seed = self.tls_prf_seed(true);
-        let mut tlsprf = TLSPRF::init(key, mech, self.prf)?;
+        let mut tlsprf = TLSPRF::init(key, mech, self.prf, CKF_DERIVE)?;
         let dkm = tlsprf.finish(&seed, dkmlen)?;
 
         factory.as_secret_key_factory()?.set_key(&mut dkey, dkm)?;
@@ -959,7 +961,11 @@ impl TLSMACOperation {
     /// Parses `CK_TLS_MAC_PARAMS`, validates the PRF mechanism and label
     /// choice (server/client finished), initializes the internal TLS PRF,
     /// and stores parameters.
-    pub fn new(mech: &CK_MECHANISM, key: &Object) -> Result<TLSMACOperation> {
+    pub fn new(
+        mech: &CK_MECHANISM,
+        key: &Object,
+        op_type: CK_FLAGS,
+    ) -> Result<TLSMACOperation> {
         #[cfg(feature = "fips")]
         if (*TLS_PRF_SELFTEST).result != CKR_OK {
             return Err((*TLS_PRF_SELFTEST).result)?;
@@ -989,7 +995,7 @@ impl TLSMACOperation {
             in_use: false,
             outputlen: maclen,
             seed: label.to_vec(),
-            tlsprf: TLSPRF::init(key, mac, prf)?,
+            tlsprf: TLSPRF::init(key, mac, prf, op_type)?,
             #[cfg(feature = "fips")]
             fips_approved: is_hmac_fips_approved(prf),
         })
diff --git a/src/tlskdf.rs b/src/tlskdf.rs
index 95b2c6a..91f00e9 100644
--- a/src/tlskdf.rs
+++ b/src/tlskdf.rs
@@ -113,7 +113,7 @@ impl Mechanism for TLSPRFMechanism {
         }
         match mech.mechanism {
             CKM_TLS_MAC | CKM_TLS12_MAC => {
-                Ok(Box::new(TLSMACOperation::new(mech, key)?))
+                Ok(Box::new(TLSMACOperation::new(mech, key, CKF_SIGN)?))
             }
             _ => Err(CKR_MECHANISM_INVALID)?,
         }
@@ -133,7 +133,7 @@ impl Mechanism for TLSPRFMechanism {
         }
         match mech.mechanism {
             CKM_TLS_MAC | CKM_TLS12_MAC => {
-                Ok(Box::new(TLSMACOperation::new(mech, key)?))
+                Ok(Box::new(TLSMACOperation::new(mech, key, CKF_VERIFY)?))
             }
             _ => Err(CKR_MECHANISM_INVALID)?,
         }
-- 
2.43.0


From 471a65d082c3a82c1140db19bb8c0fbb0bf7e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 83/94] fix: counter XOR IVs are made from the value of the
 first message

---
 src/ossl/aes.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index d19f121..8819c89 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -75,6 +75,9 @@ struct AesIvData {
     counter: u64,
     /// Maximum counter value before wrapping/error (if applicable).
     maxcount: u64,
+    /// IV provided for the first message, for generators that combine it
+    /// with the counter.
+    base: Vec<u8>,
 }
 
 impl AesIvData {
@@ -86,6 +89,7 @@ impl AesIvData {
             generator: CKG_NO_GENERATE,
             counter: 0,
             maxcount: 0,
+            base: Vec::new(),
         })
     }
 
@@ -97,6 +101,7 @@ impl AesIvData {
             generator: CKG_NO_GENERATE,
             counter: 0,
             maxcount: 0,
+            base: Vec::new(),
         })
     }
 }
@@ -104,6 +109,7 @@ impl AesIvData {
 impl Drop for AesIvData {
     fn drop(&mut self) {
         zeromem(self.buf.as_mut_slice());
+        zeromem(self.base.as_mut_slice());
     }
 }
 
@@ -512,6 +518,21 @@ impl AesOperation {
                 }
             }
             CKG_GENERATE_COUNTER_XOR => {
+                /* The counter is always combined with the value provided for
+                 * the first message: the buffer used for the next ones may
+                 * hold the IV generated for the previous message, and adding
+                 * the next counter to that would make IVs repeat */
+                if params.iv.counter == 0 {
+                    params.iv.base = params.iv.buf.clone();
+                } else if params.iv.base.len() == params.iv.buf.len() {
+                    let first = params.iv.base[genidx] & mask;
+                    params.iv.buf[genidx] &= !mask;
+                    params.iv.buf[genidx] |= first;
+                    params.iv.buf[(genidx + 1)..]
+                        .copy_from_slice(&params.iv.base[(genidx + 1)..]);
+                } else {
+                    return Err(CKR_ARGUMENTS_BAD)?;
+                }
                 let cntbuf = params.iv.counter.to_be_bytes();
                 if genbytes > cntbuf.len() {
                     let cntidx = params.iv.buf.len() - cntbuf.len();
@@ -824,6 +845,7 @@ impl AesOperation {
                         generator: params.nonceGenerator,
                         counter: self.params.iv.counter,
                         maxcount: self.params.iv.maxcount,
+                        base: std::mem::take(&mut self.params.iv.base),
                     };
                 } else {
                     self.params.iv = AesIvData {
@@ -832,6 +854,7 @@ impl AesOperation {
                         generator: CKG_NO_GENERATE,
                         counter: 0,
                         maxcount: 0,
+                        base: Vec::new(),
                     };
                 }
                 self.params.maxblocks = 0;
@@ -895,6 +918,7 @@ impl AesOperation {
                         generator: params.ivGenerator,
                         counter: self.params.iv.counter,
                         maxcount: self.params.iv.maxcount,
+                        base: std::mem::take(&mut self.params.iv.base),
                     };
                 } else {
                     self.params.iv = AesIvData {
@@ -903,6 +927,7 @@ impl AesOperation {
                         generator: CKG_NO_GENERATE,
                         counter: 0,
                         maxcount: 0,
+                        base: Vec::new(),
                     };
                 }
                 self.params.maxblocks = 0;
-- 
2.43.0


From 9e14bcdb8e1598c64185b58484cd0f92c52d8c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 84/94] hook: cfg(kv_md_state) makes digest states saveable for
 verification

With --cfg kv_md_state (never set by the build) OsslDigest saves and
restores states with any OpenSSL version, so that the code that handles
saved operation states can be run where EVP_MD_CTX_serialize() does not
exist. Nothing changes without the flag.
---
 ossl/src/digest.rs | 104 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 98 insertions(+), 6 deletions(-)

diff --git a/ossl/src/digest.rs b/ossl/src/digest.rs
index c253973..53d3291 100644
--- a/ossl/src/digest.rs
+++ b/ossl/src/digest.rs
@@ -3,6 +3,8 @@
 
 //! This module provides a coherent abstraction over the OpenSSL digest apis
 
+#![allow(unexpected_cfgs)]
+
 use std::ffi::{c_uint, c_void, CStr};
 
 use crate::bindings::*;
@@ -67,6 +69,79 @@ pub struct EvpMdCtx {
     ptr: *mut EVP_MD_CTX,
 }
 
+/// Verification hook: with `--cfg kv_md_state` the state of a digest can be
+/// saved with any OpenSSL version. The saved bytes are a checksummed reference
+/// to a copy of the context that is kept in this process.
+#[cfg(kv_md_state)]
+mod kv_md_state {
+    use super::*;
+    use std::sync::Mutex;
+
+    /// The copies are kept in a ring, the oldest are dropped.
+    struct Saved(u64, EvpMdCtx);
+    unsafe impl Send for Saved {}
+    static SAVED: Mutex<(u64, Vec<Saved>)> = Mutex::new((0, Vec::new()));
+    const RING: u64 = 1 << 17;
+    pub const LEN: usize = 40;
+
+    fn encode(idx: u64, name: &[u8]) -> [u8; LEN] {
+        let mut out = [0u8; LEN];
+        out[..8].copy_from_slice(&idx.to_le_bytes());
+        let n = std::cmp::min(name.len(), 24);
+        out[8..8 + n].copy_from_slice(&name[..n]);
+        let mut h = 0xcbf29ce484222325u64;
+        for b in &out[..32] {
+            h = (h ^ u64::from(*b)).wrapping_mul(0x100000001b3);
+        }
+        out[32..].copy_from_slice(&h.to_le_bytes());
+        out
+    }
+    fn name(ctx: *const EVP_MD_CTX) -> Vec<u8> {
+        unsafe {
+            let md = EVP_MD_CTX_get0_md(ctx);
+            if md.is_null() {
+                return Vec::new();
+            }
+            CStr::from_ptr(EVP_MD_get0_name(md)).to_bytes().to_vec()
+        }
+    }
+    pub fn save(ctx: &EvpMdCtx) -> Result<[u8; LEN], Error> {
+        let copy = ctx.try_clone()?;
+        let mut saved = SAVED.lock().unwrap();
+        let idx = saved.0;
+        saved.0 += 1;
+        if idx < RING {
+            saved.1.push(Saved(idx, copy));
+        } else {
+            saved.1[(idx % RING) as usize] = Saved(idx, copy);
+        }
+        let name = name(unsafe { ctx.as_ptr() });
+        Ok(encode(idx, &name))
+    }
+    pub fn load(ctx: &mut EvpMdCtx, state: &[u8]) -> Result<(), Error> {
+        if state.len() != LEN {
+            return Err(Error::new(ErrorKind::BufferSize));
+        }
+        let idx = u64::from_le_bytes(state[..8].try_into().unwrap());
+        let name = name(unsafe { ctx.as_ptr() });
+        if state != encode(idx, &name) {
+            return Err(Error::new(ErrorKind::OsslError));
+        }
+        let saved = SAVED.lock().unwrap();
+        let old = saved
+            .1
+            .get((idx % RING) as usize)
+            .filter(|s| s.0 == idx)
+            .ok_or(Error::new(ErrorKind::OsslError))?;
+        let ret =
+            unsafe { EVP_MD_CTX_copy_ex(ctx.as_mut_ptr(), old.1.as_ptr()) };
+        if ret != 1 {
+            return Err(Error::new(ErrorKind::OsslError));
+        }
+        Ok(())
+    }
+}
+
 /// Methods for creating and accessing `EvpMdCtx`.
 impl EvpMdCtx {
     pub fn new() -> Result<EvpMdCtx, Error> {
@@ -136,6 +211,23 @@ impl EvpMdCtx {
         Ok(outlen)
     }
 
+    #[cfg(all(kv_md_state, not(ossl_v400)))]
+    pub fn serialize(&self, state: Option<&mut [u8]>) -> Result<usize, Error> {
+        if let Some(out) = state {
+            if kv_md_state::LEN > out.len() {
+                return Err(Error::new(ErrorKind::BufferSize));
+            }
+            let saved = kv_md_state::save(self)?;
+            out[..saved.len()].copy_from_slice(&saved);
+        }
+        Ok(kv_md_state::LEN)
+    }
+
+    #[cfg(all(kv_md_state, not(ossl_v400)))]
+    pub fn deserialize(&mut self, state: &[u8]) -> Result<(), Error> {
+        kv_md_state::load(self, state)
+    }
+
     #[cfg(ossl_v400)]
     pub fn deserialize(&mut self, state: &[u8]) -> Result<(), Error> {
         let ret = unsafe {
@@ -351,29 +443,29 @@ impl OsslDigest {
         })
     }
 
-    #[cfg(ossl_v400)]
+    #[cfg(any(ossl_v400, kv_md_state))]
     pub fn get_state_size(&self) -> Result<usize, Error> {
         self.ctx.serialize(None)
     }
-    #[cfg(not(ossl_v400))]
+    #[cfg(not(any(ossl_v400, kv_md_state)))]
     pub fn get_state_size(&self) -> Result<usize, Error> {
         Err(Error::new(ErrorKind::WrapperError))
     }
 
-    #[cfg(ossl_v400)]
+    #[cfg(any(ossl_v400, kv_md_state))]
     pub fn get_state(&self, state: &mut [u8]) -> Result<usize, Error> {
         self.ctx.serialize(Some(state))
     }
-    #[cfg(not(ossl_v400))]
+    #[cfg(not(any(ossl_v400, kv_md_state)))]
     pub fn get_state(&self, _state: &mut [u8]) -> Result<usize, Error> {
         Err(Error::new(ErrorKind::WrapperError))
     }
 
-    #[cfg(ossl_v400)]
+    #[cfg(any(ossl_v400, kv_md_state))]
     pub fn set_state(&mut self, state: &[u8]) -> Result<(), Error> {
         self.ctx.deserialize(state)
     }
-    #[cfg(not(ossl_v400))]
+    #[cfg(not(any(ossl_v400, kv_md_state)))]
     pub fn set_state(&mut self, _state: &[u8]) -> Result<(), Error> {
         Err(Error::new(ErrorKind::WrapperError))
     }
-- 
2.43.0


From bbaee2ea9a683e1c17e82bcd4d0a5779aee1a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 85/94] fix: a restored HMAC operation is in progress

C_Sign and C_Verify were accepted after C_SetOperationState restored a
multi-part HMAC operation, and gave the MAC of the data of both.
---
 src/native/hmac.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/native/hmac.rs b/src/native/hmac.rs
index 0411c3e..60d9170 100644
--- a/src/native/hmac.rs
+++ b/src/native/hmac.rs
@@ -161,6 +161,8 @@ impl HMACOperation {
 
         let hash = hmac_mech_to_hash_mech(mech)?;
         op.inner = hash::internal_hash_restore_op(hash, save_state.dgst_state)?;
+        /* a restored state can only be continued */
+        op.in_use = true;
         Ok(op)
     }
 
-- 
2.43.0


From c27a225c7ad0128cb6abbe74d350471590c1f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 86/94] fix: a saved state with several operations is restored
 whole or not at all

The state of a digest together with a MAC could never be restored: with a
key it was refused as not needing one, and without a key the digest was
replaced before the call failed with CKR_KEY_NEEDED.
---
 src/session.rs | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 5bb437f..74737f0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -774,29 +774,46 @@ impl Session {
         if let Some(_op) = opstate.dec {
             return Err(CKR_GENERAL_ERROR)?;
         }
-        if let Some(op) = opstate.dgst {
-            if key.is_some() {
-                return Err(CKR_KEY_NOT_NEEDED)?;
+        if let Some(_op) = opstate.versig {
+            return Err(CKR_SAVED_STATE_INVALID)?;
+        }
+        if key.is_some() && opstate.sig.is_none() && opstate.ver.is_none() {
+            return Err(CKR_KEY_NOT_NEEDED)?;
+        }
+
+        /* restore all of the operations or none */
+        let dgst = match opstate.dgst {
+            Some(op) => {
+                let mech = mechanisms.get(op.mech)?;
+                Some(mech.digest_restore(op.mech, op.data)?)
+            }
+            None => None,
+        };
+        let sig = match opstate.sig {
+            Some(op) => {
+                let op_key = key.ok_or(CKR_KEY_NEEDED)?;
+                let mech = mechanisms.get(op.mech)?;
+                Some(mech.sign_restore(op.mech, op_key, op.data)?)
             }
-            let mech = mechanisms.get(op.mech)?;
-            let operation = mech.digest_restore(op.mech, op.data)?;
+            None => None,
+        };
+        let ver = match opstate.ver {
+            Some(op) => {
+                let op_key = key.ok_or(CKR_KEY_NEEDED)?;
+                let mech = mechanisms.get(op.mech)?;
+                Some(mech.verify_restore(op.mech, op_key, op.data)?)
+            }
+            None => None,
+        };
+        if let Some(operation) = dgst {
             <dyn Digest>::set_op(&mut self.operations, operation);
         }
-        if let Some(op) = opstate.sig {
-            let op_key = key.ok_or(CKR_KEY_NEEDED)?;
-            let mech_h = mechanisms.get(op.mech)?;
-            let operation = mech_h.sign_restore(op.mech, op_key, op.data)?;
+        if let Some(operation) = sig {
             <dyn Sign>::set_op(&mut self.operations, operation);
         }
-        if let Some(op) = opstate.ver {
-            let op_key = key.ok_or(CKR_KEY_NEEDED)?;
-            let mech_h = mechanisms.get(op.mech)?;
-            let operation = mech_h.verify_restore(op.mech, op_key, op.data)?;
+        if let Some(operation) = ver {
             <dyn Verify>::set_op(&mut self.operations, operation);
         }
-        if let Some(_op) = opstate.versig {
-            return Err(CKR_SAVED_STATE_INVALID)?;
-        }
 
         Ok(())
     }
-- 
2.43.0


From 7f67cc8a35e4862e4121224458e4f5b6edfa4fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 87/94] fix: restoring a MAC operation respects
 CKA_ALLOWED_MECHANISMS

---
 src/session.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 74737f0..935b91b 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -7,6 +7,7 @@
 
 use std::sync::LazyLock;
 
+use crate::check_allowed_mechs;
 use crate::encryption;
 use crate::error::Result;
 use crate::kasn1::*;
@@ -781,6 +782,18 @@ impl Session {
             return Err(CKR_KEY_NOT_NEEDED)?;
         }
 
+        let key_allows = |mechanism: CK_MECHANISM_TYPE, key: &Object| {
+            let mech = CK_MECHANISM {
+                mechanism,
+                pParameter: std::ptr::null_mut(),
+                ulParameterLen: 0,
+            };
+            match check_allowed_mechs(&mech, key) {
+                CKR_OK => Ok(()),
+                err => Err(err),
+            }
+        };
+
         /* restore all of the operations or none */
         let dgst = match opstate.dgst {
             Some(op) => {
@@ -792,6 +805,7 @@ impl Session {
         let sig = match opstate.sig {
             Some(op) => {
                 let op_key = key.ok_or(CKR_KEY_NEEDED)?;
+                key_allows(op.mech, op_key)?;
                 let mech = mechanisms.get(op.mech)?;
                 Some(mech.sign_restore(op.mech, op_key, op.data)?)
             }
@@ -800,6 +814,7 @@ impl Session {
         let ver = match opstate.ver {
             Some(op) => {
                 let op_key = key.ok_or(CKR_KEY_NEEDED)?;
+                key_allows(op.mech, op_key)?;
                 let mech = mechanisms.get(op.mech)?;
                 Some(mech.verify_restore(op.mech, op_key, op.data)?)
             }
-- 
2.43.0


From 25a8a4d844003fdc9695b77afeb93dbef5eed691 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 88/94] fix: a message whose parameters the cipher refuses must
 not leave the operation busy

---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 8819c89..f59ec2a 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1068,7 +1068,6 @@ impl AesOperation {
         zeromem(self.buffer.as_mut_slice());
         self.buffer.clear();
         self.finalized = false;
-        self.in_use = true;
 
         self.ctx = Some(Self::cipher_initialize(
             self.mech,
@@ -1076,6 +1075,7 @@ impl AesOperation {
             &self.key,
             true,
         )?);
+        self.in_use = true;
 
         if self.params.iv.generator != CKG_NO_GENERATE {
             let iv = unsafe {
@@ -1138,7 +1138,6 @@ impl AesOperation {
         zeromem(self.buffer.as_mut_slice());
         self.buffer.clear();
         self.finalized = false;
-        self.in_use = true;
 
         self.ctx = Some(Self::cipher_initialize(
             self.mech,
@@ -1146,6 +1145,7 @@ impl AesOperation {
             &self.key,
             false,
         )?);
+        self.in_use = true;
 
         #[cfg(feature = "fips")]
         self.fips_approval_aead()?;
-- 
2.43.0


From 4395542149dd157b7400a50df481e08490f77ac8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 89/94] fix: softhsm_migrate imports into the slot given with
 --pkcs11-slot

---
 tools/softhsm/migrate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 7fad830..2f1a7c1 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -1044,6 +1044,10 @@ fn main() -> ExitCode {
         }
     }
 
+    if let Some(slot) = args.pkcs11_slot {
+        pkcs11.slot = slot as CK_ULONG;
+    }
+
     if let Some(pin) = args.pkcs11_pin.as_deref() {
         match pkcs11.login(pin) {
             Ok(_) => (),
-- 
2.43.0


From a5f7c11606e203aec1ed1f12880c29bec6926e50 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 90/94] fix: softhsm_migrate converts the byte order of allowed
 mechanisms

---
 tools/softhsm/migrate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 2f1a7c1..9c5c773 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -683,7 +683,10 @@ fn read_next_attribute(
                     )
                     .into());
                 }
-                attr.value.extend_from_slice(&data[index..index + len]);
+                for i in 0..count {
+                    let mech = ck_ulong_from_buf(data, index + i * 8);
+                    attr.value.extend_from_slice(&mech.to_ne_bytes());
+                }
                 index += len;
             }
         }
-- 
2.43.0


From 6157a59221a0be73bffc6e883eea520536bd260c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 91/94] fix: softhsm_migrate reads every element of an
 attribute map

---
 tools/softhsm/migrate.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 9c5c773..28e27c1 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -507,6 +507,7 @@ fn read_next_attribute(
     attr: &mut Attribute,
 ) -> Result<usize, Error> {
     let mut index = 0;
+    let mut array_len = None;
 
     if data.len() < index + 8 {
         return Err("Error parsing next attribute type (short read)".into());
@@ -601,7 +602,7 @@ fn read_next_attribute(
                     },
                 };
                 let step = read_next_attribute(
-                    &data[index..index + len],
+                    &data[index + subidx..index + len],
                     &mut subattr,
                 )?;
                 subidx += step;
@@ -661,6 +662,8 @@ fn read_next_attribute(
                 data_idx += a.attr.ulValueLen as usize;
                 obj_idx += std::mem::size_of::<CK_ATTRIBUTE>();
             }
+            /* the data that follows the array is not part of it */
+            array_len = Some(obj_idx);
             index += len;
         }
         MECHSET_ATTR => {
@@ -696,7 +699,8 @@ fn read_next_attribute(
     attr.attr.type_ = attr_type as CK_ULONG;
     if attr.value.len() > 0 {
         attr.attr.pValue = attr.value.as_ptr() as *const _ as CK_VOID_PTR;
-        attr.attr.ulValueLen = attr.value.len() as CK_ULONG;
+        attr.attr.ulValueLen =
+            array_len.unwrap_or(attr.value.len()) as CK_ULONG;
     } else {
         attr.attr.pValue = std::ptr::null_mut();
         attr.attr.ulValueLen = 0;
-- 
2.43.0


From eaef5237410d10029a251980a901b80c5b5d993f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 92/94] fix: softhsm_migrate decrypts the values of private
 objects and of no other

---
 tools/softhsm/migrate.rs | 77 +++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 28e27c1..e1747c5 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -498,6 +498,7 @@ const ATTRMAP_ATTR: u64 = 4;
 const MECHSET_ATTR: u64 = 5;
 
 struct Attribute {
+    kind: u64,
     value: Vec<u8>,
     attr: CK_ATTRIBUTE,
 }
@@ -594,6 +595,7 @@ fn read_next_attribute(
             let mut subattrs = Vec::<Attribute>::new();
             while subidx < len {
                 let mut subattr = Attribute {
+                    kind: 0,
                     value: Vec::new(),
                     attr: CK_ATTRIBUTE {
                         type_: 0,
@@ -696,6 +698,7 @@ fn read_next_attribute(
         _ => return Err(format!("Invalid type for attr {}", attr_type).into()),
     }
 
+    attr.kind = attr_kind;
     attr.attr.type_ = attr_type as CK_ULONG;
     if attr.value.len() > 0 {
         attr.attr.pValue = attr.value.as_ptr() as *const _ as CK_VOID_PTR;
@@ -725,6 +728,7 @@ fn read_object(path: &PathBuf) -> Result<Vec<Attribute>, Error> {
 
     while size > index {
         let mut attr = Attribute {
+            kind: 0,
             value: Vec::new(),
             attr: CK_ATTRIBUTE {
                 type_: 0,
@@ -859,6 +863,43 @@ fn import_obj(
     Ok(())
 }
 
+/* SoftHSM encrypts all the byte strings set on private objects, and nothing
+ * else */
+fn is_private(attrs: &Vec<Attribute>, default: bool) -> bool {
+    match attrs.iter().find(|a| a.attr.type_ == CKA_PRIVATE) {
+        Some(a) => a.value.iter().any(|b| *b != 0),
+        None => default,
+    }
+}
+
+fn decrypt_values(
+    pkcs11: &mut FuncList,
+    attrs: &mut Vec<Attribute>,
+    ekey: &Vec<u8>,
+) -> Result<(), String> {
+    for a in &mut *attrs {
+        if a.kind != BYTESTR_ATTR {
+            continue;
+        }
+        /* Encrypted values are bigger than 16 bytes (IV size), what is smaller
+         * (dates, empty default values) is stored as is */
+        if a.attr.ulValueLen > 16 {
+            match decrypt_cbc_buffer(pkcs11, a.value.as_slice(), ekey) {
+                Ok(v) => {
+                    /* replace encrypted with plain text */
+                    a.value = v;
+                    a.attr.pValue = a.value.as_ptr() as *const _ as CK_VOID_PTR;
+                    a.attr.ulValueLen = a.value.len() as CK_ULONG;
+                }
+                Err(e) => {
+                    return Err(format!("Failed to decrypt values: {}", e));
+                }
+            }
+        }
+    }
+    Ok(())
+}
+
 fn import_key(
     pkcs11: &mut FuncList,
     class: CK_OBJECT_CLASS,
@@ -878,26 +919,20 @@ fn import_key(
         _ => return Err(format!("Unsupported key type {:x}", key_type)),
     }
 
-    for a in &mut *attrs {
-        /* Skip values that are not byte buffers but can be larger than 16 bytes */
-        match a.attr.type_ {
-            CKA_ALLOWED_MECHANISMS => continue,
-            _ => (),
-        }
-        /* Assume all other values bigger than 16 bytes (IV size) are encrypted */
-        if a.attr.ulValueLen > 16 {
-            match decrypt_cbc_buffer(pkcs11, a.value.as_slice(), ekey) {
-                Ok(v) => {
-                    /* replace encrypted with plain text */
-                    a.value = v;
-                    a.attr.pValue = a.value.as_ptr() as *const _ as CK_VOID_PTR;
-                    a.attr.ulValueLen = a.value.len() as CK_ULONG;
-                }
-                Err(e) => {
-                    return Err(format!("Failed to decrypt key values: {}", e));
-                }
-            }
-        }
+    if is_private(attrs, true) {
+        decrypt_values(pkcs11, attrs, ekey)?;
+    }
+    import_obj(pkcs11, class, attrs)
+}
+
+fn import_public(
+    pkcs11: &mut FuncList,
+    class: CK_OBJECT_CLASS,
+    attrs: &mut Vec<Attribute>,
+    ekey: &Vec<u8>,
+) -> Result<(), String> {
+    if is_private(attrs, false) {
+        decrypt_values(pkcs11, attrs, ekey)?;
     }
     import_obj(pkcs11, class, attrs)
 }
@@ -975,7 +1010,7 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
                 }
             }
             CKO_CERTIFICATE | CKO_PUBLIC_KEY => {
-                match import_obj(pkcs11, class, &attrs) {
+                match import_public(pkcs11, class, &mut attrs, &encryptionkey) {
                     Ok(()) => println!("Object imported"),
                     Err(s) => {
                         eprintln!("Failed to import object {}:", s);
-- 
2.43.0


From 7c95e5ecd353ea72ae81762c14f3e97ada19318f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 93/94] fix: softhsm_migrate reports malformed tokens and
 objects instead of panicking

---
 tools/softhsm/migrate.rs | 45 ++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index e1747c5..f0aa96c 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -468,6 +468,9 @@ fn decrypt_cbc_buffer(
     buf: &[u8],
     key: &Vec<u8>,
 ) -> Result<Vec<u8>, Error> {
+    if buf.len() <= 16 {
+        return Err("Encrypted value is too short".into());
+    }
     let session = pkcs11.open_session()?;
 
     let handle = pkcs11.import_aes_key(session, key)?;
@@ -506,6 +509,7 @@ struct Attribute {
 fn read_next_attribute(
     data: &[u8],
     attr: &mut Attribute,
+    nested: bool,
 ) -> Result<usize, Error> {
     let mut index = 0;
     let mut array_len = None;
@@ -563,7 +567,7 @@ fn read_next_attribute(
             index += 8;
 
             if len > 0 {
-                if data.len() < index + len {
+                if data.len() - index < len {
                     return Err(format!(
                         "Error parsing bytestr attr {} (out of bounds)",
                         attr_type
@@ -575,6 +579,13 @@ fn read_next_attribute(
             }
         }
         ATTRMAP_ATTR => {
+            if nested {
+                return Err(format!(
+                    "Error parsing attrmap attr {} (nested map)",
+                    attr_type
+                )
+                .into());
+            }
             if data.len() < index + 8 {
                 return Err(format!(
                     "Error parsing attrmap attr {} (short read)",
@@ -584,7 +595,7 @@ fn read_next_attribute(
             }
             let len = u64_from_buf(data, index) as usize;
             index += 8;
-            if data.len() < index + len {
+            if data.len() - index < len {
                 return Err(format!(
                     "Error parsing attrmap attr {} (out of bounds)",
                     attr_type
@@ -606,6 +617,7 @@ fn read_next_attribute(
                 let step = read_next_attribute(
                     &data[index + subidx..index + len],
                     &mut subattr,
+                    true,
                 )?;
                 subidx += step;
                 subattrs.push(subattr);
@@ -680,14 +692,14 @@ fn read_next_attribute(
             index += 8;
 
             if count > 0 {
-                let len = count * 8;
-                if data.len() < index + len {
+                if (data.len() - index) / 8 < count {
                     return Err(format!(
                         "Error parsing mechset attr {} (out of bounds)",
                         attr_type
                     )
                     .into());
                 }
+                let len = count * 8;
                 for i in 0..count {
                     let mech = ck_ulong_from_buf(data, index + i * 8);
                     attr.value.extend_from_slice(&mech.to_ne_bytes());
@@ -736,7 +748,7 @@ fn read_object(path: &PathBuf) -> Result<Vec<Attribute>, Error> {
                 ulValueLen: 0,
             },
         };
-        let step = read_next_attribute(&data[index..], &mut attr)?;
+        let step = read_next_attribute(&data[index..], &mut attr, false)?;
         index += step;
         attrs.push(attr);
     }
@@ -751,6 +763,9 @@ fn encryption_key(
     ek: &Vec<u8>,
     pin: &Vec<u8>,
 ) -> Result<Vec<u8>, Error> {
+    if ek.len() < 8 {
+        return Err("Encryption key is too short".into());
+    }
     let salt = &ek[0..8]; /* 8 bytes salt */
 
     let session = pkcs11.open_session()?;
@@ -779,7 +794,7 @@ fn encryption_key(
     }
 
     let key = decrypt_cbc_buffer(pkcs11, &ek[8..], &data)?;
-    if key[0..3] != MAGIC_VALUE {
+    if !key.starts_with(&MAGIC_VALUE) {
         return Err("Invalid PIN, magic value check failed!".into());
     }
     Ok(key[3..].to_vec())
@@ -792,7 +807,9 @@ fn find_ulong(
     let mut val = CK_UNAVAILABLE_INFORMATION;
     for a in attrs {
         if a.attr.type_ == typ {
-            val = unsafe { *(a.attr.pValue as CK_ULONG_PTR) };
+            if let Ok(v) = a.value.as_slice().try_into() {
+                val = CK_ULONG::from_ne_bytes(v);
+            }
             break;
         }
     }
@@ -977,12 +994,18 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
 
     let mut error = 0u8;
 
-    for ent in read_dir(token).unwrap() {
-        let f = ent.unwrap();
-        if !f.file_type().unwrap().is_file() {
+    let entries: Vec<_> = match read_dir(token).and_then(Iterator::collect) {
+        Ok(e) => e,
+        Err(e) => {
+            eprintln!("{}", e);
+            return 0xFE;
+        }
+    };
+    for f in entries {
+        if !f.file_type().is_ok_and(|t| t.is_file()) {
             continue;
         }
-        let fname = f.file_name().into_string().unwrap();
+        let fname = f.file_name().to_string_lossy().into_owned();
         if !fname.ends_with(".object") || fname == "token.object" {
             continue;
         }
-- 
2.43.0


From ca64db7485e70006c4c6a46b566f502ab148cb2b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 94/94] fix: softhsm_migrate exit status with more than 253
 failed objects

---
 tools/softhsm/migrate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index f0aa96c..b60f629 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -963,6 +963,9 @@ const CKA_OS_SOPIN: CK_ULONG = CKA_VENDOR_SOFTHSM + 4;
 */
 const CKA_OS_USERPIN: CK_ULONG = CKA_VENDOR_SOFTHSM + 5;
 
+/* the exit status counts up to this many failed objects */
+const MAX_FAILED: u8 = 253;
+
 fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
     /* check this is a token dir */
     let mut tokfile = token.clone();
@@ -1016,7 +1019,7 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
             Ok(a) => a,
             Err(e) => {
                 eprintln!("Failed to parse: {}", e);
-                error += 1;
+                error = MAX_FAILED.min(error + 1);
                 continue;
             }
         };
@@ -1028,7 +1031,7 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
                     Ok(()) => println!("Key imported"),
                     Err(s) => {
                         eprintln!("Failed to import key: {}", s);
-                        error += 1;
+                        error = MAX_FAILED.min(error + 1);
                     }
                 }
             }
@@ -1037,13 +1040,13 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
                     Ok(()) => println!("Object imported"),
                     Err(s) => {
                         eprintln!("Failed to import object {}:", s);
-                        error += 1;
+                        error = MAX_FAILED.min(error + 1);
                     }
                 }
             }
             _ => {
                 eprintln!("Unsupported object class({})", class);
-                error += 1;
+                error = MAX_FAILED.min(error + 1);
             }
         }
     }
-- 
2.43.0

