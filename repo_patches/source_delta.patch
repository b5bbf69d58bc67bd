From 7e33c5af020f36029d8f323e7db4bd51f0a95a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 01/43] fix: an ERROR response replaces a partially written
 response instead of being appended to it

---
 codec/src/codec.rs                 | 5 +++++
 spdmlib/src/responder/error_rsp.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/codec/src/codec.rs b/codec/src/codec.rs
index 46ebe51..755260e 100644
--- a/codec/src/codec.rs
+++ b/codec/src/codec.rs
@@ -86,6 +86,11 @@ impl<'a> Writer<'a> {
         Some(value)
     }
 
+    /// Discard everything that has been written so far.
+    pub fn clear(&mut self) {
+        self.offs = 0;
+    }
+
     pub fn left(&self) -> usize {
         self.buf.len() - self.offs
     }
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index a8c3f76..4a74811 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -27,6 +27,8 @@ impl<'a> ResponderContext<'a> {
                 ),
             }),
         };
+        // An ERROR replaces whatever response was encoded before the failure.
+        writer.clear();
         let _ = error.spdm_encode(&mut self.common, writer);
     }
 
-- 
2.43.0


From 391d171195e12e9d2bfef2432aec400c1443adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 02/43] fix: a CHALLENGE or GET_MEASUREMENTS whose signing
 failed is answered with ERROR, not with the unsigned response

---
 spdmlib/src/responder/challenge_rsp.rs   | 2 +-
 spdmlib/src/responder/measurement_rsp.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 5974d33..1272d4b 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -172,7 +172,7 @@ impl<'a> ResponderContext<'a> {
 
         let signature = self.generate_challenge_auth_signature();
         if signature.is_err() {
-            self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
         let signature = signature.unwrap();
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index f4d53e7..390f827 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -230,7 +230,7 @@ impl<'a> ResponderContext<'a> {
 
             let signature = self.generate_measurement_signature(session_id);
             if signature.is_err() {
-                self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
             }
             let signature = signature.unwrap();
-- 
2.43.0


From 7aac23a3e8ce79075cca6cc7c9e3a3a052188ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 03/43] fix: KEY_EXCHANGE_RSP carries its signature in
 HANDSHAKE_IN_THE_CLEAR mode too

---
 spdmlib/src/responder/key_exchange_rsp.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 66321b5..40fda69 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -342,6 +342,9 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
         let signature = signature.unwrap();
+        // patch the message before send
+        writer.mut_used_slice()[temp_used..temp_used + base_asym_size]
+            .copy_from_slice(signature.as_ref());
 
         if self
             .common
@@ -410,9 +413,6 @@ impl<'a> ResponderContext<'a> {
             }
 
             // patch the message before send
-            writer.mut_used_slice()
-                [(used - base_hash_size - base_asym_size)..(used - base_hash_size)]
-                .copy_from_slice(signature.as_ref());
             writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
         }
 
-- 
2.43.0


From 3168d3d4d9aa4fbfb7da4b924680c72f489618ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 04/43] fix: a failed KEY_EXCHANGE or PSK_EXCHANGE is answered
 with ERROR and releases its session

---
 spdmlib/src/common/mod.rs                 |  7 ++++++
 spdmlib/src/responder/key_exchange_rsp.rs | 20 +++++++++++++++--
 spdmlib/src/responder/psk_exchange_rsp.rs | 27 +++++++++++++++++++----
 3 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 0202a98..a03bcdd 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -202,6 +202,13 @@ impl<'a> SpdmContext<'a> {
             .find(|&session| session.get_session_id() == session_id)
     }
 
+    /// Release a session whose establishment failed.
+    pub fn abort_session(&mut self, session_id: u32) {
+        if let Some(session) = self.get_session_via_id(session_id) {
+            let _ = session.teardown(session_id);
+        }
+    }
+
     pub fn get_session_via_id(&mut self, session_id: u32) -> Option<&mut SpdmSession> {
         self.session
             .iter_mut()
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 40fda69..80fecc9 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -25,7 +25,8 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_key_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_key_exchange_response(bytes, &mut writer)?;
+        // on failure the writer holds the ERROR to be sent
+        let _ = self.write_spdm_key_exchange_response(bytes, &mut writer);
         self.send_message(writer.used_slice())
     }
 
@@ -254,6 +255,7 @@ impl<'a> ResponderContext<'a> {
         let mut random = [0u8; SPDM_RANDOM_SIZE];
         let res = crypto::rand::get_random(&mut random);
         if res.is_err() {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -300,6 +302,7 @@ impl<'a> ResponderContext<'a> {
 
         let res = response.spdm_encode(&mut self.common, writer);
         if res.is_err() {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
@@ -319,6 +322,7 @@ impl<'a> ResponderContext<'a> {
             .append_message_k(session_id, &bytes[..reader.used()])
             .is_err()
         {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -327,6 +331,7 @@ impl<'a> ResponderContext<'a> {
             .append_message_k(session_id, &writer.used_slice()[..temp_used])
             .is_err()
         {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -338,6 +343,7 @@ impl<'a> ResponderContext<'a> {
 
         let signature = self.generate_key_exchange_rsp_signature(slot_id as u8, session);
         if signature.is_err() {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -351,6 +357,7 @@ impl<'a> ResponderContext<'a> {
             .append_message_k(session_id, signature.as_ref())
             .is_err()
         {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -365,6 +372,7 @@ impl<'a> ResponderContext<'a> {
             .common
             .calc_rsp_transcript_hash(false, slot_id as u8, false, session);
         if th1.is_err() {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -372,7 +380,14 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.common.abort_session(session_id);
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         if !in_clear_text {
             let session = self
@@ -385,6 +400,7 @@ impl<'a> ResponderContext<'a> {
                 self.common
                     .calc_rsp_transcript_hash(false, slot_id as u8, false, session);
             if transcript_hash.is_err() {
+                self.common.abort_session(session_id);
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return Err(SPDM_STATUS_CRYPTO_ERROR);
             }
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 06a49d5..52b240d 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -25,7 +25,8 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_exchange_response(bytes, &mut writer)?;
+        // on failure the writer holds the ERROR to be sent
+        let _ = self.write_spdm_psk_exchange_response(bytes, &mut writer);
         self.send_message(writer.used_slice())
     }
 
@@ -243,6 +244,7 @@ impl<'a> ResponderContext<'a> {
 
         let res = response.spdm_encode(&mut self.common, writer);
         if res.is_err() {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
@@ -256,6 +258,7 @@ impl<'a> ResponderContext<'a> {
             .append_message_k(session_id, &bytes[..reader.used()])
             .is_err()
         {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -264,6 +267,7 @@ impl<'a> ResponderContext<'a> {
             .append_message_k(session_id, &writer.used_slice()[..temp_used])
             .is_err()
         {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -278,6 +282,7 @@ impl<'a> ResponderContext<'a> {
             .common
             .calc_rsp_transcript_hash(true, INVALID_SLOT, false, session);
         if th1.is_err() {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -285,7 +290,14 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.common.abort_session(session_id);
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         let session = self
             .common
@@ -296,6 +308,7 @@ impl<'a> ResponderContext<'a> {
             self.common
                 .calc_rsp_transcript_hash(true, INVALID_SLOT, false, session);
         if transcript_hash.is_err() {
+            self.common.abort_session(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
@@ -339,6 +352,7 @@ impl<'a> ResponderContext<'a> {
                 .common
                 .calc_rsp_transcript_hash(true, 0, false, session);
             if th2.is_err() {
+                self.common.abort_session(session_id);
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return Err(SPDM_STATUS_CRYPTO_ERROR);
             }
@@ -346,9 +360,14 @@ impl<'a> ResponderContext<'a> {
             debug!("!!! th2 : {:02x?}\n", th2.as_ref());
             let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
             let session = self.common.get_session_via_id(session_id).unwrap();
-            session
+            if session
                 .generate_data_secret(spdm_version_sel, &th2)
-                .unwrap();
+                .is_err()
+            {
+                self.common.abort_session(session_id);
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return Err(SPDM_STATUS_CRYPTO_ERROR);
+            }
             session.set_session_state(
                 crate::common::session::SpdmSessionState::SpdmSessionEstablished,
             );
-- 
2.43.0


From 0a7a9905521145d4692c36dfc3ac7710b7f519f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 05/43] fix: the PSK_EXCHANGE_RSP context is random when a
 context is sent

---
 spdmlib/src/responder/psk_exchange_rsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 52b240d..19448d6 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -171,7 +171,7 @@ impl<'a> ResponderContext<'a> {
             MAX_SPDM_PSK_CONTEXT_SIZE as u16
         };
         let mut psk_context = [0u8; MAX_SPDM_PSK_CONTEXT_SIZE];
-        if psk_without_context {
+        if !psk_without_context {
             let res = crypto::rand::get_random(&mut psk_context);
             if res.is_err() {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-- 
2.43.0


From f85e1a8287b932dca466d766c5d283a95e8bf6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 06/43] fix: a failed FINISH or PSK_FINISH is answered with the
 ERROR that was written for it

---
 spdmlib/src/responder/finish_rsp.rs     | 12 ++++++++++--
 spdmlib/src/responder/psk_finish_rsp.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 2412a7a..d14018f 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -32,7 +32,8 @@ impl<'a> ResponderContext<'a> {
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_finish_response(session_id, bytes, &mut writer)?;
+        // on failure the writer holds the ERROR to be sent
+        let _ = self.write_spdm_finish_response(session_id, bytes, &mut writer);
         if in_clear_text {
             self.send_message(writer.used_slice())
         } else {
@@ -292,7 +293,14 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        if session
+            .generate_data_secret(spdm_version_sel, &th2)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        Ok(())
     }
 
     #[cfg(not(feature = "hashed-transcript-data"))]
diff --git a/spdmlib/src/responder/psk_finish_rsp.rs b/spdmlib/src/responder/psk_finish_rsp.rs
index 5134fa2..9ecb2f3 100644
--- a/spdmlib/src/responder/psk_finish_rsp.rs
+++ b/spdmlib/src/responder/psk_finish_rsp.rs
@@ -15,7 +15,8 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_finish(&mut self, session_id: u32, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_finish_response(session_id, bytes, &mut writer)?;
+        // on failure the writer holds the ERROR to be sent
+        let _ = self.write_spdm_psk_finish_response(session_id, bytes, &mut writer);
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
 
@@ -166,6 +167,13 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        if session
+            .generate_data_secret(spdm_version_sel, &th2)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        Ok(())
     }
 }
-- 
2.43.0


From 0814bdb59085ee876384f51f5fd01e886cc36f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 07/43] fix: KEY_UPDATE is not acknowledged when the key
 derivation failed

---
 spdmlib/src/responder/key_update_rsp.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/spdmlib/src/responder/key_update_rsp.rs b/spdmlib/src/responder/key_update_rsp.rs
index b088047..2495410 100644
--- a/spdmlib/src/responder/key_update_rsp.rs
+++ b/spdmlib/src/responder/key_update_rsp.rs
@@ -50,22 +50,27 @@ impl<'a> ResponderContext<'a> {
 
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        match key_update_req.key_update_operation {
+        let res = match key_update_req.key_update_operation {
             SpdmKeyUpdateOperation::SpdmUpdateSingleKey => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, false);
-            }
-            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, true);
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, true, true);
+                session.create_data_secret_update(spdm_version_sel, true, false)
             }
+            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => session
+                .create_data_secret_update(spdm_version_sel, true, true)
+                .and_then(|_| {
+                    session.activate_data_secret_update(spdm_version_sel, true, true, true)
+                }),
             SpdmKeyUpdateOperation::SpdmVerifyNewKey => {
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, false, true);
+                session.activate_data_secret_update(spdm_version_sel, true, false, true)
             }
             _ => {
                 error!("!!! key_update req : fail !!!\n");
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+        };
+        if res.is_err() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         }
 
         info!("send spdm key_update rsp\n");
-- 
2.43.0


From d5e889413b583f566a9279b3e618127a81af055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 08/43] fix: application data sent in a session is not
 interpreted as an SPDM response

---
 spdmlib/src/responder/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 357fdab..4224475 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -117,7 +117,8 @@ impl<'a> ResponderContext<'a> {
             is_app_message,
         )?;
         let result = self.common.device_io.send(&transport_buffer[..used]);
-        if result.is_ok() {
+        // only SPDM messages drive the session state, not application data
+        if result.is_ok() && !is_app_message {
             let opcode = send_buffer[1];
             // change state after message is sent.
             if opcode == SpdmRequestResponseCode::SpdmResponseEndSessionAck.get_u8() {
-- 
2.43.0


From 33a22a62cec60d5c5fd795bc97291c52c2f517f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 09/43] fix: the responder accepts application data only in an
 established session

---
 spdmlib/src/responder/context.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 4224475..4f80cbf 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -369,8 +369,16 @@ impl<'a> ResponderContext<'a> {
     ) -> SpdmResult {
         debug!("dispatching secured app message\n");
 
+        let session = self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .ok_or(SPDM_STATUS_UNSUPPORTED_CAP)?;
+        if session.get_session_state() != SpdmSessionState::SpdmSessionEstablished {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         let (rsp_app_buffer, size) =
-            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data).unwrap();
+            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data)?;
         self.send_secured_message(session_id, &rsp_app_buffer[..size], true)
     }
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
-- 
2.43.0


From e5e5b79853b6b755e5fd3143ff12a6ddd02335c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 10/43] fix: encapsulated requests are refused when version,
 capability or state checks fail

---
 spdmlib/src/responder/encap_rsp.rs | 34 ++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 4b8044e..da9da2b 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -26,11 +26,12 @@ impl<'a> ResponderContext<'a> {
         let mut encapsulated_request = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encapsulated_request);
 
-        self.encap_check_version_cap_state(
+        if self.encap_check_version_cap_state(
             SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
             &mut writer,
-        );
-        self.write_encap_request_response(bytes, &mut writer);
+        ) {
+            self.write_encap_request_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -81,11 +82,12 @@ impl<'a> ResponderContext<'a> {
         let mut encap_response_ack = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encap_response_ack);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
+        if self.encap_check_version_cap_state(
+            SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse.get_u8(),
             &mut writer,
-        );
-        self.write_encap_response_ack_response(bytes, &mut writer);
+        ) {
+            self.write_encap_response_ack_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -119,14 +121,21 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
-    fn encap_check_version_cap_state(&mut self, request_response_code: u8, writer: &mut Writer) {
+    // Return true if the request can be served, false if an ERROR was written.
+    fn encap_check_version_cap_state(
+        &mut self,
+        request_response_code: u8,
+        writer: &mut Writer,
+    ) -> bool {
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             < SpdmVersion::SpdmVersion11.get_u8()
         {
-            self.send_spdm_error(
+            self.write_spdm_error(
                 SpdmErrorCode::SpdmErrorUnsupportedRequest,
                 request_response_code,
-            )
+                writer,
+            );
+            return false;
         }
 
         if !self
@@ -145,14 +154,17 @@ impl<'a> ResponderContext<'a> {
                 request_response_code,
                 writer,
             );
-            return;
+            return false;
         }
 
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
         {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return false;
         }
+
+        true
     }
 
     fn process_encapsulated_response(
-- 
2.43.0


From 48e50ff0ed4855b520d068ff9701796120409cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 11/43] fix: a vendor defined request does not wipe the
 connection and its sessions

---
 spdmlib/src/requester/vendor_req.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index b75e36b..acaaa28 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -21,9 +21,6 @@ impl<'a> RequesterContext<'a> {
             session_id,
         );
 
-        // clear cache data
-        self.common.reset_context();
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         let request = SpdmMessage {
-- 
2.43.0


From e382b44952dae24d331108156a775d18f0b13818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 12/43] fix: reset_message_k resets message_k, not message_f

---
 spdmlib/src/common/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index a03bcdd..4721adc 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -549,7 +549,7 @@ impl<'a> SpdmContext<'a> {
 
         #[cfg(not(feature = "hashed-transcript-data"))]
         {
-            session.runtime_info.message_f.reset_message();
+            session.runtime_info.message_k.reset_message();
         }
 
         #[cfg(feature = "hashed-transcript-data")]
-- 
2.43.0


From ad635d3c5c30859ba9cac7402446937a34482394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 13/43] fix: the requester checks the version of VERSION and
 FINISH_RSP like that of any other response

---
 spdmlib/src/requester/finish_req.rs      | 5 +++++
 spdmlib/src/requester/get_version_req.rs | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1c50b3b..54c188e 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -208,6 +208,11 @@ impl<'a> RequesterContext<'a> {
 
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header) if message_header.version
+                != self.common.negotiate_info.spdm_version_sel =>
+            {
+                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseFinishRsp => {
                     let finish_rsp =
diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index c8a9b6e..fc90c28 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -43,6 +43,9 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult {
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header) if message_header.version != SpdmVersion::SpdmVersion10 => {
+                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseVersion => {
                     let version =
-- 
2.43.0


From 0a2bed3a81e44b5ac0154cac5431a4875bc4cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 14/43] fix: DIGESTS carries the digest of every provisioned
 slot

---
 spdmlib/src/responder/digest_rsp.rs | 48 +++++++++++++----------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index b1b7ef2..99557d9 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -80,10 +80,28 @@ impl<'a> ResponderContext<'a> {
 
         let digest_size = self.common.negotiate_info.base_hash_sel.get_size();
 
+        let mut digests = gen_array_clone(
+            SpdmDigestStruct {
+                data_size: digest_size,
+                data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
+            },
+            SPDM_MAX_SLOT_NUMBER,
+        );
+        let mut digest_count = 0usize;
         let mut slot_mask = 0u8;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                slot_mask |= (1 << slot_id) as u8;
+            if let Some(my_cert_chain) = &self.common.provision_info.my_cert_chain[slot_id] {
+                if let Some(cert_chain_hash) = crypto::hash::hash_all(
+                    self.common.negotiate_info.base_hash_sel,
+                    my_cert_chain.as_ref(),
+                ) {
+                    digests[digest_count] = cert_chain_hash;
+                    digest_count += 1;
+                    slot_mask |= (1 << slot_id) as u8;
+                } else {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                }
             }
         }
 
@@ -95,13 +113,7 @@ impl<'a> ResponderContext<'a> {
             },
             payload: SpdmMessagePayload::SpdmDigestsResponse(SpdmDigestsResponsePayload {
                 slot_mask,
-                digests: gen_array_clone(
-                    SpdmDigestStruct {
-                        data_size: digest_size,
-                        data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
-                    },
-                    SPDM_MAX_SLOT_NUMBER,
-                ),
+                digests,
             }),
         };
         let res = response.spdm_encode(&mut self.common, writer);
@@ -110,24 +122,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
-                    self.common.negotiate_info.base_hash_sel,
-                    my_cert_chain.as_ref(),
-                )
-                .unwrap();
-
-                // patch the message before send
-                let used = writer.used();
-                writer.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
-            }
-        }
-
         match session_id {
             None => {
                 if self.common.append_message_b(writer.used_slice()).is_err() {
-- 
2.43.0


From 3903d99ff6f5aa9c64422ebe55df98ad4545f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 15/43] fix: asym_verify::register reports failure when a
 verifier is already in place

---
 spdmlib/src/crypto/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/crypto/mod.rs b/spdmlib/src/crypto/mod.rs
index 2bdccb9..9f52d34 100644
--- a/spdmlib/src/crypto/mod.rs
+++ b/spdmlib/src/crypto/mod.rs
@@ -215,7 +215,7 @@ pub mod asym_verify {
     use super::spdm_ring::asym_verify_impl::DEFAULT;
 
     pub fn register(context: SpdmAsymVerify) -> bool {
-        CRYPTO_ASYM_VERIFY.try_get_or_init(|| context).is_ok()
+        CRYPTO_ASYM_VERIFY.try_init_once(|| context).is_ok()
     }
 
     pub fn verify(
-- 
2.43.0


From 15c828fd85808a9a1d82b9f6a180d889239caeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 16/43] fix: the requester refuses algorithms it did not offer

---
 .../src/requester/negotiate_algorithms_req.rs | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/spdmlib/src/requester/negotiate_algorithms_req.rs b/spdmlib/src/requester/negotiate_algorithms_req.rs
index dafdf9a..9f918ba 100644
--- a/spdmlib/src/requester/negotiate_algorithms_req.rs
+++ b/spdmlib/src/requester/negotiate_algorithms_req.rs
@@ -90,6 +90,35 @@ impl<'a> RequesterContext<'a> {
                         if let Some(algorithms) = algorithms {
                             debug!("!!! algorithms : {:02x?}\n", algorithms);
 
+                            // the responder may only select what was offered
+                            let offered = &self.common.config_info;
+                            if !offered
+                                .measurement_specification
+                                .contains(algorithms.measurement_specification_sel)
+                                || !offered
+                                    .opaque_support
+                                    .contains(algorithms.other_params_selection)
+                                || !offered.base_hash_algo.contains(algorithms.base_hash_sel)
+                                || !offered.base_asym_algo.contains(algorithms.base_asym_sel)
+                                || !algorithms
+                                    .alg_struct
+                                    .iter()
+                                    .take(algorithms.alg_struct_count as usize)
+                                    .all(|alg| match &alg.alg_supported {
+                                        SpdmAlg::SpdmAlgoDhe(v) => offered.dhe_algo.contains(*v),
+                                        SpdmAlg::SpdmAlgoAead(v) => offered.aead_algo.contains(*v),
+                                        SpdmAlg::SpdmAlgoReqAsym(v) => {
+                                            offered.req_asym_algo.contains(*v)
+                                        }
+                                        SpdmAlg::SpdmAlgoKeySchedule(v) => {
+                                            offered.key_schedule_algo.contains(*v)
+                                        }
+                                        SpdmAlg::SpdmAlgoUnknown(_v) => true,
+                                    })
+                            {
+                                return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+                            }
+
                             self.common.negotiate_info.measurement_specification_sel =
                                 algorithms.measurement_specification_sel;
 
-- 
2.43.0


From 50ad5a628e0e4f539fdc96a7a52c63b268dac81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 17/43] fix: certificate retrieval ends when the responder
 sends empty portions

---
 spdmlib/src/requester/get_certificate_req.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 5e46537..10836ae 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -117,6 +117,11 @@ impl<'a> RequesterContext<'a> {
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
+                            // an empty portion makes no progress
+                            if certificate.portion_length == 0 && certificate.remainder_length != 0
+                            {
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
                             if total_size != 0
                                 && total_size
                                     != offset
-- 
2.43.0


From ad8c2f5bcaca62c86594c3a956b8c20e7acf12a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 18/43] fix: a KEY_EXCHANGE or PSK_EXCHANGE that fails on the
 requester releases its session

---
 spdmlib/src/requester/key_exchange_req.rs | 28 +++++++++++++++++++++++
 spdmlib/src/requester/psk_exchange_req.rs | 25 ++++++++++++++++++++
 2 files changed, 53 insertions(+)

diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 1eaf9bd..bfd241a 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -138,6 +138,33 @@ impl<'a> RequesterContext<'a> {
         receive_buffer: &[u8],
         measurement_summary_hash_type: SpdmMeasurementSummaryHashType,
         key_exchange_context: Box<dyn crypto::SpdmDheKeyExchange>,
+    ) -> SpdmResult<u32> {
+        let mut pending_session_id = None;
+        let result = self.process_spdm_key_exchange_response(
+            req_session_id,
+            slot_id,
+            send_buffer,
+            receive_buffer,
+            measurement_summary_hash_type,
+            key_exchange_context,
+            &mut pending_session_id,
+        );
+        if let (Err(_), Some(session_id)) = (&result, pending_session_id) {
+            self.common.abort_session(session_id);
+        }
+        result
+    }
+
+    #[allow(clippy::too_many_arguments)]
+    fn process_spdm_key_exchange_response(
+        &mut self,
+        req_session_id: u16,
+        slot_id: u8,
+        send_buffer: &[u8],
+        receive_buffer: &[u8],
+        measurement_summary_hash_type: SpdmMeasurementSummaryHashType,
+        key_exchange_context: Box<dyn crypto::SpdmDheKeyExchange>,
+        pending_session_id: &mut Option<u32>,
     ) -> SpdmResult<u32> {
         if (measurement_summary_hash_type
             == SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb)
@@ -254,6 +281,7 @@ impl<'a> RequesterContext<'a> {
                                 .ok_or(SPDM_STATUS_SESSION_NUMBER_EXCEED)?;
 
                             session.setup(session_id)?;
+                            *pending_session_id = Some(session_id);
 
                             session.set_use_psk(false);
                             session.set_mut_auth_requested(key_exchange_rsp.mut_auth_req);
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 7886632..9b9f611 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -124,6 +124,30 @@ impl<'a> RequesterContext<'a> {
         psk_hint: &SpdmPskHintStruct,
         send_buffer: &[u8],
         receive_buffer: &[u8],
+    ) -> SpdmResult<u32> {
+        let mut pending_session_id = None;
+        let result = self.process_spdm_psk_exchange_response(
+            half_session_id,
+            measurement_summary_hash_type,
+            psk_hint,
+            send_buffer,
+            receive_buffer,
+            &mut pending_session_id,
+        );
+        if let (Err(_), Some(session_id)) = (&result, pending_session_id) {
+            self.common.abort_session(session_id);
+        }
+        result
+    }
+
+    fn process_spdm_psk_exchange_response(
+        &mut self,
+        half_session_id: u16,
+        measurement_summary_hash_type: SpdmMeasurementSummaryHashType,
+        psk_hint: &SpdmPskHintStruct,
+        send_buffer: &[u8],
+        receive_buffer: &[u8],
+        pending_session_id: &mut Option<u32>,
     ) -> SpdmResult<u32> {
         if (measurement_summary_hash_type
             == SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb)
@@ -182,6 +206,7 @@ impl<'a> RequesterContext<'a> {
                                 .ok_or(SPDM_STATUS_SESSION_NUMBER_EXCEED)?;
 
                             session.setup(session_id)?;
+                            *pending_session_id = Some(session_id);
 
                             session.set_use_psk(true);
 
-- 
2.43.0


From d6acbce3cb4fd0671f9fa10503e2a11c9ca75fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 19/43] fix: a KEY_UPDATE that is not acknowledged puts the
 previous keys back, whatever the failure

---
 spdmlib/src/requester/key_update_req.rs | 35 +++++++++++++++----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 9777323..077bb9c 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -39,14 +39,27 @@ impl<'a> RequesterContext<'a> {
         let update_responder = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
         session.create_data_secret_update(spdm_version_sel, update_requester, update_responder)?;
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-
-        self.handle_spdm_key_update_op_response(
-            session_id,
-            update_requester,
-            update_responder,
-            &receive_buffer[..used],
-        )
+        let result = match self.receive_secured_message(session_id, &mut receive_buffer, false) {
+            Ok(used) => self.handle_spdm_key_update_op_response(
+                session_id,
+                update_requester,
+                update_responder,
+                &receive_buffer[..used],
+            ),
+            Err(status) => Err(status),
+        };
+        if result.is_err() {
+            // not acknowledged: go back to the keys the peer still uses
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                session.activate_data_secret_update(
+                    spdm_version_sel,
+                    update_requester,
+                    update_responder,
+                    false,
+                )?;
+            }
+        }
+        result
     }
 
     pub fn encode_spdm_key_update_op(
@@ -103,12 +116,6 @@ impl<'a> RequesterContext<'a> {
                             Ok(())
                         } else {
                             error!("!!! key_update : fail !!!\n");
-                            session.activate_data_secret_update(
-                                spdm_version_sel,
-                                update_requester,
-                                update_responder,
-                                false,
-                            )?;
                             Err(SPDM_STATUS_INVALID_MSG_FIELD)
                         }
                     }
-- 
2.43.0


From aee2293a0e94929b3e90327ec6e983eb81cd0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 20/43] fix: a session whose handshake fails is released by
 start_session

---
 spdmlib/src/requester/context.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e73026d..6141e67 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -47,15 +47,24 @@ impl<'a> RequesterContext<'a> {
             #[cfg(not(feature = "mut-auth"))]
             let req_slot_id: Option<u8> = None;
             #[cfg(feature = "mut-auth")]
-            self.session_based_mutual_authenticate(session_id)?;
+            if let Err(status) = self.session_based_mutual_authenticate(session_id) {
+                self.common.abort_session(session_id);
+                return Err(status);
+            }
             #[cfg(feature = "mut-auth")]
             let req_slot_id = Some(self.common.runtime_info.get_local_used_cert_chain_slot_id());
-            self.send_receive_spdm_finish(req_slot_id, session_id)?;
+            if let Err(status) = self.send_receive_spdm_finish(req_slot_id, session_id) {
+                self.common.abort_session(session_id);
+                return Err(status);
+            }
             Ok(session_id)
         } else {
             let session_id =
                 self.send_receive_spdm_psk_exchange(measurement_summary_hash_type, None)?;
-            self.send_receive_spdm_psk_finish(session_id)?;
+            if let Err(status) = self.send_receive_spdm_psk_finish(session_id) {
+                self.common.abort_session(session_id);
+                return Err(status);
+            }
             Ok(session_id)
         }
     }
-- 
2.43.0


From b9b426f71ced2ddc8e4fd7238ad31b0fe9c94f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 21/43] fix: the requester's FINISH signature check uses its
 own certificate chain and reports failure instead of panicking

---
 spdmlib/src/requester/finish_req.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 54c188e..a681627 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -395,24 +395,21 @@ impl<'a> RequesterContext<'a> {
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
-        let peer_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
-        let peer_cert = &self.common.provision_info.my_cert_chain[peer_slot_id as usize]
+        let my_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
+        let my_cert_chain = self.common.provision_info.my_cert_chain[my_slot_id as usize]
             .as_ref()
-            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-            .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
-                .as_ref()
-                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-                .data_size as usize)];
+            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?;
+        let my_cert = &my_cert_chain.data[(4usize
+            + self.common.negotiate_info.base_hash_sel.get_size() as usize)
+            ..(my_cert_chain.data_size as usize)];
 
         crate::crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
             self.common.negotiate_info.base_asym_sel,
-            peer_cert,
+            my_cert,
             transcript_sign.as_ref(),
             &signature,
-        )
-        .unwrap();
+        )?;
 
         Ok(signature)
     }
-- 
2.43.0


From 2f5e34a209cc7863bd3e78ce07561d5c48632756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 22/43] fix: the FINISH signature of SPDM 1.1 covers the
 transcript

---
 spdmlib/src/requester/finish_req.rs |  8 +++++++-
 spdmlib/src/responder/finish_rsp.rs | 12 ++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index a681627..4afe039 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -327,7 +327,13 @@ impl<'a> RequesterContext<'a> {
             .common
             .calc_req_transcript_hash(false, slot_id, true, session)?;
 
-        let mut transcript_sign = ManagedBuffer12Sign::default();
+        let mut transcript_sign = self.common.calc_req_transcript_data(
+            false,
+            slot_id,
+            true,
+            &session.runtime_info.message_k,
+            Some(&session.runtime_info.message_f),
+        )?;
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             >= SpdmVersion::SpdmVersion12.get_u8()
         {
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index d14018f..3362e85 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -3,7 +3,9 @@
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
 use crate::common::session::SpdmSession;
-use crate::common::{ManagedBuffer12Sign, SpdmCodec};
+#[cfg(feature = "hashed-transcript-data")]
+use crate::common::ManagedBuffer12Sign;
+use crate::common::SpdmCodec;
 use crate::crypto;
 use crate::error::SpdmResult;
 use crate::error::SPDM_STATUS_CRYPTO_ERROR;
@@ -322,7 +324,13 @@ impl<'a> ResponderContext<'a> {
                 .as_ref()
                 .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
                 .data_size as usize)];
-        let mut transcript_sign = ManagedBuffer12Sign::default();
+        let mut transcript_sign = self.common.calc_rsp_transcript_data(
+            false,
+            session.get_slot_id(),
+            true,
+            &session.runtime_info.message_k,
+            Some(&session.runtime_info.message_f),
+        )?;
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             >= SpdmVersion::SpdmVersion12.get_u8()
         {
-- 
2.43.0


From 41b3ccaf842808b75ada88161844cb648a000fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 23/43] fix: give the Authenticated connection state a value of
 its own

It had the value of AfterCertificate, so a responder that had served GET_CERTIFICATE
no longer cleared M1/M2 on KEY_EXCHANGE and the like, and a later CHALLENGE failed.
---
 spdmlib/src/common/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 4721adc..32934dd 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -42,7 +42,7 @@ enum_builder! {
         SpdmConnectionAfterCertificate => 0x5,
         // After CHALLENGE/CHALLENGE_AUTH,
         // and ENCAP CHALLENGE/CHALLENGE_AUTH if MUT_AUTH is enabled.
-        SpdmConnectionAuthenticated => 0x5
+        SpdmConnectionAuthenticated => 0x6
     }
 }
 impl Default for SpdmConnectionState {
-- 
2.43.0


From fd4a8076092bc64b2dc9899c44f10db3c452c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 24/43] fix: requester notes that the responder is
 authenticated

Requester and responder clear B and C on KEY_EXCHANGE and the like only before
authentication, but only the responder knew when that was.
---
 spdmlib/src/requester/challenge_req.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 7ac271e..91e1fe5 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
+use crate::common::SpdmConnectionState;
 use crate::crypto;
 #[cfg(feature = "hashed-transcript-data")]
 use crate::error::SPDM_STATUS_INVALID_STATE_LOCAL;
@@ -124,6 +125,9 @@ impl<'a> RequesterContext<'a> {
                                 self.common.reset_message_b();
                                 self.common.reset_message_c();
                                 info!("verify_challenge_auth_signature pass");
+                                self.common.runtime_info.set_connection_state(
+                                    SpdmConnectionState::SpdmConnectionAuthenticated,
+                                );
                             }
 
                             Ok(())
-- 
2.43.0


From a3b4e686324fcc75cb5c93ed368fd023d71260eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 25/43] fix: requester starts over on GET_VERSION

The responder forgets sessions, negotiated values and the peer's certificates on
GET_VERSION; the requester kept its sessions (established, and holding their
slots), the peer's certificates and the old negotiation.
---
 spdmlib/src/requester/get_version_req.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index fc90c28..fb42626 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -11,8 +11,8 @@ use crate::requester::*;
 
 impl<'a> RequesterContext<'a> {
     pub fn send_receive_spdm_version(&mut self) -> SpdmResult {
-        self.common
-            .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestGetVersion, None);
+        // the responder drops all its state on GET_VERSION
+        self.common.reset_context();
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let send_used = self.encode_spdm_version(&mut send_buffer)?;
-- 
2.43.0


From f050e164043dccccbc798ddd73e04554acffe0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 26/43] fix: a session whose exchange response cannot be
 delivered is released

---
 spdmlib/src/responder/context.rs          | 22 +++++++++++++++++++---
 spdmlib/src/responder/key_exchange_rsp.rs | 12 +++++++-----
 spdmlib/src/responder/psk_exchange_rsp.rs | 12 +++++++-----
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 4f80cbf..851191f 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -32,10 +32,26 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
-    pub fn send_message(&mut self, send_buffer: &[u8]) -> SpdmResult {
-        if self.common.negotiate_info.req_data_transfer_size_sel != 0
+    fn is_response_too_large(&self, send_buffer: &[u8]) -> bool {
+        self.common.negotiate_info.req_data_transfer_size_sel != 0
             && (send_buffer.len() > self.common.negotiate_info.req_data_transfer_size_sel as usize)
-        {
+    }
+
+    /// Send the response that announces a new session.
+    /// The session is released when that response does not reach the requester.
+    pub fn send_session_response(&mut self, session_id: u32, send_buffer: &[u8]) -> SpdmResult {
+        if self.is_response_too_large(send_buffer) {
+            self.common.abort_session(session_id);
+        }
+        let result = self.send_message(send_buffer);
+        if result.is_err() {
+            self.common.abort_session(session_id);
+        }
+        result
+    }
+
+    pub fn send_message(&mut self, send_buffer: &[u8]) -> SpdmResult {
+        if self.is_response_too_large(send_buffer) {
             let mut err_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
             let mut writer = Writer::init(&mut err_buffer);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 80fecc9..bee500c 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -25,16 +25,18 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_key_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        // on failure the writer holds the ERROR to be sent
-        let _ = self.write_spdm_key_exchange_response(bytes, &mut writer);
-        self.send_message(writer.used_slice())
+        match self.write_spdm_key_exchange_response(bytes, &mut writer) {
+            Ok(session_id) => self.send_session_response(session_id, writer.used_slice()),
+            // on failure the writer holds the ERROR to be sent
+            Err(_) => self.send_message(writer.used_slice()),
+        }
     }
 
     pub fn write_spdm_key_exchange_response(
         &mut self,
         bytes: &[u8],
         writer: &mut Writer,
-    ) -> SpdmResult {
+    ) -> SpdmResult<u32> {
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
         {
@@ -449,7 +451,7 @@ impl<'a> ResponderContext<'a> {
                 .set_last_session_id(Some(session_id));
         }
 
-        Ok(())
+        Ok(session_id)
     }
 
     #[cfg(feature = "hashed-transcript-data")]
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 19448d6..7f6bcd4 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -25,16 +25,18 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        // on failure the writer holds the ERROR to be sent
-        let _ = self.write_spdm_psk_exchange_response(bytes, &mut writer);
-        self.send_message(writer.used_slice())
+        match self.write_spdm_psk_exchange_response(bytes, &mut writer) {
+            Ok(session_id) => self.send_session_response(session_id, writer.used_slice()),
+            // on failure the writer holds the ERROR to be sent
+            Err(_) => self.send_message(writer.used_slice()),
+        }
     }
 
     pub fn write_spdm_psk_exchange_response(
         &mut self,
         bytes: &[u8],
         writer: &mut Writer,
-    ) -> SpdmResult {
+    ) -> SpdmResult<u32> {
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
         {
@@ -380,6 +382,6 @@ impl<'a> ResponderContext<'a> {
                 return_opaque.data[return_opaque.data_size as usize - 1];
         }
 
-        Ok(())
+        Ok(session_id)
     }
 }
-- 
2.43.0


From 0551b434303075b96cd5ee4368ebb2e47db4077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 27/43] fix: the responder accepts only a protocol version it
 was configured with

---
 spdmlib/src/responder/capability_rsp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/responder/capability_rsp.rs b/spdmlib/src/responder/capability_rsp.rs
index 1f0ba40..5caaed4 100644
--- a/spdmlib/src/responder/capability_rsp.rs
+++ b/spdmlib/src/responder/capability_rsp.rs
@@ -35,6 +35,10 @@ impl<'a> ResponderContext<'a> {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+            if !self.common.config_info.spdm_version.contains(&version) {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorVersionMismatch, 0, writer);
+                return;
+            }
             self.common.negotiate_info.spdm_version_sel = version;
         } else {
             error!("!!! get_capabilities : fail !!!\n");
-- 
2.43.0


From 375976d4b1006e792cb612a8abe69256f3fb1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 28/43] fix: NEGOTIATE_ALGORITHMS without a common hash
 algorithm is refused

---
 spdmlib/src/responder/algorithm_rsp.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spdmlib/src/responder/algorithm_rsp.rs b/spdmlib/src/responder/algorithm_rsp.rs
index 3e2a62c..f289e65 100644
--- a/spdmlib/src/responder/algorithm_rsp.rs
+++ b/spdmlib/src/responder/algorithm_rsp.rs
@@ -113,6 +113,12 @@ impl<'a> ResponderContext<'a> {
             .key_schedule_sel
             .prioritize(self.common.config_info.key_schedule_algo);
 
+        // every later message depends on a hash algorithm both sides support
+        if self.common.negotiate_info.base_hash_sel.is_empty() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            return;
+        }
+
         //
         // update cert chain - append root cert hash
         //
-- 
2.43.0


From 3ec613a709d89997e12a150aa775bbdadee2ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 29/43] fix: an encapsulated DIGESTS carries the digest of
 every provisioned slot

---
 spdmlib/src/requester/encap_digest.rs | 51 +++++++++++++--------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/spdmlib/src/requester/encap_digest.rs b/spdmlib/src/requester/encap_digest.rs
index 0a2c5b5..105de11 100644
--- a/spdmlib/src/requester/encap_digest.rs
+++ b/spdmlib/src/requester/encap_digest.rs
@@ -71,10 +71,32 @@ impl<'a> RequesterContext<'a> {
             return;
         }
 
+        let mut digests = gen_array_clone(
+            SpdmDigestStruct {
+                data_size: self.common.negotiate_info.base_hash_sel.get_size(),
+                data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
+            },
+            SPDM_MAX_SLOT_NUMBER,
+        );
+        let mut digest_count = 0usize;
         let mut slot_mask = 0u8;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                slot_mask |= (1 << slot_id) as u8;
+            if let Some(my_cert_chain) = &self.common.provision_info.my_cert_chain[slot_id] {
+                if let Some(cert_chain_hash) = crypto::hash::hash_all(
+                    self.common.negotiate_info.base_hash_sel,
+                    my_cert_chain.as_ref(),
+                ) {
+                    digests[digest_count] = cert_chain_hash;
+                    digest_count += 1;
+                    slot_mask |= (1 << slot_id) as u8;
+                } else {
+                    self.encode_encap_error_response(
+                        SpdmErrorCode::SpdmErrorUnspecified,
+                        0,
+                        encap_response,
+                    );
+                    return;
+                }
             }
         }
 
@@ -85,13 +107,7 @@ impl<'a> RequesterContext<'a> {
             },
             payload: SpdmMessagePayload::SpdmDigestsResponse(SpdmDigestsResponsePayload {
                 slot_mask,
-                digests: gen_array_clone(
-                    SpdmDigestStruct {
-                        data_size: self.common.negotiate_info.base_hash_sel.get_size(),
-                        data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
-                    },
-                    SPDM_MAX_SLOT_NUMBER,
-                ),
+                digests,
             }),
         };
 
@@ -107,23 +123,6 @@ impl<'a> RequesterContext<'a> {
             return;
         }
 
-        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
-                    self.common.negotiate_info.base_hash_sel,
-                    my_cert_chain.as_ref(),
-                )
-                .unwrap();
-
-                // patch the message before send
-                let used = encap_response.used();
-                encap_response.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
-            }
-        }
         debug!("!!! encap get_digests : complete\n");
     }
 }
-- 
2.43.0


From e34756c804348516f15726c738a31d2fe7dc6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 30/43] fix: PCI-DOE encap_app and decap_app report a buffer
 that is too short instead of panicking

---
 pcidoe_transport/src/header.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index b247322..311edd7 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -5,7 +5,10 @@
 use codec::enum_builder;
 use codec::{Codec, Reader, Writer};
 use spdmlib::common::SpdmTransportEncap;
-use spdmlib::error::{SpdmResult, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_FAIL};
+use spdmlib::error::{
+    SpdmResult, SPDM_STATUS_DECAP_APP_FAIL, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_APP_FAIL,
+    SPDM_STATUS_ENCAP_FAIL,
+};
 
 enum_builder! {
     @U16
@@ -149,6 +152,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &mut [u8],
         _is_app_message: bool,
     ) -> SpdmResult<usize> {
+        if app_buffer.len() < spdm_buffer.len() {
+            return Err(SPDM_STATUS_ENCAP_APP_FAIL);
+        }
         app_buffer[0..spdm_buffer.len()].copy_from_slice(spdm_buffer);
         Ok(spdm_buffer.len())
     }
@@ -158,6 +164,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &[u8],
         spdm_buffer: &mut [u8],
     ) -> SpdmResult<(usize, bool)> {
+        if spdm_buffer.len() < app_buffer.len() {
+            return Err(SPDM_STATUS_DECAP_APP_FAIL);
+        }
         spdm_buffer[0..app_buffer.len()].copy_from_slice(app_buffer);
         Ok((app_buffer.len(), false))
     }
-- 
2.43.0


From bd067899ca8f6429e13cc6ecd2f4e65c7d55fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 31/43] fix: PCI-DOE encap refuses a message longer than a data
 object can be instead of panicking

---
 pcidoe_transport/src/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index 311edd7..4b54c04 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -95,6 +95,10 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
     ) -> SpdmResult<usize> {
         let payload_len = spdm_buffer.len();
         let aligned_payload_len = (payload_len + 3) / 4 * 4;
+        // the length field counts at most 2^18 dwords, header included
+        if aligned_payload_len + 8 > 0x40000 * 4 {
+            return Err(SPDM_STATUS_ENCAP_FAIL);
+        }
         let mut writer = Writer::init(&mut *transport_buffer);
         let pcidoe_header = PciDoeMessageHeader {
             vendor_id: PciDoeVendorId::PciDoeVendorIdPciSig,
-- 
2.43.0


From ae400a4c1307059518c420fa166dfb698eee766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:04 +0000
Subject: [PATCH 32/43] fix: a message whose size depends on an algorithm that
 was not negotiated is refused instead of panicking

---
 spdmlib/src/common/spdm_codec.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/common/spdm_codec.rs b/spdmlib/src/common/spdm_codec.rs
index dad3de4..da17371 100644
--- a/spdmlib/src/common/spdm_codec.rs
+++ b/spdmlib/src/common/spdm_codec.rs
@@ -46,6 +46,9 @@ impl SpdmCodec for SpdmDigestStruct {
         Ok(self.data_size as usize)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmDigestStruct> {
+        if !context.negotiate_info.base_hash_sel.is_valid_one_select() {
+            return None;
+        }
         let data_size = context.get_hash_size();
         let mut data = Box::new([0u8; SPDM_MAX_HASH_SIZE]);
         for d in data.iter_mut().take(data_size as usize) {
@@ -68,6 +71,13 @@ impl SpdmCodec for SpdmSignatureStruct {
         Ok(self.data_size as usize)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmSignatureStruct> {
+        if !context
+            .negotiate_info
+            .base_asym_sel
+            .is_valid_one_select()
+        {
+            return None;
+        }
         let data_size = context.get_asym_key_size();
         let mut data = [0u8; SPDM_MAX_ASYM_KEY_SIZE];
         for d in data.iter_mut().take(data_size as usize) {
@@ -169,6 +179,9 @@ impl SpdmCodec for SpdmDheExchangeStruct {
         Ok(self.data_size as usize)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmDheExchangeStruct> {
+        if !context.negotiate_info.dhe_sel.is_valid_one_select() {
+            return None;
+        }
         let data_size = context.get_dhe_key_size();
         let mut data = [0u8; SPDM_MAX_DHE_KEY_SIZE];
         for d in data.iter_mut().take(data_size as usize) {
@@ -249,7 +262,8 @@ impl SpdmCodec for SpdmDmtfMeasurementStructure {
 
         let measurement_hash_algo = context.negotiate_info.measurement_hash_sel;
         if representation == SpdmDmtfMeasurementRepresentation::SpdmDmtfMeasurementDigest
-            && (value_size != measurement_hash_algo.get_size()
+            && (!measurement_hash_algo.is_valid_one_select()
+                || value_size != measurement_hash_algo.get_size()
                 || measurement_hash_algo == SpdmMeasurementHashAlgo::RAW_BIT_STREAM)
         {
             return None;
-- 
2.43.0


From 0d0bb8937cedeee082ea1cb05e015925a9e34ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:00 +0000
Subject: [PATCH 33/43] fix: a decoded size that exceeds its array is refused

---
 spdmlib/src/common/opaque.rs       | 3 +++
 spdmlib/src/message/certificate.rs | 3 +++
 spdmlib/src/message/vendor.rs      | 9 +++++++++
 spdmlib/src/protocol/algo.rs       | 3 +++
 4 files changed, 18 insertions(+)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e15ad78..929d223 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -247,6 +247,9 @@ impl SpdmCodec for OpaqueElementHeader {
     fn spdm_read(_context: &mut SpdmContext, r: &mut Reader) -> Option<OpaqueElementHeader> {
         let id = u8::read(r)?;
         let vendor_len = u8::read(r)?;
+        if vendor_len as usize > MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN {
+            return None;
+        }
         let mut vendor_id = [0u8; MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN];
         for d in vendor_id.iter_mut().take(vendor_len as usize) {
             *d = u8::read(r)?;
diff --git a/spdmlib/src/message/certificate.rs b/spdmlib/src/message/certificate.rs
index f52a6f1..91d845f 100644
--- a/spdmlib/src/message/certificate.rs
+++ b/spdmlib/src/message/certificate.rs
@@ -108,6 +108,9 @@ impl SpdmCodec for SpdmCertificateResponsePayload {
         let slot_id = u8::read(r)?; // param1
         u8::read(r)?; // param2
         let portion_length = u16::read(r)?;
+        if portion_length as usize > MAX_SPDM_CERT_PORTION_LEN {
+            return None;
+        }
         let remainder_length = u16::read(r)?;
         let mut response = SpdmCertificateResponsePayload {
             slot_id,
diff --git a/spdmlib/src/message/vendor.rs b/spdmlib/src/message/vendor.rs
index be9fd74..e411fea 100644
--- a/spdmlib/src/message/vendor.rs
+++ b/spdmlib/src/message/vendor.rs
@@ -69,6 +69,9 @@ impl Codec for VendorIDStruct {
 
     fn read(r: &mut Reader) -> Option<VendorIDStruct> {
         let len = u8::read(r)?;
+        if len as usize > MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN {
+            return None;
+        }
         let mut vendor_id = [0u8; MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN];
         for d in vendor_id.iter_mut().take(len as usize) {
             *d = u8::read(r)?;
@@ -103,6 +106,9 @@ impl Codec for VendorDefinedReqPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedReqPayloadStruct> {
         let req_length = u16::read(r)?;
+        if req_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_req_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_req_payload
             .iter_mut()
@@ -139,6 +145,9 @@ impl Codec for VendorDefinedRspPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedRspPayloadStruct> {
         let rsp_length = u16::read(r)?;
+        if rsp_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_rsp_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_rsp_payload
             .iter_mut()
diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 600c976..cb2fbf7 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -996,6 +996,9 @@ impl Codec for SpdmDmtfMeasurementStructure {
         // TBD: Check measurement_hash
 
         let value_size = u16::read(r)?;
+        if value_size as usize > config::MAX_SPDM_MEASUREMENT_VALUE_LEN {
+            return None;
+        }
         let mut value = [0u8; config::MAX_SPDM_MEASUREMENT_VALUE_LEN];
         for v in value.iter_mut().take(value_size as usize) {
             *v = u8::read(r)?;
-- 
2.43.0


From cc4da0478218fb0a301be890b3c501c2942a2573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:09 +0000
Subject: [PATCH 34/43] fix: the certificate format check refuses lengths
 beyond the data instead of panicking

---
 spdmlib/src/crypto/x509v3.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/crypto/x509v3.rs b/spdmlib/src/crypto/x509v3.rs
index e1521af..28e9a14 100644
--- a/spdmlib/src/crypto/x509v3.rs
+++ b/spdmlib/src/crypto/x509v3.rs
@@ -20,6 +20,8 @@ const ASN1_TAG_SEQUENCE: u8 =
     ASN1_TAG_CLASS_UNIVERSAL_MASK | ASN1_FORM_CONSTRUCTED_MASK | ASN1_TAG_NUMBER_SEQUENCE;
 
 const ASN1_LENGTH_MULTI_OCTET_MASK: u8 = 0x80;
+// a certificate chain is shorter than 64 KiB, so is everything in it
+const ASN1_LENGTH_MAX_OCTETS: u8 = 3;
 
 const X509V3_VERSION: u8 = 2;
 const OID_RSA_SHA256RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0bu8];
@@ -126,6 +128,9 @@ fn check_tbs_certificate(
         check_object_identifier(&data[t_walker..], None)?;
     }
     t_walker += signature_id_length;
+    if len < t_walker {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
     // issuer               Name,
     let bytes_consumed = check_name(&data[t_walker..])?;
     t_walker += bytes_consumed;
@@ -154,6 +159,7 @@ fn check_signature_algorithm(
     is_leaf_cert: bool,
 ) -> SpdmResult<usize> {
     let mut s_walker = 0usize;
+    let len = data.len();
     // signature            AlgorithmIdentifier,
     check_tag_is_sequence(&data[s_walker..])?;
     s_walker += 1;
@@ -166,7 +172,12 @@ fn check_signature_algorithm(
         check_object_identifier(&data[s_walker..], None)?;
     }
 
-    Ok(s_walker + signature_id_length)
+    s_walker += signature_id_length;
+    if len < s_walker {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+
+    Ok(s_walker)
 }
 
 fn check_signature_value(data: &[u8], _base_asym_algo: SpdmBaseAsymAlgo) -> SpdmResult<usize> {
@@ -194,7 +205,10 @@ fn check_length(data: &[u8]) -> SpdmResult<(usize, usize)> {
         Ok((data[0] as usize, 1))
     } else {
         let length_count = data[0] - ASN1_LENGTH_MULTI_OCTET_MASK;
-        if len < (length_count as usize + 1) || length_count == 0 {
+        if len < (length_count as usize + 1)
+            || length_count == 0
+            || length_count > ASN1_LENGTH_MAX_OCTETS
+        {
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
             let mut length = [0u8; 8];
-- 
2.43.0


From e3f937837618995526d96e4e26c5ca44d2e548de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 35/43] fix: a version selection with more elements than its
 list is refused

---
 spdmlib/src/common/opaque.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index 929d223..224e613 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -458,6 +458,11 @@ impl SpdmCodec for SecuredMessageDMTFVersionSelection {
             SecuredMessageGeneralOpaqueDataHeader::spdm_read(context, r)?;
         let mut opaque_element_dmtf_version_selection_list =
             [OpaqueElementDMTFVersionSelection::default(); MAX_OPAQUE_LIST_ELEMENTS_COUNT];
+        if secured_message_general_opaque_data_header.total_elements
+            > MAX_OPAQUE_LIST_ELEMENTS_COUNT as u8
+        {
+            return None;
+        }
         for d in opaque_element_dmtf_version_selection_list
             .iter_mut()
             .take(secured_message_general_opaque_data_header.total_elements as usize)
-- 
2.43.0


From ddb25bc89834884a88e95ff707542c5d2b01200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:31 +0000
Subject: [PATCH 36/43] fix: a measurement hash algorithm of SHA3-384 or
 SHA3-512 is no longer dropped when decoded

---
 spdmlib/src/protocol/algo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index cb2fbf7..dc4a97f 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -118,8 +118,8 @@ bitflags! {
             | Self::TPM_ALG_SHA_384.bits
             | Self::TPM_ALG_SHA_512.bits
             | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
+            | Self::TPM_ALG_SHA3_384.bits
+            | Self::TPM_ALG_SHA3_512.bits
             | Self::TPM_ALG_SM3.bits;
     }
 }
-- 
2.43.0


From 734b03874d7049fcf0e8febaf155d1fda8ea4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:39 +0000
Subject: [PATCH 37/43] fix: a device with a single measurement no longer
 reports a total number of 0

---
 spdmlib/src/message/measurement.rs       | 12 ++++--------
 spdmlib/src/responder/measurement_rsp.rs |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 01a5e03..432b910 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -149,14 +149,10 @@ impl SpdmCodec for SpdmMeasurementsResponsePayload {
         //When Param2 in the requested measurement operation is 0 , this
         //parameter shall return the total number of measurement indices on
         //the device. Otherwise, this field is reserved.
-        if self.number_of_measurement == 1 {
-            cnt += 0_u8.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        } else {
-            cnt += self
-                .number_of_measurement
-                .encode(bytes)
-                .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        }
+        cnt += self
+            .number_of_measurement
+            .encode(bytes)
+            .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
         if context.negotiate_info.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
             && context.runtime_info.need_measurement_signature
         {
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 390f827..3e61c13 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -133,7 +133,7 @@ impl<'a> ResponderContext<'a> {
         {
             real_measurement_block_count
         } else {
-            1
+            0
         };
         let measurement_record = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-- 
2.43.0


From 5374bb4ed2ee423ce508665e5b6d12d2dcde2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:10 +0000
Subject: [PATCH 38/43] fix: DMTF_SPEC_ID is 0x444D5446 (DSP0277 general opaque
 data SpecID)

---
 spdmlib/src/common/opaque.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index 224e613..16b22b8 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -17,7 +17,7 @@ pub const MAX_SPDM_OPAQUE_SIZE: usize = 1024;
 pub const MAX_SECURE_SPDM_VERSION_COUNT: usize = 0x02;
 pub const MAX_OPAQUE_LIST_ELEMENTS_COUNT: usize = 3;
 
-pub const DMTF_SPEC_ID: u32 = 0x444D546;
+pub const DMTF_SPEC_ID: u32 = 0x444D5446;
 pub const DMTF_OPAQUE_VERSION: u8 = 0x01;
 pub const SM_DATA_VERSION: u8 = 0x01;
 pub const DMTF_ID: u8 = 0x00;
-- 
2.43.0


From fcc44e676492f32e39dc8d2401e23debed6ac308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:07 +0000
Subject: [PATCH 39/43] fix: rebuild the own certificate chains for the hash
 algorithm of each negotiation

---
 spdmlib/src/common/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 32934dd..8afe92e 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -248,9 +248,8 @@ impl<'a> SpdmContext<'a> {
 
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.provision_info.my_cert_chain[slot_id].is_none()
-                && self.provision_info.my_cert_chain_data[slot_id].is_some()
-            {
+            // the root hash depends on the hash algorithm: build the chain anew after each negotiation
+            if self.provision_info.my_cert_chain_data[slot_id].is_some() {
                 let cert_chain = self.provision_info.my_cert_chain_data[slot_id]
                     .as_ref()
                     .unwrap();
-- 
2.43.0


From 9038dc09fb620376f9ada94b6c22c0adc5b1c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:24 +0000
Subject: [PATCH 40/43] fix: answer GET_MEASUREMENTS with ERROR when the device
 provides no measurement

---
 spdmlib/src/responder/measurement_rsp.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 3e61c13..55fd44a 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -117,14 +117,18 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        let real_measurement_block_count = secret::measurement::measurement_collection(
+        let real_measurement_block_count = match secret::measurement::measurement_collection(
             spdm_version_sel,
             measurement_specification_sel,
             measurement_hash_sel,
             SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
-        )
-        .unwrap()
-        .number_of_blocks;
+        ) {
+            Some(total) => total.number_of_blocks,
+            None => {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return;
+            }
+        };
 
         let number_of_measurement: u8 = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
@@ -144,7 +148,6 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 SpdmMeasurementOperation::SpdmMeasurementRequestAll.get_u8() as usize,
             )
-            .unwrap()
         } else if let SpdmMeasurementOperation::Unknown(index) =
             get_measurements.measurement_operation
         {
@@ -158,9 +161,15 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 index as usize,
             )
-            .unwrap()
         } else {
-            SpdmMeasurementRecordStructure::default()
+            Some(SpdmMeasurementRecordStructure::default())
+        };
+        let measurement_record = match measurement_record {
+            Some(measurement_record) => measurement_record,
+            None => {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return;
+            }
         };
 
         let content_changed = if runtime_content_change_support
-- 
2.43.0


From 70622081f42ef6f0b68e3b31a7bf796e2a4de1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:54 +0000
Subject: [PATCH 41/43] fix: a key pair or certificate that cannot be had ends
 in an error, not a panic

---
 spdmlib/src/common/mod.rs                 | 3 +--
 spdmlib/src/responder/key_exchange_rsp.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 8afe92e..b27e807 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -257,8 +257,7 @@ impl<'a> SpdmContext<'a> {
                     crypto::cert_operation::get_cert_from_cert_chain(
                         &cert_chain.data[..(cert_chain.data_size as usize)],
                         0,
-                    )
-                    .unwrap();
+                    )?;
                 let root_cert = &cert_chain.data[root_cert_begin..root_cert_end];
                 if let Some(root_hash) =
                     crypto::hash::hash_all(self.negotiate_info.base_hash_sel, root_cert)
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index bee500c..c240a2c 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -184,7 +184,13 @@ impl<'a> ResponderContext<'a> {
             .set_local_used_cert_chain_slot_id(key_exchange_req.slot_id);
 
         let (exchange, key_exchange_context) =
-            crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel).unwrap();
+            match crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel) {
+                Some(key_pair) => key_pair,
+                None => {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return Err(SPDM_STATUS_CRYPTO_ERROR);
+                }
+            };
 
         debug!("!!! exchange data : {:02x?}\n", exchange);
 
-- 
2.43.0


From be6f140b7ac3803242925325f7e2b40b51852ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:08 +0000
Subject: [PATCH 42/43] fix: refuse requests that need an algorithm negotiation
 left unselected

---
 spdmlib/src/responder/challenge_rsp.rs    | 6 ++++++
 spdmlib/src/responder/key_exchange_rsp.rs | 9 +++++++++
 spdmlib/src/responder/measurement_rsp.rs  | 8 +++++++-
 spdmlib/src/responder/psk_exchange_rsp.rs | 6 ++++++
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 1272d4b..33da514 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -88,6 +88,12 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        // without a negotiated signature algorithm there is nothing to sign with
+        if self.common.negotiate_info.base_asym_sel.is_empty() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+            return;
+        }
+
         let challenge = challenge.unwrap();
         let slot_id = challenge.slot_id as usize;
         if slot_id >= SPDM_MAX_SLOT_NUMBER {
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index c240a2c..d1adcd9 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -168,6 +168,15 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
+        // a session with certificates needs a signature, a key exchange and a record algorithm
+        if self.common.negotiate_info.base_asym_sel.is_empty()
+            || self.common.negotiate_info.dhe_sel.is_empty()
+            || self.common.negotiate_info.aead_sel.is_empty()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+        }
+
         let key_exchange_req = key_exchange_req.unwrap();
         let slot_id = key_exchange_req.slot_id as usize;
         if slot_id >= SPDM_MAX_SLOT_NUMBER {
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 55fd44a..712793d 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -75,7 +75,7 @@ impl<'a> ResponderContext<'a> {
         let get_measurements = get_measurements.unwrap();
         let slot_id = get_measurements.slot_id as usize;
 
-        let signature_size = self.common.negotiate_info.base_asym_sel.get_size();
+        let mut signature_size = 0;
 
         if get_measurements
             .measurement_attributes
@@ -83,6 +83,12 @@ impl<'a> ResponderContext<'a> {
         {
             self.common.runtime_info.need_measurement_signature = true;
 
+            if self.common.negotiate_info.base_asym_sel.is_empty() {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+                return;
+            }
+            signature_size = self.common.negotiate_info.base_asym_sel.get_size();
+
             if slot_id >= SPDM_MAX_SLOT_NUMBER {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 7f6bcd4..e8df5ff 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -67,6 +67,12 @@ impl<'a> ResponderContext<'a> {
 
         let mut return_opaque = SpdmOpaqueStruct::default();
 
+        // a session needs a record algorithm
+        if self.common.negotiate_info.aead_sel.is_empty() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+        }
+
         let measurement_summary_hash;
         let psk_hint;
         if let Some(psk_exchange_req) = &psk_exchange_req {
-- 
2.43.0


From fbab0f3a34891472ce8ac907aa187dbf631adbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:08 +0000
Subject: [PATCH 43/43] fix: answer CHALLENGE with ERROR when the certificate
 chain cannot be hashed

---
 spdmlib/src/responder/challenge_rsp.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 33da514..715fb91 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -117,11 +117,16 @@ impl<'a> ResponderContext<'a> {
         let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
             .as_ref()
             .unwrap();
-        let cert_chain_hash = crypto::hash::hash_all(
+        let cert_chain_hash = match crypto::hash::hash_all(
             self.common.negotiate_info.base_hash_sel,
             my_cert_chain.as_ref(),
-        )
-        .unwrap();
+        ) {
+            Some(cert_chain_hash) => cert_chain_hash,
+            None => {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return;
+            }
+        };
 
         let mut nonce = [0u8; SPDM_NONCE_SIZE];
         let res = crypto::rand::get_random(&mut nonce);
-- 
2.43.0

