From 2616c5bdd8570efdf9334a80e44b9972a3d6b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 01/21] fix: refuse TLS records whose version is not 3.x even
 when the code point has a name

The header check only looked at unnamed versions, so records labelled
SSLv2 or DTLS were accepted although only 0x03XX is legal.
---
 crates/tls-core/src/msgs/message.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/tls-core/src/msgs/message.rs b/crates/tls-core/src/msgs/message.rs
index b222180..18135b1 100644
--- a/crates/tls-core/src/msgs/message.rs
+++ b/crates/tls-core/src/msgs/message.rs
@@ -97,12 +97,9 @@ impl OpaqueMessage {
         }
 
         // Accept only versions 0x03XX for any XX.
-        match version {
-            ProtocolVersion::Unknown(ref v) if (v & 0xff00) != 0x0300 => {
-                return Err(MessageError::IllegalProtocolVersion);
-            }
-            _ => {}
-        };
+        if (version.get_u16() & 0xff00) != 0x0300 {
+            return Err(MessageError::IllegalProtocolVersion);
+        }
 
         let mut sub = r.sub(len as usize).ok_or(MessageError::TooShortForLength)?;
         let payload = Payload::read(&mut sub);
-- 
2.43.0


From 293da3533641e34f54cf123cefda6cce883cbc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 02/21] fix: report the P-384 algorithms for signatures
 verified with a P-384 key

ECDSA signature identifiers do not name the curve, so signatures by P-384 keys
were reported as P-256 ones, which later makes the session handshake fail to verify.
---
 crates/tls-core/src/verify.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tls-core/src/verify.rs b/crates/tls-core/src/verify.rs
index c52deab..8445ece 100644
--- a/crates/tls-core/src/verify.rs
+++ b/crates/tls-core/src/verify.rs
@@ -485,9 +485,12 @@ pub enum SignatureAlgorithm {
 impl SignatureAlgorithm {
     pub fn from_alg(alg: &dyn pki_types::SignatureVerificationAlgorithm) -> Self {
         let id = alg.signature_alg_id();
-        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id() {
+        // The ECDSA signature identifiers do not name the curve, the key's does.
+        let is_p384 =
+            alg.public_key_alg_id() == webpki::ring::ECDSA_P384_SHA384.public_key_alg_id();
+        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id() && !is_p384 {
             SignatureAlgorithm::ECDSA_NISTP256_SHA256
-        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id() {
+        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id() && !is_p384 {
             SignatureAlgorithm::ECDSA_NISTP256_SHA384
         } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id() {
             SignatureAlgorithm::ECDSA_NISTP384_SHA256
-- 
2.43.0


From 9e8a7c4acca46dfa550637861a87b2590fe9eac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 03/21] fix: give EdDSA signature schemes their own algorithm
 so unknown schemes fit no suite

---
 crates/tls-core/src/msgs/handshake.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/tls-core/src/msgs/handshake.rs b/crates/tls-core/src/msgs/handshake.rs
index bd0004e..0fd98ca 100644
--- a/crates/tls-core/src/msgs/handshake.rs
+++ b/crates/tls-core/src/msgs/handshake.rs
@@ -225,6 +225,8 @@ impl DecomposedSignatureScheme for SignatureScheme {
             Self::ECDSA_NISTP256_SHA256
             | Self::ECDSA_NISTP384_SHA384
             | Self::ECDSA_NISTP521_SHA512 => SignatureAlgorithm::ECDSA,
+            Self::ED25519 => SignatureAlgorithm::ED25519,
+            Self::ED448 => SignatureAlgorithm::ED448,
             _ => SignatureAlgorithm::Unknown(0),
         }
     }
-- 
2.43.0


From 7c3294925a27177500ba2859ee6c1de50791567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 04/21] fix: OK_EMPTY_HEADER fixture holds the response with an
 empty header

---
 crates/data-fixtures/src/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/data-fixtures/src/http.rs b/crates/data-fixtures/src/http.rs
index be26c65..f8d6c7b 100644
--- a/crates/data-fixtures/src/http.rs
+++ b/crates/data-fixtures/src/http.rs
@@ -38,7 +38,7 @@ pub mod response {
     define_fixture!(
         OK_EMPTY_HEADER,
         "An OK response with an empty header.",
-        "../data/http/response_empty"
+        "../data/http/response_empty_header"
     );
     define_fixture!(
         OK_TEXT,
-- 
2.43.0


From 3e7487e34d583ccd4e0750d017e46917862ef2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 05/21] fix: session hash ends with ServerHelloDone on the
 received side

A NewSessionTicket sent before the server's ChangeCipherSpec was hashed into
the session hash, although it follows ClientKeyExchange in the handshake.
---
 crates/core/src/transcript/tls/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 83ba75a..5b2c0c0 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -298,7 +298,7 @@ fn compute_handshake_hashes(
     // → client flight up to and including ClientKeyExchange.
     let mut hasher = Sha256::new();
     hasher.update(&sent_hs_bytes[..sent_ch_end]);
-    hasher.update(&recv_hs_bytes);
+    hasher.update(&recv_hs_bytes[..recv_shd_end]);
     hasher.update(&sent_hs_bytes[sent_ch_end..ckx.end]);
     let session_hash: [u8; 32] = hasher.finalize().into();
 
-- 
2.43.0


From bc9d8c788b8f7eb1070fb1552ecc130e6c50099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 06/21] fix: refuse empty record lists when building a TLS
 transcript

They made the builder panic.
---
 crates/core/src/transcript/tls/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 5b2c0c0..e88ba3c 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -140,7 +140,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let sent = if let Some(records_sent) = self.records_sent {
             let client_finished = records_sent
                 .first()
-                .expect("client finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("client finished record"))?;
             validate_finished_record(client_finished)?;
             records_sent
         } else if let Some(sent_raw) = sent_raw {
@@ -153,7 +153,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let recv = if let Some(records_recv) = self.records_recv {
             let server_finished = records_recv
                 .first()
-                .expect("server finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("server finished record"))?;
             validate_finished_record(server_finished)?;
             records_recv
         } else if let Some(recv_raw) = recv_raw {
-- 
2.43.0


From c3f217ff7a57befe1652b8ba23e015f49454f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 07/21] fix: refuse partial transcripts longer than a
 transcript can be

Deserializing a partial transcript whose declared total exceeds the
maximum length of a transcript panicked with a capacity overflow or
aborted on a failed allocation.
---
 crates/core/src/transcript.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/core/src/transcript.rs b/crates/core/src/transcript.rs
index 298db43..7d16e90 100644
--- a/crates/core/src/transcript.rs
+++ b/crates/core/src/transcript.rs
@@ -559,6 +559,16 @@ mod validation {
                 ));
             }
 
+            // A transcript's length is a `u32`, see `TranscriptLength`. A larger total
+            // cannot be genuine, and memory is allocated for it on decompression.
+            if u32::try_from(unchecked.sent_total).is_err()
+                || u32::try_from(unchecked.recv_total).is_err()
+            {
+                return Err(InvalidCompressedPartialTranscript(
+                    "total length exceeds the maximum length of a transcript",
+                ));
+            }
+
             if unchecked.sent_idx.end().unwrap_or(0) > unchecked.sent_total
                 || unchecked.recv_idx.end().unwrap_or(0) > unchecked.recv_total
             {
-- 
2.43.0


From c7ec10558aeca3feee96f18d184a497f6f177aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 08/21] fix: honour the flags of regex reveal rules

The handler parameters document regex flags, which were ignored.
---
 crates/sdk-core/src/handler/extract.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/sdk-core/src/handler/extract.rs b/crates/sdk-core/src/handler/extract.rs
index c3f44aa..33356e6 100644
--- a/crates/sdk-core/src/handler/extract.rs
+++ b/crates/sdk-core/src/handler/extract.rs
@@ -331,7 +331,7 @@ fn extract_all(handler: &Handler, raw: &[u8]) -> Result<Vec<Range<usize>>> {
         && params.content_type.as_deref() == Some("regex")
         && let Some(pattern) = params.regex.as_deref()
     {
-        return extract_regex(raw, pattern);
+        return extract_regex(raw, pattern, params.flags.as_deref());
     }
 
     // Return entire transcript as a single range.
@@ -339,8 +339,24 @@ fn extract_all(handler: &Handler, raw: &[u8]) -> Result<Vec<Range<usize>>> {
     Ok(vec![0..raw.len()])
 }
 
-fn extract_regex(raw: &[u8], pattern: &str) -> Result<Vec<Range<usize>>> {
-    let re = regex::bytes::Regex::new(pattern)
+fn extract_regex(raw: &[u8], pattern: &str, flags: Option<&str>) -> Result<Vec<Range<usize>>> {
+    let mut builder = regex::bytes::RegexBuilder::new(pattern);
+    for flag in flags.unwrap_or_default().chars() {
+        match flag {
+            'i' => builder.case_insensitive(true),
+            'm' => builder.multi_line(true),
+            's' => builder.dot_matches_new_line(true),
+            // All matches are extracted, and patterns are Unicode-aware.
+            'g' | 'u' => &mut builder,
+            _ => {
+                return Err(SdkError::handler(format!(
+                    "unsupported regex flag '{flag}'"
+                )));
+            }
+        };
+    }
+    let re = builder
+        .build()
         .map_err(|e| SdkError::handler(format!("invalid regex '{pattern}': {e}")))?;
 
     let ranges: Vec<Range<usize>> = re.find_iter(raw).map(|m| m.start()..m.end()).collect();
-- 
2.43.0


From e699827d6605d5206a3a4c787e819c3972b777ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 09/21] fix: refuse a zero share in the key exchange instead of
 panicking

---
 crates/components/key-exchange/src/point_addition.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/components/key-exchange/src/point_addition.rs b/crates/components/key-exchange/src/point_addition.rs
index 2efda24..fefeaed 100644
--- a/crates/components/key-exchange/src/point_addition.rs
+++ b/crates/components/key-exchange/src/point_addition.rs
@@ -48,9 +48,10 @@ where
         .try_into()
         .expect("output is same length as input");
 
-    let c = a * b
-        .inverse()
-        .expect("field element should not be zero when inverting");
+    let b_inv = b.inverse().ok_or_else(|| {
+        KeyExchangeError::share_conversion("multiplicative share must not be zero")
+    })?;
+    let c = a * b_inv;
     let c = c * c;
 
     let m2a = converter
-- 
2.43.0


From 6cbada8f25106f126313327f33407327940b9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 10/21] fix: decrypt empty application data records online

---
 crates/mpc-tls/src/record_layer/decrypt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mpc-tls/src/record_layer/decrypt.rs b/crates/mpc-tls/src/record_layer/decrypt.rs
index 614b8ab..f097b8e 100644
--- a/crates/mpc-tls/src/record_layer/decrypt.rs
+++ b/crates/mpc-tls/src/record_layer/decrypt.rs
@@ -28,6 +28,13 @@ pub(crate) fn private_mpc(
         )));
     }
 
+    // There is no keystream to compute for an empty record.
+    if op.ciphertext.is_empty() {
+        return Ok(DecryptOutput::Local(DecryptLocal {
+            plaintext: otp.map(|_| Vec::new()),
+        }));
+    }
+
     let (otp_ref, masked_keystream) = decrypter
         .apply_keystream(vm, op.explicit_nonce.clone(), op.ciphertext.len())
         .map_err(MpcTlsError::record_layer)?;
-- 
2.43.0


From 50a8fcaa9fe571d28bd56df617db70ca07e075da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 11/21] fix: verify the tags of protocol records which are
 decrypted at commit

---
 crates/mpc-tls/src/record_layer/decrypt.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/mpc-tls/src/record_layer/decrypt.rs b/crates/mpc-tls/src/record_layer/decrypt.rs
index f097b8e..f8a7120 100644
--- a/crates/mpc-tls/src/record_layer/decrypt.rs
+++ b/crates/mpc-tls/src/record_layer/decrypt.rs
@@ -130,6 +130,17 @@ pub(crate) fn decrypt_local(
                 });
             }
             DecryptMode::Public => {
+                // The leader must not act on a record which was not
+                // authenticated, nor reveal its keystream to the follower.
+                if let Role::Leader = role {
+                    local_decrypter.decrypt(
+                        op.explicit_nonce.clone(),
+                        op.aad.clone(),
+                        op.ciphertext.clone(),
+                        op.tag.clone(),
+                    )?;
+                }
+
                 pending_decrypt.push(PendingDecrypt {
                     output: public(vm, mpc_decrypter, op)?,
                 });
-- 
2.43.0


From acd21f29f583643d72592f924b62e7152344a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 12/21] fix: verify tags before the keystream of public records
 is revealed

The content type of a received record decides whether its keystream is
revealed to the follower, but was not authentic yet at that point: changing
the type of an application data record on the way to the prover revealed
its contents to the follower.
---
 crates/mpc-tls/src/record_layer.rs | 34 +++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/crates/mpc-tls/src/record_layer.rs b/crates/mpc-tls/src/record_layer.rs
index c9010f3..5910db9 100644
--- a/crates/mpc-tls/src/record_layer.rs
+++ b/crates/mpc-tls/src/record_layer.rs
@@ -462,22 +462,46 @@ impl RecordLayer {
             decrypt_ops.len()
         );
 
+        let mut verify_tags = Some(decrypt::verify_tags(
+            &mut (*vm),
+            &mut decrypter,
+            &decrypt_ops,
+        )?);
+
+        // The keystream of a public record is revealed to the follower. The
+        // content type decides which records are public and is not authentic
+        // before the tags are verified, so this can not be done in parallel.
+        if decrypt_ops
+            .iter()
+            .any(|op| matches!(op.mode, DecryptMode::Public))
+            && let Some(verify_tags) = verify_tags.take()
+        {
+            vm.execute_all(ctx)
+                .await
+                .map_err(MpcTlsError::record_layer)?;
+            verify_tags
+                .run(ctx)
+                .await
+                .map_err(MpcTlsError::record_layer)?;
+        }
+
         let (pending_encrypt, compute_tags) =
             encrypt::encrypt(&mut (*vm), &mut encrypter, &encrypt_ops)?;
 
         let pending_decrypt =
             decrypt::decrypt_mpc(&mut (*vm), &mut decrypter, recv_otp.as_mut(), &decrypt_ops)?;
-        let verify_tags = decrypt::verify_tags(&mut (*vm), &mut decrypter, &decrypt_ops)?;
 
         // Run tag computation and VM in parallel.
         let (mut tags, _) = ctx
             .try_join(
                 move |ctx| {
                     Box::pin(async move {
-                        verify_tags
-                            .run(ctx)
-                            .map_err(MpcTlsError::record_layer)
-                            .await?;
+                        if let Some(verify_tags) = verify_tags {
+                            verify_tags
+                                .run(ctx)
+                                .map_err(MpcTlsError::record_layer)
+                                .await?;
+                        }
 
                         compute_tags
                             .run(ctx)
-- 
2.43.0


From 6b856335b144214a51d61c29773a06308a1a7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 13/21] fix: report a server random set before the client
 random as an error

---
 crates/components/hmac-sha256/src/prf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/components/hmac-sha256/src/prf.rs b/crates/components/hmac-sha256/src/prf.rs
index e23de19..8177e29 100644
--- a/crates/components/hmac-sha256/src/prf.rs
+++ b/crates/components/hmac-sha256/src/prf.rs
@@ -200,7 +200,7 @@ impl Prf {
 
         let client_random = self
             .client_random
-            .expect("Client random should have been set by now");
+            .ok_or_else(|| PrfError::state("client random not set"))?;
         let server_random = random;
 
         if matches!(self.config.ms, MSMode::Standard) {
-- 
2.43.0


From 1fafa894bc685a6331c628bd70778e89ee34f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 14/21] fix: do not overflow when checking the length of a
 record to send

---
 crates/mpc-tls/src/record_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mpc-tls/src/record_layer.rs b/crates/mpc-tls/src/record_layer.rs
index 5910db9..68844a6 100644
--- a/crates/mpc-tls/src/record_layer.rs
+++ b/crates/mpc-tls/src/record_layer.rs
@@ -292,7 +292,7 @@ impl RecordLayer {
     ) -> Result<(), MpcTlsError> {
         if self.encrypt_buffer.len() >= MAX_BUFFER_SIZE {
             return Err(MpcTlsError::peer("encrypt buffer is full"));
-        } else if self.sent + len > self.max_sent {
+        } else if self.sent.saturating_add(len) > self.max_sent {
             return Err(MpcTlsError::record_layer(format!(
                 "attempted to send more data than was configured, increase `max_sent` in the config: current={}, additional={}, max={}",
                 self.sent, len, self.max_sent
-- 
2.43.0


From d1ebd74ae4b2fd6e6d4f3f567b32b147fb7e8ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 15/21] fix: reject commitments out of bounds of the transcript

---
 crates/tlsn/src/verifier/verify.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tlsn/src/verifier/verify.rs b/crates/tlsn/src/verifier/verify.rs
index f383e79..9eebfa8 100644
--- a/crates/tlsn/src/verifier/verify.rs
+++ b/crates/tlsn/src/verifier/verify.rs
@@ -98,6 +98,13 @@ pub(crate) async fn verify<T: Vm<Binary> + Send + Sync>(
             });
     }
 
+    if commit_sent.end().unwrap_or(0) > ciphertext_sent.len()
+        || commit_recv.end().unwrap_or(0) > ciphertext_recv.len()
+    {
+        return Err(Error::internal()
+            .with_msg("verification failed: commitment is out of bounds of the transcript"));
+    }
+
     let (sent_refs, sent_proof) = verify_plaintext(
         vm,
         keys.client_write_key,
-- 
2.43.0


From ae8aec990fa6df790979cfc51f2c2a537cffe408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 16/21] fix: report a proxy connection closed without data as
 an error

---
 crates/tlsn/src/verifier.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tlsn/src/verifier.rs b/crates/tlsn/src/verifier.rs
index 9733f25..882dc3b 100644
--- a/crates/tlsn/src/verifier.rs
+++ b/crates/tlsn/src/verifier.rs
@@ -348,9 +348,9 @@ impl Verifier<state::CommitAccepted<Proxy>> {
         })?;
         info!("proxying TLS traffic finished");
 
-        let conn_time = prover_reader
-            .first_read()
-            .expect("connection time should have been set");
+        let conn_time = prover_reader.first_read().ok_or_else(|| {
+            Error::io().with_msg("prover closed the proxy connection before sending data")
+        })?;
 
         let (mut ctx, mut vm, output, cf_vd_check, sf_vd_check) =
             verifier.finalize(&sent_buf, &recv_buf, conn_time).await?;
-- 
2.43.0


From ac18c545cda2ca337aca21a1673db9a88b1713e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 17/21] fix: end the MPC-TLS client when the server closes
 during the handshake

---
 crates/tlsn/src/prover/client/mpc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 733726c..202ee89 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -250,6 +250,10 @@ impl TlsClient for MpcTlsClient {
 
                 match fut.as_mut().poll(cx)? {
                     Poll::Ready(inner) => {
+                        if self.server_closed && inner.tls.is_handshaking() {
+                            return Poll::Ready(Err(TlsnError::internal()
+                                .with_msg("server closed the connection during the handshake")));
+                        }
                         self.state = State::Active { inner };
                         // re-poll immediately if a close transition is pending
                         if self.server_closed {
-- 
2.43.0


From 9867177dba1ede47275b25d8d68d68af60dd1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 18/21] fix: end the proxy TLS client when the server closes
 during the handshake

---
 crates/tlsn/src/prover/client/proxy/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index cde5b84..f99a07e 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -229,6 +229,9 @@ impl TlsClient for ProxyTlsClient {
                         prover,
                     };
                     self.poll(cx)
+                } else if self.server_closed {
+                    Poll::Ready(Err(TlsnError::internal()
+                        .with_msg("server closed the connection during the handshake")))
                 } else {
                     self.state = State::Handshaking { prover };
                     Poll::Pending
-- 
2.43.0


From aba14427357ceb055fd3d50f6d86c57f7d9e48ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:55 +0000
Subject: [PATCH 19/21] fix: keep the names of repeated response headers in the
 SDK

---
 crates/sdk-core/src/prover.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/sdk-core/src/prover.rs b/crates/sdk-core/src/prover.rs
index 3c3447c..31bb96f 100644
--- a/crates/sdk-core/src/prover.rs
+++ b/crates/sdk-core/src/prover.rs
@@ -516,13 +516,8 @@ async fn send_request(conn: TlsConnection, request: HttpRequest) -> Result<HttpR
 
     let headers = response
         .headers
-        .into_iter()
-        .map(|(k, v)| {
-            (
-                k.map(|k| k.to_string()).unwrap_or_default(),
-                v.as_bytes().to_vec(),
-            )
-        })
+        .iter()
+        .map(|(k, v)| (k.to_string(), v.as_bytes().to_vec()))
         .collect();
 
     Ok(HttpResponse {
-- 
2.43.0


From 8f4cb218e538d165d81040db1f776bd5030b1a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 20/21] fix: return SDK commitment openings in the order of the
 request

---
 crates/sdk-core/src/prover.rs | 46 +++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/crates/sdk-core/src/prover.rs b/crates/sdk-core/src/prover.rs
index 31bb96f..65c7aa9 100644
--- a/crates/sdk-core/src/prover.rs
+++ b/crates/sdk-core/src/prover.rs
@@ -2,6 +2,7 @@
 
 use http_body_util::{BodyExt, Full};
 use hyper::body::Bytes;
+use rangeset::set::RangeSet;
 use tlsn::{
     Mpc, Proxy, Session, SessionHandle,
     config::{
@@ -15,6 +16,7 @@ use tlsn::{
 };
 use tlsn_core::{
     ProverOutput,
+    hash::HashAlgId,
     transcript::{Direction, TranscriptCommitment, TranscriptSecret},
 };
 use tracing::{error, info};
@@ -396,7 +398,7 @@ impl SdkProver {
         }
 
         // Build transcript commit config for hash-commitment ranges.
-        if let Some(commit) = commit {
+        if let Some(commit) = &commit {
             let mut commit_builder =
                 tlsn_core::transcript::TranscriptCommitConfig::builder(prover.transcript());
 
@@ -437,7 +439,7 @@ impl SdkProver {
 
         self.state = State::Complete;
 
-        build_reveal_output(prover_output)
+        build_reveal_output(prover_output, commit)
     }
 
     /// Returns true if the prover has completed the protocol.
@@ -446,7 +448,7 @@ impl SdkProver {
     }
 }
 
-fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
+fn build_reveal_output(output: ProverOutput, commit: Option<Commit>) -> Result<RevealOutput> {
     let ProverOutput {
         transcript_commitments,
         transcript_secrets,
@@ -460,8 +462,7 @@ fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
         )));
     }
 
-    let mut sent = Vec::new();
-    let mut recv = Vec::new();
+    let mut openings = Vec::new();
     for (commitment, secret) in transcript_commitments.into_iter().zip(transcript_secrets) {
         let (commitment, secret) = match (commitment, secret) {
             (TranscriptCommitment::Hash(c), TranscriptSecret::Hash(s)) => (c, s),
@@ -483,13 +484,38 @@ fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
             blinder: secret.blinder.as_bytes().to_vec(),
         };
 
-        match commitment.direction {
-            Direction::Sent => sent.push(opening),
-            Direction::Received => recv.push(opening),
-        }
+        openings.push((secret, opening));
     }
 
-    Ok(RevealOutput { sent, recv })
+    // The commitments are neither in input order, nor do they contain
+    // duplicates of the input.
+    let find = |ranges: Vec<CommitRange>, direction: Direction| {
+        ranges
+            .into_iter()
+            .map(|range| {
+                let idx = RangeSet::from(range.range());
+                let alg = HashAlgId::from(range.algorithm);
+                openings
+                    .iter()
+                    .find(|(secret, _)| {
+                        secret.direction == direction && secret.idx == idx && secret.alg == alg
+                    })
+                    .map(|(_, opening)| opening.clone())
+                    .ok_or_else(|| {
+                        SdkError::protocol("prover output mismatch: missing commitment opening")
+                    })
+            })
+            .collect::<Result<Vec<_>>>()
+    };
+
+    let Some(commit) = commit else {
+        return Ok(RevealOutput::default());
+    };
+
+    Ok(RevealOutput {
+        sent: find(commit.sent, Direction::Sent)?,
+        recv: find(commit.recv, Direction::Received)?,
+    })
 }
 
 async fn send_request(conn: TlsConnection, request: HttpRequest) -> Result<HttpResponse> {
-- 
2.43.0


From 3a6eed3b3c54967444795c2c930f8b572c756dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:37 +0000
Subject: [PATCH 21/21] fix: judge certificate timestamps by the millisecond,
 not the second

unix_time_millis() dropped the fraction of the current second, so a signed
certificate timestamp issued earlier within the same second was refused as
coming from the future.
---
 crates/tls-core/src/verify.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/tls-core/src/verify.rs b/crates/tls-core/src/verify.rs
index 8445ece..1da77c1 100644
--- a/crates/tls-core/src/verify.rs
+++ b/crates/tls-core/src/verify.rs
@@ -626,9 +626,8 @@ fn verify_tls13(
 
 fn unix_time_millis(now: SystemTime) -> Result<u64, Error> {
     now.duration_since(SystemTime::UNIX_EPOCH)
-        .map(|dur| dur.as_secs())
         .map_err(|_| Error::FailedToGetCurrentTime)
-        .and_then(|secs| secs.checked_mul(1000).ok_or(Error::FailedToGetCurrentTime))
+        .and_then(|dur| u64::try_from(dur.as_millis()).map_err(|_| Error::FailedToGetCurrentTime))
 }
 
 #[cfg(test)]
-- 
2.43.0

