From c536a45e194aaa59148d5adc2b68b546f1d88e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 01/24] fix: reject TLS records with a non-0x03XX version that
 has a registered name

Only unregistered versions were compared against 0x03XX, so the named
versions SSLv2 (0x0200) and DTLS (0xFEFF, 0xFEFD) were accepted as TLS
record versions instead of desynchronising the stream.
---
 crates/tls-core/src/msgs/message.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/tls-core/src/msgs/message.rs b/crates/tls-core/src/msgs/message.rs
index b222180..18135b1 100644
--- a/crates/tls-core/src/msgs/message.rs
+++ b/crates/tls-core/src/msgs/message.rs
@@ -97,12 +97,9 @@ impl OpaqueMessage {
         }
 
         // Accept only versions 0x03XX for any XX.
-        match version {
-            ProtocolVersion::Unknown(ref v) if (v & 0xff00) != 0x0300 => {
-                return Err(MessageError::IllegalProtocolVersion);
-            }
-            _ => {}
-        };
+        if (version.get_u16() & 0xff00) != 0x0300 {
+            return Err(MessageError::IllegalProtocolVersion);
+        }
 
         let mut sub = r.sub(len as usize).ok_or(MessageError::TooShortForLength)?;
         let payload = Payload::read(&mut sub);
-- 
2.43.0


From 06e6f708e34963fff95f58977f24554761832a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 02/24] fix: distinguish ECDSA curves when determining the
 handshake signature algorithm

---
 crates/tls-core/src/verify.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/tls-core/src/verify.rs b/crates/tls-core/src/verify.rs
index c52deab..8994171 100644
--- a/crates/tls-core/src/verify.rs
+++ b/crates/tls-core/src/verify.rs
@@ -484,28 +484,34 @@ pub enum SignatureAlgorithm {
 
 impl SignatureAlgorithm {
     pub fn from_alg(alg: &dyn pki_types::SignatureVerificationAlgorithm) -> Self {
-        let id = alg.signature_alg_id();
-        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id() {
+        // The signature algorithm id alone does not identify the curve of an ECDSA
+        // algorithm, so the public key algorithm id has to be compared as well.
+        let is = |other: &dyn pki_types::SignatureVerificationAlgorithm| {
+            alg.signature_alg_id() == other.signature_alg_id()
+                && alg.public_key_alg_id() == other.public_key_alg_id()
+        };
+
+        if is(webpki::ring::ECDSA_P256_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA256
-        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P256_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA384
-        } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA256
-        } else if id == webpki::ring::ECDSA_P384_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA384
-        } else if id == webpki::ring::ED25519.signature_alg_id() {
+        } else if is(webpki::ring::ED25519) {
             SignatureAlgorithm::ED25519
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA256) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA384) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA512.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA512) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY
         } else {
             unreachable!()
-- 
2.43.0


From 07b050100445d7fd3ab9a1c338491586684fe0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 03/24] fix: cover reveal queries with overlapping commitments
 of different kinds

A range committed with a less preferred kind was only considered if it did
not overlap a range already opened with a more preferred one, so that a
fully committed range could be refused as not coverable.
---
 crates/core/src/transcript/proof.rs | 62 ++++++++++++++++-------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/crates/core/src/transcript/proof.rs b/crates/core/src/transcript/proof.rs
index a3a949d..bba63db 100644
--- a/crates/core/src/transcript/proof.rs
+++ b/crates/core/src/transcript/proof.rs
@@ -373,34 +373,40 @@ impl<'a> TranscriptProofBuilder<'a> {
             if let Some(kind) = commitment_kinds_iter.next() {
                 match kind {
                     TranscriptCommitmentKind::Hash { alg } => {
-                        let (sent_hashes, sent_uncovered) = uncovered_query_idx.sent.cover_by(
-                            self.hash_secrets.iter().filter(|hash| {
-                                hash.direction == Direction::Sent && &hash.alg == alg
-                            }),
-                            |hash| &hash.idx,
-                        );
-                        // Uncovered ranges will be checked with ranges of the next
-                        // preferred commitment kind.
-                        uncovered_query_idx.sent = sent_uncovered;
-
-                        let (recv_hashes, recv_uncovered) = uncovered_query_idx.recv.cover_by(
-                            self.hash_secrets.iter().filter(|hash| {
-                                hash.direction == Direction::Received && &hash.alg == alg
-                            }),
-                            |hash| &hash.idx,
-                        );
-                        uncovered_query_idx.recv = recv_uncovered;
-
-                        transcript_proof.hash_secrets.extend(
-                            sent_hashes
-                                .into_iter()
-                                .map(|s| PlaintextHashSecret::clone(s)),
-                        );
-                        transcript_proof.hash_secrets.extend(
-                            recv_hashes
-                                .into_iter()
-                                .map(|s| PlaintextHashSecret::clone(s)),
-                        );
+                        for (direction, query, uncovered) in [
+                            (
+                                Direction::Sent,
+                                &self.query_idx.sent,
+                                &mut uncovered_query_idx.sent,
+                            ),
+                            (
+                                Direction::Received,
+                                &self.query_idx.recv,
+                                &mut uncovered_query_idx.recv,
+                            ),
+                        ] {
+                            // Committed ranges of this kind may overlap with ranges which are
+                            // already covered by a more preferred kind, so they are matched
+                            // against the entire query.
+                            let (hashes, _) = query.cover_by(
+                                self.hash_secrets
+                                    .iter()
+                                    .filter(|hash| hash.direction == direction && &hash.alg == alg),
+                                |hash| &hash.idx,
+                            );
+
+                            for hash in hashes {
+                                // Uncovered ranges will be checked with ranges of the next
+                                // preferred commitment kind.
+                                let remaining = uncovered.difference(&hash.idx).into_set();
+                                if remaining != *uncovered {
+                                    *uncovered = remaining;
+                                    transcript_proof
+                                        .hash_secrets
+                                        .push(PlaintextHashSecret::clone(hash));
+                                }
+                            }
+                        }
                     }
                     #[allow(unreachable_patterns)]
                     kind => {
-- 
2.43.0


From b692b21341f7b87f5b4b70ac2e5ab844509c8512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 04/24] fix: refuse attestations with non-consecutive field ids

Building a presentation from an attestation with duplicate or
non-consecutive field ids panicked in the Merkle proof construction.
---
 crates/attestation/src/proof.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/attestation/src/proof.rs b/crates/attestation/src/proof.rs
index 21b4fc3..c0bc500 100644
--- a/crates/attestation/src/proof.rs
+++ b/crates/attestation/src/proof.rs
@@ -100,6 +100,15 @@ impl BodyProof {
             .map(|(id, hash)| (id.0 as usize, hash))
             .unzip();
 
+        // An attestation may come from an untrusted source, make sure that the
+        // fields are numbered the way the builder does it.
+        if indices.iter().enumerate().any(|(i, idx)| i != *idx) {
+            return Err(AttestationError::new(
+                ErrorKind::Body,
+                "field ids are not consecutive",
+            ));
+        }
+
         let mut tree = MerkleTree::new(hasher.id());
         tree.insert(hasher, leaves);
 
-- 
2.43.0


From 04f8c8eb5337d94fb098812a9494c71671287488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 05/24] fix: bind the attestation body to the header in
 Request::validate

The signature covers the header only: an attestation whose body does not
match the header passed validation, although nothing in the body was
authenticated and no presentation of it verifies.
---
 crates/attestation/src/request.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/attestation/src/request.rs b/crates/attestation/src/request.rs
index 8106802..b754850 100644
--- a/crates/attestation/src/request.rs
+++ b/crates/attestation/src/request.rs
@@ -21,7 +21,7 @@ use serde::{Deserialize, Serialize};
 use tlsn_core::hash::HashAlgId;
 
 use crate::{
-    Attestation, CryptoProvider, Extension, connection::ServerCertCommitment,
+    Attestation, AttestationProof, CryptoProvider, Extension, connection::ServerCertCommitment,
     serialize::CanonicalSerialize, signing::SignatureAlgId,
 };
 
@@ -98,6 +98,15 @@ impl Request {
                 AttestationValidationError::inconsistent("failed to verify the signature")
             })?;
 
+        // The signature only covers the header, the body must be bound to it.
+        AttestationProof::new(provider, attestation)
+            .and_then(|proof| proof.verify(provider))
+            .map_err(|e| {
+                AttestationValidationError::inconsistent(format!(
+                    "body does not match the header: {e}"
+                ))
+            })?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 013d46d15db3fee1c0ff9267a4e0ce9a95f12d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 06/24] fix: bound the total length of compressed partial
 transcripts

The totals are attacker controlled and were allocated as is, so that a
malformed presentation aborted or panicked the verifier.
---
 crates/core/src/transcript.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/core/src/transcript.rs b/crates/core/src/transcript.rs
index 298db43..357ca07 100644
--- a/crates/core/src/transcript.rs
+++ b/crates/core/src/transcript.rs
@@ -567,6 +567,15 @@ mod validation {
                 ));
             }
 
+            // The length of a transcript is at most `u32::MAX`, see `TranscriptLength`. Decompression
+            // allocates this amount of memory.
+            if unchecked.sent_total > u32::MAX as usize || unchecked.recv_total > u32::MAX as usize
+            {
+                return Err(InvalidCompressedPartialTranscript(
+                    "total length exceeds the maximum length of a transcript",
+                ));
+            }
+
             Ok(Self {
                 received_authed: unchecked.received_authed,
                 recv_idx: unchecked.recv_idx,
-- 
2.43.0


From 5e0bb1dbc2e13b3ad6d8db6a64f72c06db0016db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 07/24] fix: exclude messages after ServerHelloDone from the
 session hash

The server may send a NewSessionTicket after the client's flight. RFC 7627
defines the session hash over the messages up to and including
ClientKeyExchange.
---
 crates/core/src/transcript/tls/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 83ba75a..5b2c0c0 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -298,7 +298,7 @@ fn compute_handshake_hashes(
     // → client flight up to and including ClientKeyExchange.
     let mut hasher = Sha256::new();
     hasher.update(&sent_hs_bytes[..sent_ch_end]);
-    hasher.update(&recv_hs_bytes);
+    hasher.update(&recv_hs_bytes[..recv_shd_end]);
     hasher.update(&sent_hs_bytes[sent_ch_end..ckx.end]);
     let session_hash: [u8; 32] = hasher.finalize().into();
 
-- 
2.43.0


From eeebfdeb7d8a808668b2cd3bdad5984388f23048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 08/24] fix: allocate AES-GCM keystream per record so that
 padded records fit within the limits

---
 crates/mpc-tls/src/record_layer/aead/aes_gcm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs b/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs
index 5848a61..73a3ba3 100644
--- a/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs
+++ b/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs
@@ -112,8 +112,9 @@ impl MpcAesGcm {
 
         // Allocate encryption/decryption.
 
-        // Round up the length to the nearest multiple of the block size.
-        let len = 16 * len.div_ceil(16);
+        // Every record is padded to a multiple of the block size, so a record
+        // can consume up to 15 bytes more than its length.
+        let len = 16 * ((len + 15 * records.max(1)) / 16);
 
         let input = vm.alloc_vec::<U8>(len)?;
         match self.role {
-- 
2.43.0


From 921c8e2f1cb574d1eea716f09e0908488ff543d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 09/24] fix: send the close_notify without waiting for further
 traffic

---
 crates/tlsn/src/prover/client/mpc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 733726c..e2c34ef 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -250,9 +250,12 @@ impl TlsClient for MpcTlsClient {
 
                 match fut.as_mut().poll(cx)? {
                     Poll::Ready(inner) => {
+                        let client_close = self.client_wants_close
+                            && !inner.client_closed
+                            && !inner.tls.is_handshaking();
                         self.state = State::Active { inner };
                         // re-poll immediately if a close transition is pending
-                        if self.server_closed {
+                        if self.server_closed || client_close {
                             return self.poll(cx);
                         }
                     }
@@ -377,6 +380,8 @@ impl InnerState {
                 warn!("failed to send close_notify to server: {}", e);
             }
             self.client_closed = true;
+            // The alert is only queued, process it.
+            self = self.run().await?;
         }
 
         Ok(self)
-- 
2.43.0


From e055c7a7bf8b73611709b38d85776c95219223a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 10/24] fix: allocate protocol records on top of explicitly
 configured record limits

---
 crates/mpc-tls/src/config.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/mpc-tls/src/config.rs b/crates/mpc-tls/src/config.rs
index 9a13861..77ab6d7 100644
--- a/crates/mpc-tls/src/config.rs
+++ b/crates/mpc-tls/src/config.rs
@@ -101,12 +101,14 @@ impl ConfigBuilder {
         max_recv_online += PROTOCOL_DATA_RECV;
         max_recv += PROTOCOL_DATA_RECV;
 
-        let max_sent_records = self
-            .max_sent_records
-            .unwrap_or_else(|| PROTOCOL_RECORD_COUNT_SENT + default_record_count(max_sent));
-        let max_recv_records_online = self
-            .max_recv_records_online
-            .unwrap_or_else(|| PROTOCOL_RECORD_COUNT_RECV + default_record_count(max_recv_online));
+        let max_sent_records = PROTOCOL_RECORD_COUNT_SENT
+            + self
+                .max_sent_records
+                .unwrap_or_else(|| default_record_count(max_sent));
+        let max_recv_records_online = PROTOCOL_RECORD_COUNT_RECV
+            + self
+                .max_recv_records_online
+                .unwrap_or_else(|| default_record_count(max_recv_online));
 
         let prf = self.prf.unwrap_or(NetworkMode::Normal);
 
-- 
2.43.0


From 239dae620daf8446d37555b786163970a813f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 11/24] fix: decrypt empty application data records online

---
 crates/mpc-tls/src/record_layer/decrypt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mpc-tls/src/record_layer/decrypt.rs b/crates/mpc-tls/src/record_layer/decrypt.rs
index 614b8ab..e18d075 100644
--- a/crates/mpc-tls/src/record_layer/decrypt.rs
+++ b/crates/mpc-tls/src/record_layer/decrypt.rs
@@ -18,6 +18,13 @@ pub(crate) fn private_mpc(
     otp: Option<&mut Vec<u8>>,
     op: &DecryptOp,
 ) -> Result<DecryptOutput, MpcTlsError> {
+    // An empty record needs no keystream.
+    if op.ciphertext.is_empty() {
+        return Ok(DecryptOutput::Local(DecryptLocal {
+            plaintext: otp.map(|_| Vec::new()),
+        }));
+    }
+
     if let Some(otp) = otp.as_ref()
         && op.ciphertext.len() > otp.len()
     {
-- 
2.43.0


From fc3e426a9228c5ac10f84d6093c8359a504ae623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 12/24] fix: fail when the server closes the connection during
 the MPC-TLS handshake

---
 crates/tlsn/src/prover/client/mpc.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index e2c34ef..fa2736e 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -241,7 +241,11 @@ impl TlsClient for MpcTlsClient {
                     return self.poll(cx);
                 }
                 self.state = State::Busy {
-                    fut: Box::pin(inner.run()),
+                    fut: if self.server_closed {
+                        Box::pin(inner.handshake_closed())
+                    } else {
+                        Box::pin(inner.run())
+                    },
                 };
                 self.poll(cx)
             }
@@ -370,6 +374,23 @@ impl InnerState {
         Ok(self)
     }
 
+    /// Processes what the server sent before it closed the connection during
+    /// the handshake.
+    ///
+    /// Fails if that does not complete the handshake.
+    #[instrument(parent = &self.span, level = "debug", skip_all, err)]
+    async fn handshake_closed(mut self: Box<Self>) -> Result<Box<Self>, TlsnError> {
+        self = self.run().await?;
+
+        if self.tls.is_handshaking() {
+            return Err(
+                TlsnError::io().with_msg("server closed the connection during the handshake")
+            );
+        }
+
+        Ok(self)
+    }
+
     #[instrument(parent = &self.span, level = "debug", skip_all, err)]
     async fn client_close(mut self: Box<Self>) -> Result<Box<Self>, TlsnError> {
         self = self.run().await?;
-- 
2.43.0


From 40822df352871c48aff14c486b628be81a9f3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 13/24] fix: fail when the server closes the connection during
 the proxied handshake

---
 crates/tlsn/src/prover/client/proxy/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index cde5b84..ddb0563 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -229,6 +229,9 @@ impl TlsClient for ProxyTlsClient {
                         prover,
                     };
                     self.poll(cx)
+                } else if self.server_closed {
+                    Poll::Ready(Err(TlsnError::io()
+                        .with_msg("server closed the connection during the handshake")))
                 } else {
                     self.state = State::Handshaking { prover };
                     Poll::Pending
-- 
2.43.0


From ca0cc27f935aeec82ddf91270d258e457d54a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 14/24] fix: discard plaintext the application no longer reads
 instead of blocking the connection

---
 crates/tlsn/src/prover.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/tlsn/src/prover.rs b/crates/tlsn/src/prover.rs
index c61c49f..59f5e2a 100644
--- a/crates/tlsn/src/prover.rs
+++ b/crates/tlsn/src/prover.rs
@@ -492,12 +492,19 @@ where
                         simplex.advance_mut(read);
                     }
                 }
-                // do not attempt to write into closed sockets
+                // do not attempt to write into closed sockets, but discard the
+                // data, as no more is read from the server while it is pending
                 Poll::Ready(Err(err))
                     if matches!(
                         err.kind(),
                         std::io::ErrorKind::BrokenPipe | std::io::ErrorKind::ConnectionReset
-                    ) => {}
+                    ) =>
+                {
+                    let mut discard = [0u8; 4096];
+                    while state.tls_client.wants_read() && state.tls_client.read(&mut discard)? > 0
+                    {
+                    }
+                }
                 Poll::Ready(Err(err)) => return Err(Error::from(err)),
                 _ => {}
             }
-- 
2.43.0


From 6e74506217be2da1847e85915d4d484c2288b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 15/24] fix: return an error when the prover closes a proxied
 connection before sending data

---
 crates/tlsn/src/verifier.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tlsn/src/verifier.rs b/crates/tlsn/src/verifier.rs
index 9733f25..88e11e1 100644
--- a/crates/tlsn/src/verifier.rs
+++ b/crates/tlsn/src/verifier.rs
@@ -348,9 +348,9 @@ impl Verifier<state::CommitAccepted<Proxy>> {
         })?;
         info!("proxying TLS traffic finished");
 
-        let conn_time = prover_reader
-            .first_read()
-            .expect("connection time should have been set");
+        let conn_time = prover_reader.first_read().ok_or_else(|| {
+            Error::io().with_msg("prover closed the connection without sending any data")
+        })?;
 
         let (mut ctx, mut vm, output, cf_vd_check, sf_vd_check) =
             verifier.finalize(&sent_buf, &recv_buf, conn_time).await?;
-- 
2.43.0


From 5968855bbd6ebd9c8e2edd0676a68594887e02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 16/24] fix: apply changes of the decryption state without
 waiting for further traffic

---
 crates/tlsn/src/prover/client.rs           | 17 +++++++++-
 crates/tlsn/src/prover/client/mpc.rs       | 38 ++++++++++------------
 crates/tlsn/src/prover/client/proxy/mod.rs |  6 ++--
 3 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/crates/tlsn/src/prover/client.rs b/crates/tlsn/src/prover/client.rs
index b123757..1c17e0b 100644
--- a/crates/tlsn/src/prover/client.rs
+++ b/crates/tlsn/src/prover/client.rs
@@ -1,12 +1,13 @@
 //! Provides a TLS client.
 
 use crate::{TlsOutput, deps::ProverZk};
+use futures::task::AtomicWaker;
 use std::{
     sync::{
         Arc,
         atomic::{AtomicBool, Ordering},
     },
-    task::Poll,
+    task::{Poll, Waker},
 };
 
 mod mpc;
@@ -64,11 +65,25 @@ pub(crate) trait TlsClient {
 #[derive(Debug)]
 pub(crate) struct DecryptState {
     decrypt: AtomicBool,
+    waker: AtomicWaker,
 }
 
 impl DecryptState {
+    pub(crate) fn new(decrypt: bool) -> Self {
+        Self {
+            decrypt: AtomicBool::new(decrypt),
+            waker: AtomicWaker::new(),
+        }
+    }
+
     pub(crate) fn enable_decryption(&self, enable: bool) {
         self.decrypt.store(enable, Ordering::Release);
+        self.waker.wake();
+    }
+
+    /// Registers the waker to be woken when decryption is enabled or disabled.
+    pub(crate) fn register(&self, waker: &Waker) {
+        self.waker.register(waker);
     }
 
     pub(crate) fn is_decrypting(&self) -> bool {
diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index fa2736e..7030a83 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -9,11 +9,7 @@ use futures::{Future, FutureExt};
 use mpc_tls::{MpcTlsLeader, SessionKeys, client::ClientConnection};
 use mpz_common::Context;
 use rustls_pki_types::CertificateDer;
-use std::{
-    pin::Pin,
-    sync::{Arc, atomic::AtomicBool},
-    task::Poll,
-};
+use std::{pin::Pin, sync::Arc, task::Poll};
 use tls_core::dns::ServerName;
 use tlsn_core::{config::tls::TlsClientConfig, transcript::TlsTranscript};
 use tlsn_deap::Deap;
@@ -64,9 +60,7 @@ impl MpcTlsClient {
         mpc_tls: MpcTlsLeader,
     ) -> Result<Self, TlsnError> {
         let config = create_client_config(config)?;
-        let decrypt = DecryptState {
-            decrypt: AtomicBool::new(mpc_tls.is_decrypting()),
-        };
+        let decrypt = DecryptState::new(mpc_tls.is_decrypting());
 
         let tls = ClientConnection::new(Arc::new(config), mpc_tls, server_name).map_err(|e| {
             TlsnError::config()
@@ -205,6 +199,8 @@ impl TlsClient for MpcTlsClient {
         &mut self,
         cx: &mut std::task::Context,
     ) -> Poll<Result<(Context, ProverZk, TlsOutput), Self::Error>> {
+        self.decrypt.register(cx.waker());
+
         match std::mem::replace(&mut self.state, State::Error) {
             State::Start { inner } => {
                 trace!("inner client is starting");
@@ -222,16 +218,17 @@ impl TlsClient for MpcTlsClient {
                         self.state = State::CloseBusy {
                             fut: Box::pin(inner.server_close()),
                         };
-                    } else if self.client_wants_close {
-                        self.state = State::Busy {
-                            fut: Box::pin(inner.client_close()),
-                        };
-                    } else if decrypt != inner.decrypt {
-                        inner.tls.enable_decryption(decrypt);
+                        return self.poll(cx);
+                    }
 
+                    if decrypt != inner.decrypt {
+                        inner.tls.enable_decryption(decrypt);
                         inner.decrypt = decrypt;
+                    }
+
+                    if self.client_wants_close {
                         self.state = State::Busy {
-                            fut: Box::pin(inner.run()),
+                            fut: Box::pin(inner.client_close()),
                         };
                     } else {
                         self.state = State::Busy {
@@ -254,12 +251,13 @@ impl TlsClient for MpcTlsClient {
 
                 match fut.as_mut().poll(cx)? {
                     Poll::Ready(inner) => {
-                        let client_close = self.client_wants_close
-                            && !inner.client_closed
-                            && !inner.tls.is_handshaking();
+                        let pending = !inner.tls.is_handshaking()
+                            && ((self.client_wants_close && !inner.client_closed)
+                                || self.decrypt.is_decrypting() != inner.decrypt);
                         self.state = State::Active { inner };
-                        // re-poll immediately if a close transition is pending
-                        if self.server_closed || client_close {
+                        // re-poll immediately if a close transition or a change of the
+                        // decryption state is pending
+                        if self.server_closed || pending {
                             return self.poll(cx);
                         }
                     }
diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index ddb0563..a4616de 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -16,7 +16,7 @@ use rustls_pki_types::{CertificateDer, PrivateKeyDer};
 use std::{
     io::{Read, Write},
     pin::Pin,
-    sync::{Arc, atomic::AtomicBool},
+    sync::Arc,
     task::Poll,
 };
 use tls_core::dns::ServerName;
@@ -104,9 +104,7 @@ impl ProxyTlsClient {
                     .with_source(err)
             })?;
 
-        let decrypt = DecryptState {
-            decrypt: AtomicBool::new(true),
-        };
+        let decrypt = DecryptState::new(true);
 
         let tls_client = Self {
             conn,
-- 
2.43.0


From 80cf1771001e6fb6c8460644a476eefb2af68322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 17/24] fix: refuse commitment ranges that exceed the
 transcript instead of panicking

---
 crates/tlsn/src/verifier/verify.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tlsn/src/verifier/verify.rs b/crates/tlsn/src/verifier/verify.rs
index f383e79..283b6f8 100644
--- a/crates/tlsn/src/verifier/verify.rs
+++ b/crates/tlsn/src/verifier/verify.rs
@@ -98,6 +98,13 @@ pub(crate) async fn verify<T: Vm<Binary> + Send + Sync>(
             });
     }
 
+    if commit_sent.end().unwrap_or(0) > ciphertext_sent.len()
+        || commit_recv.end().unwrap_or(0) > ciphertext_recv.len()
+    {
+        return Err(Error::internal()
+            .with_msg("verification failed: commitment ranges exceed the transcript"));
+    }
+
     let (sent_refs, sent_proof) = verify_plaintext(
         vm,
         keys.client_write_key,
-- 
2.43.0


From 50aa6caf1363c48726d5ddc8f749088075496c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 18/24] fix: return an error when the server random is set
 before the client random

---
 crates/components/hmac-sha256/src/prf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/components/hmac-sha256/src/prf.rs b/crates/components/hmac-sha256/src/prf.rs
index e23de19..8177e29 100644
--- a/crates/components/hmac-sha256/src/prf.rs
+++ b/crates/components/hmac-sha256/src/prf.rs
@@ -200,7 +200,7 @@ impl Prf {
 
         let client_random = self
             .client_random
-            .expect("Client random should have been set by now");
+            .ok_or_else(|| PrfError::state("client random not set"))?;
         let server_random = random;
 
         if matches!(self.config.ms, MSMode::Standard) {
-- 
2.43.0


From 39b93a7ba9b5420f85730571922b393ff9eaebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 19/24] fix: refuse finished messages that precede the
 ServerHello instead of looping forever

---
 crates/mpc-tls/src/follower.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mpc-tls/src/follower.rs b/crates/mpc-tls/src/follower.rs
index 38a9084..e0e0b0f 100644
--- a/crates/mpc-tls/src/follower.rs
+++ b/crates/mpc-tls/src/follower.rs
@@ -267,6 +267,10 @@ impl MpcTlsFollower {
                     server_hello = Some(hello);
                 }
                 Message::ClientFinishedVd(handshake_hash) => {
+                    if server_hello.is_none() {
+                        return Err(MpcTlsError::hs("server hello not set"));
+                    }
+
                     if expected_cf_vd.is_some() {
                         return Err(MpcTlsError::hs("client finished VD already computed"));
                     }
@@ -286,6 +290,10 @@ impl MpcTlsFollower {
                     );
                 }
                 Message::ServerFinishedVd(handshake_hash) => {
+                    if server_hello.is_none() {
+                        return Err(MpcTlsError::hs("server hello not set"));
+                    }
+
                     if expected_sf_vd.is_some() {
                         return Err(MpcTlsError::hs("server finished VD already computed"));
                     }
-- 
2.43.0


From a9a9bac28d9e696098416bfc8c152fe52fb23673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 20/24] fix: check the length of a record to encrypt without
 overflowing

---
 crates/mpc-tls/src/record_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mpc-tls/src/record_layer.rs b/crates/mpc-tls/src/record_layer.rs
index c9010f3..cb437c3 100644
--- a/crates/mpc-tls/src/record_layer.rs
+++ b/crates/mpc-tls/src/record_layer.rs
@@ -292,7 +292,7 @@ impl RecordLayer {
     ) -> Result<(), MpcTlsError> {
         if self.encrypt_buffer.len() >= MAX_BUFFER_SIZE {
             return Err(MpcTlsError::peer("encrypt buffer is full"));
-        } else if self.sent + len > self.max_sent {
+        } else if len > self.max_sent.saturating_sub(self.sent) {
             return Err(MpcTlsError::record_layer(format!(
                 "attempted to send more data than was configured, increase `max_sent` in the config: current={}, additional={}, max={}",
                 self.sent, len, self.max_sent
-- 
2.43.0


From 2a54d8c01e09d61376a41b731c9f5f816d3661fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 21/24] sdk-core: sim feature, a hook for the simulator's
 scheduler (off by default)

---
 crates/sdk-core/Cargo.toml   |  2 ++
 crates/sdk-core/src/lib.rs   |  4 ++++
 crates/sdk-core/src/spawn.rs | 32 ++++++++++++++++++++++++++++++--
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/crates/sdk-core/Cargo.toml b/crates/sdk-core/Cargo.toml
index 2f50fe1..cc3ddaa 100644
--- a/crates/sdk-core/Cargo.toml
+++ b/crates/sdk-core/Cargo.toml
@@ -15,6 +15,8 @@ workspace = true
 default = []
 mozilla-certs = ["tlsn/mozilla-certs"]
 wasm = ["wasm-bindgen-futures", "tlsn/web"]
+# Hands spawned futures to a simulator, for testing only.
+sim = []
 
 [dependencies]
 tlsn = { workspace = true }
diff --git a/crates/sdk-core/src/lib.rs b/crates/sdk-core/src/lib.rs
index 46e3ae9..305518e 100644
--- a/crates/sdk-core/src/lib.rs
+++ b/crates/sdk-core/src/lib.rs
@@ -63,3 +63,7 @@ pub use types::{
     Reveal, RevealOutput, TlsVersion, Transcript, TranscriptLength, VerifierOutput,
 };
 pub use verifier::SdkVerifier;
+
+#[cfg(feature = "sim")]
+#[doc(hidden)]
+pub use spawn::sim;
diff --git a/crates/sdk-core/src/spawn.rs b/crates/sdk-core/src/spawn.rs
index a03ba8c..15b9c06 100644
--- a/crates/sdk-core/src/spawn.rs
+++ b/crates/sdk-core/src/spawn.rs
@@ -3,13 +3,41 @@
 use std::future::Future;
 
 /// Spawns a future on the appropriate runtime.
-#[cfg(feature = "wasm")]
+#[cfg(all(feature = "wasm", not(feature = "sim")))]
 pub(crate) fn spawn(future: impl Future<Output = ()> + 'static) {
     wasm_bindgen_futures::spawn_local(future);
 }
 
 /// Spawns a future on the appropriate runtime.
-#[cfg(not(feature = "wasm"))]
+#[cfg(not(any(feature = "wasm", feature = "sim")))]
 pub(crate) fn spawn(future: impl Future<Output = ()> + Send + 'static) {
     tokio::spawn(future);
 }
+
+/// Spawns a future on the simulator's scheduler.
+#[cfg(feature = "sim")]
+pub(crate) fn spawn(future: impl Future<Output = ()> + Send + 'static) {
+    sim::SPAWNER.with_borrow(|spawner| {
+        let spawner = spawner.as_ref().expect("spawner should be set");
+        spawner(Box::pin(future));
+    });
+}
+
+/// Hook for deterministic simulation.
+#[cfg(feature = "sim")]
+#[doc(hidden)]
+pub mod sim {
+    use std::{cell::RefCell, future::Future, pin::Pin};
+
+    /// Receives every future that is spawned on this thread.
+    pub type Spawner = Box<dyn Fn(Pin<Box<dyn Future<Output = ()> + Send>>)>;
+
+    thread_local! {
+        pub(super) static SPAWNER: RefCell<Option<Spawner>> = const { RefCell::new(None) };
+    }
+
+    /// Sets the spawner of this thread.
+    pub fn set_spawner(spawner: Option<Spawner>) {
+        SPAWNER.set(spawner);
+    }
+}
-- 
2.43.0


From 70562022b0291442415df62867e1943c355cc4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:06 +0000
Subject: [PATCH 22/24] fix: sdk-core: repeated response headers keep their
 name

`HeaderMap::into_iter` names only the first of several headers with the
same name, so the others were returned with an empty name.
---
 crates/sdk-core/src/prover.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/sdk-core/src/prover.rs b/crates/sdk-core/src/prover.rs
index 3c3447c..31bb96f 100644
--- a/crates/sdk-core/src/prover.rs
+++ b/crates/sdk-core/src/prover.rs
@@ -516,13 +516,8 @@ async fn send_request(conn: TlsConnection, request: HttpRequest) -> Result<HttpR
 
     let headers = response
         .headers
-        .into_iter()
-        .map(|(k, v)| {
-            (
-                k.map(|k| k.to_string()).unwrap_or_default(),
-                v.as_bytes().to_vec(),
-            )
-        })
+        .iter()
+        .map(|(k, v)| (k.to_string(), v.as_bytes().to_vec()))
         .collect();
 
     Ok(HttpResponse {
-- 
2.43.0


From 1c1c1d29594518727465e13a899891b651faa2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:06 +0000
Subject: [PATCH 23/24] fix: sdk-core: reveal returns the openings in input
 order

The commitments pass through a hash set, so the openings came back in
arbitrary order, and once for ranges that were committed to twice, while
`RevealOutput` documents that `sent[i]` opens `commit.sent[i]`.
---
 crates/sdk-core/src/prover.rs | 59 ++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/crates/sdk-core/src/prover.rs b/crates/sdk-core/src/prover.rs
index 31bb96f..c6044a9 100644
--- a/crates/sdk-core/src/prover.rs
+++ b/crates/sdk-core/src/prover.rs
@@ -2,6 +2,7 @@
 
 use http_body_util::{BodyExt, Full};
 use hyper::body::Bytes;
+use rangeset::set::RangeSet;
 use tlsn::{
     Mpc, Proxy, Session, SessionHandle,
     config::{
@@ -15,6 +16,7 @@ use tlsn::{
 };
 use tlsn_core::{
     ProverOutput,
+    hash::HashAlgId,
     transcript::{Direction, TranscriptCommitment, TranscriptSecret},
 };
 use tracing::{error, info};
@@ -396,7 +398,7 @@ impl SdkProver {
         }
 
         // Build transcript commit config for hash-commitment ranges.
-        if let Some(commit) = commit {
+        if let Some(commit) = &commit {
             let mut commit_builder =
                 tlsn_core::transcript::TranscriptCommitConfig::builder(prover.transcript());
 
@@ -437,7 +439,7 @@ impl SdkProver {
 
         self.state = State::Complete;
 
-        build_reveal_output(prover_output)
+        build_reveal_output(prover_output, commit.as_ref())
     }
 
     /// Returns true if the prover has completed the protocol.
@@ -446,7 +448,7 @@ impl SdkProver {
     }
 }
 
-fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
+fn build_reveal_output(output: ProverOutput, commit: Option<&Commit>) -> Result<RevealOutput> {
     let ProverOutput {
         transcript_commitments,
         transcript_secrets,
@@ -460,8 +462,7 @@ fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
         )));
     }
 
-    let mut sent = Vec::new();
-    let mut recv = Vec::new();
+    let mut openings = Vec::new();
     for (commitment, secret) in transcript_commitments.into_iter().zip(transcript_secrets) {
         let (commitment, secret) = match (commitment, secret) {
             (TranscriptCommitment::Hash(c), TranscriptSecret::Hash(s)) => (c, s),
@@ -478,18 +479,46 @@ fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
             ));
         }
 
-        let opening = HashOpening {
-            hash: commitment.hash.value.as_bytes().to_vec(),
-            blinder: secret.blinder.as_bytes().to_vec(),
-        };
-
-        match commitment.direction {
-            Direction::Sent => sent.push(opening),
-            Direction::Received => recv.push(opening),
-        }
+        openings.push((commitment, secret));
     }
 
-    Ok(RevealOutput { sent, recv })
+    let Some(commit) = commit else {
+        return Ok(RevealOutput::default());
+    };
+
+    // The prover output is unordered and free of duplicates, so look up the
+    // opening of every range that was asked for.
+    let open = |direction: Direction, range: &CommitRange| {
+        let idx = RangeSet::from(range.range());
+        let alg = HashAlgId::from(range.algorithm);
+        openings
+            .iter()
+            .find(|(commitment, _)| {
+                commitment.direction == direction
+                    && commitment.idx == idx
+                    && commitment.hash.alg == alg
+            })
+            .map(|(commitment, secret)| HashOpening {
+                hash: commitment.hash.value.as_bytes().to_vec(),
+                blinder: secret.blinder.as_bytes().to_vec(),
+            })
+            .ok_or_else(|| {
+                SdkError::protocol("prover output is missing the opening of a committed range")
+            })
+    };
+
+    Ok(RevealOutput {
+        sent: commit
+            .sent
+            .iter()
+            .map(|range| open(Direction::Sent, range))
+            .collect::<Result<_>>()?,
+        recv: commit
+            .recv
+            .iter()
+            .map(|range| open(Direction::Received, range))
+            .collect::<Result<_>>()?,
+    })
 }
 
 async fn send_request(conn: TlsConnection, request: HttpRequest) -> Result<HttpResponse> {
-- 
2.43.0


From 727e1c0ec93222c38717bbde732969e3075176ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:06 +0000
Subject: [PATCH 24/24] fix: sdk-core: honour the flags of a regex handler

The documented `flags` of a handler were ignored, so a handler with `i`
silently extracted nothing where it should have matched.
---
 crates/sdk-core/src/handler/extract.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/sdk-core/src/handler/extract.rs b/crates/sdk-core/src/handler/extract.rs
index c3f44aa..e279ea5 100644
--- a/crates/sdk-core/src/handler/extract.rs
+++ b/crates/sdk-core/src/handler/extract.rs
@@ -331,7 +331,7 @@ fn extract_all(handler: &Handler, raw: &[u8]) -> Result<Vec<Range<usize>>> {
         && params.content_type.as_deref() == Some("regex")
         && let Some(pattern) = params.regex.as_deref()
     {
-        return extract_regex(raw, pattern);
+        return extract_regex(raw, pattern, params.flags.as_deref().unwrap_or_default());
     }
 
     // Return entire transcript as a single range.
@@ -339,8 +339,25 @@ fn extract_all(handler: &Handler, raw: &[u8]) -> Result<Vec<Range<usize>>> {
     Ok(vec![0..raw.len()])
 }
 
-fn extract_regex(raw: &[u8], pattern: &str) -> Result<Vec<Range<usize>>> {
-    let re = regex::bytes::Regex::new(pattern)
+fn extract_regex(raw: &[u8], pattern: &str, flags: &str) -> Result<Vec<Range<usize>>> {
+    let mut builder = regex::bytes::RegexBuilder::new(pattern);
+    for flag in flags.chars() {
+        match flag {
+            'i' => builder.case_insensitive(true),
+            'm' => builder.multi_line(true),
+            's' => builder.dot_matches_new_line(true),
+            // All matches are extracted, with Unicode support, in any case.
+            'g' | 'u' => &mut builder,
+            _ => {
+                return Err(SdkError::handler(format!(
+                    "unsupported regex flag '{flag}'"
+                )));
+            }
+        };
+    }
+
+    let re = builder
+        .build()
         .map_err(|e| SdkError::handler(format!("invalid regex '{pattern}': {e}")))?;
 
     let ranges: Vec<Range<usize>> = re.find_iter(raw).map(|m| m.start()..m.end()).collect();
-- 
2.43.0

