From 4b067d507d0eb2250bfaead7abfab81861d3067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 01/71] fix: refuse opaque version lists longer than the
 decoder's tables

A peer's count beyond the fixed table made later encode or selection loops
index out of bounds.
---
 spdmlib/src/common/opaque.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e15ad78..a4ba0c1 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -196,6 +196,9 @@ impl SpdmCodec for SecuredMessageVersionList {
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SecuredMessageVersionList> {
         let version_count = u8::read(r)?;
+        if version_count as usize > MAX_SECURE_SPDM_VERSION_COUNT {
+            return None;
+        }
         let mut versions_list = [SecuredMessageVersion::default(); MAX_SECURE_SPDM_VERSION_COUNT];
         for d in versions_list.iter_mut().take(version_count as usize) {
             *d = SecuredMessageVersion::spdm_read(context, r)?;
@@ -455,6 +458,11 @@ impl SpdmCodec for SecuredMessageDMTFVersionSelection {
             SecuredMessageGeneralOpaqueDataHeader::spdm_read(context, r)?;
         let mut opaque_element_dmtf_version_selection_list =
             [OpaqueElementDMTFVersionSelection::default(); MAX_OPAQUE_LIST_ELEMENTS_COUNT];
+        if secured_message_general_opaque_data_header.total_elements
+            > MAX_OPAQUE_LIST_ELEMENTS_COUNT as u8
+        {
+            return None;
+        }
         for d in opaque_element_dmtf_version_selection_list
             .iter_mut()
             .take(secured_message_general_opaque_data_header.total_elements as usize)
-- 
2.43.0


From 5ba95b03bbf52810461bbdbcfbc2aee7ee20497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 02/71] fix: ignore unknown opaque formats in a negotiation
 offer

NEGOTIATE_ALGORITHMS offering OPAQUE_DATA_FMT0 next to FMT1 was refused as
undecodable instead of selecting the common format.
---
 spdmlib/src/message/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/message/algorithm.rs b/spdmlib/src/message/algorithm.rs
index 433e5ef..3f90c91 100644
--- a/spdmlib/src/message/algorithm.rs
+++ b/spdmlib/src/message/algorithm.rs
@@ -108,7 +108,8 @@ impl SpdmCodec for SpdmNegotiateAlgorithmsRequestPayload {
         let other_params_support = if context.negotiate_info.spdm_version_sel.get_u8()
             >= SpdmVersion::SpdmVersion12.get_u8()
         {
-            SpdmOpaqueSupport::read(r)?
+            // formats this implementation does not know are merely not selected
+            SpdmOpaqueSupport::from_bits_truncate(u8::read(r)?)
         } else {
             u8::read(r)?;
             SpdmOpaqueSupport::default()
-- 
2.43.0


From f13329d22b64cc9568bda1fff63c181645c38cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 03/71] fix: correct the DMTF opaque data SpecId

The constant lacked a digit, so before version 1.2 general opaque data
carried an id other than 444D5446h and refused conforming peers.
---
 spdmlib/src/common/opaque.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index a4ba0c1..22233af 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -17,7 +17,7 @@ pub const MAX_SPDM_OPAQUE_SIZE: usize = 1024;
 pub const MAX_SECURE_SPDM_VERSION_COUNT: usize = 0x02;
 pub const MAX_OPAQUE_LIST_ELEMENTS_COUNT: usize = 3;
 
-pub const DMTF_SPEC_ID: u32 = 0x444D546;
+pub const DMTF_SPEC_ID: u32 = 0x444D5446;
 pub const DMTF_OPAQUE_VERSION: u8 = 0x01;
 pub const SM_DATA_VERSION: u8 = 0x01;
 pub const DMTF_ID: u8 = 0x00;
-- 
2.43.0


From d3ca3fb44f19769595102c831a8ddc2244848a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 04/71] fix: refuse vendor payload lengths beyond the payload
 buffer

The decoder kept the declared length while storing fewer bytes, so users of
the value index past its buffer.
---
 spdmlib/src/message/vendor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spdmlib/src/message/vendor.rs b/spdmlib/src/message/vendor.rs
index be9fd74..1bcef3d 100644
--- a/spdmlib/src/message/vendor.rs
+++ b/spdmlib/src/message/vendor.rs
@@ -103,6 +103,9 @@ impl Codec for VendorDefinedReqPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedReqPayloadStruct> {
         let req_length = u16::read(r)?;
+        if req_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_req_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_req_payload
             .iter_mut()
@@ -139,6 +142,9 @@ impl Codec for VendorDefinedRspPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedRspPayloadStruct> {
         let rsp_length = u16::read(r)?;
+        if rsp_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_rsp_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_rsp_payload
             .iter_mut()
-- 
2.43.0


From a539fa66243169d5cebef38832e4af4c55aee656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 05/71] fix: size and sign FINISH with the requester's
 negotiated algorithm

The signature of FINISH was sized, made and verified with the responder's
algorithm, and an assertion failed whenever the two differ. The requester
also verified its own signature with the peer's chain length and panicked on
failure.
---
 spdmlib/src/common/mod.rs           |  9 +++++++++
 spdmlib/src/message/finish.rs       | 14 +++++++++++---
 spdmlib/src/requester/finish_req.rs | 29 ++++-------------------------
 spdmlib/src/responder/finish_rsp.rs |  4 ++--
 4 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 0202a98..1db4259 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -170,6 +170,15 @@ impl<'a> SpdmContext<'a> {
     pub fn get_asym_key_size(&self) -> u16 {
         self.negotiate_info.base_asym_sel.get_size()
     }
+    /// The algorithm of the requester's own signatures. Without a negotiated
+    /// one it is the responder's.
+    pub fn get_req_asym_algo(&self) -> SpdmBaseAsymAlgo {
+        if self.negotiate_info.req_asym_sel.is_empty() {
+            self.negotiate_info.base_asym_sel
+        } else {
+            SpdmBaseAsymAlgo::from_bits_truncate(self.negotiate_info.req_asym_sel.bits() as u32)
+        }
+    }
     pub fn get_dhe_key_size(&self) -> u16 {
         self.negotiate_info.dhe_sel.get_size()
     }
diff --git a/spdmlib/src/message/finish.rs b/spdmlib/src/message/finish.rs
index 5f72bd6..bc5151a 100644
--- a/spdmlib/src/message/finish.rs
+++ b/spdmlib/src/message/finish.rs
@@ -4,7 +4,7 @@
 
 use crate::common;
 use crate::common::spdm_codec::SpdmCodec;
-use crate::error::{SpdmStatus, SPDM_STATUS_BUFFER_FULL};
+use crate::error::{SpdmStatus, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_PARAMETER};
 use crate::protocol::{
     SpdmDigestStruct, SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmSignatureStruct,
 };
@@ -56,7 +56,13 @@ impl SpdmCodec for SpdmFinishRequestPayload {
             .finish_request_attributes
             .contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED)
         {
-            cnt += self.signature.spdm_encode(context, bytes)?;
+            // the requester signs with the negotiated requester algorithm
+            if self.signature.data_size != context.get_req_asym_algo().get_size() {
+                return Err(SPDM_STATUS_INVALID_PARAMETER);
+            }
+            cnt += bytes
+                .extend_from_slice(self.signature.as_ref())
+                .ok_or(SPDM_STATUS_BUFFER_FULL)?;
         }
         cnt += self.verify_data.spdm_encode(context, bytes)?;
         Ok(cnt)
@@ -70,7 +76,9 @@ impl SpdmCodec for SpdmFinishRequestPayload {
         let req_slot_id = u8::read(r)?; // param2
         let mut signature = SpdmSignatureStruct::default();
         if finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED) {
-            signature = SpdmSignatureStruct::spdm_read(context, r)?;
+            signature.data_size = context.get_req_asym_algo().get_size();
+            let size = signature.data_size as usize;
+            signature.data[..size].copy_from_slice(r.take(size)?);
         }
         let verify_data = SpdmDigestStruct::spdm_read(context, r)?;
 
diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1c50b3b..dab4dd4 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -343,7 +343,7 @@ impl<'a> RequesterContext<'a> {
 
         crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             transcript_sign.as_ref(),
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)
@@ -383,32 +383,11 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
 
-        let signature = crate::secret::asym_sign::sign(
-            self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
-            transcript_sign.as_ref(),
-        )
-        .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
-
-        let peer_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
-        let peer_cert = &self.common.provision_info.my_cert_chain[peer_slot_id as usize]
-            .as_ref()
-            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-            .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
-                .as_ref()
-                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-                .data_size as usize)];
-
-        crate::crypto::asym_verify::verify(
+        crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
-            peer_cert,
+            self.common.get_req_asym_algo(),
             transcript_sign.as_ref(),
-            &signature,
         )
-        .unwrap();
-
-        Ok(signature)
+        .ok_or(SPDM_STATUS_CRYPTO_ERROR)
     }
 }
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 2412a7a..ec08070 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -335,7 +335,7 @@ impl<'a> ResponderContext<'a> {
 
         crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             peer_cert,
             transcript_sign.as_ref(),
             signature,
@@ -386,7 +386,7 @@ impl<'a> ResponderContext<'a> {
 
         let res = crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             peer_cert,
             transcript_hash_sign.as_ref(),
             signature,
-- 
2.43.0


From 2d7d32e23ec63fef397c62ca680b0dd23b10dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 06/71] fix: do not read application messages as SPDM responses
 when sending

---
 spdmlib/src/responder/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 357fdab..e3f0aa5 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -117,7 +117,7 @@ impl<'a> ResponderContext<'a> {
             is_app_message,
         )?;
         let result = self.common.device_io.send(&transport_buffer[..used]);
-        if result.is_ok() {
+        if result.is_ok() && !is_app_message {
             let opcode = send_buffer[1];
             // change state after message is sent.
             if opcode == SpdmRequestResponseCode::SpdmResponseEndSessionAck.get_u8() {
-- 
2.43.0


From cf10af4f4f1e0bc156da837ff1c5d7eb73a89a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 07/71] fix: expand AEAD keys to the negotiated algorithm's key
 size

---
 spdmlib/src/common/key_schedule.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/key_schedule.rs b/spdmlib/src/common/key_schedule.rs
index ff8bf48..3c1bcca 100644
--- a/spdmlib/src/common/key_schedule.rs
+++ b/spdmlib/src/common/key_schedule.rs
@@ -221,7 +221,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -229,7 +229,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
         };
         let encrypt_key = SpdmAeadKeyStruct::from_spdm_hkdf_okm(okm)?;
@@ -248,7 +248,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -256,7 +256,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
         };
         let iv = SpdmAeadIvStruct::from_spdm_hkdf_okm(okm)?;
-- 
2.43.0


From dbe484a5aaeea2da9974306ec350923a3e30dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 08/71] fix: report every provisioned slot's own digest

---
 spdmlib/src/requester/encap_digest.rs | 52 +++++++++++++--------------
 spdmlib/src/responder/digest_rsp.rs   | 49 ++++++++++++-------------
 2 files changed, 48 insertions(+), 53 deletions(-)

diff --git a/spdmlib/src/requester/encap_digest.rs b/spdmlib/src/requester/encap_digest.rs
index 0a2c5b5..0f5aaa0 100644
--- a/spdmlib/src/requester/encap_digest.rs
+++ b/spdmlib/src/requester/encap_digest.rs
@@ -72,9 +72,32 @@ impl<'a> RequesterContext<'a> {
         }
 
         let mut slot_mask = 0u8;
+        let mut slot_count = 0usize;
+        let mut digests = gen_array_clone(
+            SpdmDigestStruct {
+                data_size: self.common.negotiate_info.base_hash_sel.get_size(),
+                data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
+            },
+            SPDM_MAX_SLOT_NUMBER,
+        );
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                slot_mask |= (1 << slot_id) as u8;
+            if let Some(my_cert_chain) = self.common.provision_info.my_cert_chain[slot_id].as_ref()
+            {
+                if let Some(cert_chain_hash) = crypto::hash::hash_all(
+                    self.common.negotiate_info.base_hash_sel,
+                    my_cert_chain.as_ref(),
+                ) {
+                    slot_mask |= (1 << slot_id) as u8;
+                    digests[slot_count] = cert_chain_hash;
+                    slot_count += 1;
+                } else {
+                    self.encode_encap_error_response(
+                        SpdmErrorCode::SpdmErrorUnspecified,
+                        0,
+                        encap_response,
+                    );
+                    return;
+                }
             }
         }
 
@@ -85,13 +108,7 @@ impl<'a> RequesterContext<'a> {
             },
             payload: SpdmMessagePayload::SpdmDigestsResponse(SpdmDigestsResponsePayload {
                 slot_mask,
-                digests: gen_array_clone(
-                    SpdmDigestStruct {
-                        data_size: self.common.negotiate_info.base_hash_sel.get_size(),
-                        data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
-                    },
-                    SPDM_MAX_SLOT_NUMBER,
-                ),
+                digests,
             }),
         };
 
@@ -107,23 +124,6 @@ impl<'a> RequesterContext<'a> {
             return;
         }
 
-        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
-                    self.common.negotiate_info.base_hash_sel,
-                    my_cert_chain.as_ref(),
-                )
-                .unwrap();
-
-                // patch the message before send
-                let used = encap_response.used();
-                encap_response.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
-            }
-        }
         debug!("!!! encap get_digests : complete\n");
     }
 }
diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index b1b7ef2..12e5d43 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -81,9 +81,28 @@ impl<'a> ResponderContext<'a> {
         let digest_size = self.common.negotiate_info.base_hash_sel.get_size();
 
         let mut slot_mask = 0u8;
+        let mut slot_count = 0usize;
+        let mut digests = gen_array_clone(
+            SpdmDigestStruct {
+                data_size: digest_size,
+                data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
+            },
+            SPDM_MAX_SLOT_NUMBER,
+        );
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                slot_mask |= (1 << slot_id) as u8;
+            if let Some(my_cert_chain) = self.common.provision_info.my_cert_chain[slot_id].as_ref()
+            {
+                if let Some(cert_chain_hash) = crypto::hash::hash_all(
+                    self.common.negotiate_info.base_hash_sel,
+                    my_cert_chain.as_ref(),
+                ) {
+                    slot_mask |= (1 << slot_id) as u8;
+                    digests[slot_count] = cert_chain_hash;
+                    slot_count += 1;
+                } else {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                }
             }
         }
 
@@ -95,13 +114,7 @@ impl<'a> ResponderContext<'a> {
             },
             payload: SpdmMessagePayload::SpdmDigestsResponse(SpdmDigestsResponsePayload {
                 slot_mask,
-                digests: gen_array_clone(
-                    SpdmDigestStruct {
-                        data_size: digest_size,
-                        data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
-                    },
-                    SPDM_MAX_SLOT_NUMBER,
-                ),
+                digests,
             }),
         };
         let res = response.spdm_encode(&mut self.common, writer);
@@ -110,24 +123,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
-                    self.common.negotiate_info.base_hash_sel,
-                    my_cert_chain.as_ref(),
-                )
-                .unwrap();
-
-                // patch the message before send
-                let used = writer.used();
-                writer.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
-            }
-        }
-
         match session_id {
             None => {
                 if self.common.append_message_b(writer.used_slice()).is_err() {
-- 
2.43.0


From ca765ae1b65b36563cd4416b6a03897a03e6a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 09/71] fix: let an error response replace a partly written one

---
 codec/src/codec.rs                 | 4 ++++
 spdmlib/src/responder/error_rsp.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/codec/src/codec.rs b/codec/src/codec.rs
index 46ebe51..3f842c4 100644
--- a/codec/src/codec.rs
+++ b/codec/src/codec.rs
@@ -86,6 +86,10 @@ impl<'a> Writer<'a> {
         Some(value)
     }
 
+    pub fn clear(&mut self) {
+        self.offs = 0;
+    }
+
     pub fn left(&self) -> usize {
         self.buf.len() - self.offs
     }
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index a8c3f76..bfd976c 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -27,6 +27,8 @@ impl<'a> ResponderContext<'a> {
                 ),
             }),
         };
+        // the error replaces whatever part of another response was already written
+        writer.clear();
         let _ = error.spdm_encode(&mut self.common, writer);
     }
 
-- 
2.43.0


From e3a462f95a85b5debdd91ad97896d44072d09287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 10/71] fix: put the signature into KEY_EXCHANGE_RSP of
 handshakes in the clear

---
 spdmlib/src/responder/key_exchange_rsp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 66321b5..ab428f6 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -343,6 +343,10 @@ impl<'a> ResponderContext<'a> {
         }
         let signature = signature.unwrap();
 
+        // patch the message before send
+        writer.mut_used_slice()[temp_used..(temp_used + base_asym_size)]
+            .copy_from_slice(signature.as_ref());
+
         if self
             .common
             .append_message_k(session_id, signature.as_ref())
@@ -410,9 +414,6 @@ impl<'a> ResponderContext<'a> {
             }
 
             // patch the message before send
-            writer.mut_used_slice()
-                [(used - base_hash_size - base_asym_size)..(used - base_hash_size)]
-                .copy_from_slice(signature.as_ref());
             writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
         }
 
-- 
2.43.0


From b10d07d10edcdc2c9df8c25025824e8e4561ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 11/71] fix: fill the responder's PSK context from the random
 source

---
 spdmlib/src/responder/psk_exchange_rsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 06a49d5..51c6414 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -170,7 +170,7 @@ impl<'a> ResponderContext<'a> {
             MAX_SPDM_PSK_CONTEXT_SIZE as u16
         };
         let mut psk_context = [0u8; MAX_SPDM_PSK_CONTEXT_SIZE];
-        if psk_without_context {
+        if !psk_without_context {
             let res = crypto::rand::get_random(&mut psk_context);
             if res.is_err() {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-- 
2.43.0


From 1bd0a178c9936e1bf0a311d314fb3ef40e397f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 12/71] fix: request mutual authentication only when both sides
 negotiated it

---
 spdmlib/src/responder/key_exchange_rsp.rs | 46 ++++++++++++++---------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index ab428f6..8091cc1 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -222,6 +222,35 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
+        let in_clear_text = self
+            .common
+            .negotiate_info
+            .req_capabilities_sel
+            .contains(SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP)
+            && self
+                .common
+                .negotiate_info
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
+        info!("in_clear_text {:?}\n", in_clear_text);
+
+        // The requester's chain is retrieved with encapsulated requests inside the handshake,
+        // so ask for mutual authentication only if both sides are able to do that.
+        let mut_auth_req = if cfg!(feature = "mut-auth")
+            && !in_clear_text
+            && self.common.negotiate_info.req_capabilities_sel.contains(
+                SpdmRequestCapabilityFlags::MUT_AUTH_CAP
+                    | SpdmRequestCapabilityFlags::ENCAP_CAP
+                    | SpdmRequestCapabilityFlags::CERT_CAP,
+            )
+            && self.common.negotiate_info.rsp_capabilities_sel.contains(
+                SpdmResponseCapabilityFlags::MUT_AUTH_CAP | SpdmResponseCapabilityFlags::ENCAP_CAP,
+            ) {
+            SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS
+        } else {
+            SpdmKeyExchangeMutAuthAttributes::empty()
+        };
+
         let session = self.common.get_next_avaiable_session();
         if session.is_none() {
             error!("!!! too many sessions : fail !!!\n");
@@ -229,11 +258,6 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
 
-        #[cfg(feature = "mut-auth")]
-        let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS;
-        #[cfg(not(feature = "mut-auth"))]
-        let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::empty();
-
         let session = session.unwrap();
         let session_id = ((rsp_session_id as u32) << 16) + key_exchange_req.req_session_id as u32;
         session.setup(session_id).unwrap();
@@ -258,18 +282,6 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_CRYPTO_ERROR);
         }
 
-        let in_clear_text = self
-            .common
-            .negotiate_info
-            .req_capabilities_sel
-            .contains(SpdmRequestCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP)
-            && self
-                .common
-                .negotiate_info
-                .rsp_capabilities_sel
-                .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
-        info!("in_clear_text {:?}\n", in_clear_text);
-
         info!("send spdm key_exchange rsp\n");
 
         // prepare response
-- 
2.43.0


From b14b7853c8423ac1b52acb38cdefa2d2a15cfa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 13/71] fix: report a failed key pair generation in
 KEY_EXCHANGE

---
 spdmlib/src/responder/key_exchange_rsp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 8091cc1..a541b7a 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -180,8 +180,12 @@ impl<'a> ResponderContext<'a> {
             .runtime_info
             .set_local_used_cert_chain_slot_id(key_exchange_req.slot_id);
 
-        let (exchange, key_exchange_context) =
-            crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel).unwrap();
+        let key_pair = crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel);
+        if key_pair.is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        let (exchange, key_exchange_context) = key_pair.unwrap();
 
         debug!("!!! exchange data : {:02x?}\n", exchange);
 
-- 
2.43.0


From cefc8141b155768f2cc06ec00928eeaf89970f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 14/71] fix: answer failed session exchanges and free their
 session entry

---
 spdmlib/src/common/mod.rs                 | 11 ++++++
 spdmlib/src/responder/key_exchange_rsp.rs | 26 +++++++++---
 spdmlib/src/responder/psk_exchange_rsp.rs | 48 ++++++++++++++++-------
 3 files changed, 65 insertions(+), 20 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 1db4259..1c63252 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -221,6 +221,17 @@ impl<'a> SpdmContext<'a> {
         self.get_session_via_id(0)
     }
 
+    /// Frees the table entries of sessions whose setup was given up before the handshake began.
+    pub fn release_unstarted_sessions(&mut self) {
+        for session in self.session.iter_mut() {
+            if session.get_session_id() != INVALID_SESSION_ID
+                && session.get_session_state() == SpdmSessionState::SpdmSessionNotStarted
+            {
+                session.set_default();
+            }
+        }
+    }
+
     pub fn get_session_status(&self) -> [(u32, SpdmSessionState); config::MAX_SPDM_SESSION_COUNT] {
         let mut status =
             [(0u32, SpdmSessionState::SpdmSessionNotStarted); config::MAX_SPDM_SESSION_COUNT];
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index a541b7a..519fe7e 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -25,15 +25,25 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_key_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_key_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let result = self.write_spdm_key_exchange_response(bytes, &mut writer);
+        if result.is_err() {
+            self.common.release_unstarted_sessions();
+        }
+        let sent = self.send_message(writer.used_slice());
+        let session_id = result?;
+        if sent.is_err() {
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+        sent
     }
 
     pub fn write_spdm_key_exchange_response(
         &mut self,
         bytes: &[u8],
         writer: &mut Writer,
-    ) -> SpdmResult {
+    ) -> SpdmResult<u32> {
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
         {
@@ -389,7 +399,13 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         if !in_clear_text {
             let session = self
@@ -450,7 +466,7 @@ impl<'a> ResponderContext<'a> {
                 .set_last_session_id(Some(session_id));
         }
 
-        Ok(())
+        Ok(session_id)
     }
 
     #[cfg(feature = "hashed-transcript-data")]
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 51c6414..6e64903 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -25,15 +25,25 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let result = self.write_spdm_psk_exchange_response(bytes, &mut writer);
+        if result.is_err() {
+            self.common.release_unstarted_sessions();
+        }
+        let sent = self.send_message(writer.used_slice());
+        let session_id = result?;
+        if sent.is_err() {
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+        sent
     }
 
     pub fn write_spdm_psk_exchange_response(
         &mut self,
         bytes: &[u8],
         writer: &mut Writer,
-    ) -> SpdmResult {
+    ) -> SpdmResult<u32> {
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
         {
@@ -285,7 +295,13 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         let session = self
             .common
@@ -325,15 +341,12 @@ impl<'a> ResponderContext<'a> {
         // patch the message before send
         writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
         let heartbeat_period = self.common.config_info.heartbeat_period;
-        let session = self.common.get_session_via_id(session_id).unwrap();
-        session.set_session_state(crate::common::session::SpdmSessionState::SpdmSessionHandshaking);
-
         let session = self
             .common
             .get_immutable_session_via_id(session_id)
             .unwrap();
 
-        if psk_without_context {
+        let session_state = if psk_without_context {
             // generate the data secret directly to skip PSK_FINISH
             let th2 = self
                 .common
@@ -346,21 +359,26 @@ impl<'a> ResponderContext<'a> {
             debug!("!!! th2 : {:02x?}\n", th2.as_ref());
             let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
             let session = self.common.get_session_via_id(session_id).unwrap();
-            session
+            if session
                 .generate_data_secret(spdm_version_sel, &th2)
-                .unwrap();
-            session.set_session_state(
-                crate::common::session::SpdmSessionState::SpdmSessionEstablished,
-            );
-        }
+                .is_err()
+            {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return Err(SPDM_STATUS_CRYPTO_ERROR);
+            }
+            crate::common::session::SpdmSessionState::SpdmSessionEstablished
+        } else {
+            crate::common::session::SpdmSessionState::SpdmSessionHandshaking
+        };
 
         let session = self.common.get_session_via_id(session_id).unwrap();
+        session.set_session_state(session_state);
         session.heartbeat_period = heartbeat_period;
         if return_opaque.data_size != 0 {
             session.secure_spdm_version_sel =
                 return_opaque.data[return_opaque.data_size as usize - 1];
         }
 
-        Ok(())
+        Ok(session_id)
     }
 }
-- 
2.43.0


From 9b243b79f3298e9aab65c9387f6428ce94a4dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 15/71] fix: answer failed FINISH and PSK_FINISH requests and
 end their session

---
 spdmlib/src/responder/finish_rsp.rs     | 44 +++++++++++++++----------
 spdmlib/src/responder/psk_finish_rsp.rs | 13 ++++++--
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index ec08070..09a34d9 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -32,12 +32,21 @@ impl<'a> ResponderContext<'a> {
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_finish_response(session_id, bytes, &mut writer)?;
-        if in_clear_text {
+        let result = self.write_spdm_finish_response(session_id, bytes, &mut writer);
+        let sent = if in_clear_text {
             self.send_message(writer.used_slice())
         } else {
             self.send_secured_message(session_id, writer.used_slice(), false)
+        };
+        if sent.is_err() || matches!(result, Err(status) if status != SPDM_STATUS_INVALID_MSG_FIELD)
+        {
+            // the handshake failed, the session cannot be established any more
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
         }
+        result?;
+        sent
     }
 
     // Return true on success, false otherwise.
@@ -74,15 +83,6 @@ impl<'a> ResponderContext<'a> {
         }
         let finish_req = finish_req.unwrap();
 
-        if self
-            .common
-            .append_message_f(false, session_id, &bytes[..4])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return Err(SPDM_STATUS_CRYPTO_ERROR);
-        }
-
         let mut_auth_attributes = self
             .common
             .get_immutable_session_via_id(session_id)
@@ -100,6 +100,21 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
+        let session = self.common.get_session_via_id(session_id).unwrap();
+        if session.get_use_psk() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+        }
+
+        if self
+            .common
+            .append_message_f(false, session_id, &bytes[..4])
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+
         let is_mut_auth = !mut_auth_attributes.is_empty();
         if is_mut_auth {
             let session = self
@@ -131,13 +146,6 @@ impl<'a> ResponderContext<'a> {
         let base_hash_size = self.common.negotiate_info.base_hash_sel.get_size() as usize;
 
         {
-            let session = self.common.get_session_via_id(session_id).unwrap();
-
-            if session.get_use_psk() {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-            }
-
             let session = self
                 .common
                 .get_immutable_session_via_id(session_id)
diff --git a/spdmlib/src/responder/psk_finish_rsp.rs b/spdmlib/src/responder/psk_finish_rsp.rs
index 5134fa2..da91181 100644
--- a/spdmlib/src/responder/psk_finish_rsp.rs
+++ b/spdmlib/src/responder/psk_finish_rsp.rs
@@ -15,8 +15,17 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_finish(&mut self, session_id: u32, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_finish_response(session_id, bytes, &mut writer)?;
-        self.send_secured_message(session_id, writer.used_slice(), false)
+        let result = self.write_spdm_psk_finish_response(session_id, bytes, &mut writer);
+        let sent = self.send_secured_message(session_id, writer.used_slice(), false);
+        if sent.is_err() || matches!(result, Err(status) if status != SPDM_STATUS_INVALID_MSG_FIELD)
+        {
+            // the handshake failed, the session cannot be established any more
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+        result?;
+        sent
     }
 
     // Return true on success, false otherwise
-- 
2.43.0


From 3c0ad121d9043a821987d92777f70a1a08d0e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 16/71] fix: start sessions without mutual authentication when
 none is requested

---
 spdmlib/src/requester/context.rs             | 7 ++++++-
 spdmlib/src/requester/mutual_authenticate.rs | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e73026d..e60717a 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -49,7 +49,12 @@ impl<'a> RequesterContext<'a> {
             #[cfg(feature = "mut-auth")]
             self.session_based_mutual_authenticate(session_id)?;
             #[cfg(feature = "mut-auth")]
-            let req_slot_id = Some(self.common.runtime_info.get_local_used_cert_chain_slot_id());
+            let req_slot_id = match self.common.get_immutable_session_via_id(session_id) {
+                Some(session) if !session.get_mut_auth_requested().is_empty() => {
+                    Some(self.common.runtime_info.get_local_used_cert_chain_slot_id())
+                }
+                _ => None,
+            };
             self.send_receive_spdm_finish(req_slot_id, session_id)?;
             Ok(session_id)
         } else {
diff --git a/spdmlib/src/requester/mutual_authenticate.rs b/spdmlib/src/requester/mutual_authenticate.rs
index d237bcf..b026b02 100644
--- a/spdmlib/src/requester/mutual_authenticate.rs
+++ b/spdmlib/src/requester/mutual_authenticate.rs
@@ -11,14 +11,19 @@ use super::RequesterContext;
 
 impl<'a> RequesterContext<'a> {
     pub fn session_based_mutual_authenticate(&mut self, session_id: u32) -> SpdmResult<()> {
-        self.common.construct_my_cert_chain()?;
-
         let spdm_session = self
             .common
             .get_session_via_id(session_id)
             .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
 
         let mut_auth_requested = spdm_session.get_mut_auth_requested();
+        if mut_auth_requested.is_empty() {
+            // the responder does not ask for mutual authentication
+            return Ok(());
+        }
+
+        self.common.construct_my_cert_chain()?;
+
         match mut_auth_requested {
             SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ => Ok(()),
             SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_ENCAP_REQUEST
-- 
2.43.0


From c7063ea02c7c5ac7b96e65b51a3aff5a5b18ddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 17/71] fix: skip PSK_FINISH when the responder needs none

---
 spdmlib/src/requester/context.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e60717a..28dd4ed 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
+use crate::common::session::SpdmSessionState;
 use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
@@ -60,7 +61,15 @@ impl<'a> RequesterContext<'a> {
         } else {
             let session_id =
                 self.send_receive_spdm_psk_exchange(measurement_summary_hash_type, None)?;
-            self.send_receive_spdm_psk_finish(session_id)?;
+            // without a responder context the session is established already
+            let established = self
+                .common
+                .get_immutable_session_via_id(session_id)
+                .map(|session| session.get_session_state())
+                == Some(SpdmSessionState::SpdmSessionEstablished);
+            if !established {
+                self.send_receive_spdm_psk_finish(session_id)?;
+            }
             Ok(session_id)
         }
     }
-- 
2.43.0


From 9bbe6023348ad0ea3e5cff40c51ce07de0a200f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 18/71] fix: free the requester's session entry when a session
 start fails

---
 spdmlib/src/requester/context.rs          | 32 +++++++++++++++--------
 spdmlib/src/requester/key_exchange_req.rs |  8 ++++--
 spdmlib/src/requester/psk_exchange_req.rs | 30 ++++++++++-----------
 3 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 28dd4ed..9be26cc 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -45,18 +45,13 @@ impl<'a> RequesterContext<'a> {
         if !use_psk {
             let session_id =
                 self.send_receive_spdm_key_exchange(slot_id, measurement_summary_hash_type)?;
-            #[cfg(not(feature = "mut-auth"))]
-            let req_slot_id: Option<u8> = None;
-            #[cfg(feature = "mut-auth")]
-            self.session_based_mutual_authenticate(session_id)?;
-            #[cfg(feature = "mut-auth")]
-            let req_slot_id = match self.common.get_immutable_session_via_id(session_id) {
-                Some(session) if !session.get_mut_auth_requested().is_empty() => {
-                    Some(self.common.runtime_info.get_local_used_cert_chain_slot_id())
+            let result = self.complete_key_exchange(session_id);
+            if result.is_err() {
+                if let Some(session) = self.common.get_session_via_id(session_id) {
+                    let _ = session.teardown(session_id);
                 }
-                _ => None,
-            };
-            self.send_receive_spdm_finish(req_slot_id, session_id)?;
+            }
+            result?;
             Ok(session_id)
         } else {
             let session_id =
@@ -74,6 +69,21 @@ impl<'a> RequesterContext<'a> {
         }
     }
 
+    fn complete_key_exchange(&mut self, session_id: u32) -> SpdmResult {
+        #[cfg(not(feature = "mut-auth"))]
+        let req_slot_id: Option<u8> = None;
+        #[cfg(feature = "mut-auth")]
+        self.session_based_mutual_authenticate(session_id)?;
+        #[cfg(feature = "mut-auth")]
+        let req_slot_id = match self.common.get_immutable_session_via_id(session_id) {
+            Some(session) if !session.get_mut_auth_requested().is_empty() => {
+                Some(self.common.runtime_info.get_local_used_cert_chain_slot_id())
+            }
+            _ => None,
+        };
+        self.send_receive_spdm_finish(req_slot_id, session_id)
+    }
+
     pub fn end_session(&mut self, session_id: u32) -> SpdmResult {
         self.send_receive_spdm_end_session(session_id)
     }
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 1eaf9bd..51b9f29 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -54,14 +54,18 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_key_exhcange_response(
+        let result = self.handle_spdm_key_exhcange_response(
             req_session_id,
             slot_id,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
             measurement_summary_hash_type,
             key_exchange_context,
-        )
+        );
+        if result.is_err() {
+            self.common.release_unstarted_sessions();
+        }
+        result
     }
 
     pub fn encode_spdm_key_exchange(
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 7886632..24d0334 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -4,6 +4,7 @@
 
 use config::MAX_SPDM_PSK_CONTEXT_SIZE;
 
+use crate::common::session::SpdmSessionState;
 use crate::crypto;
 use crate::error::SPDM_STATUS_BUFFER_FULL;
 use crate::error::SPDM_STATUS_UNSUPPORTED_CAP;
@@ -48,13 +49,17 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_psk_exchange_response(
+        let result = self.handle_spdm_psk_exchange_response(
             half_session_id,
             measurement_summary_hash_type,
             &psk_hint,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
-        )
+        );
+        if result.is_err() {
+            self.common.release_unstarted_sessions();
+        }
+        result
     }
 
     pub fn encode_spdm_psk_exchange(
@@ -273,24 +278,16 @@ impl<'a> RequesterContext<'a> {
                                 return Err(SPDM_STATUS_BUFFER_FULL);
                             }
 
-                            let session = self
-                                .common
-                                .get_session_via_id(session_id)
-                                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?;
-                            session.set_session_state(
-                                crate::common::session::SpdmSessionState::SpdmSessionHandshaking,
-                            );
-
                             let session = self
                                 .common
                                 .get_immutable_session_via_id(session_id)
-                                .unwrap();
+                                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?;
                             let psk_without_context = self
                                 .common
                                 .negotiate_info
                                 .rsp_capabilities_sel
                                 .contains(SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT);
-                            if psk_without_context {
+                            let session_state = if psk_without_context {
                                 // generate the data secret directly to skip PSK_FINISH
                                 let th2 = self.common.calc_req_transcript_hash(
                                     true,
@@ -303,12 +300,13 @@ impl<'a> RequesterContext<'a> {
 
                                 let session = self.common.get_session_via_id(session_id).unwrap();
                                 session.generate_data_secret(spdm_version_sel, &th2)?;
-                                session.set_session_state(
-                                    crate::common::session::SpdmSessionState::SpdmSessionEstablished,
-                                );
-                            }
+                                SpdmSessionState::SpdmSessionEstablished
+                            } else {
+                                SpdmSessionState::SpdmSessionHandshaking
+                            };
 
                             let session = self.common.get_session_via_id(session_id).unwrap();
+                            session.set_session_state(session_state);
                             session.secure_spdm_version_sel = secure_spdm_version_sel;
                             session.heartbeat_period = psk_exchange_rsp.heartbeat_period;
 
-- 
2.43.0


From c947506abc1fc038d909e9efb4af7f4abe59d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 19/71] fix: sign the whole transcript in FINISH before SPDM
 1.2

---
 spdmlib/src/requester/finish_req.rs | 19 +++++++++++++++++++
 spdmlib/src/responder/finish_rsp.rs | 18 +++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index dab4dd4..ae1d653 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -318,6 +318,25 @@ impl<'a> RequesterContext<'a> {
         slot_id: u8,
         session: &SpdmSession,
     ) -> SpdmResult<SpdmSignatureStruct> {
+        if self.common.negotiate_info.spdm_version_sel.get_u8()
+            < SpdmVersion::SpdmVersion12.get_u8()
+        {
+            // before SPDM 1.2 the transcript itself is signed
+            let transcript_data = self.common.calc_req_transcript_data(
+                false,
+                slot_id,
+                true,
+                &session.runtime_info.message_k,
+                Some(&session.runtime_info.message_f),
+            )?;
+            return crate::secret::asym_sign::sign(
+                self.common.negotiate_info.base_hash_sel,
+                self.common.get_req_asym_algo(),
+                transcript_data.as_ref(),
+            )
+            .ok_or(SPDM_STATUS_CRYPTO_ERROR);
+        }
+
         let transcript_data_hash = self
             .common
             .calc_req_transcript_hash(false, slot_id, true, session)?;
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 09a34d9..6d1c986 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -312,6 +312,14 @@ impl<'a> ResponderContext<'a> {
         let transcript_data_hash =
             self.common
                 .calc_rsp_transcript_hash(false, session.get_slot_id(), true, session)?;
+        // before SPDM 1.2 the transcript itself is signed
+        let transcript_data = self.common.calc_rsp_transcript_data(
+            false,
+            session.get_slot_id(),
+            true,
+            &session.runtime_info.message_k,
+            Some(&session.runtime_info.message_f),
+        )?;
 
         let peer_slot_id = self.common.runtime_info.get_peer_used_cert_chain_slot_id();
         let peer_cert = &self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
@@ -341,11 +349,19 @@ impl<'a> ResponderContext<'a> {
                 .ok_or(SPDM_STATUS_BUFFER_FULL)?;
         }
 
+        let signed_data = if self.common.negotiate_info.spdm_version_sel.get_u8()
+            >= SpdmVersion::SpdmVersion12.get_u8()
+        {
+            transcript_sign.as_ref()
+        } else {
+            transcript_data.as_ref()
+        };
+
         crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
             self.common.get_req_asym_algo(),
             peer_cert,
-            transcript_sign.as_ref(),
+            signed_data,
             signature,
         )
     }
-- 
2.43.0


From a5931561ab49560ec8853f597dedd8580e998660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 20/71] fix: bound the encapsulated requests a requester
 answers

---
 spdmlib/src/requester/encap_req.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 3e5c64d..fd7c160 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -8,8 +8,8 @@ use crate::{
     common::SpdmCodec,
     config,
     error::{
-        SpdmResult, SPDM_STATUS_INVALID_MSG_FIELD, SPDM_STATUS_INVALID_MSG_SIZE,
-        SPDM_STATUS_UNSUPPORTED_CAP,
+        SpdmResult, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD,
+        SPDM_STATUS_INVALID_MSG_SIZE, SPDM_STATUS_UNSUPPORTED_CAP,
     },
     message::{
         SpdmDeliverEncapsulatedResponsePayload, SpdmEncapsulatedRequestPayload,
@@ -25,6 +25,10 @@ use crate::{
 
 use super::RequesterContext;
 
+/// Bounds the encapsulated requests of one mutual authentication: a certificate
+/// chain needs far fewer, a responder cannot keep the requester busy forever.
+const MAX_ENCAPSULATED_REQUEST_COUNT: usize = 256;
+
 impl<'a> RequesterContext<'a> {
     pub fn get_encapsulated_request_response(
         &mut self,
@@ -76,8 +80,13 @@ impl<'a> RequesterContext<'a> {
             }
         }
 
-        while self.receive_encapsulated_response_ack(session_id)? {}
-        Ok(())
+        for _ in 0..MAX_ENCAPSULATED_REQUEST_COUNT {
+            if !self.receive_encapsulated_response_ack(session_id)? {
+                return Ok(());
+            }
+        }
+        error!("!!! encapsulated requests do not end !!!\n");
+        Err(SPDM_STATUS_ERROR_PEER)
     }
 
     pub fn send_get_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
-- 
2.43.0


From 1220b7d369ec1027b2586ca10256d0d4e7057c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 21/71] fix: read encapsulated messages within their length

---
 spdmlib/src/requester/encap_req.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index fd7c160..d706787 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -108,8 +108,8 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let _ = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -126,14 +126,14 @@ impl<'a> RequesterContext<'a> {
         self.process_encapsulated_request(
             session_id,
             encapsulated_request.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )
     }
 
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -170,13 +170,13 @@ impl<'a> RequesterContext<'a> {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
                 }
             }
-            _ => {}
+            _ => return Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
 
         self.process_encapsulated_request(
             session_id,
             ack_header.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )?;
 
         Ok(true)
-- 
2.43.0


From 5d735f6dd1108c87e5aaa5666bcabc2896816b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 22/71] fix: refuse certificate responses that make no progress

---
 spdmlib/src/requester/get_certificate_req.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 5e46537..bbf1341 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -117,6 +117,11 @@ impl<'a> RequesterContext<'a> {
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
+                            if certificate.portion_length == 0 && certificate.remainder_length != 0
+                            {
+                                error!("certificate response without a portion!\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
                             if total_size != 0
                                 && total_size
                                     != offset
-- 
2.43.0


From f5299c5330a1adebf2fa2927abac8e7e7c122159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 23/71] fix: retrieve certificate chains up to the maximum size

---
 spdmlib/src/common/mod.rs                      | 6 ++++--
 spdmlib/src/protocol/algo.rs                   | 8 ++++++--
 spdmlib/src/requester/get_certificate_req.rs   | 7 +++++--
 spdmlib/src/responder/encap_get_certificate.rs | 9 ++++++---
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 1c63252..b3cec9c 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -7,7 +7,7 @@ pub mod opaque;
 pub mod session;
 pub mod spdm_codec;
 
-use crate::message::SpdmRequestResponseCode;
+use crate::message::{SpdmRequestResponseCode, MAX_SPDM_CERT_PORTION_LEN};
 use crate::{crypto, protocol::*};
 
 pub use opaque::*;
@@ -1103,7 +1103,9 @@ pub struct SpdmNegotiateInfo {
 
 const MAX_MANAGED_BUFFER_A_SIZE: usize = 150 + 2 * MAX_SPDM_VERSION_COUNT;
 const MAX_MANAGED_BUFFER_B_SIZE: usize =
-    24 + SPDM_MAX_HASH_SIZE * SPDM_MAX_SLOT_NUMBER + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE;
+    8 + SPDM_MAX_HASH_SIZE * SPDM_MAX_SLOT_NUMBER
+        + SPDM_MAX_CERT_CHAIN_BUFFER_SIZE
+        + 16 * (SPDM_MAX_CERT_CHAIN_BUFFER_SIZE / MAX_SPDM_CERT_PORTION_LEN + 1);
 const MAX_MANAGED_BUFFER_C_SIZE: usize =
     78 + SPDM_MAX_HASH_SIZE * 2 + SPDM_MAX_ASYM_KEY_SIZE + MAX_SPDM_OPAQUE_SIZE;
 const MAX_MANAGED_BUFFER_M_SIZE: usize = 47
diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 600c976..87794bd 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -840,17 +840,21 @@ impl AsRef<[u8]> for SpdmCertChainData {
     }
 }
 
+/// A certificate chain as it is transferred: length, root hash and certificates.
+pub const SPDM_MAX_CERT_CHAIN_BUFFER_SIZE: usize =
+    4 + SPDM_MAX_HASH_SIZE + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE;
+
 #[derive(Debug, Clone)]
 pub struct SpdmCertChainBuffer {
     pub data_size: u16,
-    pub data: [u8; 4 + SPDM_MAX_HASH_SIZE + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE],
+    pub data: [u8; SPDM_MAX_CERT_CHAIN_BUFFER_SIZE],
 }
 
 impl Default for SpdmCertChainBuffer {
     fn default() -> Self {
         SpdmCertChainBuffer {
             data_size: 0u16,
-            data: [0u8; 4 + SPDM_MAX_HASH_SIZE + config::MAX_SPDM_CERT_CHAIN_DATA_SIZE],
+            data: [0u8; SPDM_MAX_CERT_CHAIN_BUFFER_SIZE],
         }
     }
 }
diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index bbf1341..c8e3d06 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -106,12 +106,12 @@ impl<'a> RequesterContext<'a> {
 
                             if certificate.portion_length > length
                                 || certificate.portion_length
-                                    > config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16 - offset
+                                    > SPDM_MAX_CERT_CHAIN_BUFFER_SIZE as u16 - offset
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
                             if certificate.remainder_length
-                                >= config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16
+                                > SPDM_MAX_CERT_CHAIN_BUFFER_SIZE as u16
                                     - offset
                                     - certificate.portion_length
                             {
@@ -258,6 +258,9 @@ impl<'a> RequesterContext<'a> {
         let data_size =
             peer_cert_chain.data_size - 4 - self.common.negotiate_info.base_hash_sel.get_size();
         let mut data = [0u8; config::MAX_SPDM_CERT_CHAIN_DATA_SIZE];
+        if data_size as usize > data.len() {
+            return Err(SPDM_STATUS_INVALID_CERT);
+        }
         data[0..(data_size as usize)].copy_from_slice(
             &peer_cert_chain.data[(4usize
                 + self.common.negotiate_info.base_hash_sel.get_size() as usize)
diff --git a/spdmlib/src/responder/encap_get_certificate.rs b/spdmlib/src/responder/encap_get_certificate.rs
index 650c45e..0575e5e 100644
--- a/spdmlib/src/responder/encap_get_certificate.rs
+++ b/spdmlib/src/responder/encap_get_certificate.rs
@@ -17,7 +17,7 @@ use crate::{
         SpdmMessageGeneralPayload, SpdmMessageHeader, SpdmMessagePayload, SpdmRequestResponseCode,
         MAX_SPDM_CERT_PORTION_LEN,
     },
-    protocol::{SpdmCertChainBuffer, SpdmCertChainData},
+    protocol::{SpdmCertChainBuffer, SpdmCertChainData, SPDM_MAX_CERT_CHAIN_BUFFER_SIZE},
 };
 
 use super::ResponderContext;
@@ -83,12 +83,12 @@ impl<'a> ResponderContext<'a> {
 
                             if certificate.portion_length as usize > MAX_SPDM_CERT_PORTION_LEN
                                 || certificate.portion_length
-                                    > config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16 - offset
+                                    > SPDM_MAX_CERT_CHAIN_BUFFER_SIZE as u16 - offset
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
                             if certificate.remainder_length
-                                >= config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16
+                                > SPDM_MAX_CERT_CHAIN_BUFFER_SIZE as u16
                                     - offset
                                     - certificate.portion_length
                             {
@@ -190,6 +190,9 @@ impl<'a> ResponderContext<'a> {
         let data_size =
             peer_cert_chain.data_size - 4 - self.common.negotiate_info.base_hash_sel.get_size();
         let mut data = [0u8; config::MAX_SPDM_CERT_CHAIN_DATA_SIZE];
+        if data_size as usize > data.len() {
+            return Err(SPDM_STATUS_INVALID_CERT);
+        }
         data[0..(data_size as usize)].copy_from_slice(
             &peer_cert_chain.data[(4usize
                 + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-- 
2.43.0


From cc1966f34dd5b2c1ffeb00dec6bc7d4ce74e5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 24/71] fix: serve the certificate chains of all provisioned
 slots

---
 spdmlib/src/requester/encap_certificate.rs |  8 --------
 spdmlib/src/responder/certificate_rsp.rs   | 13 ++++---------
 2 files changed, 4 insertions(+), 17 deletions(-)

diff --git a/spdmlib/src/requester/encap_certificate.rs b/spdmlib/src/requester/encap_certificate.rs
index 66a3f09..2698a8c 100644
--- a/spdmlib/src/requester/encap_certificate.rs
+++ b/spdmlib/src/requester/encap_certificate.rs
@@ -60,14 +60,6 @@ impl<'a> RequesterContext<'a> {
             SpdmGetCertificateRequestPayload::spdm_read(&mut self.common, &mut reader)
         {
             debug!("!!! encap get_certificate : {:02x?}\n", get_certificate);
-            if get_certificate.slot_id != 0 {
-                self.encode_encap_error_response(
-                    SpdmErrorCode::SpdmErrorInvalidRequest,
-                    0,
-                    encap_response,
-                );
-                return;
-            }
             get_certificate
         } else {
             error!("!!! encap get_certificate : fail !!!\n");
diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index 29217bc..e2bfa0b 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -55,7 +55,10 @@ impl<'a> ResponderContext<'a> {
             SpdmGetCertificateRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(get_certificate) = &get_certificate {
             debug!("!!! get_certificate : {:02x?}\n", get_certificate);
-            if get_certificate.slot_id != 0 {
+            if get_certificate.slot_id as usize >= SPDM_MAX_SLOT_NUMBER
+                || self.common.provision_info.my_cert_chain[get_certificate.slot_id as usize]
+                    .is_none()
+            {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
@@ -81,14 +84,6 @@ impl<'a> ResponderContext<'a> {
 
         let get_certificate = get_certificate.unwrap();
         let slot_id = get_certificate.slot_id as usize;
-        if slot_id >= SPDM_MAX_SLOT_NUMBER {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-            return;
-        }
-        if self.common.provision_info.my_cert_chain[slot_id].is_none() {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-            return;
-        }
 
         let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
             .as_ref()
-- 
2.43.0


From 5cdd7eb867fd69beefd797ef2cfc28266439d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 25/71] fix: stop processing encapsulated messages after
 refusing them

---
 spdmlib/src/responder/encap_rsp.rs | 34 ++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 4b8044e..4a4d455 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -26,11 +26,12 @@ impl<'a> ResponderContext<'a> {
         let mut encapsulated_request = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encapsulated_request);
 
-        self.encap_check_version_cap_state(
+        if self.encap_check_version_cap_state(
             SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
             &mut writer,
-        );
-        self.write_encap_request_response(bytes, &mut writer);
+        ) {
+            self.write_encap_request_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -81,11 +82,12 @@ impl<'a> ResponderContext<'a> {
         let mut encap_response_ack = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encap_response_ack);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
+        if self.encap_check_version_cap_state(
+            SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse.get_u8(),
             &mut writer,
-        );
-        self.write_encap_response_ack_response(bytes, &mut writer);
+        ) {
+            self.write_encap_response_ack_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -119,14 +121,21 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
-    fn encap_check_version_cap_state(&mut self, request_response_code: u8, writer: &mut Writer) {
+    /// Returns false when an error response was written instead.
+    fn encap_check_version_cap_state(
+        &mut self,
+        request_response_code: u8,
+        writer: &mut Writer,
+    ) -> bool {
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             < SpdmVersion::SpdmVersion11.get_u8()
         {
-            self.send_spdm_error(
+            self.write_spdm_error(
                 SpdmErrorCode::SpdmErrorUnsupportedRequest,
                 request_response_code,
-            )
+                writer,
+            );
+            return false;
         }
 
         if !self
@@ -145,14 +154,17 @@ impl<'a> ResponderContext<'a> {
                 request_response_code,
                 writer,
             );
-            return;
+            return false;
         }
 
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
         {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return false;
         }
+
+        true
     }
 
     fn process_encapsulated_response(
-- 
2.43.0


From 9aaa6c9507d388a2f9156b12fbdd6c09494ae996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 26/71] fix: start each encapsulated certificate retrieval
 afresh

---
 spdmlib/src/responder/encap_get_digest.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/responder/encap_get_digest.rs b/spdmlib/src/responder/encap_get_digest.rs
index 2afc07a..6221ae0 100644
--- a/spdmlib/src/responder/encap_get_digest.rs
+++ b/spdmlib/src/responder/encap_get_digest.rs
@@ -38,6 +38,10 @@ impl<'a> ResponderContext<'a> {
                             SpdmDigestsResponsePayload::spdm_read(&mut self.common, &mut reader);
                         if let Some(digests) = digests {
                             debug!("!!! digests : {:02x?}\n", digests);
+                            // the retrieval of the certificate chain starts here, without
+                            // anything left over from an abandoned one
+                            self.common.peer_info.peer_cert_chain_temp = None;
+                            self.common.encap_context.encap_cert_size = 0;
                             Ok(())
                         } else {
                             error!("!!! digests : fail !!!\n");
-- 
2.43.0


From a4e0dfa2aa9941882ba7b5e2c959a07921e626e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 27/71] fix: choose only among the versions the responder
 listed

---
 spdmlib/src/requester/get_version_req.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index c8a9b6e..598ad77 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -56,7 +56,7 @@ impl<'a> RequesterContext<'a> {
                             mut versions,
                         } = version;
 
-                        versions
+                        versions[..version_number_entry_count as usize]
                             .sort_unstable_by(|a, b| b.version.get_u8().cmp(&a.version.get_u8()));
 
                         self.common.negotiate_info.spdm_version_sel = SpdmVersion::Unknown(0);
-- 
2.43.0


From a615fde25ad408b8755170fb847f41bc2fddb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 28/71] fix: check the version of VERSION and FINISH_RSP
 headers

---
 spdmlib/src/requester/finish_req.rs      | 5 +++++
 spdmlib/src/requester/get_version_req.rs | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index ae1d653..1a14d98 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -208,6 +208,11 @@ impl<'a> RequesterContext<'a> {
 
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header)
+                if message_header.version != self.common.negotiate_info.spdm_version_sel =>
+            {
+                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseFinishRsp => {
                     let finish_rsp =
diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index 598ad77..898c02c 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -44,6 +44,12 @@ impl<'a> RequesterContext<'a> {
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
             Some(message_header) => match message_header.request_response_code {
+                SpdmRequestResponseCode::SpdmResponseVersion
+                    if message_header.version != SpdmVersion::SpdmVersion10 =>
+                {
+                    error!("!!! version : wrong header version !!!\n");
+                    Err(SPDM_STATUS_INVALID_MSG_FIELD)
+                }
                 SpdmRequestResponseCode::SpdmResponseVersion => {
                     let version =
                         SpdmVersionResponsePayload::spdm_read(&mut self.common, &mut reader);
-- 
2.43.0


From f7ba1dc6c1959f66abdfbecffbd2a190b3e42353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 29/71] fix: rebuild provisioned certificate chains for each
 negotiation

---
 spdmlib/src/common/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index b3cec9c..b66d29a 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -200,6 +200,18 @@ impl<'a> SpdmContext<'a> {
         self.reset_negotiate_info();
         self.reset_peer_info();
 
+        // chains built from provisioned data carry a root hash of the algorithm
+        // negotiated before
+        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
+            if self.provision_info.my_cert_chain_data[slot_id].is_some() {
+                self.provision_info.my_cert_chain[slot_id] = None;
+            }
+        }
+        #[cfg(feature = "mut-auth")]
+        {
+            self.encap_context = SpdmEncapContext::default();
+        }
+
         for s in &mut self.session {
             s.set_default();
         }
@@ -271,8 +283,7 @@ impl<'a> SpdmContext<'a> {
                     crypto::cert_operation::get_cert_from_cert_chain(
                         &cert_chain.data[..(cert_chain.data_size as usize)],
                         0,
-                    )
-                    .unwrap();
+                    )?;
                 let root_cert = &cert_chain.data[root_cert_begin..root_cert_end];
                 if let Some(root_hash) =
                     crypto::hash::hash_all(self.negotiate_info.base_hash_sel, root_cert)
-- 
2.43.0


From cdbbf45f0588e382428b9afeeab26f3b36d1ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 30/71] fix: drop the earlier connection when the requester
 negotiates anew

---
 spdmlib/src/requester/get_version_req.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index 898c02c..9731b73 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -11,8 +11,8 @@ use crate::requester::*;
 
 impl<'a> RequesterContext<'a> {
     pub fn send_receive_spdm_version(&mut self) -> SpdmResult {
-        self.common
-            .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestGetVersion, None);
+        // a new negotiation leaves nothing of an earlier connection behind
+        self.common.reset_context();
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let send_used = self.encode_spdm_version(&mut send_buffer)?;
-- 
2.43.0


From d63ec561b908c911ccbb0269dd4eb6b2190c47fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 31/71] fix: send errors before the negotiation with version
 1.0

---
 spdmlib/src/responder/error_rsp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index bfd976c..aa1f0e4 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -5,6 +5,7 @@
 use crate::common::SpdmCodec;
 use crate::error::SpdmResult;
 use crate::message::*;
+use crate::protocol::SpdmVersion;
 use crate::responder::*;
 
 impl<'a> ResponderContext<'a> {
@@ -14,9 +15,14 @@ impl<'a> ResponderContext<'a> {
         error_data: u8,
         writer: &mut Writer,
     ) {
+        let version = match self.common.negotiate_info.spdm_version_sel {
+            // nothing is negotiated yet
+            SpdmVersion::Unknown(_) => SpdmVersion::SpdmVersion10,
+            version => version,
+        };
         let error = SpdmMessage {
             header: SpdmMessageHeader {
-                version: self.common.negotiate_info.spdm_version_sel,
+                version,
                 request_response_code: SpdmRequestResponseCode::SpdmResponseError,
             },
             payload: SpdmMessagePayload::SpdmErrorResponse(SpdmErrorResponsePayload {
-- 
2.43.0


From 19c0590c6b775b637c11e4eedc8a84a6cf6cb8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 32/71] fix: negotiate capabilities only for a supported
 version

---
 spdmlib/src/responder/capability_rsp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/capability_rsp.rs b/spdmlib/src/responder/capability_rsp.rs
index 1f0ba40..2ce5de8 100644
--- a/spdmlib/src/responder/capability_rsp.rs
+++ b/spdmlib/src/responder/capability_rsp.rs
@@ -31,8 +31,10 @@ impl<'a> ResponderContext<'a> {
             request_response_code: _,
         }) = message_header
         {
-            if version.get_u8() < SpdmVersion::SpdmVersion10.get_u8() {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            if !self.common.config_info.spdm_version.contains(&version)
+                || matches!(version, SpdmVersion::Unknown(_))
+            {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorVersionMismatch, 0, writer);
                 return;
             }
             self.common.negotiate_info.spdm_version_sel = version;
@@ -73,6 +75,7 @@ impl<'a> ResponderContext<'a> {
         } else {
             error!("!!! get_capabilities : fail !!!\n");
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            self.common.negotiate_info.spdm_version_sel = SpdmVersion::default();
             return;
         }
 
-- 
2.43.0


From fcb6c98540a450c18b155a8a836eff49505a5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 33/71] fix: accept only offered algorithms in ALGORITHMS

---
 .../src/requester/negotiate_algorithms_req.rs | 58 +++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/spdmlib/src/requester/negotiate_algorithms_req.rs b/spdmlib/src/requester/negotiate_algorithms_req.rs
index dafdf9a..54ab613 100644
--- a/spdmlib/src/requester/negotiate_algorithms_req.rs
+++ b/spdmlib/src/requester/negotiate_algorithms_req.rs
@@ -90,6 +90,11 @@ impl<'a> RequesterContext<'a> {
                         if let Some(algorithms) = algorithms {
                             debug!("!!! algorithms : {:02x?}\n", algorithms);
 
+                            if !self.is_algorithms_selection_offered(&algorithms) {
+                                error!("!!! algorithms : not offered !!!\n");
+                                return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+                            }
+
                             self.common.negotiate_info.measurement_specification_sel =
                                 algorithms.measurement_specification_sel;
 
@@ -149,4 +154,57 @@ impl<'a> RequesterContext<'a> {
             None => Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
     }
+
+    /// Whether the responder selected only what this requester offered, and
+    /// everything that the sessions both sides are capable of need.
+    fn is_algorithms_selection_offered(&self, algorithms: &SpdmAlgorithmsResponsePayload) -> bool {
+        let config_info = &self.common.config_info;
+        let mut dhe_sel = SpdmDheAlgo::empty();
+        let mut aead_sel = SpdmAeadAlgo::empty();
+        let mut req_asym_sel = SpdmReqAsymAlgo::empty();
+        let mut key_schedule_sel = SpdmKeyScheduleAlgo::empty();
+        for alg in algorithms
+            .alg_struct
+            .iter()
+            .take(algorithms.alg_struct_count as usize)
+        {
+            match &alg.alg_supported {
+                SpdmAlg::SpdmAlgoDhe(v) => dhe_sel = *v,
+                SpdmAlg::SpdmAlgoAead(v) => aead_sel = *v,
+                SpdmAlg::SpdmAlgoReqAsym(v) => req_asym_sel = *v,
+                SpdmAlg::SpdmAlgoKeySchedule(v) => key_schedule_sel = *v,
+                SpdmAlg::SpdmAlgoUnknown(_v) => {}
+            }
+        }
+
+        if !config_info
+            .measurement_specification
+            .contains(algorithms.measurement_specification_sel)
+            || !config_info
+                .opaque_support
+                .contains(algorithms.other_params_selection)
+            || !config_info.base_asym_algo.contains(algorithms.base_asym_sel)
+            || !config_info.base_hash_algo.contains(algorithms.base_hash_sel)
+            || !config_info.dhe_algo.contains(dhe_sel)
+            || !config_info.aead_algo.contains(aead_sel)
+            || !config_info.req_asym_algo.contains(req_asym_sel)
+            || !config_info.key_schedule_algo.contains(key_schedule_sel)
+        {
+            return false;
+        }
+
+        let req_capabilities = self.common.negotiate_info.req_capabilities_sel;
+        let rsp_capabilities = self.common.negotiate_info.rsp_capabilities_sel;
+        let key_exchange = req_capabilities.contains(SpdmRequestCapabilityFlags::KEY_EX_CAP)
+            && rsp_capabilities.contains(SpdmResponseCapabilityFlags::KEY_EX_CAP);
+        let psk_exchange = req_capabilities.contains(SpdmRequestCapabilityFlags::PSK_CAP)
+            && rsp_capabilities.intersects(
+                SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT
+                    | SpdmResponseCapabilityFlags::PSK_CAP_WITH_CONTEXT,
+            );
+
+        !(key_exchange && dhe_sel.is_empty())
+            && !((key_exchange || psk_exchange)
+                && (aead_sel.is_empty() || key_schedule_sel.is_empty()))
+    }
 }
-- 
2.43.0


From 347793578f05251b6d16e7d0381f8558d3e966eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 34/71] fix: answer a failed challenge with a single error
 response

---
 spdmlib/src/responder/challenge_rsp.rs | 45 ++++++++++++--------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 5974d33..26cada7 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -99,23 +99,19 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        if self
-            .common
-            .append_message_c(&bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
             .as_ref()
             .unwrap();
         let cert_chain_hash = crypto::hash::hash_all(
             self.common.negotiate_info.base_hash_sel,
             my_cert_chain.as_ref(),
-        )
-        .unwrap();
+        );
+        let cert_chain_hash = if let Some(cert_chain_hash) = cert_chain_hash {
+            cert_chain_hash
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        };
 
         let mut nonce = [0u8; SPDM_NONCE_SIZE];
         let res = crypto::rand::get_random(&mut nonce);
@@ -161,21 +157,22 @@ impl<'a> ResponderContext<'a> {
         let base_asym_size = self.common.negotiate_info.base_asym_sel.get_size() as usize;
         let temp_used = used - base_asym_size;
 
-        if self
+        let signature = self
             .common
-            .append_message_c(&writer.used_slice()[..temp_used])
-            .is_err()
-        {
+            .append_message_c(&bytes[..reader.used()])
+            .and_then(|_| {
+                self.common
+                    .append_message_c(&writer.used_slice()[..temp_used])
+            })
+            .and_then(|_| self.generate_challenge_auth_signature());
+        let signature = if let Ok(signature) = signature {
+            signature
+        } else {
+            self.common.reset_message_b();
+            self.common.reset_message_c();
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
-        }
-
-        let signature = self.generate_challenge_auth_signature();
-        if signature.is_err() {
-            self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
-            return;
-        }
-        let signature = signature.unwrap();
+        };
         // patch the message before send
         writer.mut_used_slice()[(used - base_asym_size)..used].copy_from_slice(signature.as_ref());
 
@@ -191,7 +188,7 @@ impl<'a> ResponderContext<'a> {
                 .digest_context_m1m2
                 .as_ref()
                 .cloned()
-                .unwrap(),
+                .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
-- 
2.43.0


From b4f03209f1fe03ed2c1ab96caeef98ab7c0a3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 35/71] fix: report all provisioned slots in CHALLENGE_AUTH

---
 spdmlib/src/responder/challenge_rsp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 26cada7..7a14e03 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -120,6 +120,13 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        let mut slot_mask = 0u8;
+        for (slot, chain) in self.common.provision_info.my_cert_chain.iter().enumerate() {
+            if chain.is_some() {
+                slot_mask |= 1 << slot;
+            }
+        }
+
         info!("send spdm challenge_auth\n");
 
         let response = SpdmMessage {
@@ -130,7 +137,7 @@ impl<'a> ResponderContext<'a> {
             payload: SpdmMessagePayload::SpdmChallengeAuthResponse(
                 SpdmChallengeAuthResponsePayload {
                     slot_id: slot_id as u8,
-                    slot_mask: 0x1,
+                    slot_mask,
                     challenge_auth_attribute: SpdmChallengeAuthAttribute::empty(),
                     cert_chain_hash,
                     nonce: SpdmNonceStruct { data: nonce },
-- 
2.43.0


From 7993b7b319cb215e32f8b11c741826aeb05497fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 36/71] fix: check the slot and chain digest of CHALLENGE_AUTH

---
 spdmlib/src/requester/challenge_req.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 7ac271e..c9b3c90 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -104,6 +104,18 @@ impl<'a> RequesterContext<'a> {
                         if let Some(challenge_auth) = challenge_auth {
                             debug!("!!! challenge_auth : {:02x?}\n", challenge_auth);
 
+                            if challenge_auth.slot_id != slot_id
+                                || !self.is_peer_cert_chain_hash(
+                                    slot_id,
+                                    &challenge_auth.cert_chain_hash,
+                                )
+                            {
+                                error!("challenge_auth is not for the challenged slot");
+                                self.common.reset_message_b();
+                                self.common.reset_message_c();
+                                return Err(SPDM_STATUS_VERIF_FAIL);
+                            }
+
                             // verify signature
                             let base_asym_size =
                                 self.common.negotiate_info.base_asym_sel.get_size() as usize;
@@ -146,6 +158,15 @@ impl<'a> RequesterContext<'a> {
         }
     }
 
+    fn is_peer_cert_chain_hash(&self, slot_id: u8, cert_chain_hash: &SpdmDigestStruct) -> bool {
+        self.common.peer_info.peer_cert_chain[slot_id as usize]
+            .as_ref()
+            .and_then(|chain| {
+                crypto::hash::hash_all(self.common.negotiate_info.base_hash_sel, chain.as_ref())
+            })
+            .map_or(false, |hash| hash.as_ref() == cert_chain_hash.as_ref())
+    }
+
     #[cfg(feature = "hashed-transcript-data")]
     pub fn verify_challenge_auth_signature(
         &self,
-- 
2.43.0


From 42208ec307c1b2af0628b60fa95b6720ceb59e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 37/71] fix: report the total number of measurements also when
 it is one

---
 spdmlib/src/message/measurement.rs       | 12 ++++--------
 spdmlib/src/responder/measurement_rsp.rs |  7 +++----
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 01a5e03..432b910 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -149,14 +149,10 @@ impl SpdmCodec for SpdmMeasurementsResponsePayload {
         //When Param2 in the requested measurement operation is 0 , this
         //parameter shall return the total number of measurement indices on
         //the device. Otherwise, this field is reserved.
-        if self.number_of_measurement == 1 {
-            cnt += 0_u8.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        } else {
-            cnt += self
-                .number_of_measurement
-                .encode(bytes)
-                .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        }
+        cnt += self
+            .number_of_measurement
+            .encode(bytes)
+            .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
         if context.negotiate_info.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
             && context.runtime_info.need_measurement_signature
         {
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index f4d53e7..5b1b3b1 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -126,14 +126,13 @@ impl<'a> ResponderContext<'a> {
         .unwrap()
         .number_of_blocks;
 
+        // reserved unless the total number is queried
         let number_of_measurement: u8 = if get_measurements.measurement_operation
-            == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-            || get_measurements.measurement_operation
-                == SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber
+            == SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber
         {
             real_measurement_block_count
         } else {
-            1
+            0
         };
         let measurement_record = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-- 
2.43.0


From 718ec8e498c47d173d07b878ed749ba32c47a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 38/71] fix: answer failed measurement requests with a single
 error response

---
 spdmlib/src/responder/measurement_rsp.rs | 129 +++++++++++------------
 1 file changed, 61 insertions(+), 68 deletions(-)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 5b1b3b1..e618a0f 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -108,58 +108,48 @@ impl<'a> ResponderContext<'a> {
         let content_changed = self.common.runtime_info.content_changed;
         let base_asym_sel = self.common.negotiate_info.base_asym_sel;
 
-        if self
-            .common
-            .append_message_m(session_id, &bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
-        let real_measurement_block_count = secret::measurement::measurement_collection(
-            spdm_version_sel,
-            measurement_specification_sel,
-            measurement_hash_sel,
-            SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
-        )
-        .unwrap()
-        .number_of_blocks;
-
-        // reserved unless the total number is queried
-        let number_of_measurement: u8 = if get_measurements.measurement_operation
-            == SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber
-        {
-            real_measurement_block_count
-        } else {
-            0
-        };
-        let measurement_record = if get_measurements.measurement_operation
-            == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-        {
-            secret::measurement::measurement_collection(
-                spdm_version_sel,
-                measurement_specification_sel,
-                measurement_hash_sel,
-                SpdmMeasurementOperation::SpdmMeasurementRequestAll.get_u8() as usize,
-            )
-            .unwrap()
-        } else if let SpdmMeasurementOperation::Unknown(index) =
-            get_measurements.measurement_operation
-        {
-            if index > real_measurement_block_count {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-                return;
+        let mut number_of_measurement = 0u8; // reserved unless the total number is queried
+        let measurement_record = match get_measurements.measurement_operation {
+            SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber => {
+                secret::measurement::measurement_collection(
+                    spdm_version_sel,
+                    measurement_specification_sel,
+                    measurement_hash_sel,
+                    SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
+                )
+                .map(|measurement_record| {
+                    number_of_measurement = measurement_record.number_of_blocks;
+                    SpdmMeasurementRecordStructure::default()
+                })
             }
-            secret::measurement::measurement_collection(
-                spdm_version_sel,
-                measurement_specification_sel,
-                measurement_hash_sel,
-                index as usize,
-            )
-            .unwrap()
+            SpdmMeasurementOperation::SpdmMeasurementRequestAll => {
+                secret::measurement::measurement_collection(
+                    spdm_version_sel,
+                    measurement_specification_sel,
+                    measurement_hash_sel,
+                    SpdmMeasurementOperation::SpdmMeasurementRequestAll.get_u8() as usize,
+                )
+            }
+            SpdmMeasurementOperation::Unknown(index) => {
+                let measurement_record = secret::measurement::measurement_collection(
+                    spdm_version_sel,
+                    measurement_specification_sel,
+                    measurement_hash_sel,
+                    index as usize,
+                );
+                if !matches!(&measurement_record, Some(record) if record.number_of_blocks != 0) {
+                    // there is no such measurement
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+                    return;
+                }
+                measurement_record
+            }
+        };
+        let measurement_record = if let Some(measurement_record) = measurement_record {
+            measurement_record
         } else {
-            SpdmMeasurementRecordStructure::default()
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         };
 
         let content_changed = if runtime_content_change_support
@@ -218,31 +208,34 @@ impl<'a> ResponderContext<'a> {
             let base_asym_size = base_asym_sel.get_size() as usize;
             let temp_used = used - base_asym_size;
 
-            if self
+            let signature = self
                 .common
-                .append_message_m(session_id, &writer.used_slice()[..temp_used])
-                .is_err()
-            {
+                .append_message_m(session_id, &bytes[..reader.used()])
+                .and_then(|_| {
+                    self.common
+                        .append_message_m(session_id, &writer.used_slice()[..temp_used])
+                })
+                .and_then(|_| self.generate_measurement_signature(session_id));
+            self.common.reset_message_m(session_id);
+            let signature = if let Ok(signature) = signature {
+                signature
+            } else {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
-            }
-
-            let signature = self.generate_measurement_signature(session_id);
-            if signature.is_err() {
-                self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
-                return;
-            }
-            let signature = signature.unwrap();
+            };
             // patch the message before send
             writer.mut_used_slice()[(used - base_asym_size)..used]
                 .copy_from_slice(signature.as_ref());
-
-            self.common.reset_message_m(session_id);
         } else if self
             .common
-            .append_message_m(session_id, writer.used_slice())
+            .append_message_m(session_id, &bytes[..reader.used()])
+            .and_then(|_| {
+                self.common
+                    .append_message_m(session_id, writer.used_slice())
+            })
             .is_err()
         {
+            self.common.reset_message_m(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
         }
     }
@@ -256,12 +249,12 @@ impl<'a> ResponderContext<'a> {
             Some(session_id) => crypto::hash::hash_ctx_finalize(
                 self.common
                     .get_immutable_session_via_id(session_id)
-                    .unwrap()
+                    .ok_or(SPDM_STATUS_CRYPTO_ERROR)?
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
                     .cloned()
-                    .unwrap(),
+                    .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             None => crypto::hash::hash_ctx_finalize(
@@ -270,7 +263,7 @@ impl<'a> ResponderContext<'a> {
                     .digest_context_l1l2
                     .as_ref()
                     .cloned()
-                    .unwrap(),
+                    .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         };
-- 
2.43.0


From b6a97537e2457457c38bce87ec4443bc9fc2c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 39/71] fix: dispatch application messages of established
 sessions only

---
 spdmlib/src/responder/context.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index e3f0aa5..4cfee11 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -368,8 +368,15 @@ impl<'a> ResponderContext<'a> {
     ) -> SpdmResult {
         debug!("dispatching secured app message\n");
 
+        // application data belongs to established sessions only
+        match self.common.get_immutable_session_via_id(session_id) {
+            Some(session)
+                if session.get_session_state() == SpdmSessionState::SpdmSessionEstablished => {}
+            _ => return Err(SPDM_STATUS_UNSUPPORTED_CAP),
+        }
+
         let (rsp_app_buffer, size) =
-            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data).unwrap();
+            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data)?;
         self.send_secured_message(session_id, &rsp_app_buffer[..size], true)
     }
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
-- 
2.43.0


From 63d60e13ad70fb20f21c92f3c6bafbbdd8490602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 40/71] fix: refuse requests that the negotiated capabilities
 do not allow

---
 spdmlib/src/responder/context.rs         | 72 ++++++++++++++++++++++++
 spdmlib/src/responder/measurement_rsp.rs | 14 ++++-
 2 files changed, 85 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 4cfee11..8e705d6 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -303,6 +303,15 @@ impl<'a> ResponderContext<'a> {
             }
             SpdmSessionState::SpdmSessionEstablished => {
                 match SpdmMessageHeader::read(&mut reader) {
+                    Some(message_header)
+                        if !self.is_request_supported(message_header.request_response_code) =>
+                    {
+                        self.handle_error_request(
+                            SpdmErrorCode::SpdmErrorUnsupportedRequest,
+                            Some(session_id),
+                            bytes,
+                        )
+                    }
                     Some(message_header) => match message_header.request_response_code {
                         SpdmRequestResponseCode::SpdmRequestGetDigests => {
                             self.handle_spdm_digest(bytes, Some(session_id))
@@ -382,6 +391,11 @@ impl<'a> ResponderContext<'a> {
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut reader = Reader::init(bytes);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header)
+                if !self.is_request_supported(message_header.request_response_code) =>
+            {
+                self.handle_error_request(SpdmErrorCode::SpdmErrorUnsupportedRequest, None, bytes)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmRequestGetVersion => self.handle_spdm_version(bytes),
                 SpdmRequestResponseCode::SpdmRequestGetCapabilities => {
@@ -465,4 +479,62 @@ impl<'a> ResponderContext<'a> {
             None => Err(SPDM_STATUS_UNSUPPORTED_CAP),
         }
     }
+
+    /// Whether the capabilities and algorithms negotiated for this connection
+    /// allow the request.
+    fn is_request_supported(&self, request_code: SpdmRequestResponseCode) -> bool {
+        if self.common.runtime_info.get_connection_state().get_u8()
+            < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
+        {
+            // refused by its handler, whatever the capabilities are
+            return true;
+        }
+
+        let negotiate_info = &self.common.negotiate_info;
+        let req_capabilities = negotiate_info.req_capabilities_sel;
+        let rsp_capabilities = negotiate_info.rsp_capabilities_sel;
+        let has_hash = !negotiate_info.base_hash_sel.is_empty();
+        let has_asym = has_hash && !negotiate_info.base_asym_sel.is_empty();
+        let has_session = has_hash
+            && !negotiate_info.aead_sel.is_empty()
+            && !negotiate_info.key_schedule_sel.is_empty();
+
+        match request_code {
+            SpdmRequestResponseCode::SpdmRequestGetDigests
+            | SpdmRequestResponseCode::SpdmRequestGetCertificate => {
+                rsp_capabilities.contains(SpdmResponseCapabilityFlags::CERT_CAP) && has_hash
+            }
+            SpdmRequestResponseCode::SpdmRequestChallenge => {
+                rsp_capabilities.contains(SpdmResponseCapabilityFlags::CHAL_CAP) && has_asym
+            }
+            SpdmRequestResponseCode::SpdmRequestGetMeasurements => rsp_capabilities.intersects(
+                SpdmResponseCapabilityFlags::MEAS_CAP_NO_SIG
+                    | SpdmResponseCapabilityFlags::MEAS_CAP_SIG,
+            ),
+            SpdmRequestResponseCode::SpdmRequestKeyExchange => {
+                req_capabilities.contains(SpdmRequestCapabilityFlags::KEY_EX_CAP)
+                    && rsp_capabilities.contains(SpdmResponseCapabilityFlags::KEY_EX_CAP)
+                    && has_asym
+                    && has_session
+                    && !negotiate_info.dhe_sel.is_empty()
+            }
+            SpdmRequestResponseCode::SpdmRequestPskExchange => {
+                req_capabilities.contains(SpdmRequestCapabilityFlags::PSK_CAP)
+                    && rsp_capabilities.intersects(
+                        SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT
+                            | SpdmResponseCapabilityFlags::PSK_CAP_WITH_CONTEXT,
+                    )
+                    && has_session
+            }
+            SpdmRequestResponseCode::SpdmRequestHeartbeat => {
+                req_capabilities.contains(SpdmRequestCapabilityFlags::HBEAT_CAP)
+                    && rsp_capabilities.contains(SpdmResponseCapabilityFlags::HBEAT_CAP)
+            }
+            SpdmRequestResponseCode::SpdmRequestKeyUpdate => {
+                req_capabilities.contains(SpdmRequestCapabilityFlags::KEY_UPD_CAP)
+                    && rsp_capabilities.contains(SpdmResponseCapabilityFlags::KEY_UPD_CAP)
+            }
+            _ => true,
+        }
+    }
 }
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index e618a0f..ac26a8c 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -75,7 +75,7 @@ impl<'a> ResponderContext<'a> {
         let get_measurements = get_measurements.unwrap();
         let slot_id = get_measurements.slot_id as usize;
 
-        let signature_size = self.common.negotiate_info.base_asym_sel.get_size();
+        let mut signature_size = 0;
 
         if get_measurements
             .measurement_attributes
@@ -83,6 +83,18 @@ impl<'a> ResponderContext<'a> {
         {
             self.common.runtime_info.need_measurement_signature = true;
 
+            if !self
+                .common
+                .negotiate_info
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::MEAS_CAP_SIG)
+                || self.common.negotiate_info.base_asym_sel.is_empty()
+            {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+                return;
+            }
+            signature_size = self.common.negotiate_info.base_asym_sel.get_size();
+
             if slot_id >= SPDM_MAX_SLOT_NUMBER {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
-- 
2.43.0


From 4abe0048c046ed50c35a3b2b263a8de655aeffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 41/71] fix: check the slot of signed measurements

---
 spdmlib/src/requester/get_measurements_req.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 63b384b..dabfce6 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -137,15 +137,23 @@ impl<'a> RequesterContext<'a> {
                                     measurements.content_changed;
                             }
 
-                            let base_asym_size =
-                                self.common.negotiate_info.base_asym_sel.get_size() as usize;
                             let temp_used = used
                                 - if self.common.runtime_info.need_measurement_signature {
-                                    base_asym_size
+                                    self.common.negotiate_info.base_asym_sel.get_size() as usize
                                 } else {
                                     0
                                 };
 
+                            if self.common.runtime_info.need_measurement_signature
+                                && self.common.negotiate_info.spdm_version_sel.get_u8()
+                                    >= SpdmVersion::SpdmVersion11.get_u8()
+                                && measurements.slot_id != slot_id
+                            {
+                                error!("slot id is not match between requester and responder!\n");
+                                self.common.reset_message_m(session_id);
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
+
                             self.common.append_message_m(session_id, send_buffer)?;
                             self.common
                                 .append_message_m(session_id, &receive_buffer[..temp_used])?;
-- 
2.43.0


From d8849d126083b18afd0608e20aaf77617ce1c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 42/71] fix: keep both key generations in step when a key
 update fails

---
 spdmlib/src/common/session.rs           | 38 ++++++++++---
 spdmlib/src/requester/key_update_req.rs | 73 +++++++++++++++----------
 spdmlib/src/responder/key_update_rsp.rs | 19 ++++---
 3 files changed, 87 insertions(+), 43 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 31665d1..fc98b2e 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -579,15 +579,42 @@ impl SpdmSession {
             "!!! create_data_secret_update {:?} {:?} !!!:\n",
             update_requester, update_responder
         );
-        let hash_algo = self.crypto_param.base_hash_algo;
-        let aead_algo = self.crypto_param.aead_algo;
-
         if update_requester {
             self.application_secret_backup.request_data_secret =
                 self.application_secret.request_data_secret.clone();
             self.application_secret_backup.request_direction =
                 self.application_secret.request_direction.clone();
+        }
+        if update_responder {
+            self.application_secret_backup.response_data_secret =
+                self.application_secret.response_data_secret.clone();
+            self.application_secret_backup.response_direction =
+                self.application_secret.response_direction.clone();
+        }
+
+        let result =
+            self.derive_data_secret_update(spdm_version, update_requester, update_responder);
+        if result.is_err() {
+            self.activate_data_secret_update(
+                spdm_version,
+                update_requester,
+                update_responder,
+                false,
+            )?;
+        }
+        result
+    }
 
+    fn derive_data_secret_update(
+        &mut self,
+        spdm_version: SpdmVersion,
+        update_requester: bool,
+        update_responder: bool,
+    ) -> SpdmResult {
+        let hash_algo = self.crypto_param.base_hash_algo;
+        let aead_algo = self.crypto_param.aead_algo;
+
+        if update_requester {
             self.application_secret.request_data_secret = if let Some(us) =
                 self.key_schedule.derive_update_secret(
                     spdm_version,
@@ -632,11 +659,6 @@ impl SpdmSession {
         }
 
         if update_responder {
-            self.application_secret_backup.response_data_secret =
-                self.application_secret.response_data_secret.clone();
-            self.application_secret_backup.response_direction =
-                self.application_secret.response_direction.clone();
-
             self.application_secret.response_data_secret = if let Some(us) =
                 self.key_schedule.derive_update_secret(
                     spdm_version,
diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 9777323..8ec2651 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -39,14 +39,27 @@ impl<'a> RequesterContext<'a> {
         let update_responder = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
         session.create_data_secret_update(spdm_version_sel, update_requester, update_responder)?;
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-
-        self.handle_spdm_key_update_op_response(
-            session_id,
-            update_requester,
-            update_responder,
-            &receive_buffer[..used],
-        )
+        let result = match self.receive_secured_message(session_id, &mut receive_buffer, false) {
+            Ok(used) => self.handle_spdm_key_update_op_response(
+                session_id,
+                key_update_operation,
+                tag,
+                &receive_buffer[..used],
+            ),
+            Err(e) => Err(e),
+        };
+        if result.is_err() {
+            // without an acknowledgement the keys stay as they were
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                session.activate_data_secret_update(
+                    spdm_version_sel,
+                    update_requester,
+                    update_responder,
+                    false,
+                )?;
+            }
+        }
+        result
     }
 
     pub fn encode_spdm_key_update_op(
@@ -72,8 +85,8 @@ impl<'a> RequesterContext<'a> {
     pub fn handle_spdm_key_update_op_response(
         &mut self,
         session_id: u32,
-        update_requester: bool,
-        update_responder: bool,
+        key_update_operation: SpdmKeyUpdateOperation,
+        tag: u8,
         receive_buffer: &[u8],
     ) -> SpdmResult {
         let mut reader = Reader::init(receive_buffer);
@@ -92,24 +105,28 @@ impl<'a> RequesterContext<'a> {
                         } else {
                             return Err(SPDM_STATUS_INVALID_PARAMETER);
                         };
-                        if let Some(key_update_rsp) = key_update_rsp {
-                            debug!("!!! key_update rsp : {:02x?}\n", key_update_rsp);
-                            session.activate_data_secret_update(
-                                spdm_version_sel,
-                                update_requester,
-                                update_responder,
-                                true,
-                            )?;
-                            Ok(())
-                        } else {
-                            error!("!!! key_update : fail !!!\n");
-                            session.activate_data_secret_update(
-                                spdm_version_sel,
-                                update_requester,
-                                update_responder,
-                                false,
-                            )?;
-                            Err(SPDM_STATUS_INVALID_MSG_FIELD)
+                        match key_update_rsp {
+                            Some(key_update_rsp)
+                                if key_update_rsp.key_update_operation == key_update_operation
+                                    && key_update_rsp.tag == tag =>
+                            {
+                                debug!("!!! key_update rsp : {:02x?}\n", key_update_rsp);
+                                let update_responder = key_update_operation
+                                    == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
+                                let update_requester = update_responder
+                                    || key_update_operation
+                                        == SpdmKeyUpdateOperation::SpdmUpdateSingleKey;
+                                session.activate_data_secret_update(
+                                    spdm_version_sel,
+                                    update_requester,
+                                    update_responder,
+                                    true,
+                                )
+                            }
+                            _ => {
+                                error!("!!! key_update : fail !!!\n");
+                                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+                            }
                         }
                     }
                     SpdmRequestResponseCode::SpdmResponseError => self
diff --git a/spdmlib/src/responder/key_update_rsp.rs b/spdmlib/src/responder/key_update_rsp.rs
index b088047..97a9cca 100644
--- a/spdmlib/src/responder/key_update_rsp.rs
+++ b/spdmlib/src/responder/key_update_rsp.rs
@@ -50,22 +50,27 @@ impl<'a> ResponderContext<'a> {
 
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        match key_update_req.key_update_operation {
+        let result = match key_update_req.key_update_operation {
             SpdmKeyUpdateOperation::SpdmUpdateSingleKey => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, false);
-            }
-            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, true);
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, true, true);
+                session.create_data_secret_update(spdm_version_sel, true, false)
             }
+            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => session
+                .create_data_secret_update(spdm_version_sel, true, true)
+                .and_then(|_| {
+                    session.activate_data_secret_update(spdm_version_sel, true, true, true)
+                }),
             SpdmKeyUpdateOperation::SpdmVerifyNewKey => {
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, false, true);
+                session.activate_data_secret_update(spdm_version_sel, true, false, true)
             }
             _ => {
                 error!("!!! key_update req : fail !!!\n");
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+        };
+        if result.is_err() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         }
 
         info!("send spdm key_update rsp\n");
-- 
2.43.0


From 43dde5fc1bb7b3ea11e157faec68391fae11ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 43/71] fix: check the headers of secured-message opaque
 elements

---
 spdmlib/src/common/opaque.rs | 52 +++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index 22233af..b66fca5 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -357,11 +357,19 @@ impl SpdmCodec for OpaqueElementDMTFVersionSelection {
         context: &mut SpdmContext,
         r: &mut Reader,
     ) -> Option<OpaqueElementDMTFVersionSelection> {
-        u8::read(r)?; // ID
-        u8::read(r)?; // VendorLen
-        u16::read(r)?; // OpaqueElementDataLen
-        u8::read(r)?; // SMDataVersion
-        u8::read(r)?; // SMDataID
+        let id = u8::read(r)?; // ID
+        let vendor_len = u8::read(r)?; // VendorLen
+        let element_data_len = u16::read(r)?; // OpaqueElementDataLen
+        let sm_data_version = u8::read(r)?; // SMDataVersion
+        let sm_data_id = u8::read(r)?; // SMDataID
+        if id != DMTF_ID
+            || vendor_len != DMTF_VENDOR_LEN
+            || element_data_len != 4
+            || sm_data_version != SM_DATA_VERSION
+            || sm_data_id != VERSION_SELECTION_SM_DATA_ID
+        {
+            return None;
+        }
         let selected_version = SecuredMessageVersion::spdm_read(context, r)?;
 
         Some(OpaqueElementDMTFVersionSelection { selected_version })
@@ -403,12 +411,22 @@ impl SpdmCodec for OpaqueElementDMTFSupportedVersion {
         context: &mut SpdmContext,
         r: &mut Reader,
     ) -> Option<OpaqueElementDMTFSupportedVersion> {
-        u8::read(r)?; // ID
-        u8::read(r)?; // VendorLen
-        u16::read(r)?; // OpaqueElementDataLen
-        u8::read(r)?; // SMDataVersion
-        u8::read(r)?; // SMDataID
+        let id = u8::read(r)?; // ID
+        let vendor_len = u8::read(r)?; // VendorLen
+        let element_data_len = u16::read(r)?; // OpaqueElementDataLen
+        let sm_data_version = u8::read(r)?; // SMDataVersion
+        let sm_data_id = u8::read(r)?; // SMDataID
+        if id != DMTF_ID
+            || vendor_len != DMTF_VENDOR_LEN
+            || sm_data_version != SM_DATA_VERSION
+            || sm_data_id != SUPPORTED_VERSION_LIST_SM_DATA_ID
+        {
+            return None;
+        }
         let secured_msg_vers = SecuredMessageVersionList::spdm_read(context, r)?;
+        if element_data_len != 3 + 2 * secured_msg_vers.version_count as u16 {
+            return None;
+        }
 
         // padding
         let read = r.used();
@@ -588,6 +606,13 @@ impl SpdmOpaqueStruct {
         let mut r = Reader::init(&self.data[0..self.data_size as usize]);
         let secured_message_dmtf_supported_version =
             SecuredMessageDMTFSupportedVersion::spdm_read(context, &mut r)?;
+        if secured_message_dmtf_supported_version
+            .secured_message_general_opaque_data_header
+            .total_elements
+            == 0
+        {
+            return None;
+        }
 
         Some(SecuredMessageVersionList {
             ..secured_message_dmtf_supported_version.opaque_element_dmtf_supported_version_list[0]
@@ -602,6 +627,13 @@ impl SpdmOpaqueStruct {
         let mut r = Reader::init(&self.data[0..self.data_size as usize]);
         let secured_message_dmtf_version_selection =
             SecuredMessageDMTFVersionSelection::spdm_read(context, &mut r)?;
+        if secured_message_dmtf_version_selection
+            .secured_message_general_opaque_data_header
+            .total_elements
+            == 0
+        {
+            return None;
+        }
 
         Some(SecuredMessageVersion {
             ..secured_message_dmtf_version_selection.opaque_element_dmtf_version_selection_list[0]
-- 
2.43.0


From 7dff74e0ff3a06a901133142eae1d8916b250adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 44/71] fix: require a common secured-message version for
 sessions

---
 spdmlib/src/requester/key_exchange_req.rs | 10 +++++++++-
 spdmlib/src/requester/psk_exchange_req.rs | 10 +++++++++-
 spdmlib/src/responder/key_exchange_rsp.rs |  5 +++++
 spdmlib/src/responder/psk_exchange_rsp.rs |  5 +++++
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 51b9f29..dcc30f2 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -208,8 +208,16 @@ impl<'a> RequesterContext<'a> {
                             {
                                 secured_message_version.get_secure_spdm_version()
                             } else {
-                                0
+                                error!("!!! no secured message version selected !!!\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             };
+                            if !crate::common::opaque::DMTF_SUPPORTED_SECURE_SPDM_VERSION_LIST
+                                .iter()
+                                .any(|v| v.get_secure_spdm_version() == secure_spdm_version_sel)
+                            {
+                                error!("!!! secured message version not offered !!!\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
 
                             info!(
                                 "secure_spdm_version_sel set to {:02X?}",
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 24d0334..a137151 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -173,8 +173,16 @@ impl<'a> RequesterContext<'a> {
                             {
                                 secured_message_version.get_secure_spdm_version()
                             } else {
-                                0
+                                error!("!!! no secured message version selected !!!\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             };
+                            if !crate::common::opaque::DMTF_SUPPORTED_SECURE_SPDM_VERSION_LIST
+                                .iter()
+                                .any(|v| v.get_secure_spdm_version() == secure_spdm_version_sel)
+                            {
+                                error!("!!! secured message version not offered !!!\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
 
                             let session_id = ((psk_exchange_rsp.rsp_session_id as u32) << 16)
                                 + half_session_id as u32;
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 519fe7e..f2d6013 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -168,6 +168,11 @@ impl<'a> ResponderContext<'a> {
                         }
                     }
                 }
+                if return_opaque.data_size == 0 {
+                    error!("no common secured message version\n");
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+                    return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                }
             }
         } else {
             error!("!!! key_exchange req : fail !!!\n");
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 6e64903..dc7a5ff 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -162,6 +162,11 @@ impl<'a> ResponderContext<'a> {
                         }
                     }
                 }
+                if return_opaque.data_size == 0 {
+                    error!("no common secured message version\n");
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+                    return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                }
             }
         } else {
             error!("!!! psk_exchange req : fail !!!\n");
-- 
2.43.0


From bdbe68f4dbca2495e9b99d91032bdbe7820b924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 45/71] fix: answer an error when the session secrets cannot be
 derived

---
 spdmlib/src/responder/finish_rsp.rs     | 6 +++++-
 spdmlib/src/responder/psk_finish_rsp.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 6d1c986..7b55d78 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -300,7 +300,11 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        let result = session.generate_data_secret(spdm_version_sel, &th2);
+        if result.is_err() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+        }
+        result
     }
 
     #[cfg(not(feature = "hashed-transcript-data"))]
diff --git a/spdmlib/src/responder/psk_finish_rsp.rs b/spdmlib/src/responder/psk_finish_rsp.rs
index da91181..ff38789 100644
--- a/spdmlib/src/responder/psk_finish_rsp.rs
+++ b/spdmlib/src/responder/psk_finish_rsp.rs
@@ -175,6 +175,10 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        let result = session.generate_data_secret(spdm_version_sel, &th2);
+        if result.is_err() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+        }
+        result
     }
 }
-- 
2.43.0


From 4fdb881d4a130f39fc31245f5f929990ff21c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 46/71] fix: keep the connection when sending vendor-defined
 requests

---
 spdmlib/src/requester/vendor_req.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index b75e36b..acaaa28 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -21,9 +21,6 @@ impl<'a> RequesterContext<'a> {
             session_id,
         );
 
-        // clear cache data
-        self.common.reset_context();
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         let request = SpdmMessage {
-- 
2.43.0


From 4b3a1055cb47c0615d670d1d1bd205fc46a5e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 47/71] fix: leave no trace of responses that are too large for
 the requester

---
 spdmlib/src/responder/algorithm_rsp.rs    | 23 ++++++++++++----------
 spdmlib/src/responder/certificate_rsp.rs  | 24 +++++++++--------------
 spdmlib/src/responder/challenge_rsp.rs    |  3 +++
 spdmlib/src/responder/digest_rsp.rs       | 24 +++++++++--------------
 spdmlib/src/responder/error_rsp.rs        | 11 +++++++++++
 spdmlib/src/responder/finish_rsp.rs       |  3 +++
 spdmlib/src/responder/key_exchange_rsp.rs |  3 +++
 spdmlib/src/responder/measurement_rsp.rs  |  3 +++
 spdmlib/src/responder/psk_exchange_rsp.rs |  4 ++++
 9 files changed, 58 insertions(+), 40 deletions(-)

diff --git a/spdmlib/src/responder/algorithm_rsp.rs b/spdmlib/src/responder/algorithm_rsp.rs
index 3e2a62c..be29e08 100644
--- a/spdmlib/src/responder/algorithm_rsp.rs
+++ b/spdmlib/src/responder/algorithm_rsp.rs
@@ -52,6 +52,10 @@ impl<'a> ResponderContext<'a> {
                 negotiate_algorithms.measurement_specification;
             self.common.negotiate_info.base_hash_sel = negotiate_algorithms.base_hash_algo;
             self.common.negotiate_info.base_asym_sel = negotiate_algorithms.base_asym_algo;
+            self.common.negotiate_info.dhe_sel = SpdmDheAlgo::empty();
+            self.common.negotiate_info.aead_sel = SpdmAeadAlgo::empty();
+            self.common.negotiate_info.req_asym_sel = SpdmReqAsymAlgo::empty();
+            self.common.negotiate_info.key_schedule_sel = SpdmKeyScheduleAlgo::empty();
             for alg in negotiate_algorithms
                 .alg_struct
                 .iter()
@@ -73,15 +77,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        if self
-            .common
-            .append_message_a(&bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         self.common
             .negotiate_info
             .measurement_specification_sel
@@ -170,7 +165,15 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
-        if self.common.append_message_a(writer.used_slice()).is_err() {
+        if self.replace_too_large_response(writer) {
+            return;
+        }
+        if self
+            .common
+            .append_message_a(&bytes[..reader.used()])
+            .and_then(|_| self.common.append_message_a(writer.used_slice()))
+            .is_err()
+        {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
         }
     }
diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index e2bfa0b..342ba9d 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -68,20 +68,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        match session_id {
-            None => {
-                if self
-                    .common
-                    .append_message_b(&bytes[..reader.used()])
-                    .is_err()
-                {
-                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-                    return;
-                }
-            }
-            Some(_session_id) => {}
-        }
-
         let get_certificate = get_certificate.unwrap();
         let slot_id = get_certificate.slot_id as usize;
 
@@ -130,10 +116,18 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self.replace_too_large_response(writer) {
+            return;
+        }
 
         match session_id {
             None => {
-                if self.common.append_message_b(writer.used_slice()).is_err() {
+                if self
+                    .common
+                    .append_message_b(&bytes[..reader.used()])
+                    .and_then(|_| self.common.append_message_b(writer.used_slice()))
+                    .is_err()
+                {
                     self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 }
             }
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 7a14e03..c4340f9 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -158,6 +158,9 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self.replace_too_large_response(writer) {
+            return;
+        }
         let used = writer.used();
 
         // generat signature
diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index 12e5d43..6b20b9a 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -64,20 +64,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        match session_id {
-            None => {
-                if self
-                    .common
-                    .append_message_b(&bytes[..reader.used()])
-                    .is_err()
-                {
-                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-                    return;
-                }
-            }
-            Some(_session_id) => {}
-        }
-
         let digest_size = self.common.negotiate_info.base_hash_sel.get_size();
 
         let mut slot_mask = 0u8;
@@ -122,10 +108,18 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self.replace_too_large_response(writer) {
+            return;
+        }
 
         match session_id {
             None => {
-                if self.common.append_message_b(writer.used_slice()).is_err() {
+                if self
+                    .common
+                    .append_message_b(&bytes[..reader.used()])
+                    .and_then(|_| self.common.append_message_b(writer.used_slice()))
+                    .is_err()
+                {
                     self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 }
             }
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index aa1f0e4..340653a 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -38,6 +38,17 @@ impl<'a> ResponderContext<'a> {
         let _ = error.spdm_encode(&mut self.common, writer);
     }
 
+    /// Replace a response which the requester cannot take by an error.
+    /// Return true if the response was replaced.
+    pub fn replace_too_large_response(&mut self, writer: &mut Writer) -> bool {
+        let limit = self.common.negotiate_info.req_data_transfer_size_sel as usize;
+        let too_large = limit != 0 && writer.used() > limit;
+        if too_large {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+        }
+        too_large
+    }
+
     pub fn send_spdm_error(&mut self, error_code: SpdmErrorCode, error_data: u8) {
         info!("send spdm version\n");
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 7b55d78..04ff0a2 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -222,6 +222,9 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
+        if self.replace_too_large_response(writer) {
+            return Err(SPDM_STATUS_BUFFER_FULL);
+        }
         let used = writer.used();
 
         if in_clear_text {
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index f2d6013..7243894 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -334,6 +334,9 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
+        if self.replace_too_large_response(writer) {
+            return Err(SPDM_STATUS_BUFFER_FULL);
+        }
         let used = writer.used();
 
         // generate signature
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index ac26a8c..bf39505 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -210,6 +210,9 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
+        if self.replace_too_large_response(writer) {
+            return;
+        }
         let used = writer.used();
 
         // generat signature
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index dc7a5ff..80bd32a 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -9,6 +9,7 @@ use crate::common::SpdmOpaqueSupport;
 use crate::common::INVALID_SLOT;
 use crate::crypto;
 use crate::error::SpdmResult;
+use crate::error::SPDM_STATUS_BUFFER_FULL;
 use crate::error::SPDM_STATUS_CRYPTO_ERROR;
 use crate::error::SPDM_STATUS_INVALID_MSG_FIELD;
 use crate::error::SPDM_STATUS_INVALID_STATE_LOCAL;
@@ -261,6 +262,9 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
+        if self.replace_too_large_response(writer) {
+            return Err(SPDM_STATUS_BUFFER_FULL);
+        }
         let used = writer.used();
 
         let base_hash_size = self.common.negotiate_info.base_hash_sel.get_size() as usize;
-- 
2.43.0


From 6de58ec86d4f6650ff496a58f31965e16b0ce689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 48/71] fix: reset the challenge transcript alike on both sides

---
 spdmlib/src/common/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index b66d29a..05c8fd8 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -968,12 +968,8 @@ impl<'a> SpdmContext<'a> {
             | SpdmRequestResponseCode::SpdmRequestKeyUpdate
             | SpdmRequestResponseCode::SpdmRequestHeartbeat
             | SpdmRequestResponseCode::SpdmRequestEndSession => {
-                if self.runtime_info.connection_state.get_u8()
-                    < SpdmConnectionState::SpdmConnectionAuthenticated.get_u8()
-                {
-                    self.reset_message_b();
-                    self.reset_message_c();
-                }
+                self.reset_message_b();
+                self.reset_message_c();
             }
             SpdmRequestResponseCode::SpdmRequestGetDigests => {
                 self.reset_message_b();
-- 
2.43.0


From 63df478d281a8234ba0f8857028e6f6fab6c0d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 49/71] fix: do not overflow sequence numbers

---
 spdmlib/src/common/session.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index fc98b2e..a588e51 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -61,6 +61,13 @@ pub struct SpdmSessionSecretParam {
     pub sequence_number: u64,
 }
 
+impl SpdmSessionSecretParam {
+    /// The last sequence number is never used, so that it does not wrap.
+    fn next_sequence_number(&mut self) {
+        self.sequence_number = self.sequence_number.saturating_add(1);
+    }
+}
+
 #[derive(Debug, Clone, Default, Zeroize, ZeroizeOnDrop)]
 pub struct SpdmSessionHandshakeSecret {
     pub request_handshake_secret: SpdmDirectionHandshakeSecretStruct,
@@ -829,7 +836,7 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    self.handshake_secret.request_direction.next_sequence_number();
                     r
                 } else {
                     let r = self.encode_msg(
@@ -837,7 +844,7 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    self.handshake_secret.response_direction.next_sequence_number();
                     r
                 }
             }
@@ -848,7 +855,7 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    self.application_secret.request_direction.next_sequence_number();
                     r
                 } else {
                     let r = self.encode_msg(
@@ -856,7 +863,7 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    self.application_secret.response_direction.next_sequence_number();
                     r
                 }
             }
@@ -879,7 +886,7 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    self.handshake_secret.request_direction.next_sequence_number();
                     r
                 } else {
                     let r = self.decode_msg(
@@ -887,7 +894,7 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    self.handshake_secret.response_direction.next_sequence_number();
                     r
                 }
             }
@@ -898,7 +905,7 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    self.application_secret.request_direction.next_sequence_number();
                     r
                 } else {
                     let r = self.decode_msg(
@@ -906,7 +913,7 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    self.application_secret.response_direction.next_sequence_number();
                     r
                 }
             }
-- 
2.43.0


From e0c7319e06f7dab2686f062bff2892f0528a9970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 50/71] fix: bound the shift for the responder's crypto timeout

---
 spdmlib/src/requester/context.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 9be26cc..e81c4c7 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -122,6 +122,16 @@ impl<'a> RequesterContext<'a> {
         self.common.device_io.send(&transport_buffer[..used])
     }
 
+    /// The time a responder may take for cryptographic operations, 2^(CTExponent + 1)
+    fn crypto_timeout(&self) -> usize {
+        let exponent = self.common.negotiate_info.rsp_ct_exponent_sel as u32;
+        if exponent < usize::BITS - 1 {
+            2usize << exponent
+        } else {
+            usize::MAX
+        }
+    }
+
     pub fn receive_message(
         &mut self,
         receive_buffer: &mut [u8],
@@ -130,7 +140,7 @@ impl<'a> RequesterContext<'a> {
         info!("receive_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            self.crypto_timeout()
         } else {
             ST1
         };
@@ -154,7 +164,7 @@ impl<'a> RequesterContext<'a> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            self.crypto_timeout()
         } else {
             ST1
         };
-- 
2.43.0


From 3a67c7e71321c0febda4c2db802894cb6f210008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 51/71] fix: check buffer sizes when framing and protecting
 messages

---
 pcidoe_transport/src/header.rs | 18 +++++++++++++++++-
 spdmlib/src/common/session.rs  | 13 +++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index b247322..1552140 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -5,7 +5,10 @@
 use codec::enum_builder;
 use codec::{Codec, Reader, Writer};
 use spdmlib::common::SpdmTransportEncap;
-use spdmlib::error::{SpdmResult, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_FAIL};
+use spdmlib::error::{
+    SpdmResult, SPDM_STATUS_DECAP_APP_FAIL, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_APP_FAIL,
+    SPDM_STATUS_ENCAP_FAIL,
+};
 
 enum_builder! {
     @U16
@@ -35,6 +38,9 @@ impl Default for PciDoeDataObjectType {
     }
 }
 
+/// The length field counts at most 2^18 double words, two of which are the header.
+const MAX_PCIDOE_PAYLOAD_LENGTH: usize = (0x40000 << 2) - 8;
+
 #[derive(Debug, Copy, Clone, Default)]
 pub struct PciDoeMessageHeader {
     pub vendor_id: PciDoeVendorId,
@@ -92,6 +98,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
     ) -> SpdmResult<usize> {
         let payload_len = spdm_buffer.len();
         let aligned_payload_len = (payload_len + 3) / 4 * 4;
+        if aligned_payload_len > MAX_PCIDOE_PAYLOAD_LENGTH {
+            return Err(SPDM_STATUS_ENCAP_FAIL);
+        }
         let mut writer = Writer::init(&mut *transport_buffer);
         let pcidoe_header = PciDoeMessageHeader {
             vendor_id: PciDoeVendorId::PciDoeVendorIdPciSig,
@@ -110,6 +119,7 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
             return Err(SPDM_STATUS_ENCAP_FAIL);
         }
         transport_buffer[header_size..(header_size + payload_len)].copy_from_slice(spdm_buffer);
+        transport_buffer[(header_size + payload_len)..(header_size + aligned_payload_len)].fill(0);
         Ok(header_size + aligned_payload_len)
     }
 
@@ -149,6 +159,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &mut [u8],
         _is_app_message: bool,
     ) -> SpdmResult<usize> {
+        if app_buffer.len() < spdm_buffer.len() {
+            return Err(SPDM_STATUS_ENCAP_APP_FAIL);
+        }
         app_buffer[0..spdm_buffer.len()].copy_from_slice(spdm_buffer);
         Ok(spdm_buffer.len())
     }
@@ -158,6 +171,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &[u8],
         spdm_buffer: &mut [u8],
     ) -> SpdmResult<(usize, bool)> {
+        if spdm_buffer.len() < app_buffer.len() {
+            return Err(SPDM_STATUS_DECAP_APP_FAIL);
+        }
         spdm_buffer[0..app_buffer.len()].copy_from_slice(app_buffer);
         Ok((app_buffer.len(), false))
     }
diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index a588e51..fa50b8b 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -934,6 +934,13 @@ impl SpdmSession {
         let cipher_text_size = app_buffer.len() + 2;
         let tag_size = aead_algo.get_tag_size() as usize;
 
+        if app_buffer.len() + 2 > config::SENDER_BUFFER_SIZE
+            || secured_buffer.len()
+                < 6 + transport_param.sequence_number_count as usize + cipher_text_size + tag_size
+        {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
+
         let mut aad_buffer = [0u8; 6 + 8];
         let mut writer = Writer::init(&mut aad_buffer);
         let app_length = app_buffer.len() as u16;
@@ -1048,6 +1055,9 @@ impl SpdmSession {
         let cipher_text_size = length as usize - tag_size;
 
         let mut plain_text_buf = [0; config::RECEIVER_BUFFER_SIZE];
+        if cipher_text_size > plain_text_buf.len() {
+            return Err(SPDM_STATUS_DECODE_AEAD_FAIL);
+        }
 
         let mut salt = secret_param.salt.clone();
         let sequence_number = secret_param.sequence_number;
@@ -1077,6 +1087,9 @@ impl SpdmSession {
             return Err(SPDM_STATUS_DECODE_AEAD_FAIL);
         }
 
+        if app_buffer.len() < app_length {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
         app_buffer[..app_length].copy_from_slice(&plain_text_buf[2..(app_length + 2)]);
         Ok(app_length)
     }
-- 
2.43.0


From 0cd0648e1d261653078a5fe6d5a3eda3f5ab8fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 52/71] fix: drop the connection when the responder requests a
 resynchronisation

---
 .../requester/handle_error_response_req.rs    | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/spdmlib/src/requester/handle_error_response_req.rs b/spdmlib/src/requester/handle_error_response_req.rs
index 560eea4..426abd3 100644
--- a/spdmlib/src/requester/handle_error_response_req.rs
+++ b/spdmlib/src/requester/handle_error_response_req.rs
@@ -4,7 +4,6 @@
 
 use codec::{Codec, Reader};
 
-use crate::common::session::SpdmSessionState;
 use crate::error::{
     SpdmResult, SPDM_STATUS_BUSY_PEER, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD,
     SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_SESSION_MSG_ERROR,
@@ -13,11 +12,7 @@ use crate::message::*;
 use crate::requester::RequesterContext;
 
 impl<'a> RequesterContext<'a> {
-    fn spdm_handle_simple_error_response(
-        &mut self,
-        session_id: Option<u32>,
-        error_code: u8,
-    ) -> SpdmResult {
+    fn spdm_handle_simple_error_response(&mut self, error_code: u8) -> SpdmResult {
         /* NOT_READY is treated as error here.
          * Use spdm_handle_error_response_main to handle NOT_READY message in long latency command.*/
         if error_code == SpdmErrorCode::SpdmErrorResponseNotReady.get_u8() {
@@ -25,14 +20,8 @@ impl<'a> RequesterContext<'a> {
         } else if error_code == SpdmErrorCode::SpdmErrorBusy.get_u8() {
             Err(SPDM_STATUS_BUSY_PEER)
         } else if error_code == SpdmErrorCode::SpdmErrorRequestResynch.get_u8() {
-            if let Some(sid) = session_id {
-                let session = if let Some(s) = self.common.get_session_via_id(sid) {
-                    s
-                } else {
-                    return Err(SPDM_STATUS_INVALID_PARAMETER);
-                };
-                session.set_session_state(SpdmSessionState::SpdmSessionNotStarted);
-            }
+            // the connection must be negotiated anew
+            self.common.reset_context();
             Err(SPDM_STATUS_INVALID_PARAMETER)
         } else {
             Err(SPDM_STATUS_ERROR_PEER)
@@ -82,7 +71,7 @@ impl<'a> RequesterContext<'a> {
             }
             Err(SPDM_STATUS_SESSION_MSG_ERROR)
         } else {
-            self.spdm_handle_simple_error_response(session_id, spdm_message_general_payload.param1)
+            self.spdm_handle_simple_error_response(spdm_message_general_payload.param1)
         }
     }
 }
-- 
2.43.0


From 57110a65e4b25ddb366283796ab4b499bd9de2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 53/71] fix: clear the slot id of ended sessions

---
 spdmlib/src/common/session.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index fa50b8b..0fe6b8c 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -194,6 +194,7 @@ impl SpdmSession {
         self.heartbeat_period = 0;
         self.secure_spdm_version_sel = DMTF_SECURE_SPDM_VERSION_11;
         self.mut_auth_requested = SpdmKeyExchangeMutAuthAttributes::empty();
+        self.slot_id = 0;
     }
 
     pub fn get_session_id(&self) -> u32 {
-- 
2.43.0


From 8daa52441b6f7033fb9056a6fcd7418840b2f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 54/71] fix: keep the X.509 format check within the structures
 it reads

---
 spdmlib/src/crypto/x509v3.rs | 43 ++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/crypto/x509v3.rs b/spdmlib/src/crypto/x509v3.rs
index e1521af..1916f65 100644
--- a/spdmlib/src/crypto/x509v3.rs
+++ b/spdmlib/src/crypto/x509v3.rs
@@ -13,6 +13,7 @@ const ASN1_TAG_CLASS_CONTEXT_SPECIFIC_MASK: u8 = 0x80;
 const ASN1_FORM_CONSTRUCTED_MASK: u8 = 0x20;
 
 const ASN1_TAG_NUMBER_INTEGER: u8 = 0x2;
+const ASN1_TAG_NUMBER_BIT_STRING: u8 = 0x3;
 const ASN1_TAG_NUMBER_OBJECT_IDENTIFIER: u8 = 0x6;
 const ASN1_TAG_NUMBER_SEQUENCE: u8 = 0x10;
 
@@ -69,6 +70,11 @@ fn check_cert_format(cert: &[u8], base_asym_algo: SpdmBaseAsymAlgo) -> SpdmResul
     let (body_size, bytes_consumed) = check_length(&cert[c_walker..])?;
     c_walker += bytes_consumed;
 
+    if len < c_walker + body_size {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+    let cert = &cert[..c_walker + body_size];
+
     if len == c_walker + body_size {
         c_walker += check_tbs_certificate(&cert[c_walker..], base_asym_algo, true)?;
         c_walker += check_signature_algorithm(&cert[c_walker..], base_asym_algo, true)?;
@@ -105,12 +111,14 @@ fn check_tbs_certificate(
     if len < t_walker + tbs_length {
         return Err(SPDM_STATUS_VERIF_FAIL);
     }
+    let data = &data[..t_walker + tbs_length];
 
     // version         [0]  EXPLICIT Version DEFAULT v1,
     let bytes_consumed = check_version(&data[t_walker..])?;
     t_walker += bytes_consumed;
 
     // serialNumber         CertificateSerialNumber,
+    check_tag(&data[t_walker..], ASN1_TAG_NUMBER_INTEGER)?;
     let bytes_consumed = check_and_skip_common_tag(&data[t_walker..])?;
     t_walker += bytes_consumed;
 
@@ -120,10 +128,14 @@ fn check_tbs_certificate(
     let (signature_id_length, bytes_consumed) = check_length(&data[t_walker..])?;
     t_walker += bytes_consumed;
 
+    if data.len() < t_walker + signature_id_length {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+    let signature_id = &data[t_walker..t_walker + signature_id_length];
     if is_leaf_cert {
-        check_object_identifier(&data[t_walker..], get_oid_by_base_asym_algo(base_asym_algo))?;
+        check_object_identifier(signature_id, get_oid_by_base_asym_algo(base_asym_algo))?;
     } else {
-        check_object_identifier(&data[t_walker..], None)?;
+        check_object_identifier(signature_id, None)?;
     }
     t_walker += signature_id_length;
     // issuer               Name,
@@ -139,11 +151,16 @@ fn check_tbs_certificate(
     t_walker += bytes_consumed;
 
     // subjectPublicKeyInfo SubjectPublicKeyInfo,
-    check_public_key_info(&data[t_walker..])?;
+    let bytes_consumed = check_public_key_info(&data[t_walker..])?;
+    t_walker += bytes_consumed;
 
     // issuerUniqueID  [1]  IMPLICIT UniqueIdentifier OPTIONAL,
     // subjectUniqueID [2]  IMPLICIT UniqueIdentifier OPTIONAL,
     // extensions      [3]  EXPLICIT Extensions OPTIONAL
+    while t_walker < data.len() {
+        let bytes_consumed = check_and_skip_common_tag(&data[t_walker..])?;
+        t_walker += bytes_consumed;
+    }
 
     Ok(length_before_tbs + tbs_length)
 }
@@ -160,23 +177,30 @@ fn check_signature_algorithm(
     let (signature_id_length, bytes_consumed) = check_length(&data[s_walker..])?;
     s_walker += bytes_consumed;
 
+    if data.len() < s_walker + signature_id_length {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+    let signature_id = &data[s_walker..s_walker + signature_id_length];
     if is_leaf_cert {
-        check_object_identifier(&data[s_walker..], get_oid_by_base_asym_algo(base_asym_algo))?;
+        check_object_identifier(signature_id, get_oid_by_base_asym_algo(base_asym_algo))?;
     } else {
-        check_object_identifier(&data[s_walker..], None)?;
+        check_object_identifier(signature_id, None)?;
     }
 
     Ok(s_walker + signature_id_length)
 }
 
 fn check_signature_value(data: &[u8], _base_asym_algo: SpdmBaseAsymAlgo) -> SpdmResult<usize> {
+    check_tag(data, ASN1_TAG_NUMBER_BIT_STRING)?;
     check_and_skip_common_tag(data)
 }
 
 fn check_tag_is_sequence(data: &[u8]) -> SpdmResult {
-    if data.is_empty() {
-        Err(SPDM_STATUS_VERIF_FAIL)
-    } else if data[0] == ASN1_TAG_SEQUENCE {
+    check_tag(data, ASN1_TAG_SEQUENCE)
+}
+
+fn check_tag(data: &[u8], tag: u8) -> SpdmResult {
+    if data.first() == Some(&tag) {
         Ok(())
     } else {
         Err(SPDM_STATUS_VERIF_FAIL)
@@ -194,7 +218,8 @@ fn check_length(data: &[u8]) -> SpdmResult<(usize, usize)> {
         Ok((data[0] as usize, 1))
     } else {
         let length_count = data[0] - ASN1_LENGTH_MULTI_OCTET_MASK;
-        if len < (length_count as usize + 1) || length_count == 0 {
+        // no certificate is longer than 4 length octets can tell
+        if len < (length_count as usize + 1) || length_count == 0 || length_count > 4 {
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
             let mut length = [0u8; 8];
-- 
2.43.0


From e83494b5a1d281042b6b96bf4c9611d4de5e1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 55/71] fix: report a hash context that cannot be duplicated

---
 spdmlib/src/common/mod.rs                     | 4 ++--
 spdmlib/src/requester/challenge_req.rs        | 2 +-
 spdmlib/src/requester/get_measurements_req.rs | 4 ++--
 spdmlib/src/responder/challenge_rsp.rs        | 2 +-
 spdmlib/src/responder/measurement_rsp.rs      | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 05c8fd8..90ad618 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -871,7 +871,7 @@ impl<'a> SpdmContext<'a> {
                 .runtime_info
                 .digest_context_th
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
@@ -891,7 +891,7 @@ impl<'a> SpdmContext<'a> {
                 .runtime_info
                 .digest_context_th
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index c9b3c90..8a9c00e 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -178,7 +178,7 @@ impl<'a> RequesterContext<'a> {
                 .runtime_info
                 .digest_context_m1m2
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index dabfce6..c5370f8 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -250,7 +250,7 @@ impl<'a> RequesterContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
                 crypto::hash::hash_ctx_finalize(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?
             }
@@ -265,7 +265,7 @@ impl<'a> RequesterContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
                 crypto::hash::hash_ctx_finalize(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?
             }
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index c4340f9..622dfa5 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -197,7 +197,7 @@ impl<'a> ResponderContext<'a> {
                 .runtime_info
                 .digest_context_m1m2
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index bf39505..0afe63a 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -268,7 +268,7 @@ impl<'a> ResponderContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
@@ -277,7 +277,7 @@ impl<'a> ResponderContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
-- 
2.43.0


From 48b5226b73e62cc00f48c77107afe2c24112f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 56/71] fix: serve PSK sessions also when key exchanges are in
 the clear

---
 spdmlib/src/responder/context.rs    | 3 ++-
 spdmlib/src/responder/finish_rsp.rs | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 8e705d6..40db926 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -245,7 +245,8 @@ impl<'a> ResponderContext<'a> {
                         .negotiate_info
                         .rsp_capabilities_sel
                         .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
-                if in_clear_text {
+                // only the handshake of a KEY_EXCHANGE can be in the clear
+                if in_clear_text && !session.get_use_psk() {
                     return Err(SPDM_STATUS_UNSUPPORTED_CAP);
                 }
 
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 04ff0a2..244ce12 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -33,7 +33,11 @@ impl<'a> ResponderContext<'a> {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         let result = self.write_spdm_finish_response(session_id, bytes, &mut writer);
-        let sent = if in_clear_text {
+        let use_psk = self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .map_or(false, |session| session.get_use_psk());
+        let sent = if in_clear_text && !use_psk {
             self.send_message(writer.used_slice())
         } else {
             self.send_secured_message(session_id, writer.used_slice(), false)
-- 
2.43.0


From b37c5c16fd3ad6c73d1814a66a63252a54e2b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 57/71] fix: bind the exporter secret to the session transcript

The export master secret was expanded with an empty context instead of TH2,
so all PSK sessions of a hint shared one exporter secret.
---
 spdmlib/src/common/key_schedule.rs | 3 ++-
 spdmlib/src/common/session.rs      | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/common/key_schedule.rs b/spdmlib/src/common/key_schedule.rs
index 3c1bcca..1cec3df 100644
--- a/spdmlib/src/common/key_schedule.rs
+++ b/spdmlib/src/common/key_schedule.rs
@@ -355,13 +355,14 @@ impl SpdmKeySchedule {
         hash_algo: SpdmBaseHashAlgo,
         key: Option<&SpdmMasterSecretStruct>,
         psk_hint: Option<&SpdmPskHintStruct>,
+        th2: &[u8],
     ) -> Option<SpdmExportMasterSecretStruct> {
         let buffer = &mut [0; MAX_BIN_CONCAT_BUF_SIZE];
         let bin_str8 = self.binconcat(
             hash_algo.get_size(),
             spdm_version,
             BIN_STR8_LABEL,
-            None,
+            Some(th2),
             buffer,
         )?;
         let okm = if !use_psk {
diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 0fe6b8c..c0b7a50 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -568,6 +568,7 @@ impl SpdmSession {
                     Some(&self.dhe_secret_root.master_secret)
                 },
                 self.runtime_info.psk_hint.as_ref(),
+                th2.as_ref(),
             ) {
             ems
         } else {
-- 
2.43.0


From b2f0812c7bb88eef42992ce5201a8e30d3378f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 58/71] fix: accept ALGORITHMS without session structures at
 version 1.0

SPDM 1.0 has no sessions and no algorithm structures; capability flags that
only later versions define must not demand them.
---
 spdmlib/src/requester/negotiate_algorithms_req.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spdmlib/src/requester/negotiate_algorithms_req.rs b/spdmlib/src/requester/negotiate_algorithms_req.rs
index 54ab613..8e7f50b 100644
--- a/spdmlib/src/requester/negotiate_algorithms_req.rs
+++ b/spdmlib/src/requester/negotiate_algorithms_req.rs
@@ -193,6 +193,13 @@ impl<'a> RequesterContext<'a> {
             return false;
         }
 
+        if self.common.negotiate_info.spdm_version_sel.get_u8()
+            < SpdmVersion::SpdmVersion11.get_u8()
+        {
+            // no sessions, ALGORITHMS has no structures for them
+            return true;
+        }
+
         let req_capabilities = self.common.negotiate_info.req_capabilities_sel;
         let rsp_capabilities = self.common.negotiate_info.rsp_capabilities_sel;
         let key_exchange = req_capabilities.contains(SpdmRequestCapabilityFlags::KEY_EX_CAP)
-- 
2.43.0


From 1b6631e3982fd91e70ea9a5344c370eb70f0c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 59/71] fix: accept ENCAPSULATED_RESPONSE_ACK of version 1.1

Its header has no AckRequestID before version 1.2, the requester compared the
size with the longer header and failed every mutual authentication at 1.1.
---
 spdmlib/src/requester/encap_req.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index d706787..605e201 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -16,7 +16,7 @@ use crate::{
         SpdmEncapsulatedResponseAckPayload, SpdmEncapsulatedResponseAckPayloadType, SpdmErrorCode,
         SpdmGetDigestsRequestPayload, SpdmGetEncapsulatedRequestPayload,
         SpdmKeyExchangeMutAuthAttributes, SpdmMessage, SpdmMessageHeader, SpdmMessagePayload,
-        SpdmRequestResponseCode, ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE,
+        SpdmRequestResponseCode,
     },
     protocol::{
         SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmVersion, SPDM_MAX_SLOT_NUMBER,
@@ -149,7 +149,7 @@ impl<'a> RequesterContext<'a> {
 
         match ack_header.payload_type {
             SpdmEncapsulatedResponseAckPayloadType::Absent => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE {
+                if size == reader.used() {
                     return Ok(false);
                 } else {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
@@ -157,7 +157,7 @@ impl<'a> RequesterContext<'a> {
             }
             SpdmEncapsulatedResponseAckPayloadType::Present => {}
             SpdmEncapsulatedResponseAckPayloadType::ReqSlotNumber => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE + 1 {
+                if size == reader.used() + 1 {
                     let req_slot_id = u8::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
                     if req_slot_id >= SPDM_MAX_SLOT_NUMBER as u8 {
                         return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-- 
2.43.0


From 3d1c416f7068cc6bc3edfc6c33697dd44118526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 60/71] fix: use the responder's slot in the requester's FINISH
 transcript

Unhashed builds computed the FINISH transcript with the slot of the
requester's own chain, so sessions of any other responder slot failed.
---
 spdmlib/src/requester/finish_req.rs       | 13 ++++---------
 spdmlib/src/requester/key_exchange_req.rs |  1 +
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1a14d98..0b4525b 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -90,11 +90,7 @@ impl<'a> RequesterContext<'a> {
             return Err(res.err().unwrap());
         }
         let receive_used = res.unwrap();
-        let res = self.handle_spdm_finish_response(
-            session_id,
-            req_slot_id,
-            &receive_buffer[..receive_used],
-        );
+        let res = self.handle_spdm_finish_response(session_id, &receive_buffer[..receive_used]);
         if res.is_err() {
             if let Some(session) = self.common.get_session_via_id(session_id) {
                 let _ = session.teardown(session_id);
@@ -168,7 +164,7 @@ impl<'a> RequesterContext<'a> {
 
         let transcript_hash =
             self.common
-                .calc_req_transcript_hash(false, req_slot_id, is_mut_auth, session)?;
+                .calc_req_transcript_hash(false, session.get_slot_id(), is_mut_auth, session)?;
 
         let session = self.common.get_session_via_id(session_id).unwrap();
 
@@ -185,7 +181,6 @@ impl<'a> RequesterContext<'a> {
     pub fn handle_spdm_finish_response(
         &mut self,
         session_id: u32,
-        req_slot_id: u8,
         receive_buffer: &[u8],
     ) -> SpdmResult {
         let in_clear_text = self
@@ -240,7 +235,7 @@ impl<'a> RequesterContext<'a> {
 
                             let transcript_hash = self.common.calc_req_transcript_hash(
                                 false,
-                                req_slot_id,
+                                session.get_slot_id(),
                                 is_mut_auth,
                                 session,
                             )?;
@@ -279,7 +274,7 @@ impl<'a> RequesterContext<'a> {
                         // generate the data secret
                         let th2 = self.common.calc_req_transcript_hash(
                             false,
-                            req_slot_id,
+                            session.get_slot_id(),
                             is_mut_auth,
                             session,
                         )?;
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index dcc30f2..5fd90a2 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -269,6 +269,7 @@ impl<'a> RequesterContext<'a> {
 
                             session.set_use_psk(false);
                             session.set_mut_auth_requested(key_exchange_rsp.mut_auth_req);
+                            session.set_slot_id(slot_id);
 
                             session.set_crypto_param(
                                 base_hash_algo,
-- 
2.43.0


From 18edfa82cba4670bf1c51093fca724ca9db6da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 61/71] fix: refuse requester operations before the algorithms
 are negotiated

---
 spdmlib/src/requester/challenge_req.rs        |  2 ++
 spdmlib/src/requester/context.rs              | 12 +++++++++++-
 spdmlib/src/requester/get_certificate_req.rs  |  2 ++
 spdmlib/src/requester/get_digests_req.rs      |  2 ++
 spdmlib/src/requester/get_measurements_req.rs |  2 ++
 spdmlib/src/requester/key_exchange_req.rs     |  2 ++
 spdmlib/src/requester/psk_exchange_req.rs     |  2 ++
 7 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 8a9c00e..04b10f0 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -25,6 +25,8 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_PARAMETER);
         }
 
+        self.check_algorithms_negotiated()?;
+
         self.common
             .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestChallenge, None);
 
diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e81c4c7..450ca37 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -6,7 +6,9 @@ use crate::common::session::SpdmSessionState;
 use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
-use crate::error::{SpdmResult, SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL};
+use crate::error::{
+    SpdmResult, SPDM_STATUS_INVALID_STATE_LOCAL, SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL,
+};
 use crate::protocol::*;
 
 pub struct RequesterContext<'a> {
@@ -88,6 +90,14 @@ impl<'a> RequesterContext<'a> {
         self.send_receive_spdm_end_session(session_id)
     }
 
+    // Requests that rely on the negotiated algorithms need a completed NEGOTIATE_ALGORITHMS.
+    pub(crate) fn check_algorithms_negotiated(&self) -> SpdmResult {
+        if self.common.negotiate_info.base_hash_sel.is_empty() {
+            return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
+        }
+        Ok(())
+    }
+
     pub fn send_message(&mut self, send_buffer: &[u8]) -> SpdmResult {
         if self.common.negotiate_info.rsp_data_transfer_size_sel != 0
             && send_buffer.len() > self.common.negotiate_info.rsp_data_transfer_size_sel as usize
diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index c8e3d06..071b3fd 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -197,6 +197,8 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
 
+        self.check_algorithms_negotiated()?;
+
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestGetCertificate,
             session_id,
diff --git a/spdmlib/src/requester/get_digests_req.rs b/spdmlib/src/requester/get_digests_req.rs
index f890666..d202212 100644
--- a/spdmlib/src/requester/get_digests_req.rs
+++ b/spdmlib/src/requester/get_digests_req.rs
@@ -10,6 +10,8 @@ impl<'a> RequesterContext<'a> {
     pub fn send_receive_spdm_digest(&mut self, session_id: Option<u32>) -> SpdmResult {
         info!("send spdm digest\n");
 
+        self.check_algorithms_negotiated()?;
+
         self.common.reset_buffer_via_request_code(
             SpdmRequestResponseCode::SpdmRequestGetDigests,
             session_id,
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index c5370f8..d620816 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -226,6 +226,8 @@ impl<'a> RequesterContext<'a> {
         //      number of blocks got measured.
         spdm_measurement_record_structure: &mut SpdmMeasurementRecordStructure, // out
     ) -> SpdmResult {
+        self.check_algorithms_negotiated()?;
+
         *out_total_number = self.send_receive_spdm_measurement_record(
             session_id,
             spdm_measuremente_attributes,
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 5fd90a2..daef8b4 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -37,6 +37,8 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_PARAMETER);
         }
 
+        self.check_algorithms_negotiated()?;
+
         let req_session_id = self.common.get_next_half_session_id(true)?;
 
         self.common
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index a137151..acb64dd 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -26,6 +26,8 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult<u32> {
         info!("send spdm psk exchange\n");
 
+        self.check_algorithms_negotiated()?;
+
         let psk_hint = if let Some(hint) = psk_hint {
             hint.clone()
         } else {
-- 
2.43.0


From 61eefdbc2ea4fddc3b583ab3d7b23a607b6b517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:05 +0000
Subject: [PATCH 62/71] fix: serve vendor-defined requests only after the
 negotiation

---
 spdmlib/src/responder/vendor_rsp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spdmlib/src/responder/vendor_rsp.rs b/spdmlib/src/responder/vendor_rsp.rs
index c400d7a..4955311 100644
--- a/spdmlib/src/responder/vendor_rsp.rs
+++ b/spdmlib/src/responder/vendor_rsp.rs
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
 use crate::common::SpdmCodec;
+use crate::common::SpdmConnectionState;
 use crate::error::SpdmResult;
 use crate::message::*;
 use crate::responder::*;
@@ -28,6 +29,12 @@ impl<'a> ResponderContext<'a> {
         bytes: &[u8],
         writer: &mut Writer,
     ) {
+        if self.common.runtime_info.get_connection_state().get_u8()
+            < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return;
+        }
         let mut reader = Reader::init(bytes);
         let message_header = SpdmMessageHeader::read(&mut reader);
         if let Some(message_header) = message_header {
-- 
2.43.0


From 270452fe3aa0f5b278b80ac5813f8fa3e974dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 63/71] fix: exchange encapsulated messages only where mutual
 authentication is requested

---
 spdmlib/src/responder/context.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 40db926..4a1374b 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -250,8 +250,22 @@ impl<'a> ResponderContext<'a> {
                     return Err(SPDM_STATUS_UNSUPPORTED_CAP);
                 }
 
+                #[cfg(feature = "mut-auth")]
+                let mut_auth_requested = !session.get_mut_auth_requested().is_empty();
+
                 match SpdmMessageHeader::read(&mut reader) {
                     Some(message_header) => match message_header.request_response_code {
+                        #[cfg(feature = "mut-auth")]
+                        SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest
+                        | SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse
+                            if !mut_auth_requested =>
+                        {
+                            self.handle_error_request(
+                                SpdmErrorCode::SpdmErrorUnexpectedRequest,
+                                Some(session_id),
+                                bytes,
+                            )
+                        }
                         #[cfg(feature = "mut-auth")]
                         SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest => {
                             self.handle_get_encapsulated_request(session_id, bytes)
-- 
2.43.0


From 2854dd4b8cf3b4eb06fecd733d059fe1f9ffdb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 64/71] fix: refuse a truncated GET_ENCAPSULATED_REQUEST

---
 spdmlib/src/responder/encap_rsp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 4a4d455..d35a33d 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -14,7 +14,8 @@ use crate::{
     message::{
         SpdmDeliverEncapsulatedResponsePayload, SpdmEncapsulatedRequestPayload,
         SpdmEncapsulatedResponseAckPayload, SpdmEncapsulatedResponseAckPayloadType, SpdmErrorCode,
-        SpdmMessage, SpdmMessageHeader, SpdmMessagePayload, SpdmRequestResponseCode,
+        SpdmGetEncapsulatedRequestPayload, SpdmMessage, SpdmMessageHeader, SpdmMessagePayload,
+        SpdmRequestResponseCode,
     },
     protocol::{SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmVersion},
 };
@@ -48,6 +49,11 @@ impl<'a> ResponderContext<'a> {
             return;
         };
 
+        if SpdmGetEncapsulatedRequestPayload::spdm_read(&mut self.common, &mut reader).is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            return;
+        }
+
         let encapsulated_request = SpdmMessage {
             header: SpdmMessageHeader {
                 version: self.common.negotiate_info.spdm_version_sel,
-- 
2.43.0


From 7689b6fda5fb73da98c4ee05ff9da19de0f76296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 65/71] fix: match the acknowledged encapsulated request id
 with the one delivered

---
 spdmlib/src/common/mod.rs          |  2 ++
 spdmlib/src/requester/encap_req.rs | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 90ad618..594b5db 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -1516,4 +1516,6 @@ pub struct SpdmEncapContext {
     pub req_slot_id: u8,
     pub request_id: u8,
     pub encap_cert_size: u16,
+    // the request id of the encapsulated response that waits for its acknowledgement
+    pub delivered_request_id: Option<u8>,
 }
diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 605e201..59f68b2 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -147,6 +147,17 @@ impl<'a> RequesterContext<'a> {
             SpdmEncapsulatedResponseAckPayload::spdm_read(&mut self.common, &mut reader)
                 .ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
+        // the acknowledgement shall be for the response that was delivered
+        if self.common.negotiate_info.spdm_version_sel.get_u8()
+            >= SpdmVersion::SpdmVersion12.get_u8()
+        {
+            if let Some(delivered) = self.common.encap_context.delivered_request_id.take() {
+                if ack_header.ack_request_id != delivered {
+                    return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                }
+            }
+        }
+
         match ack_header.payload_type {
             SpdmEncapsulatedResponseAckPayloadType::Absent => {
                 if size == reader.used() {
@@ -221,6 +232,8 @@ impl<'a> RequesterContext<'a> {
             ),
         }
 
-        self.send_secured_message(session_id, writer.used_slice(), false)
+        self.send_secured_message(session_id, writer.used_slice(), false)?;
+        self.common.encap_context.delivered_request_id = Some(request_id);
+        Ok(())
     }
 }
-- 
2.43.0


From 05e6b5bd9658f0541071ee09b2d0367aae5575cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 66/71] fix: handle error responses to encapsulated requests
 like any other

---
 spdmlib/src/requester/encap_req.rs | 36 +++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 59f68b2..456f6c3 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -113,12 +113,22 @@ impl<'a> RequesterContext<'a> {
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
-        if self.common.negotiate_info.spdm_version_sel != header.version
-            || header.request_response_code
-                != SpdmRequestResponseCode::SpdmResponseEncapsulatedRequest
-        {
+        if self.common.negotiate_info.spdm_version_sel != header.version {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
+        match header.request_response_code {
+            SpdmRequestResponseCode::SpdmResponseEncapsulatedRequest => {}
+            SpdmRequestResponseCode::SpdmResponseError => {
+                self.spdm_handle_error_response_main(
+                    Some(session_id),
+                    &receive_buffer[..size],
+                    SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest,
+                    SpdmRequestResponseCode::SpdmResponseEncapsulatedRequest,
+                )?;
+                return Err(SPDM_STATUS_ERROR_PEER);
+            }
+            _ => return Err(SPDM_STATUS_INVALID_MSG_FIELD),
+        }
         let encapsulated_request =
             SpdmEncapsulatedRequestPayload::spdm_read(&mut self.common, &mut reader)
                 .ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
@@ -137,12 +147,22 @@ impl<'a> RequesterContext<'a> {
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
-        if self.common.negotiate_info.spdm_version_sel != header.version
-            || header.request_response_code
-                != SpdmRequestResponseCode::SpdmResponseEncapsulatedResponseAck
-        {
+        if self.common.negotiate_info.spdm_version_sel != header.version {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
+        match header.request_response_code {
+            SpdmRequestResponseCode::SpdmResponseEncapsulatedResponseAck => {}
+            SpdmRequestResponseCode::SpdmResponseError => {
+                self.spdm_handle_error_response_main(
+                    Some(session_id),
+                    &receive_buffer[..size],
+                    SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse,
+                    SpdmRequestResponseCode::SpdmResponseEncapsulatedResponseAck,
+                )?;
+                return Err(SPDM_STATUS_ERROR_PEER);
+            }
+            _ => return Err(SPDM_STATUS_INVALID_MSG_FIELD),
+        }
         let ack_header =
             SpdmEncapsulatedResponseAckPayload::spdm_read(&mut self.common, &mut reader)
                 .ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
-- 
2.43.0


From 7052835732d1796d956b5bd007258de17a8ca08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 67/71] fix: take the measurement change indication only from
 an accepted response

---
 spdmlib/src/requester/get_measurements_req.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index d620816..24f0bcd 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -130,13 +130,6 @@ impl<'a> RequesterContext<'a> {
                         if let Some(measurements) = measurements {
                             debug!("!!! measurements : {:02x?}\n", measurements);
 
-                            if self.common.negotiate_info.spdm_version_sel.get_u8()
-                                >= SpdmVersion::SpdmVersion12.get_u8()
-                            {
-                                self.common.runtime_info.content_changed =
-                                    measurements.content_changed;
-                            }
-
                             let temp_used = used
                                 - if self.common.runtime_info.need_measurement_signature {
                                     self.common.negotiate_info.base_asym_sel.get_size() as usize
@@ -179,6 +172,13 @@ impl<'a> RequesterContext<'a> {
                                 }
                             }
 
+                            if self.common.negotiate_info.spdm_version_sel.get_u8()
+                                >= SpdmVersion::SpdmVersion12.get_u8()
+                            {
+                                self.common.runtime_info.content_changed =
+                                    measurements.content_changed;
+                            }
+
                             *spdm_measurement_record_structure = SpdmMeasurementRecordStructure {
                                 ..measurements.measurement_record
                             };
-- 
2.43.0


From 8d3321797f11d49a3fd10c6b643ff6e9983ffd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:54 +0000
Subject: [PATCH 68/71] fix: do not take application data for the answer to a
 request

---
 spdmlib/src/common/mod.rs                     | 18 +++++++---
 spdmlib/src/requester/context.rs              | 33 +++++++++++++++++--
 spdmlib/src/requester/encap_req.rs            |  4 +--
 spdmlib/src/requester/end_session_req.rs      |  2 +-
 spdmlib/src/requester/finish_req.rs           |  2 +-
 spdmlib/src/requester/get_certificate_req.rs  |  2 +-
 spdmlib/src/requester/get_digests_req.rs      |  2 +-
 spdmlib/src/requester/get_measurements_req.rs |  2 +-
 spdmlib/src/requester/heartbeat_req.rs        |  2 +-
 spdmlib/src/requester/key_update_req.rs       |  2 +-
 spdmlib/src/requester/psk_finish_req.rs       |  2 +-
 spdmlib/src/requester/vendor_req.rs           |  2 +-
 12 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 594b5db..7749f15 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -1033,6 +1033,17 @@ impl<'a> SpdmContext<'a> {
         transport_buffer: &[u8],
         receive_buffer: &mut [u8],
     ) -> SpdmResult<usize> {
+        self.decode_secured_message_with_type(session_id, transport_buffer, receive_buffer)
+            .map(|(used, _)| used)
+    }
+
+    /// Like decode_secured_message, also tells whether it is an application message.
+    pub fn decode_secured_message_with_type(
+        &mut self,
+        session_id: u32,
+        transport_buffer: &[u8],
+        receive_buffer: &mut [u8],
+    ) -> SpdmResult<(usize, bool)> {
         let mut encoded_receive_buffer = [0u8; config::RECEIVER_BUFFER_SIZE];
         let (used, secured_message) = self
             .transport_encap
@@ -1053,11 +1064,8 @@ impl<'a> SpdmContext<'a> {
             false,
         )?;
 
-        let used = self
-            .transport_encap
-            .decap_app(&app_buffer[0..decode_size], receive_buffer)?;
-
-        Ok(used.0)
+        self.transport_encap
+            .decap_app(&app_buffer[0..decode_size], receive_buffer)
     }
 }
 
diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 450ca37..63d3094 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -7,7 +7,8 @@ use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
 use crate::error::{
-    SpdmResult, SPDM_STATUS_INVALID_STATE_LOCAL, SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL,
+    SpdmResult, SPDM_STATUS_DECAP_APP_FAIL, SPDM_STATUS_INVALID_STATE_LOCAL,
+    SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL,
 };
 use crate::protocol::*;
 
@@ -171,6 +172,29 @@ impl<'a> RequesterContext<'a> {
         receive_buffer: &mut [u8],
         crypto_request: bool,
     ) -> SpdmResult<usize> {
+        self.receive_secured_message_with_type(session_id, receive_buffer, crypto_request)
+            .map(|(used, _)| used)
+    }
+
+    /// Receives the secured answer to an SPDM request: application data is none.
+    pub(crate) fn receive_secured_spdm_message(
+        &mut self,
+        session_id: u32,
+        receive_buffer: &mut [u8],
+        crypto_request: bool,
+    ) -> SpdmResult<usize> {
+        match self.receive_secured_message_with_type(session_id, receive_buffer, crypto_request)? {
+            (used, false) => Ok(used),
+            (_, true) => Err(SPDM_STATUS_DECAP_APP_FAIL),
+        }
+    }
+
+    fn receive_secured_message_with_type(
+        &mut self,
+        session_id: u32,
+        receive_buffer: &mut [u8],
+        crypto_request: bool,
+    ) -> SpdmResult<(usize, bool)> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
@@ -187,7 +211,10 @@ impl<'a> RequesterContext<'a> {
             .receive(&mut transport_buffer, timeout)
             .map_err(|_| SPDM_STATUS_RECEIVE_FAIL)?;
 
-        self.common
-            .decode_secured_message(session_id, &transport_buffer[..used], receive_buffer)
+        self.common.decode_secured_message_with_type(
+            session_id,
+            &transport_buffer[..used],
+            receive_buffer,
+        )
     }
 }
diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 456f6c3..3d82db9 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -108,7 +108,7 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let size = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
@@ -142,7 +142,7 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let size = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
diff --git a/spdmlib/src/requester/end_session_req.rs b/spdmlib/src/requester/end_session_req.rs
index 6260369..1594e4f 100644
--- a/spdmlib/src/requester/end_session_req.rs
+++ b/spdmlib/src/requester/end_session_req.rs
@@ -23,7 +23,7 @@ impl<'a> RequesterContext<'a> {
         self.send_secured_message(session_id, &send_buffer[..used], false)?;
 
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         self.handle_spdm_end_session_response(session_id, &receive_buffer[..used])
     }
 
diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 0b4525b..2ca5772 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -79,7 +79,7 @@ impl<'a> RequesterContext<'a> {
         let res = if in_clear_text {
             self.receive_message(&mut receive_buffer, false)
         } else {
-            self.receive_secured_message(session_id, &mut receive_buffer, false)
+            self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)
         };
         if res.is_err() {
             let _ = self
diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 071b3fd..96207c0 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -37,7 +37,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
diff --git a/spdmlib/src/requester/get_digests_req.rs b/spdmlib/src/requester/get_digests_req.rs
index d202212..13ac092 100644
--- a/spdmlib/src/requester/get_digests_req.rs
+++ b/spdmlib/src/requester/get_digests_req.rs
@@ -31,7 +31,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 24f0bcd..a2d7632 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -53,7 +53,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, true)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, true)?
             }
             None => self.receive_message(&mut receive_buffer, true)?,
         };
diff --git a/spdmlib/src/requester/heartbeat_req.rs b/spdmlib/src/requester/heartbeat_req.rs
index 33eef0e..5504103 100644
--- a/spdmlib/src/requester/heartbeat_req.rs
+++ b/spdmlib/src/requester/heartbeat_req.rs
@@ -21,7 +21,7 @@ impl<'a> RequesterContext<'a> {
 
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         self.handle_spdm_heartbeat_response(session_id, &receive_buffer[..used])
     }
 
diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 8ec2651..97f25ab 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -39,7 +39,7 @@ impl<'a> RequesterContext<'a> {
         let update_responder = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
         session.create_data_secret_update(spdm_version_sel, update_requester, update_responder)?;
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let result = match self.receive_secured_message(session_id, &mut receive_buffer, false) {
+        let result = match self.receive_secured_spdm_message(session_id, &mut receive_buffer, false) {
             Ok(used) => self.handle_spdm_key_update_op_response(
                 session_id,
                 key_update_operation,
diff --git a/spdmlib/src/requester/psk_finish_req.rs b/spdmlib/src/requester/psk_finish_req.rs
index a33051e..acb69f5 100644
--- a/spdmlib/src/requester/psk_finish_req.rs
+++ b/spdmlib/src/requester/psk_finish_req.rs
@@ -47,7 +47,7 @@ impl<'a> RequesterContext<'a> {
         }
 
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let res = self.receive_secured_message(session_id, &mut receive_buffer, false);
+        let res = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false);
         if res.is_err() {
             let _ = self
                 .common
diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index acaaa28..9147318 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -51,7 +51,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
-- 
2.43.0


From 909ba6bd2f8043a8f544fc72a76a66493b26b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:15 +0000
Subject: [PATCH 69/71] fix: fail when the random source fills less than the
 whole buffer

---
 spdmlib/src/crypto/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/crypto/mod.rs b/spdmlib/src/crypto/mod.rs
index 2bdccb9..8ab2575 100644
--- a/spdmlib/src/crypto/mod.rs
+++ b/spdmlib/src/crypto/mod.rs
@@ -425,7 +425,7 @@ pub mod aead {
 pub mod rand {
     use super::CRYPTO_RAND;
     use crate::crypto::SpdmCryptoRandom;
-    use crate::error::{SpdmResult, SPDM_STATUS_INVALID_STATE_LOCAL};
+    use crate::error::{SpdmResult, SPDM_STATUS_CRYPTO_ERROR, SPDM_STATUS_INVALID_STATE_LOCAL};
 
     #[cfg(not(any(feature = "spdm-ring")))]
     static DEFAULT: SpdmCryptoRandom = SpdmCryptoRandom {
@@ -440,10 +440,15 @@ pub mod rand {
     }
 
     pub fn get_random(data: &mut [u8]) -> SpdmResult<usize> {
-        (CRYPTO_RAND
+        let size = (CRYPTO_RAND
             .try_get_or_init(|| DEFAULT.clone())
             .map_err(|_| SPDM_STATUS_INVALID_STATE_LOCAL)?
-            .get_random_cb)(data)
+            .get_random_cb)(data)?;
+        // callers use the whole buffer: never let part of it stay unfilled
+        if size != data.len() {
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        Ok(size)
     }
 }
 
-- 
2.43.0


From 0907371efe7b4a40c298e4a0b64cefe0a40c0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:38 +0000
Subject: [PATCH 70/71] fix: do not select an unused secured message version
 entry

An entry of the configured secured message version list that is zero is
unused, but a requester offering version 0.0 matched it, and the responder
selected secured message version 0.0.
---
 spdmlib/src/responder/key_exchange_rsp.rs | 8 +++++---
 spdmlib/src/responder/psk_exchange_rsp.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 7243894..09f8102 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -127,9 +127,11 @@ impl<'a> ResponderContext<'a> {
                 }
                 for index in 0..secured_message_version_list.version_count as usize {
                     for local_version in self.common.config_info.secure_spdm_version {
-                        if secured_message_version_list.versions_list[index]
-                            .get_secure_spdm_version()
-                            == local_version
+                        // a zero entry is unused
+                        if local_version != 0
+                            && secured_message_version_list.versions_list[index]
+                                .get_secure_spdm_version()
+                                == local_version
                         {
                             if self.common.negotiate_info.spdm_version_sel.get_u8()
                                 < SpdmVersion::SpdmVersion12.get_u8()
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 80bd32a..af67e73 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -122,9 +122,11 @@ impl<'a> ResponderContext<'a> {
                 }
                 for index in 0..secured_message_version_list.version_count as usize {
                     for local_version in self.common.config_info.secure_spdm_version {
-                        if secured_message_version_list.versions_list[index]
-                            .get_secure_spdm_version()
-                            == local_version
+                        // a zero entry is unused
+                        if local_version != 0
+                            && secured_message_version_list.versions_list[index]
+                                .get_secure_spdm_version()
+                                == local_version
                         {
                             if self.common.negotiate_info.spdm_version_sel.get_u8()
                                 < SpdmVersion::SpdmVersion12.get_u8()
-- 
2.43.0


From a5fb6877b01825187e6bfb9b6f9e1e8d63af6e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 71/71] fix: refuse certificate chains larger than the chain
 buffer

---
 spdmlib/src/protocol/algo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 87794bd..a7a1da7 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -870,7 +870,7 @@ impl SpdmCertChainBuffer {
     /// This function generate the SpdmCertChainBuffer from a x509 certificates chain.
     ///
     pub fn new(cert_chain: &[u8], root_cert_hash: &[u8]) -> Option<Self> {
-        if cert_chain.len() + 4 + root_cert_hash.len() > u16::MAX as usize {
+        if cert_chain.len() + 4 + root_cert_hash.len() > SPDM_MAX_CERT_CHAIN_BUFFER_SIZE {
             return None;
         }
 
-- 
2.43.0

