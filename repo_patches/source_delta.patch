From 8791254fb768851a68f133e45b293e32732f3d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 01/37] fix: derive the nonce with the full length of the Base
 IV

The XOR of Base IV and Partial IV dropped leading zero bytes, so the
nonce was shorter than the Base IV (RFC 8152 section 3.1).
---
 pycose/messages/enccommon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index f399270..8a02964 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -84,7 +84,7 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
         if nonce is None and self.key.base_iv != b'':
             partial_iv = self.get_attr(headers.PartialIV)
             nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")
-            nonce = nonce.to_bytes((nonce.bit_length() + 7) // 8, byteorder="big")
+            nonce = nonce.to_bytes(len(self.key.base_iv), byteorder="big")
 
         if nonce is None and self.key.base_iv == b'':
             raise CoseException('No IV found')
-- 
2.43.0


From 3a2b4be843f6fb7081882e7268a9f1caf9dce274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 02/37] fix: always include the signer's protected header in
 the Sig_structure

RFC 8152 section 4.4: sign_protected is a zero-length bstr when the signer
has no protected header; it was left out, so external_aad took its place.
---
 pycose/messages/signer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index a186388..113cfb9 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -50,12 +50,14 @@ class CoseSignature(SignCommon):
         self._payload = value
 
     def _create_sig_structure(self, detached_payload: Optional[bytes] = None):
-        sign_structure = [self._parent.context, self._parent.phdr_encoded]
+        sign_structure = [self._parent.context]
 
-        if len(self.phdr):
-            sign_structure.append(self.phdr_encoded)
+        if len(self._parent.phdr):
+            sign_structure.append(self._parent.phdr_encoded)
+        else:
+            sign_structure.append(b'')
 
-        sign_structure.append(self.external_aad)
+        sign_structure = self._base_structure(sign_structure)
 
         if detached_payload is None:
             if self._parent.payload is None:
-- 
2.43.0


From 06045908e9b30307eb28a8b855aec982891c4aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 03/37] fix: return the default of get_attr instead of
 reporting a duplicate header

---
 pycose/messages/cosebase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index d5b5754..799657d 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -69,16 +69,18 @@ class CoseBase(metaclass=abc.ABCMeta):
         :returns: If found returns a header attribute else 'None' or the default value
         """
 
-        p_attr = self._phdr.get(attribute, default)
-        u_attr = self._uhdr.get(attribute, default)
+        p_attr = self._phdr.get(attribute)
+        u_attr = self._uhdr.get(attribute)
 
         if p_attr is not None and u_attr is not None:
             raise CoseException("MALFORMED: different values for the same header parameters in the header buckets")
 
         if p_attr is not None:
             return p_attr
-        else:
+        elif u_attr is not None:
             return u_attr
+        else:
+            return default
 
     @property
     def phdr(self) -> dict:
-- 
2.43.0


From b3f347aca10e191c53da27028dbd5f4cba1fe65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 04/37] fix: validate all key operations before storing any of
 them

A rejected key_ops assignment left the illegal operations in the key, and
assigning an empty list had no effect.
---
 pycose/keys/ec2.py       | 3 +--
 pycose/keys/okp.py       | 3 +--
 pycose/keys/rsa.py       | 3 +--
 pycose/keys/symmetric.py | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 57fcd4c..f2562df 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -253,8 +253,7 @@ class EC2Key(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {EC2Key.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'EC2Key':
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 7950ef0..5c07c04 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -218,8 +218,7 @@ class OKPKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {OKPKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'OKPKey':
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index c2d7b45..3aad863 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -296,8 +296,7 @@ class RSAKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_bits: int, optional_params: dict = None) -> 'RSAKey':
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index a66fdae..1d3a180 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -104,8 +104,7 @@ class SymmetricKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {SymmetricKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_len: int, optional_params: dict = None) -> 'SymmetricKey':
-- 
2.43.0


From cecf36d81f531333f69ed97f09e849f42003176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 05/37] fix: do not delete the only key value of an OKP key

---
 pycose/keys/okp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 5c07c04..5b4ee9a 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -245,7 +245,7 @@ class OKPKey(CoseKey):
         if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
             if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
                 pass
-            if self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
-- 
2.43.0


From ee0090f0c6e0dfbd47a56babfe54eab6c2ef3c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 06/37] fix: assigning recipients replaces the recipient list

The setter appended to the previous list, and kept a part of a rejected one.
---
 pycose/messages/encmessage.py | 2 +-
 pycose/messages/recipient.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index cc43e07..b60f1d7 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -135,7 +135,7 @@ class EncMessage(enccommon.EncCommon):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 69ab52a..a6c540e 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -145,7 +145,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def get_kdf_context(self, algorithm: '_EncAlg') -> 'CoseKDFContext':
         """
-- 
2.43.0


From 1ece0336497013d0fafd4e5b309b7189a08759c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 07/37] fix: a COSE_Mac message without recipients has an empty
 recipient list

It was None, on which encode and compute_tag fail with a TypeError.
---
 pycose/messages/macmessage.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 94befe8..6cf7198 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -58,6 +58,21 @@ class MacMessage(maccommon.MacCommon):
         self._recipients = []
         self.recipients = recipients
 
+    @property
+    def recipients(self) -> List[CoseRecipient]:
+        return self._recipients
+
+    @recipients.setter
+    def recipients(self, recipients: Optional[List[CoseRecipient]]) -> None:
+
+        if recipients is None:
+            self._recipients = []
+        else:
+            for r in recipients:
+                if not issubclass(type(r), CoseRecipient):
+                    raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
+            self._recipients = list(recipients)
+
     def encode(self, tag: bool = True, mac: bool = True, *args, **kwargs) -> CBOR:
         """ Encodes and protects the COSE_Mac message. """
 
-- 
2.43.0


From 562d41483ffb5b89b5ed980a737ca1fc9c5a6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 08/37] fix: has_recipient keeps a match found in an earlier
 recipient's subtree

---
 pycose/messages/recipient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index a6c540e..b0382a4 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -84,7 +84,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
                 return True
             else:
                 if len(r.recipients):
-                    found = r.has_recipient(target, r.recipients)
+                    found = found or r.has_recipient(target, r.recipients)
 
         return found
 
-- 
2.43.0


From 44f444e1c92cf7e7791eefe31be3980df19fd69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 09/37] fix: report malformed recipients instead of dropping
 all recipients

A ValueError or IndexError raised while parsing a recipient was taken for a
message without a recipients array.
---
 pycose/messages/encmessage.py | 10 ++++++----
 pycose/messages/macmessage.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index b60f1d7..c79b5e6 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -27,10 +27,12 @@ class EncMessage(enccommon.EncCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         try:
-            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
-                              in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = []
+            recipients = cose_obj.pop(0)
+        except IndexError:
+            recipients = []
+
+        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
+                          in recipients]
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 6cf7198..b84fe49 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -36,10 +36,12 @@ class MacMessage(maccommon.MacCommon):
         msg.auth_tag = cose_obj.pop(0)
 
         try:
-            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
-                              in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = None
+            recipients = cose_obj.pop(0)
+        except IndexError:
+            recipients = []
+
+        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
+                          in recipients]
 
         return msg
 
-- 
2.43.0


From 54aef35ee4fcd7190f81c40a7c83ee1c45b62894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 10/37] fix: give all recipients of a message the same CEK

A recipient before one with a preset CEK received another, random CEK, with
which the content cannot be decrypted.
---
 pycose/messages/encmessage.py | 12 +++++++-----
 pycose/messages/macmessage.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index c79b5e6..f5ea37e 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -88,12 +88,14 @@ class EncMessage(enccommon.EncCommon):
             payload = super(EncMessage, self).encrypt()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # all recipients share one CEK: the one that was already set or else a new one
+            ceks = {r.payload for r in self.recipients if r.payload != b''}
+            if len(ceks) > 1:
+                raise CoseException('The recipients carry different CEKs')
+            key_bytes = ceks.pop() if ceks else os.urandom(target_algorithm.get_key_length())
+
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                r.payload = key_bytes
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [EncryptOp]})
             payload = super(EncMessage, self).encrypt()
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index b84fe49..888399c 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -103,13 +103,14 @@ class MacMessage(maccommon.MacCommon):
             payload = super(MacMessage, self).compute_tag()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # all recipients share one CEK: the one that was already set or else a new one
+            ceks = {r.payload for r in self.recipients if r.payload != b''}
+            if len(ceks) > 1:
+                raise CoseException('The recipients carry different CEKs')
+            key_bytes = ceks.pop() if ceks else os.urandom(target_algorithm.get_key_length())
 
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                r.payload = key_bytes
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, alg=target_algorithm, key_ops=[MacCreateOp])
             payload = super(MacMessage, self).compute_tag()
-- 
2.43.0


From 5576de6f52d9838664b9404f22ca53eee4c1da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 11/37] fix: compute the tag of a COSE_Mac message with key
 wrap recipients

SymmetricKey was not imported at run time and called with unknown arguments.
---
 pycose/messages/macmessage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 888399c..c7a8c0c 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -15,12 +15,14 @@ from typing import Optional, List, TYPE_CHECKING
 from pycose import utils, headers
 from pycose.exceptions import CoseException
 from pycose.keys.keyops import MacCreateOp
+from pycose.keys.keyparam import KpAlg, KpKeyOps
+from pycose.keys.symmetric import SymmetricKey
 from pycose.messages import cosemessage, maccommon
 from pycose.messages.recipient import CoseRecipient, DirectEncryption, DirectKeyAgreement, KeyWrap, \
     KeyAgreementWithKeyWrap
 
 if TYPE_CHECKING:
-    from pycose.keys.symmetric import SK, SymmetricKey
+    from pycose.keys.symmetric import SK
 
 CBOR = bytes
 
@@ -112,7 +114,7 @@ class MacMessage(maccommon.MacCommon):
             for r in self.recipients:
                 r.payload = key_bytes
                 r.encrypt(target_algorithm)
-            self.key = SymmetricKey(k=key_bytes, alg=target_algorithm, key_ops=[MacCreateOp])
+            self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
 
         else:
-- 
2.43.0


From cf3492a8d13598768a2f793b76d32a6dee3c411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 12/37] fix: use the transmitted protected header bytes in the
 KDF context

RFC 8152 section 11.2: SuppPubInfo.protected is the protected header of the
recipient, a zero-length bstr when empty. It was re-encoded from the parsed
map (so both sides could derive different keys), and a0 when empty.
---
 pycose/messages/context.py   | 14 +++++++++++---
 pycose/messages/recipient.py |  4 +++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index d21e4b4..9816026 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -1,4 +1,4 @@
-from typing import TYPE_CHECKING, Optional
+from typing import TYPE_CHECKING, Optional, Union
 
 import attr
 import cbor2
@@ -24,7 +24,7 @@ class PartyInfo:
 @attr.s(slots=True)
 class SuppPubInfo:
     _key_data_length: int = attr.ib()
-    protected: dict = attr.ib(factory=dict)
+    protected: Union[dict, bytes] = attr.ib(factory=dict)
     other: bytes = attr.ib(default=b'')
 
     @property
@@ -49,7 +49,15 @@ class SuppPubInfo:
     def encode(self) -> list:
         """ Encodes the supplementary public information. """
 
-        info = [self.key_data_length * 8, cbor2.dumps(self.protected, default=self._custom_cbor_encoder)]
+        if isinstance(self.protected, bytes):
+            # already encoded
+            protected = self.protected
+        elif len(self.protected):
+            protected = cbor2.dumps(self.protected, default=self._custom_cbor_encoder)
+        else:
+            protected = b''
+
+        info = [self.key_data_length * 8, protected]
         if self.other != b'':
             info.append(self.other)
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index b0382a4..559d600 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -165,7 +165,9 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         v_other = self.get_attr(headers.PartyVOther)
         v = PartyInfo(v_id, v_nonce, v_other)
 
-        supp_pub = SuppPubInfo(algorithm.get_key_length(), self.phdr, self.local_attrs.get(headers.SuppPubOther, b''))
+        # use the protected header exactly as it is (or was) transmitted
+        protected = self.phdr_encoded if len(self.phdr) else b''
+        supp_pub = SuppPubInfo(algorithm.get_key_length(), protected, self.local_attrs.get(headers.SuppPubOther, b''))
         supp_priv = self.local_attrs.get(headers.SuppPrivOther, b'')
 
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
-- 
2.43.0


From 06ed6f18799a6321111e8b85c1b3cb63a811514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 13/37] fix: check the key length of a new SuppPubInfo

---
 pycose/messages/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index 9816026..9713fb5 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -42,7 +42,7 @@ class SuppPubInfo:
         else:
             raise ValueError(f"Not a valid key length: {new_length}")
 
-    def __attrs_post__init__(self):
+    def __attrs_post_init__(self):
         if self._key_data_length not in [16, 24, 32]:
             raise ValueError(f"Not a valid key length: {self._key_data_length}")
 
-- 
2.43.0


From 2c8d1ea57e95710ce65074f61a2043bae92e024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 14/37] fix: verify an X5Chain that holds a single certificate

A one-element chain is stored as bytes, whose first byte was taken as the
end-entity certificate.
---
 pycose/extensions/x509.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index 5c1aacb..81dcab4 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -74,9 +74,11 @@ class X5Chain:
             self.verify_chain({'digital_signature'})
 
     def verify_chain(self, key_usage: Set[str]):
+        chain = self.cert_chain if isinstance(self.cert_chain, list) else [self.cert_chain]
+
         val = CertificateValidator(
-            end_entity_cert=self.cert_chain[0],
-            intermediate_certs=self.cert_chain[1:],
+            end_entity_cert=chain[0],
+            intermediate_certs=chain[1:],
         )
         return val.validate_usage(key_usage)
 
-- 
2.43.0


From 93cc492166245695c9cb872ec6b59b2da7e955b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 15/37] fix: set kty from the key type registry, not the key
 parameter registry

---
 pycose/keys/cosekey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 119840b..1c0ccc8 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -13,6 +13,7 @@ from pycose.exceptions import CoseException, CoseIllegalKeyType, CoseIllegalAlgo
 from pycose.headers import EphemeralKey, StaticKey
 from pycose.keys.keyops import KeyOps
 from pycose.keys.keyparam import KpKty, KpKeyOps, KpAlg, KpKid, KpBaseIV, KeyParam
+from pycose.keys.keytype import KTY
 
 if TYPE_CHECKING:
     from pycose.headers import CoseHeaderAttribute
@@ -231,7 +232,7 @@ class CoseKey(MutableMapping, ABC):
 
     @kty.setter
     def kty(self, kty: Any):
-        self.store[KpKty] = KpKty.from_id(kty)
+        self.store[KpKty] = KTY.from_id(kty)
 
     @property
     def alg(self) -> Optional[Type['CoseAlg']]:
-- 
2.43.0


From 50249302ecf4c939ce6f9eed8d3179499fa34dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 16/37] fix: give SHAKE128 and SHAKE256 their digest sizes (RFC
 9054)

---
 pycose/algorithms.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 8a2b4c0..4725e9e 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -435,6 +435,10 @@ class Shake256(_HashAlg):
     fullname = "SHAKE-256"
     hash_cls = SHAKE256
 
+    @classmethod
+    def get_hash_func(cls) -> HashAlgorithm:
+        return cls.hash_cls(digest_size=64)
+
 
 @CoseAlgorithm.register_attribute()
 class Sha512(_HashAlg):
@@ -875,6 +879,10 @@ class Shake128(_HashAlg):
     fullname = "SHAKE-128"
     hash_cls = SHAKE128
 
+    @classmethod
+    def get_hash_func(cls) -> HashAlgorithm:
+        return cls.hash_cls(digest_size=32)
+
 
 @CoseAlgorithm.register_attribute()
 class Sha512Trunc256(_HashAlg):
-- 
2.43.0


From 23ad2800aee327bcdc0f66adeee61ca7d7bc142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 17/37] fix: X448 public values are 56 bytes long

---
 pycose/keys/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/curves.py b/pycose/keys/curves.py
index 056ecea..f817793 100644
--- a/pycose/keys/curves.py
+++ b/pycose/keys/curves.py
@@ -170,14 +170,14 @@ class X448(CoseCurve):
 
         **key_type**       *KtyOKP*
 
-        **size**           *57*
+        **size**           *56*
     """
 
     identifier = 5
     fullname = "X448"
     curve_obj = x448.X448PrivateKey
     key_type = KtyOKP
-    size = 57
+    size = 56
 
 
 @CoseCurve.register_attribute()
-- 
2.43.0


From 007f1470ac0eefbd6194d17371443a08302b6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 18/37] fix: enforce the alg and key_ops of the key encryption
 key of a KeyWrap recipient

Only a copy with other attributes was checked, so a key restricted to another
algorithm or operation was used to wrap and unwrap.
---
 pycose/messages/recipient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 559d600..06cc82a 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -338,6 +338,8 @@ class KeyWrap(CoseRecipient):
 
         elif alg in {A128KW, A192KW, A256KW}:
             key_ops = [WrapOp, EncryptOp]
+            if self.key is not None:
+                self.key.verify(SymmetricKey, alg, key_ops)
             kek = SymmetricKey(k=self._compute_kek(target_alg, ops='encrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
             kek.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
@@ -355,6 +357,8 @@ class KeyWrap(CoseRecipient):
         key_ops = [DecryptOp, UnwrapOp]
 
         if alg in {A128KW, A192KW, A256KW}:
+            if self.key is not None:
+                self.key.verify(SymmetricKey, alg, key_ops)
             kek = SymmetricKey(k=self._compute_kek(target_alg, 'decrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
             kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
-- 
2.43.0


From 38e2e93c29eb18f1c9b5240ab3342126cfae5be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 19/37] fix: enforce the key policy in key agreement with key
 wrap

Unlike direct key agreement, it never checked the type, algorithm and key_ops
of the two keys.
---
 pycose/messages/recipient.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 06cc82a..7b7a4f0 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -546,6 +546,9 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         key_bytes = self._compute_kek((self.get_attr(headers.Algorithm)).get_key_wrap_func(), peer_key, self.key, alg)
         wrap_func = alg.get_key_wrap_func()
 
@@ -563,6 +566,15 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         else:
             raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
 
+        if peer_key is None:
+            raise CoseException("Unknown sender public key")
+
+        if self.key is None:
+            raise CoseException("Static receiver key cannot be None")
+
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         kek = SymmetricKey(k=self._compute_kek(alg.get_key_wrap_func(), peer_key, self.key, alg),
                            optional_params={KpAlg: alg, KpKeyOps: [UnwrapOp, DecryptOp]})
 
-- 
2.43.0


From 1e163e2791c2aac2ee82fe1d40c1a3e0ede3cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 20/37] fix: generate the ephemeral key of a direct key
 agreement before it is used

---
 pycose/messages/recipient.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 7b7a4f0..b9f43c3 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -458,6 +458,13 @@ class DirectKeyAgreement(CoseRecipient):
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
 
+        # if ephemeral and not set, generate ephemeral key pair
+        if ops == "encrypt" and self.key is None and alg in {EcdhEsHKDF256, EcdhEsHKDF512}:
+            self._setup_ephemeral_key(peer_key)
+
+        if self.key is None:
+            raise CoseException("Key cannot be None")
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From 14be57f4f24e0fcb9456fec3f19504de022222ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 21/37] fix: name the recipient class in the errors about
 illegal algorithms

Instances have no __name__, so an AttributeError was raised instead.
---
 pycose/messages/recipient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index b9f43c3..756d0c3 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -347,7 +347,7 @@ class KeyWrap(CoseRecipient):
             kek = self.key
             kek.verify(RSAKey, alg, [WrapOp, EncryptOp])
         else:
-            raise CoseIllegalAlgorithm(f"Algorithm {alg} for {self.__name__}")
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} for {type(self).__name__}")
 
         return alg.key_wrap(kek, self.payload)
 
@@ -453,7 +453,7 @@ class DirectKeyAgreement(CoseRecipient):
                 else:
                     peer_key = self.get_attr(headers.EphemeralKey)
         else:
-            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {type(self).__name__}")
 
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
@@ -571,7 +571,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         elif alg in {EcdhSsA256KW, EcdhSsA192KW, EcdhSsA128KW}:
             peer_key = self.get_attr(headers.StaticKey)
         else:
-            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {type(self).__name__}")
 
         if peer_key is None:
             raise CoseException("Unknown sender public key")
-- 
2.43.0


From af61b2b99f4167bb6aee7aafbad7f77a9308e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 22/37] fix: reject keys on another curve in ECDSA

ES256, ES384 and ES512 use P-256, P-384 and P-521: the private value of an OKP
key or of a secp256k1 key was taken for a scalar on these curves.
---
 pycose/algorithms.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 4725e9e..362ffff 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -179,14 +179,23 @@ class _Ecdsa(CoseAlgorithm, ABC):
     def get_hash_func(cls):
         raise NotImplementedError()
 
+    @classmethod
+    def _check_key(cls, key: 'EC2') -> None:
+        curves = {NIST256p.name: 'P_256', NIST384p.name: 'P_384', NIST521p.name: 'P_521'}
+
+        if not hasattr(key, 'crv') or key.crv.fullname != curves[cls.get_curve().name]:
+            raise CoseException(f"Illegal key for {cls.fullname}")
+
     @classmethod
     def sign(cls, key: 'EC2', data: bytes) -> bytes:
+        cls._check_key(key)
         sk = SigningKey.from_secret_exponent(int(hexlify(key.d), 16), curve=cls.get_curve())
 
         return sk.sign_deterministic(data, hashfunc=cls.get_hash_func())
 
     @classmethod
     def verify(cls, key: 'EC2', data: bytes, signature: bytes) -> bool:
+        cls._check_key(key)
         p = Point(curve=cls.get_curve().curve, x=int(hexlify(key.x), 16), y=int(hexlify(key.y), 16))
 
         vk = VerifyingKey.from_public_point(p, cls.get_curve(), cls.get_hash_func(), validate_point=True)
-- 
2.43.0


From 91a9f8dc953883dbc2860c79eae8a1855b3a6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 23/37] fix: decode the recipients of a recipient

The fourth element of a COSE_recipient was ignored, so nested recipients were
lost and DIRECT modes accepted structures with recipients.
---
 pycose/messages/recipient.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 756d0c3..fde56d7 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -75,6 +75,16 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         else:
             raise CoseException("No algorithm specified in recipient structure")
 
+    @classmethod
+    def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool, *args, **kwargs) -> 'CoseRecipient':
+        msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
+
+        if len(cose_obj):
+            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r
+                              in cose_obj.pop(0)]
+
+        return msg
+
     @classmethod
     def has_recipient(cls, target: 'Recipient', recipients: List['Recipient']):
         found = False
@@ -263,9 +273,6 @@ class KeyWrap(CoseRecipient):
         if msg.payload == b'':
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
@@ -494,9 +501,6 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
-- 
2.43.0


From c5afec2e3f9cd459b89513de5ffab8d6cd0e7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 24/37] fix: honour the sign bit in the y parameter of an EC2
 key

RFC 8152 section 13.1.1 allows a bool for y. False was taken for a missing y,
for which the odd y is chosen, and True was rejected.
---
 pycose/keys/ec2.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index f2562df..a41bbc2 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -155,16 +155,20 @@ class EC2Key(CoseKey):
             else:
                 x = public_nums.x.to_bytes(self.crv.size, 'big')
 
-            if y:
+            if isinstance(y, bool):
+                assert y == bool(public_nums.y & 1)
+                y = public_nums.y.to_bytes(self.crv.size, 'big')
+            elif y:
                 assert y == public_nums.y.to_bytes(self.crv.size, 'big')
             else:
                 y = public_nums.y.to_bytes(self.crv.size, 'big')
 
-        if x and not y:
+        if x and (not y or y is True):
             # try to derive y from x
             key = ec.EllipticCurvePublicKey.from_encoded_point(self.crv.curve_obj,
+                                                               # y can be a sign bit (RFC 8152 section 13.1.1), else
                                                                # don't care which of the two possible Y values we get
-                                                               b'\x03' +
+                                                               (b'\x02' if y is False else b'\x03') +
                                                                x  # or [::-1]?
                                                                )
             # Just to check the endianness of the conversions -- if we get the
-- 
2.43.0


From 0b799c2b3ceb18bc2a0e0700e96cc283b6f13fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 25/37] fix: reject messages whose elements have the wrong type
 or are too many

Decoding accepted nil headers, tags and signatures of any type, maps or
strings for the arrays of signatures and recipients, and dropped additional
elements.
---
 pycose/messages/cosebase.py     | 5 +++++
 pycose/messages/cosemessage.py  | 5 ++++-
 pycose/messages/encmessage.py   | 2 ++
 pycose/messages/mac0message.py  | 2 ++
 pycose/messages/macmessage.py   | 4 ++++
 pycose/messages/recipient.py    | 4 ++++
 pycose/messages/sign1message.py | 2 +-
 pycose/messages/signer.py       | 6 +++++-
 pycose/messages/signmessage.py  | 5 ++++-
 9 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 799657d..367a8e8 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -22,6 +22,11 @@ class CoseBase(metaclass=abc.ABCMeta):
         phdr_encoded = cose_obj.pop(0)
         uhdr = cose_obj.pop(0)
 
+        if type(phdr_encoded) is not bytes:
+            raise TypeError("encoded protected header should be of type 'bytes'")
+        if type(uhdr) is not dict:
+            raise TypeError("unprotected header should be of type 'dict'")
+
         return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes)
 
     def __init__(self, phdr: Optional[dict] = None, uhdr: Optional[dict] = None, payload: Optional[bytes] = None, phdr_encoded: Optional[bytes] = None, *args, **kwargs):
diff --git a/pycose/messages/cosemessage.py b/pycose/messages/cosemessage.py
index 817d449..9c25803 100644
--- a/pycose/messages/cosemessage.py
+++ b/pycose/messages/cosemessage.py
@@ -3,7 +3,7 @@ from typing import Optional, TypeVar, Type, TYPE_CHECKING
 
 import cbor2
 
-from pycose.exceptions import CoseInvalidKey
+from pycose.exceptions import CoseInvalidKey, CoseMalformedMessage
 from pycose.keys import CoseKey
 from pycose.keys.ec2 import EC2Key
 from pycose.keys.okp import OKPKey
@@ -66,6 +66,9 @@ class CoseMessage(CoseBase, metaclass=abc.ABCMeta):
             except KeyError as e:
                 raise KeyError("CBOR tag is not recognized", e)
 
+            if len(cose_obj):
+                raise CoseMalformedMessage("Too many elements in COSE message")
+
             if not isinstance(decoded, cls):
                 raise TypeError(f"CBOR tag {cbor_tag} does not match the expected message type {cls.__name__}.")
 
diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index f5ea37e..e388e22 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -30,6 +30,8 @@ class EncMessage(enccommon.EncCommon):
             recipients = cose_obj.pop(0)
         except IndexError:
             recipients = []
+        if not isinstance(recipients, list):
+            raise TypeError("recipients should be of type 'list'")
 
         msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
                           in recipients]
diff --git a/pycose/messages/mac0message.py b/pycose/messages/mac0message.py
index 383c6cd..2f88320 100644
--- a/pycose/messages/mac0message.py
+++ b/pycose/messages/mac0message.py
@@ -25,6 +25,8 @@ class Mac0Message(maccommon.MacCommon):
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool) -> 'Mac0Message':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
+        if type(msg.auth_tag) is not bytes:
+            raise TypeError("tag should be of type 'bytes'")
 
         return msg
 
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index c7a8c0c..ca6b7f3 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -36,11 +36,15 @@ class MacMessage(maccommon.MacCommon):
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool) -> 'MacMessage':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
+        if type(msg.auth_tag) is not bytes:
+            raise TypeError("tag should be of type 'bytes'")
 
         try:
             recipients = cose_obj.pop(0)
         except IndexError:
             recipients = []
+        if not isinstance(recipients, list):
+            raise TypeError("recipients should be of type 'list'")
 
         msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                           in recipients]
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index fde56d7..6d44ef7 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -80,8 +80,12 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         if len(cose_obj):
+            if not isinstance(cose_obj[0], list):
+                raise TypeError("recipients should be of type 'list'")
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r
                               in cose_obj.pop(0)]
+        if len(cose_obj):
+            raise CoseMalformedMessage("Too many elements in COSE_recipient")
 
         return msg
 
diff --git a/pycose/messages/sign1message.py b/pycose/messages/sign1message.py
index d46448a..c6be58c 100644
--- a/pycose/messages/sign1message.py
+++ b/pycose/messages/sign1message.py
@@ -23,7 +23,7 @@ class Sign1Message(SignCommon):
     @classmethod
     def from_cose_obj(cls, cose_obj, allow_unknown_attributes: bool) -> 'Sign1Message':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
-        msg._signature = cose_obj.pop(0)
+        msg.signature = cose_obj.pop(0)
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index 113cfb9..013c9da 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -4,7 +4,7 @@ import cbor2
 
 from pycose import utils
 from pycose.messages.signcommon import SignCommon
-from pycose.exceptions import CoseException
+from pycose.exceptions import CoseException, CoseMalformedMessage
 
 if TYPE_CHECKING:
     from pycose.keys.ec2 import EC2
@@ -18,6 +18,10 @@ class CoseSignature(SignCommon):
         """ Parses COSE_Signature objects. """
 
         msg: 'CoseSignature' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
+        if type(msg.signature) is not bytes:
+            raise TypeError("Signature must be of type 'bytes'")
+        if len(cose_obj):
+            raise CoseMalformedMessage("Too many elements in COSE_Signature")
 
         return msg
 
diff --git a/pycose/messages/signmessage.py b/pycose/messages/signmessage.py
index e35df1e..bccdb07 100644
--- a/pycose/messages/signmessage.py
+++ b/pycose/messages/signmessage.py
@@ -32,7 +32,10 @@ class _SignMessage(CoseMessage, metaclass=abc.ABCMeta):
         msg: '_SignMessage' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         signers = []
-        for r in cose_obj.pop(0):
+        signatures = cose_obj.pop(0)
+        if not isinstance(signatures, list):
+            raise TypeError("signatures should be of type 'list'")
+        for r in signatures:
             signers.append(CoseSignature.from_cose_obj(r, allow_unknown_attributes))
 
         msg.signers = signers
-- 
2.43.0


From 1bc2135ff01ebe55a127b3477c2f4f2679d8e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 26/37] fix: reject a Partial IV that is longer than the Base
 IV

---
 pycose/messages/enccommon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index 8a02964..989e25e 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -83,6 +83,8 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
 
         if nonce is None and self.key.base_iv != b'':
             partial_iv = self.get_attr(headers.PartialIV)
+            if partial_iv is None or len(partial_iv) > len(self.key.base_iv):
+                raise CoseException('Partial IV is missing or longer than the Base IV')
             nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")
             nonce = nonce.to_bytes(len(self.key.base_iv), byteorder="big")
 
-- 
2.43.0


From 20070759bd1e1c2c8732e9970891c3ea103ae795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 27/37] fix: refuse key agreement between keys on different
 curves

---
 pycose/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 362ffff..9b72bad 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -298,6 +298,9 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
 
     @classmethod
     def _ecdh(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2') -> bytes:
+        if private_key.crv.identifier != curve.identifier or public_key.crv.identifier != curve.identifier:
+            raise CoseException("The keys of a key agreement must be on the same curve")
+
         d_value = int(hexlify(private_key.d), 16)
         x_value = int(hexlify(public_key.x), 16)
         y_value = int(hexlify(public_key.y), 16)
-- 
2.43.0


From 5679971c725efca52e23f204b23ebaca7a6299c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 28/37] fix: keep a recipient unchanged when its header has an
 unrelated ephemeral key

---
 pycose/messages/recipient.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 6d44ef7..e0bc39b 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -187,18 +187,18 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
 
     def _setup_ephemeral_key(self, peer_key, optional_params: dict = None):
-        self.key = EC2Key.generate_key(peer_key.crv, optional_params)
-
         if self.get_attr(headers.EphemeralKey) is not None:
-            # public key was already set in the header bucket but we just generated a new ephemeral key.
+            # public key was already set in the header bucket but we would have to generate a new ephemeral key.
             raise CoseException('Unrelated ephemeral public key found in COSE message header')
-        else:
-            # strip private bytes from key
-            ephemeral_public_key = dict(self.key)
-            del ephemeral_public_key[EC2KpD]
 
-            # add to unprotected header
-            self.uhdr_update({headers.EphemeralKey: ephemeral_public_key})
+        self.key = EC2Key.generate_key(peer_key.crv, optional_params)
+
+        # strip private bytes from key
+        ephemeral_public_key = dict(self.key)
+        del ephemeral_public_key[EC2KpD]
+
+        # add to unprotected header
+        self.uhdr_update({headers.EphemeralKey: ephemeral_public_key})
 
 
 @CoseRecipient.record_rc([Direct, DirectHKDFSHA256, DirectHKDFAES256])
-- 
2.43.0


From 12c536fa163b71242ca867e9b32082217d424973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 29/37] fix: Encoding a direct key agreement recipient with
 further recipients is an exception

---
 pycose/messages/recipient.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index e0bc39b..9914093 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -433,7 +433,7 @@ class DirectKeyAgreement(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None")
 
-        if len(self.recipients) > 1:
+        if len(self.recipients):
             raise CoseMalformedMessage(f'Recipient class DIRECT_KEY_AGREEMENT cannot carry more recipients')
 
         # only the ephemeral sender key MUST be included in the header, for the static sender it is recommended by not
@@ -443,9 +443,6 @@ class DirectKeyAgreement(CoseRecipient):
 
         recipient = [self.phdr_encoded, self.uhdr_encoded, b'']
 
-        if len(self.recipients):
-            recipient.append([r.encode(*args, **kwargs) for r in self.recipients])
-
         return recipient
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
-- 
2.43.0


From 4b2eb8a6c7796dd6026a5ee1eb9a3a40b57503bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 30/37] fix: refuse a nil ciphertext in key wrapping recipients

---
 pycose/messages/recipient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 9914093..fc97535 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -274,7 +274,7 @@ class KeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f"Recipient class KEY_WRAP with alg {alg} must have a zero-length protected header")
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
         return msg
@@ -498,7 +498,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.context = kwargs.get('context')
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-- 
2.43.0


From 5f753fcab091734a8e2ec276fb02d9f04c233d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 31/37] fix: refuse to assign another key type to a key

---
 pycose/keys/cosekey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 1c0ccc8..7cdc1d6 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -232,7 +232,10 @@ class CoseKey(MutableMapping, ABC):
 
     @kty.setter
     def kty(self, kty: Any):
-        self.store[KpKty] = KTY.from_id(kty)
+        kty = KTY.from_id(kty)
+        if kty != self.kty:
+            raise CoseIllegalKeyType(f"Illegal key type {kty} for {type(self).__name__}")
+        self.store[KpKty] = kty
 
     @property
     def alg(self) -> Optional[Type['CoseAlg']]:
-- 
2.43.0


From d02c6412118a0d13c8520f2928562efd1268a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 32/37] fix: allow deleting unknown parameters of a key

---
 pycose/keys/ec2.py       | 9 +++++----
 pycose/keys/okp.py       | 7 ++++---
 pycose/keys/symmetric.py | 3 ++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index a41bbc2..c9da138 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -281,12 +281,13 @@ class EC2Key(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != EC2KpCurve:
-            if self._key_transform(key) == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+        if kp != KpKty and kp != EC2KpCurve:
+            if kp == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
                 pass
-            elif self._key_transform(key) == EC2KpX and EC2KpD not in self.store:
+            elif kp == EC2KpX and EC2KpD not in self.store:
                 pass
-            elif (self._key_transform(key) == EC2KpX or self._key_transform(key) == EC2KpY) and EC2KpD in self.store:
+            elif (kp == EC2KpX or kp == EC2KpY) and EC2KpD in self.store:
                 super(EC2Key, self).__delitem__(EC2KpX)
                 super(EC2Key, self).__delitem__(EC2KpY)
                 return
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 5b4ee9a..75995a1 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -242,10 +242,11 @@ class OKPKey(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key: Union['KeyParam', str, int]):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
-            if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+        if kp != KpKty and kp != OKPKpCurve:
+            if kp == OKPKpD and OKPKpX not in self.store:
                 pass
-            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif kp == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 1d3a180..453bb1c 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -71,7 +71,8 @@ class SymmetricKey(CoseKey):
             raise CoseInvalidKey("SymKpK parameter cannot be None")
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != SymKpK:
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+        if kp != KpKty and kp != SymKpK:
             super().__delitem__(key)
         else:
             raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalide COSE Symmetric Key")
-- 
2.43.0


From 4dd196a9fe7a3049f73e17ba84f73c3184583eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 33/37] fix: deleting a coordinate of an EC2 key without y
 removes nothing halfway

---
 pycose/keys/ec2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index c9da138..1124399 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -283,13 +283,13 @@ class EC2Key(CoseKey):
     def __delitem__(self, key):
         kp = self._key_transform(key, allow_unknown_attrs=True)
         if kp != KpKty and kp != EC2KpCurve:
-            if kp == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
+            if kp == EC2KpD and EC2KpX not in self.store:
                 pass
             elif kp == EC2KpX and EC2KpD not in self.store:
                 pass
-            elif (kp == EC2KpX or kp == EC2KpY) and EC2KpD in self.store:
-                super(EC2Key, self).__delitem__(EC2KpX)
-                super(EC2Key, self).__delitem__(EC2KpY)
+            elif (kp == EC2KpX or kp == EC2KpY) and kp in self.store and EC2KpD in self.store:
+                self.store.pop(EC2KpX, None)
+                self.store.pop(EC2KpY, None)
                 return
             else:
                 return super(EC2Key, self).__delitem__(key)
-- 
2.43.0


From 0c44797508f05cc73dc151b5f4d8c4bc70d1d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 34/37] fix: do not delete the parameters an RSA key consists
 of

---
 pycose/keys/rsa.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 3aad863..059b89b 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -313,6 +313,15 @@ class RSAKey(CoseKey):
 
         return cls._from_cryptography_key(ext_key, optional_params)
 
+    def __delitem__(self, key):
+        kp = self._key_transform(key, allow_unknown_attrs=True)
+        material = [KpKty, RSAKpN, RSAKpE, RSAKpD, RSAKpP, RSAKpQ, RSAKpDP, RSAKpDQ, RSAKpQInv,
+                    RSAKpOther, RSAKpRi, RSAKpDi, RSAKpTi]
+        if kp in material and kp in self.store:
+            raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalid COSE RSA Key")
+
+        super().__delitem__(key)
+
     def __repr__(self):
         hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
         return hdr
-- 
2.43.0


From ddeabf300ac932a4639ce970fb4ad44be005d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 35/37] fix: keep the multi-prime parameters of an RSA key in
 the key

---
 pycose/keys/rsa.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 059b89b..d5518e7 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -284,6 +284,46 @@ class RSAKey(CoseKey):
             raise TypeError("parameter dq must be of type 'bytes'")
         self.store[RSAKpQInv] = qinv
 
+    @property
+    def other(self) -> List[dict]:
+        return self.store.get(RSAKpOther, [])
+
+    @other.setter
+    def other(self, other: List[dict]):
+        if type(other) is not list:
+            raise TypeError("parameter other must be of type 'list'")
+        self.store[RSAKpOther] = other
+
+    @property
+    def r_i(self) -> bytes:
+        return self.store.get(RSAKpRi, b'')
+
+    @r_i.setter
+    def r_i(self, r_i: bytes):
+        if type(r_i) is not bytes:
+            raise TypeError("parameter r_i must be of type 'bytes'")
+        self.store[RSAKpRi] = r_i
+
+    @property
+    def d_i(self) -> bytes:
+        return self.store.get(RSAKpDi, b'')
+
+    @d_i.setter
+    def d_i(self, d_i: bytes):
+        if type(d_i) is not bytes:
+            raise TypeError("parameter d_i must be of type 'bytes'")
+        self.store[RSAKpDi] = d_i
+
+    @property
+    def t_i(self) -> bytes:
+        return self.store.get(RSAKpTi, b'')
+
+    @t_i.setter
+    def t_i(self, t_i: bytes):
+        if type(t_i) is not bytes:
+            raise TypeError("parameter t_i must be of type 'bytes'")
+        self.store[RSAKpTi] = t_i
+
     @property
     def key_ops(self) -> List[Type['KEYOPS']]:
         """ Returns the value of the :class:`~pycose.keys.keyparam.KpKeyOps` key parameter """
-- 
2.43.0


From dd86218fbd29c912e7067f1863bb2fb52c1cde8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 36/37] fix: refuse key material among the optional parameters
 of a key

---
 pycose/keys/ec2.py       | 4 ++++
 pycose/keys/okp.py       | 4 ++++
 pycose/keys/rsa.py       | 5 +++++
 pycose/keys/symmetric.py | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 1124399..d30654c 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -122,6 +122,10 @@ class EC2Key(CoseKey):
             # transform the key_attribute
             kp = EC2KeyParam.from_id(_key_attribute, allow_unknown_key_attrs)
 
+            # the key material has its own arguments, which are verified
+            if kp in (EC2KpCurve, EC2KpX, EC2KpY, EC2KpD):
+                raise CoseInvalidKey(f"{_key_attribute} is not an optional parameter of a EC2 COSE Key")
+
             # parse the value of the key attribute if possible
             if hasattr(kp, 'value_parser') and hasattr(kp.value_parser, '__call__'):
                 _value = kp.value_parser(_value)
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 75995a1..36565aa 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -134,6 +134,10 @@ class OKPKey(CoseKey):
             # translate the key_attribute
             kp = OKPKeyParam.from_id(_key_attribute, allow_unknown_key_attrs)
 
+            # the key material has its own arguments, which are verified
+            if kp in (OKPKpCurve, OKPKpX, OKPKpD):
+                raise CoseInvalidKey(f"{_key_attribute} is not an optional parameter of a OKP COSE Key")
+
             # parse the value of the key attribute if possible
             if hasattr(kp, 'value_parser') and hasattr(kp.value_parser, '__call__'):
                 _value = kp.value_parser(_value)
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index d5518e7..9572c3f 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -167,6 +167,11 @@ class RSAKey(CoseKey):
             # transform the key_attribute
             kp = RSAKeyParam.from_id(_key_attribute, allow_unknown_key_attrs)
 
+            # the key material has its own arguments, which are verified
+            if kp in (RSAKpN, RSAKpE, RSAKpD, RSAKpP, RSAKpQ, RSAKpDP, RSAKpDQ, RSAKpQInv, RSAKpOther, RSAKpRi,
+                      RSAKpDi, RSAKpTi):
+                raise CoseInvalidKey(f"{_key_attribute} is not an optional parameter of a RSA COSE Key")
+
             # parse the value of the key attribute if possible
             if hasattr(kp, 'value_parser') and hasattr(kp.value_parser, '__call__'):
                 _value = kp.value_parser(_value)
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 453bb1c..d71565c 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -52,6 +52,10 @@ class SymmetricKey(CoseKey):
             # translate the key_attribute
             kp = SymmetricKeyParam.from_id(_key_attribute, allow_unknown_key_attrs)
 
+            # the key material has its own arguments, which are verified
+            if kp in (SymKpK,):
+                raise CoseInvalidKey(f"{_key_attribute} is not an optional parameter of a Symmetric COSE Key")
+
             # parse the value of the key attribute if possible
             if hasattr(kp, 'value_parser') and hasattr(kp.value_parser, '__call__'):
                 _value = kp.value_parser(_value)
-- 
2.43.0


From 791af2bd387a53b0127861d6a5ab82df97c2538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 37/37] fix: optional parameters do not replace the values of
 an imported or generated key

---
 pycose/keys/ec2.py | 3 ++-
 pycose/keys/okp.py | 3 ++-
 pycose/keys/rsa.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index d30654c..b1174f4 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -88,7 +88,8 @@ class EC2Key(CoseKey):
                 }
             )
         if optional_params:
-            cose_key.update(optional_params)
+            # the values of the external key take precedence
+            cose_key = {**optional_params, **cose_key}
         return EC2Key.from_dict(cose_key)
 
     @staticmethod
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 36565aa..04f6bc4 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -81,7 +81,8 @@ class OKPKey(CoseKey):
         if priv_bytes:
             cose_key[OKPKpD] = priv_bytes
         if optional_params:
-            cose_key.update(optional_params)
+            # the values of the external key take precedence
+            cose_key = {**optional_params, **cose_key}
         return OKPKey.from_dict(cose_key)
 
     @staticmethod
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 9572c3f..aa3391c 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -108,7 +108,8 @@ class RSAKey(CoseKey):
                 RSAKpQInv: to_bstr(priv_nums.iqmp),
             })
         if optional_params:
-            cose_key.update(optional_params)
+            # the values of the external key take precedence
+            cose_key = {**optional_params, **cose_key}
         return RSAKey.from_dict(cose_key)
 
     @staticmethod
-- 
2.43.0

