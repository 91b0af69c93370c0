From 9760b34b9d5a6c8520a9b85f2e34e269cbc49985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 01/26] fix: rfc2251: tag UnbindRequest as a primitive NULL

Its tag was derived from SEQUENCE, so it was taken to be constructed and
an unbind request was encoded as 62 00 instead of 42 00.
---
 pyasn1_modules/rfc2251.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 094922c..8a5e2f0 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -276,7 +276,7 @@ class SearchRequest(univ.Sequence):
 
 
 class UnbindRequest(univ.Null):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
+    tagSet = univ.Null.tagSet.tagImplicitly(
         tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 2)
     )
 
-- 
2.43.0


From 79285133ef065101bcc5eca14ed66e1effe25439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 02/26] fix: rfc6402: tag
 CMCStatusInfoV2.otherInfo.extendedFailInfo [1]

Without its tag it could not be told from pendInfo.
---
 pyasn1_modules/rfc6402.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc6402.py b/pyasn1_modules/rfc6402.py
index 5490b05..d24e2ce 100644
--- a/pyasn1_modules/rfc6402.py
+++ b/pyasn1_modules/rfc6402.py
@@ -151,7 +151,7 @@ CMCStatusInfoV2.componentType = namedtype.NamedTypes(
                     componentType=namedtype.NamedTypes(
                         namedtype.NamedType('failInfoOID', univ.ObjectIdentifier()),
                         namedtype.NamedType('failInfoValue', AttributeValue()))
-                    )
+                    ).subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))
                 )
             )
         )
-- 
2.43.0


From 0713375f1b66ea4436cdd3ff664ebb26c2ddd034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 03/26] fix: rfc2315: name the governor of
 AttributeValueAssertion.attributeValue

There is no component 'type': decoding with decodeOpenTypes raised.
---
 pyasn1_modules/rfc2315.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 1069fc2..b0cb5cd 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -26,7 +26,7 @@ class AttributeValueAssertion(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('attributeType', AttributeType()),
         namedtype.NamedType('attributeValue', AttributeValue(),
-                            openType=opentype.OpenType('type', certificateAttributesMap))
+                            openType=opentype.OpenType('attributeType', certificateAttributesMap))
     )
 
 
-- 
2.43.0


From dc7135ac85f77ee01cee95954ce95b320fd133f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 04/26] fix: rfc7292: name the governor of BAG_TYPE.unnamed1

There is no component 'attrType': decoding with decodeOpenTypes raised.
---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 1c9f319..3063d1b 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -142,7 +142,7 @@ class BAG_TYPE(univ.Sequence):
 BAG_TYPE.componentType = namedtype.NamedTypes(
     namedtype.NamedType('id', univ.ObjectIdentifier()),
     namedtype.NamedType('unnamed1', univ.Any(),
-        openType=opentype.OpenType('attrType', pkcs12BagTypeMap)
+        openType=opentype.OpenType('id', pkcs12BagTypeMap)
     )
 )
 
-- 
2.43.0


From 90760c143b2ba8ee69463c4abb7d0ffbb043debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 05/26] fix: rfc4334: apply the size constraint of SSID

It was built and dropped; rfc3770 has it in effect.
---
 pyasn1_modules/rfc4334.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc4334.py b/pyasn1_modules/rfc4334.py
index 44cd31b..8a7a1c7 100644
--- a/pyasn1_modules/rfc4334.py
+++ b/pyasn1_modules/rfc4334.py
@@ -42,7 +42,7 @@ id_kp_eapOverLAN = id_kp + (14, )
 id_pe_wlanSSID = id_pe + (13, )
 
 class SSID(univ.OctetString):
-    constraint.ValueSizeConstraint(1, 32)
+    subtypeSpec = constraint.ValueSizeConstraint(1, 32)
 
 
 class SSIDList(univ.SequenceOf):
-- 
2.43.0


From f8c9a1b59ec3859cf84f71747ed8c1590df50b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 06/26] fix: rfc2459: the flags of IssuingDistributionPoint are
 DEFAULT FALSE

They were mandatory, so an extension that leaves them out could not be
decoded.
---
 pyasn1_modules/rfc2459.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 57f783e..ab3bb22 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -1135,13 +1135,13 @@ class IssuingDistributionPoint(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('distributionPoint', DistributionPointName().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
-        namedtype.NamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
         namedtype.OptionalNamedType('onlySomeReasons', ReasonFlags().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3))),
-        namedtype.NamedType('indirectCRL', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('indirectCRL', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 4)))
     )
 
-- 
2.43.0


From 75937d516d24a0e57a0b4a843d40f8beddb23984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 07/26] fix: rfc5990: aes192_Wrap and aes256_Wrap name their
 own algorithms

---
 pyasn1_modules/rfc5990.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5990.py b/pyasn1_modules/rfc5990.py
index 281316f..30e32ac 100644
--- a/pyasn1_modules/rfc5990.py
+++ b/pyasn1_modules/rfc5990.py
@@ -194,11 +194,11 @@ aes128_Wrap['algorithm'] = id_aes128_Wrap
 # aes128_Wrap['parameters'] are absent
 
 aes192_Wrap = AlgorithmIdentifier()
-aes192_Wrap['algorithm'] = id_aes128_Wrap
+aes192_Wrap['algorithm'] = id_aes192_Wrap
 # aes192_Wrap['parameters'] are absent
 
 aes256_Wrap = AlgorithmIdentifier()
-aes256_Wrap['algorithm'] = id_sha256
+aes256_Wrap['algorithm'] = id_aes256_Wrap
 # aes256_Wrap['parameters'] are absent
 
 tdes_Wrap = AlgorithmIdentifier()
-- 
2.43.0


From c6da5b9c0df53f746d1575bc703b7211f8e6d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 08/26] fix: rfc7906: fill in aa_keyUse and
 aa_otherCertificateFormats

Their fields were assigned to aa_keyPurpose and aa_signatureUsage_v3,
which were left with the wrong contents.
---
 pyasn1_modules/rfc7906.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc7906.py b/pyasn1_modules/rfc7906.py
index fa5f6b0..4111693 100644
--- a/pyasn1_modules/rfc7906.py
+++ b/pyasn1_modules/rfc7906.py
@@ -403,8 +403,8 @@ KeyUse.namedValues = namedval.NamedValues(
 
 
 aa_keyUse = Attribute()
-aa_keyPurpose['attrType'] = id_kma_keyUse
-aa_keyPurpose['attrValues'][0] = KeyUse()
+aa_keyUse['attrType'] = id_kma_keyUse
+aa_keyUse['attrValues'][0] = KeyUse()
 
 
 # Transport Key Attribute
@@ -615,8 +615,8 @@ id_kma_otherCertFormats = univ.ObjectIdentifier('2.16.840.1.101.2.1.13.19')
 
 
 aa_otherCertificateFormats = Attribute()
-aa_signatureUsage_v3['attrType'] = id_kma_otherCertFormats
-aa_signatureUsage_v3['attrValues'][0] = CertificateChoices()
+aa_otherCertificateFormats['attrType'] = id_kma_otherCertFormats
+aa_otherCertificateFormats['attrValues'][0] = CertificateChoices()
 
 
 # PKI Path Attribute
-- 
2.43.0


From 74e0253ea4fcf800422c172d9ddbf130d40bb6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 09/26] fix: rfc2985: keep both constraints of GenderString

The second one replaced the first.
---
 pyasn1_modules/rfc2985.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2985.py b/pyasn1_modules/rfc2985.py
index 75bccf0..cd6b651 100644
--- a/pyasn1_modules/rfc2985.py
+++ b/pyasn1_modules/rfc2985.py
@@ -332,8 +332,10 @@ placeOfBirth['values'][0] = DirectoryString()
 class GenderString(char.PrintableString):
     pass
 
-GenderString.subtypeSpec = constraint.ValueSizeConstraint(1, 1)
-GenderString.subtypeSpec = constraint.SingleValueConstraint("M", "F", "m", "f")
+GenderString.subtypeSpec = constraint.ConstraintsIntersection(
+    constraint.ValueSizeConstraint(1, 1),
+    constraint.SingleValueConstraint("M", "F", "m", "f")
+)
 
 
 pkcs_9_at_gender = _OID(ietf_at, 3)
-- 
2.43.0


From fd05a3a034d6f16d42f7858160595a09d5fd2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 10/26] fix: rfc8418: the dhSinglePass-stdDH KDF schemes have
 the OIDs of RFC 5753

RFC 8418 imports dhSinglePass-stdDH-sha256kdf-scheme and its siblings from
the module of RFC 5753, where they are secg-scheme 11 x (1.3.132.1.11.x).
---
 pyasn1_modules/rfc8418.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc8418.py b/pyasn1_modules/rfc8418.py
index 6e76487..5102743 100644
--- a/pyasn1_modules/rfc8418.py
+++ b/pyasn1_modules/rfc8418.py
@@ -23,11 +23,11 @@ class KeyWrapAlgorithmIdentifier(rfc5280.AlgorithmIdentifier):
     pass
 
 
-dhSinglePass_stdDH_sha256kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.1')
+dhSinglePass_stdDH_sha256kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.1')
 
-dhSinglePass_stdDH_sha384kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.2')
+dhSinglePass_stdDH_sha384kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.2')
 
-dhSinglePass_stdDH_sha512kdf_scheme = univ.ObjectIdentifier('1.3.133.16.840.63.0.11.3')
+dhSinglePass_stdDH_sha512kdf_scheme = univ.ObjectIdentifier('1.3.132.1.11.3')
 
 dhSinglePass_stdDH_hkdf_sha256_scheme = univ.ObjectIdentifier('1.2.840.113549.1.9.16.3.19')
 
-- 
2.43.0


From 9aedf66bac3609fd88926ed60cfe3588176b3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 11/26] fix: ocspclient dies on the removed encoder.encoder
 module, takes the key octets directly

---
 tools/ocspclient.py | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/tools/ocspclient.py b/tools/ocspclient.py
index 84f06fb..ccc88da 100755
--- a/tools/ocspclient.py
+++ b/tools/ocspclient.py
@@ -25,28 +25,6 @@ from pyasn1_modules import pem
 sha1oid = univ.ObjectIdentifier((1, 3, 14, 3, 2, 26))
 
 
-# noinspection PyClassHasNoInit
-class ValueOnlyBitStringEncoder(encoder.encoder.BitStringEncoder):
-    # These methods just do not encode tag and length fields of TLV
-    def encodeTag(self, *args):
-        return ''
-
-    def encodeLength(self, *args):
-        return ''
-
-    def encodeValue(*args):
-        substrate, isConstructed = encoder.encoder.BitStringEncoder.encodeValue(*args)
-        # OCSP-specific hack follows: cut off the "unused bit count"
-        # encoded bit-string value.
-        return substrate[1:], isConstructed
-
-    def __call__(self, bitStringValue):
-        return self.encode(None, bitStringValue, defMode=True, maxChunkSize=0)
-
-
-valueOnlyBitStringEncoder = ValueOnlyBitStringEncoder()
-
-
 # noinspection PyShadowingNames
 def mkOcspRequest(issuerCert, userCert):
     issuerTbsCertificate = issuerCert.getComponentByName('tbsCertificate')
@@ -67,7 +45,7 @@ def mkOcspRequest(issuerCert, userCert):
         'subjectPublicKey')
 
     issuerKeyHash = hashlib.sha1(
-        valueOnlyBitStringEncoder(issuerSubjectPublicKey)
+        issuerSubjectPublicKey.asOctets()
     ).digest()
 
     userSerialNumber = userTbsCertificate.getComponentByName('serialNumber')
-- 
2.43.0


From f2f8ba2037c432174c1af747385251e0b8e893ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 12/26] fix: cmcdump loops for ever on content it does not know

---
 tools/cmcdump.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/cmcdump.py b/tools/cmcdump.py
index d16774d..d338d61 100755
--- a/tools/cmcdump.py
+++ b/tools/cmcdump.py
@@ -59,3 +59,7 @@ while next_layer:
 
         next_layer = None
         data = None
+
+    else:
+        print("Unsupported content type %s" % (next_layer.prettyPrint(),))
+        sys.exit(-1)
-- 
2.43.0


From 569c9c3c7687713ed26dbe6459ca927496bfdae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 13/26] fix: PEM payload lines are decoded together, they need
 not hold whole base64 groups

---
 pyasn1_modules/pem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/pem.py b/pyasn1_modules/pem.py
index f7c80a9..8e9db7d 100644
--- a/pyasn1_modules/pem.py
+++ b/pyasn1_modules/pem.py
@@ -39,9 +39,9 @@ def readPemBlocksFromFile(fileObj, *markers):
                 certLines.append(certLine)
         if state == stDump:
             if sys.version_info[0] <= 2:
-                substrate = ''.join([base64.b64decode(x) for x in certLines])
+                substrate = base64.b64decode(''.join(certLines))
             else:
-                substrate = ''.encode().join([base64.b64decode(x.encode()) for x in certLines])
+                substrate = base64.b64decode(''.join(certLines).encode())
             break
     return idx, substrate
 
-- 
2.43.0


From c28236699f7a37f5de493f7cc181648e2cfd10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 14/26] fix: rfc7191.siren_dn takes the arguments of its base
 type, clone() and decoding pass them

---
 pyasn1_modules/rfc7191.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc7191.py b/pyasn1_modules/rfc7191.py
index 7c2be11..7ccab09 100644
--- a/pyasn1_modules/rfc7191.py
+++ b/pyasn1_modules/rfc7191.py
@@ -82,8 +82,8 @@ id_dn = univ.ObjectIdentifier('2.16.840.1.101.2.1.16.0')
 
 
 class siren_dn(SIREntityName):
-    def __init__(self):
-        SIREntityName.__init__(self)
+    def __init__(self, **kwargs):
+        SIREntityName.__init__(self, **kwargs)
         self['sirenType'] = id_dn
 
 
-- 
2.43.0


From dbcc914fc1b3733dd75add535c485f6183f27879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:48 +0000
Subject: [PATCH 15/26] fix: rfc2560: GeneralName was a placeholder OCTET
 STRING, OCSP requests with a requestorName could not be decoded

---
 pyasn1_modules/rfc2560.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc2560.py b/pyasn1_modules/rfc2560.py
index 017ac0b..3dcac5d 100644
--- a/pyasn1_modules/rfc2560.py
+++ b/pyasn1_modules/rfc2560.py
@@ -51,11 +51,9 @@ class CRLReason(univ.Enumerated):
 
 # end of directory Authentication Framework (X.509) module
 
-# This should be in PKIX Certificate Extensions module
-
-class GeneralName(univ.OctetString):
-    pass
+# PKIX Certificate Extensions module
 
+GeneralName = rfc2459.GeneralName
 
 # end of PKIX Certificate Extensions module
 
-- 
2.43.0


From 7856aa8337cc99f3d623d0f11772f3f4689ae09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:48 +0000
Subject: [PATCH 16/26] fix: rfc2511: GeneralName was a placeholder OCTET
 STRING, CertId and POPOSigningKeyInput could not hold a conforming name

---
 pyasn1_modules/rfc2511.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pyasn1_modules/rfc2511.py b/pyasn1_modules/rfc2511.py
index 8935cda..e5ce186 100644
--- a/pyasn1_modules/rfc2511.py
+++ b/pyasn1_modules/rfc2511.py
@@ -30,14 +30,6 @@ id_regInfo_utf8Pairs = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.1')
 id_regInfo_certReq = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.2')
 
 
-# This should be in PKIX Certificate Extensions module
-
-class GeneralName(univ.OctetString):
-    pass
-
-
-# end of PKIX Certificate Extensions module
-
 class UTF8Pairs(char.UTF8String):
     pass
 
@@ -161,7 +153,7 @@ class POPOSigningKeyInput(univ.Sequence):
             'authInfo', univ.Choice(
                 componentType=namedtype.NamedTypes(
                     namedtype.NamedType(
-                        'sender', GeneralName().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
+                        'sender', GeneralName().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))
                     ),
                     namedtype.NamedType('publicKeyMAC', PKMACValue())
                 )
-- 
2.43.0


From 3da14b64361b0a3e241c1b80542809e93d42a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 17/26] fix: rfc2437: RSAES-OAEP-params had mandatory
 components with implicit tags, real parameters could not be decoded

---
 pyasn1_modules/rfc2437.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyasn1_modules/rfc2437.py b/pyasn1_modules/rfc2437.py
index 88641cf..943dafc 100644
--- a/pyasn1_modules/rfc2437.py
+++ b/pyasn1_modules/rfc2437.py
@@ -60,10 +60,10 @@ class RSAPublicKey(univ.Sequence):
 # XXX defaults not set
 class RSAES_OAEP_params(univ.Sequence):
     componentType = namedtype.NamedTypes(
-        namedtype.NamedType('hashFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('maskGenFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-        namedtype.NamedType('pSourceFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
+        namedtype.OptionalNamedType('hashFunc', AlgorithmIdentifier().subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
+        namedtype.OptionalNamedType('maskGenFunc', AlgorithmIdentifier().subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
+        namedtype.OptionalNamedType('pSourceFunc', AlgorithmIdentifier().subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
     )
-- 
2.43.0


From ab3989ac6487338661641c9986f800d80ddebe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 18/26] fix: rfc2459: DomainParameters.j was mandatory

---
 pyasn1_modules/rfc2459.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index ab3bb22..bf77c25 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -326,7 +326,7 @@ class DomainParameters(univ.Sequence):
         namedtype.NamedType('p', univ.Integer()),
         namedtype.NamedType('g', univ.Integer()),
         namedtype.NamedType('q', univ.Integer()),
-        namedtype.NamedType('j', univ.Integer()),
+        namedtype.OptionalNamedType('j', univ.Integer()),
         namedtype.OptionalNamedType('validationParms', ValidationParms())
     )
 
-- 
2.43.0


From 62f03f3562c336a4e52a22ceeaed23ef2d9a2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 19/26] fix: rfc3280: DirectoryString was replaced with a
 CHOICE of ANY

---
 pyasn1_modules/rfc3280.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 4c6df13..b0dfbe4 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -1362,15 +1362,6 @@ id_ce_certificateIssuer = _OID(id_ce, 29)
 
 id_ce_invalidityDate = _OID(id_ce, 24)
 
-
-class DirectoryString(univ.Choice):
-    pass
-
-
-DirectoryString.componentType = namedtype.NamedTypes(
-    namedtype.NamedType('any', univ.Any())
-)
-
 id_ce_authorityKeyIdentifier = _OID(id_ce, 35)
 
 
-- 
2.43.0


From 76fd87894bd7d0545919571425ff3d02fcd0f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:55 +0000
Subject: [PATCH 20/26] fix: rfc2459: lines of an UnformattedPostalAddress were
 limited to 6 characters, not their number to 6

---
 pyasn1_modules/rfc2459.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index bf77c25..e1c78b6 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -457,8 +457,8 @@ class StreetAddress(PDSParameter):
 class UnformattedPostalAddress(univ.Set):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)).subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines)))),
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
         namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
             subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
     )
-- 
2.43.0


From 3d07857c96294d901dd12b967dc41bb5a08b6d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 21/26] fix: rfc1157: TrapPDU lacked its tag [4], an SNMPv1
 trap could neither be decoded nor sent

---
 pyasn1_modules/rfc1157.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyasn1_modules/rfc1157.py b/pyasn1_modules/rfc1157.py
index df49e48..e44eed3 100644
--- a/pyasn1_modules/rfc1157.py
+++ b/pyasn1_modules/rfc1157.py
@@ -95,6 +95,9 @@ class SetRequestPDU(_RequestBase):
 
 
 class TrapPDU(univ.Sequence):
+    tagSet = univ.Sequence.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 4)
+    )
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('enterprise', univ.ObjectIdentifier()),
         namedtype.NamedType('agent-addr', rfc1155.NetworkAddress()),
-- 
2.43.0


From c49298da2abac725e49a8be1295526ff7f84eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 22/26] fix: rfc2251: DelRequest and AbandonRequest had the
 components of an LDAPResult

---
 pyasn1_modules/rfc2251.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 8a5e2f0..7138e69 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -21,6 +21,12 @@ from pyasn1.type import univ
 maxInt = univ.Integer(2147483647)
 
 
+class MessageID(univ.Integer):
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
+        0, maxInt
+    )
+
+
 class LDAPString(univ.OctetString):
     pass
 
@@ -418,9 +424,9 @@ class AddResponse(LDAPResult):
     )
 
 
-class DelRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 10)
+class DelRequest(LDAPDN):
+    tagSet = LDAPDN.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 10)
     )
 
 
@@ -466,9 +472,9 @@ class CompareResponse(LDAPResult):
     )
 
 
-class AbandonRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 16)
+class AbandonRequest(MessageID):
+    tagSet = MessageID.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 16)
     )
 
 
@@ -523,12 +529,6 @@ class ExtendedResponse(univ.Sequence):
     )
 
 
-class MessageID(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
-        0, maxInt
-    )
-
-
 class LDAPMessage(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('messageID', MessageID()),
-- 
2.43.0


From fd8a3d568da1b616beb7aeafdf326d51ce9bb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 23/26] fix: rfc5208: Attributes consisted of attributes of
 LDAP, a key with attributes could not be decoded

---
 pyasn1_modules/rfc5208.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5208.py b/pyasn1_modules/rfc5208.py
index 295fdbf..f2e3e6d 100644
--- a/pyasn1_modules/rfc5208.py
+++ b/pyasn1_modules/rfc5208.py
@@ -11,7 +11,6 @@
 #
 # Sample captures could be obtained with "openssl pkcs8 -topk8" command
 #
-from pyasn1_modules import rfc2251
 from pyasn1_modules.rfc2459 import *
 
 
@@ -39,7 +38,7 @@ class PrivateKey(univ.OctetString):
 
 
 class Attributes(univ.SetOf):
-    componentType = rfc2251.Attribute()
+    componentType = Attribute()
 
 
 class Version(univ.Integer):
-- 
2.43.0


From 8313b2d65e72ef1ff7d77a6319ac52ea188da3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:04 +0000
Subject: [PATCH 24/26] fix: rfc2459: TerminalType and ExtensionAttribute had
 size constraints on integers, any value raised TypeError

---
 pyasn1_modules/rfc2459.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index e1c78b6..8376dfb 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -364,7 +364,7 @@ terminal_type = univ.Integer(23)
 
 
 class TerminalType(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, ub_integer_options)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
         ('teletelex', 4),
@@ -595,7 +595,7 @@ common_name = univ.Integer(1)
 class ExtensionAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('extension-attribute-type', univ.Integer().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(0, ub_extension_attributes),
+            subtypeSpec=constraint.ValueRangeConstraint(0, ub_extension_attributes),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))),
         namedtype.NamedType('extension-attribute-value',
                             univ.Any().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1)))
-- 
2.43.0


From fd50eb375f050426f44eebe09e148523d2d22c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 25/26] fix: rfc4210: the size of PKIHeader.generalInfo was on
 its elements, an empty list was accepted

---
 pyasn1_modules/rfc4210.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc4210.py b/pyasn1_modules/rfc4210.py
index 0935e3e..4cdf63d 100644
--- a/pyasn1_modules/rfc4210.py
+++ b/pyasn1_modules/rfc4210.py
@@ -742,10 +742,9 @@ class PKIHeader(univ.Sequence):
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 7))),
         namedtype.OptionalNamedType('generalInfo',
                                     univ.SequenceOf(
-                                        componentType=InfoTypeAndValue().subtype(
-                                            sizeSpec=constraint.ValueSizeConstraint(1, MAX)
-                                        )
+                                        componentType=InfoTypeAndValue()
                                     ).subtype(
+            sizeSpec=constraint.ValueSizeConstraint(1, MAX),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 8))
         )
     )
-- 
2.43.0


From f4d131b9ba461b5428e7103e936b9f52d1fdc9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 26/26] fix: rfc7292: a safeContentsBag holds SafeContents, it
 was opened as SafeBag

---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 3063d1b..5622ac3 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -312,7 +312,7 @@ _pkcs12BagTypeMap = {
     id_certBag: CertBag(),
     id_CRLBag: CRLBag(),
     id_secretBag: SecretBag(),
-    id_safeContentsBag: SafeBag(),
+    id_safeContentsBag: SafeContents(),
 }
 
 pkcs12BagTypeMap.update(_pkcs12BagTypeMap)
-- 
2.43.0

