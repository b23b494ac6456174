From 15eefe6be1dc199267d1faf02ba7b6f232518bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 01/25] fix: decode the Base32 segments of an OCR code from
 bytes

utils.b32decode() takes bytes, so Receipt.fromOCRCode() failed with an
AttributeError on every OCR code.
---
 librksv/receipt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 0d81c14..9ede3e5 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -552,7 +552,8 @@ class Receipt(object):
 
         encTurnoverCounter = None
         try:
-            encTurnoverCounter = utils.b32decode(segments[10])
+            encTurnoverCounter = utils.b32decode(
+                    segments[10].encode("utf-8"))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
@@ -560,7 +561,8 @@ class Receipt(object):
 
         previousChain = None
         try:
-            previousChain = utils.b32decode(segments[12])
+            previousChain = utils.b32decode(
+                    segments[12].encode("utf-8"))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
@@ -568,7 +570,8 @@ class Receipt(object):
 
         signature = None
         try:
-            signature = utils.b32decode(segments[13])
+            signature = utils.b32decode(
+                    segments[13].encode("utf-8"))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
-- 
2.43.0


From fae0556feb11950cedb2e2e20fafc4fa1fd9b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 02/25] fix: give every verification package its own set of
 used receipt IDs

---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index ad32b45..03e48b0 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -582,7 +582,7 @@ def prepareVerificationTuples(chunksWithVerifiers, key, prevStartJWS,
     del pkgRStates[-1]
 
     return zip(chunksWithVerifiers, [key] * npkgs, [prevStartJWS] * npkgs,
-            pkgRStates, [usedRecIdsBackend()] * npkgs)
+            pkgRStates, [usedRecIdsBackend() for pkg in chunksWithVerifiers])
 
 def verifyParsedDEP(parser, keyStore, key, state = None,
         cashRegisterIdx = None, pool = None, nprocs = 1,
-- 
2.43.0


From 89bc5e459fa397388f18767db39a51c2bb93ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 03/25] fix: let InvalidKeyException survive pickling

---
 librksv/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index 1fbde92..9efec82 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -68,6 +68,7 @@ class InvalidKeyException(RKSVException):
 
     def __init__(self):
         super(InvalidKeyException, self).__init__(_("Invalid key."))
+        self._initargs = ()
 
 def depParserChunkSize():
     """
-- 
2.43.0


From 4ada10f3d6733a58aa7e9565987c2a1629a52775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 04/25] fix: keep the generators of a DEPExporter by default

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 063f3c3..47f6cb9 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -197,7 +197,7 @@ class DEPExporter(DEPExporterI):
     which can be used to create new lists from the generators (by passing list).
     """
 
-    def __init__(self, dep_stream, output_generator_wrapper=id):
+    def __init__(self, dep_stream, output_generator_wrapper=lambda g: g):
         self._stream = dep_stream
         self._wrapper = output_generator_wrapper
         self._extra = dict()
-- 
2.43.0


From d69dadabcdee165ac0f176d237657c255f9ddcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 05/25] fix: compare the certificate chains when merging DEP
 groups

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 47f6cb9..e676730 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -100,7 +100,7 @@ class MergingDEPStream(DEPStream):
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
                     rec_tuples, cert, cert_list = next(self._outer._backing)
-                    if self.cert == cert and cert_list == cert_list:
+                    if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
-- 
2.43.0


From c6823ed34c88a2f734868ff5e72b178d5806e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:03 +0000
Subject: [PATCH 06/25] fix: stream DEP groups with an empty certificate in
 chunks

---
 librksv/depparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d76bea3..1fa337f 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -165,6 +165,7 @@ class DEPStateWithIncompleteData(DEPStateWithData):
     class WIPData(object):
         def __init__(self):
             self.cert = None
+            self.cert_seen = False
             self.cert_chain = None
             self.recs = list()
 
@@ -177,12 +178,13 @@ class DEPStateWithIncompleteData(DEPStateWithData):
         self.idx = idx
 
     def needCrt(self):
-        if self.wip.cert is None or self.wip.cert_chain is None:
+        if not self.wip.cert_seen or self.wip.cert_chain is None:
             return self.idx
         return None
 
     def setCrt(self, cert, cert_chain):
         self.wip.cert = cert
+        self.wip.cert_seen = True
         self.wip.cert_chain = cert_chain
 
     def mergeIntoChunk(self):
@@ -282,6 +284,7 @@ class DEPStateGroup(DEPStateWithIncompleteData):
                 raise MalformedDEPElementException('Signaturzertifikat',
                         _('not a string'), self.idx)
             self.cert_seen = True
+            self.wip.cert_seen = True
             self.wip.cert = parseDEPCert(value) if value != '' else None
 
         elif prefix == 'Belege-Gruppe.item.Zertifizierungsstellen':
-- 
2.43.0


From 7983624acb51d467e831d4c1fb099ae0ed283a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:03 +0000
Subject: [PATCH 07/25] fix: report wrongly typed receipts and receipt lists as
 malformed DEP elements

---
 librksv/depparser.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 1fa337f..f699539 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -344,7 +344,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except TypeError:
+    except (AttributeError, TypeError, UnicodeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
@@ -605,20 +605,17 @@ class DictDEPParser(DEPParserI):
 
         cert_str = group['Signaturzertifikat']
         cert_str_list = group['Zertifizierungsstellen']
-        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
-
         if not isinstance(cert_str, string_types):
             raise MalformedDEPElementException('Signaturzertifikat',
                     _('not a string'), idx)
         if not isinstance(cert_str_list, list):
             raise MalformedDEPElementException('Zertifizierungsstellen',
                     _('not a list'), idx)
-        try:
-            iter(receipts)
-        except TypeError:
+        if not isinstance(group['Belege-kompakt'], list):
             raise MalformedDEPElementException('Belege-kompakt',
                     _('not a list'), idx)
 
+        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
 
-- 
2.43.0


From ba55bcc06a512ef57199eafdd12b9db4edfcead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:03 +0000
Subject: [PATCH 08/25] fix: report certificate elements missing from a DEP
 group during look-ahead

---
 librksv/depparser.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index f699539..d26e810 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -541,10 +541,21 @@ class FileDEPParser(IncrementalDEPParser):
         return items
 
     def _needCerts(self, state, chunksize, groupidx):
-        cert_str = self.__getItems(
-                'Belege-Gruppe.item.Signaturzertifikat', chunksize)[groupidx]
-        cert_str_list = self.__getItems(
-                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)[groupidx]
+        cert_strs = self.__getItems(
+                'Belege-Gruppe.item.Signaturzertifikat', chunksize)
+        cert_str_lists = self.__getItems(
+                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)
+        if groupidx >= len(cert_strs):
+            raise MissingDEPElementException('Signaturzertifikat', groupidx)
+        if groupidx >= len(cert_str_lists):
+            raise MissingDEPElementException('Zertifizierungsstellen', groupidx)
+
+        cert_str = cert_strs[groupidx]
+        cert_str_list = cert_str_lists[groupidx]
+        if not isinstance(cert_str_list, list):
+            raise MalformedDEPElementException('Zertifizierungsstellen',
+                    _('not a list'), groupidx)
+
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
         state.setCrt(cert, cert_list)
-- 
2.43.0


From 6c8969fc8978b2d49011a59ea582a0b5b5e8ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:03 +0000
Subject: [PATCH 09/25] fix: report DEP files that are not UTF-8 as malformed
 JSON

---
 librksv/depparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d26e810..23c9540 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -472,7 +472,7 @@ class IncrementalDEPParser(DEPParserI):
                 yield last
             elif not got_something:
                 raise MalformedDEPException(_('No receipts found'))
-        except ijson.JSONError as e:
+        except (ijson.JSONError, UnicodeDecodeError) as e:
             raise DEPParseException(_('Malformed JSON: {}.').format(e))
 
 
-- 
2.43.0


From 80e8ac7dfdf5c23be2b7235a5068f8fa682df168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:03 +0000
Subject: [PATCH 10/25] fix: treat an empty certificate serial as invalid
 instead of crashing

---
 librksv/key_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index f2c2742..c43f1db 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -195,7 +195,7 @@ def strSerialToKeyIds(serial):
     empty if the serial is invalid.
     """
     # for some reason the ref impl has a negative serial on some certs
-    if serial[0] == '-':
+    if serial.startswith('-'):
         serial = serial[1:]
 
     validKeyIds = list()
-- 
2.43.0


From d6a5999de8a8ddd52580c2416d96f410e2a3a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:03 +0000
Subject: [PATCH 11/25] fix: report receipts that cannot be encoded as
 malformed

---
 librksv/receipt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 9ede3e5..599bf1b 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -328,7 +328,7 @@ class Receipt(object):
         try:
             header = utils.urlsafe_b64decode(utils.restoreb64padding(
                 jwsSegs[0]).encode("utf-8")).decode("utf-8")
-        except (TypeError, binascii.Error, UnicodeDecodeError):
+        except (TypeError, binascii.Error, UnicodeError):
             raise MalformedReceiptException(jwsString,
                     _('Invalid JWS header.'))
 
@@ -336,7 +336,7 @@ class Receipt(object):
         try:
             payload = utils.urlsafe_b64decode(utils.restoreb64padding(
                 jwsSegs[1]).encode("utf-8")).decode("utf-8")
-        except (TypeError, binascii.Error, UnicodeDecodeError):
+        except (TypeError, binascii.Error, UnicodeError):
             raise MalformedReceiptException(jwsString,
                     _('Invalid JWS payload.'))
 
-- 
2.43.0


From 13ca4efe944dcf6e571a8287f938e82c7c5ccd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 12/25] fix: report DEP files that are not UTF-8 when opening
 them

---
 librksv/depparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 23c9540..15b6c03 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -417,7 +417,10 @@ class IncrementalDEPParser(DEPParserI):
 
     def __init__(self, fd):
         # skipBOM checks if we can seek, so no harm in doing it to a non-file
-        self.startpos = utils.skipBOM(fd)
+        try:
+            self.startpos = utils.skipBOM(fd)
+        except UnicodeDecodeError as e:
+            raise DEPParseException(_('Malformed JSON: {}.').format(e))
         self.fd = fd
 
     @staticmethod
-- 
2.43.0


From 65b3152a4dc218d1e1a25fd56dd1c9fabf016d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 13/25] fix: report receipt codes that cannot be encoded as
 malformed

---
 librksv/receipt.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 599bf1b..0bf8836 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -186,9 +186,16 @@ def _getEmptyOrB64(b, receiptId, reason):
         raise MalformedReceiptException(receiptId, reason)
     try:
         return utils.b64decode(b.encode('utf-8'))
-    except (TypeError, binascii.Error):
+    except (TypeError, UnicodeError, binascii.Error):
         raise MalformedReceiptException(receiptId, reason)
 
+def _isEncodable(s):
+    try:
+        s.encode('utf-8')
+    except UnicodeError:
+        return False
+    return True
+
 class Receipt(object):
     """
     The basic receipt class. Contains methods to convert a receipt to and from
@@ -221,7 +228,7 @@ class Receipt(object):
         if not isinstance(receiptId, string_types) or not receiptId:
             raise MalformedReceiptException(_("Unknown Receipt"),
                     _("Receipt ID \"{}\" invalid.").format(receiptId))
-        if '_' in receiptId:
+        if '_' in receiptId or not _isEncodable(receiptId):
             raise MalformedReceiptException(receiptId,
                     _("Receipt ID \"{}\" invalid.").format(receiptId))
 
@@ -231,7 +238,7 @@ class Receipt(object):
                     _("ZDA \"{}\" invalid.").format(zda))
 
         if not isinstance(registerId, string_types) or not registerId \
-                or '_' in registerId:
+                or '_' in registerId or not _isEncodable(registerId):
             raise MalformedReceiptException(receiptId,
                     _("Register ID \"{}\" invalid.").format(registerId))
 
@@ -488,7 +495,7 @@ class Receipt(object):
         signature = None
         try:
             signature = utils.b64decode(segments[13].encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, UnicodeError, binascii.Error):
             raise MalformedReceiptException(basicCode,
                     _('Signature \"{}\" not Base 64 encoded.').format(segments[13]))
         signature = base64.urlsafe_b64encode(signature).replace(b'=', b'')
@@ -554,7 +561,7 @@ class Receipt(object):
         try:
             encTurnoverCounter = utils.b32decode(
                     segments[10].encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, UnicodeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
                         ).format(segments[10]))
@@ -563,7 +570,7 @@ class Receipt(object):
         try:
             previousChain = utils.b32decode(
                     segments[12].encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, UnicodeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
                         ).format(segments[12]))
@@ -572,7 +579,7 @@ class Receipt(object):
         try:
             signature = utils.b32decode(
                     segments[13].encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, UnicodeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
                         ).format(segments[13]))
@@ -684,7 +691,7 @@ class Receipt(object):
         try:
             utils.urlsafe_b64decode(utils.restoreb64padding(
                 signature).encode("utf-8"))
-        except (TypeError, binascii.Error):
+        except (TypeError, UnicodeError, binascii.Error):
             raise MalformedReceiptException(self.receiptId,
                     _('Signature \"{}\" not Base 64 URL encoded.').format(signature))
 
-- 
2.43.0


From d0516876df40a2efba46b4ca287daabf1ad2c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:52 +0000
Subject: [PATCH 14/25] fix: report malformed AES keys in cryptographic
 material containers as invalid keys

---
 librksv/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 9efec82..1afcbbb 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -26,6 +26,7 @@ from builtins import range
 from .gettext_helper import _
 
 import base64
+import binascii
 import codecs
 import datetime
 import io
@@ -95,14 +96,20 @@ def loadKeyFromJson(json):
     :param json: The JSON data.
     :return: The key as a byte list or None if there is no key element in
     the JSON.
+    :throws: InvalidKeyException
     """
     b64Key = None
     try:
         b64Key = json['base64AESKey']
     except KeyError:
         return None
+    except TypeError:
+        raise InvalidKeyException()
 
-    return loadB64Key(b64Key.encode('utf-8'))
+    try:
+        return loadB64Key(b64Key.encode('utf-8'))
+    except (AttributeError, TypeError, UnicodeError, binascii.Error):
+        raise InvalidKeyException()
 
 def sha256(data):
     """
-- 
2.43.0


From 08b4f24c40966cb5e5ed7fefaab5c502561027db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0000
Subject: [PATCH 15/25] fix: install gettext without the unicode argument
 removed in Python 3

---
 cert_extract.py           | 4 ++--
 convert.py                | 4 ++--
 demo.py                   | 4 ++--
 img_decode.py             | 4 ++--
 key_store.py              | 4 ++--
 librksv/gettext_helper.py | 8 ++++++++
 merge.py                  | 4 ++--
 receipt.py                | 4 ++--
 receipt_host.py           | 4 ++--
 rktool.py                 | 4 ++--
 split.py                  | 4 ++--
 verification_state.py     | 4 ++--
 verify.py                 | 4 ++--
 verify_receipt.py         | 4 ++--
 14 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/cert_extract.py b/cert_extract.py
index cc71ad6..9519cc2 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -20,8 +20,8 @@
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import os
 import sys
diff --git a/convert.py b/convert.py
index 81263d8..3a100dd 100755
--- a/convert.py
+++ b/convert.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import sys
 
diff --git a/demo.py b/demo.py
index d56d710..ec88121 100755
--- a/demo.py
+++ b/demo.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import datetime
 import random
diff --git a/img_decode.py b/img_decode.py
index 8662b35..ccaa851 100755
--- a/img_decode.py
+++ b/img_decode.py
@@ -70,8 +70,8 @@ except ImportError:
         return syms
 
 if __name__ == "__main__":
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     import sys
     from PIL import Image
diff --git a/key_store.py b/key_store.py
index 5ad9762..9a9bf3a 100755
--- a/key_store.py
+++ b/key_store.py
@@ -24,8 +24,8 @@ import configparser
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import utils
 from librksv.key_store import KeyStore
diff --git a/librksv/gettext_helper.py b/librksv/gettext_helper.py
index 851f95d..1a510a0 100644
--- a/librksv/gettext_helper.py
+++ b/librksv/gettext_helper.py
@@ -22,3 +22,11 @@ import six
 # We always want text to be unicode encoded.
 _gt = gettext.translation('rktool', './lang', fallback=True)
 _ = _gt.ugettext if six.PY2 else _gt.gettext
+
+def install():
+    """
+    Installs the gettext function under the name _ in the builtins namespace,
+    so that scripts can use it. Text is always unicode encoded.
+    """
+    kwargs = {'unicode': True} if six.PY2 else {}
+    gettext.install('rktool', './lang', **kwargs)
diff --git a/merge.py b/merge.py
index 80e6ff4..3b28d3c 100755
--- a/merge.py
+++ b/merge.py
@@ -22,8 +22,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/receipt.py b/receipt.py
index ada49d9..0e68de2 100755
--- a/receipt.py
+++ b/receipt.py
@@ -21,8 +21,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv.receipt import Receipt
 from librksv.url_receipt_helpers import getBasicCodeFromURL
diff --git a/receipt_host.py b/receipt_host.py
index 6e4077c..a2bb3dd 100755
--- a/receipt_host.py
+++ b/receipt_host.py
@@ -24,8 +24,8 @@ import sys
 
 from flask import Flask, abort, jsonify, make_response
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import receipt
diff --git a/rktool.py b/rktool.py
index 6fa1884..5c36e86 100755
--- a/rktool.py
+++ b/rktool.py
@@ -1040,8 +1040,8 @@ class RKToolApp(App):
         return sm
 
 if __name__ == '__main__':
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     if platform != 'android':
         from kivy.config import Config
diff --git a/split.py b/split.py
index 40174d7..2d0dfe4 100755
--- a/split.py
+++ b/split.py
@@ -22,8 +22,8 @@ from builtins import int
 import os
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/verification_state.py b/verification_state.py
index edd509f..16b86c7 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -26,8 +26,8 @@ import copy
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import utils
diff --git a/verify.py b/verify.py
index dbf7ae4..b97aefb 100755
--- a/verify.py
+++ b/verify.py
@@ -24,8 +24,8 @@ from builtins import range
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import key_store
diff --git a/verify_receipt.py b/verify_receipt.py
index 03bdd76..94a8bbf 100755
--- a/verify_receipt.py
+++ b/verify_receipt.py
@@ -24,8 +24,8 @@ import sys
 
 from six import string_types
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import key_store
 from librksv import receipt
-- 
2.43.0


From 2a9ce2d4a108412f1280f993b454a1b948e0e03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:16 +0000
Subject: [PATCH 16/25] fix: report malformed key stores when importing them in
 the GUI

---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index 5c36e86..b3e5398 100755
--- a/rktool.py
+++ b/rktool.py
@@ -943,7 +943,7 @@ class KeyStoreWidget(BoxLayout):
 
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError,
-                configparser.Error) as e:
+                key_store.KeyStoreException) as e:
             displayError(e)
         except KeyError:
             displayError(_("Malformed crypto container"))
-- 
2.43.0


From a29d4dc4b5d9071069e5f0cd2ad6b8bc57403f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:16 +0000
Subject: [PATCH 17/25] fix: import getBasicCodeFromURL in
 verification_state.py

---
 verification_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verification_state.py b/verification_state.py
index 16b86c7..3aa0c6b 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -32,6 +32,7 @@ gettext_helper.install()
 from librksv import depparser
 from librksv import utils
 from librksv.receipt import Receipt
+from librksv.url_receipt_helpers import getBasicCodeFromURL
 from librksv.verification_state import (CashRegisterState, ClusterState,
         DEFAULT_USED_RECEIPT_IDS_BACKEND)
 
-- 
2.43.0


From d9e27f0605f781e3f3223514adae5d6bee5027e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:16 +0000
Subject: [PATCH 18/25] fix: decode DEP receipts before displaying them in the
 GUI

---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index b3e5398..a86f941 100755
--- a/rktool.py
+++ b/rktool.py
@@ -600,7 +600,7 @@ class VerifyDEPWidget(BoxLayout):
     def viewReceipt(self, btn):
         try:
             recs, cert, cert_list = self.dep[btn.group_id]
-            jws = recs[btn.receipt_id]
+            jws = depparser.expandDEPReceipt(recs[btn.receipt_id])
             rec, prefix = receipt.Receipt.fromJWSString(jws)
 
             self._receipt_view = getModalView()
-- 
2.43.0


From ad43b0c1c57307adce3906cba4eaf1e35145f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:15 +0000
Subject: [PATCH 19/25] fix: compare receipt IDs with non-ASCII digits without
 crashing

---
 librksv/verification_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7fb81ea..aa7b137 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -228,7 +228,7 @@ class UsedReceiptIdsSortedNatural(UsedReceiptIdsBackend):
     # https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     @staticmethod
     def _key(recId):
-        convert = lambda text: int(text) if text.isdigit() else text.lower()
+        convert = lambda text: int(text) if _numSplitRegex.match(text) else text.lower()
         return [ convert(c) for c in _numSplitRegex.split(recId) ]
 
     def __init__(self):
-- 
2.43.0


From 2e745b41f7c29c4d0ca46bc35af113f6a22726ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:15 +0000
Subject: [PATCH 20/25] fix: report sums too large for a float as malformed

---
 librksv/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 1afcbbb..4f2a9c7 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -341,10 +341,15 @@ def getReceiptFloat(fstr):
         return None
 
     try:
-        return float(fstr.replace(',', '.'))
+        ret = float(fstr.replace(',', '.'))
     except:
         return None
 
+    # too large to be represented as a float
+    if ret in (float('inf'), float('-inf')):
+        return None
+    return ret
+
 def skipBOM(fd):
     """
     Removes the BOM from UTF-8 files so that we can live in peace.
-- 
2.43.0


From d14c9301a8319922230a4315c432a158b5023c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:51 +0000
Subject: [PATCH 21/25] fix: report malformed AES keys as invalid keys

---
 librksv/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 4f2a9c7..09850a1 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -88,7 +88,10 @@ def raiseForKey(key, algorithm):
         raise InvalidKeyException()
 
 def loadB64Key(b64Key):
-    return b64decode(b64Key)
+    try:
+        return b64decode(b64Key)
+    except (TypeError, UnicodeError, binascii.Error):
+        raise InvalidKeyException()
 
 def loadKeyFromJson(json):
     """
-- 
2.43.0


From 5edfb5dd8c98cc37426e6a57677bcce654a0b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:22 +0000
Subject: [PATCH 22/25] fix: show all library errors of background tasks in the
 GUI

---
 rktool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rktool.py b/rktool.py
index a86f941..8062f23 100755
--- a/rktool.py
+++ b/rktool.py
@@ -250,7 +250,7 @@ def verifyReceiptTask(rec, prefix, store):
         rv = verify_receipt.ReceiptVerifier.fromKeyStore(store)
         rv.verify(rec, prefix)
         return None
-    except receipt.ReceiptException as e:
+    except utils.RKSVException as e:
         return e
 
 class ViewReceiptWidget(BoxLayout):
@@ -566,21 +566,21 @@ def verifyDEP_prepare_Task(dep, store, key, nprocs):
         inargs = verify.prepareVerificationTuples(pkgs, key, None, rState,
                 verification_state.UsedReceiptIdsUnique)
         return None, inargs
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_main_Task(args):
     try:
         rState, usedRecIds = verify.verifyGroupsWithVerifiersTuple(args)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_finalize_Task(outUsedRecIds, usedRecIds):
     try:
         usedRecIds.merge(outUsedRecIds)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 # TODO: add a visual way to determine where an error happened?
-- 
2.43.0


From b0656074334c8735f6b3ac15fdb36521c2a02fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 23/25] fix: reject signatures checked with keys that are not
 EC keys

---
 librksv/algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librksv/algorithms.py b/librksv/algorithms.py
index c0b9d1d..dadd9bf 100644
--- a/librksv/algorithms.py
+++ b/librksv/algorithms.py
@@ -29,6 +29,7 @@ import base64
 import jwt
 import jwt.algorithms
 
+from cryptography.hazmat.primitives.asymmetric import ec
 from six import binary_type
 
 from . import utils
@@ -186,6 +187,10 @@ class R1(AlgorithmI):
         return sig
 
     def verify(self, jwsString, pubKey):
+        # PyJWT raises a TypeError for keys that cannot be used with ES256
+        if not isinstance(pubKey, ec.EllipticCurvePublicKey):
+            return False
+
         payload = None
         try:
             payload = jwt.PyJWS().decode(jwsString, pubKey)
-- 
2.43.0


From fda9a134ad71c50e5650abdf1ad6a0dd2971ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 24/25] fix: leave the cash register unchanged when creating a
 receipt fails

---
 librksv/cashreg.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/librksv/cashreg.py b/librksv/cashreg.py
index df6b3b2..4868f9b 100644
--- a/librksv/cashreg.py
+++ b/librksv/cashreg.py
@@ -140,29 +140,31 @@ class CashRegister(CashRegisterI):
                 sumEStr, '', sigSystem.serial, '')
         rec = MangledReceipt(regularRec, override)
 
+        # the register only advances once the receipt has been signed
+        turnoverCounterSize = self.turnoverCounterSize
+        turnoverCounter = self.turnoverCounter
         if 'turnoverCounterSize' in override:
-            self.turnoverCounterSize = override['turnoverCounterSize']
+            turnoverCounterSize = override['turnoverCounterSize']
 
         encTurnoverCounter = None
         if dummy:
             encTurnoverCounter = b'TRA'
 
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
         else:
             # TODO: check if counter can still be represented with
             # given size
-            self.turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
+            turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
 
             if reversal:
                 encTurnoverCounter = b'STO'
             else:
                 utils.raiseForKey(self.key, algorithm)
                 encTurnoverCounter = algorithm.encryptTurnoverCounter(rec,
-                        self.turnoverCounter, self.key,
-                        self.turnoverCounterSize)
+                        turnoverCounter, self.key, turnoverCounterSize)
         encTurnoverCounter = base64.b64encode(encTurnoverCounter)
         encTurnoverCounter = encTurnoverCounter.decode("utf-8")
         if 'encTurnoverCounter' not in override:
@@ -175,14 +177,17 @@ class CashRegister(CashRegisterI):
         prefix = override.get('algorithmPrefix', prefix)
         jwsString = sigSystem.sign(rec.toPayloadString(prefix),
                 algorithm)
-        self.lastReceiptSig = jwsString
-        
+
         header, payload, signature = jwsString.split('.')
         header = base64.urlsafe_b64decode(
                 utils.restoreb64padding(header).encode('utf-8')
                 ).decode('utf-8')
         rec.sign(header, signature)
 
+        self.turnoverCounterSize = turnoverCounterSize
+        self.turnoverCounter = turnoverCounter
+        self.lastReceiptSig = jwsString
+
         if 'header' in override:
             rec.header = override['header']
         if 'signature' in override:
-- 
2.43.0


From dac848b53db00afe2678fbf27e0d905739a8bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:08 +0000
Subject: [PATCH 25/25] fix: do not take a later receipt for the start receipt
 of a register

---
 librksv/verification_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index aa7b137..0b3410e 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -386,7 +386,8 @@ class CashRegisterState(object):
         else:
             self.needRestoreReceipt = False
 
-        if not self.startReceiptJWS:
+        # Only the very first receipt of a register is its start receipt.
+        if not self.startReceiptJWS and not self.lastReceiptJWS:
             self.startReceiptJWS = depparser.expandDEPReceipt(group[0])
 
         self.lastReceiptJWS = depparser.expandDEPReceipt(group[-1])
-- 
2.43.0

