From 13504e6641c1019e2813c3a181b57cf6e9814c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 01/44] fix: raise RecordOverflow (misspelled alert class) on
 oversized records

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 0f60da4..c1591ec 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -216,7 +216,7 @@ class TLSConnection:
         if content_length > max_fragment_length:
             e =(f"the record is longer ({content_length} bytes) than "
                 f"the allowed maximum ({max_fragment_length} bytes)")
-            raise alerts.RecordOverFlow(e)
+            raise alerts.RecordOverflow(e)
 
         if len(self._input_data) - 5 < content_length:
             return None
-- 
2.43.0


From 41bc5c636fe78749baf481153f5e375f9d695d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 02/44] fix: don't pad an exactly full record with one more
 chunk, exceeding the record limit

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index c1591ec..5f98848 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -351,7 +351,7 @@ class TLSConnection:
 
         for fragment in fragments:
             fragment_length = len(fragment) + 1 + self._cipher.tag_length
-            padding = b'\x00' * (chunk_size - fragment_length % chunk_size)
+            padding = b'\x00' * (-fragment_length % chunk_size)
             data = b''.join([
                 fragment,
                 content_type.to_bytes(1, 'big'),
-- 
2.43.0


From 2425bdd51fa178414ab13a83a546e29567fdfb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 03/44] fix: answer records that cannot be deprotected with
 bad_record_mac

---
 src/siotls/crypto/ciphers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index c1f693e..2934f2b 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -150,7 +150,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
         try:
             return self._read_cipher.decrypt(self._next_read_nonce(), data, associated_data)
         except InvalidTag as exc:
-            raise alerts.DecryptError from exc
+            raise alerts.BadRecordMac from exc
 
     def _next_read_nonce(self):
         nonce = self._read_iv ^ next(self._read_seq)
-- 
2.43.0


From 5462c6fdb4e1edc7e0b61704c8094406858a691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 04/44] fix: set the missing usage limit of the CCM cipher
 suites, negotiating them crashed

---
 src/siotls/crypto/ciphers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index 2934f2b..4ff2d6e 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -349,7 +349,7 @@ class TLS_AES_128_CCM_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 16
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = 1 << 23  # RFC-9147 section 4.5.3
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
 
@@ -361,6 +361,6 @@ class TLS_AES_128_CCM_8_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 8
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = 1 << 23  # RFC-9147 section 4.5.3
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
-- 
2.43.0


From 30fddc03932f5297d3d844c86091360053a6184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 05/44] fix: reassemble coalesced and tiny handshake fragments,
 reject those spanning a key change

---
 src/siotls/connection.py | 63 +++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 5f98848..bd7d803 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -5,8 +5,8 @@ import types
 
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
-from siotls.iana import AlertLevel, ContentType, TLSVersion
-from siotls.serial import SerialIO, TLSBufferError, TooMuchDataError
+from siotls.iana import AlertLevel, ContentType, HandshakeType, TLSVersion
+from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
 from . import states
@@ -21,6 +21,15 @@ cipher_plaintext = types.SimpleNamespace(
     should_rekey=False,
 )
 
+# the keys change right after those, they must end their record
+KEY_CHANGE_HANDSHAKES = (
+    HandshakeType.CLIENT_HELLO,
+    HandshakeType.SERVER_HELLO,
+    HandshakeType.END_OF_EARLY_DATA,
+    HandshakeType.FINISHED,
+    HandshakeType.KEY_UPDATE,
+)
+
 def startswith_change_cipher_spec(data):
     return data[0:1] == b'\x14' and data[3:6] == b'\x00\x01\x01'
 
@@ -116,6 +125,9 @@ class TLSConnection:
                     raise alerts.DecodeError(*exc.args) from exc
                 logger.debug("received %s", content_name)
                 if content_type == ContentType.HANDSHAKE:
+                    if self._input_handshake and content.msg_type in KEY_CHANGE_HANDSHAKES:
+                        e = f"{content_name} doesn't align with a record boundary"
+                        raise alerts.UnexpectedMessage(e)
                     self._transcript.update(
                         content_data, self.config.other_side, content.msg_type
                     )
@@ -247,44 +259,29 @@ class TLSConnection:
         # handshakes can be fragmented over multiple following records,
         # other content types are not subject to fragmentation
 
-        record = self._read_next_record()
-        if not record:
-            return None
-
-        content_type, fragment = record
-        if not self._input_handshake:
-            if content_type != ContentType.HANDSHAKE:
-                return content_type, fragment
-            else:
-                self._input_handshake = fragment
-        elif content_type != ContentType.HANDSHAKE:
-            e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                f"but {content_type} found")
-            raise alerts.UnexpectedMessage(e)
-        else:
-            self._input_handshake += fragment
+        # multiple handshakes can be coalesced inside a single record
+        while True:
+            if len(self._input_handshake) >= 4:  # noqa: PLR2004
+                length = 4 + int.from_bytes(self._input_handshake[1:4], 'big')
+                if len(self._input_handshake) >= length:
+                    content_data = self._input_handshake[:length]
+                    self._input_handshake = self._input_handshake[length:]
+                    return ContentType.HANDSHAKE, content_data
 
-        if len(self._input_handshake) < 4:  # noqa: PLR2004
-            return None
-        handshake_length = int.from_bytes(self._input_handshake[1:4], 'big')
-        while len(self._input_handshake) - 4 < handshake_length:
             record = self._read_next_record()
             if not record:
                 return None
             content_type, fragment = record
             if content_type != ContentType.HANDSHAKE:
-                e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                    f"but {content_type} found")
+                if self._input_handshake:
+                    e =(f"expected {ContentType.HANDSHAKE} continuation record "
+                        f"but {content_type} found")
+                    raise alerts.UnexpectedMessage(e)
+                return content_type, fragment
+            if not fragment:
+                e = f"empty {ContentType.HANDSHAKE} record"
                 raise alerts.UnexpectedMessage(e)
-            self._input_handshake += fragment
-        if len(self._input_handshake) - 4 > handshake_length:
-            e = (f"expected {handshake_length + 4} bytes but "
-                 f"{len(self._input_handshake)} read")
-            raise TooMuchDataError(e)
-
-        content_data = self._input_handshake
-        self._input_handshake = bytearray()
-        return content_type, content_data
+            self._input_handshake = self._input_handshake + fragment
 
     def _send_content(self, content: Content):
         if (content.content_type == ContentType.APPLICATION_DATA
-- 
2.43.0


From df7008e3b54d472be80776b87bac8b622f975ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 06/44] fix: reject deprotected records longer than the maximum
 fragment length

---
 src/siotls/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index bd7d803..8de7ae5 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -247,6 +247,10 @@ class TLSConnection:
 
     def _decrypt(self, header, fragment):
         innertext = self._cipher.decrypt(fragment, header)
+        if len(innertext) > self.max_fragment_length + 1:
+            e =(f"the deprotected record is longer ({len(innertext) - 1} bytes) "
+                f"than the allowed maximum ({self.max_fragment_length} bytes)")
+            raise alerts.RecordOverflow(e)
         for i in range(len(innertext) -1, -1, -1):
             if innertext[i]:
                 break
-- 
2.43.0


From b2ffdd59b82a7634954ac8c5c571207b79a703a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 07/44] fix: keep a failed connection failed, ignore what it
 receives and don't fail at failing

---
 src/siotls/connection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 8de7ae5..e5cd256 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -99,12 +99,14 @@ class TLSConnection:
         if not data:
             e = f"empty data: {data}"
             raise ValueError(e)
+        if isinstance(self._state, states.Failed):
+            return  # ignore all incoming data
         if not self._state.can_receive:
             e = f"cannot receive new messages in state {self._state.name()}"
             raise alerts.UnexpectedMessage(e)
         self._input_data += data
 
-        while True:
+        while not isinstance(self._state, states.Failed):
             try:
                 next_content = self._read_next_content()
                 if not next_content:
@@ -162,6 +164,8 @@ class TLSConnection:
         raise NotImplementedError
 
     def close_receiving_end(self):
+        if isinstance(self._state, states.Failed):
+            return
         if not self.is_post_handshake():
             logger.warning("EOF or CloseNotify alert during handshake")
             self._fail()
@@ -183,7 +187,8 @@ class TLSConnection:
                 e =("can only fail with a fatal alert which "
                     f"{fatal_alert!r} is not")
                 raise ValueError(e)
-            self._send_content(fatal_alert)
+            if self._state.can_send:
+                self._send_content(fatal_alert)
         self._move_to_state(states.Failed)
 
     def is_post_handshake(self):
-- 
2.43.0


From 477a8e2c0f54a44bb40240222da5e8b840f47864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 08/44] fix: stop receiving upon close_notify, fail when it
 occurs during the handshake

---
 src/siotls/connection.py      | 8 +++-----
 src/siotls/states/__init__.py | 3 +--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index e5cd256..60cee77 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -99,14 +99,12 @@ class TLSConnection:
         if not data:
             e = f"empty data: {data}"
             raise ValueError(e)
-        if isinstance(self._state, states.Failed):
+        if isinstance(self._state, states.Failed) or not self._state.can_receive:
             return  # ignore all incoming data
-        if not self._state.can_receive:
-            e = f"cannot receive new messages in state {self._state.name()}"
-            raise alerts.UnexpectedMessage(e)
         self._input_data += data
 
-        while not isinstance(self._state, states.Failed):
+        # MUST ignore what is received after a close notify
+        while self._state.can_receive and not isinstance(self._state, states.Failed):
             try:
                 next_content = self._read_next_content()
                 if not next_content:
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 9498b89..da01439 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -36,9 +36,8 @@ class State(metaclass=abc.ABCMeta):
         if content.content_type == ContentType.ALERT:
             alert = content
             if alert.description == AlertDescription.CLOSE_NOTIFY:
-                self._move_to_state(Closed)
-                self._state.recv_closed = True
                 logger.debug("%s closed its sending side", self.config.other_side)
+                self.close_receiving_end()
             elif alert.level == AlertLevel.WARNING:
                 logger.debug("warning alert from %s: %s",
                      self.config.other_side, content.description.name)
-- 
2.43.0


From e6f943ab278b2eff30635ab1d3407fb584f39b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 09/44] fix: closing the sending end during the handshake
 doesn't make the connection established

---
 src/siotls/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 60cee77..efee8de 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -173,6 +173,10 @@ class TLSConnection:
         self._state.can_receive = False
 
     def close_sending_end(self):
+        if not self.is_post_handshake():
+            self._send_content(alerts.CloseNotify())
+            self._fail()
+            return
         if not isinstance(self._state, states.Closed | states.Failed):
             self._move_to_state(states.Closed)
         if self._state.can_send:
-- 
2.43.0


From 98184a76805b36a95d9450235ca94b41cd0bc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 10/44] fix: don't send application data under the server
 handshake keys

---
 src/siotls/states/server/wait_finished.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/server/wait_finished.py b/src/siotls/states/server/wait_finished.py
index fcba4d2..6b87ce7 100644
--- a/src/siotls/states/server/wait_finished.py
+++ b/src/siotls/states/server/wait_finished.py
@@ -7,7 +7,7 @@ from .. import Connected, State
 class ServerWaitFinished(State):
     can_receive = True
     can_send = True
-    can_send_application_data = True
+    can_send_application_data = False
 
     def __init__(self, connection, server_finished_transcript_hash):
         super().__init__(connection)
-- 
2.43.0


From d2642df18d7295f15a6c448a81efd1d1f580b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 11/44] fix: treat all but the closure alerts as errors, known
 or not, and don't answer them

---
 src/siotls/contents/alerts.py |  2 +-
 src/siotls/states/__init__.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/siotls/contents/alerts.py b/src/siotls/contents/alerts.py
index 8cc376b..dd6c516 100644
--- a/src/siotls/contents/alerts.py
+++ b/src/siotls/contents/alerts.py
@@ -77,7 +77,7 @@ class Alert(Content, Serializable, metaclass=RegistryMeta):
         try:
             cls = abc[AlertDescription(description)]
         except ValueError:
-            cls = type(f'UnknownAlert{description}', (Alert,), {
+            cls = type(f'UnknownAlert{description}', (Alert, TLSFatalAlert), {
                 'level': level,
                 'description': description,
                 '_struct': '',
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index da01439..49ef795 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -1,7 +1,7 @@
 import abc
 import logging
 
-from siotls.contents.alerts import Alert, UnexpectedMessage
+from siotls.contents.alerts import UnexpectedMessage
 from siotls.iana import AlertDescription, AlertLevel, ContentType
 
 logger = logging.getLogger('siotls.connection')
@@ -38,12 +38,13 @@ class State(metaclass=abc.ABCMeta):
             if alert.description == AlertDescription.CLOSE_NOTIFY:
                 logger.debug("%s closed its sending side", self.config.other_side)
                 self.close_receiving_end()
-            elif alert.level == AlertLevel.WARNING:
-                logger.debug("warning alert from %s: %s",
-                     self.config.other_side, content.description.name)
+            elif alert.description == AlertDescription.USER_CANCELED:
+                logger.debug("%s canceled the handshake", self.config.other_side)
             else:
+                # all others are errors, regardless of their level
+                self._fail()
                 e = f"fatal alert from {self.config.other_side}"
-                raise Alert[alert.description](e)
+                raise type(alert)(e, level=AlertLevel.FATAL)
         elif content.content_type == ContentType.HEARTBEAT:
             raise NotImplementedError
         else:
-- 
2.43.0


From ee699e5174fa637111a78c9fe4f0f3759c202522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 12/44] fix: refuse malformed messages with an alert instead of
 crashing on them

---
 src/siotls/contents/__init__.py               |  2 +-
 src/siotls/contents/handshakes/__init__.py    |  2 +-
 src/siotls/contents/handshakes/certificate.py | 21 ++++++++++++-------
 .../extensions/supported_versions.py          |  3 +--
 .../handshakes/extensions/use_srtp.py         |  6 +++++-
 5 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/siotls/contents/__init__.py b/src/siotls/contents/__init__.py
index 9530461..046c305 100644
--- a/src/siotls/contents/__init__.py
+++ b/src/siotls/contents/__init__.py
@@ -15,7 +15,7 @@ class Content:
     def get_parser(abc, content_type):
         try:
             return _content_registry[ContentType(content_type)]
-        except ValueError as exc:
+        except (KeyError, ValueError) as exc:
             raise DecodeError(*exc.args) from exc
 
 
diff --git a/src/siotls/contents/handshakes/__init__.py b/src/siotls/contents/handshakes/__init__.py
index 03d7247..bfca910 100644
--- a/src/siotls/contents/handshakes/__init__.py
+++ b/src/siotls/contents/handshakes/__init__.py
@@ -45,7 +45,7 @@ class Handshake(Content, Serializable):
         length = stream.read_int(3)
         try:
             cls = _handshake_registry[HandshakeType(msg_type)]
-        except ValueError as exc:
+        except (KeyError, ValueError) as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
         with stream.limit(length):
             return cls.parse_body(stream, **kwargs)
diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 9328735..6ba848f 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -1,13 +1,14 @@
 import dataclasses
 import textwrap
 
+from cryptography.exceptions import UnsupportedAlgorithm
 from cryptography.hazmat.primitives.asymmetric.types import PublicKeyTypes
 from cryptography.hazmat.primitives.serialization import (
     Encoding,
     PublicFormat,
     load_der_public_key,
 )
-from cryptography.x509 import Certificate, load_der_x509_certificate
+from cryptography.x509 import Certificate, InvalidVersion, load_der_x509_certificate
 
 from siotls.contents import alerts
 from siotls.iana import CertificateType, ExtensionType, HandshakeType
@@ -49,7 +50,10 @@ class CertificateEntry(Serializable):
     @classmethod
     def parse(cls, stream, **kwargs):
         data = stream.read_var(3)
-        certificate = cls._parse_certificate(data)
+        try:
+            certificate = cls._parse_certificate(data)
+        except (ValueError, InvalidVersion, UnsupportedAlgorithm) as exc:
+            raise alerts.BadCertificate(*exc.args) from exc
 
         extensions = []
         list_stream = SerialIO(stream.read_var(2))
@@ -131,22 +135,25 @@ class Certificate(Handshake, SerializableBody):
 
     @classmethod
     def parse_body(cls, stream, *, config, nconfig, **kwargs):
+        if nconfig is None:
+            e = "cannot process Certificate before the hellos"
+            raise alerts.UnexpectedMessage(e)
         try:
             Entry = _certificate_entry_registry[  # noqa: N806
                 nconfig.client_certificate_type
                 if config.other_side == 'client' else
                 nconfig.server_certificate_type
             ]
-        except IndexError as exc:
+        except KeyError as exc:
             raise alerts.CertificateUnknown(*exc.args) from exc
 
         certificate_request_context = stream.read_var(1)
 
         certificate_list = []
-        with stream.limit(stream.read_int(3)) as limit:
-            while stream.tell() < limit:
-                certificate = Entry.parse(stream, **kwargs)
-                certificate_list.append(certificate)
+        list_stream = SerialIO(stream.read_var(3))
+        while not list_stream.is_eof():
+            certificate = Entry.parse(list_stream, **kwargs)
+            certificate_list.append(certificate)
 
         try:
             return cls(certificate_request_context, certificate_list)
diff --git a/src/siotls/contents/handshakes/extensions/supported_versions.py b/src/siotls/contents/handshakes/extensions/supported_versions.py
index 2afa44b..278723e 100644
--- a/src/siotls/contents/handshakes/extensions/supported_versions.py
+++ b/src/siotls/contents/handshakes/extensions/supported_versions.py
@@ -64,10 +64,9 @@ class SupportedVersionsResponse(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         try:
-            selected_version = TLSVersion(stream.read_int(2))
+            return cls(TLSVersion(stream.read_int(2)))
         except ValueError as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
-        return cls(selected_version)
 
     def serialize_body(self):
         return self.selected_version.to_bytes(2, 'big')
diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index 7fcc2ce..076db58 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -2,6 +2,7 @@ import dataclasses
 import itertools
 import textwrap
 
+from siotls.contents import alerts
 from siotls.iana import ExtensionType, HandshakeType
 from siotls.serial import SerializableBody
 
@@ -37,7 +38,10 @@ class UseSRTP(Extension, SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         # cannot use read_listint as the type in uint8[2], not uint16
         it = iter(stream.read_var(2))
-        protection_profiles = list(zip(it, it, strict=True))
+        try:
+            protection_profiles = list(zip(it, it, strict=True))
+        except ValueError as exc:
+            raise alerts.DecodeError(*exc.args) from exc
         mki = stream.read_var(1)
 
         return cls(protection_profiles, mki)
-- 
2.43.0


From 286e9dad37d98a78d8aa64d727a82976d5485b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 13/44] fix: parse NewSessionTicket, KeyUpdate and
 EndOfEarlyData, ignore the session tickets

---
 .../contents/handshakes/end_of_early_data.py  | 15 ++++-
 src/siotls/contents/handshakes/key_update.py  | 28 +++++++-
 .../contents/handshakes/new_session_ticket.py | 64 ++++++++++++++++++-
 src/siotls/iana.py                            |  5 ++
 src/siotls/states/connected.py                |  6 +-
 5 files changed, 111 insertions(+), 7 deletions(-)

diff --git a/src/siotls/contents/handshakes/end_of_early_data.py b/src/siotls/contents/handshakes/end_of_early_data.py
index 3c98386..63d876b 100644
--- a/src/siotls/contents/handshakes/end_of_early_data.py
+++ b/src/siotls/contents/handshakes/end_of_early_data.py
@@ -1,4 +1,5 @@
 import dataclasses
+import textwrap
 
 from siotls.iana import HandshakeType
 from siotls.serial import SerializableBody
@@ -9,4 +10,16 @@ from . import Handshake
 @dataclasses.dataclass(init=False)
 class EndOfEarlyData(Handshake, SerializableBody):
     msg_type = HandshakeType.END_OF_EARLY_DATA
-    ...
+    _struct = textwrap.dedent("""
+        struct {} EndOfEarlyData;
+    """).strip('\n')
+
+    def __init__(self):
+        pass
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        return cls()
+
+    def serialize_body(self):
+        return b''
diff --git a/src/siotls/contents/handshakes/key_update.py b/src/siotls/contents/handshakes/key_update.py
index f1b3d38..139e765 100644
--- a/src/siotls/contents/handshakes/key_update.py
+++ b/src/siotls/contents/handshakes/key_update.py
@@ -1,6 +1,8 @@
 import dataclasses
+import textwrap
 
-from siotls.iana import HandshakeType
+from siotls.contents import alerts
+from siotls.iana import HandshakeType, KeyUpdateRequest
 from siotls.serial import SerializableBody
 
 from . import Handshake
@@ -9,4 +11,26 @@ from . import Handshake
 @dataclasses.dataclass(init=False)
 class KeyUpdate(Handshake, SerializableBody):
     msg_type = HandshakeType.KEY_UPDATE
-    ...
+    _struct = textwrap.dedent("""
+        enum {
+            update_not_requested(0), update_requested(1), (255)
+        } KeyUpdateRequest;
+
+        struct {
+            KeyUpdateRequest request_update;
+        } KeyUpdate;
+    """).strip('\n')
+    request_update: KeyUpdateRequest
+
+    def __init__(self, request_update):
+        self.request_update = request_update
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        try:
+            return cls(KeyUpdateRequest(stream.read_int(1)))
+        except ValueError as exc:
+            raise alerts.IllegalParameter(*exc.args) from exc
+
+    def serialize_body(self):
+        return self.request_update.to_bytes(1, 'big')
diff --git a/src/siotls/contents/handshakes/new_session_ticket.py b/src/siotls/contents/handshakes/new_session_ticket.py
index cf05b47..c0d6c8d 100644
--- a/src/siotls/contents/handshakes/new_session_ticket.py
+++ b/src/siotls/contents/handshakes/new_session_ticket.py
@@ -1,12 +1,70 @@
 import dataclasses
+import textwrap
 
-from siotls.iana import HandshakeType
-from siotls.serial import SerializableBody
+from siotls.iana import ExtensionType, HandshakeType
+from siotls.serial import SerialIO, SerializableBody
 
 from . import Handshake
+from .extensions import Extension
 
 
 @dataclasses.dataclass(init=False)
 class NewSessionTicket(Handshake, SerializableBody):
     msg_type = HandshakeType.NEW_SESSION_TICKET
-    ...
+    _struct = textwrap.dedent("""
+        struct {
+            uint32 ticket_lifetime;
+            uint32 ticket_age_add;
+            opaque ticket_nonce<0..255>;
+            opaque ticket<1..2^16-1>;
+            Extension extensions<0..2^16-2>;
+        } NewSessionTicket;
+    """).strip('\n')
+    ticket_lifetime: int
+    ticket_age_add: int
+    ticket_nonce: bytes
+    ticket: bytes
+    extensions: dict[ExtensionType | int, Extension]
+
+    def __init__(
+        self,
+        ticket_lifetime,
+        ticket_age_add,
+        ticket_nonce,
+        ticket,
+        extensions: list[Extension]
+    ):
+        self.ticket_lifetime = ticket_lifetime
+        self.ticket_age_add = ticket_age_add
+        self.ticket_nonce = ticket_nonce
+        self.ticket = ticket
+        self.extensions = {ext.extension_type: ext for ext in extensions}
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):
+        ticket_lifetime = stream.read_int(4)
+        ticket_age_add = stream.read_int(4)
+        ticket_nonce = stream.read_var(1)
+        ticket = stream.read_var(2)
+
+        extensions = []
+        list_stream = SerialIO(stream.read_var(2))
+        while not list_stream.is_eof():
+            extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
+            extensions.append(extension)
+
+        return cls(ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions)
+
+    def serialize_body(self):
+        extensions = b''.join(ext.serialize() for ext in self.extensions.values())
+
+        return b''.join([
+            self.ticket_lifetime.to_bytes(4, 'big'),
+            self.ticket_age_add.to_bytes(4, 'big'),
+            len(self.ticket_nonce).to_bytes(1, 'big'),
+            self.ticket_nonce,
+            len(self.ticket).to_bytes(2, 'big'),
+            self.ticket,
+            len(extensions).to_bytes(2, 'big'),
+            extensions,
+        ])
diff --git a/src/siotls/iana.py b/src/siotls/iana.py
index 0b6592a..78120f9 100644
--- a/src/siotls/iana.py
+++ b/src/siotls/iana.py
@@ -171,6 +171,11 @@ class HeartbeatMode(Hex1Enum):
     PEER_ALLOWED_TO_SEND = 1
     PEER_NOT_ALLOWED_TO_SEND = 2
 
+class KeyUpdateRequest(Hex1Enum):
+    UPDATE_NOT_REQUESTED = 0
+    UPDATE_REQUESTED = 1
+
+
 class MaxFragmentLengthCode(Hex1Enum):
     MAX_512 = 1
     MAX_1024 = 2
diff --git a/src/siotls/states/connected.py b/src/siotls/states/connected.py
index 221c805..6687cac 100644
--- a/src/siotls/states/connected.py
+++ b/src/siotls/states/connected.py
@@ -1,4 +1,4 @@
-from siotls.iana import ContentType
+from siotls.iana import ContentType, HandshakeType
 
 from . import State
 
@@ -9,6 +9,10 @@ class Connected(State):
     can_send_application_data = True
 
     def process(self, message):
+        if (self.config.side == 'client'
+            and message.content_type == ContentType.HANDSHAKE
+            and message.msg_type is HandshakeType.NEW_SESSION_TICKET):
+            return  # session resumption is not implemented, ignore
         if message.content_type != ContentType.APPLICATION_DATA:
             super().process(message)
             return
-- 
2.43.0


From 27d202fa526a333f5a156efa9123096af45281f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 14/44] fix: bind the CertificateVerify scheme to the key type
 and curve, alert upon bad signatures

---
 src/siotls/crypto/signatures.py               | 38 ++++++++++++++++++-
 .../states/client/wait_certificate_verify.py  | 31 +++++++++++----
 src/siotls/states/server/wait_client_hello.py |  7 +++-
 3 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 2eff651..5dd9da8 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -5,12 +5,27 @@ from typing import ClassVar
 
 from cryptography.hazmat._oid import PublicKeyAlgorithmOID, SignatureAlgorithmOID
 from cryptography.hazmat.primitives import hashes
-from cryptography.hazmat.primitives.asymmetric import ec, padding, types
+from cryptography.hazmat.primitives.asymmetric import (
+    ec,
+    ed448,
+    ed25519,
+    padding,
+    rsa,
+    types,
+)
 
 from siotls.iana import SignatureScheme
 from siotls.utils import RegistryMeta
 
 
+_PUBLIC_KEY_OIDS = {
+    rsa.RSAPublicKey: PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5,
+    ec.EllipticCurvePublicKey: PublicKeyAlgorithmOID.EC_PUBLIC_KEY,
+    ed25519.Ed25519PublicKey: PublicKeyAlgorithmOID.ED25519,
+    ed448.Ed448PublicKey: PublicKeyAlgorithmOID.ED448,
+}
+
+
 class TLSSignatureSuite(metaclass=RegistryMeta):
     _pubkey_registry: ClassVar = {}
     _registry: ClassVar = {}
@@ -38,6 +53,24 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
     def for_public_key_oid(cls, public_key_oid):
         return cls._pubkey_registry[public_key_oid]
 
+    @classmethod
+    def for_certificate_verify(cls, public_key, public_key_oid=None):
+        """
+        The suites that can be used in CertificateVerify with that key,
+        the RSASSA-PKCS1-v1_5 ones are for certificates only.
+        """
+        if public_key_oid is None:
+            public_key_oid = next((
+                oid for key_type, oid in _PUBLIC_KEY_OIDS.items()
+                if isinstance(public_key, key_type)
+            ), None)
+        return {
+            iana_id: suite
+            for iana_id, suite in cls._pubkey_registry.get(public_key_oid, {}).items()
+            if not isinstance(getattr(suite, 'padding', None), padding.PKCS1v15)
+            if not hasattr(suite, 'curve') or suite.curve.name == public_key.curve.name
+        }
+
     def __init__(self, key):
         self.key = key
 
@@ -135,18 +168,21 @@ class TLS_ECDSA_SECP256R1_SHA256(_ECDSAMixin, TLSSignatureSuite):
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA256
     digestmod = hashes.SHA256()
+    curve = ec.SECP256R1()
 
 class TLS_ECDSA_SECP384R1_SHA384(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp384r1_sha384
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA384
     digestmod = hashes.SHA384()
+    curve = ec.SECP384R1()
 
 class TLS_ECDSA_SECP521R1_SHA512(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp521r1_sha512
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA512
     digestmod = hashes.SHA512()
+    curve = ec.SECP521R1()
 
 
 class _EDMixin:
diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index a5027c0..e53b045 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,3 +1,5 @@
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
+
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
 from siotls.iana import ContentType, HandshakeType
@@ -34,14 +36,27 @@ class ClientWaitCertificateVerify(State):
             raise alerts.IllegalParameter(e)
         self.nconfig.signature_algorithm = content.algorithm
 
-        public_key = (
-            self.nconfig.peer_public_key
-            or self.nconfig.peer_certificate.public_key()
-        )
-        TLSSignatureSuite[content.algorithm](public_key).verify(
-            content.signature,
-            CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
-        )
+        if self.nconfig.peer_public_key:
+            public_key = self.nconfig.peer_public_key
+            public_key_oid = None
+        else:
+            try:
+                public_key = self.nconfig.peer_certificate.public_key()
+            except (ValueError, UnsupportedAlgorithm) as exc:
+                raise alerts.UnsupportedCertificate(*exc.args) from exc
+            public_key_oid = self.nconfig.peer_certificate.public_key_algorithm_oid
+        suites = TLSSignatureSuite.for_certificate_verify(public_key, public_key_oid)
+        if content.algorithm not in suites:
+            e = f"the server's selected {content.algorithm} doesn't fit its public key"
+            raise alerts.IllegalParameter(e)
+        try:
+            suites[content.algorithm](public_key).verify(
+                content.signature,
+                CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
+            )
+        except InvalidSignature as exc:
+            e = "invalid signature in CertificateVerify"
+            raise alerts.DecryptError(e) from exc
 
         self._move_to_state(
             ClientWaitFinished,
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 16febe9..246457b 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -278,8 +278,11 @@ class ServerWaitClientHello(State):
     def _negociate_signature_algorithms(self, sa_ext):
         if not sa_ext:
             raise alerts.MissingExtension(ExtensionType.SIGNATURE_ALGORITHMS)
-        pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
-        suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+        suites = TLSSignatureSuite.for_certificate_verify(
+            self.config.private_key.public_key(),
+            self.config.certificate_chain[0].public_key_algorithm_oid
+            if self.config.certificate_chain else None,
+        )
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self._signature = suites[server_suite](self.config.private_key)
-- 
2.43.0


From 9a7c8844ec104454ba4195af0dbc9dec42b4de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 15/44] fix: always refuse an empty server certificate list

---
 src/siotls/states/client/wait_certificate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 69036f2..253b57b 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -32,10 +32,9 @@ class ClientWaitCertificate(State):
             super().process(content)
             return
 
-        if self.config.require_peer_authentication:
-            if not content.certificate_list:
-                e = "missing certificate"
-                raise alerts.BadCertificate(e)
+        if not content.certificate_list:
+            e = "missing certificate"
+            raise alerts.BadCertificate(e)
         self._check_certificate_types(content.certificate_list)
         match self.nconfig.server_certificate_type:
             case CertificateType.X509:
-- 
2.43.0


From 3214aa44c02c39d2457895f86e71a5b490868bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 16/44] fix: report the negotiated key exchange and signature
 algorithm

---
 src/siotls/states/client/wait_server_hello.py | 2 +-
 src/siotls/states/server/wait_client_hello.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index f3e2c53..96d0e34 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -111,5 +111,5 @@ class ClientWaitServerHello(State):
             except ValueError as exc:
                 e = "error while resuming key share"
                 raise alerts.IllegalParameter(e) from exc
-            self.nconfig.key_exchanges = key_share_ext.group
+            self.nconfig.key_exchange = key_share_ext.group
             return shared_key
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 246457b..10c91b0 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -286,6 +286,7 @@ class ServerWaitClientHello(State):
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self._signature = suites[server_suite](self.config.private_key)
+                self.nconfig.signature_algorithm = server_suite
                 return [], []
         e = "no common signature algorithm found"
         raise alerts.HandshakeFailure(e)
-- 
2.43.0


From 06d4b405d23efad32b8023256e8a85140ec4d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 17/44] fix: echo heartbeat requests and discard the others
 instead of crashing

---
 src/siotls/connection.py         | 26 ++++++++++++++++++--------
 src/siotls/contents/heartbeat.py |  4 ++--
 src/siotls/states/__init__.py    |  2 --
 src/siotls/states/connected.py   | 25 ++++++++++++++++++++++++-
 4 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index efee8de..5612bdf 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -5,7 +5,13 @@ import types
 
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
-from siotls.iana import AlertLevel, ContentType, HandshakeType, TLSVersion
+from siotls.iana import (
+    AlertLevel,
+    ContentType,
+    HandshakeType,
+    HeartbeatMessageType,
+    TLSVersion,
+)
 from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
@@ -219,6 +225,13 @@ class TLSConnection:
             return self.nconfig.max_fragment_length
         return self.config.max_fragment_length
 
+    @property
+    def _max_content_length(self):
+        if self._cipher.must_encrypt:
+            # room for content-type and aead's additionnal data
+            return self.max_fragment_length - 1 - self._cipher.tag_length
+        return self.max_fragment_length
+
     def _read_next_record(self):
         while startswith_change_cipher_spec(self._input_data):
             self._input_data = self._input_data[6:]
@@ -303,9 +316,10 @@ class TLSConnection:
             e = f"cannot send content in state {self._state.name()}"
             raise TLSError(e)
         if (content.content_type == ContentType.HEARTBEAT
-            and (not self.config.can_send_heartbeat
-                 or self.nconfig and not self.nconfig.can_send_heartbeat)):
+            and content.heartbeat_type == HeartbeatMessageType.heartbeat_request
+            and not (self.nconfig and self.nconfig.can_send_heartbeat)):
             e = "cannot send heartbeat on this connection"
+            raise TLSError(e)
 
         logger.debug("will send %s", type(content).__name__)
         data = content.serialize()
@@ -313,11 +327,7 @@ class TLSConnection:
         if content.content_type == ContentType.HANDSHAKE:
             self._transcript.update(data, self.config.side, content.msg_type)
 
-        fragment_length = self.max_fragment_length
-        if self._cipher.must_encrypt:
-            # room for content-type and aead's additionnal data
-            fragment_length -= 1 + self._cipher.tag_length
-
+        fragment_length = self._max_content_length
         if len(data) <= fragment_length:
             fragments = (data,)
         elif content.can_fragment:
diff --git a/src/siotls/contents/heartbeat.py b/src/siotls/contents/heartbeat.py
index f99c508..8a53350 100644
--- a/src/siotls/contents/heartbeat.py
+++ b/src/siotls/contents/heartbeat.py
@@ -47,9 +47,9 @@ class Heartbeat(Content, Serializable):
         return cls(heartbeat_type, payload, padding)
 
     def serialize(self):
-        return b''.join(
+        return b''.join([
             self.heartbeat_type.to_bytes(1, 'big'),
             len(self.payload).to_bytes(2, 'big'),
             self.payload,
             self.padding,
-        )
+        ])
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 49ef795..99716cc 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -45,8 +45,6 @@ class State(metaclass=abc.ABCMeta):
                 self._fail()
                 e = f"fatal alert from {self.config.other_side}"
                 raise type(alert)(e, level=AlertLevel.FATAL)
-        elif content.content_type == ContentType.HEARTBEAT:
-            raise NotImplementedError
         else:
             e =(f"cannot process {type(content).__name__} in state "
                 f"{self.name()}")
diff --git a/src/siotls/states/connected.py b/src/siotls/states/connected.py
index 6687cac..00c1e38 100644
--- a/src/siotls/states/connected.py
+++ b/src/siotls/states/connected.py
@@ -1,7 +1,12 @@
-from siotls.iana import ContentType, HandshakeType
+import secrets
+
+from siotls.contents import Heartbeat
+from siotls.iana import ContentType, HandshakeType, HeartbeatMessageType
 
 from . import State
 
+HEARTBEAT_MIN_PADDING = 16
+
 
 class Connected(State):
     can_receive = True
@@ -13,8 +18,26 @@ class Connected(State):
             and message.content_type == ContentType.HANDSHAKE
             and message.msg_type is HandshakeType.NEW_SESSION_TICKET):
             return  # session resumption is not implemented, ignore
+        if message.content_type == ContentType.HEARTBEAT:
+            self._process_heartbeat(message)
+            return
         if message.content_type != ContentType.APPLICATION_DATA:
             super().process(message)
             return
 
         self._application_data.extend(message.content_data)
+
+    def _process_heartbeat(self, heartbeat):
+        if (heartbeat.heartbeat_type == HeartbeatMessageType.heartbeat_request
+            and self.nconfig.can_echo_heartbeat
+            and self.can_send
+            and len(heartbeat.padding) >= HEARTBEAT_MIN_PADDING
+        ):
+            response = Heartbeat(
+                HeartbeatMessageType.heartbeat_response,
+                heartbeat.payload,
+                secrets.token_bytes(HEARTBEAT_MIN_PADDING),
+            )
+            if len(response.serialize()) <= self._max_content_length:
+                self._send_content(response)
+        # silently discard all others, no request was ever sent
-- 
2.43.0


From 1ed8e3447d4dadfdae551f0735b44c6909b23bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 18/44] fix: support HelloRetryRequest on the client side
 (transcript, config, checks)

---
 src/siotls/states/client/start.py             | 10 +++---
 src/siotls/states/client/wait_server_hello.py | 33 +++++++++++--------
 src/siotls/states/server/wait_client_hello.py |  2 +-
 src/siotls/transcript.py                      | 28 +++++++++-------
 4 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 6b1f584..4962eed 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -27,9 +27,10 @@ class ClientStart(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, cookie=None):
+    def __init__(self, connection, cookie=None, key_exchange=None):
         super().__init__(connection)
         self._cookie = cookie
+        self._key_exchange = key_exchange or self.config.key_exchanges[0]
         self._key_shares = {}
 
     def initiate_connection(self):
@@ -65,10 +66,9 @@ class ClientStart(State):
         if self._cookie:
             extensions.append(Cookie(self._cookie))
 
-        key_exchange = self.config.key_exchanges[0]
-        private_key, my_key_share = TLSKeyExchange[key_exchange].init()
-        self._key_shares[key_exchange] = private_key
-        extensions.append(KeyShareRequest({key_exchange: my_key_share}))
+        private_key, my_key_share = TLSKeyExchange[self._key_exchange].init()
+        self._key_shares[self._key_exchange] = private_key
+        extensions.append(KeyShareRequest({self._key_exchange: my_key_share}))
 
         self._send_content(ClientHello(
             self._client_unique, self.config.cipher_suites, extensions,
diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index 96d0e34..b59c2c1 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -1,5 +1,3 @@
-import dataclasses
-
 from siotls.configuration import TLSNegotiatedConfiguration
 from siotls.contents import ChangeCipherSpec, alerts
 from siotls.crypto import TLSCipherSuite, TLSKeyExchange
@@ -23,8 +21,8 @@ class ClientWaitServerHello(State):
     def process(self, content):
         if (content.content_type != ContentType.HANDSHAKE
             or (content.msg_type is not HandshakeType.SERVER_HELLO
-                and (content.msg_type is not HandshakeType_.HELLO_RETRY_REQUEST
-                     and self._is_first_server_hello))):
+                and not (content.msg_type is HandshakeType_.HELLO_RETRY_REQUEST
+                         and self._is_first_server_hello))):
             super().process(content)
             return
 
@@ -33,6 +31,11 @@ class ClientWaitServerHello(State):
                 f"in ClientHello: {self.config.cipher_suites}")
             raise alerts.IllegalParameter(e)
 
+        if not self._is_first_server_hello and content.cipher_suite != self.nconfig.cipher_suite:
+            e =(f"the server's selected {content.cipher_suite} isn't the "
+                f"{self.nconfig.cipher_suite} selected in HelloRetryRequest")
+            raise alerts.IllegalParameter(e)
+
         if self._is_first_server_hello:
             self.nconfig = TLSNegotiatedConfiguration()
             self.nconfig.cipher_suite = content.cipher_suite
@@ -49,6 +52,9 @@ class ClientWaitServerHello(State):
     def _process_hello_retry_request(self, hello_retry_request):
         from . import ClientStart
 
+        self._negociate_supported_versions(
+            hello_retry_request.extensions.get(ExtensionType.SUPPORTED_VERSIONS))
+
         key_share = hello_retry_request.extensions.get(ExtensionType.KEY_SHARE)
         if not key_share:
             e = "missing Key Share in HelloRetryRequest"
@@ -58,17 +64,18 @@ class ClientWaitServerHello(State):
                 f"offered in ClientHello: {self.config.key_exchanges}")
             raise alerts.IllegalParameter(e)
 
-        # make sure we select the algorithms selected by the server
-        self.config = dataclasses.replace(self.config,
-            cipher_suites=[self.nconfig.cipher_suite],
-            key_exchanges=[key_share.selected_group],
-        )
-
-        self._transcript.do_hrr_dance(self.config.side, self._client_hello_transcript_hash)
+        if key_share.selected_group in self._key_shares:
+            e =(f"the server's selected {key_share.selected_group} was "
+                "shared in ClientHello already")
+            raise alerts.IllegalParameter(e)
 
         cookie_ext = hello_retry_request.extensions.get(ExtensionType.COOKIE)
-        self._move_to_state(ClientStart, cookie=cookie_ext and cookie_ext.cookie)
-        self.connection.initiate_connection()
+        self._move_to_state(
+            ClientStart,
+            cookie=cookie_ext and cookie_ext.cookie,
+            key_exchange=key_share.selected_group,
+        )
+        self._state.initiate_connection()
 
     def _process_server_hello(self, server_hello):
         self._server_unique = server_hello.random
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 10c91b0..44dbbe6 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -120,7 +120,7 @@ class ServerWaitClientHello(State):
         )
 
         clear_extensions, _ = server_extensions
-        self._transcript.do_hrr_dance(self.config.side, self._transcript.digest())
+
         self._send_content(HelloRetryRequest(
             HelloRetryRequest.random,
             session_id,
diff --git a/src/siotls/transcript.py b/src/siotls/transcript.py
index fa6ea99..087dd0d 100644
--- a/src/siotls/transcript.py
+++ b/src/siotls/transcript.py
@@ -49,7 +49,7 @@ otherwise the transcript wouldn't be right.
 import hashlib
 
 from siotls.contents import alerts
-from siotls.iana import HandshakeType
+from siotls.iana import HandshakeType, HandshakeType_
 
 ORDER = [
     ('server', HandshakeType.SERVER_HELLO, False),
@@ -84,7 +84,7 @@ class Transcript:
         self._hashes.clear()
         self._hashes.append(hash_)
 
-    def do_hrr_dance(self, side, client_hello_transcript_hash):
+    def _do_hrr_dance(self):
         """
         Transcript-Hash(ClientHello1, HelloRetryRequest, ... Mn) =
             Hash(message_hash ||        /* Handshake type */
@@ -92,13 +92,16 @@ class Transcript:
                  Hash(ClientHello1) ||  /* Hash of ClientHello1 */
                  HelloRetryRequest  || ... || Mn)
         """
-        self._hashes[0] = hashlib.new(self._hashes[0].name, b''.join([
-            HandshakeType.MESSAGE_HASH.to_bytes(1, 'big'),
-            b'\x00\x00',
-            self._hashes[0].digest_size.to_bytes(1, 'big'),
-            client_hello_transcript_hash,
-        ]))
-        self._order_i = (side == 'client')
+        self._hashes = [
+            hashlib.new(hash_.name, b''.join([
+                HandshakeType.MESSAGE_HASH.to_bytes(1, 'big'),
+                b'\x00\x00',
+                hash_.digest_size.to_bytes(1, 'big'),
+                hash_.digest(),
+            ]))
+            for hash_ in self._hashes
+        ]
+        self._order_i = 0
 
     def update(self, handshake_data, side, handshake_type):
         if self._order_i == len(ORDER):
@@ -115,6 +118,10 @@ class Transcript:
                 f"but found {(side, handshake_type)} instead")
             raise alerts.UnexpectedMessage(e)
 
+        if handshake_type is HandshakeType_.HELLO_RETRY_REQUEST:
+            # only ClientHello1 was hashed so far
+            self._do_hrr_dance()
+
         for hash_ in self._hashes:
             hash_.update(handshake_data)
         self._order_i += 1
@@ -125,5 +132,4 @@ class Transcript:
     def hexdigest(self):
         return self._hashes[0].hexdigest()
 
-    def clone(self):
-        return self._hashes[0].close()
+
-- 
2.43.0


From 94966521079bed551eaa7f6a83d172d10357e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 19/44] fix: refuse a session id echo that differs from the
 (empty) one in ClientHello

---
 src/siotls/states/client/wait_server_hello.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index b59c2c1..6d646e2 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -31,6 +31,10 @@ class ClientWaitServerHello(State):
                 f"in ClientHello: {self.config.cipher_suites}")
             raise alerts.IllegalParameter(e)
 
+        if content.legacy_session_id_echo:
+            e = "the server echoed a session id that wasn't sent in ClientHello"
+            raise alerts.IllegalParameter(e)
+
         if not self._is_first_server_hello and content.cipher_suite != self.nconfig.cipher_suite:
             e =(f"the server's selected {content.cipher_suite} isn't the "
                 f"{self.nconfig.cipher_suite} selected in HelloRetryRequest")
-- 
2.43.0


From 4e1efc1ba6e3fee5cb8469aafd92c6cec9b99bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 20/44] fix: offer the configured max fragment length, don't
 enforce it before it is negotiated

---
 src/siotls/connection.py          | 4 +++-
 src/siotls/states/client/start.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 5612bdf..57498aa 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -10,6 +10,7 @@ from siotls.iana import (
     ContentType,
     HandshakeType,
     HeartbeatMessageType,
+    MaxFragmentLengthOctets,
     TLSVersion,
 )
 from siotls.serial import SerialIO, TLSBufferError
@@ -223,7 +224,8 @@ class TLSConnection:
     def max_fragment_length(self):
         if self.nconfig and self.nconfig.max_fragment_length is not None:
             return self.nconfig.max_fragment_length
-        return self.config.max_fragment_length
+        # the limit of the configuration is but an offer
+        return MaxFragmentLengthOctets.MAX_16384
 
     @property
     def _max_content_length(self):
diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 4962eed..240ebf4 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -8,6 +8,7 @@ from siotls.contents.handshakes.extensions import (
     Heartbeat,
     HostName,
     KeyShareRequest,
+    MaxFragmentLength,
     OCSPStatusRequest,
     ServerCertificateTypeRequest,
     ServerNameListRequest,
@@ -16,7 +17,7 @@ from siotls.contents.handshakes.extensions import (
     SupportedVersionsRequest,
 )
 from siotls.crypto import TLSKeyExchange
-from siotls.iana import HeartbeatMode, TLSVersion
+from siotls.iana import HeartbeatMode, MaxFragmentLengthOctets, TLSVersion
 
 from .. import State
 from . import ClientWaitServerHello
@@ -55,6 +56,8 @@ class ClientStart(State):
             else:
                 # server_hostname is an ip address
                 pass  # the ServerName extension doesn't support ip addresses
+        if self.config.max_fragment_length != MaxFragmentLengthOctets.MAX_16384:
+            extensions.append(MaxFragmentLength(octets=self.config.max_fragment_length))
         if self.config.alpn:
             extensions.append(ALPN(self.config.alpn))
         if self.config.public_key:  # x509 assumed when extension missing
-- 
2.43.0


From 693094b3db017b71496793e52fb89435fd4e94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 21/44] fix: make raw public keys work (encoding, trusted keys,
 server without support)

---
 .../contents/handshakes/extensions/certificate_type.py       | 3 +--
 src/siotls/states/client/wait_certificate.py                 | 2 +-
 src/siotls/states/client/wait_encrypted_extensions.py        | 5 +++++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index 6ae28fe..c30b499 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -34,7 +34,7 @@ class _CertificateTypeRequest(SerializableBody):
 
     def serialize_body(self):
         return b''.join([
-            len(self.certificate_type).to_bytes(1, 'big'),
+            len(self.certificate_types).to_bytes(1, 'big'),
             *[ct.to_bytes(1, 'big') for ct in self.certificate_types],
         ])
 
@@ -55,7 +55,6 @@ class _CertificateTypeResponse(SerializableBody):
             raise alerts.IllegalParameter(*exc.args) from exc
         return cls(certificate_type)
 
-    @classmethod
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 253b57b..d64f1ba 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -123,7 +123,7 @@ class ClientWaitCertificate(State):
         public_key = content.certificate_list[0].public_key
         self.nconfig.peer_public_key = public_key
         if (self.config.require_peer_authentication
-            and public_key not in self.config.trusted_public_keys()
+            and public_key not in self.config.trusted_public_keys
         ):
             e = "untrusted raw public key"
             raise alerts.BadCertificate(e)
diff --git a/src/siotls/states/client/wait_encrypted_extensions.py b/src/siotls/states/client/wait_encrypted_extensions.py
index 9d4ab8a..b030a8b 100644
--- a/src/siotls/states/client/wait_encrypted_extensions.py
+++ b/src/siotls/states/client/wait_encrypted_extensions.py
@@ -83,6 +83,11 @@ class ClientWaitEncryptedExtensions(State):
 
     def _negociate_server_certificate_type(self, ext):
         if not ext:
+            if CertificateType.X509 not in (
+                self.config.peer_certificate_types or [CertificateType.X509]
+            ):
+                e = "the server doesn't support raw public keys"
+                raise alerts.UnsupportedCertificate(e)
             self.nconfig.server_certificate_type = CertificateType.X509
         elif ext.certificate_type in self.config.peer_certificate_types:
             self.nconfig.server_certificate_type = ext.certificate_type
-- 
2.43.0


From 80cf2b263d547c9876af8a6804c948378b534042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 22/44] fix: check the revocation and status of the verified
 chain, don't crash on unusual status

---
 src/siotls/crypto/ocsp.py                     | 32 +++++++------
 src/siotls/states/client/wait_certificate.py  | 46 ++++++++++++-------
 src/siotls/states/server/wait_client_hello.py | 40 ++++++++++------
 3 files changed, 74 insertions(+), 44 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 57e6ee7..bab5e8f 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -1,8 +1,9 @@
 from datetime import datetime
 
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
+from cryptography.x509 import ExtensionNotFound, UniformResourceIdentifier
 from cryptography.x509.ocsp import (
     OCSPCertStatus,
     OCSPRequestBuilder,
@@ -19,12 +20,16 @@ OCSP = AuthorityInformationAccessOID.OCSP
 
 
 def get_ocsp_url(certificate):
+    try:
+        access_descriptions = certificate.extensions.get_extension_for_oid(AIA).value
+    except ExtensionNotFound:
+        return None
     return next(
         (
             access_description.access_location.value
-            for access_description
-            in certificate.extensions.get_extension_for_oid(AIA).value
+            for access_description in access_descriptions
             if access_description.access_method == OCSP
+            if isinstance(access_description.access_location, UniformResourceIdentifier)
         ),
         None
     )
@@ -65,16 +70,12 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is not valid yet"
         raise ValueError(e)
 
-    if res.next_update < datetime.utcnow():  # noqa: DTZ003
-        e = "response is expired"
-        raise ValueError(e)
-
-    if res.signature_algorithm_oid != issuer.signature_algorithm_oid:
-        e = "request and response signature algorithm mismatch"
+    if res.next_update is None:
+        e = "response has no expiration date"
         raise ValueError(e)
 
-    if res.signature_hash_algorithm != issuer.signature_hash_algorithm:
-        e = "request and response hash algorithm mismatch"
+    if res.next_update < datetime.utcnow():  # noqa: DTZ003
+        e = "response is expired"
         raise ValueError(e)
 
     try:
@@ -83,9 +84,14 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "unknown signature algorithm"
         raise ValueError(e) from exc
 
+    if Signature.pubkey_oid != issuer.public_key_algorithm_oid:
+        e = "response signature algorithm and issuer public key mismatch"
+        raise ValueError(e)
+
     try:
         Signature(issuer.public_key()).verify(res.signature, res.tbs_response_bytes)
-    except InvalidSignature as exc:
-        raise ValueError(exc.args[0]) from exc
+    except (InvalidSignature, UnsupportedAlgorithm) as exc:
+        e = "response signature is invalid"
+        raise ValueError(e) from exc
 
     return res.next_update
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index d64f1ba..9508b75 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -1,3 +1,4 @@
+from http.client import HTTPException
 from ipaddress import ip_address
 from itertools import pairwise
 
@@ -64,16 +65,18 @@ class ClientWaitCertificate(State):
     def _process_x509(self, content):
         self.nconfig.peer_certificate = content.certificate_list[0].certificate
         if self.config.require_peer_authentication:
-            self._verify_chain(content.certificate_list)
-            self._verify_revocation(content.certificate_list)
-            self._verify_statuses(content.certificate_list)
+            chain = self._verify_chain(content.certificate_list)
+            self._verify_revocation(chain)
+            self._verify_statuses(chain, content.certificate_list)
 
     def _verify_chain(self, certificate_entries):
         leaf, *intermediates = (e.certificate for e in certificate_entries)
         try:
-            self._get_verifier().verify(leaf, intermediates)
+            verified = self._get_verifier().verify(leaf, intermediates)
         except x509.verification.VerificationError as exc:
             raise alerts.BadCertificate from exc
+        # a list of certificates (server) or a VerifiedClient
+        return getattr(verified, 'chain', verified)
 
     def _get_verifier(self):
         if not self.server_hostname:
@@ -89,30 +92,39 @@ class ClientWaitCertificate(State):
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
 
-    def _verify_revocation(self, certificate_entries):
+    def _verify_revocation(self, chain):
         if not self.config.revocation_list:
             return
         is_revoked = self.config.revocation_list.get_revoked_certificate_by_serial_number
-        for entry in certificate_entries:
-            if is_revoked(entry.certificate):
-                e = f"{entry.certificate} found in revocation list"
+        for certificate in chain:
+            if is_revoked(certificate.serial_number):
+                e = f"{certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-    def _verify_statuses(self, certificate_entries):
-        for entry, issuer in pairwise(certificate_entries):
-            status = entry.extensions.get(ExtensionType.STATUS_REQUEST)
+    def _verify_statuses(self, chain, certificate_entries):
+        statuses = {
+            entry.certificate: entry.extensions[ExtensionType.STATUS_REQUEST]
+            for entry in reversed(certificate_entries)
+            if ExtensionType.STATUS_REQUEST in entry.extensions
+        }
+        for certificate, issuer in pairwise(chain):
+            status = statuses.get(certificate)
             if status and status.status_type == CertificateStatusType.OCSP:
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 ocsp_res = status.ocsp_response
                 try:
-                    validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     raise alerts.BadCertificate from exc
-            elif self.ocsp_service and (ocsp_url := get_ocsp_url(entry.certificate)):
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
-                ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
+            elif self.ocsp_service and (ocsp_url := get_ocsp_url(certificate)):
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 try:
-                    valid_until = validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
+                except (OSError, HTTPException, ValueError, RuntimeError) as exc:
+                    e = f"error while requesting the online status of {certificate}"
+                    raise alerts.BadCertificateStatusResponse(e) from exc
+                try:
+                    valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     self.ocsp_service.uncache(ocsp_req)
                     raise alerts.BadCertificate from exc
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 44dbbe6..1b1788b 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -1,5 +1,6 @@
 import dataclasses
 import logging
+from http.client import HTTPException
 
 from siotls.configuration import TLSNegotiatedConfiguration
 from siotls.contents import ChangeCipherSpec, alerts
@@ -170,20 +171,8 @@ class ServerWaitClientHello(State):
                 and self.ocsp_service
                 and len(self.config.certificate_chain) > 1
             ):
-                subject, issuer = self.config.certificate_chain[:2]
-                ocsp_url = get_ocsp_url(subject)
-                ocsp_req = make_ocsp_request(subject, issuer)
-                ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
-                try:
-                    valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
-                except ValueError as exc:
-                    self.ocsp_service.uncache(ocsp_req)
-                    w =("error while validating the online status of "
-                        "this server certificate, client likely to "
-                        "reject this connection: %s")
-                    logger.warning(w, exc.args[0])
-                else:
-                    self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
+                ocsp_res = self._get_ocsp_status(*self.config.certificate_chain[:2])
+                if ocsp_res:
                     certificate_list[0].extensions[
                         ExtensionType.STATUS_REQUEST
                     ] = OCSPStatus(ocsp_res)
@@ -196,6 +185,29 @@ class ServerWaitClientHello(State):
             )
         ))
 
+    def _get_ocsp_status(self, subject, issuer):
+        ocsp_url = get_ocsp_url(subject)
+        if not ocsp_url:
+            return None
+        ocsp_req = make_ocsp_request(subject, issuer)
+        try:
+            ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
+        except (OSError, HTTPException, ValueError, RuntimeError) as exc:
+            w = "error while requesting the online status of this server certificate: %s"
+            logger.warning(w, exc)
+            return None
+        try:
+            valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
+        except ValueError as exc:
+            self.ocsp_service.uncache(ocsp_req)
+            w =("error while validating the online status of "
+                "this server certificate, client likely to "
+                "reject this connection: %s")
+            logger.warning(w, exc)
+            return None
+        self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
+        return ocsp_res
+
     def _send_finished(self):
         self._send_content(Finished(
             self._cipher.sign_finish(self._transcript.digest())
-- 
2.43.0


From 7ac06833904c43b419fdbc14ba95e9275344e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 23/44] fix: serialization of CertificateAuthorities, UseSRTP,
 PreSharedKey, unicode names; comparable unknown extensions

---
 .../contents/handshakes/extensions/__init__.py   | 16 +++++++++++-----
 .../extensions/certificate_authorities.py        |  2 +-
 .../handshakes/extensions/pre_shared_key.py      | 13 +++++++++----
 .../handshakes/extensions/server_name.py         |  6 ++++--
 .../contents/handshakes/extensions/use_srtp.py   |  4 ++--
 src/siotls/states/client/wait_certificate.py     |  3 ++-
 6 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/__init__.py b/src/siotls/contents/handshakes/extensions/__init__.py
index 033f379..8f31a3f 100644
--- a/src/siotls/contents/handshakes/extensions/__init__.py
+++ b/src/siotls/contents/handshakes/extensions/__init__.py
@@ -1,4 +1,5 @@
 import dataclasses
+import functools
 import textwrap
 from collections import namedtuple
 
@@ -85,11 +86,7 @@ class Extension(Serializable):
                 raise alerts.IllegalParameter(e) from exc
 
         else:
-            cls = type(
-                f'UnkonwnExtension{extension_type}',
-                (UnknownExtension, Extension),
-                {'extension_type': extension_type},
-            )
+            cls = _make_unknown_extension(extension_type)
 
         extension_length = stream.read_int(2)
         with stream.limit(extension_length):
@@ -104,6 +101,15 @@ class Extension(Serializable):
         ])
 
 
+@functools.cache  # so that two extensions of the same type are comparable
+def _make_unknown_extension(extension_type):
+    return type(
+        f'UnkonwnExtension{extension_type}',
+        (UnknownExtension, Extension),
+        {'extension_type': extension_type},
+    )
+
+
 @dataclasses.dataclass(init=False)
 class UnknownExtension(SerializableBody):
     _handshake_types = (HandshakeType_.ANY,)
diff --git a/src/siotls/contents/handshakes/extensions/certificate_authorities.py b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
index bc95903..8061245 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_authorities.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
@@ -32,7 +32,7 @@ class CertificateAuthorities(Extension, SerializableBody):
         autorities = stream.read_listvar(2, 2)
         return cls(autorities)
 
-    def serialize(self):
+    def serialize_body(self):
         autorities = b''.join([
             b''.join([
                 len(autority).to_bytes(2, 'big'),
diff --git a/src/siotls/contents/handshakes/extensions/pre_shared_key.py b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
index da5fca5..6bc427c 100644
--- a/src/siotls/contents/handshakes/extensions/pre_shared_key.py
+++ b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
@@ -54,17 +54,22 @@ class PreSharedKeyRequest(Extension, SerializableBody):
     def serialize_body(self):
         identities = b''.join(
             b''.join([
-                len(pskid.identify).to_bytes(2, 'big'),
-                pskid.identify,
+                len(pskid.identity).to_bytes(2, 'big'),
+                pskid.identity,
                 pskid.obfuscated_ticket_age.to_bytes(4, 'big')
             ]) for pskid in self.identities
         )
 
+        binders = b''.join(
+            b''.join([len(binder).to_bytes(1, 'big'), binder])
+            for binder in self.binders
+        )
+
         return b''.join([
             len(identities).to_bytes(2, 'big'),
             identities,
-            len(self.binders).to_bytes(2, 'big'),
-            *self.binders,
+            len(binders).to_bytes(2, 'big'),
+            binders,
         ])
 
 
diff --git a/src/siotls/contents/handshakes/extensions/server_name.py b/src/siotls/contents/handshakes/extensions/server_name.py
index 30fe83f..5108017 100644
--- a/src/siotls/contents/handshakes/extensions/server_name.py
+++ b/src/siotls/contents/handshakes/extensions/server_name.py
@@ -76,9 +76,11 @@ class HostName(ServerName, SerializableBody):
             raise
 
     def serialize_body(self):
+        host_name = idna.encode(self.host_name, uts46=True)
+
         return b''.join([
-            len(self.host_name).to_bytes(2, 'big'),
-            idna.encode(self.host_name, uts46=True),
+            len(host_name).to_bytes(2, 'big'),
+            host_name,
         ])
 
 @dataclasses.dataclass(init=False)
diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index 076db58..7cfb76b 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -46,9 +46,9 @@ class UseSRTP(Extension, SerializableBody):
 
         return cls(protection_profiles, mki)
 
-    def serialize(self):
+    def serialize_body(self):
         return b''.join([
-            (len(self.mki) * 2).to_bytes(2, 'big'),
+            (len(self.protection_profiles) * 2).to_bytes(2, 'big'),
             bytes(itertools.chain.from_iterable(self.protection_profiles)),
             len(self.mki).to_bytes(1, 'big'),
             self.mki,
diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 9508b75..bdf3f3b 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -2,6 +2,7 @@ from http.client import HTTPException
 from ipaddress import ip_address
 from itertools import pairwise
 
+import idna
 from cryptography import x509
 
 from siotls.contents import alerts
@@ -87,7 +88,7 @@ class ClientWaitCertificate(State):
         try:
             server_ip = ip_address(self.server_hostname)
         except ValueError:
-            subject = x509.DNSName(self.server_hostname)
+            subject = x509.DNSName(idna.encode(self.server_hostname, uts46=True).decode())
         else:
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
-- 
2.43.0


From 02357daeb5a6dcedfba22db5c3db11dfc1febf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 24/44] fix: raise a TLSError upon reaching the usage limit of
 a key instead of crashing

---
 src/siotls/connection.py     |  5 ++++-
 src/siotls/crypto/ciphers.py | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 57498aa..3f47032 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -197,7 +197,10 @@ class TLSConnection:
                     f"{fatal_alert!r} is not")
                 raise ValueError(e)
             if self._state.can_send:
-                self._send_content(fatal_alert)
+                try:
+                    self._send_content(fatal_alert)
+                except TLSError as exc:
+                    logger.warning("cannot send %s: %s", fatal_alert, exc)
         self._move_to_state(states.Failed)
 
     def is_post_handshake(self):
diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index 4ff2d6e..6828153 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -9,7 +9,7 @@ from typing import ClassVar
 from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers import aead
 
-from siotls import key_logger
+from siotls import TLSError, key_logger
 from siotls.contents import alerts
 from siotls.crypto.hkdf import derive_secret, hkdf_expand_label, hkdf_extract
 from siotls.iana import CipherSuites
@@ -144,7 +144,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
     @property
     def should_rekey(self):
         return self._write_seq and (
-            self._write_seq.peek() >= self.usage_limit - REKEY_THRESHOLD)
+            self._write_seq.peek(self.usage_limit) >= self.usage_limit - REKEY_THRESHOLD)
 
     def decrypt(self, data, associated_data):
         try:
@@ -153,14 +153,24 @@ class TLSCipherSuite(metaclass=RegistryMeta):
             raise alerts.BadRecordMac from exc
 
     def _next_read_nonce(self):
-        nonce = self._read_iv ^ next(self._read_seq)
+        try:
+            seq = next(self._read_seq)
+        except StopIteration as exc:
+            e = f"received more than {self.usage_limit} records under the same key"
+            raise alerts.UnexpectedMessage(e) from exc
+        nonce = self._read_iv ^ seq
         return nonce.to_bytes(self.nonce_length, 'big')
 
     def encrypt(self, data, associated_data):
         return self._write_cipher.encrypt(self._next_write_nonce(), data, associated_data)
 
     def _next_write_nonce(self):
-        nonce = self._write_iv ^ next(self._write_seq)
+        try:
+            seq = next(self._write_seq)
+        except StopIteration as exc:
+            e = f"cannot send more than {self.usage_limit} records under the same key"
+            raise TLSError(e) from exc
+        nonce = self._write_iv ^ seq
         return nonce.to_bytes(self.nonce_length, 'big')
 
     # ------------------------------------------------------------------
-- 
2.43.0


From da83b09976d60ec22127eb459120bdaa5b845057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 25/44] fix: refuse compressed points and finite field shares
 of the wrong length

---
 src/siotls/crypto/key_exchanges.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/siotls/crypto/key_exchanges.py b/src/siotls/crypto/key_exchanges.py
index 88e9df4..1d2dce9 100644
--- a/src/siotls/crypto/key_exchanges.py
+++ b/src/siotls/crypto/key_exchanges.py
@@ -61,6 +61,9 @@ class _SECMixin:
 
     @classmethod
     def resume(cls, private_key, peer_key_share):
+        if peer_key_share[:1] != b'\x04':
+            e = "the peer's key is not an uncompressed point"
+            raise ValueError(e)
         peer_public_key = ec.EllipticCurvePublicKey.from_encoded_point(
             cls.curve(), peer_key_share
         )
@@ -97,6 +100,10 @@ class _FFDHEMixin:
             e = "the peer's key is too short"
             raise alerts.InsufficientSecurity(e)
 
+        if len(peer_key_share) != cls.p_length:
+            e = "the peer's key isn't as long as the prime"
+            raise ValueError(e)
+
         y = int.from_bytes(peer_key_share, 'big')
         if not (1 < y < cls.p - 1):
             e = "invalid peer ffdhe Y"
-- 
2.43.0


From 7bd60706a61be2107187ec23af2eccd4d34f04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 26/44] fix: send all the bytes, not just those the socket
 accepts at once

---
 src/siotls/wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/siotls/wrapper.py b/src/siotls/wrapper.py
index deb42aa..4e09488 100644
--- a/src/siotls/wrapper.py
+++ b/src/siotls/wrapper.py
@@ -15,14 +15,14 @@ class WrappedSocket:
     def do_handhskake(self):
         self.conn.initiate_connection()
         if self.conn.config.side == 'client':
-            self.sock.send(self.conn.data_to_send())
+            self.sock.sendall(self.conn.data_to_send())
         while not self.conn.is_post_handshake():
             if input_data := self.sock.recv(self.conn.max_fragment_length):
                 try:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
             else:
                 self.conn.close_receiving_end()  # it goes post handshake
 
@@ -34,7 +34,7 @@ class WrappedSocket:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
                 application_data += self.conn.data_to_read()
             else:
                 self.conn.close_receiving_end()
@@ -42,9 +42,9 @@ class WrappedSocket:
 
     def write(self, data):
         self.conn.send_data(data)
-        self.sock.send(self.conn.data_to_send())
+        self.sock.sendall(self.conn.data_to_send())
 
     def close(self):
         self.conn.close_sending_end()
         if close_notify := self.conn.data_to_send():
-            self.sock.send(close_notify)
+            self.sock.sendall(close_notify)
-- 
2.43.0


From 8e526c1ba620c95ce8aa34e408f2dc69c83281c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 27/44] fix: announce the length of the body in bytes, not in
 characters

---
 src/siotls/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/utils.py b/src/siotls/utils.py
index 2b31291..3f77273 100644
--- a/src/siotls/utils.py
+++ b/src/siotls/utils.py
@@ -74,7 +74,7 @@ def make_http11_request(host: str, method: str, path: str, body: str):
         host=host,
         method=method,
         path=path,
-        length=len(body),
+        length=len(body.encode()),
         body=body
     )
 
@@ -92,7 +92,7 @@ def make_http11_response(code: int, body: str, now: datetime | None = None):
     return HTTP11_RESPONSE.format(
         status=HTTPStatus(code),
         date=format_date_time(now.timestamp() if now else time.time()),
-        length=len(body),
+        length=len(body.encode()),
         body=body,
     )
 
-- 
2.43.0


From b6039a3edb866771bce459cc30cc68a2854af89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 28/44] fix: purge the status cache consistently, refuse
 negative content lengths

---
 src/siotls/ocsp_over_http.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 1e7ea5d..7f9e61b 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -23,7 +23,7 @@ def request(url, ocsp_req):
             logger.debug('cache hit')
             return cached_ocsp_res
         logger.debug('cache expired')
-        del _cache[ocsp_req]
+        uncache(ocsp_req)
     else:
         logger.debug('cache miss')
 
@@ -57,6 +57,9 @@ def request(url, ocsp_req):
         raise RuntimeError(e)
 
     content_length = int(http_res.getheader('Content-Length', OCSP_MAX_RESPONSE_SIZE))
+    if content_length < 0:
+        e = f"invalid HTTP content length: {content_length}"
+        raise RuntimeError(e)
     if content_length > OCSP_MAX_RESPONSE_SIZE:
         e =(f"OCSP response body too large ({content_length} bytes vs "
             f"{OCSP_MAX_RESPONSE_SIZE} bytes)")
@@ -69,10 +72,13 @@ def cache(until, ocsp_req, ocsp_res):
     if ocsp_req in _cache:
         return
     while len(_cache_limits) >= CACHE_ENTRIES:
-        uncache(heapq.heappop(_cache_limits)[1])
+        uncache(_cache_limits[0][1])
     heapq.heappush(_cache_limits, (until, ocsp_req))
     _cache[ocsp_req] = (ocsp_res, until)
 
 
 def uncache(ocsp_req):
-    _cache.pop(ocsp_req, None)
+    _, until = _cache.pop(ocsp_req, (None, None))
+    if until is not None:
+        _cache_limits.remove((until, ocsp_req))
+        heapq.heapify(_cache_limits)
-- 
2.43.0


From 1533ea0a3b388e0362050d2fbf48cf486bdd129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 29/44] fix: answer a certificate request with an empty
 certificate instead of crashing

---
 src/siotls/states/client/wait_cert_cr.py  | 6 ++++++
 src/siotls/states/client/wait_finished.py | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/siotls/states/client/wait_cert_cr.py b/src/siotls/states/client/wait_cert_cr.py
index 1197852..8187ed3 100644
--- a/src/siotls/states/client/wait_cert_cr.py
+++ b/src/siotls/states/client/wait_cert_cr.py
@@ -1,3 +1,4 @@
+from siotls.contents import alerts
 from siotls.iana import ContentType, HandshakeType
 
 from .. import State
@@ -19,6 +20,11 @@ class ClientWaitCertCr(State):
             super().process(content)
             return
 
+        if (content.msg_type == HandshakeType.CERTIFICATE_REQUEST
+            and content.certificate_request_context):
+            e = "the certificate request context must be empty during the handshake"
+            raise alerts.IllegalParameter(e)
+
         self._move_to_state(
             ClientWaitCertificate,
             must_authentify=(content.msg_type == HandshakeType.CERTIFICATE_REQUEST),
diff --git a/src/siotls/states/client/wait_finished.py b/src/siotls/states/client/wait_finished.py
index 4c81753..8c8859e 100644
--- a/src/siotls/states/client/wait_finished.py
+++ b/src/siotls/states/client/wait_finished.py
@@ -1,5 +1,5 @@
 from siotls.contents import alerts
-from siotls.contents.handshakes import Finished
+from siotls.contents.handshakes import Certificate, Finished
 from siotls.iana import ContentType, HandshakeType
 
 from .. import Connected, State
@@ -46,4 +46,6 @@ class ClientWaitFinished(State):
         self._move_to_state(Connected)
 
     def _send_certificate(self):
-        raise NotImplementedError
+        if self.config.private_key:
+            raise NotImplementedError
+        self._send_content(Certificate(b'', []))
-- 
2.43.0


From 4aa205da4f16ea594a71db7d3f4cf689f4c8f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 30/44] fix: refuse change cipher spec records received after
 the handshake

---
 src/siotls/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 3f47032..48a6a68 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -238,7 +238,9 @@ class TLSConnection:
         return self.max_fragment_length
 
     def _read_next_record(self):
-        while startswith_change_cipher_spec(self._input_data):
+        # compatibility messages, only legit during the handshake
+        while (not self.is_post_handshake()
+               and startswith_change_cipher_spec(self._input_data)):
             self._input_data = self._input_data[6:]
 
         if len(self._input_data) < 5:  # noqa: PLR2004
@@ -261,7 +263,7 @@ class TLSConnection:
         header = self._input_data[:5]
         fragment = self._input_data[5:content_length + 5]
         self._input_data = self._input_data[content_length + 5:]
-        if self._cipher.must_decrypt:
+        if self._cipher.must_decrypt and content_type != ContentType.CHANGE_CIPHER_SPEC:
             content_type, fragment = self._decrypt(header, fragment)
 
         if content_type == ContentType.CHANGE_CIPHER_SPEC:
-- 
2.43.0


From df0372b0681eb1b7ed56b19ad5d57b71921be0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:34 +0000
Subject: [PATCH 31/44] fix: protect what the server sends after its Finished
 with its application key

---
 src/siotls/crypto/ciphers.py                  | 20 ++++++++++++++++---
 src/siotls/states/server/wait_client_hello.py |  1 +
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index 6828153..0953757 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -80,6 +80,12 @@ class _TLSSecrets:
             server_handshake_traffic,
         )
 
+    def derive_server_application_secret(self, server_finished_transcript_hash):
+        assert self.state is CipherState.APPLICATION
+        derive_master_secret = self._make_deriver(
+            self._hashzeros, server_finished_transcript_hash, update_salt=False)
+        return derive_master_secret(b's ap traffic')
+
     def derive_master_secrets(
         self, server_finished_transcript_hash, client_finished_transcript_hash
     ):
@@ -270,6 +276,16 @@ class TLSCipherSuite(metaclass=RegistryMeta):
             key_logger.info("SERVER_HANDSHAKE_TRAFFIC_SECRET %s %s",
                 self._client_unique_hex, server_handshake_traffic.hex())
 
+    def derive_server_application_write_key(self, server_finished_transcript_hash):
+        # the server protects whatever it sends after its Finished with
+        # its application key, it still reads with the handshake one
+        server_application_traffic = self._secrets.derive_server_application_secret(
+            server_finished_transcript_hash)
+        server_key, server_iv = self._derive_key_and_iv(server_application_traffic)
+        self._write_cipher = self._ciphermod(server_key)
+        self._write_iv = int.from_bytes(server_iv, 'big')
+        self._write_seq = peekable(iter(range(self.usage_limit)))
+
     def derive_master_secrets(
         self, server_finished_transcript_hash, client_finished_transcript_hash
     ):
@@ -293,9 +309,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
             self._read_iv = int.from_bytes(server_iv, 'big')
             self._read_seq = peekable(iter(range(self.usage_limit)))
         else:
-            self._write_cipher = self._ciphermod(server_key)
-            self._write_iv = int.from_bytes(server_iv, 'big')
-            self._write_seq = peekable(iter(range(self.usage_limit)))
+            # the write key is in use since the server sent its Finished
             self._read_cipher = self._ciphermod(client_key)
             self._read_iv = int.from_bytes(client_iv, 'big')
             self._read_seq = peekable(iter(range(self.usage_limit)))
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 1b1788b..6ca0c80 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -87,6 +87,7 @@ class ServerWaitClientHello(State):
         self._send_finished()
 
         server_finished_transcript_hash = self._transcript.digest()
+        self._cipher.derive_server_application_write_key(server_finished_transcript_hash)
         if self.config.require_peer_authentication:
             self._move_to_state(ServerWaitFlight2, server_finished_transcript_hash)
         else:
-- 
2.43.0


From 0f0df4683b0f93b6ec634023643eb256af07ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 32/44] fix: refuse a cookie in ServerHello, it is only legal
 in the retry request

---
 src/siotls/contents/handshakes/extensions/cookie.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/cookie.py b/src/siotls/contents/handshakes/extensions/cookie.py
index d58a9b6..b10be63 100644
--- a/src/siotls/contents/handshakes/extensions/cookie.py
+++ b/src/siotls/contents/handshakes/extensions/cookie.py
@@ -12,7 +12,6 @@ class Cookie(Extension, SerializableBody):
     extension_type = ExtensionType.COOKIE
     _handshake_types = (
         HandshakeType.CLIENT_HELLO,
-        HandshakeType.SERVER_HELLO,
         HandshakeType_.HELLO_RETRY_REQUEST
     )
 
-- 
2.43.0


From 1b28f413be887e907b453318813f8cb76697fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 33/44] fix: status_request is empty in CertificateRequest

---
 .../handshakes/extensions/__init__.py         |  1 +
 .../handshakes/extensions/status_request.py   | 24 +++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/__init__.py b/src/siotls/contents/handshakes/extensions/__init__.py
index 8f31a3f..ff16466 100644
--- a/src/siotls/contents/handshakes/extensions/__init__.py
+++ b/src/siotls/contents/handshakes/extensions/__init__.py
@@ -154,6 +154,7 @@ from .server_name import HostName, ServerName, ServerNameListRequest, ServerName
 from .signature_algorithms import SignatureAlgorithms, SignatureAlgorithmsCert
 from .signed_certificate_timestamp import SignedCertificateTimestamp
 from .status_request import (
+    CertificateRequestStatus,
     CertificateStatus,
     CertificateStatusRequest,
     OCSPStatus,
diff --git a/src/siotls/contents/handshakes/extensions/status_request.py b/src/siotls/contents/handshakes/extensions/status_request.py
index 4d1e124..cec9730 100644
--- a/src/siotls/contents/handshakes/extensions/status_request.py
+++ b/src/siotls/contents/handshakes/extensions/status_request.py
@@ -12,10 +12,7 @@ _status_request_registry = {}
 @dataclasses.dataclass(init=False)
 class CertificateStatusRequest(Extension, SerializableBody):
     extension_type = ExtensionType.STATUS_REQUEST
-    _handshake_types = (
-        HandshakeType.CLIENT_HELLO,
-        HandshakeType.CERTIFICATE_REQUEST
-    )
+    _handshake_types = (HandshakeType.CLIENT_HELLO,)
 
     _struct = textwrap.dedent("""
         struct {
@@ -91,6 +88,25 @@ class OCSPStatusRequest(CertificateStatusRequest):
 
 
 
+@dataclasses.dataclass(init=False)
+class CertificateRequestStatus(Extension, SerializableBody):
+    extension_type = ExtensionType.STATUS_REQUEST
+    _handshake_types = (HandshakeType.CERTIFICATE_REQUEST,)
+
+    # The mere presence of the extension is enough (RFC 8446, section 4.4.2.1)
+    _struct = ""
+
+    def __init__(self):
+        pass
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        return cls()
+
+    def serialize_body(self):
+        return b''
+
+
 _status_registry = {}
 
 @dataclasses.dataclass(init=False)
-- 
2.43.0


From 7e8928844deb76fb6b1f55dcd6dc309e25121eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 34/44] fix: a negative size doesn't read beyond the limit

---
 src/siotls/serial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/serial.py b/src/siotls/serial.py
index f916d5e..2dbc70d 100644
--- a/src/siotls/serial.py
+++ b/src/siotls/serial.py
@@ -51,7 +51,8 @@ class SerialIO(io.BytesIO):
 
     def read(self, n=None):
         max_n = self._limits[-1] - self.tell()
-        if n is None:
+        if n is None or n < 0:
+            n = None
             if len(self._limits) > 1:
                 n = max_n
         elif n > max_n:
-- 
2.43.0


From d93e1cb0a55e6d786f19719bccc2a84301197bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 35/44] fix: compare certificate types, entries and statuses by
 their contents

---
 src/siotls/contents/handshakes/certificate.py                 | 2 ++
 src/siotls/contents/handshakes/extensions/certificate_type.py | 4 ++++
 src/siotls/contents/handshakes/extensions/status_request.py   | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 6ba848f..40c8741 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -79,6 +79,7 @@ class CertificateEntry(Serializable):
         ])
 
 
+@dataclasses.dataclass(init=False)
 class X509(CertificateEntry):
     certificate_type = CertificateType.X509
     certificate: Certificate
@@ -96,6 +97,7 @@ class X509(CertificateEntry):
         return self.certificate.public_bytes(Encoding.DER)
 
 
+@dataclasses.dataclass(init=False)
 class RawPublicKey(CertificateEntry):
     certificate_type = CertificateType.RAW_PUBLIC_KEY
     public_key: PublicKeyTypes
diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index c30b499..d262328 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -58,6 +58,7 @@ class _CertificateTypeResponse(SerializableBody):
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
+@dataclasses.dataclass(init=False)
 class ClientCertificateTypeRequest(Extension, _CertificateTypeRequest):
     extension_type = ExtensionType.CLIENT_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
@@ -66,6 +67,7 @@ class ClientCertificateTypeRequest(Extension, _CertificateTypeRequest):
         } ClientCertTypeExtension;
     """).strip()
 
+@dataclasses.dataclass(init=False)
 class ClientCertificateTypeResponse(Extension, _CertificateTypeResponse):
     extension_type = ExtensionType.CLIENT_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
@@ -74,6 +76,7 @@ class ClientCertificateTypeResponse(Extension, _CertificateTypeResponse):
         } ClientCertTypeExtension;
     """).strip()
 
+@dataclasses.dataclass(init=False)
 class ServerCertificateTypeRequest(Extension, _CertificateTypeRequest):
     extension_type = ExtensionType.SERVER_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
@@ -82,6 +85,7 @@ class ServerCertificateTypeRequest(Extension, _CertificateTypeRequest):
         } ServerCertTypeExtension;
     """).strip()
 
+@dataclasses.dataclass(init=False)
 class ServerCertificateTypeResponse(Extension, _CertificateTypeResponse):
     extension_type = ExtensionType.SERVER_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
diff --git a/src/siotls/contents/handshakes/extensions/status_request.py b/src/siotls/contents/handshakes/extensions/status_request.py
index cec9730..9559f29 100644
--- a/src/siotls/contents/handshakes/extensions/status_request.py
+++ b/src/siotls/contents/handshakes/extensions/status_request.py
@@ -148,6 +148,7 @@ class CertificateStatus(Extension, SerializableBody):
             self.serialize_bodybody(),
         ])
 
+@dataclasses.dataclass(init=False)
 class OCSPStatus(CertificateStatus):
     status_type = CertificateStatusType.OCSP
 
-- 
2.43.0


From 1fd51bd7f98129d6948b681a8f8b7ab3d3e4fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 36/44] fix: don't negotiate a RSASSA-PSS scheme that a small
 RSA key cannot make

---
 src/siotls/crypto/signatures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 5dd9da8..fd1fe96 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -69,6 +69,9 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
             for iana_id, suite in cls._pubkey_registry.get(public_key_oid, {}).items()
             if not isinstance(getattr(suite, 'padding', None), padding.PKCS1v15)
             if not hasattr(suite, 'curve') or suite.curve.name == public_key.curve.name
+            if not isinstance(getattr(suite, 'padding', None), padding.PSS)
+            # the encoded message holds the digest, a salt as long and two bytes
+            or (public_key.key_size + 6) // 8 >= 2 * suite.digestmod.digest_size + 2
         }
 
     def __init__(self, key):
-- 
2.43.0


From 1e66c1be0543b1d4d868923dc68089517b4fc394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 37/44] fix: --keylogfile exported no secret

The configurations of the bundled server and client did not enable
log_keys, so that the key log file remained empty.
---
 src/siotls/__main__.py               | 2 ++
 src/siotls/examples/simple_client.py | 4 ++--
 src/siotls/examples/simple_server.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/siotls/__main__.py b/src/siotls/__main__.py
index db950a1..6238df7 100644
--- a/src/siotls/__main__.py
+++ b/src/siotls/__main__.py
@@ -91,6 +91,7 @@ def main():
                 options.port,
                 os.fspath(options.tlscert),
                 os.fspath(options.tlskey),
+                log_keys=bool(options.keylogfile),
             )
         else:
             from siotls.examples.simple_client import connect
@@ -98,6 +99,7 @@ def main():
                 options.host,
                 options.port,
                 check_certificate=not options.insecure,
+                log_keys=bool(options.keylogfile),
             )
     except Exception as exc:  # noqa: BLE001
         logger.critical("Fatal exception", exc_info=exc)
diff --git a/src/siotls/examples/simple_client.py b/src/siotls/examples/simple_client.py
index a4640e0..004d1fe 100644
--- a/src/siotls/examples/simple_client.py
+++ b/src/siotls/examples/simple_client.py
@@ -7,8 +7,8 @@ from siotls.utils import make_http11_request
 
 logger = logging.getLogger(__name__)
 
-def connect(host, port, check_certificate):
-    options = {}
+def connect(host, port, check_certificate, *, log_keys=False):
+    options = {'log_keys': log_keys}
     if check_certificate:
         options['trust_store'] = get_system_store()
     config = TLSConfiguration('client', alpn=['http/1.1', 'http/1.0'], **options)
diff --git a/src/siotls/examples/simple_server.py b/src/siotls/examples/simple_server.py
index cab9f2e..77a872b 100644
--- a/src/siotls/examples/simple_server.py
+++ b/src/siotls/examples/simple_server.py
@@ -11,7 +11,7 @@ from siotls.utils import make_http11_response
 logger = logging.getLogger(__name__)
 
 
-def serve(host, port, certificate_chain_path, private_key_path):
+def serve(host, port, certificate_chain_path, private_key_path, *, log_keys=False):
     with open(certificate_chain_path, 'rb') as certificate_chain_file, \
          open(private_key_path, 'rb') as private_key_file:
         tls_config = TLSConfiguration(
@@ -19,6 +19,7 @@ def serve(host, port, certificate_chain_path, private_key_path):
             private_key=load_pem_private_key(private_key_file.read(), None),
             certificate_chain=load_pem_x509_certificates(certificate_chain_file.read()),
             alpn=['http/1.1', 'http/1.0'],
+            log_keys=log_keys,
         )
 
     server = socket.socket()
-- 
2.43.0


From 1163bc90efa0b9b75e3ab484b13115ddeabbc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 38/44] fix: the simple server crashed on a request that is not
 utf-8

The access log used request_line, which is not set when the request
cannot be decoded.
---
 src/siotls/examples/simple_server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/siotls/examples/simple_server.py b/src/siotls/examples/simple_server.py
index 77a872b..fb3112b 100644
--- a/src/siotls/examples/simple_server.py
+++ b/src/siotls/examples/simple_server.py
@@ -54,6 +54,7 @@ def handle_one(client, client_info, tls_config):
     with conn.wrap(client) as sclient:
         logger.info("connection with %s:%s secured", client_info[0], client_info[1])
         http_req = sclient.read()
+        request_line = ''
         try:
             request_line = http_req.decode().partition('\r\n')[0]
             method, path, version = request_line.split()
-- 
2.43.0


From 6d6a3c876562ad11bf5171d3a49424b486b63cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 39/44] fix: name the private key file that cannot be accessed

---
 src/siotls/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/__main__.py b/src/siotls/__main__.py
index 6238df7..c5be36f 100644
--- a/src/siotls/__main__.py
+++ b/src/siotls/__main__.py
@@ -79,7 +79,7 @@ def main():
         logging.critical("Cannot access TLS certificate file at %s", options.tlscert)
         return 1
     if options.tlskey and not os.access(options.tlskey, os.R_OK):
-        logging.critical("Cannot access TLS private key file at %s", options.tlscert)
+        logging.critical("Cannot access TLS private key file at %s", options.tlskey)
         return 1
 
     # Run
-- 
2.43.0


From 1e18e7af6be54f0b6866e09c4a56c1dae325734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 40/44] Revert "fix: the simple server crashed on a request
 that is not utf-8"

This reverts commit 1163bc90efa0b9b75e3ab484b13115ddeabbc110.
---
 src/siotls/examples/simple_server.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/siotls/examples/simple_server.py b/src/siotls/examples/simple_server.py
index fb3112b..77a872b 100644
--- a/src/siotls/examples/simple_server.py
+++ b/src/siotls/examples/simple_server.py
@@ -54,7 +54,6 @@ def handle_one(client, client_info, tls_config):
     with conn.wrap(client) as sclient:
         logger.info("connection with %s:%s secured", client_info[0], client_info[1])
         http_req = sclient.read()
-        request_line = ''
         try:
             request_line = http_req.decode().partition('\r\n')[0]
             method, path, version = request_line.split()
-- 
2.43.0


From 569e3022cd91b67e611674212f1232d3c1e732a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 41/44] Revert "fix: --keylogfile exported no secret"

This reverts commit 1e66c1be0543b1d4d868923dc68089517b4fc394.
---
 src/siotls/__main__.py               | 2 --
 src/siotls/examples/simple_client.py | 4 ++--
 src/siotls/examples/simple_server.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/siotls/__main__.py b/src/siotls/__main__.py
index c5be36f..b375f9d 100644
--- a/src/siotls/__main__.py
+++ b/src/siotls/__main__.py
@@ -91,7 +91,6 @@ def main():
                 options.port,
                 os.fspath(options.tlscert),
                 os.fspath(options.tlskey),
-                log_keys=bool(options.keylogfile),
             )
         else:
             from siotls.examples.simple_client import connect
@@ -99,7 +98,6 @@ def main():
                 options.host,
                 options.port,
                 check_certificate=not options.insecure,
-                log_keys=bool(options.keylogfile),
             )
     except Exception as exc:  # noqa: BLE001
         logger.critical("Fatal exception", exc_info=exc)
diff --git a/src/siotls/examples/simple_client.py b/src/siotls/examples/simple_client.py
index 004d1fe..a4640e0 100644
--- a/src/siotls/examples/simple_client.py
+++ b/src/siotls/examples/simple_client.py
@@ -7,8 +7,8 @@ from siotls.utils import make_http11_request
 
 logger = logging.getLogger(__name__)
 
-def connect(host, port, check_certificate, *, log_keys=False):
-    options = {'log_keys': log_keys}
+def connect(host, port, check_certificate):
+    options = {}
     if check_certificate:
         options['trust_store'] = get_system_store()
     config = TLSConfiguration('client', alpn=['http/1.1', 'http/1.0'], **options)
diff --git a/src/siotls/examples/simple_server.py b/src/siotls/examples/simple_server.py
index 77a872b..cab9f2e 100644
--- a/src/siotls/examples/simple_server.py
+++ b/src/siotls/examples/simple_server.py
@@ -11,7 +11,7 @@ from siotls.utils import make_http11_response
 logger = logging.getLogger(__name__)
 
 
-def serve(host, port, certificate_chain_path, private_key_path, *, log_keys=False):
+def serve(host, port, certificate_chain_path, private_key_path):
     with open(certificate_chain_path, 'rb') as certificate_chain_file, \
          open(private_key_path, 'rb') as private_key_file:
         tls_config = TLSConfiguration(
@@ -19,7 +19,6 @@ def serve(host, port, certificate_chain_path, private_key_path, *, log_keys=Fals
             private_key=load_pem_private_key(private_key_file.read(), None),
             certificate_chain=load_pem_x509_certificates(certificate_chain_file.read()),
             alpn=['http/1.1', 'http/1.0'],
-            log_keys=log_keys,
         )
 
     server = socket.socket()
-- 
2.43.0


From 2a0ea7e691672ab1ac62128e7d2f4f4432deb95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 42/44] fix: a malformed certificate escaped the alerts

Verifying a certificate with an empty relative distinguished name or with a malformed
extension raises ValueError, which left the connection open and the peer
without an alert.
---
 src/siotls/states/client/wait_certificate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index bdf3f3b..faf056b 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -72,9 +72,10 @@ class ClientWaitCertificate(State):
 
     def _verify_chain(self, certificate_entries):
         leaf, *intermediates = (e.certificate for e in certificate_entries)
+        verifier = self._get_verifier()
         try:
-            verified = self._get_verifier().verify(leaf, intermediates)
-        except x509.verification.VerificationError as exc:
+            verified = verifier.verify(leaf, intermediates)
+        except (x509.verification.VerificationError, ValueError) as exc:
             raise alerts.BadCertificate from exc
         # a list of certificates (server) or a VerifiedClient
         return getattr(verified, 'chain', verified)
-- 
2.43.0


From 2e92495fcb6babc748690e124ce2a5c9871d699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 43/44] fix: a certificate status too large to be stapled
 crashed the server

---
 src/siotls/states/server/wait_client_hello.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 6ca0c80..63e8bd6 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -46,6 +46,10 @@ CERTIFICATE_VERIFY_SERVER = b"".join([
     b"\x00",
 ])
 
+# the extensions of a certificate hold 2**16 - 1 bytes: the header of the
+# extension (4), the type of the status (1), its length (3), the response
+OCSP_STAPLE_MAX_SIZE = (2 ** 16 - 1) - 4 - 1 - 3
+
 logger = logging.getLogger('siotls.connection')
 
 
@@ -207,6 +211,10 @@ class ServerWaitClientHello(State):
             logger.warning(w, exc)
             return None
         self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
+        if len(ocsp_res) > OCSP_STAPLE_MAX_SIZE:
+            w = "the online status of this server certificate is too large to be stapled"
+            logger.warning(w)
+            return None
         return ocsp_res
 
     def _send_finished(self):
-- 
2.43.0


From 4470e16cb463b40bc24716641ffefd88f5ed9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:18 +0000
Subject: [PATCH 44/44] fix: after a retry, ask the client for all the schemes
 of the configuration

---
 src/siotls/states/server/wait_client_hello.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 63e8bd6..deaa266 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -61,6 +61,8 @@ class ServerWaitClientHello(State):
     def __init__(self, connection):
         super().__init__(connection)
         self._is_first_client_hello = True
+        # those of the config are narrowed upon sending a HelloRetryRequest
+        self._peer_signature_algorithms = self.config.signature_algorithms
 
     def process(self, client_hello):
         if (client_hello.content_type != ContentType.HANDSHAKE
@@ -153,7 +155,7 @@ class ServerWaitClientHello(State):
     def _request_user_certificate(self):
         # we ignore POST_HANDSHAKE_AUTH at the moment
         certificate_request_extensions = [
-            SignatureAlgorithms(self.config.signature_algorithms),
+            SignatureAlgorithms(self._peer_signature_algorithms),
         ]
         self._send_content(CertificateRequest(
             certificate_request_context=b'',  # only for POST_HANDSHAKE_AUTH
-- 
2.43.0

