From 241a1fab347c07d6528a5b6f0533f579f67dd42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 01/16] fix: StartSessionResponse keeps conn_id when it is
 received

The constructor set conn_id before the received slots were loaded, and
load_slots() skips attributes which already exist, so every received
StartSessionResponse had conn_id None.
---
 golem_messages/message/tasks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 7ddc479..183b83b 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -723,8 +723,7 @@ class StartSessionResponse(base.Message):
            an answer for a request to start task session
         :param uuid conn_id: connection id for reference
         """
-        self.conn_id = conn_id
-        super().__init__(**kwargs)
+        super().__init__(conn_id=conn_id, **kwargs)
 
 
 @library.register(TASK_MSG_BASE + 26)
-- 
2.43.0


From a5257e8ae0170ca8770093ec98cdf2c51425b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 02/16] fix: nested messages must carry the type of the slot
 they are in

A nested message's header was taken as it came, so a message genuinely
signed as one type could be presented, in a slot of another type with
the same layout, as a verified message of that other type.
---
 golem_messages/message/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index e939d2b..ef5f71a 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -361,8 +361,18 @@ class Message:
                 value=value,
             )
         try:
-            result = slot_definition.get_class()(
-                header=datastructures.MessageHeader(*nested.header),
+            header = datastructures.MessageHeader(*nested.header)
+            class_ = slot_definition.get_class()
+            if header.type_ != library.get_type(class_):
+                raise exceptions.FieldError(
+                    "Header type should be that of {}".format(
+                        slot_definition.klass,
+                    ),
+                    field=key,
+                    value=value,
+                )
+            result = class_(
+                header=header,
                 sig=nested.sig,
                 slots=nested.slots,
             )
-- 
2.43.0


From ae8834e9bae5e79ab16a7f512f6966fbe8a1d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:45 +0000
Subject: [PATCH 03/16] fix: ephemeral keys are dropped after their timeout

The check was inside the cached function, hence never reached while the
key was cached. Also drop the keys when the clock was set back, otherwise
they would live longer by that much.
---
 golem_messages/cryptography.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 20f3152..4be9b69 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -254,7 +254,6 @@ class ECIESKeyManager:
 
         return enc_key, mac_key
 
-    @lru_cache(maxsize=1024)
     def get_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         """
         Get ephemeral elliptic curve key and derived keys for encryption and
@@ -265,10 +264,17 @@ class ECIESKeyManager:
             - mac key (32 bytes)
             - public key with leading '\x04' byte (65 bytes)
         """
-        if self.last_cleanup_time < time.time() - self.timeout:
-            ECIESKeyManager.get_ephem_key.cache_clear()
-            self.last_cleanup_time = time.time()
+        # This has to be outside of the cached function. Otherwise it would
+        # never be reached as long as the key is in cache.
+        now = time.time()
+        if self.last_cleanup_time < now - self.timeout \
+                or self.last_cleanup_time > now:  # the clock was set back
+            ECIESKeyManager._get_ephem_key.cache_clear()
+            self.last_cleanup_time = now
+        return self._get_ephem_key(raw_pubkey)
 
+    @lru_cache(maxsize=1024)
+    def _get_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         ephem = HashablePrivateKey()
         ephem_raw_pubkey = ephem.public_key.format(compressed=False)
         pubkey = PublicKey(b'\x04' + raw_pubkey)
-- 
2.43.0


From ba2ae8fb5965f0fa38bd5aaa3507d62ace402a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:25 +0000
Subject: [PATCH 04/16] fix: malformed content is always reported as
 MessageError on load

Message specific validation raised TypeError, AttributeError, KeyError
or binascii.Error on field values of unexpected types, so that a peer
could make load() raise anything but MessageError.
---
 golem_messages/message/base.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index ef5f71a..19b0f1e 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -453,12 +453,18 @@ class Message:
 
         class_ = library[header.type_]
         logger.debug('Deserialization class found. class=%r', class_)
-        return class_.deserialize_with_header(
-            header,
-            data,
-            decrypt_func,
-            sender_public_key=sender_public_key,
-        )
+        try:
+            return class_.deserialize_with_header(
+                header,
+                data,
+                decrypt_func,
+                sender_public_key=sender_public_key,
+            )
+        except exceptions.MessageError:
+            raise
+        except Exception as e:
+            # Field values of unexpected types may break any validation
+            raise exceptions.MessageError("Deserialization failed") from e
 
     @classmethod
     def deserialize_with_header(
-- 
2.43.0


From 65115003a9de9277bcb0b0ab09765b3966562f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 05/16] fix: re-sending a message no longer invalidates
 messages it is nested in

serialize() stored the mode of transport in the message's header. The header
of a nested message is a part of the signed content of the outer one, so
re-sending the inner message in another mode (plain/encrypted) made the outer
message's signature invalid.
---
 golem_messages/message/base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 19b0f1e..20ead1a 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -221,7 +221,10 @@ class Message:
             # first set it to None explicitly
             raise exceptions.SignatureAlreadyExists()
 
-        self.encrypted = bool(self.ENCRYPT and encrypt_func)
+        # The mode of transport mustn't be stored in self.header. If this
+        # message was nested inside another one, then it'd change contents
+        # (and invalidate signature) of the outer message.
+        encrypted = bool(self.ENCRYPT and encrypt_func)
         payload = serializer.dumps(self.slots())
 
         # When nesting one message inside another it's important
@@ -235,16 +238,16 @@ class Message:
             else:
                 self._fake_sign()
 
-        if self.encrypted:
+        if encrypted:
             payload = encrypt_func(payload)
 
         return (
-            self.serialize_header() +
+            self.serialize_header(encrypted) +
             self.sig +
             payload
         )
 
-    def serialize_header(self):
+    def serialize_header(self, encrypted: typing.Optional[bool] = None):
         """ Serialize message's header
         H unsigned short (2 bytes) big-endian
         Q unsigned long long (8 bytes) big-endian
@@ -258,7 +261,7 @@ class Message:
             self.HDR_FORMAT,
             self._type,
             self.timestamp,
-            self.encrypted,
+            self.encrypted if encrypted is None else encrypted,
         )
 
     def serialize_slot(self, key, value):
-- 
2.43.0


From d12c7228175a55b37f3dc8b8694228f4a1679465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 06/16] fix: SubtaskResultsAccepted with a NaN payment_ts is
 refused

---
 golem_messages/message/tasks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 183b83b..ac6d0e6 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -581,7 +581,8 @@ class SubtaskResultsAccepted(TaskMessage):
     }
 
     def is_valid(self) -> bool:
-        if self.payment_ts > self.header.timestamp:
+        # NaN isn't after anything
+        if not self.payment_ts <= self.header.timestamp:  # noqa pylint:disable=unneeded-not
             raise exceptions.ValidationError(
                 "Payment timestamp cannot be from the future!"
             )
-- 
2.43.0


From 29cea7b4eddb2f6a5364868fa4f484a59f71708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:54 +0000
Subject: [PATCH 07/16] fix: a message with promissory notes equals its
 received copy

---
 golem_messages/message/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 20ead1a..f2e1a9f 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -269,6 +269,10 @@ class Message:
             return value.value
         if key in self.MSG_SLOTS:
             return self.serialize_message(key, value)
+        if isinstance(value, tuple):
+            # That's how it'll look like after deserialization. Otherwise
+            # a message wouldn't be equal to its received copy.
+            return list(value)
         return value
 
     def serialize_message(self, key, value):
-- 
2.43.0


From f4ef112ab0a68024af69945e3de7aaa3c050af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 08/16] fix: with_reject_report_computed_task gives the reason
 it is for

The reason was set when the caller had given one (overriding it) and left to
chance otherwise; the other variants do it the other way round.
---
 golem_messages/factories/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/factories/concents.py b/golem_messages/factories/concents.py
index f78924c..499b77a 100644
--- a/golem_messages/factories/concents.py
+++ b/golem_messages/factories/concents.py
@@ -328,7 +328,7 @@ class ForceReportComputedTaskResponseFactory(helpers.MessageFactory):
 
     @classmethod
     def with_reject_report_computed_task(cls, *args, **kwargs):
-        if 'reason' in kwargs:
+        if 'reason' not in kwargs:
             kwargs.update({
                 'reason': cls._meta.model.REASON.RejectFromRequestor
             })
-- 
2.43.0


From e30716d6494e7b72be3147378503661300b11f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 09/16] fix: factories sign messages after setting their
 optional fields

The inherited sign hook ran before the hooks that set nested messages, files'
operation or lists, so the signature did not match the message made.
---
 golem_messages/factories/concents.py | 34 ++++++++++++++++++++++++++++
 golem_messages/factories/tasks.py    | 10 ++++++++
 2 files changed, 44 insertions(+)

diff --git a/golem_messages/factories/concents.py b/golem_messages/factories/concents.py
index 499b77a..57d37ad 100644
--- a/golem_messages/factories/concents.py
+++ b/golem_messages/factories/concents.py
@@ -58,6 +58,12 @@ class FileTransferTokenFactory(helpers.MessageFactory):
         if extracted:
             obj.operation = concents.FileTransferToken.Operation.download
 
+    # signed last, after the hooks above have set their fields
+
+    @factory.post_generation
+    def sign(msg, _, __, **kwargs):
+        helpers.MessageFactory.sign_message(msg, _, __, **kwargs)
+
     # pylint: enable=no-self-argument
 
 
@@ -207,6 +213,12 @@ class ForceSubtaskResultsResponseFactory(helpers.MessageFactory):
         if msg:
             setattr(obj, 'subtask_results_rejected', msg)
 
+    # signed last, after the hooks above have set their fields
+
+    @factory.post_generation
+    def sign(msg, _, __, **kwargs):
+        helpers.MessageFactory.sign_message(msg, _, __, **kwargs)
+
     # pylint: enable=no-self-argument
 
 
@@ -264,6 +276,12 @@ class ForcePaymentFactory(helpers.MessageFactory):
         if msgs:
             setattr(obj, 'subtask_results_accepted_list', msgs)
 
+    # signed last, after the hooks above have set their fields
+
+    @factory.post_generation
+    def sign(msg, _, __, **kwargs):
+        helpers.MessageFactory.sign_message(msg, _, __, **kwargs)
+
     # pylint: enable=no-self-argument
 
 
@@ -338,6 +356,16 @@ class ForceReportComputedTaskResponseFactory(helpers.MessageFactory):
             reject_report_computed_task__attached_task_to_compute___generate=True,  # noqa
         )
 
+    # pylint: disable=no-self-argument
+
+    # signed last, after the hooks above have set their fields
+
+    @factory.post_generation
+    def sign(msg, _, __, **kwargs):
+        helpers.MessageFactory.sign_message(msg, _, __, **kwargs)
+
+    # pylint: enable=no-self-argument
+
 
 class VerdictReportComputedTaskFactory(helpers.MessageFactory):
     class Meta:
@@ -362,6 +390,12 @@ class VerdictReportComputedTaskFactory(helpers.MessageFactory):
 
         msg.ack_report_computed_task.report_computed_task = rct
 
+    # signed last, after the hooks above have set their fields
+
+    @factory.post_generation
+    def sign(msg, _, __, **kwargs):
+        helpers.MessageFactory.sign_message(msg, _, __, **kwargs)
+
     # pylint: enable=no-self-argument
 
 
diff --git a/golem_messages/factories/tasks.py b/golem_messages/factories/tasks.py
index f16144f..f89beb2 100644
--- a/golem_messages/factories/tasks.py
+++ b/golem_messages/factories/tasks.py
@@ -311,6 +311,16 @@ class RejectReportComputedTaskFactory(helpers.MessageFactory):
             })
         return cls(*args, **kwargs, cannot_compute_task___generate=True)
 
+    # pylint: disable=no-self-argument
+
+    # signed last, after the hooks above have set their fields
+
+    @factory.post_generation
+    def sign(msg, _, __, **kwargs):
+        helpers.MessageFactory.sign_message(msg, _, __, **kwargs)
+
+    # pylint: enable=no-self-argument
+
 
 class SubtaskResultsAcceptedFactory(helpers.MessageFactory):
     class Meta:
-- 
2.43.0


From 3b93c4b871ae05efc2938790536e9bc9655704f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 10/16] fix: IP addresses are text; integers and bytes were
 accepted as addresses

---
 golem_messages/validators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/golem_messages/validators.py b/golem_messages/validators.py
index 58129dc..808ea1e 100644
--- a/golem_messages/validators.py
+++ b/golem_messages/validators.py
@@ -62,6 +62,13 @@ def validate_port(field_name, value):
 
 
 def validate_ipaddress(field_name, value):
+    # ip_address() also takes integers and packed bytes for addresses
+    fail_unless(
+        field_name,
+        value,
+        check=lambda x: isinstance(x, str),
+        fail_msg="Should be a string",
+    )
     try:
         ipaddress.ip_address(value)
     except ValueError as e:
-- 
2.43.0


From e52a3e6a70d88f6ae3572239ac64a2d02eeb23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 11/16] fix: 65535 is a valid port

---
 golem_messages/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/validators.py b/golem_messages/validators.py
index 808ea1e..b4cd558 100644
--- a/golem_messages/validators.py
+++ b/golem_messages/validators.py
@@ -53,7 +53,7 @@ def validate_positive_integer(field_name, value):
 
 def validate_port(field_name, value):
     validate_integer(field_name, value)
-    if not 0 < value < (2**16-1):
+    if not 0 < value <= (2**16-1):
         raise exceptions.FieldError(
             "Port not in range 1, 2**16-1",
             field=field_name,
-- 
2.43.0


From ce5ab2d68ca2bc9fad6c2d82d2583da8b9af5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 12/16] fix: refuse values that are no nodes in node slots,
 empty ones included

---
 golem_messages/datastructures/p2p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/datastructures/p2p.py b/golem_messages/datastructures/p2p.py
index 8fb4c47..9ee5252 100644
--- a/golem_messages/datastructures/p2p.py
+++ b/golem_messages/datastructures/p2p.py
@@ -75,7 +75,7 @@ class NodeSlotMixin:
 
     def deserialize_slot(self, key, value):
         value = super().deserialize_slot(key=key, value=value)
-        if value and key in self.NODE_SLOTS:
+        if value is not None and key in self.NODE_SLOTS:
             return self.deserialize_node(key, value)
         return value
 
-- 
2.43.0


From 0546fd6bb0110fa7fb8facb133f0d4526ca1b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 13/16] fix: address of a public key given as an integer with
 leading zero bytes

---
 golem_messages/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/golem_messages/utils.py b/golem_messages/utils.py
index 2e867d1..1fb8c4f 100644
--- a/golem_messages/utils.py
+++ b/golem_messages/utils.py
@@ -13,6 +13,9 @@ def pubkey_to_address(pubkey: Union[str, int]) -> str:
     convert pubkey into a checksummed address
     pubkey might be hex str or bytes or int
     """
+    if isinstance(pubkey, int):
+        # leading zeros are part of the key
+        pubkey = '{:0128x}'.format(pubkey)
     return to_checksum_address(
         hexstr_if_str(keccak, pubkey)[12:].hex(),
     )
-- 
2.43.0


From c86ed0c3e6169fe136adadda3b83c8dccfc7b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 14/16] fix: encode_hex of empty input raised IndexError

---
 golem_messages/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/golem_messages/utils.py b/golem_messages/utils.py
index 1fb8c4f..6218cef 100644
--- a/golem_messages/utils.py
+++ b/golem_messages/utils.py
@@ -25,8 +25,6 @@ def encode_hex(b):
     if isinstance(b, str):
         b = bytes(b, 'utf-8')
     if isinstance(b, (bytes, bytearray)):
-        if b[0] == b'0' and b[1] == b'x':
-            b = b[2:]
         return str(binascii.hexlify(b), 'utf-8')
     raise TypeError('Value must be an instance of str or bytes')
 
-- 
2.43.0


From 93b40f791e5257fe62a860f60a3db38aca886d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 15/16] fix: download time of huge sizes was rounded as a float

---
 golem_messages/helpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golem_messages/helpers.py b/golem_messages/helpers.py
index 54b4805..98711aa 100644
--- a/golem_messages/helpers.py
+++ b/golem_messages/helpers.py
@@ -1,5 +1,4 @@
 import datetime
-import math
 
 from golem_messages import constants
 
@@ -35,7 +34,7 @@ def maximum_download_time(
 
     bytes_per_sec = rate << 10
     download_time = datetime.timedelta(
-        seconds=int(math.ceil(size / bytes_per_sec))
+        seconds=-(-size // bytes_per_sec),  # rounded up
     )
 
     return constants.DOWNLOAD_LEADIN_TIME + download_time
-- 
2.43.0


From fbf40546a9f1d8709cc89aa302017d8dba379b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:25 +0000
Subject: [PATCH 16/16] fix: ECCx never returned when given a private key that
 isn't 32 bytes long

---
 golem_messages/cryptography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 4be9b69..62bde1f 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -148,7 +148,7 @@ class ECCx(pyelliptic.ECC):
                              raw_privkey=raw_privkey, curve=self.curve)
             # XXX: when raw_privkey is generated by pyelliptic it sometimes
             #      has 31 bytes so we try again!
-            if self.raw_privkey and len(self.raw_privkey) != 32:
+            if raw_privkey is None and len(self.raw_privkey) != 32:
                 continue
             if not self.has_valid_keys():
                 raise exceptions.CryptoError('Invalid privkey and/or pubkey')
-- 
2.43.0

