From 4dc6d59f3d102b743b066d7fb68221988f9cd780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 01/12] fix: reject non-decimal numbers for fixed-point types
 with an encoding error

---
 eth_abi/encoding.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 3d90518..22012a5 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -18,7 +18,6 @@ from eth_utils import (
     is_bytes,
     is_integer,
     is_list_like,
-    is_number,
     is_text,
     to_canonical_address,
 )
@@ -334,7 +333,7 @@ class BaseFixedEncoder(NumberEncoder):
 
     @staticmethod
     def type_check_fn(value):
-        return is_number(value) and not isinstance(value, float)
+        return isinstance(value, (int, decimal.Decimal))
 
     @staticmethod
     def illegal_value_fn(value):
-- 
2.43.0


From 339bd91d178e5eed6c8c92dfbdd12e49eb9714e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 02/12] fix: report text that UTF-8 cannot express as an
 encoding error

---
 eth_abi/encoding.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 22012a5..b6a14e1 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -543,6 +543,15 @@ class TextStringEncoder(BaseEncoder):
         if not is_text(value):
             cls.invalidate_value(value)
 
+        try:
+            codecs.encode(value, "utf8")
+        except UnicodeEncodeError:
+            cls.invalidate_value(
+                value,
+                exc=IllegalValue,
+                msg="cannot be expressed in UTF-8",
+            )
+
     @classmethod
     def encode(cls, value):
         cls.validate_value(value)
-- 
2.43.0


From 352250b63d2f7a665cbb7ec64ef4e26bbf33e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 03/12] fix: raise InsufficientDataBytes for length words
 beyond the platform limit

---
 eth_abi/decoding.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 71d087a..0409219 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -596,7 +596,13 @@ class ByteStringDecoder(SingleDecoder):
         data_length = decode_uint_256(stream)
         padded_length = ceil32(data_length)
 
-        data = stream.read(padded_length)
+        try:
+            data = stream.read(padded_length)
+        except OverflowError:
+            # the announced length is larger than any stream can be
+            raise InsufficientDataBytes(
+                f"Tried to read {padded_length} bytes, more than any stream can hold"
+            )
 
         if self.strict:
             if len(data) < padded_length:
-- 
2.43.0


From 0daa20cda3e005d5555ec6e491fb729019a9e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 04/12] fix: non-strict decoding no longer returns shortened
 bytes and string values

---
 eth_abi/decoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 0409219..451142a 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -615,6 +615,10 @@ class ByteStringDecoder(SingleDecoder):
                 raise NonEmptyPaddingBytes(
                     f"Padding bytes were not empty: {repr(padding_bytes)}"
                 )
+        elif len(data) < data_length:
+            raise InsufficientDataBytes(
+                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
+            )
 
         return data[:data_length]
 
-- 
2.43.0


From 2f4ecb8d325052cdcc19739c854df12c3afdb4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 05/12] fix: do not change registered decoder objects when
 looking them up

---
 eth_abi/registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 29b8fc5..5daa23e 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -478,7 +478,11 @@ class ABIRegistry(Copyable, BaseRegistry):
             # Set a transient flag each time a call is made to ``get_decoder()``.
             # Only dynamic decoders should be allowed these looser constraints. All
             # other decoders should keep the default value of ``True``.
-            decoder.strict = strict
+            if getattr(decoder, "strict", True) != strict:
+                # A registered decoder object is shared by all calls, so only a copy
+                # of it may be changed.
+                decoder = copy.copy(decoder)
+                decoder.strict = strict
 
         return decoder
 
-- 
2.43.0


From 879ce2783fb18457607694eb533ed250ba0ce64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 06/12] fix: measure the real size of the heads when validating
 tuple pointers

---
 eth_abi/decoding.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 451142a..d8fc9ea 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -193,31 +193,29 @@ class TupleDecoder(BaseDecoder):
         Verify that all pointers point to a valid location in the stream.
         """
         current_location = stream.tell()
-        len_of_head = sum(
-            getattr(decoder, "array_size", 1) for decoder in self.decoders
-        )
-        end_of_offsets = current_location + 32 * len_of_head
         total_stream_length = len(stream.getbuffer())
+        pointers = []
         for decoder in self.decoders:
             if isinstance(decoder, HeadTailDecoder):
                 # the next 32 bytes are a pointer
+                pointer_location = stream.tell()
                 offset = decode_uint_256(stream)
-                indicated_idx = current_location + offset
-                if (
-                    indicated_idx < end_of_offsets
-                    or indicated_idx >= total_stream_length
-                ):
-                    # the pointer is indicating its data is located either within the
-                    # offsets section of the stream or beyond the end of the stream,
-                    # both of which are invalid
-                    raise InvalidPointer(
-                        "Invalid pointer in tuple at location "
-                        f"{stream.tell() - 32} in payload"
-                    )
+                pointers.append((pointer_location, current_location + offset))
             else:
-                # the next 32 bytes are not a pointer, so progress the stream per
+                # the next bytes are not a pointer, so progress the stream per
                 # the decoder
                 decoder(stream)
+        # all of the heads were read, whatever their sizes
+        end_of_offsets = stream.tell()
+        for pointer_location, indicated_idx in pointers:
+            if indicated_idx < end_of_offsets or indicated_idx >= total_stream_length:
+                # the pointer is indicating its data is located either within the
+                # offsets section of the stream or beyond the end of the stream,
+                # both of which are invalid
+                raise InvalidPointer(
+                    "Invalid pointer in tuple at location "
+                    f"{pointer_location} in payload"
+                )
         # return the stream to its original location for actual decoding
         stream.seek(current_location)
 
-- 
2.43.0


From 35d07f7bf751ddd69a97baee8a77b4583479779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 07/12] fix: remove the label together with a matcher removed
 by equality

---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 5daa23e..8a07192 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -123,7 +123,7 @@ class PredicateMapping(Copyable):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
         for key, value in self._labeled_predicates.items():
-            if value is predicate:
+            if value == predicate:
                 return key
 
         raise ValueError(
-- 
2.43.0


From c2b8713c2e59c936eeb0f20bf9262017a7dfe14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 08/12] fix: support plain callables as coders of array
 elements

---
 eth_abi/decoding.py | 4 ++--
 eth_abi/encoding.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index d8fc9ea..65f1faa 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -270,7 +270,7 @@ class BaseArrayDecoder(BaseDecoder):
         super().__init__(**kwargs)
 
         # Use a head-tail decoder to decode dynamic elements
-        if self.item_decoder.is_dynamic:
+        if getattr(self.item_decoder, "is_dynamic", False):
             self.item_decoder = HeadTailDecoder(
                 tail_decoder=self.item_decoder,
             )
@@ -327,7 +327,7 @@ class SizedArrayDecoder(BaseArrayDecoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_decoder.is_dynamic
+        self.is_dynamic = getattr(self.item_decoder, "is_dynamic", False)
 
     @to_tuple
     def decode(self, stream):
diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index b6a14e1..8904b3f 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -595,7 +595,10 @@ class BaseArrayEncoder(BaseEncoder):
             )
 
         for item in value:
-            self.item_encoder.validate_value(item)
+            try:
+                self.item_encoder.validate_value(item)
+            except AttributeError:
+                self.item_encoder(item)
 
     def encode_elements(self, value):
         self.validate_value(value)
@@ -671,7 +674,7 @@ class SizedArrayEncoder(BaseArrayEncoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_encoder.is_dynamic
+        self.is_dynamic = getattr(self.item_encoder, "is_dynamic", False)
 
     def validate(self):
         super().validate()
-- 
2.43.0


From 6e991eab4dc3f61a8566c2cadb9fbe588ffd154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 09/12] fix: report unprintably large integers as an encoding
 error

---
 eth_abi/utils/string.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/string.py b/eth_abi/utils/string.py
index abd76b8..5bf0f26 100644
--- a/eth_abi/utils/string.py
+++ b/eth_abi/utils/string.py
@@ -8,7 +8,11 @@ def abbr(value: Any, limit: int = 79) -> str:
     Converts a value into its string representation and abbreviates that
     representation based on the given length `limit` if necessary.
     """
-    rep = repr(value)
+    try:
+        rep = repr(value)
+    except ValueError:
+        # e.g. integers with more digits than Python converts to text
+        rep = f"<{type(value).__name__}>"
 
     if len(rep) > limit:
         if limit < 3:
-- 
2.43.0


From 5b2711cd4fd975832a745657b55962af36835196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 10/12] fix: reject fixed-point values that underflow the
 default decimal context

---
 eth_abi/utils/numeric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/numeric.py b/eth_abi/utils/numeric.py
index b44e4dc..27624cc 100644
--- a/eth_abi/utils/numeric.py
+++ b/eth_abi/utils/numeric.py
@@ -5,7 +5,11 @@ import decimal
 
 ABI_DECIMAL_PREC = 999
 
-abi_decimal_context = decimal.Context(prec=ABI_DECIMAL_PREC)
+abi_decimal_context = decimal.Context(
+    prec=ABI_DECIMAL_PREC,
+    Emin=decimal.MIN_EMIN,
+    Emax=decimal.MAX_EMAX,
+)
 
 ZERO = decimal.Decimal(0)
 TEN = decimal.Decimal(10)
-- 
2.43.0


From 3f0068730ad42ae1c007fcf661d75f5b1ac9de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 11/12] fix: refuse bool types with a size suffix

---
 eth_abi/grammar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/grammar.py b/eth_abi/grammar.py
index fe24044..16228ac 100644
--- a/eth_abi/grammar.py
+++ b/eth_abi/grammar.py
@@ -395,6 +395,11 @@ class BasicType(ABIType):
             if sub is not None:
                 self.invalidate("address cannot have suffix")
 
+        # Check validity of bool type
+        elif base == "bool":
+            if sub is not None:
+                self.invalidate("bool cannot have suffix")
+
 
 TYPE_ALIASES = {
     "int": "int256",
-- 
2.43.0


From 5185a2e1ce9376c7fef145718d4095a38395d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 12/12] fix: give the byte alias a coder at top level

---
 eth_abi/registry.py          | 11 +++++++++++
 eth_abi/tools/_strategies.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 8a07192..d3f6da1 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -559,6 +559,12 @@ registry.register(
     decoding.BytesDecoder,
     label="function",
 )
+registry.register(
+    BaseEquals("byte", with_sub=False),
+    encoding.BytesEncoder,
+    decoding.BytesDecoder,
+    label="byte",
+)
 registry.register(
     BaseEquals("string"),
     encoding.TextStringEncoder,
@@ -625,6 +631,11 @@ registry_packed.register_encoder(
     encoding.PackedBytesEncoder,
     label="function",
 )
+registry_packed.register_encoder(
+    BaseEquals("byte", with_sub=False),
+    encoding.PackedBytesEncoder,
+    label="byte",
+)
 registry_packed.register_encoder(
     BaseEquals("string"),
     encoding.PackedTextStringEncoder,
diff --git a/eth_abi/tools/_strategies.py b/eth_abi/tools/_strategies.py
index 201ff74..fb66b6e 100644
--- a/eth_abi/tools/_strategies.py
+++ b/eth_abi/tools/_strategies.py
@@ -218,6 +218,11 @@ strategy_registry.register_strategy(
     get_bytes_strategy,
     label="function",
 )
+strategy_registry.register_strategy(
+    BaseEquals("byte", with_sub=False),
+    get_bytes_strategy,
+    label="byte",
+)
 strategy_registry.register_strategy(
     BaseEquals("string", with_sub=False),
     string_strategy,
-- 
2.43.0

