From 63e0e0475a5d300b333220a0bed3fb836fc2473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 01/93] fix: get_module('') raises ImportError on every Python

Comparing with 'is' only worked where empty strings are interned; elsewhere
an unregistered alias without dots raised ValueError instead of
UnknownClassAlias.
---
 pyamf/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 035e4aa..4f37c6d 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -198,7 +198,7 @@ def get_module(mod_name):
     """
     Load and return a module based on C{mod_name}.
     """
-    if mod_name is '':
+    if not mod_name:
         raise ImportError('Unable to import empty module')
 
     mod = __import__(mod_name)
-- 
2.43.0


From 4ece0cdbb9959ca66e0e50e922b1f9a08c918cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 02/93] fix: an alias that names something other than a class
 is unknown

load_class let AttributeError, TypeError or UnicodeError escape (so received
class names such as 'os.path' or non-ascii ones broke decoding), and handed
back the class instead of the alias for an importable ClassAlias.
---
 pyamf/__init__.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b71ae91..501e520 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -406,23 +406,19 @@ def load_class(alias):
         klass = mod_class[-1]
 
         try:
-            module = util.get_module(module)
-        except (ImportError, AttributeError):
+            klass = getattr(util.get_module(module), klass)
+        except (ImportError, AttributeError, ValueError):
+            # nothing importable goes by that name (ValueError includes names
+            # that cannot be module names, e.g. non-ascii text)
             pass
         else:
-            klass = getattr(module, klass)
-
             if isinstance(klass, python.class_types):
                 return register_class(klass, alias)
             elif isinstance(klass, ClassAlias):
                 CLASS_CACHE[klass.alias] = klass
                 CLASS_CACHE[klass.klass] = klass
 
-                return klass.klass
-            else:
-                raise TypeError(
-                    "Expecting class type or ClassAlias from loader"
-                )
+                return klass
 
     # All available methods for finding the class have been exhausted
     raise UnknownClassAlias("Unknown alias for %r" % (alias,))
-- 
2.43.0


From 0735cfd7723c32da2774cccb03d41608a92ac037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 03/93] fix: class aliases may be any text

A unicode alias outside ascii could not be registered, and an AMF3 object
with such a class name was never matched to its registered class.
---
 pyamf/alias.py | 2 +-
 pyamf/amf3.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 1ef3af3..a1eec02 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -37,7 +37,7 @@ class ClassAlias(object):
         self.klass = klass
         self.alias = alias
 
-        if hasattr(self.alias, 'decode'):
+        if isinstance(self.alias, bytes):
             self.alias = self.alias.decode('utf-8')
 
         self.static_attrs = kwargs.pop('static_attrs', None)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d2413f9..8a123f5 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -968,7 +968,7 @@ class Decoder(codec.Decoder):
 
             return class_def
 
-        name = self.readBytes()
+        name = self.readString()
         alias = None
 
         if name == '':
-- 
2.43.0


From d0ebb77aed7ad4651d56429394e94cbdc1d3b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 04/93] fix: AMF0 dates do not take a reference index when
 decoded

Only objects and arrays are complex types that can be referenced in AMF0 and
the encoder does not count dates, so every reference after a date resolved to
the wrong object.
---
 pyamf/amf0.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index d1019b9..c6f5245 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -361,8 +361,6 @@ class Decoder(codec.Decoder):
         if self.timezone_offset:
             d = d + self.timezone_offset
 
-        self.context.addObject(d)
-
         return d
 
     def readLongString(self):
-- 
2.43.0


From ef059767b3ba4502e566310c1ef1d60666818537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 05/93] fix: objects sent as AMF3 inside AMF0 take no AMF0
 reference index

The encoder counted them (and could write an AMF0 reference to them) but the
decoder does not, so later references resolved to the wrong object.
---
 pyamf/amf0.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index c6f5245..83f5eef 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -590,19 +590,21 @@ class Encoder(codec.Encoder):
 
         @param o: The object data to be encoded to the AMF0 data stream.
         """
-        if self.writeReference(o) != -1:
-            return
-
-        self.context.addObject(o)
         alias = self.context.getClassAlias(o.__class__)
 
         alias.compile()
 
         if alias.amf3:
+            # references to this object are kept by the AMF3 context
             self.writeAMF3(o)
 
             return
 
+        if self.writeReference(o) != -1:
+            return
+
+        self.context.addObject(o)
+
         if alias.anonymous:
             self.writeType(TYPE_OBJECT)
         else:
-- 
2.43.0


From 63696e55c298d66d5174a226504ff718831dd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 06/93] fix: AMF3 values inside AMF0 obey strict and the XML
 restrictions

The nested codec was always lax about unknown classes and ignored
forbid_dtd/forbid_entities given to the AMF0 decoder.
---
 pyamf/amf0.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 83f5eef..e816838 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -116,6 +116,7 @@ class Context(codec.Context):
         encoder = pyamf.get_encoder(
             pyamf.AMF3,
             stream=amf0_encoder.stream,
+            strict=amf0_encoder.strict,
             timezone_offset=amf0_encoder.timezone_offset
         )
 
@@ -132,7 +133,10 @@ class Context(codec.Context):
         decoder = pyamf.get_decoder(
             pyamf.AMF3,
             stream=amf0_decoder.stream,
-            timezone_offset=amf0_decoder.timezone_offset
+            strict=amf0_decoder.strict,
+            timezone_offset=amf0_decoder.timezone_offset,
+            forbid_dtd=self.forbid_dtd,
+            forbid_entities=self.forbid_entities
         )
 
         self.extra['amf3_decoder'] = decoder
-- 
2.43.0


From 93794f71d12272aac2addde440a4c4063066c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 07/93] fix: refuse AMF0 names longer than 65535 bytes

They were written with a 32 bit length, which corrupts the stream.
---
 pyamf/amf0.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index e816838..2c616c4 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -493,10 +493,14 @@ class Encoder(codec.Encoder):
         l = len(s)
 
         if l > 0xffff:
-            self.stream.write_ulong(l)
-        else:
-            self.stream.write_ushort(l)
+            # there is no type byte here that could announce a long string
+            raise pyamf.EncodeError(
+                'Names longer than 65535 bytes cannot be encoded (got:%d)' % (
+                    l,
+                )
+            )
 
+        self.stream.write_ushort(l)
         self.stream.write(s)
 
     def writeBytes(self, s):
-- 
2.43.0


From b1aeca2088d06a511eb89bf1a622a6c1d7dc7b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 08/93] fix: AMF3 mixed arrays keep their sparse and negative
 integer keys

Keys not starting at 0 raised KeyError (the list was modified while being
iterated), gaps were silently closed and negative keys corrupted the stream.
---
 pyamf/amf3.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 8a123f5..dc337f3 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1375,27 +1375,26 @@ class Encoder(codec.Encoder):
             else:
                 raise ValueError("Non int/str key value found in dict")
 
-        # Make sure the integer keys are within range
-        l = len(int_keys)
+        # Only the integer keys 0, 1, 2.. without a gap can be written as the
+        # dense portion of the array, all others are treated as strings.
+        dense = []
 
-        for x in int_keys:
-            if l < x <= 0:
-                # treat as a string key
+        for x in sorted(int_keys):
+            if x == len(dense):
+                dense.append(x)
+            else:
                 str_keys.append(x)
-                del int_keys[int_keys.index(x)]
-
-        int_keys.sort()
 
-        # If integer keys don't start at 0, they will be treated as strings
-        if len(int_keys) > 0 and int_keys[0] != 0:
-            for x in int_keys:
-                str_keys.append(str(x))
-                del int_keys[int_keys.index(x)]
+        int_keys = dense
 
         self._writeInteger(len(int_keys) << 1 | REFERENCE_BIT)
 
         for x in str_keys:
-            self.serialiseString(x)
+            if isinstance(x, python.int_types):
+                self.serialiseString(str(x))
+            else:
+                self.serialiseString(x)
+
             self.writeElement(n[x])
 
         self.stream.write_uchar(0x01)
-- 
2.43.0


From 639f426f5cff5fb799ae67994f15b97f18422135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 09/93] fix: refuse AMF3 objects with an empty attribute name

The empty name ends the attribute list, so the rest of the stream was
misread. Mixed arrays are already refused for the same reason.
---
 pyamf/amf3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index dc337f3..2781ae7 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1501,6 +1501,10 @@ class Encoder(codec.Encoder):
                 for attr, value in attrs.iteritems():
                     if type(attr) in python.int_types:
                         attr = str(attr)
+                    elif attr == '':
+                        # an empty name marks the end of the attributes
+                        raise pyamf.EncodeError(
+                            'objects cannot contain empty attribute names')
 
                     self.serialiseString(attr)
                     self.writeElement(value)
-- 
2.43.0


From 2c391d322d325bcbefc7426685fa92a7024b992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 10/93] fix: fractions of seconds before 1970 keep their sign

get_timestamp pasted the microseconds after the whole seconds, so half a
second before the epoch became one and a half seconds before it.
---
 pyamf/util/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 4f37c6d..0eaf39f 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -51,9 +51,10 @@ def get_timestamp(d):
     if isinstance(d, datetime.date) and not isinstance(d, datetime.datetime):
         d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
 
-    msec = str(d.microsecond).rjust(6).replace(' ', '0')
+    # calendar.timegm counts whole seconds, towards minus infinity
+    secs = calendar.timegm(d.utctimetuple())
 
-    return float('%s.%s' % (calendar.timegm(d.utctimetuple()), msec))
+    return (secs * 1000000 + d.microsecond) / 1000000.0
 
 
 def get_datetime(secs):
-- 
2.43.0


From c3d3aff0b3230ef6865e48e6fc109abb15591635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 11/93] fix: AMF3 XML does not touch the string reference table

The content was written like a string: it shifted the index of every string
after it and a second equal document was written as a string reference, which
decoders take for an object reference.
---
 pyamf/amf3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 2781ae7..5bd4112 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1551,7 +1551,11 @@ class Encoder(codec.Encoder):
 
         self.context.addObject(n)
 
-        self.serialiseString(xml.tostring(n).encode('utf-8'))
+        # this is not a string as far as the string references are concerned
+        data = xml.tostring(n).encode('utf-8')
+
+        self._writeInteger((len(data) << 1) | REFERENCE_BIT)
+        self.stream.write(data)
 
 
 def encode_int(n):
-- 
2.43.0


From 4802a4670bbf2ea1c4fbb8644a4199bdf939a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 12/93] fix: only canonical integers become integer keys of
 AMF0 mixed arrays

Distinct keys such as '1', '01' and ' 1' were merged into one.
---
 pyamf/amf0.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 2c616c4..79724ee 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -249,9 +249,13 @@ class Decoder(codec.Decoder):
 
         for key, value in attrs.iteritems():
             try:
-                key = int(key)
+                idx = int(key)
             except ValueError:
                 pass
+            else:
+                # leave alone the likes of '01', '+1' or ' 1'
+                if str(idx) == key:
+                    key = idx
 
             obj[key] = value
 
-- 
2.43.0


From eb0a1a15506ec65bc1fbe419a2687979be8993e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 13/93] fix: references to AMF3 values that were never sent are
 an error

---
 pyamf/amf3.py | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 5bd4112..d33cc79 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -859,6 +859,32 @@ class Decoder(codec.Decoder):
 
         return (x >> 1, x & REFERENCE_BIT == 0)
 
+    def _getReferencedString(self, ref):
+        """
+        Returns the string C{ref} refers to.
+
+        @raise ReferenceError: Unknown reference found.
+        """
+        result = self.context.getString(ref)
+
+        if result is None:
+            raise pyamf.ReferenceError('Unknown string reference %d' % (ref,))
+
+        return result
+
+    def _getReferencedObject(self, ref):
+        """
+        Returns the object C{ref} refers to.
+
+        @raise ReferenceError: Unknown reference found.
+        """
+        result = self.context.getObject(ref)
+
+        if result is None:
+            raise pyamf.ReferenceError('Unknown reference %d' % (ref,))
+
+        return result
+
     def readBytes(self):
         """
         Reads and returns a utf-8 encoded byte array.
@@ -866,7 +892,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            return self.context.getString(length)
+            return self._getReferencedString(length)
 
         if length == 0:
             return ''
@@ -883,7 +909,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            result = self.context.getString(length)
+            result = self._getReferencedString(length)
 
             return self.context.getStringForBytes(result)
 
@@ -904,7 +930,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getReferencedObject(ref >> 1)
 
         ms = self.stream.read_double()
         result = util.get_datetime(ms / 1000.0)
@@ -927,7 +953,7 @@ class Decoder(codec.Decoder):
         size = self.readInteger(False)
 
         if size & REFERENCE_BIT == 0:
-            return self.context.getObject(size >> 1)
+            return self._getReferencedObject(size >> 1)
 
         size >>= 1
 
@@ -966,6 +992,11 @@ class Decoder(codec.Decoder):
         if is_ref:
             class_def = self.context.getClassByReference(ref)
 
+            if class_def is None:
+                raise pyamf.ReferenceError(
+                    'Unknown class reference %d' % (ref,)
+                )
+
             return class_def
 
         name = self.readString()
@@ -1019,12 +1050,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            obj = self.context.getObject(ref >> 1)
-
-            if obj is None:
-                raise pyamf.ReferenceError(
-                    'Unknown reference %d' % (ref >> 1,)
-                )
+            obj = self._getReferencedObject(ref >> 1)
 
             if self.use_proxies is True:
                 obj = self.readProxy(obj)
@@ -1075,7 +1101,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getReferencedObject(ref >> 1)
 
         xmlstring = self.stream.read(ref >> 1)
 
@@ -1109,7 +1135,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getReferencedObject(ref >> 1)
 
         buffer = self.stream.read(ref >> 1)
         compressed = False
-- 
2.43.0


From 706a872157a0cede579e220d4b953cf1d8367cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 14/93] fix: unsigned 29 bit AMF3 integers keep their value

---
 pyamf/amf3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d33cc79..aee3a66 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1657,9 +1657,6 @@ def decode_int(stream, signed=False):
         if result & 0x10000000 != 0:
             if signed:
                 result -= 0x20000000
-            else:
-                result <<= 1
-                result += 1
 
     return result
 
-- 
2.43.0


From c318ce1364b69d9b7e713307cc67899538b3cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 15/93] fix: encoding a negative AMF3 integer does not allow
 out of range ones

---
 pyamf/amf3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index aee3a66..062226a 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1604,6 +1604,8 @@ def encode_int(n):
     if n < MIN_29B_INT or n > MAX_29B_INT:
         raise OverflowError("Out of range")
 
+    key = n
+
     if n < 0:
         n += 0x20000000
 
@@ -1629,7 +1631,7 @@ def encode_int(n):
     else:
         bytes += chr(n & 0x7f)
 
-    ENCODED_INT_CACHE[n] = bytes
+    ENCODED_INT_CACHE[key] = bytes
 
     return bytes
 
-- 
2.43.0


From e52f3e847aa95ac66b415dc924d8c20d73338423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 16/93] fix: an element cut short leaves no references behind
 in the decoder

---
 pyamf/amf0.py  | 28 ++++++++++++++++++++++++++++
 pyamf/amf3.py  | 25 +++++++++++++++++++++++++
 pyamf/codec.py | 39 ++++++++++++++++++++++++++++++++++++++-
 3 files changed, 91 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 79724ee..9d289aa 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -107,6 +107,34 @@ class Context(codec.Context):
         if decoder:
             decoder.context.clear()
 
+    def mark(self):
+        """
+        @see: L{codec.Context.mark}
+        """
+        mark = None
+        decoder = self.extra.get('amf3_decoder', None)
+
+        if decoder:
+            mark = decoder.context.mark()
+
+        return (codec.Context.mark(self), mark)
+
+    def rollback(self, mark):
+        """
+        @see: L{codec.Context.rollback}
+        """
+        objects, amf3_mark = mark
+
+        codec.Context.rollback(self, objects)
+
+        decoder = self.extra.get('amf3_decoder', None)
+
+        if decoder:
+            if amf3_mark is None:
+                decoder.context.clear()
+            else:
+                decoder.context.rollback(amf3_mark)
+
     def getAMF3Encoder(self, amf0_encoder):
         encoder = self.extra.get('amf3_encoder', None)
 
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 062226a..ab92b30 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -629,6 +629,31 @@ class Context(codec.Context):
 
         self.class_idx = 0
 
+    def mark(self):
+        """
+        @see: L{codec.Context.mark}
+        """
+        return (codec.Context.mark(self), len(self.strings), self.class_idx)
+
+    def rollback(self, mark):
+        """
+        @see: L{codec.Context.rollback}
+        """
+        objects, strings, class_idx = mark
+
+        codec.Context.rollback(self, objects)
+
+        self.strings.truncate(strings)
+
+        for ref in xrange(class_idx, self.class_idx):
+            definition = self.class_ref.pop(ref)
+
+            for klass, d in self.classes.items():
+                if d is definition:
+                    del self.classes[klass]
+
+        self.class_idx = class_idx
+
     def getString(self, ref):
         """
         Gets a string based on a reference C{ref}.
diff --git a/pyamf/codec.py b/pyamf/codec.py
index d7b87f2..4bd6526 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -52,6 +52,17 @@ class IndexedCollection(object):
         self.list = []
         self.dict = {}
 
+    def truncate(self, size):
+        """
+        Forgets all objects but the first C{size} ones.
+        """
+        objs = self.list[:size]
+
+        self.clear()
+
+        for obj in objs:
+            self.append(obj)
+
     def getByReference(self, ref):
         """
         Returns an object based on the supplied reference. The C{ref} should
@@ -183,6 +194,20 @@ class Context(object):
         self._unicodes = {}
         self.extra = {}
 
+    def mark(self):
+        """
+        Returns an opaque marker for the references collected so far.
+
+        @see: L{rollback}
+        """
+        return len(self._objects)
+
+    def rollback(self, mark):
+        """
+        Forgets all references collected since C{mark} was returned by L{mark}.
+        """
+        self._objects.truncate(mark)
+
     def getObject(self, ref):
         """
         Gets an object based on a reference.
@@ -393,7 +418,7 @@ class Decoder(_Codec):
 
         try:
             return func()
-        except IOError:
+        except (IOError, pyamf.EOStream):
             self.stream.seek(pos)
 
             raise
@@ -405,10 +430,22 @@ class Decoder(_Codec):
         @raise DecodeError: The ActionScript type is unsupported.
         @raise EOStream: No more data left to decode.
         """
+        mark = None
+
+        if self.__depth == 0:
+            mark = self.context.mark()
+
         self.__depth += 1
 
         try:
             element = self._readElement()
+        except (IOError, pyamf.EOStream):
+            # the element is incomplete, it will be read again from its start
+            # when there is more data
+            if mark is not None:
+                self.context.rollback(mark)
+
+            raise
         finally:
             self.__depth -= 1
 
-- 
2.43.0


From d2b0f5e2f2f0a3e4fd79551b3680ad4b071bbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 17/93] fix: received attributes are all filtered, and allowed
 static ones kept

Static attributes were dropped as soon as any other attribute was filtered,
set although read-only when nothing else was received, and proxied attributes
were not unwrapped when the class had no other declarations.
---
 pyamf/alias.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index a1eec02..8bdb931 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -290,7 +290,8 @@ class ClassAlias(object):
 
         if (self.decodable_properties or self.static_attrs or
                 self.exclude_attrs or self.readonly_attrs or
-                not self.dynamic or self.external or self.synonym_attrs):
+                self.proxy_attrs or not self.dynamic or self.external or
+                self.synonym_attrs):
             self.shortcut_decode = False
 
         self.is_dict = False
@@ -472,8 +473,6 @@ class ClassAlias(object):
         if not self._compiled:
             self.compile()
 
-        changed = False
-
         props = set(attrs.keys())
 
         if self.static_attrs:
@@ -486,26 +485,17 @@ class ClassAlias(object):
                     )
                 )
 
-            props.difference_update(self.static_attrs)
-
-        if not props:
-            return attrs
-
         if not self.dynamic:
-            if not self.decodable_properties:
-                props = set()
-            else:
-                props.intersection_update(self.decodable_properties)
-
-            changed = True
+            props.intersection_update(self.decodable_properties or [])
 
         if self.readonly_attrs:
             props.difference_update(self.readonly_attrs)
-            changed = True
 
         if self.exclude_attrs:
             props.difference_update(self.exclude_attrs)
-            changed = True
+
+        if len(props) != len(attrs):
+            attrs = dict((p, attrs[p]) for p in props)
 
         if self.proxy_attrs is not None and codec:
             context = codec.context
@@ -518,13 +508,7 @@ class ClassAlias(object):
 
                 attrs[k] = context.getObjectForProxy(v)
 
-        if changed:
-            # apply all filters before synonyms
-            a = {}
-
-            [a.__setitem__(p, attrs[p]) for p in props]
-            attrs = a
-
+        # apply all filters before synonyms
         if self.synonym_attrs:
             missing = object()
 
-- 
2.43.0


From fb4c07b48815d10774650d88ee3d64da3ca74ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 18/93] fix: synonyms apply to static attributes, closed
 classes and subclasses

They are mapped before received attributes are filtered: a read-only or
excluded attribute could be set through its synonym. Chains of synonyms no
longer depend on dictionary order. Proxied attributes of closed classes are
proxied as well.
---
 pyamf/alias.py | 76 ++++++++++++++++++++++++++------------------------
 pyamf/amf0.py  |  2 +-
 pyamf/amf3.py  |  5 ++--
 3 files changed, 43 insertions(+), 40 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 8bdb931..7d20134 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -22,6 +22,20 @@ class UnknownClassAlias(Exception):
     """
 
 
+def _rename(attrs, names):
+    """
+    Returns a copy of C{attrs} with its keys renamed according to C{names}.
+    A renamed attribute takes precedence over one that always had the name.
+    """
+    ret = dict((k, v) for k, v in attrs.iteritems() if k not in names)
+
+    for k, v in attrs.iteritems():
+        if k in names:
+            ret[names[k]] = v
+
+    return ret
+
+
 class ClassAlias(object):
     """
     Class alias. Provides class/instance meta data to the En/Decoder to allow
@@ -191,7 +205,7 @@ class ClassAlias(object):
         if alias.synonym_attrs:
             x = self.synonym_attrs
             self.synonym_attrs = alias.synonym_attrs.copy()
-            self.synonym_attrs.update(x)
+            self.synonym_attrs.update(x or {})
 
     def _finalise_compile(self):
         if self.dynamic is None:
@@ -231,6 +245,13 @@ class ClassAlias(object):
                 if a not in self.static_attrs:
                     self.static_attrs.remove(a)
 
+        # the names the static attributes are sent under
+        synonyms = self.synonym_attrs or {}
+
+        self.encoded_static_attrs = [
+            synonyms.get(a, a) for a in self.static_attrs
+        ]
+
         if not self.exclude_attrs:
             self.exclude_attrs = None
         else:
@@ -414,25 +435,21 @@ class ClassAlias(object):
                     attrs[attr] = pyamf.Undefined
 
         if not self.dynamic:
-            if self.non_static_encodable_properties:
-                for attr in self.non_static_encodable_properties:
-                    attrs[attr] = self.getAttribute(obj, attr, codec=codec)
-
-            return attrs
-
-        dynamic_props = util.get_properties(obj)
+            dynamic_props = self.non_static_encodable_properties or ()
+        else:
+            dynamic_props = util.get_properties(obj)
 
-        if not self.shortcut_encode:
-            dynamic_props = set(dynamic_props)
+            if not self.shortcut_encode:
+                dynamic_props = set(dynamic_props)
 
-            if self.encodable_properties:
-                dynamic_props.update(self.encodable_properties)
+                if self.encodable_properties:
+                    dynamic_props.update(self.encodable_properties)
 
-            if self.static_attrs:
-                dynamic_props.difference_update(self.static_attrs)
+                if self.static_attrs:
+                    dynamic_props.difference_update(self.static_attrs)
 
-            if self.exclude_attrs:
-                dynamic_props.difference_update(self.exclude_attrs)
+                if self.exclude_attrs:
+                    dynamic_props.difference_update(self.exclude_attrs)
 
         for attr in dynamic_props:
             attrs[attr] = self.getAttribute(obj, attr, codec=codec)
@@ -445,15 +462,7 @@ class ClassAlias(object):
                     attrs[k] = context.getProxyForObject(v)
 
         if self.synonym_attrs:
-            missing = object()
-
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(k, missing)
-
-                if value is missing:
-                    continue
-
-                attrs[v] = value
+            attrs = _rename(attrs, self.synonym_attrs)
 
         return attrs
 
@@ -473,6 +482,11 @@ class ClassAlias(object):
         if not self._compiled:
             self.compile()
 
+        if self.synonym_attrs:
+            # everything below is declared in terms of the python names
+            attrs = _rename(attrs, dict(
+                (v, k) for k, v in self.synonym_attrs.iteritems()))
+
         props = set(attrs.keys())
 
         if self.static_attrs:
@@ -508,18 +522,6 @@ class ClassAlias(object):
 
                 attrs[k] = context.getObjectForProxy(v)
 
-        # apply all filters before synonyms
-        if self.synonym_attrs:
-            missing = object()
-
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(v, missing)
-
-                if value is missing:
-                    continue
-
-                attrs[k] = value
-
         return attrs
 
     def applyAttributes(self, obj, attrs, codec=None):
diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 9d289aa..bbe9ca3 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -654,7 +654,7 @@ class Encoder(codec.Encoder):
         attrs = alias.getEncodableAttributes(o, codec=self)
 
         if alias.static_attrs and attrs:
-            for key in alias.static_attrs:
+            for key in alias.encoded_static_attrs:
                 value = attrs.pop(key)
 
                 self.serialiseString(key)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index ab92b30..5739eaf 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1537,9 +1537,10 @@ class Encoder(codec.Encoder):
 
         if alias.static_attrs:
             if not class_ref:
-                [self.serialiseString(attr) for attr in alias.static_attrs]
+                [self.serialiseString(attr)
+                    for attr in alias.encoded_static_attrs]
 
-            for attr in alias.static_attrs:
+            for attr in alias.encoded_static_attrs:
                 value = attrs.pop(attr)
 
                 self.writeElement(value)
-- 
2.43.0


From d899680b4b6c3895521e2e71cb674cfddbfd6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 19/93] fix: excluded static attributes are not sent

---
 pyamf/alias.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 7d20134..40e6c77 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -229,22 +229,15 @@ class ClassAlias(object):
             self.external = False
 
         if self.static_attrs:
-            self.static_attrs = list(self.static_attrs)
+            self.static_attrs_set.update(self.static_attrs)
+            self.static_attrs_set.difference_update(self.exclude_attrs)
+
+            self.static_attrs = list(self.static_attrs_set)
             self.static_attrs.sort()
 
             self.encodable_properties.update(self.static_attrs)
             self.decodable_properties.update(self.static_attrs)
 
-        if self.static_attrs:
-            self.static_attrs_set.update(self.static_attrs)
-
-            if self.exclude_attrs:
-                self.static_attrs_set.difference_update(self.exclude_attrs)
-
-            for a in self.static_attrs_set:
-                if a not in self.static_attrs:
-                    self.static_attrs.remove(a)
-
         # the names the static attributes are sent under
         synonyms = self.synonym_attrs or {}
 
-- 
2.43.0


From d28e9b08c118ab7fe23bf05155d6fe2ddc51fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 20/93] fix: classes derived from dict obey their attribute
 declarations when sent

---
 pyamf/alias.py | 56 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 40e6c77..4ac6170 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -412,12 +412,52 @@ class ClassAlias(object):
         if not self._compiled:
             self.compile()
 
-        if self.is_dict:
-            return dict(obj)
-
         if self.shortcut_encode and self.dynamic:
+            if self.is_dict:
+                return dict(obj)
+
             return obj.__dict__.copy()
 
+        if self.is_dict:
+            # the attributes are the items of the dict
+            attrs = self._getEncodableItems(obj)
+        else:
+            attrs = self._getEncodableAttributes(obj, codec)
+
+        if self.proxy_attrs is not None and attrs and codec:
+            context = codec.context
+
+            for k, v in attrs.copy().iteritems():
+                if k in self.proxy_attrs:
+                    attrs[k] = context.getProxyForObject(v)
+
+        if self.synonym_attrs:
+            attrs = _rename(attrs, self.synonym_attrs)
+
+        return attrs
+
+    def _getEncodableItems(self, obj):
+        """
+        The items of the dict C{obj} to be encoded.
+        """
+        attrs = dict(obj)
+
+        if not self.dynamic:
+            allowed = self.encodable_properties or ()
+            attrs = dict((k, v) for k, v in attrs.iteritems() if k in allowed)
+
+        for attr in self.exclude_attrs or ():
+            attrs.pop(attr, None)
+
+        for attr in self.static_attrs:
+            attrs.setdefault(attr, pyamf.Undefined)
+
+        return attrs
+
+    def _getEncodableAttributes(self, obj, codec=None):
+        """
+        The attributes of C{obj} to be encoded.
+        """
         attrs = {}
 
         if self.static_attrs:
@@ -447,16 +487,6 @@ class ClassAlias(object):
         for attr in dynamic_props:
             attrs[attr] = self.getAttribute(obj, attr, codec=codec)
 
-        if self.proxy_attrs is not None and attrs and codec:
-            context = codec.context
-
-            for k, v in attrs.copy().iteritems():
-                if k in self.proxy_attrs:
-                    attrs[k] = context.getProxyForObject(v)
-
-        if self.synonym_attrs:
-            attrs = _rename(attrs, self.synonym_attrs)
-
         return attrs
 
     def getDecodableAttributes(self, obj, attrs, codec=None):
-- 
2.43.0


From 389c384425e304149ac1e794a71184c45276075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 21/93] fix: encoding an instance does not register its base
 classes

---
 pyamf/alias.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 4ac6170..390eba6 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -165,7 +165,9 @@ class ClassAlias(object):
         try:
             alias = pyamf.get_class_alias(klass)
         except UnknownClassAlias:
-            alias = pyamf.register_class(klass)
+            # only what it declares is of interest, it stays unregistered
+            alias = util.get_class_alias(klass) or ClassAlias
+            alias = alias(klass, defer=True, **util.get_class_meta(klass))
 
         alias.compile()
 
-- 
2.43.0


From 88b33dcbd52c713f4cea333b30c65f137700e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 22/93] fix: receiving a class by its Python path does not
 rename it

A class registered under a name was registered again under its path, and its
instances were sent under that from then on.
---
 pyamf/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 501e520..af87cb9 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -413,6 +413,13 @@ def load_class(alias):
             pass
         else:
             if isinstance(klass, python.class_types):
+                registered = CLASS_CACHE.get(klass)
+
+                if registered is not None and not registered.anonymous:
+                    # instances are sent under the registered name, whatever
+                    # name the class was asked for
+                    return registered
+
                 return register_class(klass, alias)
             elif isinstance(klass, ClassAlias):
                 CLASS_CACHE[klass.alias] = klass
-- 
2.43.0


From 146d66397f37f5f55ad86bfec86e2076772da6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 23/93] fix: unregister_class only removes the registration it
 was asked for

---
 pyamf/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index af87cb9..cee69cc 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -284,10 +284,11 @@ def unregister_class(alias):
     except KeyError:
         raise UnknownClassAlias('Unknown alias %r' % (alias,))
 
-    if not x.anonymous:
-        del CLASS_CACHE[x.alias]
-
-    del CLASS_CACHE[x.klass]
+    # another class may have been registered under the name since, or the class
+    # under another name
+    for key in (x.alias, x.klass):
+        if CLASS_CACHE.get(key) is x:
+            del CLASS_CACHE[key]
 
     return x
 
-- 
2.43.0


From 89d66dcb27d48476277f13cda1bd5fa7c9a80b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 24/93] fix: AMF0 XML documents may contain non-ASCII text

---
 pyamf/amf0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index bbe9ca3..21587ea 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -413,7 +413,8 @@ class Decoder(codec.Decoder):
         """
         Read XML.
         """
-        data = self.readLongString()
+        # the parser takes care of the encoding of the document
+        data = self.stream.read(self.stream.read_ulong())
         root = xml.fromstring(
             data,
             forbid_dtd=self.context.forbid_dtd,
-- 
2.43.0


From 839ce5acdc8fa458ed16cf708cf11c4064f4285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 25/93] fix: AMF0 arrays with a huge length are read like any
 other

---
 pyamf/amf0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 21587ea..a469ba3 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -297,8 +297,10 @@ class Decoder(codec.Decoder):
         self.context.addObject(obj)
         l = self.stream.read_ulong()
 
-        for i in xrange(l):
+        # not all platforms support an xrange of 32 bits
+        while l > 0:
             obj.append(self.readElement())
+            l -= 1
 
         return obj
 
-- 
2.43.0


From 40334b215b016b9917fa893575022aaf399bb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 26/93] fix: the AMF0 encoder accepts use_amf3 as an argument

---
 pyamf/amf0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index a469ba3..1877e98 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -438,10 +438,10 @@ class Encoder(codec.Encoder):
     """
 
     def __init__(self, *args, **kwargs):
-        codec.Encoder.__init__(self, *args, **kwargs)
-
         self.use_amf3 = kwargs.pop('use_amf3', False)
 
+        codec.Encoder.__init__(self, *args, **kwargs)
+
     def buildContext(self, **kwargs):
         return Context(**kwargs)
 
-- 
2.43.0


From 0cd4dc494459936a9aa1e887646ec429a61db7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:54 +0000
Subject: [PATCH 27/93] fix: AMF0 refuses attribute names and keys that are not
 text

---
 pyamf/amf0.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 1877e98..c1dd02b 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -525,6 +525,9 @@ class Encoder(codec.Encoder):
         if type(s) is unicode:
             s = self.context.getBytesForString(s)
 
+        if not isinstance(s, python.str_types):
+            raise pyamf.EncodeError('Names must be text (got:%r)' % (s,))
+
         l = len(s)
 
         if l > 0xffff:
-- 
2.43.0


From 7326810a24d4c1967a86d8cec8c8a7ccd9a9896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 28/93] fix: AMF3 refuses attribute names and keys that are not
 text

---
 pyamf/amf3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 5739eaf..41264a2 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1298,6 +1298,9 @@ class Encoder(codec.Encoder):
         if type(s) is unicode:
             s = self.context.getBytesForString(s)
 
+        if not isinstance(s, python.str_types):
+            raise pyamf.EncodeError('Names must be text (got:%r)' % (s,))
+
         self.serialiseBytes(s)
 
     def writeBytes(self, b):
-- 
2.43.0


From 7f9827259681996ff7ac03ba2231a15089dbf612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:36 +0000
Subject: [PATCH 29/93] fix: timezone offsets apply to plain dates

---
 pyamf/amf0.py  |  3 +--
 pyamf/amf3.py  |  5 +----
 pyamf/codec.py | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index c1dd02b..be4432d 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -687,8 +687,7 @@ class Encoder(codec.Encoder):
 
         # According to the Red5 implementation of AMF0, dates references are
         # created, but not used.
-        if self.timezone_offset is not None:
-            d -= self.timezone_offset
+        d = self.removeTimezoneOffset(d)
 
         secs = util.get_timestamp(d)
         tz = 0
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 41264a2..79dfdba 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1351,10 +1351,7 @@ class Encoder(codec.Encoder):
 
         self.stream.write_uchar(REFERENCE_BIT)
 
-        if self.timezone_offset is not None:
-            n -= self.timezone_offset
-
-        ms = util.get_timestamp(n)
+        ms = util.get_timestamp(self.removeTimezoneOffset(n))
         self.stream.write_double(ms * 1000.0)
 
     def writeList(self, n, is_proxy=False):
diff --git a/pyamf/codec.py b/pyamf/codec.py
index 4bd6526..2f16851 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -508,6 +508,22 @@ class Encoder(_Codec):
     writeXML = _write_type
     writeObject = _write_type
 
+    def removeTimezoneOffset(self, d):
+        """
+        Returns C{d} with the timezone offset of this encoder, if there is one,
+        removed.
+
+        @param d: Instance of C{datetime.datetime} or C{datetime.date}
+        """
+        if self.timezone_offset is None:
+            return d
+
+        if not isinstance(d, datetime.datetime):
+            # a date only knows about whole days
+            d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
+
+        return d - self.timezone_offset
+
     def writeSequence(self, iterable):
         """
         Encodes an iterable. The default is to write If the iterable has an al
-- 
2.43.0


From 4bc908f5dfc7f6c8314a20287f98831db34e0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 30/93] fix: declared proxy attributes do not break AMF0

---
 pyamf/codec.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 2f16851..6a4f72c 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -235,6 +235,21 @@ class Context(object):
         """
         return self._objects.append(obj)
 
+    def getProxyForObject(self, obj):
+        """
+        Returns the proxied version of C{obj}. Proxying is specific to AMF3,
+        by default C{obj} itself is used.
+        """
+        return obj
+
+    def getObjectForProxy(self, proxy):
+        """
+        Returns the unproxied version of C{proxy}.
+
+        @see: L{getProxyForObject}
+        """
+        return proxy
+
     def getClassAlias(self, klass):
         """
         Gets a class alias based on the supplied C{klass}. If one is not found
-- 
2.43.0


From cc5b1b789537cbf7ded52ff9afbd0f2ee6f926cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 31/93] fix: whether a class is dynamic is inherited from its
 nearest base

---
 pyamf/alias.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 390eba6..9c06a3b 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -198,10 +198,11 @@ class ClassAlias(object):
         if self.amf3 is None and alias.amf3:
             self.amf3 = alias.amf3
 
-        if self.dynamic is None and alias.dynamic is not None:
+        # the nearest base class decides, it has inherited from the others
+        if self.inherited_dynamic is None:
             self.inherited_dynamic = alias.dynamic
 
-        if alias.sealed is not None:
+        if self.inherited_sealed is None:
             self.inherited_sealed = alias.sealed
 
         if alias.synonym_attrs:
-- 
2.43.0


From 87ac0be358fdcde24268fb5f0e1a5d14d10bca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 32/93] fix: an object is not replaced by the proxy it was
 unwrapped from

---
 pyamf/amf3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 79dfdba..1937b20 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -624,6 +624,7 @@ class Context(codec.Context):
 
         self.strings.clear()
         self.proxied_objects = {}
+        self.unproxied_objects = {}
         self.classes = {}
         self.class_ref = {}
 
@@ -739,7 +740,7 @@ class Context(codec.Context):
         @see: L{pyamf.flex.unproxy_object}
         @since: 0.6
         """
-        obj = self.proxied_objects.get(id(proxy))
+        obj = self.unproxied_objects.get(id(proxy))
 
         if obj is None:
             from pyamf import flex
@@ -758,7 +759,7 @@ class Context(codec.Context):
         @since: 0.6
         """
         self.proxied_objects[id(obj)] = proxied
-        self.proxied_objects[id(proxied)] = obj
+        self.unproxied_objects[id(proxied)] = obj
 
     def getProxyForObject(self, obj):
         """
-- 
2.43.0


From a8f687b6bbf010b1774180d6c299c47edc66a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 33/93] fix: remove_type accepts a list of types

---
 pyamf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index cee69cc..f6d323d 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -650,6 +650,9 @@ def remove_type(type_):
     """
     declaration = get_type(type_)
 
+    if isinstance(type_, list):
+        type_ = tuple(type_)
+
     del TYPE_MAP[type_]
 
     return declaration
-- 
2.43.0


From 6fd4482ab0952106690f89d4b48698eca2590f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 34/93] fix: register_alias_type keeps anonymous classes and
 shares one alias

---
 pyamf/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index f6d323d..56b3074 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -792,17 +792,23 @@ def register_alias_type(klass, *args):
 
     ALIAS_TYPES[klass] = args
 
+    # by the id of the original, each has an entry by name and one by class
+    replaced = {}
+
     for k, v in CLASS_CACHE.copy().iteritems():
         new_alias = util.get_class_alias(v.klass)
 
         if new_alias is klass:
-            meta = util.get_class_meta(v.klass)
-            meta['alias'] = v.alias
+            alias_klass = replaced.get(id(v))
+
+            if alias_klass is None:
+                meta = util.get_class_meta(v.klass)
+                # anonymous classes have no alias (it is an empty string)
+                meta['alias'] = v.alias or None
 
-            alias_klass = klass(v.klass, **meta)
+                alias_klass = replaced[id(v)] = klass(v.klass, **meta)
 
             CLASS_CACHE[k] = alias_klass
-            CLASS_CACHE[v.klass] = alias_klass
 
 
 def unregister_alias_type(klass):
-- 
2.43.0


From edabb38144be7a12bc0b734df4be0f384df4d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 35/93] fix: a dead weak reference is sent as null

---
 pyamf/adapters/_weakref.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/adapters/_weakref.py b/pyamf/adapters/_weakref.py
index ba0fbad..9ba4ec2 100644
--- a/pyamf/adapters/_weakref.py
+++ b/pyamf/adapters/_weakref.py
@@ -20,8 +20,14 @@ class Foo(object):
 weakref_type = type(weakref.ref(Foo()))
 
 
-def get_referent(reference, **kwargs):
-    return reference()
+def get_referent(reference, encoder, **kwargs):
+    referent = reference()
+
+    if referent is None:
+        # returning C{None} means that everything has been written already
+        encoder.writeElement(None)
+
+    return referent
 
 
 pyamf.add_type(weakref_type, get_referent)
-- 
2.43.0


From 750e7d5a4dfa517ee80fb10c153fa13bc279ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 36/93] fix: custom types given as predicates or old-style
 classes are decided per value

---
 pyamf/codec.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 6a4f72c..e10825e 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -605,12 +605,8 @@ class Encoder(_Codec):
 
         # check for any overridden types
         for type_, func in pyamf.TYPE_MAP.iteritems():
-            try:
-                if isinstance(data, type_):
-                    return _CustomTypeFunc(self, func)
-            except TypeError:
-                if python.callable(type_) and type_(data):
-                    return _CustomTypeFunc(self, func)
+            if self._isCustomType(data, type_):
+                return _CustomTypeFunc(self, func)
 
         if isinstance(data, (list, tuple)):
             return self.writeSequence
@@ -629,6 +625,26 @@ class Encoder(_Codec):
         # well, we tried ..
         return self.writeObject
 
+    def _isCustomType(self, data, type_):
+        """
+        Whether the key of L{pyamf.TYPE_MAP} C{type_} (a class, a callable or a
+        tuple of those) applies to C{data}.
+        """
+        if isinstance(type_, tuple):
+            for x in type_:
+                if self._isCustomType(data, x):
+                    return True
+
+            return False
+
+        try:
+            return isinstance(data, type_)
+        except TypeError:
+            # the answer is for this value only, not for all of its type
+            self._cacheable = False
+
+            return python.callable(type_) and type_(data)
+
     def writeElement(self, data):
         """
         Encodes C{data} to AMF. If the data is not able to be matched to an AMF
@@ -637,16 +653,22 @@ class Encoder(_Codec):
         key = type(data)
         func = None
 
+        if key is types.InstanceType:
+            # all instances of old style classes have the same type
+            key = data.__class__
+
         try:
             func = self._func_cache[key]
         except KeyError:
+            self._cacheable = True
             func = self.getTypeFunc(data)
 
             if func is None:
                 raise pyamf.EncodeError('Unable to encode %r (type %r)' % (
                     data, key))
 
-            self._func_cache[key] = func
+            if self._cacheable:
+                self._func_cache[key] = func
 
         func(data)
 
-- 
2.43.0


From 5f95f6f73093c9e050f560af850fc3d587222c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 37/93] fix: a custom type converted to None is sent as null

This includes references to objects that have been collected.
---
 pyamf/adapters/_weakref.py | 10 ++--------
 pyamf/codec.py             |  4 +++-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyamf/adapters/_weakref.py b/pyamf/adapters/_weakref.py
index 9ba4ec2..ba0fbad 100644
--- a/pyamf/adapters/_weakref.py
+++ b/pyamf/adapters/_weakref.py
@@ -20,14 +20,8 @@ class Foo(object):
 weakref_type = type(weakref.ref(Foo()))
 
 
-def get_referent(reference, encoder, **kwargs):
-    referent = reference()
-
-    if referent is None:
-        # returning C{None} means that everything has been written already
-        encoder.writeElement(None)
-
-    return referent
+def get_referent(reference, **kwargs):
+    return reference()
 
 
 pyamf.add_type(weakref_type, get_referent)
diff --git a/pyamf/codec.py b/pyamf/codec.py
index e10825e..f580673 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -483,9 +483,11 @@ class _CustomTypeFunc(object):
         self.func = func
 
     def __call__(self, data, **kwargs):
+        pos = self.encoder.stream.tell()
         ret = self.func(data, encoder=self.encoder)
 
-        if ret is not None:
+        # the function may have written to the encoder by itself
+        if ret is not None or self.encoder.stream.tell() == pos:
             self.encoder.writeElement(ret)
 
 
-- 
2.43.0


From 9e7dfa8ca20a45a434e13b56076c96530268dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 38/93] fix: truncate leaves the stream pointer within the
 stream

---
 pyamf/util/pure.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 07161a5..f85bdc9 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -101,19 +101,13 @@ class StringIOProxy(object):
         @param size: The length of the stream, in bytes.
         @type size: C{int}
         """
-        if size == 0:
-            self._buffer = StringIO()
-            self._len_changed = True
+        # the pointer stays where it is, as far as that still exists
+        cur_pos = min(self.tell(), size)
+        buf = self.getvalue()[:size]
 
-            return
-
-        cur_pos = self.tell()
-        self.seek(0)
-        buf = self.read(size)
         self._buffer = StringIO()
-
         self._buffer.write(buf)
-        self.seek(cur_pos)
+        self._buffer.seek(min(cur_pos, len(buf)))
         self._len_changed = True
 
     def write(self, s, size=None):
-- 
2.43.0


From de65942e9d0ae3cb4d712500d5e07ea3e4b1d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 39/93] fix: a 24 bit integer cut short does not move the
 stream pointer

---
 pyamf/util/pure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index f85bdc9..77eb286 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -365,8 +365,8 @@ class DataTypeMixIn(object):
 
         n = 0
 
-        for x in order:
-            n += (self.read_uchar() << x)
+        for x, byte in zip(order, self._read(3)):
+            n += (ord(byte) << x)
 
         return n
 
-- 
2.43.0


From ef5c4a7e00ad1927d5e89c461c12055cd86d9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 40/93] fix: appending something that is not text does not move
 the stream pointer

---
 pyamf/util/pure.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 77eb286..449d363 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -601,12 +601,13 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
         # seek to the end of the stream
         self.seek(0, 2)
 
-        if hasattr(data, 'getvalue'):
-            self.write_utf8_string(data.getvalue())
-        else:
-            self.write_utf8_string(data)
-
-        self.seek(t)
+        try:
+            if hasattr(data, 'getvalue'):
+                self.write_utf8_string(data.getvalue())
+            else:
+                self.write_utf8_string(data)
+        finally:
+            self.seek(t)
 
     def __add__(self, other):
         old_pos = self.tell()
-- 
2.43.0


From 4635e94bf75397b97330c725ec6be56f2d7a457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 41/93] fix: an empty stream can be added to another

---
 pyamf/util/pure.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 449d363..a31d7f0 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -610,18 +610,10 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
             self.seek(t)
 
     def __add__(self, other):
-        old_pos = self.tell()
-        old_other_pos = other.tell()
-
         new = BufferedByteStream(self)
 
-        other.seek(0)
-        new.seek(0, 2)
-        new.write(other.read())
-
-        self.seek(old_pos)
-        other.seek(old_other_pos)
-        new.seek(0)
+        # neither stream needs to be read from (an empty one can't be)
+        new.append(BufferedByteStream(other))
 
         return new
 
-- 
2.43.0


From a01753082f783116a427fdf116858bddcf934460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 42/93] fix: byte arrays sent compressed are decompressed when
 received

---
 pyamf/amf3.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 1937b20..886fb37 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -510,6 +510,9 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
 
     _zlib_header = '\x78\x9c'
 
+    #: The header of what L{__str__} and the Flash player write.
+    _zlib_best_header = '\x78\xda'
+
     class __amf__:
         amf3 = True
 
@@ -520,7 +523,7 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
         DataInput.__init__(self, Decoder(self, self.context))
         DataOutput.__init__(self, Encoder(self, self.context))
 
-        self.compressed = self.peek(2) == ByteArray._zlib_header
+        self.compressed = self.isCompressed(self.peek(2))
 
     def readObject(self):
         self.context.clear()
@@ -538,6 +541,13 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
 
         return cmp(self.getvalue(), other)
 
+    @classmethod
+    def isCompressed(cls, buf):
+        """
+        Whether C{buf} starts like a C{zlib} stream.
+        """
+        return buf[0:2] in (cls._zlib_header, cls._zlib_best_header)
+
     def __str__(self):
         buf = self.getvalue()
 
@@ -1166,7 +1176,7 @@ class Decoder(codec.Decoder):
         buffer = self.stream.read(ref >> 1)
         compressed = False
 
-        if buffer[0:2] == ByteArray._zlib_header:
+        if ByteArray.isCompressed(buffer):
             try:
                 buffer = zlib.decompress(buffer)
                 compressed = True
-- 
2.43.0


From eace785eab678f4e5f660a3f7a86d075b1dcf3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 43/93] fix: an XML element is sent without the text that
 follows it in its parent

---
 pyamf/xml.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyamf/xml.py b/pyamf/xml.py
index 3fef97f..13cf625 100644
--- a/pyamf/xml.py
+++ b/pyamf/xml.py
@@ -7,6 +7,8 @@ Provides XML support.
 @since: 0.6
 """
 
+import copy
+
 #: list of supported third party packages that support the C{etree}
 #: interface. At least enough for our needs anyway.
 ETREE_MODULES = [
@@ -152,6 +154,12 @@ def tostring(element, *args, **kwargs):
             '(type %r)' % (element, t)
         )
 
+    if element.tail:
+        # the text following an element is part of its parent, it cannot
+        # follow the root of a document
+        element = copy.copy(element)
+        element.tail = None
+
     return etree.tostring(element, *args, **kwargs)
 
 
-- 
2.43.0


From 11fe6d6b88a42568be8b7c3b19c78ef8f11606a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 44/93] fix: lengths of header names and response ids are
 counted in bytes

---
 pyamf/remoting/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f683b58..88cc7a2 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -411,8 +411,11 @@ def _write_header(name, header, required, stream, encoder, strict=False):
         the correct header length after writing the header.
     @type strict: C{boolean}
     """
+    if isinstance(name, unicode):
+        name = name.encode('utf-8')
+
     stream.write_ushort(len(name))
-    stream.write_utf8_string(name)
+    stream.write(name)
 
     stream.write_uchar(required)
     write_pos = stream.tell()
@@ -542,8 +545,11 @@ def _write_body(name, message, stream, encoder, strict=False):
     if isinstance(message, Request):
         response = name
 
+    if isinstance(response, unicode):
+        response = response.encode('utf-8')
+
     stream.write_ushort(len(response))
-    stream.write_utf8_string(response)
+    stream.write(response)
 
     if not strict:
         stream.write_ulong(0)
-- 
2.43.0


From 6c0b70e4cf82ae6d68754aefa8a8bb1dc860f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 45/93] fix: the number of messages in an envelope is unsigned

---
 pyamf/remoting/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 88cc7a2..229d930 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -663,7 +663,7 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         if required:
             msg.headers.set_required(name)
 
-    body_count = stream.read_short()
+    body_count = stream.read_ushort()
 
     for i in xrange(body_count):
         context.clear()
@@ -722,7 +722,7 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
             strict,
         )
 
-    stream.write_short(len(msg))
+    stream.write_ushort(len(msg))
 
     for name, message in msg.iteritems():
         encoder.context.clear()
-- 
2.43.0


From 7b78a81d709d6b5f9e89a6b48f93b4e68194fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 46/93] fix: a header can be set to be not required

---
 pyamf/remoting/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 229d930..8cb3b2d 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -102,8 +102,11 @@ class HeaderCollection(dict):
         if idx not in self:
             raise KeyError("Unknown header %s" % str(idx))
 
-        if idx not in self.required and value:
-            self.required.append(idx)
+        if value:
+            if idx not in self.required:
+                self.required.append(idx)
+        elif idx in self.required:
+            self.required.remove(idx)
 
     def __len__(self):
         return len(self.keys())
@@ -660,8 +663,7 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         name, required, data = _read_header(stream, decoder, strict)
         msg.headers[name] = data
 
-        if required:
-            msg.headers.set_required(name)
+        msg.headers.set_required(name, required)
 
     body_count = stream.read_ushort()
 
-- 
2.43.0


From 04694a7a6ae2ae22e6522e6c893ca72e5a0f852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 47/93] fix: messages with the same response id are all kept
 when decoding

---
 pyamf/remoting/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 8cb3b2d..71b4c2e 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -671,7 +671,8 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         context.clear()
 
         target, payload = _read_body(stream, decoder, strict, logger)
-        msg[target] = payload
+        payload.envelope = msg
+        msg.bodies.append((target, payload))
 
     if strict and stream.remaining() > 0:
         raise RuntimeError("Unable to fully consume the buffer")
-- 
2.43.0


From 9de9d4c1d6a1f800e1d457450566a782150ed44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 48/93] fix: only the last status suffix of a response target
 is removed

---
 pyamf/remoting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 71b4c2e..617d222 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -482,6 +482,8 @@ def _read_body(stream, decoder, strict=False, logger=None):
         status = code
         target = target[:0 - len(s)]
 
+        break
+
     data_len = stream.read_ulong()
     pos = stream.tell()
 
-- 
2.43.0


From 50f427f1ad050f44593bc1eddd1168e95884491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 49/93] fix: reference indices are local to each remoting
 header

---
 pyamf/remoting/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 617d222..4539d40 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -662,6 +662,8 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
     header_count = stream.read_ushort()
 
     for i in xrange(header_count):
+        context.clear()
+
         name, required, data = _read_header(stream, decoder, strict)
         msg.headers[name] = data
 
@@ -718,6 +720,8 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
     stream.write_ushort(len(msg.headers))
 
     for name, header in msg.headers.iteritems():
+        encoder.context.clear()
+
         _write_header(
             name,
             header,
-- 
2.43.0


From 7de362f949001defc18f98921738e34f082f8c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 50/93] fix: faults with any attributes can be decoded

---
 pyamf/remoting/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 4539d40..d6e192d 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -604,11 +604,10 @@ def get_fault(data):
 
     e = {}
 
-    for x, y in data.iteritems():
-        if isinstance(x, unicode):
-            e[str(x)] = y
-        else:
-            e[x] = y
+    # anything else has no place in a fault
+    for x in ('code', 'type', 'details', 'description'):
+        if x in data:
+            e[x] = data[x]
 
     return get_fault_class(level, **e)(**e)
 
-- 
2.43.0


From e15d8dd0af90e7b7f595620b65a3774245e641d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 51/93] fix: a huge number of arguments is an end of stream
 like any other

---
 pyamf/remoting/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index d6e192d..e1b9b4a 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -465,8 +465,14 @@ def _read_body(stream, decoder, strict=False, logger=None):
 
         stream.read(1)
         x = stream.read_ulong()
+        args = []
 
-        return [decoder.readElement() for i in xrange(x)]
+        # not all platforms support an xrange of 32 bits
+        while x > 0:
+            args.append(decoder.readElement())
+            x -= 1
+
+        return args
 
     target = stream.read_utf8_string(stream.read_ushort())
     response = stream.read_utf8_string(stream.read_ushort())
-- 
2.43.0


From a2978ef32e0cd03a70d294b0c93be1c87aa92c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 52/93] fix: a truncated AMF body is a bad request

---
 pyamf/remoting/gateway/django.py | 3 ++-
 pyamf/remoting/gateway/wsgi.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 42e4788..398318e 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -108,7 +108,8 @@ class DjangoGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.ReferenceError, pyamf.EOStream,
+                IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index d5d7d6f..ed37149 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -87,7 +87,8 @@ class WSGIGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.ReferenceError, pyamf.EOStream,
+                IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
-- 
2.43.0


From 77bcb555e0922f7465733a2d9405f3dbcf0a4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 53/93] fix: errors whose message is not plain text can be sent

---
 pyamf/remoting/__init__.py | 19 +++++++++++++++++++
 pyamf/remoting/amf0.py     |  7 +++++--
 pyamf/remoting/amf3.py     |  8 ++++----
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index e1b9b4a..90282a8 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -748,6 +748,25 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
     return stream
 
 
+def error_text(obj):
+    """
+    Returns the text of an error (or of part of one), whatever it is made of.
+
+    @rtype: C{unicode}
+    """
+    try:
+        return unicode(obj)
+    except Exception:
+        pass
+
+    try:
+        text = str(obj)
+    except Exception:
+        text = obj.__class__.__name__
+
+    return text.decode('utf-8', 'replace')
+
+
 def get_exception_from_fault(fault):
     return pyamf.ERROR_CLASS_MAP.get(fault.code, RemotingError)
 
diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 8ccf49d..9d6f8d6 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -182,10 +182,13 @@ def build_fault(cls, e, tb, include_traceback=False):
     details = None
 
     if include_traceback:
-        details = traceback.format_exception(cls, e, tb)
+        details = [
+            remoting.error_text(line)
+            for line in traceback.format_exception(cls, e, tb)
+        ]
 
     return remoting.ErrorFault(
         code=code,
-        description=unicode(e),
+        description=remoting.error_text(e),
         details=details
     )
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index ff26949..0db17b2 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -71,19 +71,19 @@ def generate_error(request, cls, e, tb, include_traceback=False):
 
         traceback.print_exception(cls, e, tb, file=buffer)
 
-        details = buffer.getvalue()
+        details = remoting.error_text(buffer.getvalue())
 
     faultDetail = None
     faultString = None
 
     if hasattr(e, 'message'):
-        faultString = unicode(e.message)
+        faultString = remoting.error_text(e.message)
     elif hasattr(e, 'args') and e.args:
         if isinstance(e.args[0], pyamf.python.str_types):
-            faultString = unicode(e.args[0])
+            faultString = remoting.error_text(e.args[0])
 
     if details:
-        faultDetail = unicode(details)
+        faultDetail = details
 
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
-- 
2.43.0


From 81382a6bc26b4964d77f7073822705ce6ac8a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 54/93] fix: a malformed RemoteObject request does not affect
 others

---
 pyamf/remoting/amf3.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 0db17b2..5563205 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -89,7 +89,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         messageId=generate_random_id(),
         clientId=generate_random_id(),
         timestamp=calendar.timegm(time.gmtime()),
-        correlationId=request.messageId,
+        correlationId=getattr(request, 'messageId', None),
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
@@ -213,9 +213,10 @@ class RequestProcessor(object):
         @return: The response to the request.
         @rtype: L{Response<pyamf.remoting.Response>}
         """
-        ro_request = amf_request.body[0]
+        ro_request = None
 
         try:
+            ro_request = amf_request.body[0]
             body = self._getBody(amf_request, ro_request, **kwargs)
         except (KeyboardInterrupt, SystemExit):
             raise
@@ -234,7 +235,11 @@ class RequestProcessor(object):
 
         ro_response = body.body
 
-        dsid = ro_request.headers.get('DSId', None)
+        headers = getattr(ro_request, 'headers', None)
+        dsid = None
+
+        if isinstance(headers, dict):
+            dsid = headers.get('DSId', None)
 
         if not dsid or dsid == 'nil':
             dsid = generate_random_id()
@@ -248,7 +253,7 @@ def get_service_name(ro_request):
     """
     Returns the full service name of a RemoteObject request.
     """
-    service_name = ro_request.operation
+    service_name = getattr(ro_request, 'operation', None)
 
     if hasattr(ro_request, 'destination') and ro_request.destination:
         service_name = '%s.%s' % (ro_request.destination, service_name)
-- 
2.43.0


From bc63029d382b2103cc5cb7555f09478d356715b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 55/93] fix: authenticators guard RemoteObject requests too

---
 pyamf/remoting/amf3.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 5563205..cc63329 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -34,6 +34,13 @@ class ServerCallFailed(BaseServerError):
     _amf_code = 'Server.Call.Failed'
 
 
+class AuthenticationError(BaseServerError):
+    """
+    The authenticator did not accept the credentials of the request.
+    """
+    _amf_code = 'AuthenticationError'
+
+
 def generate_random_id():
     return str(uuid.uuid4())
 
@@ -124,6 +131,35 @@ class RequestProcessor(object):
 
         return generate_error(request, cls, e, tb, self.gateway.debug)
 
+    def authenticateRequest(self, amf_request, ro_request, service_request,
+                            **kwargs):
+        """
+        Authenticates the request against the service. The credentials are
+        those set for the destination (C{setRemoteCredentials}) or else those
+        in the headers of the AMF request.
+        """
+        username = password = None
+
+        if self.gateway.getAuthenticator(service_request) is not None:
+            headers = ro_request.headers or {}
+            header = messaging.AbstractMessage.REMOTE_CREDENTIALS_HEADER
+
+            if headers.get(header, None):
+                cred = headers[header].decode('base64').decode('utf-8')
+                username, password = cred.split(':', 1)
+            elif 'Credentials' in amf_request.headers:
+                cred = amf_request.headers['Credentials']
+
+                username = cred['userid']
+                password = cred['password']
+
+        return self.gateway.authenticateRequest(
+            service_request,
+            username,
+            password,
+            **kwargs
+        )
+
     def _getBody(self, amf_request, ro_request, **kwargs):
         """
         @raise ServerCallFailed: Unknown request.
@@ -188,6 +224,10 @@ class RequestProcessor(object):
             service_name
         )
 
+        if not self.authenticateRequest(
+                amf_request, ro_request, service_request, **kwargs):
+            raise AuthenticationError('Authentication failed')
+
         # fire the preprocessor (if there is one)
         self.gateway.preprocessRequest(
             service_request,
-- 
2.43.0


From 86578b84333213f6d5eb5827d3c46094465b3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 56/93] fix: a service is not disturbed by attributes which
 cannot be read

---
 pyamf/remoting/gateway/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index b5e32aa..4e50a04 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -140,9 +140,15 @@ class ServiceWrapper(object):
         callables = {}
 
         for name in dir(self.service):
-            method = getattr(self.service, name)
+            if name.startswith('_'):
+                continue
+
+            try:
+                method = getattr(self.service, name)
+            except Exception:
+                continue
 
-            if name.startswith('_') or not python.callable(method):
+            if not python.callable(method):
                 continue
 
             callables[name] = method
-- 
2.43.0


From 49ea83609e4eceb6fcf2ba4c8ff13b61da4ff4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 57/93] fix: requests with the same response id are all
 answered

---
 pyamf/remoting/gateway/django.py | 4 +++-
 pyamf/remoting/gateway/wsgi.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 398318e..b14045a 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -81,7 +81,9 @@ class DjangoGateway(gateway.BaseGateway):
             http_request.amf_request = message
 
             processor = self.getProcessor(message)
-            response[name] = processor(message, http_request=http_request)
+            answer = processor(message, http_request=http_request)
+            answer.envelope = response
+            response.bodies.append((name, answer))
 
         return response
 
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index ed37149..315230c 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -48,7 +48,9 @@ class WSGIGateway(gateway.BaseGateway):
         for name, message in request:
             processor = self.getProcessor(message)
             environ['pyamf.request'] = message
-            response[name] = processor(message, http_request=environ)
+            answer = processor(message, http_request=environ)
+            answer.envelope = response
+            response.bodies.append((name, answer))
 
         return response
 
-- 
2.43.0


From 5f9f2693b66b220f4a716e18a045fce8b4d812cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 58/93] fix: requests with the same response id are all
 answered on App Engine

---
 pyamf/remoting/gateway/google.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/google.py b/pyamf/remoting/gateway/google.py
index b63c494..0e6b51d 100644
--- a/pyamf/remoting/gateway/google.py
+++ b/pyamf/remoting/gateway/google.py
@@ -54,7 +54,9 @@ class WebAppGateway(webapp.RequestHandler, gateway.BaseGateway):
             self.request.amf_request = message
 
             processor = self.getProcessor(message)
-            response[name] = processor(message, http_request=self.request)
+            answer = processor(message, http_request=self.request)
+            answer.envelope = response
+            response.bodies.append((name, answer))
 
         return response
 
-- 
2.43.0


From ed572bdcfb5bdcb90f58b4d3cc2f86ca67846197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 59/93] fix: a truncated AMF body is a bad request on App
 Engine

---
 pyamf/remoting/gateway/google.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/gateway/google.py b/pyamf/remoting/gateway/google.py
index 0e6b51d..c0cda07 100644
--- a/pyamf/remoting/gateway/google.py
+++ b/pyamf/remoting/gateway/google.py
@@ -15,7 +15,8 @@ applications to AMF clients and servers.
 import sys
 import os.path
 
-from pyamf import remoting, DecodeError
+import pyamf
+from pyamf import remoting
 from pyamf.remoting import gateway
 
 try:
@@ -83,7 +84,8 @@ class WebAppGateway(webapp.RequestHandler, gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.ReferenceError, pyamf.EOStream,
+                IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
-- 
2.43.0


From 68e342fc2fc690de7812e8955001db1b53ca5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 60/93] fix: exceptions whose message is not plain text can be
 encoded

---
 pyamf/__init__.py          |  2 +-
 pyamf/remoting/__init__.py | 20 +-------------------
 pyamf/util/__init__.py     | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 56b3074..f4a2179 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -239,7 +239,7 @@ class ErrorAlias(ClassAlias):
     def getEncodableAttributes(self, obj, **kwargs):
         attrs = ClassAlias.getEncodableAttributes(self, obj, **kwargs)
 
-        attrs['message'] = unicode(obj)
+        attrs['message'] = util.error_text(obj)
         attrs['name'] = obj.__class__.__name__
 
         return attrs
diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 90282a8..5393e36 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -28,6 +28,7 @@ essential for the Adobe Flash Player to understand the response therefore.
 
 import pyamf
 from pyamf import util
+from pyamf.util import error_text
 
 
 __all__ = ['Envelope', 'Request', 'Response', 'decode', 'encode']
@@ -748,25 +749,6 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
     return stream
 
 
-def error_text(obj):
-    """
-    Returns the text of an error (or of part of one), whatever it is made of.
-
-    @rtype: C{unicode}
-    """
-    try:
-        return unicode(obj)
-    except Exception:
-        pass
-
-    try:
-        text = str(obj)
-    except Exception:
-        text = obj.__class__.__name__
-
-    return text.decode('utf-8', 'replace')
-
-
 def get_exception_from_fault(fault):
     return pyamf.ERROR_CLASS_MAP.get(fault.code, RemotingError)
 
diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 0eaf39f..2c7bfde 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -211,6 +211,25 @@ def get_module(mod_name):
     return mod
 
 
+def error_text(obj):
+    """
+    Returns the text of an error (or of part of one), whatever it is made of.
+
+    @rtype: C{unicode}
+    """
+    try:
+        return unicode(obj)
+    except Exception:
+        pass
+
+    try:
+        text = str(obj)
+    except Exception:
+        text = obj.__class__.__name__
+
+    return text.decode('utf-8', 'replace')
+
+
 try:
     datetime.datetime.utcfromtimestamp(-31536000.0)
 except ValueError:
-- 
2.43.0


From c84510a04fc504ac76b51b6f88a6aef439a553b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 61/93] fix: bytes left over in a strict envelope are a
 decoding error

---
 pyamf/remoting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 5393e36..851c298 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -685,7 +685,7 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         msg.bodies.append((target, payload))
 
     if strict and stream.remaining() > 0:
-        raise RuntimeError("Unable to fully consume the buffer")
+        raise pyamf.DecodeError("Unable to fully consume the buffer")
 
     return msg
 
-- 
2.43.0


From 49ed6daec39802bcae310c30dcb4ab9d12319e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:02 +0000
Subject: [PATCH 62/93] fix: text which is not UTF-8 in an AMF body is a bad
 request

---
 pyamf/remoting/gateway/django.py | 2 +-
 pyamf/remoting/gateway/google.py | 2 +-
 pyamf/remoting/gateway/wsgi.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index b14045a..a6342cc 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -111,7 +111,7 @@ class DjangoGateway(gateway.BaseGateway):
                 timezone_offset=timezone_offset
             )
         except (pyamf.DecodeError, pyamf.ReferenceError, pyamf.EOStream,
-                IOError):
+                UnicodeDecodeError, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/google.py b/pyamf/remoting/gateway/google.py
index c0cda07..cc6d162 100644
--- a/pyamf/remoting/gateway/google.py
+++ b/pyamf/remoting/gateway/google.py
@@ -85,7 +85,7 @@ class WebAppGateway(webapp.RequestHandler, gateway.BaseGateway):
                 timezone_offset=timezone_offset
             )
         except (pyamf.DecodeError, pyamf.ReferenceError, pyamf.EOStream,
-                IOError):
+                UnicodeDecodeError, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index 315230c..f885ed9 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -90,7 +90,7 @@ class WSGIGateway(gateway.BaseGateway):
                 timezone_offset=timezone_offset
             )
         except (pyamf.DecodeError, pyamf.ReferenceError, pyamf.EOStream,
-                IOError):
+                UnicodeDecodeError, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
-- 
2.43.0


From 0026ac4b42095ad9d2f0b7a91b954af0f7ae0c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 63/93] fix: an answer without a content type is a remoting
 error

---
 pyamf/remoting/client/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 283b955..b4cdaa5 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -456,7 +456,7 @@ class RemotingService(object):
 
         content_encoding = http_message.getheader('Content-Encoding')
         content_length = http_message.getheader('Content-Length') or -1
-        content_type = http_message.getheader('Content-Type')
+        content_type = http_message.getheader('Content-Type') or ''
         server = http_message.getheader('Server')
 
         if self.logger:
-- 
2.43.0


From 203adb066aecaf77cfee4f2379b235f1f53a1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 64/93] fix: credentials given as unicode can hold any text

---
 pyamf/remoting/client/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index b4cdaa5..9be863d 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -518,11 +518,17 @@ class RemotingService(object):
         """
         Sets authentication credentials for accessing the remote gateway.
         """
+        def to_unicode(s):
+            if isinstance(s, unicode):
+                return s
+
+            return s.decode('utf-8')
+
         self.addHeader(
             'Credentials',
             dict(
-                userid=username.decode('utf-8'),
-                password=password.decode('utf-8')
+                userid=to_unicode(username),
+                password=to_unicode(password)
             ),
             True
         )
-- 
2.43.0


From 0929a0cbe42bd5259866c423d7e26c16a1914555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 65/93] fix: services whose names are not ASCII can be called

---
 pyamf/remoting/client/__init__.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 9be863d..4a33b9c 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -56,10 +56,13 @@ class ServiceMethodProxy(object):
         Returns the full service name, including the method name if there is
         one.
         """
-        service_name = str(self.service)
+        return unicode(self).encode('utf-8')
+
+    def __unicode__(self):
+        service_name = unicode(self.service)
 
         if self.name is not None:
-            service_name = '%s.%s' % (service_name, self.name)
+            service_name = u'%s.%s' % (service_name, self.name)
 
         return service_name
 
@@ -124,7 +127,13 @@ class ServiceProxy(object):
         """
         Returns a string representation of the name of the service.
         """
-        return self._name
+        return unicode(self).encode('utf-8')
+
+    def __unicode__(self):
+        if isinstance(self._name, unicode):
+            return self._name
+
+        return self._name.decode('utf-8')
 
 
 class RequestWrapper(object):
@@ -364,7 +373,10 @@ class RemotingService(object):
             service = request.service
             args = list(request.args)
 
-            envelope[request.id] = remoting.Request(str(service), args)
+            if isinstance(service, str):
+                service = service.decode('utf-8')
+
+            envelope[request.id] = remoting.Request(unicode(service), args)
 
         envelope.headers = self.headers
 
-- 
2.43.0


From 23ed60ea184ac3819b781aea10e4d6fbf6251690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 66/93] fix: a header which was deleted is not required when
 set again

---
 pyamf/remoting/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 851c298..7c64337 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -109,6 +109,12 @@ class HeaderCollection(dict):
         elif idx in self.required:
             self.required.remove(idx)
 
+    def __delitem__(self, idx):
+        dict.__delitem__(self, idx)
+
+        if idx in self.required:
+            self.required.remove(idx)
+
     def __len__(self):
         return len(self.keys())
 
-- 
2.43.0


From 5e25a798df9b96716dfccb8043ec2c8e4841d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 67/93] fix: removing a request which is not pending is a
 LookupError

---
 pyamf/remoting/client/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 4a33b9c..2a66093 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -337,6 +337,9 @@ class RemotingService(object):
         @raise LookupError: Request not found.
         """
         if isinstance(service, RequestWrapper):
+            if service not in self.requests:
+                raise LookupError("Request not found")
+
             if self.logger:
                 self.logger.debug(
                     'Removing request: %s',
-- 
2.43.0


From 93d5a27f4ddd5c6e96d4b10de3e0ab382d62d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 68/93] fix: compact messages carry fields which are false

---
 pyamf/flex/messaging.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 67b3093..ad6ff4e 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -143,11 +143,9 @@ class AbstractMessage(object):
         """
         obj = getattr(self, attr)
 
-        if not obj:
-            return obj
-
         if attr in ['timestamp', 'timeToLive']:
-            return pyamf.util.get_timestamp(obj) * 1000.0
+            if obj is not None:
+                return pyamf.util.get_timestamp(obj) * 1000.0
         elif attr in ['clientId', 'messageId']:
             if isinstance(obj, uuid.UUID):
                 return None
@@ -189,7 +187,7 @@ class AbstractMessage(object):
         for flag in self.SMALL_ATTRIBUTE_FLAGS:
             value = self.encodeSmallAttribute(self.SMALL_ATTRIBUTES[flag])
 
-            if value:
+            if value is not None:
                 byte |= flag
                 flag_attrs.append(value)
 
@@ -422,7 +420,7 @@ class CommandMessage(AsyncMessage):
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
-        if self.operation:
+        if self.operation is not None:
             output.writeUnsignedByte(0x01)
             output.writeObject(self.operation)
         else:
-- 
2.43.0


From f0f97c60113377e6da59bd21fc831f0a27893c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 69/93] fix: messages whose ids are not UUIDs have a compact
 form

---
 pyamf/flex/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index ad6ff4e..f751895 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -198,7 +198,7 @@ class AbstractMessage(object):
             attr = self.SMALL_UUIDS[flag]
             value = getattr(self, attr)
 
-            if not value:
+            if not isinstance(value, uuid.UUID):
                 continue
 
             byte |= flag
-- 
2.43.0


From f3566d7a03ccbce3941607e5c122ccf1cb57d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 70/93] fix: messages whose times are numbers have a compact
 form

---
 pyamf/flex/messaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index f751895..528703d 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -12,6 +12,7 @@ This module contains the message classes used with Flex Data Services.
 @since: 0.1
 """
 
+import datetime
 import uuid
 
 import pyamf.util
@@ -144,7 +145,7 @@ class AbstractMessage(object):
         obj = getattr(self, attr)
 
         if attr in ['timestamp', 'timeToLive']:
-            if obj is not None:
+            if isinstance(obj, datetime.date):
                 return pyamf.util.get_timestamp(obj) * 1000.0
         elif attr in ['clientId', 'messageId']:
             if isinstance(obj, uuid.UUID):
-- 
2.43.0


From 951ec330ec955b9c79b015552755d2eecc0cf3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 71/93] fix: malformed ids and times of compact messages are
 decoding errors

---
 pyamf/flex/messaging.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 528703d..f28115d 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -133,8 +133,11 @@ class AbstractMessage(object):
         """
         obj = input.readObject()
 
-        if attr in ['timestamp', 'timeToLive']:
-            return pyamf.util.get_datetime(obj / 1000.0)
+        if attr in ['timestamp', 'timeToLive'] and obj is not None:
+            try:
+                return pyamf.util.get_datetime(obj / 1000.0)
+            except (TypeError, ValueError, OverflowError):
+                raise pyamf.DecodeError('Bad %s %r' % (attr, obj))
 
         return obj
 
@@ -569,7 +572,10 @@ def decode_uuid(obj):
 
     @since: 0.5
     """
-    return uuid.UUID(bytes=str(obj))
+    try:
+        return uuid.UUID(bytes=str(obj))
+    except ValueError:
+        raise pyamf.DecodeError('Bad UUID %r' % (obj,))
 
 
 pyamf.register_package(globals(), package=NAMESPACE)
-- 
2.43.0


From f0a07db7c5e6bc7beba1c0e82a97b81c38535185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 72/93] fix: answers to compact messages name the message they
 answer

---
 pyamf/remoting/amf3.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index cc63329..32bef77 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -45,6 +45,20 @@ def generate_random_id():
     return str(uuid.uuid4())
 
 
+def get_correlation_id(request):
+    """
+    Returns what the answer to C{request} carries as its C{correlationId}. A
+    compact message can have a C{uuid.UUID} for its id, which the client knows
+    by its text.
+    """
+    message_id = getattr(request, 'messageId', None)
+
+    if isinstance(message_id, uuid.UUID):
+        return str(message_id).upper()
+
+    return message_id
+
+
 def generate_acknowledgement(request=None):
     ack = messaging.AcknowledgeMessage()
 
@@ -53,7 +67,7 @@ def generate_acknowledgement(request=None):
     ack.timestamp = calendar.timegm(time.gmtime())
 
     if request:
-        ack.correlationId = request.messageId
+        ack.correlationId = get_correlation_id(request)
 
     return ack
 
@@ -96,7 +110,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         messageId=generate_random_id(),
         clientId=generate_random_id(),
         timestamp=calendar.timegm(time.gmtime()),
-        correlationId=getattr(request, 'messageId', None),
+        correlationId=get_correlation_id(request),
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
-- 
2.43.0


From 85dd0ff2db9feb7d9d656f8433b6da682aedab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 73/93] fix: UUIDs which start like a compressed byte array fit
 in compact messages

---
 pyamf/flex/messaging.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index f28115d..1c3984b 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -206,7 +206,7 @@ class AbstractMessage(object):
                 continue
 
             byte |= flag
-            uuid_attrs.append(amf3.ByteArray(value.bytes))
+            uuid_attrs.append(encode_uuid(value))
 
         del attr
 
@@ -285,7 +285,7 @@ class AsyncMessage(AbstractMessage):
             output.writeObject(self.correlationId)
         else:
             output.writeUnsignedByte(0x02)
-            output.writeObject(pyamf.amf3.ByteArray(self.correlationId.bytes))
+            output.writeObject(encode_uuid(self.correlationId))
 
     def getSmallMessage(self):
         """
@@ -566,12 +566,26 @@ def read_flags(input):
     return flags
 
 
+def encode_uuid(value):
+    """
+    Encode a C{uuid.UUID} instance to a L{ByteArray} of its 16 bytes.
+    """
+    buf = amf3.ByteArray(value.bytes)
+    # the bytes are never compressed, even if they look it
+    buf.compressed = False
+
+    return buf
+
+
 def decode_uuid(obj):
     """
     Decode a L{ByteArray} contents to a C{uuid.UUID} instance.
 
     @since: 0.5
     """
+    if isinstance(obj, amf3.ByteArray):
+        obj = obj.getvalue()
+
     try:
         return uuid.UUID(bytes=str(obj))
     except ValueError:
-- 
2.43.0


From 8d295bdc76e59264436239612ce0072268f4eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 74/93] fix: compact messages in an AMF0 stream are written in
 AMF3

---
 pyamf/flex/messaging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 1c3984b..335dbd9 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -520,6 +520,7 @@ class AcknowledgeMessageExt(AcknowledgeMessage):
     """
 
     class __amf__:
+        amf3 = True
         external = True
 
 
@@ -531,6 +532,7 @@ class CommandMessageExt(CommandMessage):
     """
 
     class __amf__:
+        amf3 = True
         external = True
 
 
@@ -542,6 +544,7 @@ class AsyncMessageExt(AsyncMessage):
     """
 
     class __amf__:
+        amf3 = True
         external = True
 
 
-- 
2.43.0


From 9113f5f28a895052486d09d46fb0e245d9dfc6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 75/93] fix: import hooks are called whenever the module is
 imported

---
 pyamf/util/imports.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 99b8471..1f2a9e2 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -39,7 +39,7 @@ class ModuleFinder(object):
 
     @ivar post_load_hooks: C{dict} of C{full module path -> callable} to be
         executed when the module is imported.
-    @ivar loaded_modules: C{list} of modules that this finder has seen. Used
+    @ivar loaded_modules: C{list} of modules that this finder is loading. Used
         to stop recursive imports in L{load_module}
     @see: L{when_imported}
     @since: 0.5
@@ -84,10 +84,8 @@ class ModuleFinder(object):
 
             mod = sys.modules[name]
             self._run_hooks(name, mod)
-        except:
-            self.loaded_modules.pop()
-
-            raise
+        finally:
+            self.loaded_modules.remove(name)
 
         return mod
 
-- 
2.43.0


From 5eec5ed200eb77e8a432e37ea3134481c2cac34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 76/93] fix: import hooks do not get in the way of implicit
 relative imports

---
 pyamf/util/imports.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 1f2a9e2..33d6b66 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -7,6 +7,7 @@ Tools for doing dynamic imports.
 @since: 0.3
 """
 
+import pkgutil
 import sys
 
 
@@ -66,9 +67,21 @@ class ModuleFinder(object):
 
         hooks = self.post_load_hooks.get(name, None)
 
-        if hooks:
+        if hooks and (path is None or self._exists(name)):
             return self
 
+    def _exists(self, name):
+        """
+        Whether there is a submodule called C{name}. If there is not, an
+        implicit relative import goes on to look for a top level module.
+        """
+        self.loaded_modules.append(name)
+
+        try:
+            return pkgutil.find_loader(name) is not None
+        finally:
+            self.loaded_modules.remove(name)
+
     def load_module(self, name):
         """
         If we get this far, then there are hooks waiting to be called on
-- 
2.43.0


From bf7e259215d1c3e64ce2e1a5e170af3329d457bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 77/93] fix: proxies which contain themselves are unwrapped
 whole

---
 pyamf/amf3.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 886fb37..9e4957e 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -755,12 +755,38 @@ class Context(codec.Context):
         if obj is None:
             from pyamf import flex
 
-            obj = flex.unproxy_object(proxy)
+            if isinstance(proxy, flex.ObjectProxy) and \
+                    '_amf_object' not in proxy.__dict__:
+                # referred to while it is being read, what it wraps follows it
+                # in the stream
+                wrapped = self.getObject(self.getObjectReference(proxy) + 1)
+
+                if wrapped is None:
+                    raise pyamf.ReferenceError('Proxy of itself')
+
+                obj = self.getObjectForProxy(wrapped)
+            else:
+                obj = flex.unproxy_object(proxy)
 
             self.addProxyObject(obj, proxy)
 
         return obj
 
+    def completeProxy(self, proxy):
+        """
+        Called once all of C{proxy} has been read. A collection which refers to
+        itself has been unproxied before its items were known.
+        """
+        from pyamf import flex
+
+        if not isinstance(proxy, flex.ArrayCollection):
+            return
+
+        obj = self.unproxied_objects.get(id(proxy))
+
+        if obj is not None:
+            obj[:] = proxy
+
     def addProxyObject(self, obj, proxied):
         """
         Stores a reference to the unproxied and proxied versions of C{obj} for
@@ -1107,6 +1133,7 @@ class Decoder(codec.Decoder):
                 ObjectEncoding.EXTERNAL,
                 ObjectEncoding.PROXY):
             obj.__readamf__(DataInput(self))
+            self.context.completeProxy(obj)
 
             if self.use_proxies is True:
                 obj = self.readProxy(obj)
-- 
2.43.0


From e0f5b7e9b8f221ac86bdb43aaf2c5e3c1398997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 78/93] fix: faults whose code is no plain value are remoting
 errors

---
 pyamf/remoting/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 7c64337..ac7a52e 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -756,7 +756,11 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
 
 
 def get_exception_from_fault(fault):
-    return pyamf.ERROR_CLASS_MAP.get(fault.code, RemotingError)
+    try:
+        return pyamf.ERROR_CLASS_MAP.get(fault.code, RemotingError)
+    except TypeError:
+        # not hashable, so nothing is registered under it
+        return RemotingError
 
 
 pyamf.register_class(ErrorFault)
-- 
2.43.0


From 76a68f274c5bbb1841167a70032d57e162bd3f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 79/93] fix: error codes given as encoded text name the same
 code as the text

---
 pyamf/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index f4a2179..ede20e5 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -689,7 +689,7 @@ def add_error_class(klass, code):
         class.
     @raise ValueError: C{code} is already registered to an error class.
     """
-    if not isinstance(code, python.str_types):
+    if not isinstance(code, unicode):
         code = code.decode('utf-8')
 
     if not isinstance(klass, python.class_types):
@@ -725,6 +725,9 @@ def remove_error_class(klass):
     @raise TypeError: C{klass} is invalid type.
     """
     if isinstance(klass, python.str_types):
+        if not isinstance(klass, unicode):
+            klass = klass.decode('utf-8')
+
         if klass not in ERROR_CLASS_MAP:
             raise ValueError('Code %s is not registered' % (klass,))
     elif isinstance(klass, python.class_types):
-- 
2.43.0


From 1016af5c49ffb12cdaa6cabac0fb5dbfb72ca3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 80/93] fix: threads which meet a class for the first time at
 once compile it once

---
 pyamf/alias.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 9c06a3b..ec2a46b 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -8,11 +8,16 @@ Class alias base functionality.
 """
 
 import inspect
+import threading
 
 import pyamf
 from pyamf import python, util
 
 
+#: Held while an alias is compiled.
+_compile_lock = threading.RLock()
+
+
 class UnknownClassAlias(Exception):
     """
     Raised if the AMF stream specifies an Actionscript class that does not
@@ -112,6 +117,12 @@ class ClassAlias(object):
         if self._compiled:
             return
 
+        # several threads may need an alias for the first time at once
+        with _compile_lock:
+            if not self._compiled:
+                self._compile()
+
+    def _compile(self):
         self.decodable_properties = set()
         self.encodable_properties = set()
         self.inherited_dynamic = None
-- 
2.43.0


From 131027aebbb84e22da6ae27ab8f36f7cba83f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 81/93] fix: the Twisted gateway answers in the order of the
 requests, also those which share an id

---
 pyamf/remoting/gateway/twisted.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 9771a64..333f3ea 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -367,11 +367,9 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
         @type amf_request: L{Envelope<pyamf.remoting.Envelope>}
         """
         response = remoting.Envelope(amf_request.amfVersion)
+        names = []
         dl = []
 
-        def cb(body, name):
-            response[name] = body
-
         for name, message in amf_request:
             processor = self.getProcessor(message)
 
@@ -380,9 +378,18 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
             d = defer.maybeDeferred(
                 processor, message, http_request=http_request)
 
-            dl.append(d.addCallback(cb, name))
+            names.append(name)
+            dl.append(d)
 
         def cb2(result):
+            # the answers are ready in any order
+            for name, (success, answer) in zip(names, result):
+                if not success:
+                    answer.raiseException()
+
+                answer.envelope = response
+                response.bodies.append((name, answer))
+
             return response
 
         def eb(failure):
-- 
2.43.0


From 0f0eaaccacfb976e607102949d8501e16a174c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 82/93] fix: the Twisted gateway answers a request once when it
 cannot be processed

---
 pyamf/remoting/gateway/twisted.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 333f3ea..6e6720f 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -298,7 +298,12 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
         def cb(amf_request):
             x = self.getResponse(request, amf_request)
 
-            x.addCallback(self.sendResponse, request)
+            def send(amf_response):
+                # a failure to process the request has been answered already
+                if amf_response is not None:
+                    self.sendResponse(amf_response, request)
+
+            x.addCallback(send)
 
         # Process the request
         d.addCallback(cb).addErrback(handleDecodeError)
-- 
2.43.0


From bbc6d4d9a9f9e8a89589d97f097353db844ed958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 83/93] fix: RemoteObject requests to the Twisted gateway are
 authenticated

---
 pyamf/remoting/gateway/twisted.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 6e6720f..8b5d817 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -170,13 +170,26 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
             )
             d.addCallback(response_cb).addErrback(eb)
 
+        def auth_cb(result):
+            if result is not True:
+                raise amf3.AuthenticationError('Authentication failed')
+
+            d = defer.maybeDeferred(
+                self.gateway.preprocessRequest,
+                service_request,
+                *ro_request.body,
+                **kwargs
+            )
+            d.addCallback(process_cb).addErrback(eb)
+
         d = defer.maybeDeferred(
-            self.gateway.preprocessRequest,
+            self.authenticateRequest,
+            amf_request,
+            ro_request,
             service_request,
-            *ro_request.body,
             **kwargs
         )
-        d.addCallback(process_cb).addErrback(eb)
+        d.addCallback(auth_cb).addErrback(eb)
 
         return deferred_response
 
-- 
2.43.0


From a605a0b9a32a1857ab6c87642dd4e65f985b26c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 84/93] fix: the Twisted gateway answers RemoteObject requests
 with a DSId, and failed ones with an error message

---
 pyamf/remoting/amf3.py            | 24 +++++++++++++++---------
 pyamf/remoting/gateway/twisted.py | 18 ++++++++++++------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 32bef77..3ce8ef6 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -287,20 +287,26 @@ class RequestProcessor(object):
 
             body = remoting.Response(fault, status=remoting.STATUS_ERROR)
 
-        ro_response = body.body
+        set_dsid(ro_request, body.body)
 
-        headers = getattr(ro_request, 'headers', None)
-        dsid = None
+        return body
 
-        if isinstance(headers, dict):
-            dsid = headers.get('DSId', None)
 
-        if not dsid or dsid == 'nil':
-            dsid = generate_random_id()
+def set_dsid(ro_request, ro_response):
+    """
+    Sets the C{DSId} header of a RemoteObject response: that of the request or
+    else a new one.
+    """
+    headers = getattr(ro_request, 'headers', None)
+    dsid = None
 
-        ro_response.headers.setdefault('DSId', dsid)
+    if isinstance(headers, dict):
+        dsid = headers.get('DSId', None)
 
-        return body
+    if not dsid or dsid == 'nil':
+        dsid = generate_random_id()
+
+    ro_response.headers.setdefault('DSId', dsid)
 
 
 def get_service_name(ro_request):
diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 8b5d817..7d31367 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -201,9 +201,15 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
         @rtype: C{Deferred<twisted.internet.defer.Deferred>}
         """
         deferred_response = defer.Deferred()
-        ro_request = amf_request.body[0]
+
+        try:
+            ro_request = amf_request.body[0]
+        except Exception:
+            # refused by L{_getBody}
+            ro_request = None
 
         def cb(amf_response):
+            amf3.set_dsid(ro_request, amf_response.body)
             deferred_response.callback(amf_response)
 
         def eb(failure):
@@ -213,13 +219,13 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
                 self.gateway.logger.error(errMesg)
                 self.gateway.logger.error(failure.getTraceback())
 
-            deferred_response.callback(
-                self.buildErrorResponse(
-                    ro_request,
-                    (failure.type, failure.value, failure.tb)
-                )
+            fault = self.buildErrorResponse(
+                ro_request,
+                (failure.type, failure.value, failure.tb)
             )
 
+            cb(remoting.Response(fault, status=remoting.STATUS_ERROR))
+
         d = defer.maybeDeferred(
             self._getBody,
             amf_request,
-- 
2.43.0


From e5b7212ff647d8c699f05728f8e7cd8dbe148a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 85/93] fix: record sets take any text for their id and the
 name of their service

---
 pyamf/amf0.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index be4432d..24405b7 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -759,10 +759,10 @@ class RecordSet(object):
         )
 
         if self.service is not None:
-            ret.update({'serviceName': str(self.service['name'])})
+            ret.update({'serviceName': _to_text(self.service['name'])})
 
         if self.id is not None:
-            ret.update({'id': str(self.id)})
+            ret.update({'id': _to_text(self.id)})
 
         return ret
 
@@ -799,6 +799,13 @@ class RecordSet(object):
 pyamf.register_class(RecordSet)
 
 
+def _to_text(x):
+    if isinstance(x, python.str_types):
+        return x
+
+    return str(x)
+
+
 def _check_for_int(x):
     """
     This is a compatibility function that takes a C{float} and converts it to
-- 
2.43.0


From 57d7fd6375b332019965559652cc8c449ca7acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 86/93] fix: record sets made without columns or items do not
 share them

---
 pyamf/amf0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 24405b7..10c0735 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -743,9 +743,9 @@ class RecordSet(object):
         static = ('serverInfo',)
         dynamic = False
 
-    def __init__(self, columns=[], items=[], service=None, id=None):
-        self.columns = columns
-        self.items = items
+    def __init__(self, columns=None, items=None, service=None, id=None):
+        self.columns = [] if columns is None else columns
+        self.items = [] if items is None else items
         self.service = service
         self.id = id
 
-- 
2.43.0


From 3241da6006d4c27ba9a1a96b67c34d3b3c6c0c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 87/93] fix: proxy models of Django can be encoded and decoded

---
 pyamf/adapters/_django_db_models_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 4102e1f..bc5bdc5 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -81,6 +81,10 @@ class DjangoClassAlias(pyamf.ClassAlias):
 
         self.meta = self.klass._meta
 
+        if self.meta.proxy:
+            # the fields are those of the model it stands for
+            self.meta = self.meta.concrete_model._meta
+
         for name in self.meta.get_all_field_names():
             x = self.meta.get_field_by_name(name)[0]
 
-- 
2.43.0


From 23589d9a252d61520461f9b724d41b1e741c475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 88/93] fix: Django models which are not saved have no
 many-to-many relations yet

---
 pyamf/adapters/_django_db_models_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index bc5bdc5..1c2d135 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -206,7 +206,11 @@ class DjangoClassAlias(pyamf.ClassAlias):
                 attrs[name] = getattr(obj, name)
 
             if isinstance(relation, models.ManyToManyField):
-                attrs[name] = [x for x in getattr(obj, name).all()]
+                attrs[name] = []
+
+                if obj.pk is not None:
+                    # relations need a row to relate to
+                    attrs[name].extend(getattr(obj, name).all())
             else:
                 attrs.pop(relation.attname, None)
 
-- 
2.43.0


From 1175265ffcd795917607ad306c4bf0daac3ee50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 89/93] fix: Django models are decoded from objects which lack
 some of the fields

---
 pyamf/adapters/_django_db_models_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 1c2d135..da09750 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -234,6 +234,9 @@ class DjangoClassAlias(pyamf.ClassAlias):
                 except KeyError:
                     continue
 
+                if n not in attrs:
+                    continue
+
                 attrs[f.attname] = self._decodeValue(f, attrs[n])
 
         # primary key of django object must always be set first for
-- 
2.43.0


From 43f63f1d0ea2049daaec38909badb7f242722fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 90/93] fix: excluded and renamed fields and relations of
 Django models are encoded as declared

---
 pyamf/adapters/_django_db_models_base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index da09750..9d93af4 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -183,11 +183,8 @@ class DjangoClassAlias(pyamf.ClassAlias):
 
         return value
 
-    def getEncodableAttributes(self, obj, **kwargs):
-        attrs = pyamf.ClassAlias.getEncodableAttributes(self, obj, **kwargs)
-
-        if not attrs:
-            attrs = {}
+    def _getEncodableAttributes(self, obj, codec=None):
+        attrs = pyamf.ClassAlias._getEncodableAttributes(self, obj, codec)
 
         for name, prop in self.fields.iteritems():
             if name not in attrs.keys():
@@ -202,6 +199,11 @@ class DjangoClassAlias(pyamf.ClassAlias):
                 del attrs[key]
 
         for name, relation in self.relations.iteritems():
+            if name in self.exclude_attrs:
+                attrs.pop(relation.attname, None)
+
+                continue
+
             if '_%s_cache' % name in obj.__dict__:
                 attrs[name] = getattr(obj, name)
 
-- 
2.43.0


From e986b5ad1482e315c3b6dbba0cf57bb5d01be187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 91/93] fix: remoting envelopes and messages which are equal
 are not unequal as well

---
 pyamf/remoting/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index ac7a52e..986ed2b 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -236,6 +236,9 @@ class Envelope(object):
 
             return True
 
+    def __ne__(self, other):
+        return not self == other
+
 
 class Message(object):
     """
@@ -265,6 +268,9 @@ class Message(object):
 
         return self.body == other.body
 
+    def __ne__(self, other):
+        return not self == other
+
 
 class Request(Message):
     """
-- 
2.43.0


From 21175017e72949c07b17556f6bb3db0fb4355167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 92/93] fix: class aliases which are equal are not unequal as
 well

---
 pyamf/alias.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index ec2a46b..9647bca 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -356,6 +356,9 @@ class ClassAlias(object):
         else:
             return False
 
+    def __ne__(self, other):
+        return not self == other
+
     def __hash__(self):
         return id(self)
 
-- 
2.43.0


From 650088b7b82aaa7088f4eb0712d7342cda87d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 93/93] fix: mixed arrays with an index beyond 32 bits are
 encoded

---
 pyamf/amf0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 10c0735..a2ca088 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -614,7 +614,7 @@ class Encoder(codec.Encoder):
             # list comprehensions to save the day
             max_index = max([
                 y[0] for y in o.items()
-                if isinstance(y[0], (int, long))
+                if isinstance(y[0], (int, long)) and y[0] <= 0xffffffff
             ])
 
             if max_index < 0:
-- 
2.43.0

