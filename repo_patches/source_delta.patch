From 237f5a8d28c192a18965b45f466bead1a7951820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 01/84] fix: reading a structure no longer re-encodes it
 because of an absent defaulted SEQUENCE

---
 asn1crypto/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a07cd97..a7144a8 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3394,7 +3394,8 @@ class Sequence(Asn1Value):
         Asn1Value.__init__(self, **kwargs)
 
         check_existing = False
-        if value is None and default is not None:
+        use_default = value is None and default is not None
+        if use_default:
             check_existing = True
             if self.children is None:
                 if self.contents is None:
@@ -3450,6 +3451,11 @@ class Sequence(Asn1Value):
                         ', '.join(sorted(list(unused_keys)))
                     ))
 
+                # A value that only consists of the default has not been mutated,
+                # and must not cause a structure containing it to be re-encoded
+                if use_default and not check_existing:
+                    self._set_contents()
+
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
-- 
2.43.0


From 3b30a9610bfca75ff3574423beb97927838c7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 02/84] fix: refuse an explicit tag that contains data after
 the tagged value

---
 asn1crypto/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a7144a8..74fc12e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5539,7 +5539,16 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                         expected_tag,
                         parsed_tag
                     ))
-                info, _ = _parse(to_parse, len(to_parse))
+                info, consumed = _parse(to_parse, len(to_parse))
+                if consumed != len(to_parse):
+                    raise ValueError(unwrap(
+                        '''
+                        Error parsing %s - explicit tag contains %d bytes of
+                        trailing data
+                        ''',
+                        type_name(value),
+                        len(to_parse) - consumed
+                    ))
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
                 if not isinstance(value, Choice):
-- 
2.43.0


From 723ab91300643b990176628e40a3e440a1c78f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 03/84] fix: do not treat a definite length ending in 0x80 as
 an indefinite length when dumping

---
 asn1crypto/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 74fc12e..020cd7d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -644,7 +644,7 @@ class Asn1Value(object):
         contents = self.contents
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer:
             force = True
 
         if self._header is None or force:
@@ -1350,7 +1350,7 @@ class Choice(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer:
             force = True
 
         self._contents = self.chosen.dump(force=force)
@@ -1727,7 +1727,7 @@ class Primitive(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer:
             force = True
 
         if force:
@@ -4143,7 +4143,7 @@ class Sequence(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer:
             force = True
 
         # We can't force encoding if we don't have a spec
@@ -4616,7 +4616,7 @@ class SequenceOf(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer:
             force = True
 
         if force:
-- 
2.43.0


From 70810a3e8ff7f2cccaa5c91cad4fa5bbd79a0b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 04/84] fix: load the alternative of a CHOICE when it uses the
 indefinite length form

---
 asn1crypto/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 020cd7d..4e98391 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1353,7 +1353,11 @@ class Choice(Asn1Value):
         if self._header is not None and self._header[-1:] == b'\x80' and self._trailer:
             force = True
 
-        self._contents = self.chosen.dump(force=force)
+        contents = self.chosen.dump(force=force)
+        if contents != self._contents:
+            # The length in any explicit tagging is no longer correct
+            force = True
+        self._contents = contents
         if self._header is None or force:
             self._header = b''
             if self.explicit is not None:
@@ -5573,8 +5577,9 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 value.validate(class_, tag, contents)
                 try:
                     # Force parsing the Choice now
-                    value.contents = header + value.contents
+                    value.contents = header + value.contents + trailer
                     header = b''
+                    trailer = b''
                     value.parse()
                 except (ValueError, TypeError) as e:
                     args = e.args[1:]
-- 
2.43.0


From 792738b2ceab2df2ada7adcc512f7a7889faf15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:24 +0000
Subject: [PATCH 05/84] fix: keep keys of an unknown algorithm opaque instead
 of raising KeyError

---
 asn1crypto/keys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 92716e1..6f0c358 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -719,6 +719,7 @@ class PrivateKeyInfo(Sequence):
 
     def _private_key_spec(self):
         algorithm = self['private_key_algorithm']['algorithm'].native
+        # An unknown algorithm leaves the key as an opaque value
         return {
             'rsa': RSAPrivateKey,
             'rsassa_pss': RSAPrivateKey,
@@ -730,7 +731,7 @@ class PrivateKeyInfo(Sequence):
             'x448': OctetString,
             'ed25519': OctetString,
             'ed448': OctetString,
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'private_key': _private_key_spec
@@ -1082,6 +1083,7 @@ class PublicKeyInfo(Sequence):
 
     def _public_key_spec(self):
         algorithm = self['algorithm']['algorithm'].native
+        # An unknown algorithm leaves the key as an opaque value
         return {
             'rsa': RSAPublicKey,
             'rsaes_oaep': RSAPublicKey,
@@ -1097,7 +1099,7 @@ class PublicKeyInfo(Sequence):
             'x448': (OctetBitString, None),
             'ed25519': (OctetBitString, None),
             'ed448': (OctetBitString, None),
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'public_key': _public_key_spec
-- 
2.43.0


From cd347a09559ef51a4e7eb4bc4d91ba70eea49e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:41 +0000
Subject: [PATCH 06/84] fix: raise ValueError for a bit string with no contents

---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4e98391..e2ed6e3 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2023,6 +2023,10 @@ class _IntegerBitString(object):
             # return an empty chunk, for cases like \x23\x80\x00\x00
             return []
 
+        if not self.contents:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string is missing the initial octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         value = int_from_bytes(self.contents[1:])
         bits = (len(self.contents) - 1) * 8
@@ -2454,6 +2458,10 @@ class OctetBitString(Constructable, Castable, Primitive):
             List with one tuple, consisting of a byte string and an integer (unused bits)
         """
 
+        if not self.contents:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string is missing the initial octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if not unused_bits_len:
             return [(self.contents[1:], ())]
@@ -2953,6 +2961,10 @@ class ParsableOctetBitString(ParsableOctetString):
             A byte string
         """
 
+        if not self.contents:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string is missing the initial octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if unused_bits_len:
             raise ValueError('ParsableOctetBitString should have no unused bits')
-- 
2.43.0


From d4e5751fd4c06b51598d80c2ec7ff85afc1040fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:01 +0000
Subject: [PATCH 07/84] fix: raise ValueError for unknown enumerated values,
 and read ones without names as integers

---
 asn1crypto/core.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index e2ed6e3..bc04344 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3281,7 +3281,7 @@ class Enumerated(Integer):
             ))
 
         if isinstance(value, str_cls):
-            if value not in self._reverse_map:
+            if self._map is None or value not in self._reverse_map:
                 raise ValueError(unwrap(
                     '''
                     %s value "%s" is not a valid value
@@ -3292,7 +3292,7 @@ class Enumerated(Integer):
 
             value = self._reverse_map[value]
 
-        elif value not in self._map:
+        elif self._map is not None and value not in self._map:
             raise ValueError(unwrap(
                 '''
                 %s value %s is not a valid value
@@ -3316,7 +3316,19 @@ class Enumerated(Integer):
             return None
 
         if self._native is None:
-            self._native = self._map[self.__int__()]
+            value = self.__int__()
+            if self._map is None:
+                self._native = value
+            elif value in self._map:
+                self._native = self._map[value]
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    %s value %s is not a valid value
+                    ''',
+                    type_name(self),
+                    value
+                ))
         return self._native
 
 
-- 
2.43.0


From e8c90f6c2021e305bfb05c8fd1e45f011df3ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 08/84] fix: do not accept a newline after a UTCTime or
 GeneralizedTime

---
 asn1crypto/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bc04344..8d046ba 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5057,7 +5057,7 @@ class UTCTime(AbstractTime):
                 (?P<dminute>\d{2})
             )
         )
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
@@ -5153,7 +5153,7 @@ class GeneralizedTime(AbstractTime):
                 (?P<dminute>\d{2})?
             )
         )?
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
-- 
2.43.0


From 745ea2a4f2a3d15ce215630e1434e8be57a6b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:24 +0000
Subject: [PATCH 09/84] fix: unmap only passes through dotted OIDs

---
 asn1crypto/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 8d046ba..9b97ab5 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -102,7 +102,7 @@ METHOD_NUM_TO_NAME_MAP = {
 }
 
 
-_OID_RE = re.compile(r'^\d+(\.\d+)*$')
+_OID_RE = re.compile(r'^[0-9]+(\.[0-9]+)*\Z')
 
 
 # A global tracker to ensure that _setup() is called for every class, even
-- 
2.43.0


From 45566dfca2e889a56ea68e6bb11c19683e757d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:58 +0000
Subject: [PATCH 10/84] fix: only encode dotted object identifiers, and forget
 the previous one when a new one is set

---
 asn1crypto/core.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9b97ab5..edf59b6 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3119,13 +3119,23 @@ class ObjectIdentifier(Primitive, ValueMap):
                 type_name(value)
             ))
 
-        self._native = value
+        native = value
 
         if self._map is not None:
             if value in self._reverse_map:
                 value = self._reverse_map[value]
 
-        self.contents = b''
+        if not _OID_RE.match(value) or '.' not in value:
+            raise ValueError(unwrap(
+                '''
+                %s value must be a dotted sequence of two or more integers,
+                not %s
+                ''',
+                type_name(self),
+                repr(value)
+            ))
+
+        contents = b''
         first = None
         for index, part in enumerate(value.split('.')):
             part = int(part)
@@ -3157,8 +3167,11 @@ class ObjectIdentifier(Primitive, ValueMap):
             while part > 0:
                 encoded_part = chr_cls(0x80 | (0x7F & part)) + encoded_part
                 part = part >> 7
-            self.contents += encoded_part
+            contents += encoded_part
 
+        self._native = native
+        self._dotted = None
+        self.contents = contents
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
-- 
2.43.0


From 96f7f16984f684d62d004fd238745f8463b97733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:03 +0000
Subject: [PATCH 11/84] fix: raise ValueError for an object identifier that
 ends inside of an arc

---
 asn1crypto/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index edf59b6..1f2b765 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3195,6 +3195,10 @@ class ObjectIdentifier(Primitive, ValueMap):
         if self._dotted is None:
             output = []
 
+            if self.contents[-1:] == b'' or ord(self.contents[-1:]) & 0x80:
+                # Disallowed by X.690 §8.19.2
+                raise ValueError('Object identifier ends inside of an arc')
+
             part = 0
             for byte in self.contents:
                 if _PY2:
-- 
2.43.0


From de481b6994eb6e2b91157d89ca2635b116a41e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 12/84] fix: encode and decode each arc of a relative OID on
 its own

---
 asn1crypto/core.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 1f2b765..e06dfbf 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3014,6 +3014,9 @@ class ObjectIdentifier(Primitive, ValueMap):
     # A unicode string of the dotted form of the object identifier
     _dotted = None
 
+    # If the first two arcs are merged into a single encoded value
+    _merge_first = True
+
     @classmethod
     def map(cls, value):
         """
@@ -3125,11 +3128,10 @@ class ObjectIdentifier(Primitive, ValueMap):
             if value in self._reverse_map:
                 value = self._reverse_map[value]
 
-        if not _OID_RE.match(value) or '.' not in value:
+        if not _OID_RE.match(value) or (self._merge_first and '.' not in value):
             raise ValueError(unwrap(
                 '''
-                %s value must be a dotted sequence of two or more integers,
-                not %s
+                %s value must be a dotted sequence of integers, not %s
                 ''',
                 type_name(self),
                 repr(value)
@@ -3141,7 +3143,9 @@ class ObjectIdentifier(Primitive, ValueMap):
             part = int(part)
 
             # The first two parts are merged into a single byte
-            if index == 0:
+            if not self._merge_first:
+                pass
+            elif index == 0:
                 first = part
                 continue
             elif index == 1:
@@ -3207,7 +3211,7 @@ class ObjectIdentifier(Primitive, ValueMap):
                 part += byte & 127
                 # Last byte in subidentifier has the eighth bit set to 0
                 if byte & 0x80 == 0:
-                    if len(output) == 0:
+                    if len(output) == 0 and self._merge_first:
                         if part >= 80:
                             output.append(str_cls(2))
                             output.append(str_cls(part - 80))
@@ -3366,6 +3370,9 @@ class RelativeOid(ObjectIdentifier):
 
     tag = 13
 
+    # The arcs are all encoded on their own
+    _merge_first = False
+
 
 class Sequence(Asn1Value):
     """
-- 
2.43.0


From 2b0372c6c23c3a6a1cb4fcd5ea1162c14217fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 13/84] fix: keep the bits without a name when a named bit list
 is re-encoded

---
 asn1crypto/core.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index e06dfbf..bc96739 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2149,12 +2149,12 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                     type_name(self)
                 ))
 
-            bits = [0] * self._size
+            # Bits without a name are represented by their index
+            size = max([self._size] + [key + 1 for key in value if isinstance(key, int_types)])
+            bits = [0] * size
             self._native = value
-            for index in range(0, self._size):
-                key = self._map.get(index)
-                if key is None:
-                    continue
+            for index in range(0, size):
+                key = self._map.get(index, index)
                 if key in value:
                     bits[index] = 1
 
@@ -2164,6 +2164,15 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             if self._map is None:
                 self._native = value
             else:
+                if len(value) > self._size:
+                    raise ValueError(unwrap(
+                        '''
+                        %s value must be at most %s bits long, specified was %s long
+                        ''',
+                        type_name(self),
+                        self._size,
+                        len(value)
+                    ))
                 self._native = set()
                 for index, bit in enumerate(value):
                     if bit:
@@ -2182,15 +2191,6 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             ))
 
         if self._map is not None:
-            if len(value) > self._size:
-                raise ValueError(unwrap(
-                    '''
-                    %s value must be at most %s bits long, specified was %s long
-                    ''',
-                    type_name(self),
-                    self._size,
-                    len(value)
-                ))
             # A NamedBitList must have trailing zero bit truncated. See
             # https://www.itu.int/ITU-T/studygroups/com17/languages/X.690-0207.pdf
             # section 11.2,
-- 
2.43.0


From 6a84746b78110b0712b2a6521c2bd3a5a41b54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 14/84] fix: refuse unknown names when setting a named bit list

---
 asn1crypto/core.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bc96739..0db82a3 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2150,6 +2150,20 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                 ))
 
             # Bits without a name are represented by their index
+            for key in value:
+                if isinstance(key, int_types):
+                    valid = key >= 0 and key not in self._map
+                else:
+                    valid = key in self._reverse_map
+                if not valid:
+                    raise ValueError(unwrap(
+                        '''
+                        %s._map does not contain an entry for "%s"
+                        ''',
+                        type_name(self),
+                        key
+                    ))
+
             size = max([self._size] + [key + 1 for key in value if isinstance(key, int_types)])
             bits = [0] * size
             self._native = value
-- 
2.43.0


From bab5541fba0c1d211652499fb852423f66fe9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 15/84] fix: forget the parsed value when the bytes of an octet
 string are replaced

---
 asn1crypto/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 0db82a3..85f2987 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2803,6 +2803,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             ))
 
         self._bytes = value
+        self._parsed = None
         self.contents = value
         self._header = None
         if self._indefinite:
@@ -2920,12 +2921,14 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             force = True
 
         if force:
-            if self._parsed is not None:
-                native = self.parsed.dump(force=force)
+            parsed = self._parsed
+            if parsed is not None:
+                native = parsed[0].dump(force=force)
             else:
                 native = self.native
             self.contents = None
             self.set(native)
+            self._parsed = parsed
 
         return Asn1Value.dump(self)
 
@@ -2955,6 +2958,7 @@ class ParsableOctetBitString(ParsableOctetString):
             ))
 
         self._bytes = value
+        self._parsed = None
         # Set the unused bits to 0
         self.contents = b'\x00' + value
         self._header = None
-- 
2.43.0


From 897e4bcecde39349a6ceb9af5ca777af220ca3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 16/84] fix: pad the year of a GeneralizedTime to four digits

---
 asn1crypto/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 85f2987..e9cb32a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5222,7 +5222,8 @@ class GeneralizedTime(AbstractTime):
             else:
                 fraction = ''
 
-            value = value.strftime('%Y%m%d%H%M%S') + fraction + 'Z'
+            # The result of %Y is not padded to four digits on all platforms
+            value = '%04d' % value.year + value.strftime('%m%d%H%M%S') + fraction + 'Z'
             if _PY2:
                 value = value.decode('ascii')
 
-- 
2.43.0


From f1afe4006453192113b7a7d084913307a8e55a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 17/84] fix: compute the width of EC point coordinates exactly

---
 asn1crypto/keys.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 6f0c358..bf2fb81 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -124,6 +124,20 @@ class DSAPrivateKey(Sequence):
     ]
 
 
+def _byte_length(value):
+    """
+    :param value:
+        A non-negative integer
+
+    :return:
+        The number of bytes needed to encode the integer
+    """
+
+    if value < 0:
+        raise ValueError('Value must not be negative')
+    return len(int_to_bytes(value))
+
+
 class _ECPoint():
     """
     In both PublicKeyInfo and PrivateKeyInfo, the EC public key is a byte
@@ -148,10 +162,7 @@ class _ECPoint():
             An ECPoint object
         """
 
-        x_bytes = int(math.ceil(math.log(x, 2) / 8.0))
-        y_bytes = int(math.ceil(math.log(y, 2) / 8.0))
-
-        num_bytes = max(x_bytes, y_bytes)
+        num_bytes = max(_byte_length(x), _byte_length(y))
 
         byte_string = b'\x04'
         byte_string += int_to_bytes(x, width=num_bytes)
-- 
2.43.0


From 34deb96fea2a4a58837811b2ddbf0881ddcfd2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 18/84] fix: compute key sizes without rounding errors

---
 asn1crypto/keys.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index bf2fb81..1f8e6fb 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -545,7 +545,7 @@ class ECDomainParameters(Choice):
 
         if self.name == 'specified':
             order = self.chosen['order'].native
-            return math.ceil(math.log(order, 2.0) / 8.0)
+            return _byte_length(order)
 
         oid = self.chosen.dotted
         if oid not in NamedCurve._key_sizes:
@@ -909,7 +909,7 @@ class PrivateKeyInfo(Sequence):
                 self.algorithm.upper()
             ))
 
-        byte_len = math.log(self['private_key_algorithm']['parameters']['q'].native, 2) / 8
+        byte_len = _byte_length(self['private_key_algorithm']['parameters']['q'].native)
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -938,10 +938,7 @@ class PrivateKeyInfo(Sequence):
                 prime = self['private_key_algorithm']['parameters']['p'].native
             elif self.algorithm == 'ec':
                 prime = self['private_key'].parsed['private_key'].native
-            self._bit_size = int(math.ceil(math.log(prime, 2)))
-            modulus = self._bit_size % 8
-            if modulus != 0:
-                self._bit_size += 8 - modulus
+            self._bit_size = _byte_length(prime) * 8
         return self._bit_size
 
     @property
@@ -1239,7 +1236,7 @@ class PublicKeyInfo(Sequence):
         if parameters.native is None:
             return None
 
-        byte_len = math.log(parameters['q'].native, 2) / 8
+        byte_len = _byte_length(parameters['q'].native)
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -1269,10 +1266,7 @@ class PublicKeyInfo(Sequence):
                     prime = self['public_key'].parsed['modulus'].native
                 elif self.algorithm == 'dsa':
                     prime = self['algorithm']['parameters']['p'].native
-                self._bit_size = int(math.ceil(math.log(prime, 2)))
-                modulus = self._bit_size % 8
-                if modulus != 0:
-                    self._bit_size += 8 - modulus
+                self._bit_size = _byte_length(prime) * 8
 
         return self._bit_size
 
-- 
2.43.0


From 4b61053329bf96163b3e7d62ef19a9320127c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 19/84] fix: notice changes to a nested structure that has been
 dumped on its own since

---
 asn1crypto/core.py | 80 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 67 insertions(+), 13 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index e9cb32a..30efaf9 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -213,6 +213,10 @@ class Asn1Value(object):
     # some classes since they utilize _bytes or _unicode
     _native = None
 
+    # Incremented when the value is re-encoded after being mutated, which
+    # allows any value containing this one to detect the change
+    _revision = 0
+
     @classmethod
     def load(cls, encoded_data, strict=False, **kwargs):
         """
@@ -607,6 +611,14 @@ class Asn1Value(object):
         self.contents = other.contents
         self._native = copy_func(other._native)
 
+    def _is_mutated(self):
+        """
+        :return:
+            A boolean - if the value has been mutated since it was last encoded
+        """
+
+        return False
+
     def debug(self, nest_level=1):
         """
         Show the binary data and parsed data in a tree structure
@@ -3413,6 +3425,9 @@ class Sequence(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # The sum of the revisions of the children when they were last encoded
+    _children_revision = 0
+
     # A list of tuples in one of the following forms.
     #
     # Option 1, a unicode string field name and a value class
@@ -3525,6 +3540,7 @@ class Sequence(Asn1Value):
                 # and must not cause a structure containing it to be re-encoded
                 if use_default and not check_existing:
                     self._set_contents()
+                    self._revision = 0
 
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
@@ -3562,13 +3578,23 @@ class Sequence(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
-        if self.children is not None:
-            for child in self.children:
-                if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
+        if self._mutated:
+            return True
+        if self.children is None:
+            return False
+        for child in self.children:
+            if isinstance(child, Asn1Value) and child._is_mutated():
+                return True
+        return self._sum_revisions() != self._children_revision
 
-        return mutated
+    def _sum_revisions(self):
+        """
+        :return:
+            An integer that changes when any of the children have been
+            re-encoded after being mutated
+        """
+
+        return sum(child._revision for child in self.children if isinstance(child, Asn1Value))
 
     def _lazy_child(self, index):
         """
@@ -3759,6 +3785,9 @@ class Sequence(Asn1Value):
         if self.children is None:
             self._parse_children()
 
+        if self._is_mutated():
+            self._revision += 1
+
         contents = BytesIO()
         for index, info in enumerate(self._fields):
             child = self.children[index]
@@ -3778,8 +3807,8 @@ class Sequence(Asn1Value):
                     continue
             contents.write(child_dump)
         self._contents = contents.getvalue()
+        self._children_revision = self._sum_revisions()
         self._mutated = False
-
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -4260,6 +4289,9 @@ class SequenceOf(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # The sum of the revisions of the children when they were last encoded
+    _children_revision = 0
+
     # An Asn1Value class to use when parsing children
     _child_spec = None
 
@@ -4337,13 +4369,23 @@ class SequenceOf(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
-        if self.children is not None:
-            for child in self.children:
-                if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
+        if self._mutated:
+            return True
+        if self.children is None:
+            return False
+        for child in self.children:
+            if isinstance(child, Asn1Value) and child._is_mutated():
+                return True
+        return self._sum_revisions() != self._children_revision
+
+    def _sum_revisions(self):
+        """
+        :return:
+            An integer that changes when any of the children have been
+            re-encoded after being mutated
+        """
 
-        return mutated
+        return sum(child._revision for child in self.children if isinstance(child, Asn1Value))
 
     def _lazy_child(self, index):
         """
@@ -4559,10 +4601,14 @@ class SequenceOf(Asn1Value):
         if self.children is None:
             self._parse_children()
 
+        if self._is_mutated():
+            self._revision += 1
+
         contents = BytesIO()
         for child in self:
             contents.write(child.dump(force=force))
         self._contents = contents.getvalue()
+        self._children_revision = self._sum_revisions()
         self._mutated = False
         self._header = None
         if self._trailer != b'':
@@ -4862,6 +4908,9 @@ class Set(Sequence):
         if self.children is None:
             self._parse_children()
 
+        if self._is_mutated():
+            self._revision += 1
+
         child_tag_encodings = []
         for index, child in enumerate(self.children):
             child_encoding = child.dump(force=force)
@@ -4876,6 +4925,7 @@ class Set(Sequence):
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
+        self._children_revision = self._sum_revisions()
         self._mutated = False
         self._header = None
         if self._trailer != b'':
@@ -4905,11 +4955,15 @@ class SetOf(SequenceOf):
         if self.children is None:
             self._parse_children()
 
+        if self._is_mutated():
+            self._revision += 1
+
         child_encodings = []
         for child in self:
             child_encodings.append(child.dump(force=force))
 
         self._contents = b''.join(sorted(child_encodings))
+        self._children_revision = self._sum_revisions()
         self._mutated = False
         self._header = None
         if self._trailer != b'':
-- 
2.43.0


From f4ec59543762df726c405bddd2615f67a77fbc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 20/84] fix: notice changes to a structure nested in a choice,
 an open type or an octet string

---
 asn1crypto/core.py | 82 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 82 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 30efaf9..c9fc98d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -923,6 +923,23 @@ class Any(Asn1Value):
             e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
             raise e
 
+    def _is_mutated(self):
+        """
+        :return:
+            A boolean - if the parsed value has been mutated
+        """
+
+        return self._parsed is not None and self._parsed[0]._is_mutated()
+
+    @property
+    def _revision(self):
+        """
+        :return:
+            The revision of the parsed value
+        """
+
+        return 0 if self._parsed is None else self._parsed[0]._revision
+
     @property
     def native(self):
         """
@@ -1212,6 +1229,23 @@ class Choice(Asn1Value):
 
         self._contents = value
 
+    def _is_mutated(self):
+        """
+        :return:
+            A boolean - if the chosen alternative has been mutated
+        """
+
+        return self._parsed is not None and self._parsed._is_mutated()
+
+    @property
+    def _revision(self):
+        """
+        :return:
+            The revision of the chosen alternative
+        """
+
+        return 0 if self._parsed is None else self._parsed._revision
+
     @property
     def name(self):
         """
@@ -2770,6 +2804,13 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
     _parsed = None
 
+    # The revision of the parsed value when it was last encoded
+    _parsed_revision = 0
+
+    # ParsableOctetString overrides .contents to be a property so that changes
+    # to the parsed value are included in it
+    _contents = None
+
     # Instance attribute of (possibly-merged) byte string
     _bytes = None
 
@@ -2797,6 +2838,41 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         if set_parsed:
             self._parsed = (parsed, parsed.__class__, None)
 
+    @property
+    def contents(self):
+        """
+        :return:
+            A byte string of the encoded contents of the value
+        """
+
+        parsed = self._parsed
+        if parsed is not None and self._is_mutated():
+            self.set(parsed[0].dump())
+            self._parsed = parsed
+            self._parsed_revision = parsed[0]._revision
+            self._revision += 1
+        return self._contents
+
+    @contents.setter
+    def contents(self, value):
+        """
+        :param value:
+            A byte string of the encoded contents of the value
+        """
+
+        self._contents = value
+
+    def _is_mutated(self):
+        """
+        :return:
+            A boolean - if the parsed value has been mutated
+        """
+
+        if self._parsed is None:
+            return False
+        parsed = self._parsed[0]
+        return parsed._is_mutated() or parsed._revision != self._parsed_revision
+
     def set(self, value):
         """
         Sets the value of the object
@@ -2845,6 +2921,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             parsed_value, _ = _parse_build(self.__bytes__(), spec=spec, spec_params=spec_params)
             self._parsed = (parsed_value, spec, spec_params)
+            self._parsed_revision = 0
         return self._parsed[0]
 
     def __bytes__(self):
@@ -2935,7 +3012,10 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         if force:
             parsed = self._parsed
             if parsed is not None:
+                if self._is_mutated():
+                    self._revision += 1
                 native = parsed[0].dump(force=force)
+                self._parsed_revision = parsed[0]._revision
             else:
                 native = self.native
             self.contents = None
@@ -4332,6 +4412,8 @@ class SequenceOf(Asn1Value):
                     # Make sure a blank list is serialized
                     if self.contents is None:
                         self._set_contents()
+                    # Nothing can have seen an earlier revision
+                    self._revision = 0
 
         except (ValueError, TypeError) as e:
             args = e.args[1:]
-- 
2.43.0


From 5969a2dd7ffaf01aea427e8695edfebb6a48c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 21/84] fix: encode the components of a SET in the order of
 their outermost tags, leaving out absent ones

---
 asn1crypto/core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c9fc98d..45a2c4d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4995,15 +4995,23 @@ class Set(Sequence):
 
         child_tag_encodings = []
         for index, child in enumerate(self.children):
+            if child.__class__ == tuple:
+                child = self._lazy_child(index)
             child_encoding = child.dump(force=force)
 
+            # Skip encoding absent children
+            if child_encoding == b'':
+                continue
+
             # Skip encoding defaulted children
             name, spec, field_params = self._fields[index]
             if 'default' in field_params:
                 if spec(**field_params).dump() == child_encoding:
                     continue
 
-            child_tag_encodings.append((child.tag, child_encoding))
+            # The outermost tag is the one that determines the order
+            ((class_, _, tag, _, _, _), _) = _parse(child_encoding, len(child_encoding))
+            child_tag_encodings.append(((class_, tag), child_encoding))
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
-- 
2.43.0


From c9fdca011b87e601f4152770e37665208d96a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 22/84] fix: refuse a SET that contains a component more than
 once

---
 asn1crypto/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 45a2c4d..a4e4281 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4913,6 +4913,14 @@ class Set(Sequence):
                         parts[2],
                     ))
 
+                if field in child_map:
+                    raise ValueError(unwrap(
+                        '''
+                        Data for field "%s" is present more than once
+                        ''',
+                        self._fields[field][0]
+                    ))
+
                 _, field_spec, value_spec, field_params, spec_override = (
                     cls._precomputed_specs[field] or self._determine_spec(field))
 
-- 
2.43.0


From 5a2e220ab1c14955c36172f62290cc7de02dee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 23/84] fix: keep components after the last field when a
 structure is re-encoded

---
 asn1crypto/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a4e4281..b894038 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3886,6 +3886,13 @@ class Sequence(Asn1Value):
                 if default_value.dump() == child_dump:
                     continue
             contents.write(child_dump)
+        # Components after the last of the fields are kept as they are
+        for index in range(len(self._fields), len(self.children)):
+            child = self.children[index]
+            if child.__class__ == tuple and not force:
+                contents.write(child[3] + child[4] + child[5])
+            else:
+                contents.write(self._lazy_child(index).dump(force=force))
         self._contents = contents.getvalue()
         self._children_revision = self._sum_revisions()
         self._mutated = False
-- 
2.43.0


From 7b011276a68e52621067ad2cbc4d6d319f1894fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 24/84] fix: report the RC2 key length in bytes, and when the
 version is absent

---
 asn1crypto/algos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 3a4b18f..056451a 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1048,12 +1048,12 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             if rc2_parameter_version in encoded_key_bits_map:
                 return encoded_key_bits_map[rc2_parameter_version]
 
-            if rc2_parameter_version >= 256:
-                return rc2_parameter_version
-
             if rc2_parameter_version is None:
                 return 4  # 32-bit default
 
+            if rc2_parameter_version >= 256:
+                return (rc2_parameter_version + 7) // 8
+
             raise ValueError(unwrap(
                 '''
                 Invalid RC2 parameter version found in EncryptionAlgorithm
-- 
2.43.0


From 779c1e2f67f7ebcdca11e438ce0269b23e89c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:25 +0000
Subject: [PATCH 25/84] fix: only treat the asterisk of a wildcard label as
 special

---
 asn1crypto/x509.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 38aa770..57906ea 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -3021,11 +3021,11 @@ class Certificate(Sequence):
         if wildcard_label == '*':
             return True
 
-        wildcard_regex = re.compile('^' + wildcard_label.replace('*', '.*') + '$')
-        if wildcard_regex.match(first_domain_label):
-            return True
+        prefix, suffix = wildcard_label.split('*')
+        if len(first_domain_label) < len(prefix) + len(suffix):
+            return False
 
-        return False
+        return first_domain_label.startswith(prefix) and first_domain_label.endswith(suffix)
 
 
 # The structures are taken from the OpenSSL source file x_x509a.c, and specify
-- 
2.43.0


From 2a75e16a53251ad7360f1b233a0cc3b2db9a0d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:29 +0000
Subject: [PATCH 26/84] fix: names of a certificate that nothing can match do
 not prevent the others from being checked

---
 asn1crypto/x509.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 57906ea..4087f94 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2763,7 +2763,7 @@ class Certificate(Sequence):
             # https://tools.ietf.org/html/rfc6125#section-6.4.4, the common
             # name should not be used if the subject alt name is present.
             else:
-                pattern = re.compile('^(\\*\\.)?(?:[a-zA-Z0-9](?:[a-zA-Z0-9\\-]*[a-zA-Z0-9])?\\.)+[a-zA-Z]{2,}$')
+                pattern = re.compile('^(\\*\\.)?(?:[a-zA-Z0-9](?:[a-zA-Z0-9\\-]*[a-zA-Z0-9])?\\.)+[a-zA-Z]{2,}\\Z')
                 for rdn in self.subject.chosen:
                     for name_type_value in rdn:
                         if name_type_value['type'].native == 'common_name':
@@ -2914,7 +2914,7 @@ class Certificate(Sequence):
         encoded_domain_ip = domain_ip.encode('idna').decode('ascii').lower()
 
         is_ipv6 = encoded_domain_ip.find(':') != -1
-        is_ipv4 = not is_ipv6 and re.match('^\\d+\\.\\d+\\.\\d+\\.\\d+$', encoded_domain_ip)
+        is_ipv4 = not is_ipv6 and re.match('^\\d+\\.\\d+\\.\\d+\\.\\d+\\Z', encoded_domain_ip)
         is_domain = not is_ipv6 and not is_ipv4
 
         # Handle domain name checks
@@ -2925,7 +2925,11 @@ class Certificate(Sequence):
             domain_labels = encoded_domain_ip.split('.')
 
             for valid_domain in self.valid_domains:
-                encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                try:
+                    encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                except (UnicodeError):
+                    # Not a domain name, and thus nothing can match it
+                    continue
                 valid_domain_labels = encoded_valid_domain.split('.')
 
                 # The domain must be equal in label length to match
@@ -2949,6 +2953,9 @@ class Certificate(Sequence):
         normalized_ip = inet_pton(family, encoded_domain_ip)
 
         for valid_ip in self.valid_ips:
+            # Networks and values of an invalid length are not an IP address
+            if valid_ip is None or valid_ip.find('/') != -1:
+                continue
             valid_family = socket.AF_INET if valid_ip.find('.') != -1 else socket.AF_INET6
             normalized_valid_ip = inet_pton(valid_family, valid_ip)
 
-- 
2.43.0


From 79736461571ad473720826ace8e13f03da15e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 27/84] fix: compare all of the values of a multi-valued RDN,
 including those of the same type

---
 asn1crypto/x509.py | 55 +++++++---------------------------------------
 1 file changed, 8 insertions(+), 47 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 4087f94..ea840bb 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -859,9 +859,13 @@ class RelativeDistinguishedName(SetOf):
         """
 
         output = []
-        values = self._get_values(self)
-        for key in sorted(values.keys()):
-            output.append('%s: %s' % (key, values[key]))
+        for ntv in self:
+            value = '%s: %s' % (ntv['type'].native, ntv.prepped_value)
+            # Values that are not a string have not been normalized
+            for index, char in enumerate('\\\x1E\x1F'):
+                value = value.replace(char, '\\%d' % index)
+            output.append(value)
+        output.sort()
         # Unit separator is used here since the normalization process for
         # values moves any such character, and the keys are all dotted integers
         # or under_score_words
@@ -887,50 +891,7 @@ class RelativeDistinguishedName(SetOf):
         if len(self) != len(other):
             return False
 
-        self_types = self._get_types(self)
-        other_types = self._get_types(other)
-
-        if self_types != other_types:
-            return False
-
-        self_values = self._get_values(self)
-        other_values = self._get_values(other)
-
-        for type_name_ in self_types:
-            if self_values[type_name_] != other_values[type_name_]:
-                return False
-
-        return True
-
-    def _get_types(self, rdn):
-        """
-        Returns a set of types contained in an RDN
-
-        :param rdn:
-            A RelativeDistinguishedName object
-
-        :return:
-            A set object with unicode strings of NameTypeAndValue type field
-            values
-        """
-
-        return set([ntv['type'].native for ntv in rdn])
-
-    def _get_values(self, rdn):
-        """
-        Returns a dict of prepped values contained in an RDN
-
-        :param rdn:
-            A RelativeDistinguishedName object
-
-        :return:
-            A dict object with unicode strings of NameTypeAndValue value field
-            values that have been prepped for comparison
-        """
-
-        output = {}
-        [output.update([(ntv['type'].native, ntv.prepped_value)]) for ntv in rdn]
-        return output
+        return self.hashable == other.hashable
 
 
 class RDNSequence(SequenceOf):
-- 
2.43.0


From efa2e9fe5495c15d9b4f296c4615f56c156b0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:00 +0000
Subject: [PATCH 28/84] fix: only drop the variation selectors when preparing
 the values of a name

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index ea840bb..2860cd4 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -752,7 +752,7 @@ class NameTypeAndValue(Sequence):
         """
 
         # Map step
-        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe0f-\uff00\ufffc]+', '', string)
+        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe00-\ufe0f\ufffc]+', '', string)
         string = re.sub('[\u0009\u000a\u000b\u000c\u000d\u0085]', ' ', string)
         if sys.maxunicode == 0xffff:
             # Some installs of Python 2.7 don't support 8-digit unicode escape
-- 
2.43.0


From 0626586a471b3c5b39dae41065707ab2027c6f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 29/84] fix: comparing e-mail addresses does not re-encode them

---
 asn1crypto/x509.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 2860cd4..f047dcb 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -271,16 +271,15 @@ class EmailAddress(IA5String):
         if not isinstance(other, EmailAddress):
             return False
 
-        if not self._normalized:
-            self.set(self.native)
-        if not other._normalized:
-            other.set(other.native)
+        # The values being compared are not changed by normalizing them
+        contents = EmailAddress(self.native)._contents
+        other_contents = EmailAddress(other.native)._contents
 
-        if self._contents.find(b'@') == -1 or other._contents.find(b'@') == -1:
-            return self._contents == other._contents
+        if contents.find(b'@') == -1 or other_contents.find(b'@') == -1:
+            return contents == other_contents
 
-        other_mailbox, other_hostname = other._contents.rsplit(b'@', 1)
-        mailbox, hostname = self._contents.rsplit(b'@', 1)
+        other_mailbox, other_hostname = other_contents.rsplit(b'@', 1)
+        mailbox, hostname = contents.rsplit(b'@', 1)
 
         if mailbox != other_mailbox:
             return False
-- 
2.43.0


From e4299735970bf6487c99cb102a07a0ce8dca8a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 30/84] fix: read a constructed bit string without chunks as
 empty in every bit string type

---
 asn1crypto/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b894038..f92f165 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2518,6 +2518,10 @@ class OctetBitString(Constructable, Castable, Primitive):
             List with one tuple, consisting of a byte string and an integer (unused bits)
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return []
+
         if not self.contents:
             # Disallowed by X.690 §8.6.2.1
             raise ValueError('Bit string is missing the initial octet')
@@ -3071,6 +3075,10 @@ class ParsableOctetBitString(ParsableOctetString):
             A byte string
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return b''
+
         if not self.contents:
             # Disallowed by X.690 §8.6.2.1
             raise ValueError('Bit string is missing the initial octet')
-- 
2.43.0


From a0c024496c8b2f914b239b4d6f3e13dd41660942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:35 +0000
Subject: [PATCH 31/84] fix: refuse UTC offsets of more than 59 minutes past
 the hour

---
 asn1crypto/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f92f165..4775b2e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5263,7 +5263,7 @@ class UTCTime(AbstractTime):
             (?:
                 (?P<dsign>[-+])
                 (?P<dhour>\d{2})
-                (?P<dminute>\d{2})
+                (?P<dminute>[0-5]\d)
             )
         )
         \Z
@@ -5359,7 +5359,7 @@ class GeneralizedTime(AbstractTime):
             (?:
                 (?P<dsign>[-+])
                 (?P<dhour>\d{2})
-                (?P<dminute>\d{2})?
+                (?P<dminute>[0-5]\d)?
             )
         )?
         \Z
-- 
2.43.0


From dd4e4cfaa538c7ba6f3e7aa25af2082d164c0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:40 +0000
Subject: [PATCH 32/84] fix: encode the times of year 1 that are in year 0 in
 UTC

---
 asn1crypto/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4775b2e..b00aa9b 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5285,7 +5285,10 @@ class UTCTime(AbstractTime):
                 raise ValueError('Must be timezone aware')
 
             # Convert value to UTC.
-            value = value.astimezone(utc_with_dst)
+            try:
+                value = value.astimezone(utc_with_dst)
+            except OverflowError:
+                raise ValueError('UTC time is not representable')
 
             if not 1950 <= value.year <= 2049:
                 raise ValueError('Year of the UTCTime is not in range [1950, 2049], use GeneralizedTime instead')
@@ -5382,7 +5385,13 @@ class GeneralizedTime(AbstractTime):
                 raise ValueError('Must be timezone aware')
 
             # Convert value to UTC.
-            value = value.astimezone(utc_with_dst)
+            try:
+                value = value.astimezone(utc_with_dst)
+            except OverflowError:
+                if value.year != 1:
+                    raise ValueError('UTC time is not representable')
+                # The UTC time is in year 0
+                value = extended_datetime.from_y2k(value.replace(year=2001).astimezone(utc_with_dst))
 
             if value.microsecond:
                 fraction = '.' + str(value.microsecond).zfill(6).rstrip('0')
-- 
2.43.0


From 4df4c9f7915e440e53b83166832d43e8597d92c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:06 +0000
Subject: [PATCH 33/84] fix: adding more than 5999 years to a time in year zero

---
 asn1crypto/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/util.py b/asn1crypto/util.py
index 918b330..ab9a0c5 100644
--- a/asn1crypto/util.py
+++ b/asn1crypto/util.py
@@ -820,6 +820,10 @@ class extended_datetime(object):
             A new extended_datetime or datetime.datetime object.
         """
 
+        if isinstance(other, timedelta) and other.days > self.DAYS_IN_2000_YEARS:
+            # Adding the difference to year 2000 may leave the range of datetime
+            return self._y2k + (other - timedelta(days=self.DAYS_IN_2000_YEARS))
+
         return extended_datetime.from_y2k(self._y2k + other)
 
     def __sub__(self, other):
@@ -835,7 +839,7 @@ class extended_datetime(object):
         """
 
         if isinstance(other, timedelta):
-            return extended_datetime.from_y2k(self._y2k - other)
+            return self + -other
 
         if isinstance(other, extended_datetime):
             return self._y2k - other._y2k
-- 
2.43.0


From 6ebcf800eeb923d9d949f9153f4320eb1bebbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:52 +0000
Subject: [PATCH 34/84] fix: raise ValueError for a GeneralizedTime that is
 rounded up to the year 10000

---
 asn1crypto/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b00aa9b..551f16b 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5226,7 +5226,16 @@ class AbstractTime(AbstractString):
             value = self._get_datetime(parsed)
 
             if fraction:
-                value += timedelta(microseconds=fraction)
+                try:
+                    value += timedelta(microseconds=fraction)
+                except OverflowError:
+                    raise ValueError(unwrap(
+                        '''
+                        Error parsing %s to a %s, the time is out of range
+                        ''',
+                        str_cls(self),
+                        type_name(self),
+                    ))
 
             self._native = value
 
-- 
2.43.0


From 12a77a3bf4443fcab70d3bb18fde7d4e0379e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:28 +0000
Subject: [PATCH 35/84] fix: re-encode the header of a null value

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 551f16b..d21d278 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3108,6 +3108,9 @@ class Null(Primitive):
         """
 
         self.contents = b''
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
 
     @property
     def native(self):
-- 
2.43.0


From 4004ec799f14565f5aa8defc5794473cb914022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:41 +0000
Subject: [PATCH 36/84] fix: let values of types without an implementation be
 read

---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d21d278..c1316a6 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1764,6 +1764,18 @@ class Primitive(Asn1Value):
         if self._trailer != b'':
             self._trailer = b''
 
+    @property
+    def native(self):
+        """
+        The native Python datatype representation of this value
+
+        :return:
+            A byte string of the encoded contents, since they are not
+            interpreted, or None
+        """
+
+        return self.contents
+
     def dump(self, force=False):
         """
         Encodes the value using DER
-- 
2.43.0


From 68c878435ac2470e323e02aa50eb31ee8818977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:57 +0000
Subject: [PATCH 37/84] fix: tag the names of an EDIPartyName explicitly

---
 asn1crypto/x509.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index f047dcb..4a7ff6b 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1384,8 +1384,8 @@ class ORAddress(Sequence):
 
 class EDIPartyName(Sequence):
     _fields = [
-        ('name_assigner', DirectoryString, {'implicit': 0, 'optional': True}),
-        ('party_name', DirectoryString, {'implicit': 1}),
+        ('name_assigner', DirectoryString, {'explicit': 0, 'optional': True}),
+        ('party_name', DirectoryString, {'explicit': 1}),
     ]
 
 
-- 
2.43.0


From a11442c86ccb691058d8504a9c8bc104db767187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 38/84] fix: let a structure built from an empty dict be
 encoded

---
 asn1crypto/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c1316a6..c6dbcc5 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3639,6 +3639,11 @@ class Sequence(Asn1Value):
                         ', '.join(sorted(list(unused_keys)))
                     ))
 
+                # An empty value is still a value, and not the lack of one
+                if self.children is None and self._contents is None and self._fields:
+                    self._parse_children()
+                    self._mutated = True
+
                 # A value that only consists of the default has not been mutated,
                 # and must not cause a structure containing it to be re-encoded
                 if use_default and not check_existing:
-- 
2.43.0


From 58d2749b502c6a480a7184b6ddf25c8b90f3fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:19 +0000
Subject: [PATCH 39/84] fix: make the extension attributes of an OR address a
 SET OF

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 4a7ff6b..b8f9c3f 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1370,7 +1370,7 @@ class ExtensionAttribute(Sequence):
     }
 
 
-class ExtensionAttributes(SequenceOf):
+class ExtensionAttributes(SetOf):
     _child_spec = ExtensionAttribute
 
 
-- 
2.43.0


From be55a56d08d08820bb915fdf76ed48332e83dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:38 +0000
Subject: [PATCH 40/84] fix: tag the country and administration domain names of
 an OR address

---
 asn1crypto/x509.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b8f9c3f..aa3d9e3 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1150,8 +1150,7 @@ class AnotherName(Sequence):
 
 
 class CountryName(Choice):
-    class_ = 1
-    tag = 1
+    explicit = (1, 1)
 
     _alternatives = [
         ('x121_dcc_code', NumericString),
@@ -1160,8 +1159,7 @@ class CountryName(Choice):
 
 
 class AdministrationDomainName(Choice):
-    class_ = 1
-    tag = 2
+    explicit = (1, 2)
 
     _alternatives = [
         ('numeric', NumericString),
-- 
2.43.0


From 3441838c98633999f0d9a33b7cb5495e673a5137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 41/84] fix: keep Name.native in step with the name

---
 asn1crypto/x509.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index aa3d9e3..ecc5bdd 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1049,19 +1049,18 @@ class Name(Choice):
 
     @property
     def native(self):
-        if self._native is None:
-            self._native = OrderedDict()
-            for rdn in self.chosen.native:
-                for type_val in rdn:
-                    field_name = type_val['type']
-                    if field_name in self._native:
-                        existing = self._native[field_name]
-                        if not isinstance(existing, list):
-                            existing = self._native[field_name] = [existing]
-                        existing.append(type_val['value'])
-                    else:
-                        self._native[field_name] = type_val['value']
-        return self._native
+        native = OrderedDict()
+        for rdn in self.chosen.native:
+            for type_val in rdn:
+                field_name = type_val['type']
+                if field_name in native:
+                    existing = native[field_name]
+                    if not isinstance(existing, list):
+                        existing = native[field_name] = [existing]
+                    existing.append(type_val['value'])
+                else:
+                    native[field_name] = type_val['value']
+        return native
 
     @property
     def human_friendly(self):
-- 
2.43.0


From ed3200d489c5a29fd68d20c4c94352867f11bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:34 +0000
Subject: [PATCH 42/84] fix: keep the derived values of a name in step with it

---
 asn1crypto/x509.py | 87 +++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index ecc5bdd..2df6b62 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -706,15 +706,17 @@ class NameTypeAndValue(Sequence):
             A unicode string
         """
 
-        if self._prepped is None:
-            native = self['value'].native
+        native = self['value'].native
+        # The preparation is only valid for the value it was made from
+        if self._prepped is None or self._prepped[0] != native:
             if isinstance(native, str_cls):
-                self._prepped = self._ldap_string_prep(native)
+                prepped = self._ldap_string_prep(native)
+            elif isinstance(native, byte_cls):
+                prepped = ' ' + native.decode('cp1252') + ' '
             else:
-                if isinstance(native, byte_cls):
-                    native = ' ' + native.decode('cp1252') + ' '
-                self._prepped = native
-        return self._prepped
+                prepped = native
+            self._prepped = (native, prepped)
+        return self._prepped[1]
 
     def __ne__(self, other):
         return not self == other
@@ -940,10 +942,6 @@ class Name(Choice):
         ('', RDNSequence),
     ]
 
-    _human_friendly = None
-    _sha1 = None
-    _sha256 = None
-
     @classmethod
     def build(cls, name_dict, use_printable=False):
         """
@@ -1069,37 +1067,34 @@ class Name(Choice):
             A human-friendly unicode string containing the parts of the name
         """
 
-        if self._human_friendly is None:
-            data = OrderedDict()
-            last_field = None
-            for rdn in self.chosen:
-                for type_val in rdn:
-                    field_name = type_val['type'].human_friendly
-                    last_field = field_name
-                    if field_name in data:
-                        data[field_name] = [data[field_name]]
-                        data[field_name].append(type_val['value'])
-                    else:
-                        data[field_name] = type_val['value']
-            to_join = []
-            keys = data.keys()
-            if last_field == 'Country':
-                keys = reversed(list(keys))
-            for key in keys:
-                value = data[key]
-                native_value = self._recursive_humanize(value)
-                to_join.append('%s: %s' % (key, native_value))
-
-            has_comma = False
-            for element in to_join:
-                if element.find(',') != -1:
-                    has_comma = True
-                    break
-
-            separator = ', ' if not has_comma else '; '
-            self._human_friendly = separator.join(to_join[::-1])
-
-        return self._human_friendly
+        data = OrderedDict()
+        last_field = None
+        for rdn in self.chosen:
+            for type_val in rdn:
+                field_name = type_val['type'].human_friendly
+                last_field = field_name
+                if field_name in data:
+                    data[field_name] = [data[field_name]]
+                    data[field_name].append(type_val['value'])
+                else:
+                    data[field_name] = type_val['value']
+        to_join = []
+        keys = data.keys()
+        if last_field == 'Country':
+            keys = reversed(list(keys))
+        for key in keys:
+            value = data[key]
+            native_value = self._recursive_humanize(value)
+            to_join.append('%s: %s' % (key, native_value))
+
+        has_comma = False
+        for element in to_join:
+            if element.find(',') != -1:
+                has_comma = True
+                break
+
+        separator = ', ' if not has_comma else '; '
+        return separator.join(to_join[::-1])
 
     def _recursive_humanize(self, value):
         """
@@ -1125,9 +1120,7 @@ class Name(Choice):
             The SHA1 hash of the DER-encoded bytes of this name
         """
 
-        if self._sha1 is None:
-            self._sha1 = hashlib.sha1(self.dump()).digest()
-        return self._sha1
+        return hashlib.sha1(self.dump()).digest()
 
     @property
     def sha256(self):
@@ -1136,9 +1129,7 @@ class Name(Choice):
             The SHA-256 hash of the DER-encoded bytes of this name
         """
 
-        if self._sha256 is None:
-            self._sha256 = hashlib.sha256(self.dump()).digest()
-        return self._sha256
+        return hashlib.sha256(self.dump()).digest()
 
 
 class AnotherName(Sequence):
-- 
2.43.0


From 5e789e976ab7d81313c9e135d27f443a59d82f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:38 +0000
Subject: [PATCH 43/84] fix: accept choices as the components of a SET

---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c6dbcc5..7db380a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4936,6 +4936,18 @@ class Set(Sequence):
                 id_ = (parts[0], parts[2])
 
                 field = self._field_ids.get(id_)
+                if field is None:
+                    # The tags of a choice are those of its alternatives
+                    for index, (_, spec, params) in enumerate(self._fields):
+                        if spec is None or not issubclass(spec, Choice):
+                            continue
+                        try:
+                            spec(**params).validate(parts[0], parts[2], parts[4])
+                            field = index
+                            break
+                        except (ValueError):
+                            pass
+
                 if field is None:
                     raise ValueError(unwrap(
                         '''
-- 
2.43.0


From 93b4502b9dbc94cbe533f57b5fd8f83e45695e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:18 +0000
Subject: [PATCH 44/84] fix: keep the explicit tags of an Any value

---
 asn1crypto/core.py | 60 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7db380a..0327ca1 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -915,6 +915,8 @@ class Any(Asn1Value):
                         type_name(value)
                     ))
 
+                if self.explicit is not None:
+                    value = self._tagged(value, value.explicit)
                 self._parsed = (value, value.__class__, None)
                 self.contents = value.dump()
 
@@ -923,6 +925,24 @@ class Any(Asn1Value):
             e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
             raise e
 
+    def _tagged(self, value, explicit):
+        """
+        :param value:
+            An Asn1Value object
+
+        :param explicit:
+            None or a tuple of the explicit tags the value has apart from those
+            of this object
+
+        :return:
+            A copy of the value that also has the explicit tags of this object
+        """
+
+        value = value.copy()
+        value.explicit = ((explicit or ()) + (self.explicit or ())) or None
+        value._header = None
+        return value
+
     def _is_mutated(self):
         """
         :return:
@@ -988,14 +1008,18 @@ class Any(Asn1Value):
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             try:
-                passed_params = spec_params or {}
+                passed_params = dict(spec_params or {})
                 _tag_type_to_explicit_implicit(passed_params)
                 if self.explicit is not None:
                     if 'explicit' in passed_params:
-                        passed_params['explicit'] = self.explicit + passed_params['explicit']
+                        # The tags of this object are around those of the value in it
+                        passed_params['explicit'] = Asn1Value(explicit=passed_params['explicit']).explicit + self.explicit
                     else:
                         passed_params['explicit'] = self.explicit
-                contents = self._header + self.contents + self._trailer
+                if self._parsed is not None:
+                    contents = self._parsed[0].dump()
+                else:
+                    contents = self._header + self.contents + self._trailer
                 parsed_value, _ = _parse_build(
                     contents,
                     spec=spec,
@@ -1006,7 +1030,6 @@ class Any(Asn1Value):
                 # Once we've parsed the Any value, clear any attributes from this object
                 # since they are now duplicate
                 self.tag = None
-                self.explicit = None
                 self.implicit = False
                 self._header = b''
                 self.contents = contents
@@ -1031,7 +1054,34 @@ class Any(Asn1Value):
         """
 
         super(Any, self)._copy(other, copy_func)
-        self._parsed = copy_func(other._parsed)
+        if other.contents is None:
+            return
+
+        num_explicit = len(other.explicit or ())
+
+        if other._parsed is not None:
+            value, spec, spec_params = other._parsed
+            if self.explicit != other.explicit:
+                explicit = value.explicit or ()
+                value = self._tagged(value, explicit[0:len(explicit) - num_explicit])
+            else:
+                value = copy_func(value)
+            self._parsed = (value, spec, spec_params)
+            return
+
+        self._header = other._header
+        self._trailer = other._trailer
+        self.method = other.method
+        if self.explicit != other.explicit:
+            # Replace the explicit tags around the encoded value
+            contents = self._header + self.contents + self._trailer
+            for _ in range(num_explicit):
+                contents = _parse(contents, len(contents))[0][4]
+            for class_, tag in self.explicit or ():
+                contents = _dump_header(class_, 1, tag, contents) + contents
+            self._header = b''
+            self.contents = contents
+            self._trailer = b''
 
     def dump(self, force=False):
         """
-- 
2.43.0


From b6abd5506d4210212775c94d77de8ac1645f5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:40 +0000
Subject: [PATCH 45/84] fix: keep all of the explicit tags of a choice

---
 asn1crypto/core.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 0327ca1..23b3300 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1365,17 +1365,18 @@ class Choice(Asn1Value):
         id_ = (class_, tag)
 
         if self.explicit is not None:
-            if self.explicit[-1] != id_:
-                raise ValueError(unwrap(
-                    '''
-                    %s was explicitly tagged, but the value provided does not
-                    match the class and tag
-                    ''',
-                    type_name(self)
-                ))
+            for explicit in reversed(self.explicit):
+                if explicit != id_:
+                    raise ValueError(unwrap(
+                        '''
+                        %s was explicitly tagged, but the value provided does not
+                        match the class and tag
+                        ''',
+                        type_name(self)
+                    ))
 
-            ((class_, _, tag, _, _, _), _) = _parse(contents, len(contents))
-            id_ = (class_, tag)
+                ((class_, _, tag, _, contents, _), _) = _parse(contents, len(contents))
+                id_ = (class_, tag)
 
         if id_ in self._id_map:
             self._choice = self._id_map[id_]
@@ -5844,8 +5845,8 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             parsed_method = method
             parsed_tag = tag
             to_parse = contents
-            explicit_header = header
-            explicit_trailer = trailer or b''
+            headers = [header]
+            trailers = [trailer or b'']
             for expected_class, expected_tag in explicit_info:
                 if parsed_class != expected_class:
                     raise ValueError(unwrap(
@@ -5889,9 +5890,16 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                     ))
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
-                if not isinstance(value, Choice):
-                    explicit_header += parsed_header
-                    explicit_trailer = parsed_trailer + explicit_trailer
+                headers.append(parsed_header)
+                trailers.append(parsed_trailer)
+
+            # The header and trailer of a choice are those of the alternative,
+            # which keeps them itself
+            if isinstance(value, Choice):
+                headers.pop()
+                trailers.pop()
+            explicit_header = b''.join(headers)
+            explicit_trailer = b''.join(reversed(trailers))
 
             value = _build(*info, spec=spec, spec_params={'no_explicit': True})
             value._header = explicit_header
-- 
2.43.0


From e8f3235b43bf4ef68b30e8b3a524514f347506fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:44 +0000
Subject: [PATCH 46/84] fix: recognise optional fields of explicitly tagged
 types

---
 asn1crypto/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 23b3300..7e43c79 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5715,6 +5715,12 @@ def _build_id_tuple(params, spec):
         else:
             required_class = 2
             required_tag = params['implicit']
+    elif spec.explicit is not None:
+        # The class may not have been set up yet
+        if isinstance(spec.explicit[0], int_types):
+            required_class, required_tag = spec.explicit
+        else:
+            required_class, required_tag = spec.explicit[-1]
     if required_class is not None and not isinstance(required_class, int_types):
         required_class = CLASS_NAME_TO_NUM_MAP[required_class]
 
-- 
2.43.0


From 1113a09d57da789ed9b3b7d481186afd0ab4bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:00 +0000
Subject: [PATCH 47/84] fix: apply an implicit tag inside of an explicit one

---
 asn1crypto/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7e43c79..f76ba8b 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -381,7 +381,7 @@ class Asn1Value(object):
                     else:
                         self.explicit = self.explicit + ((class_, tag), )
 
-            elif implicit is not None:
+            if implicit is not None:
                 class_, tag = implicit
                 if class_ not in CLASS_NAME_TO_NUM_MAP:
                     raise ValueError(unwrap(
@@ -402,7 +402,8 @@ class Asn1Value(object):
                 self.class_ = CLASS_NAME_TO_NUM_MAP[class_]
                 self.tag = tag
                 self.implicit = True
-            else:
+
+            if explicit is None and implicit is None:
                 if class_ is not None:
                     if class_ not in CLASS_NAME_TO_NUM_MAP:
                         raise ValueError(unwrap(
@@ -5907,7 +5908,10 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             explicit_header = b''.join(headers)
             explicit_trailer = b''.join(reversed(trailers))
 
-            value = _build(*info, spec=spec, spec_params={'no_explicit': True})
+            inner_params = dict(spec_params or {})
+            inner_params.pop('explicit', None)
+            inner_params['no_explicit'] = True
+            value = _build(*info, spec=spec, spec_params=inner_params)
             value._header = explicit_header
             value._trailer = explicit_trailer
             value.explicit = original_explicit
-- 
2.43.0


From cf9dfaddaefe829b2bd5b0482cf496aaac5c623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:43 +0000
Subject: [PATCH 48/84] fix: do not pass the default of a field on to the value
 inside of an explicit tag

---
 asn1crypto/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f76ba8b..22f1132 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5910,6 +5910,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
 
             inner_params = dict(spec_params or {})
             inner_params.pop('explicit', None)
+            inner_params.pop('default', None)
             inner_params['no_explicit'] = True
             value = _build(*info, spec=spec, spec_params=inner_params)
             value._header = explicit_header
-- 
2.43.0


From 520b84eb406a5ec6005136cc1dce09da86e70d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:50 +0000
Subject: [PATCH 49/84] fix: recognise an absent optional Any field by its
 explicit tag

---
 asn1crypto/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 22f1132..7d10455 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4195,7 +4195,8 @@ class Sequence(Asn1Value):
 
                     # If the next value is optional or default, allow it to be absent
                     if field_params and ('optional' in field_params or 'default' in field_params):
-                        if self._field_ids[field] != (parts[0], parts[2]) and field_spec != Any:
+                        is_any = field_spec == Any and 'explicit' not in field_params
+                        if self._field_ids[field] != (parts[0], parts[2]) and not is_any:
 
                             # See if the value is a valid choice before assuming
                             # that we have a missing optional or default value
-- 
2.43.0


From 904310eb190695235b4d7a72f1e39f0e1c0fec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:38 +0000
Subject: [PATCH 50/84] fix: allow building AnyAlgorithmId values

---
 asn1crypto/algos.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 056451a..2f6f161 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1318,10 +1318,15 @@ class AnyAlgorithmId(ObjectIdentifier):
     _map = {}
 
     def _setup(self):
-        _map = self.__class__._map
+        cls = self.__class__
+        _map = cls._map
+        reverse_map = {}
         for other_cls in (EncryptionAlgorithmId, SignedDigestAlgorithmId, DigestAlgorithmId):
+            other_cls()._setup()
             for oid, name in other_cls._map.items():
                 _map[oid] = name
+            reverse_map.update(other_cls._reverse_map)
+        cls._reverse_map = reverse_map
 
 
 class AnyAlgorithmIdentifier(_ForceNullParameters, Sequence):
-- 
2.43.0


From f9232d240eda731b12dc728a2c034053c44750c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:19 +0000
Subject: [PATCH 51/84] fix: decode the open types of a SET

---
 asn1crypto/core.py | 54 ++++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7d10455..3aefa6c 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5021,32 +5021,15 @@ class Set(Sequence):
                         self._fields[field][0]
                     ))
 
-                _, field_spec, value_spec, field_params, spec_override = (
-                    cls._precomputed_specs[field] or self._determine_spec(field))
-
-                if field_spec is None or (spec_override and issubclass(field_spec, Any)):
-                    field_spec = value_spec
-                    spec_override = None
-
-                if spec_override:
-                    child = parts + (field_spec, field_params, value_spec)
-                else:
-                    child = parts + (field_spec, field_params)
-
-                if recurse:
-                    child = _build(*child)
-                    if isinstance(child, (Sequence, SequenceOf)):
-                        child._parse_children(recurse=True)
-
-                child_map[field] = child
+                child_map[field] = parts
                 seen_field += 1
 
             total_fields = len(self._fields)
 
-            for index in range(0, total_fields):
-                if index in child_map:
-                    continue
-
+            # The spec of a field can depend on the value of another one, thus
+            # the fields with a fixed spec are handled first
+            self.children = [VOID] * total_fields
+            for index in sorted(range(0, total_fields), key=lambda i: cls._precomputed_specs[i] is None):
                 name, field_spec, value_spec, field_params, spec_override = (
                     cls._precomputed_specs[index] or self._determine_spec(index))
 
@@ -5054,18 +5037,24 @@ class Set(Sequence):
                     field_spec = value_spec
                     spec_override = None
 
-                missing = False
+                if index in child_map:
+                    if spec_override:
+                        child = child_map[index] + (field_spec, field_params, value_spec)
+                    else:
+                        child = child_map[index] + (field_spec, field_params)
+
+                    if recurse:
+                        child = _build(*child)
+                        if isinstance(child, (Sequence, SequenceOf)):
+                            child._parse_children(recurse=True)
 
-                if not field_params:
-                    missing = True
-                elif 'optional' not in field_params and 'default' not in field_params:
-                    missing = True
                 elif 'optional' in field_params:
-                    child_map[index] = VOID
+                    child = VOID
+
                 elif 'default' in field_params:
-                    child_map[index] = field_spec(**field_params)
+                    child = field_spec(**field_params)
 
-                if missing:
+                else:
                     raise ValueError(unwrap(
                         '''
                         Missing required field "%s" from %s
@@ -5074,11 +5063,10 @@ class Set(Sequence):
                         type_name(self)
                     ))
 
-            self.children = []
-            for index in range(0, total_fields):
-                self.children.append(child_map[index])
+                self.children[index] = child
 
         except (ValueError, TypeError) as e:
+            self.children = None
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
-- 
2.43.0


From 64c27bee641eab19fa66c68f791c6c52bb88594c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:38:04 +0000
Subject: [PATCH 52/84] fix: raise ValueError for encryption properties that do
 not apply

---
 asn1crypto/algos.py | 169 ++++++++++++++++++++++++++------------------
 1 file changed, 102 insertions(+), 67 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 2f6f161..1bd6392 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -840,6 +840,37 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         'rsaes_oaep': RSAESOAEPParams,
     }
 
+    def _param(self, *names):
+        """
+        Fetches a value nested inside of the parameters
+
+        :param names:
+            The names of the fields to follow, starting with the parameters
+            of this algorithm
+
+        :raises:
+            ValueError - when the parameters are absent, or of some other structure
+
+        :return:
+            An Asn1Value object
+        """
+
+        value = self['parameters']
+        for name in names:
+            if isinstance(value, Any):
+                value = value.parse()
+            if not isinstance(value, Sequence) or name not in value._field_map:
+                raise ValueError(unwrap(
+                    '''
+                    The parameters of the encryption algorithm "%s" do not
+                    contain the field "%s"
+                    ''',
+                    self['algorithm'].native,
+                    name
+                ))
+            value = value[name]
+        return value
+
     @property
     def kdf(self):
         """
@@ -853,7 +884,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         encryption_algo = self['algorithm'].native
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['key_derivation_func']['algorithm'].native
+            return self._param('key_derivation_func', 'algorithm').native
 
         if encryption_algo.find('.') == -1:
             if encryption_algo.find('_') != -1:
@@ -897,10 +928,10 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             if self.kdf == 'scrypt':
                 return None
-            return self['parameters']['key_derivation_func']['parameters']['prf']['algorithm'].native
+            return self._param('key_derivation_func', 'parameters', 'prf', 'algorithm').native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
                 _, hmac_algo, _ = encryption_algo.split('_', 2)
                 return hmac_algo
 
@@ -932,9 +963,10 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         encryption_algo = self['algorithm'].native
 
         if encryption_algo == 'pbes2':
-            salt = self['parameters']['key_derivation_func']['parameters']['salt']
+            salt = self._param('key_derivation_func', 'parameters', 'salt')
 
-            if salt.name == 'other_source':
+            # The salt of scrypt is a plain octet string
+            if isinstance(salt, Choice) and salt.name == 'other_source':
                 raise ValueError(unwrap(
                     '''
                     Can not determine key derivation salt - the
@@ -946,8 +978,8 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return salt.native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
-                return self['parameters']['salt'].native
+            if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
+                return self._param('salt').native
 
             raise ValueError(unwrap(
                 '''
@@ -979,11 +1011,11 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             if self.kdf == 'scrypt':
                 return None
-            return self['parameters']['key_derivation_func']['parameters']['iteration_count'].native
+            return self._param('key_derivation_func', 'parameters', 'iteration_count').native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
-                return self['parameters']['iterations'].native
+            if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
+                return self._param('iterations').native
 
             raise ValueError(unwrap(
                 '''
@@ -1035,7 +1067,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return cipher_lengths[encryption_algo]
 
         if encryption_algo == 'rc2':
-            rc2_parameter_version = self['parameters']['rc2_parameter_version'].native
+            rc2_parameter_version = self._param('rc2_parameter_version').native
 
             # See page 24 of
             # http://www.emc.com/collateral/white-papers/h11302-pkcs5v2-1-password-based-cryptography-standard-wp.pdf
@@ -1062,7 +1094,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             ))
 
         if encryption_algo == 'pbes2':
-            key_length = self['parameters']['key_derivation_func']['parameters']['key_length'].native
+            key_length = self._param('key_derivation_func', 'parameters', 'key_length').native
             if key_length is not None:
                 return key_length
 
@@ -1071,23 +1103,24 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             # practical terms, neither OpenSSL or OS X support RC5 for PKCS#8
             # so it is unlikely to be an issue that is run into.
 
-            return self['parameters']['encryption_scheme'].key_length
-
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 16,
-                'pkcs12_sha1_rc4_40': 5,
-                'pkcs12_sha1_tripledes_3key': 24,
-                'pkcs12_sha1_tripledes_2key': 16,
-                'pkcs12_sha1_rc2_128': 16,
-                'pkcs12_sha1_rc2_40': 5,
-            }[encryption_algo]
+            return self._param('encryption_scheme').key_length
+
+        pbe_map = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 16,
+            'pkcs12_sha1_rc4_40': 5,
+            'pkcs12_sha1_tripledes_3key': 24,
+            'pkcs12_sha1_tripledes_2key': 16,
+            'pkcs12_sha1_rc2_128': 16,
+            'pkcs12_sha1_rc2_40': 5,
+        }
+        if encryption_algo in pbe_map:
+            return pbe_map[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1121,7 +1154,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return 'cbc'
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_mode
+            return self._param('encryption_scheme').encryption_mode
 
         raise ValueError(unwrap(
             '''
@@ -1154,23 +1187,24 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return 'tripledes'
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_cipher
-
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 'des',
-                'pbes1_md5_des': 'des',
-                'pbes1_md2_rc2': 'rc2',
-                'pbes1_md5_rc2': 'rc2',
-                'pbes1_sha1_des': 'des',
-                'pbes1_sha1_rc2': 'rc2',
-                'pkcs12_sha1_rc4_128': 'rc4',
-                'pkcs12_sha1_rc4_40': 'rc4',
-                'pkcs12_sha1_tripledes_3key': 'tripledes',
-                'pkcs12_sha1_tripledes_2key': 'tripledes',
-                'pkcs12_sha1_rc2_128': 'rc2',
-                'pkcs12_sha1_rc2_40': 'rc2',
-            }[encryption_algo]
+            return self._param('encryption_scheme').encryption_cipher
+
+        pbe_map = {
+            'pbes1_md2_des': 'des',
+            'pbes1_md5_des': 'des',
+            'pbes1_md2_rc2': 'rc2',
+            'pbes1_md5_rc2': 'rc2',
+            'pbes1_sha1_des': 'des',
+            'pbes1_sha1_rc2': 'rc2',
+            'pkcs12_sha1_rc4_128': 'rc4',
+            'pkcs12_sha1_rc4_40': 'rc4',
+            'pkcs12_sha1_tripledes_3key': 'tripledes',
+            'pkcs12_sha1_tripledes_2key': 'tripledes',
+            'pkcs12_sha1_rc2_128': 'rc2',
+            'pkcs12_sha1_rc2_40': 'rc2',
+        }
+        if encryption_algo in pbe_map:
+            return pbe_map[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1202,26 +1236,27 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return cipher_map[encryption_algo]
 
         if encryption_algo == 'rc5':
-            return self['parameters']['block_size_in_bits'].native // 8
+            return self._param('block_size_in_bits').native // 8
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_block_size
-
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 0,
-                'pkcs12_sha1_rc4_40': 0,
-                'pkcs12_sha1_tripledes_3key': 8,
-                'pkcs12_sha1_tripledes_2key': 8,
-                'pkcs12_sha1_rc2_128': 8,
-                'pkcs12_sha1_rc2_40': 8,
-            }[encryption_algo]
+            return self._param('encryption_scheme').encryption_block_size
+
+        pbe_map = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 0,
+            'pkcs12_sha1_rc4_40': 0,
+            'pkcs12_sha1_tripledes_3key': 8,
+            'pkcs12_sha1_tripledes_2key': 8,
+            'pkcs12_sha1_rc2_128': 8,
+            'pkcs12_sha1_rc2_40': 8,
+        }
+        if encryption_algo in pbe_map:
+            return pbe_map[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1244,7 +1279,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         encryption_algo = self['algorithm'].native
 
         if encryption_algo in set(['rc2', 'rc5']):
-            return self['parameters']['iv'].native
+            return self._param('iv').native
 
         # For DES/Triple DES and AES the IV is the entirety of the parameters
         octet_string_iv_oids = set([
@@ -1261,7 +1296,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters'].native
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_iv
+            return self._param('encryption_scheme').encryption_iv
 
         # All of the PBES1 algos use their KDF to create the IV. For the pbkdf1,
         # the KDF is told to generate a key that is an extra 8 bytes long, and
-- 
2.43.0


From e43876564576b075c58149c0f28faef464249e22 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:38:06 +0000
Subject: [PATCH 53/84] fix: read V1 attribute certificates whose version is
 left out

---
 asn1crypto/cms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index b104c99..20ddac7 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -56,6 +56,7 @@ from .core import (
 from .crl import CertificateList
 from .keys import PublicKeyInfo
 from .ocsp import OCSPResponse
+from .parser import parse
 from .x509 import Attributes, Certificate, Extensions, GeneralName, GeneralNames, Name
 
 
@@ -510,7 +511,10 @@ class CertificateChoices(Choice):
 
         super(CertificateChoices, self).validate(class_, tag, contents)
         if self._choice == 2:
-            if AttCertVersion.load(Sequence.load(contents)[0].dump()).native == 'v2':
+            # The version is the first field of the AttributeCertificateInfoV1,
+            # but is absent when it has the default value of v1
+            info = parse(contents)[4]
+            if info[0:1] == b'\x02' and AttCertVersion.load(info).native == 'v2':
                 self._choice = 3
 
 
-- 
2.43.0


From 0e35917f10f73111edf1881c1a8d4883b3c72e61 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:38:08 +0000
Subject: [PATCH 54/84] fix: report no URL for a distribution point without a
 name

---
 asn1crypto/x509.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 2df6b62..4b879c3 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -58,6 +58,7 @@ from .core import (
     UTF8String,
     VisibleString,
     VOID,
+    Void,
 )
 from .keys import PublicKeyInfo
 from .util import int_to_bytes, int_from_bytes, inet_ntop, inet_pton
@@ -1517,8 +1518,11 @@ class DistributionPoint(Sequence):
         """
 
         if self._url is False:
-            self._url = None
             name = self['distribution_point']
+            if isinstance(name, Void):
+                self._url = None
+                return self._url
+
             if name.name != 'full_name':
                 raise ValueError(unwrap(
                     '''
@@ -1527,12 +1531,14 @@ class DistributionPoint(Sequence):
                     '''
                 ))
 
+            url = None
             for general_name in name.chosen:
                 if general_name.name == 'uniform_resource_identifier':
-                    url = general_name.native
-                    if url.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://')):
-                        self._url = url
+                    value = general_name.native
+                    if value.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://')):
+                        url = value
                         break
+            self._url = url
 
         return self._url
 
-- 
2.43.0


From 924b72bf7a0b24dca5e986421f642a0608ac00c6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:38:10 +0000
Subject: [PATCH 55/84] fix: raise ValueError for the size and curve of keys
 that do not have one

---
 asn1crypto/keys.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 1f8e6fb..6bcaf03 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -38,6 +38,7 @@ from .core import (
     Sequence,
     SequenceOf,
     SetOf,
+    Void,
 )
 from .util import int_from_bytes, int_to_bytes
 
@@ -859,7 +860,7 @@ class PrivateKeyInfo(Sequence):
         Returns information about the curve used for an EC key
 
         :raises:
-            ValueError - when the key is not an EC key
+            ValueError - when the key is not an EC key, or has no parameters
 
         :return:
             A two-element tuple, with the first element being a unicode string
@@ -878,6 +879,8 @@ class PrivateKeyInfo(Sequence):
             ))
 
         params = self['private_key_algorithm']['parameters']
+        if isinstance(params, Void):
+            raise ValueError('The key does not contain the EC parameters')
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
@@ -909,7 +912,11 @@ class PrivateKeyInfo(Sequence):
                 self.algorithm.upper()
             ))
 
-        byte_len = _byte_length(self['private_key_algorithm']['parameters']['q'].native)
+        params = self['private_key_algorithm']['parameters']
+        if isinstance(params, Void):
+            raise ValueError('The key does not contain the DSA parameters')
+
+        byte_len = _byte_length(params['q'].native)
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -935,9 +942,19 @@ class PrivateKeyInfo(Sequence):
             if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
                 prime = self['private_key'].parsed['modulus'].native
             elif self.algorithm == 'dsa':
-                prime = self['private_key_algorithm']['parameters']['p'].native
+                params = self['private_key_algorithm']['parameters']
+                if isinstance(params, Void):
+                    raise ValueError('The key does not contain the DSA parameters')
+                prime = params['p'].native
             elif self.algorithm == 'ec':
                 prime = self['private_key'].parsed['private_key'].native
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    The size of a key with the algorithm %s is not known
+                    ''',
+                    self.algorithm
+                ))
             self._bit_size = _byte_length(prime) * 8
         return self._bit_size
 
@@ -1181,7 +1198,7 @@ class PublicKeyInfo(Sequence):
         Returns information about the curve used for an EC key
 
         :raises:
-            ValueError - when the key is not an EC key
+            ValueError - when the key is not an EC key, or has no parameters
 
         :return:
             A two-element tuple, with the first element being a unicode string
@@ -1200,6 +1217,8 @@ class PublicKeyInfo(Sequence):
             ))
 
         params = self['algorithm']['parameters']
+        if isinstance(params, Void):
+            raise ValueError('The key does not contain the EC parameters')
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
@@ -1265,7 +1284,17 @@ class PublicKeyInfo(Sequence):
                 if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
                     prime = self['public_key'].parsed['modulus'].native
                 elif self.algorithm == 'dsa':
-                    prime = self['algorithm']['parameters']['p'].native
+                    params = self['algorithm']['parameters']
+                    if isinstance(params, Void):
+                        raise ValueError('The key does not contain the DSA parameters')
+                    prime = params['p'].native
+                else:
+                    raise ValueError(unwrap(
+                        '''
+                        The size of a key with the algorithm %s is not known
+                        ''',
+                        self.algorithm
+                    ))
                 self._bit_size = _byte_length(prime) * 8
 
         return self._bit_size
-- 
2.43.0


From 199b1c42c63c1f3e88b7b80dbf78fb60f9c1bda4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:39:34 +0000
Subject: [PATCH 56/84] fix: encode names set on values received in chunks in
 definite form

---
 asn1crypto/x509.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 4b879c3..79076e6 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -118,6 +118,9 @@ class DNSName(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -144,6 +147,9 @@ class URI(IA5String):
         self._unicode = value
         self.contents = iri_to_uri(value)
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -235,6 +241,9 @@ class EmailAddress(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -246,6 +255,8 @@ class EmailAddress(IA5String):
 
         # We've seen this in the wild as a PrintableString, and since ascii is a
         # subset of cp1252, we use the later for decoding to be more user friendly
+        if self.contents is None:
+            return ''
         if self._unicode is None:
             contents = self._merge_chunks()
             if contents.find(b'@') == -1:
@@ -371,6 +382,9 @@ class IPAddress(OctetString):
         self.contents = inet_pton(family, value) + cidr_bytes
         self._bytes = self.contents
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
-- 
2.43.0


From d077721bd9790afabcd10fbaeecd99dab3aba815 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:39:50 +0000
Subject: [PATCH 57/84] fix: do not misreport or corrupt IP address masks that
 are not prefixes

---
 asn1crypto/x509.py | 77 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 7 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 79076e6..fefc6bc 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -320,7 +320,9 @@ class IPAddress(OctetString):
 
         :param value:
             A unicode string containing an IPv4 address, IPv4 address with CIDR,
-            an IPv6 address or IPv6 address with CIDR
+            an IPv6 address or IPv6 address with CIDR. A netmask that is not
+            a run of leading bits may be given in place of the CIDR, in the
+            form of an address.
         """
 
         if not isinstance(value, str_cls):
@@ -336,10 +338,21 @@ class IPAddress(OctetString):
 
         has_cidr = value.find('/') != -1
         cidr = 0
+        mask = None
         if has_cidr:
             parts = value.split('/', 1)
             value = parts[0]
-            cidr = int(parts[1])
+            if parts[1].find('.') != -1 or parts[1].find(':') != -1:
+                mask = parts[1]
+            else:
+                if re.match('^-?[0-9]+\\Z', parts[1]) is None:
+                    raise ValueError(unwrap(
+                        '''
+                        %s value contains a CIDR range that is not a number
+                        ''',
+                        type_name(self)
+                    ))
+                cidr = int(parts[1])
             if cidr < 0:
                 raise ValueError(unwrap(
                     '''
@@ -372,14 +385,16 @@ class IPAddress(OctetString):
             cidr_size = 32
 
         cidr_bytes = b''
-        if has_cidr:
+        if mask is not None:
+            cidr_bytes = self._pack(family, mask)
+        elif has_cidr:
             cidr_mask = '1' * cidr
             cidr_mask += '0' * (cidr_size - len(cidr_mask))
             cidr_bytes = int_to_bytes(int(cidr_mask, 2))
             cidr_bytes = (b'\x00' * ((cidr_size // 8) - len(cidr_bytes))) + cidr_bytes
 
         self._native = original_value
-        self.contents = inet_pton(family, value) + cidr_bytes
+        self.contents = self._pack(family, value) + cidr_bytes
         self._bytes = self.contents
         self._header = None
         if self._indefinite:
@@ -388,6 +403,48 @@ class IPAddress(OctetString):
         if self._trailer != b'':
             self._trailer = b''
 
+    def _pack(self, family, value):
+        """
+        :param family:
+            socket.AF_INET or socket.AF_INET6
+
+        :param value:
+            A unicode string of an IP address
+
+        :return:
+            A byte string
+        """
+
+        try:
+            return inet_pton(family, value)
+        except (socket.error):
+            raise ValueError(unwrap(
+                '''
+                %s value contains an invalid IP address, %s
+                ''',
+                type_name(self),
+                repr(value)
+            ))
+
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # The contents are used instead of the native value, since there is no
+        # native value for contents that are not an address
+        if (force or self._indefinite) and self.contents is not None:
+            super(IPAddress, self).set(self.__bytes__())
+
+        return super(IPAddress, self).dump(force=False)
+
     @property
     def native(self):
         """
@@ -405,18 +462,24 @@ class IPAddress(OctetString):
             byte_len = len(byte_string)
             value = None
             cidr_int = None
+            family = None
             if byte_len in set([32, 16]):
+                family = socket.AF_INET6
                 value = inet_ntop(socket.AF_INET6, byte_string[0:16])
                 if byte_len > 16:
                     cidr_int = int_from_bytes(byte_string[16:])
             elif byte_len in set([8, 4]):
+                family = socket.AF_INET
                 value = inet_ntop(socket.AF_INET, byte_string[0:4])
                 if byte_len > 4:
                     cidr_int = int_from_bytes(byte_string[4:])
             if cidr_int is not None:
-                cidr_bits = '{0:b}'.format(cidr_int)
-                cidr = len(cidr_bits.rstrip('0'))
-                value = value + '/' + str_cls(cidr)
+                cidr_bits = '{0:b}'.format(cidr_int).rjust(byte_len * 4, '0')
+                prefix = cidr_bits.rstrip('0')
+                if prefix.find('0') == -1:
+                    value = value + '/' + str_cls(len(prefix))
+                else:
+                    value = value + '/' + inet_ntop(family, byte_string[byte_len // 2:])
             self._native = value
         return self._native
 
-- 
2.43.0


From 5458e87ca2b316a41b9a0f1ced1879f0603c3d2c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:44:48 +0000
Subject: [PATCH 58/84] fix: report no basic response or extensions for an OCSP
 response without one

---
 asn1crypto/ocsp.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 91c7fbf..a2ff5c6 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -28,6 +28,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    Void,
 )
 from .crl import AuthorityInfoAccessSyntax, CRLReason
 from .keys import PublicKeyAlgorithm
@@ -628,7 +629,8 @@ class OCSPResponse(Sequence):
 
         self._critical_extensions = set()
 
-        for extension in self['response_bytes']['response'].parsed['tbs_response_data']['response_extensions']:
+        response_data = self.response_data
+        for extension in response_data['response_extensions'] if response_data is not None else ():
             name = extension['extn_id'].native
             attribute_name = '_%s_value' % name
             if hasattr(self, attribute_name):
@@ -689,7 +691,14 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.BasicOCSPResponse object
         """
 
-        return self['response_bytes']['response'].parsed
+        response_bytes = self['response_bytes']
+        if isinstance(response_bytes, Void):
+            return None
+
+        response = response_bytes['response'].parsed
+        if not isinstance(response, BasicOCSPResponse):
+            return None
+        return response
 
     @property
     def response_data(self):
@@ -700,4 +709,7 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.ResponseData object
         """
 
-        return self['response_bytes']['response'].parsed['tbs_response_data']
+        response = self.basic_ocsp_response
+        if response is None:
+            return None
+        return response['tbs_response_data']
-- 
2.43.0


From 33bb8521d151bd8452d39eb912a1b167d5853731 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:44:50 +0000
Subject: [PATCH 59/84] fix: raise ValueError for compressed data that can not
 be decompressed

---
 asn1crypto/cms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index 20ddac7..361ef5c 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -26,6 +26,7 @@ try:
 except (ImportError):
     zlib = None
 
+from ._types import byte_cls
 from .algos import (
     _ForceNullParameters,
     DigestAlgorithm,
@@ -935,7 +936,13 @@ class CompressedData(Sequence):
         if self._decompressed is None:
             if zlib is None:
                 raise SystemError('The zlib module is not available')
-            self._decompressed = zlib.decompress(self['encap_content_info']['content'].native)
+            content = self['encap_content_info']['content'].native
+            if not isinstance(content, byte_cls):
+                raise ValueError('The compressed data does not contain a byte string')
+            try:
+                self._decompressed = zlib.decompress(content)
+            except (zlib.error) as e:
+                raise ValueError('The compressed data is invalid - %s' % e)
         return self._decompressed
 
 
-- 
2.43.0


From 6f275a16fb888c602bfad5cfb312659f40430fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:55 +0000
Subject: [PATCH 60/84] fix: keep a value whose forced encoding fails as it was

---
 asn1crypto/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 3aefa6c..079774d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1846,8 +1846,14 @@ class Primitive(Asn1Value):
 
         if force:
             native = self.native
+            contents = self.contents
             self.contents = None
-            self.set(native)
+            try:
+                self.set(native)
+            except (ValueError, TypeError):
+                # A value that can not be encoded is left as it was
+                self.contents = contents
+                raise
 
         return Asn1Value.dump(self)
 
-- 
2.43.0


From b46fbc1d7428d47658b89b866ecc1a5071a08ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:57 +0000
Subject: [PATCH 61/84] fix: read the authenticated safe of a signed PKCS#12
 file

---
 asn1crypto/pkcs12.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index 7ebcefe..b9230a3 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -14,6 +14,7 @@ Other type classes are defined that help compose the types listed above.
 
 from __future__ import unicode_literals, division, absolute_import, print_function
 
+from ._types import byte_cls
 from .algos import DigestInfo
 from .cms import ContentInfo, SignedData
 from .core import (
@@ -115,8 +116,11 @@ class Pfx(Sequence):
         if self._authenticated_safe is None:
             content = self['auth_safe']['content']
             if isinstance(content, SignedData):
-                content = content['content_info']['content']
-            self._authenticated_safe = AuthenticatedSafe.load(content.native)
+                content = content['encap_content_info']['content']
+            content = content.native
+            if not isinstance(content, byte_cls):
+                raise ValueError('The auth_safe does not contain a byte string')
+            self._authenticated_safe = AuthenticatedSafe.load(content)
         return self._authenticated_safe
 
 
-- 
2.43.0


From 7ef147cd2d516ee999f5534a164ceba6611a608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:10 +0000
Subject: [PATCH 62/84] fix: make copies independent of the original and keep
 the spec of their children

---
 asn1crypto/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 079774d..f563405 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1636,7 +1636,9 @@ class Concat(object):
                 type_name(self)
             ))
 
-        self._children = copy_func(other._children)
+        if other._children is not None:
+            # The children are never shared, not even by a shallow copy
+            self._children = [copy_func(child) for child in other._children]
 
     def debug(self, nest_level=1):
         """
@@ -3034,7 +3036,9 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
         super(ParsableOctetString, self)._copy(other, copy_func)
         self._bytes = other._bytes
-        self._parsed = copy_func(other._parsed)
+        if other._parsed is not None:
+            # The parsed value is never shared, not even by a shallow copy
+            self._parsed = (copy_func(other._parsed[0]), ) + other._parsed[1:]
 
     @property
     def native(self):
@@ -4379,6 +4383,8 @@ class Sequence(Asn1Value):
         """
 
         super(Sequence, self)._copy(other, copy_func)
+        # The native value of the copy has to follow changes to its own children
+        self._native = None
         if self.children is not None:
             self.children = []
             for child in other.children:
@@ -4874,6 +4880,9 @@ class SequenceOf(Asn1Value):
         """
 
         super(SequenceOf, self)._copy(other, copy_func)
+        self._child_spec = other._child_spec
+        # The native value of the copy has to follow changes to its own children
+        self._native = None
         if self.children is not None:
             self.children = []
             for child in other.children:
-- 
2.43.0


From 6244264741ac7ca8082436863d02f1bca31690d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:12 +0000
Subject: [PATCH 63/84] fix: keep the implicit tag when casting a value

---
 asn1crypto/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f563405..f4279ba 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -736,6 +736,7 @@ class Castable(object):
 
         new_obj = other_class()
         new_obj.class_ = self.class_
+        new_obj.tag = self.tag
         new_obj.implicit = self.implicit
         new_obj.explicit = self.explicit
         new_obj._header = self._header
-- 
2.43.0


From deb96587698337537eaec737f91ddb2a5838c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:14 +0000
Subject: [PATCH 64/84] fix: keep the tagging and child spec of pickled values

---
 asn1crypto/core.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f4279ba..fbb2ce7 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -166,13 +166,13 @@ def load(encoded_data, strict=False):
     return Asn1Value.load(encoded_data, strict=strict)
 
 
-def unpickle_helper(asn1crypto_cls, der_bytes):
+def unpickle_helper(asn1crypto_cls, der_bytes, params=None):
     """
     Helper function to integrate with pickle.
 
     Note that this must be an importable top-level function.
     """
-    return asn1crypto_cls.load(der_bytes)
+    return asn1crypto_cls.load(der_bytes, **(params or {}))
 
 
 class Asn1Value(object):
@@ -499,7 +499,26 @@ class Asn1Value(object):
         """
         Permits pickling Asn1Value objects using their DER representation.
         """
-        return unpickle_helper, (self.__class__, self.dump())
+        params = self._pickle_params()
+        if not params:
+            return unpickle_helper, (self.__class__, self.dump())
+        return unpickle_helper, (self.__class__, self.dump(), params)
+
+    def _pickle_params(self):
+        """
+        :return:
+            A dict of the params, beyond what the class specifies, that are
+            needed to load the DER representation of this object
+        """
+
+        cls = self.__class__
+        params = {}
+        explicit = (self.explicit or ())[len(cls.explicit or ()):]
+        if explicit:
+            params['explicit'] = explicit
+        if self.implicit and (self.class_, self.tag) != (cls.class_, cls.tag):
+            params['implicit'] = (CLASS_NUM_TO_NAME_MAP[self.class_], self.tag)
+        return params
 
     def _new_instance(self):
         """
@@ -4868,6 +4887,18 @@ class SequenceOf(Asn1Value):
                 raise e
         return self._native
 
+    def _pickle_params(self):
+        """
+        :return:
+            A dict of the params, beyond what the class specifies, that are
+            needed to load the DER representation of this object
+        """
+
+        params = super(SequenceOf, self)._pickle_params()
+        if self._child_spec is not self.__class__._child_spec:
+            params['spec'] = self._child_spec
+        return params
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another SequenceOf object to itself
-- 
2.43.0


From 9643dccabe328de2699c9b87c833322feca1aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:13 +0000
Subject: [PATCH 65/84] fix: refuse PEM blocks that are cut off or run into the
 next one

---
 asn1crypto/pem.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/asn1crypto/pem.py b/asn1crypto/pem.py
index 2d18f3c..b87518a 100644
--- a/asn1crypto/pem.py
+++ b/asn1crypto/pem.py
@@ -171,6 +171,15 @@ def _unarmor(pem_bytes):
 
         if state == 'body':
             if line[0:5] in (b'-----', b'---- '):
+                if not re.match(b'^(?:---- |-----)END ([A-Z0-9 ]+)(?: ----|-----)', line):
+                    raise ValueError(unwrap(
+                        '''
+                        pem_bytes contains a %s block that is not followed by
+                        an END line
+                        ''',
+                        object_type
+                    ))
+
                 # Python 2.6's binascii does not accept bytearray objects,
                 # so convert to a string before decoding on that version.
                 if sys.version_info < (2, 7):
@@ -188,6 +197,14 @@ def _unarmor(pem_bytes):
 
             base64_data += line
 
+    if found_end and state != 'trash':
+        raise ValueError(unwrap(
+            '''
+            pem_bytes ends within a %s block
+            ''',
+            object_type
+        ))
+
     if not found_start or not found_end:
         raise ValueError(unwrap(
             '''
-- 
2.43.0


From 1c22c196af43dc4a0f9bfd7242815430f6b89f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:50 +0000
Subject: [PATCH 66/84] fix: read exactly the legal textual forms of IP
 addresses in the fallback conversion

---
 asn1crypto/_inet.py | 115 ++++++++++++++++++++++++++++----------------
 1 file changed, 74 insertions(+), 41 deletions(-)

diff --git a/asn1crypto/_inet.py b/asn1crypto/_inet.py
index 045ba56..78e14bf 100644
--- a/asn1crypto/_inet.py
+++ b/asn1crypto/_inet.py
@@ -1,6 +1,7 @@
 # coding: utf-8
 from __future__ import unicode_literals, division, absolute_import, print_function
 
+import re
 import socket
 import struct
 
@@ -115,18 +116,9 @@ def inet_pton(address_family, ip_string):
         ))
 
     if address_family == socket.AF_INET:
-        octets = ip_string.split('.')
-        error = len(octets) != 4
-        if not error:
-            ints = []
-            for o in octets:
-                o = int(o)
-                if o > 255 or o < 0:
-                    error = True
-                    break
-                ints.append(o)
-
-        if error:
+        ints = _parse_ipv4(ip_string)
+
+        if ints is None:
             raise ValueError(unwrap(
                 '''
                 ip_string must be a dotted string with four integers in the
@@ -137,34 +129,75 @@ def inet_pton(address_family, ip_string):
 
         return struct.pack(b'!BBBB', *ints)
 
-    error = False
-    omitted = ip_string.count('::')
-    if omitted > 1:
-        error = True
-    elif omitted == 0:
-        octets = ip_string.split(':')
-        error = len(octets) != 8
-    else:
-        begin, end = ip_string.split('::')
-        begin_octets = begin.split(':')
-        end_octets = end.split(':')
-        missing = 8 - len(begin_octets) - len(end_octets)
-        octets = begin_octets + (['0'] * missing) + end_octets
-
-    if not error:
+    ints = _parse_ipv6(ip_string)
+
+    if ints is None:
+        raise ValueError(unwrap(
+            '''
+            ip_string must be a valid ipv6 string, got %s
+            ''',
+            repr(ip_string)
+        ))
+
+    return struct.pack(b'!HHHHHHHH', *ints)
+
+
+def _parse_ipv4(ip_string):
+    """
+    :param ip_string:
+        A unicode string of an IPv4 address
+
+    :return:
+        A list of four integers, or None if the string is not a valid address
+    """
+
+    octets = ip_string.split('.')
+    if len(octets) != 4:
+        return None
+
+    ints = []
+    for o in octets:
+        if not re.match('(?:0|[1-9][0-9]{0,2})\\Z', o) or int(o) > 255:
+            return None
+        ints.append(int(o))
+    return ints
+
+
+def _parse_ipv6(ip_string):
+    """
+    :param ip_string:
+        A unicode string of an IPv6 address
+
+    :return:
+        A list of eight integers, or None if the string is not a valid address
+    """
+
+    sections = ip_string.split('::')
+    if len(sections) > 2:
+        return None
+
+    parsed = []
+    for index, section in enumerate(sections):
         ints = []
+        octets = section.split(':') if section else []
         for o in octets:
-            o = int(o, 16)
-            if o > 65535 or o < 0:
-                error = True
-                break
-            ints.append(o)
-
-        return struct.pack(b'!HHHHHHHH', *ints)
-
-    raise ValueError(unwrap(
-        '''
-        ip_string must be a valid ipv6 string, got %s
-        ''',
-        repr(ip_string)
-    ))
+            if re.match('[0-9A-Fa-f]{1,4}\\Z', o):
+                ints.append(int(o, 16))
+                continue
+
+            # The last 32 bits may be in the form of an IPv4 address
+            if index != len(sections) - 1 or len(ints) != len(octets) - 1:
+                return None
+            ipv4 = _parse_ipv4(o)
+            if ipv4 is None:
+                return None
+            ints.extend([ipv4[0] * 256 + ipv4[1], ipv4[2] * 256 + ipv4[3]])
+        parsed.append(ints)
+
+    if len(parsed) == 1:
+        return parsed[0] if len(parsed[0]) == 8 else None
+
+    missing = 8 - len(parsed[0]) - len(parsed[1])
+    if missing < 1:
+        return None
+    return parsed[0] + ([0] * missing) + parsed[1]
-- 
2.43.0


From 7e171c97af71d97c660b5a8cda9b6d094ca0301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:43 +0000
Subject: [PATCH 67/84] fix: convert IRIs and URIs without changing what they
 refer to

---
 asn1crypto/_iri.py | 200 ++++++++++++++++++++++++++-------------------
 1 file changed, 118 insertions(+), 82 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 7394b4d..05d6077 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -16,10 +16,10 @@ import re
 import sys
 
 from ._errors import unwrap
-from ._types import byte_cls, str_cls, type_name, bytes_to_list, int_types
+from ._types import byte_cls, str_cls, type_name, bytes_to_list, chr_cls, int_types
 
 if sys.version_info < (3,):
-    from urlparse import urlsplit, urlunsplit
+    from urlparse import urlsplit
     from urllib import (
         quote as urlquote,
         unquote as unquote_to_bytes,
@@ -30,7 +30,6 @@ else:
         quote as urlquote,
         unquote_to_bytes,
         urlsplit,
-        urlunsplit,
     )
 
 
@@ -75,7 +74,10 @@ def iri_to_uri(value, normalize=False):
         scheme = _urlquote(parsed.scheme)
     hostname = parsed.hostname
     if hostname is not None:
-        hostname = hostname.encode('idna')
+        if _is_bracketed(parsed.netloc):
+            hostname = ('[%s]' % hostname).encode('ascii')
+        else:
+            hostname = hostname.encode('idna')
     # RFC 3986 allows userinfo to contain sub-delims
     username = _urlquote(parsed.username, safe='!$&\'()*+,;=')
     password = _urlquote(parsed.password, safe='!$&\'()*+,;=')
@@ -84,8 +86,8 @@ def iri_to_uri(value, normalize=False):
         port = str_cls(port).encode('ascii')
 
     netloc = b''
-    if username is not None:
-        netloc += username
+    if parsed.username is not None:
+        netloc += username or b''
         if password:
             netloc += b':' + password
         netloc += b'@'
@@ -107,13 +109,19 @@ def iri_to_uri(value, normalize=False):
     if normalize and query is None and fragment is None and path == b'/':
         path = None
 
-    # Python 2.7 compat
-    if path is None:
-        path = ''
-
-    output = urlunsplit((scheme, netloc, path, query, fragment))
-    if isinstance(output, str_cls):
-        output = output.encode('latin1')
+    output = b''
+    if scheme:
+        output += scheme + b':'
+    # urlunsplit() is not used since it drops an empty authority, as in
+    # ldap:///CN=Root, for the schemes it does not know about
+    if netloc or _has_authority(value):
+        output += b'//' + netloc
+    if path:
+        output += path
+    if query:
+        output += b'?' + query
+    if fragment:
+        output += b'#' + fragment
     return output
 
 
@@ -142,11 +150,14 @@ def uri_to_iri(value):
     if scheme is not None:
         scheme = scheme.decode('ascii')
 
-    username = _urlunquote(parsed.username, remap=[':', '@'])
-    password = _urlunquote(parsed.password, remap=[':', '@'])
+    username = _urlunquote(parsed.username)
+    password = _urlunquote(parsed.password)
     hostname = parsed.hostname
     if hostname:
-        hostname = hostname.decode('idna')
+        if _is_bracketed(parsed.netloc.decode('ascii')):
+            hostname = '[%s]' % hostname.decode('ascii')
+        else:
+            hostname = hostname.decode('idna')
     port = parsed.port
     if port and not isinstance(port, int_types):
         port = port.decode('ascii')
@@ -162,11 +173,45 @@ def uri_to_iri(value):
     if port is not None:
         netloc += ':' + str_cls(port)
 
-    path = _urlunquote(parsed.path, remap=['/'], preserve=True)
-    query = _urlunquote(parsed.query, remap=['&', '='], preserve=True)
+    path = _urlunquote(parsed.path)
+    query = _urlunquote(parsed.query)
     fragment = _urlunquote(parsed.fragment)
 
-    return urlunsplit((scheme, netloc, path, query, fragment))
+    output = ''
+    if scheme:
+        output += scheme + ':'
+    if netloc or _has_authority(value.decode('ascii')):
+        output += '//' + netloc
+    output += path
+    if query:
+        output += '?' + query
+    if fragment:
+        output += '#' + fragment
+    return output
+
+
+def _has_authority(value):
+    """
+    :param value:
+        A unicode string of an IRI or URI
+
+    :return:
+        A bool - if there is an authority, which may be empty
+    """
+
+    return re.match('[\x00-\x20]*([a-zA-Z][a-zA-Z0-9+.-]*:)?//', value) is not None
+
+
+def _is_bracketed(netloc):
+    """
+    :param netloc:
+        A unicode string of the authority of an IRI or URI
+
+    :return:
+        A bool - if the host is an IPv6 (or later) address in brackets
+    """
+
+    return netloc.rpartition('@')[2].startswith('[')
 
 
 def _iri_utf8_errors_handler(exc):
@@ -207,85 +252,76 @@ def _urlquote(string, safe=''):
     if string is None or string == '':
         return None
 
-    # Anything already hex quoted is pulled out of the URL and unquoted if
-    # possible
-    escapes = []
-    if re.search('%[0-9a-fA-F]{2}', string):
-        # Try to unquote any percent values, restoring them if they are not
-        # valid UTF-8. Also, requote any safe chars since encoded versions of
-        # those are functionally different than the unquoted ones.
-        def _try_unescape(match):
-            byte_string = unquote_to_bytes(match.group(0))
-            unicode_string = byte_string.decode('utf-8', 'iriutf8')
-            for safe_char in list(safe):
-                unicode_string = unicode_string.replace(safe_char, '%%%02x' % ord(safe_char))
-            return unicode_string
-        string = re.sub('(?:%[0-9a-fA-F]{2})+', _try_unescape, string)
-
-        # Once we have the minimal set of hex quoted values, removed them from
-        # the string so that they are not double quoted
-        def _extract_escape(match):
-            escapes.append(match.group(0).encode('ascii'))
-            return '\x00'
-        string = re.sub('%[0-9a-fA-F]{2}', _extract_escape, string)
-
-    output = urlquote(string.encode('utf-8'), safe=safe.encode('utf-8'))
-    if not isinstance(output, byte_cls):
-        output = output.encode('ascii')
-
-    # Restore the existing quoted values that we extracted
-    if len(escapes) > 0:
-        def _return_escape(_):
-            return escapes.pop(0)
-        output = re.sub(b'%00', _return_escape, output)
+    # A percent sign that does not quote anything
+    string = re.sub('%(?![0-9a-fA-F]{2})', '%25', string)
+
+    # Anything already hex quoted is unquoted if possible, apart from the
+    # characters that mean something else when they are not quoted
+    keep = set(ord(char) for char in '%' + safe)
+
+    def _try_unescape(match):
+        return _unquote_octets(match.group(0), keep)
+
+    string = re.sub('(?:%[0-9a-fA-F]{2})+', _try_unescape, string)
+
+    # Once we have the minimal set of hex quoted values, they are left alone so
+    # that they are not double quoted
+    output = b''
+    for index, part in enumerate(re.split('(%[0-9a-fA-F]{2})', string)):
+        part = part.encode('utf-8')
+        if index % 2 == 0:
+            part = urlquote(part, safe=safe.encode('utf-8'))
+            if not isinstance(part, byte_cls):
+                part = part.encode('ascii')
+        output += part
 
     return output
 
 
-def _urlunquote(byte_string, remap=None, preserve=None):
+def _unquote_octets(string, keep):
     """
-    Unquotes a URI portion from a byte string into unicode using UTF-8
-
-    :param byte_string:
-        A byte string of the data to unquote
+    Unquotes a run of %XX values using UTF-8
 
-    :param remap:
-        A list of characters (as unicode) that should be re-mapped to a
-        %XX encoding. This is used when characters are not valid in part of a
-        URL.
+    :param string:
+        A unicode string consisting of %XX values only
 
-    :param preserve:
-        A bool - indicates that the chars to be remapped if they occur in
-        non-hex form, should be preserved. E.g. / for URL path.
+    :param keep:
+        A set of integers of the octets to leave in %XX format
 
     :return:
         A unicode string
     """
 
-    if byte_string is None:
-        return byte_string
+    output = b''
+    for num in bytes_to_list(unquote_to_bytes(string)):
+        if num in keep:
+            output += ('%%%02x' % num).encode('ascii')
+        else:
+            output += chr_cls(num)
+    return output.decode('utf-8', 'iriutf8')
 
-    if byte_string == b'':
-        return ''
 
-    if preserve:
-        replacements = ['\x1A', '\x1C', '\x1D', '\x1E', '\x1F']
-        preserve_unmap = {}
-        for char in remap:
-            replacement = replacements.pop(0)
-            preserve_unmap[replacement] = char
-            byte_string = byte_string.replace(char.encode('ascii'), replacement.encode('ascii'))
+# The octets which mean something else when they are not in %XX format, along
+# with the control characters, which are not allowed in an IRI
+_RESERVED = set(ord(char) for char in '%:/?#[]@!$&\'()*+,;=') | set(range(0, 32)) | set([127])
 
-    byte_string = unquote_to_bytes(byte_string)
 
-    if remap:
-        for char in remap:
-            byte_string = byte_string.replace(char.encode('ascii'), ('%%%02x' % ord(char)).encode('ascii'))
+def _urlunquote(byte_string):
+    """
+    Unquotes a URI portion from a byte string into unicode using UTF-8
 
-    output = byte_string.decode('utf-8', 'iriutf8')
+    :param byte_string:
+        A byte string of the data to unquote
+
+    :return:
+        A unicode string
+    """
 
-    if preserve:
-        for replacement, original in preserve_unmap.items():
-            output = output.replace(replacement, original)
+    if byte_string is None:
+        return byte_string
 
-    return output
+    def _unescape(match):
+        return _unquote_octets(match.group(0), _RESERVED)
+
+    string = re.sub('%(?![0-9a-fA-F]{2})', '%25', byte_string.decode('ascii'))
+    return re.sub('(?:%[0-9a-fA-F]{2})+', _unescape, string)
-- 
2.43.0


From a5bbc129689a5492b255e2228041f8ea300cee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 68/84] fix: compare DNS names and e-mail addresses in their
 encoded form

---
 asn1crypto/x509.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index fefc6bc..eb3b8b2 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -91,7 +91,12 @@ class DNSName(IA5String):
         if not isinstance(other, DNSName):
             return False
 
-        return self.__unicode__().lower() == other.__unicode__().lower()
+        # Both are compared in the form they are encoded, since different unicode
+        # strings may stand for the same name
+        if self.contents is None or other.contents is None:
+            return self.contents == other.contents
+
+        return self._merge_chunks().lower() == other._merge_chunks().lower()
 
     def set(self, value):
         """
@@ -283,9 +288,13 @@ class EmailAddress(IA5String):
         if not isinstance(other, EmailAddress):
             return False
 
-        # The values being compared are not changed by normalizing them
-        contents = EmailAddress(self.native)._contents
-        other_contents = EmailAddress(other.native)._contents
+        if self.contents is None or other.contents is None:
+            return self.contents == other.contents
+
+        # Both are compared in the form they are encoded, in which the hostname
+        # has been normalized
+        contents = self._merge_chunks()
+        other_contents = other._merge_chunks()
 
         if contents.find(b'@') == -1 or other_contents.find(b'@') == -1:
             return contents == other_contents
-- 
2.43.0


From 5fd240338c9c025d2aa8bd5f45ca230126cc7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:13 +0000
Subject: [PATCH 69/84] fix: compare names with octets that are not defined in
 Windows-1252

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index eb3b8b2..f143d63 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -799,7 +799,7 @@ class NameTypeAndValue(Sequence):
             if isinstance(native, str_cls):
                 prepped = self._ldap_string_prep(native)
             elif isinstance(native, byte_cls):
-                prepped = ' ' + native.decode('cp1252') + ' '
+                prepped = ' ' + native.decode('latin1') + ' '
             else:
                 prepped = native
             self._prepped = (native, prepped)
-- 
2.43.0


From 50cb0ef9d2bfae41037bc67c2644bfad44c729f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:48 +0000
Subject: [PATCH 70/84] fix: match IPv6 addresses that have an IPv4 address
 embedded

---
 asn1crypto/x509.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index f143d63..914c7fe 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2990,13 +2990,18 @@ class Certificate(Sequence):
             return False
 
         family = socket.AF_INET if is_ipv4 else socket.AF_INET6
-        normalized_ip = inet_pton(family, encoded_domain_ip)
+        try:
+            normalized_ip = inet_pton(family, encoded_domain_ip)
+        except (socket.error, ValueError):
+            # Not an IP address, and thus nothing can match it
+            return False
 
         for valid_ip in self.valid_ips:
             # Networks and values of an invalid length are not an IP address
             if valid_ip is None or valid_ip.find('/') != -1:
                 continue
-            valid_family = socket.AF_INET if valid_ip.find('.') != -1 else socket.AF_INET6
+            # An IPv6 address may have an IPv4 address embedded in it
+            valid_family = socket.AF_INET6 if valid_ip.find(':') != -1 else socket.AF_INET
             normalized_valid_ip = inet_pton(valid_family, valid_ip)
 
             if normalized_valid_ip == normalized_ip:
-- 
2.43.0


From 67685e9b4168911c18a4a3c2d18f3bcace8f074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:38 +0000
Subject: [PATCH 71/84] fix: leave labels that are not valid A-labels as they
 are when decoding hostnames

---
 asn1crypto/_iri.py | 25 ++++++++++++++++++++++++-
 asn1crypto/x509.py | 16 ++++++++++++++--
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 05d6077..0e00a7c 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -6,6 +6,7 @@ the following items:
 
  - iri_to_uri()
  - uri_to_iri()
+ - decode_hostname()
 """
 
 from __future__ import unicode_literals, division, absolute_import, print_function
@@ -157,7 +158,7 @@ def uri_to_iri(value):
         if _is_bracketed(parsed.netloc.decode('ascii')):
             hostname = '[%s]' % hostname.decode('ascii')
         else:
-            hostname = hostname.decode('idna')
+            hostname = decode_hostname(hostname)
     port = parsed.port
     if port and not isinstance(port, int_types):
         port = port.decode('ascii')
@@ -190,6 +191,28 @@ def uri_to_iri(value):
     return output
 
 
+def decode_hostname(value):
+    """
+    Decodes the labels of a hostname that are an A-label. As specified for the
+    ToUnicode operation of IDNA, this does not fail - a label that is not valid
+    is left as it is.
+
+    :param value:
+        An ASCII-encoded byte string of the hostname
+
+    :return:
+        A unicode string
+    """
+
+    labels = []
+    for label in value.split(b'.'):
+        try:
+            labels.append(label.decode('idna'))
+        except (UnicodeError):
+            labels.append(label.decode('ascii'))
+    return '.'.join(labels)
+
+
 def _has_authority(value):
     """
     :param value:
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 914c7fe..5d7b0ee 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -25,7 +25,7 @@ import sys
 import unicodedata
 
 from ._errors import unwrap
-from ._iri import iri_to_uri, uri_to_iri
+from ._iri import decode_hostname, iri_to_uri, uri_to_iri
 from ._ordereddict import OrderedDict
 from ._types import type_name, str_cls, byte_cls, bytes_to_list
 from .algos import AlgorithmIdentifier, AnyAlgorithmIdentifier, DigestAlgorithm, SignedDigestAlgorithm
@@ -129,6 +129,18 @@ class DNSName(IA5String):
         if self._trailer != b'':
             self._trailer = b''
 
+    def __unicode__(self):
+        """
+        :return:
+            A unicode string
+        """
+
+        if self.contents is None:
+            return ''
+        if self._unicode is None:
+            self._unicode = decode_hostname(self._merge_chunks())
+        return self._unicode
+
 
 class URI(IA5String):
 
@@ -268,7 +280,7 @@ class EmailAddress(IA5String):
                 self._unicode = contents.decode('cp1252')
             else:
                 mailbox, hostname = contents.rsplit(b'@', 1)
-                self._unicode = mailbox.decode('cp1252') + '@' + hostname.decode('idna')
+                self._unicode = mailbox.decode('cp1252') + '@' + decode_hostname(hostname)
         return self._unicode
 
     def __ne__(self, other):
-- 
2.43.0


From c786e7b256bea94bde916d705fb145b63934a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:54 +0000
Subject: [PATCH 72/84] fix: refuse uncompressed EC points with coordinates of
 different lengths

---
 asn1crypto/keys.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 6bcaf03..be34888 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -186,6 +186,13 @@ class _ECPoint():
         # Uncompressed
         if first_byte == b'\x04':
             remaining = data[1:]
+            if not remaining or len(remaining) % 2:
+                raise ValueError(unwrap(
+                    '''
+                    Invalid EC public key - the coordinates are not of the
+                    same length
+                    '''
+                ))
             field_len = len(remaining) // 2
             x = int_from_bytes(remaining[0:field_len])
             y = int_from_bytes(remaining[field_len:])
-- 
2.43.0


From 425670dd52963bea304763e65b0788c6a24662a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:55 +0000
Subject: [PATCH 73/84] fix: keep the encoded width of EC private keys when
 they are changed

---
 asn1crypto/core.py | 15 +++++++++++++--
 asn1crypto/keys.py | 42 +++++++++++++++++++++++++++++++++++-------
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fbb2ce7..19161cd 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2855,8 +2855,19 @@ class IntegerOctetString(Constructable, Castable, Primitive):
                 value
             ))
 
+        try:
+            contents = int_to_bytes(value, signed=False, width=self._encoded_width)
+        except OverflowError:
+            raise ValueError(unwrap(
+                '''
+                %s value can not be encoded in %d bytes
+                ''',
+                type_name(self),
+                self._encoded_width
+            ))
+
         self._native = value
-        self.contents = int_to_bytes(value, signed=False, width=self._encoded_width)
+        self.contents = contents
         self._header = None
         if self._indefinite:
             self._indefinite = False
@@ -2890,7 +2901,7 @@ class IntegerOctetString(Constructable, Castable, Primitive):
 
         self._encoded_width = width
         # Make sure the encoded value is up-to-date with the proper width
-        if self.contents is not None and len(self.contents) != width:
+        if self.contents is not None and (self._indefinite or len(self.contents) != width):
             self.set(self.native)
 
 
diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index be34888..9f80e87 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -595,17 +595,33 @@ class ECPrivateKey(Sequence):
 
     # This is necessary to ensure the private_key IntegerOctetString is encoded properly
     def __setitem__(self, key, value):
+        existing_size = None
+        existing = self['private_key'] if key == 'private_key' else None
+        if key == 'private_key' and self._key_size is None:
+            # Infer the key_size from the parameters, or otherwise from the
+            # existing private key, if possible
+            parameters = self['parameters']
+            if isinstance(parameters, ECDomainParameters):
+                try:
+                    self._key_size = parameters.key_size
+                except ValueError:
+                    # The curve is implicit, or not one that is known
+                    pass
+            if self._key_size is None:
+                existing_size = self._private_key_size()
+
         res = super(ECPrivateKey, self).__setitem__(key, value)
 
         if key == 'private_key':
-            if self._key_size is None:
-                # Infer the key_size from the existing private key if possible
-                pkey_contents = self['private_key'].contents
-                if isinstance(pkey_contents, byte_cls) and len(pkey_contents) > 1:
-                    self.set_key_size(len(self['private_key'].contents))
-
-            elif self._key_size is not None:
+            if existing_size is not None and existing_size > self._private_key_size():
+                self['private_key'].set_encoded_width(existing_size)
+            try:
                 self._update_key_size()
+            except ValueError:
+                # The value does not fit the curve, so the key is left as it was
+                if isinstance(existing, IntegerOctetString):
+                    super(ECPrivateKey, self).__setitem__(key, existing)
+                raise
 
         elif key == 'parameters' and isinstance(self['parameters'], ECDomainParameters) and \
                 self['parameters'].name != 'implicit_ca':
@@ -631,6 +647,18 @@ class ECPrivateKey(Sequence):
 
         if self._key_size is not None and isinstance(self['private_key'], IntegerOctetString):
             self['private_key'].set_encoded_width(self._key_size)
+            self._mutated = True
+
+    def _private_key_size(self):
+        """
+        :return:
+            An integer byte length that the private_key is encoded to
+        """
+
+        private_key = self['private_key']
+        if not isinstance(private_key, IntegerOctetString) or private_key.contents is None:
+            return 0
+        return len(private_key._merge_chunks())
 
 
 class DSAParams(Sequence):
-- 
2.43.0


From f2f53b6b7dc08758793af7015ae95173fe9b35fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:57 +0000
Subject: [PATCH 74/84] fix: report the size of EC keys from the curve, and of
 OAEP and DH keys

---
 asn1crypto/keys.py | 80 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 15 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 9f80e87..52eec15 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -213,6 +213,31 @@ class _ECPoint():
         ))
 
 
+    def _coord_size(self):
+        """
+        :return:
+            The integer number of bytes each coordinate is encoded to
+        """
+
+        data = self.native
+        first_byte = data[0:1]
+        coords_len = len(data) - 1
+
+        # Compressed
+        if coords_len > 0 and first_byte in set([b'\x02', b'\x03']):
+            return coords_len
+
+        # Uncompressed and hybrid
+        if coords_len > 0 and coords_len % 2 == 0 and first_byte in set([b'\x04', b'\x06', b'\x07']):
+            return coords_len // 2
+
+        raise ValueError(unwrap(
+            '''
+            Invalid EC public key - the length or the first byte is incorrect
+            '''
+        ))
+
+
 class ECPoint(OctetString, _ECPoint):
 
     pass
@@ -567,6 +592,25 @@ class ECDomainParameters(Choice):
         return NamedCurve._key_sizes[oid]
 
 
+def _known_key_size(parameters):
+    """
+    :param parameters:
+        An ECDomainParameters object, or Void
+
+    :return:
+        The integer byte size of the private keys of the curve, or None if the
+        parameters do not define it
+    """
+
+    if not isinstance(parameters, ECDomainParameters):
+        return None
+    try:
+        return parameters.key_size
+    except ValueError:
+        # The curve is implicit, or not one that is known
+        return None
+
+
 class ECPrivateKeyVersion(Integer):
     """
     Original Name: None
@@ -600,13 +644,7 @@ class ECPrivateKey(Sequence):
         if key == 'private_key' and self._key_size is None:
             # Infer the key_size from the parameters, or otherwise from the
             # existing private key, if possible
-            parameters = self['parameters']
-            if isinstance(parameters, ECDomainParameters):
-                try:
-                    self._key_size = parameters.key_size
-                except ValueError:
-                    # The curve is implicit, or not one that is known
-                    pass
+            self._key_size = _known_key_size(self['parameters'])
             if self._key_size is None:
                 existing_size = self._private_key_size()
 
@@ -649,6 +687,15 @@ class ECPrivateKey(Sequence):
             self['private_key'].set_encoded_width(self._key_size)
             self._mutated = True
 
+    def _infer_key_size(self):
+        """
+        :return:
+            The integer byte size of the curve, as known from the parameters,
+            or the encoded private key
+        """
+
+        return _known_key_size(self['parameters']) or self._private_key_size()
+
     def _private_key_size(self):
         """
         :return:
@@ -975,14 +1022,17 @@ class PrivateKeyInfo(Sequence):
 
         if self._bit_size is None:
             if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
-                prime = self['private_key'].parsed['modulus'].native
+                byte_size = _byte_length(self['private_key'].parsed['modulus'].native)
             elif self.algorithm == 'dsa':
                 params = self['private_key_algorithm']['parameters']
                 if isinstance(params, Void):
                     raise ValueError('The key does not contain the DSA parameters')
-                prime = params['p'].native
+                byte_size = _byte_length(params['p'].native)
             elif self.algorithm == 'ec':
-                prime = self['private_key'].parsed['private_key'].native
+                # The number itself may be shorter than the curve
+                byte_size = _known_key_size(self['private_key_algorithm']['parameters'])
+                if byte_size is None:
+                    byte_size = self['private_key'].parsed._infer_key_size()
             else:
                 raise ValueError(unwrap(
                     '''
@@ -990,7 +1040,7 @@ class PrivateKeyInfo(Sequence):
                     ''',
                     self.algorithm
                 ))
-            self._bit_size = _byte_length(prime) * 8
+            self._bit_size = byte_size * 8
         return self._bit_size
 
     @property
@@ -1314,14 +1364,14 @@ class PublicKeyInfo(Sequence):
 
         if self._bit_size is None:
             if self.algorithm == 'ec':
-                self._bit_size = int(((len(self['public_key'].native) - 1) / 2) * 8)
+                self._bit_size = self['public_key']._coord_size() * 8
             else:
-                if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
+                if self.algorithm in set(['rsa', 'rsaes_oaep', 'rsassa_pss']):
                     prime = self['public_key'].parsed['modulus'].native
-                elif self.algorithm == 'dsa':
+                elif self.algorithm in set(['dsa', 'dh']):
                     params = self['algorithm']['parameters']
                     if isinstance(params, Void):
-                        raise ValueError('The key does not contain the DSA parameters')
+                        raise ValueError('The key does not contain the %s parameters' % self.algorithm.upper())
                     prime = params['p'].native
                 else:
                     raise ValueError(unwrap(
-- 
2.43.0


From f4bf721be52d97a08e1361ca940b81399ccc19b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:59 +0000
Subject: [PATCH 75/84] fix: compute the size of the DSA subgroup from its
 value

---
 asn1crypto/keys.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 52eec15..caa1df0 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -729,10 +729,7 @@ class DSAParams(Sequence):
             The byte size of the subgroup order q, as an integer
         """
 
-        contents = self['q'].contents
-        if contents[0:1] == b'\x00':
-            contents = contents[1:]
-        return len(contents)
+        return _byte_length(self['q'].native)
 
 
 class Attribute(Sequence):
-- 
2.43.0


From 804ef724e049b930cfd831626c7a30d2d9cfff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:01 +0000
Subject: [PATCH 76/84] fix: refuse signatures that have no fixed-width form

---
 asn1crypto/algos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 1bd6392..3c13c7d 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -715,6 +715,9 @@ class DSASignature(Sequence):
             A DSASignature object
         """
 
+        if len(data) % 2:
+            raise ValueError('The two integers of the signature must be of the same width')
+
         r = int_from_bytes(data[0:len(data) // 2])
         s = int_from_bytes(data[len(data) // 2:])
         return cls({'r': r, 's': s})
@@ -732,6 +735,9 @@ class DSASignature(Sequence):
             A byte string compatible with BCryptVerifySignature()
         """
 
+        if self['r'].native < 0 or self['s'].native < 0:
+            raise ValueError('A signature with a negative integer can not be encoded')
+
         r_bytes = int_to_bytes(self['r'].native)
         s_bytes = int_to_bytes(self['s'].native)
 
-- 
2.43.0


From 0714bb2fe7b4b8869af2a3cf1e31035eb38c08f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:03 +0000
Subject: [PATCH 77/84] fix: keep leading null bytes when re-encoding an
 IntegerOctetString

---
 asn1crypto/core.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 19161cd..eb70ad8 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2891,6 +2891,45 @@ class IntegerOctetString(Constructable, Castable, Primitive):
             self._native = int_from_bytes(self._merge_chunks())
         return self._native
 
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        width = self._encoded_width
+        try:
+            if width is None and self.contents is not None:
+                # Leading null bytes are part of the octet string
+                self._encoded_width = len(self._merge_chunks())
+            return super(IntegerOctetString, self).dump(force=force)
+        finally:
+            self._encoded_width = width
+
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another IntegerOctetString object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        if other._indefinite:
+            # Leading null bytes are part of the octet string
+            self._encoded_width = len(other._merge_chunks())
+        super(IntegerOctetString, self)._copy(other, copy_func)
+        self._encoded_width = other._encoded_width
+
     def set_encoded_width(self, width):
         """
         Set the explicit enoding width for the integer
-- 
2.43.0


From c5abb9b83d983b258e059777585f676c9c38eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:05 +0000
Subject: [PATCH 78/84] fix: wrap RSASSA-PSS keys without Null parameters

---
 asn1crypto/keys.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index caa1df0..1b07edc 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -859,7 +859,8 @@ class PrivateKeyInfo(Sequence):
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
-            params = Null()
+            # A key restricted to RSASSA-PSS only has parameters when its use is restricted further
+            params = Null() if algorithm == 'rsa' else None
         elif algorithm == 'dsa':
             if not isinstance(private_key, DSAPrivateKey):
                 private_key = DSAPrivateKey.load(private_key)
@@ -886,7 +887,8 @@ class PrivateKeyInfo(Sequence):
 
         private_key_algo = PrivateKeyAlgorithm()
         private_key_algo['algorithm'] = PrivateKeyAlgorithmId(algorithm)
-        private_key_algo['parameters'] = params
+        if params is not None:
+            private_key_algo['parameters'] = params
 
         container = cls()
         container._algorithm = algorithm
@@ -1251,7 +1253,9 @@ class PublicKeyInfo(Sequence):
 
         algo = PublicKeyAlgorithm()
         algo['algorithm'] = PublicKeyAlgorithmId(algorithm)
-        algo['parameters'] = Null()
+        # A key restricted to RSASSA-PSS only has parameters when its use is restricted further
+        if algorithm == 'rsa':
+            algo['parameters'] = Null()
 
         container = cls()
         container['algorithm'] = algo
-- 
2.43.0


From 37921a7b7e6c2740491735e9303bfdfeafd73316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:07 +0000
Subject: [PATCH 79/84] fix: raise ValueError for the hash of RSASSA-PSS
 without parameters

---
 asn1crypto/algos.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 3c13c7d..bc76490 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -454,6 +454,17 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
             algorithm
         ))
 
+    def _pss_hash_algo(self):
+        """
+        :return:
+            A unicode string of the name of the hash algorithm of an RSASSA-PSS
+            signature
+        """
+
+        if not isinstance(self['parameters'], RSASSAPSSParams):
+            raise ValueError('Hash algorithm not known for rsassa_pss without parameters')
+        return self['parameters']['hash_algorithm']['algorithm'].native
+
     @property
     def hash_algo(self):
         """
@@ -468,7 +479,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
             return self._algo_map[algorithm]
 
         if algorithm == 'rsassa_pss':
-            return self['parameters']['hash_algorithm']['algorithm'].native
+            return self._pss_hash_algo()
 
         if algorithm == 'ed25519' or algorithm == 'ed448':
             raise ValueError(unwrap(
@@ -503,7 +514,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
             return self._algo_map[algorithm]
 
         if algorithm == 'rsassa_pss':
-            return self['parameters']['hash_algorithm']['algorithm'].native
+            return self._pss_hash_algo()
 
         cms_algo_map = {
             'ed25519': 'sha512',
-- 
2.43.0


From 819e3b556c9ef480fcebb13de653673c3d64f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:01 +0000
Subject: [PATCH 80/84] fix: skip distribution points without a name in
 delta_crl_distribution_points of a CRL

---
 asn1crypto/crl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bf30196..bc014d2 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -24,6 +24,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .x509 import (
     AuthorityInfoAccessSyntax,
@@ -493,6 +494,8 @@ class CertificateList(Sequence):
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
                     distribution_point_name = distribution_point['distribution_point']
+                    if distribution_point_name is VOID:
+                        continue
                     # RFC 5280 indicates conforming CA should not use the relative form
                     if distribution_point_name.name == 'name_relative_to_crl_issuer':
                         continue
-- 
2.43.0


From 9e38e660fed4cd8672ab10a407786fb7a6f6a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:03 +0000
Subject: [PATCH 81/84] fix: list a distribution point with several URIs once

---
 asn1crypto/crl.py  | 1 +
 asn1crypto/x509.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bc014d2..a5da57d 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -503,6 +503,7 @@ class CertificateList(Sequence):
                     for general_name in distribution_point_name.chosen:
                         if general_name.name == 'uniform_resource_identifier':
                             self._delta_crl_distribution_points.append(distribution_point)
+                            break
 
         return self._delta_crl_distribution_points
 
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 5d7b0ee..4d56264 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2765,6 +2765,7 @@ class Certificate(Sequence):
             for general_name in distribution_point_name.chosen:
                 if general_name.name == 'uniform_resource_identifier':
                     output.append(distribution_point)
+                    break
 
         return output
 
-- 
2.43.0


From f5813c067f27f60c281513db4e2a00d4854d4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:05 +0000
Subject: [PATCH 82/84] fix: find the directory name among the names of the
 authority certificate issuer

---
 asn1crypto/x509.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 4d56264..f8dd115 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2700,15 +2700,18 @@ class Certificate(Sequence):
         """
 
         if self._authority_issuer_serial is False:
+            self._authority_issuer_serial = None
             akiv = self.authority_key_identifier_value
-            if akiv and akiv['authority_cert_issuer'].native:
-                issuer = self.authority_key_identifier_value['authority_cert_issuer'][0].chosen
-                # We untag the element since it is tagged via being a choice from GeneralName
-                issuer = issuer.untag()
-                authority_serial = self.authority_key_identifier_value['authority_cert_serial_number'].native
-                self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
-            else:
-                self._authority_issuer_serial = None
+            if akiv and akiv['authority_cert_serial_number'].native is not None:
+                authority_serial = akiv['authority_cert_serial_number'].native
+                for general_name in akiv['authority_cert_issuer']:
+                    # The issuer of a certificate is always a Name
+                    if general_name.name != 'directory_name':
+                        continue
+                    # We untag the element since it is tagged via being a choice from GeneralName
+                    issuer = general_name.chosen.untag()
+                    self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
+                    break
         return self._authority_issuer_serial
 
     @property
-- 
2.43.0


From 2dcd377a19730373336fa219a556f51df9231b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:07 +0000
Subject: [PATCH 83/84] fix: do not keep half-computed results of a property
 that raises

---
 asn1crypto/crl.py  | 16 ++++++++++------
 asn1crypto/x509.py | 30 ++++++++++++++++++------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index a5da57d..7cfbf67 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -259,12 +259,13 @@ class RevokedCertificate(Sequence):
         """
 
         if self._issuer_name is False:
-            self._issuer_name = None
+            issuer_name = None
             if self.certificate_issuer_value:
                 for general_name in self.certificate_issuer_value:
                     if general_name.name == 'directory_name':
-                        self._issuer_name = general_name.chosen
+                        issuer_name = general_name.chosen
                         break
+            self._issuer_name = issuer_name
         return self._issuer_name
 
 
@@ -467,7 +468,7 @@ class CertificateList(Sequence):
         """
 
         if self._issuer_cert_urls is None:
-            self._issuer_cert_urls = []
+            issuer_cert_urls = []
             if self.authority_information_access_value:
                 for entry in self.authority_information_access_value:
                     if entry['access_method'].native == 'ca_issuers':
@@ -476,7 +477,8 @@ class CertificateList(Sequence):
                             continue
                         url = location.native
                         if url.lower()[0:7] == 'http://':
-                            self._issuer_cert_urls.append(url)
+                            issuer_cert_urls.append(url)
+            self._issuer_cert_urls = issuer_cert_urls
         return self._issuer_cert_urls
 
     @property
@@ -489,7 +491,7 @@ class CertificateList(Sequence):
         """
 
         if self._delta_crl_distribution_points is None:
-            self._delta_crl_distribution_points = []
+            delta_crl_distribution_points = []
 
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
@@ -502,9 +504,11 @@ class CertificateList(Sequence):
                     # This library is currently only concerned with HTTP-based CRLs
                     for general_name in distribution_point_name.chosen:
                         if general_name.name == 'uniform_resource_identifier':
-                            self._delta_crl_distribution_points.append(distribution_point)
+                            delta_crl_distribution_points.append(distribution_point)
                             break
 
+            self._delta_crl_distribution_points = delta_crl_distribution_points
+
         return self._delta_crl_distribution_points
 
     @property
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index f8dd115..a41b9de 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2700,7 +2700,7 @@ class Certificate(Sequence):
         """
 
         if self._authority_issuer_serial is False:
-            self._authority_issuer_serial = None
+            authority_issuer_serial = None
             akiv = self.authority_key_identifier_value
             if akiv and akiv['authority_cert_serial_number'].native is not None:
                 authority_serial = akiv['authority_cert_serial_number'].native
@@ -2710,8 +2710,9 @@ class Certificate(Sequence):
                         continue
                     # We untag the element since it is tagged via being a choice from GeneralName
                     issuer = general_name.chosen.untag()
-                    self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
+                    authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
                     break
+            self._authority_issuer_serial = authority_issuer_serial
         return self._authority_issuer_serial
 
     @property
@@ -2803,15 +2804,15 @@ class Certificate(Sequence):
         """
 
         if self._valid_domains is None:
-            self._valid_domains = []
+            valid_domains = []
 
             # For the subject alt name extension, we can look at the name of
             # the choice selected since it distinguishes between domain names,
             # email addresses, IPs, etc
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'dns_name' and general_name.native not in self._valid_domains:
-                        self._valid_domains.append(general_name.native)
+                    if general_name.name == 'dns_name' and general_name.native not in valid_domains:
+                        valid_domains.append(general_name.native)
 
             # If there was no subject alt name extension, and the common name
             # in the subject looks like a domain, that is considered the valid
@@ -2825,7 +2826,9 @@ class Certificate(Sequence):
                         if name_type_value['type'].native == 'common_name':
                             value = name_type_value['value'].native
                             if pattern.match(value):
-                                self._valid_domains.append(value)
+                                valid_domains.append(value)
+
+            self._valid_domains = valid_domains
 
         return self._valid_domains
 
@@ -2837,12 +2840,14 @@ class Certificate(Sequence):
         """
 
         if self._valid_ips is None:
-            self._valid_ips = []
+            valid_ips = []
 
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
                     if general_name.name == 'ip_address':
-                        self._valid_ips.append(general_name.native)
+                        valid_ips.append(general_name.native)
+
+            self._valid_ips = valid_ips
 
         return self._valid_ips
 
@@ -2893,15 +2898,16 @@ class Certificate(Sequence):
         """
 
         if self._self_signed is None:
-            self._self_signed = 'no'
+            self_signed = 'no'
             if self.self_issued:
                 if self.key_identifier:
                     if not self.authority_key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                     elif self.authority_key_identifier == self.key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                 else:
-                    self._self_signed = 'maybe'
+                    self_signed = 'maybe'
+            self._self_signed = self_signed
         return self._self_signed
 
     @property
-- 
2.43.0


From 1f4d30e66fb55d7c25b5cb9ee38dff3e1af9e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:09 +0000
Subject: [PATCH 84/84] fix: do not keep half-parsed children when another
 exception is raised

---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index eb70ad8..8d3aa39 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4366,6 +4366,9 @@ class Sequence(Asn1Value):
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
+        except Exception:
+            self.children = None
+            raise
 
     def spec(self, field_name):
         """
@@ -4438,6 +4441,9 @@ class Sequence(Asn1Value):
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
                 raise e
+            except Exception:
+                self._native = None
+                raise
         return self._native
 
     def _copy(self, other, copy_func):
@@ -4901,6 +4907,9 @@ class SequenceOf(Asn1Value):
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
+        except Exception:
+            self.children = None
+            raise
 
     def spec(self):
         """
@@ -5167,6 +5176,9 @@ class Set(Sequence):
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
+        except Exception:
+            self.children = None
+            raise
 
     def _set_contents(self, force=False):
         """
-- 
2.43.0

