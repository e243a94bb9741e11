From ce4768afd49d5999e1bc4552f23cbc898b89701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:36 +0000
Subject: [PATCH 01/41] fix: encode and print bytes fields which were never
 assigned

The default of a bound or greedy bytes field is an empty str, which cannot be
padded with bytes nor printed as bytes on Python 3.
---
 prophy/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index bcf498d..5d1a0b0 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -21,7 +21,7 @@ def field_to_string(name, type_, value):
     elif issubclass(type_, (struct, union)):
         return "%s {\n%s}\n" % (name, indent(str(value)))
     elif issubclass(type_, bytes):
-        return "%s: %s\n" % (name, repr_bytes(value))
+        return "%s: %s\n" % (name, repr_bytes(value or b""))
     elif issubclass(type_, enum):
         return "%s: %s\n" % (name, type_._int_to_name[value])
     else:
@@ -212,7 +212,7 @@ def bytes_(**kwargs):
 
         @staticmethod
         def _encode(value):
-            return value.ljust(size, b'\x00')
+            return (value or b"").ljust(size, b'\x00')
 
         @staticmethod
         def _decode(data, pos, len_hint):
-- 
2.43.0


From 00b5dd17d6df3f37c838ea671540c9ab0101dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:36 +0000
Subject: [PATCH 02/41] fix: decode optional enums which have no enumerator
 equal to 1

Decoding marked the field as present by assigning True, which is rejected by
an enum without such an enumerator. Only composite fields need it.
---
 prophy/descriptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 250d631..deac6ae 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -101,8 +101,9 @@ def decode_optional(parent, name, type_, data, pos, endianness, len_hints):
     value, _ = type_._optional_type._decode(data, pos, endianness)
     opt_alignment = type_._OPTIONAL_ALIGNMENT
     if value:
-        setattr(parent, name, True)
         sub_type = type_.__bases__[0]
+        if codec_kind.is_composite(sub_type):
+            setattr(parent, name, True)
         pos += opt_alignment
         return opt_alignment + type_._decode(parent, name, sub_type, data, pos, endianness, len_hints)
     else:
-- 
2.43.0


From 81740766daf38171b2e517cf55c7c59f70b8e3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:08 +0000
Subject: [PATCH 03/41] fix: align optional fields to their flag in the Python
 codec

An optional of a 1- or 2-byte type was aligned like its value, so its 32-bit
flag could land on any offset and the computed struct size was wrong too.
---
 prophy/composite.py  | 4 ++--
 prophy/descriptor.py | 4 ++++
 prophy/generators.py | 6 +++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 5d1a0b0..49cba8f 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -60,7 +60,7 @@ class struct(_composite_base):
         data = b""
 
         for field in self._descriptor:
-            data += (self._get_padding(len(data), field.type._ALIGNMENT))
+            data += (self._get_padding(len(data), field.alignment))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
             if field.type._PARTIAL_ALIGNMENT:
@@ -78,7 +78,7 @@ class struct(_composite_base):
         start_pos = pos
 
         for field in self._descriptor:
-            pos += self._get_padding_size(pos, field.type._ALIGNMENT)
+            pos += self._get_padding_size(pos, field.alignment)
             try:
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index deac6ae..e178976 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -49,6 +49,10 @@ class DescriptorField(renew.Mold):
             self.type._encode = staticmethod(opt_encode)
             self.type._decode = staticmethod(opt_decode)
 
+    @property
+    def alignment(self):
+        return self.type._OPTIONAL_ALIGNMENT if self.type._OPTIONAL else self.type._ALIGNMENT
+
     @property
     def kind(self):
         if codec_kind.is_array(self.type):
diff --git a/prophy/generators.py b/prophy/generators.py
index 0b3f72c..61931f1 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -213,13 +213,13 @@ class struct_generator(_composite_generator_base):
             if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
                 type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
-            alignment = max(type_._ALIGNMENT, alignment)
+            alignment = max(type_._OPTIONAL_ALIGNMENT if type_._OPTIONAL else type_._ALIGNMENT, alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
 
             def get_padded_sizes():
                 types = list(cls._types())
-                sizes = [tp._SIZE for tp in types]
-                alignments = [tp._ALIGNMENT for tp in types[1:]] + [cls._ALIGNMENT]
+                sizes = [tp._OPTIONAL_SIZE if tp._OPTIONAL else tp._SIZE for tp in types]
+                alignments = [field.alignment for field in cls._descriptor[1:]] + [cls._ALIGNMENT]
                 offset = 0
 
                 for size, alignment in zip(sizes, alignments):
-- 
2.43.0


From 65baa23f7886581e9f20e80fcd1f5568e08b790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:39 +0000
Subject: [PATCH 04/41] fix: align the block after a nested dynamic struct in
 the Python codec

The rule that the first field of a block gets the greatest alignment of the
block was applied after dynamic arrays only, not after dynamic struct fields.
---
 prophy/composite.py  |  8 ++++----
 prophy/descriptor.py |  4 +++-
 prophy/generators.py | 11 +++++++----
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 49cba8f..6762c4b 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -63,8 +63,8 @@ class struct(_composite_base):
             data += (self._get_padding(len(data), field.alignment))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
-            if field.type._PARTIAL_ALIGNMENT:
-                data += self._get_padding(len(data), field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                data += self._get_padding(len(data), field.partial_alignment)
 
         data += self._get_padding(len(data), self._ALIGNMENT)
 
@@ -83,8 +83,8 @@ class struct(_composite_base):
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
                 raise ProphyError("{}: {}".format(self.__class__.__name__, e))
-            if field.type._PARTIAL_ALIGNMENT:
-                pos += self._get_padding_size(pos, field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                pos += self._get_padding_size(pos, field.partial_alignment)
 
         pos += self._get_padding_size(pos, self._ALIGNMENT)
 
diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index e178976..ac2b69f 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -11,12 +11,14 @@ FieldDescriptor.__repr__ = lambda self: "<{}, {!r}, {!r}>".format(*self)
 
 class DescriptorField(renew.Mold):
     _cls_namespace = "prophy.descriptor"
-    _extra_slots = "encode_fcn", "decode_fcn"
+    _extra_slots = "encode_fcn", "decode_fcn", "partial_alignment"
 
     def __init__(self, name, type, discriminator=None):
         self.name = name
         self.type = type
         self.discriminator = discriminator
+        # alignment of the block which follows a dynamic field, set in add_attributes
+        self.partial_alignment = None
         # These two are set later in extend_descriptor
         # their value don't affect __eq__ & __ne__ result
         self.encode_fcn = None
diff --git a/prophy/generators.py b/prophy/generators.py
index 61931f1..5191500 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -209,11 +209,14 @@ class struct_generator(_composite_generator_base):
             cls._ALIGNMENT = max((t._OPTIONAL_ALIGNMENT if t._OPTIONAL else t._ALIGNMENT) for t in cls._types())
 
         alignment = 1
-        for type_ in reversed(list(cls._types())):
-            if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
-                type_._PARTIAL_ALIGNMENT = alignment
+        for field in reversed(cls._descriptor):
+            type_ = field.type
+            if type_._DYNAMIC:
+                field.partial_alignment = alignment
+                if issubclass(type_, (base_array, bytes)):
+                    type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
-            alignment = max(type_._OPTIONAL_ALIGNMENT if type_._OPTIONAL else type_._ALIGNMENT, alignment)
+            alignment = max(field.alignment, alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
 
             def get_padded_sizes():
-- 
2.43.0


From 9b2277c09719a4cde987572e6de9e4b914a4d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:57 +0000
Subject: [PATCH 05/41] fix: pad dynamic structs which end with a fixed size
 optional

The size of an optional need not be a multiple of its alignment. A dynamic
struct whose last member was such an optional got no trailing padding from the
generated C++ codec.
---
 prophyc/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 08234b8..3946dcf 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -577,7 +577,8 @@ def evaluate_sizes(nodes, warn=null_warn):
             padding = (alignment - byte_size % alignment) % alignment
             byte_size += padding
             if any(is_member_dynamic(m) for m in node_.members):
-                prev_member.padding = (node_.members[-1].alignment < alignment) and (-alignment) or 0
+                is_aligned = prev_member.alignment == alignment and prev_member.byte_size % alignment == 0
+                prev_member.padding = 0 if is_aligned else -alignment
             else:
                 prev_member.padding = padding
         node_.byte_size, node_.alignment = byte_size, alignment
-- 
2.43.0


From 5b32f7ac982cda4da962671b9edb39b0aecd25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:33 +0000
Subject: [PATCH 06/41] fix: count fixed size members before aligning in C++
 get_byte_size

A fixed size member followed by alignment to a dynamic position has negative
padding. It was subtracted from the size, so encode overran its buffer.
---
 prophyc/generators/cpp_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 7462e4f..492798d 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -437,7 +437,7 @@ def generate_struct_get_byte_size(node):
             if m.is_dynamic or m.greedy:
                 elems += ['{0}.size() * {1}'.format(m.name, _get_byte_size(m))]
             else:
-                bytes_ += m.byte_size + m.padding
+                bytes_ += m.byte_size + max(m.padding, 0)
         else:
             if m.is_dynamic or m.greedy:
                 elems += [
-- 
2.43.0


From c57f122902e3c55bff8e7cd1109247f5a16e5a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:33 +0000
Subject: [PATCH 07/41] fix: check bounds when C++ decoder skips an absent
 optional

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 63120de..d6290ba 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -342,8 +342,7 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     {
         return decoder<E, T>::decode(*x, pos, end);
     }
-    pos = pos + codec_traits<T>::size;
-    return true;
+    return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
 template <endianness E, typename T>
-- 
2.43.0


From 46ace0a43ebee4eea493820853678c9eaa9294cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:33 +0000
Subject: [PATCH 08/41] fix: do not resize C++ arrays beyond the decoded input

The counter comes from untrusted bytes. It made the decoder allocate gigabytes,
or throw std::length_error in case of a negative counter.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index d6290ba..3410337 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -2,6 +2,7 @@
 #define _PROPHY_DETAIL_DECODER_HPP_
 
 #include <stdint.h>
+#include <algorithm>
 #include <prophy/endianness.hpp>
 #include <prophy/optional.hpp>
 #include <prophy/detail/codec_traits.hpp>
@@ -375,7 +376,8 @@ inline bool do_decode_resize(std::vector<T>& v, const uint8_t*& pos, const uint8
     {
         return false;
     }
-    v.resize(n);
+    // each element takes at least one byte of input: one element more than that is going to fail
+    v.resize(std::min(size_t(n), size_t(end - pos) + 1));
     return true;
 }
 
-- 
2.43.0


From 75187a73d39d1a5457c470bd34ef4fd2e616a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:33 +0000
Subject: [PATCH 09/41] fix: do not accept a truncated last element of a C++
 greedy array

The input position stayed behind the part of the element which was decoded, so
the incomplete element could be dropped silently.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 3410337..74313c7 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -279,9 +279,11 @@ struct decoder_greedy<E, T, true>
         v.resize(0);
         while(true)
         {
+            const uint8_t* element = pos;
             v.push_back(T());
             if (!decoder<E, T>::decode(v.back(), pos, end))
             {
+                pos = element;
                 v.pop_back();
                 return true;
             }
-- 
2.43.0


From 64f813166b44e54cb7aef02dd9e4a0cb9f08bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:33 +0000
Subject: [PATCH 10/41] fix: allow union discriminators above INT_MAX in C++

---
 prophy_cpp/include/prophy/detail/mpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/mpl.hpp b/prophy_cpp/include/prophy/detail/mpl.hpp
index 04bbe59..df1f465 100644
--- a/prophy_cpp/include/prophy/detail/mpl.hpp
+++ b/prophy_cpp/include/prophy/detail/mpl.hpp
@@ -17,7 +17,7 @@ struct is_class_or_union
     static const bool value = sizeof(is_class_or_union_tester<T>(0)) == sizeof(char);
 };
 
-template <int I>
+template <unsigned I>
 struct int2type
 {
     enum { value = I };
-- 
2.43.0


From 98f0847c8c8f73719c29df4825fb6b8666956c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:33 +0000
Subject: [PATCH 11/41] fix: do not leak stream state when C++ prints escaped
 bytes

An unprintable byte left std::hex set, so all integers printed later came out
hexadecimal.
---
 prophy_cpp/include/prophy/detail/printer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index f5aaf4e..51ecd72 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -36,10 +36,8 @@ inline void print_byte(std::ostream& out, uint8_t x)
     }
     else
     {
-        out << "\\x";
-        out.width(2);
-        out.fill('0');
-        out << std::hex << unsigned(x);
+        static const char digits[] = "0123456789abcdef";
+        out << "\\x" << digits[x >> 4] << digits[x & 15];
     }
 }
 
-- 
2.43.0


From a973bdcb39c500cf97c645e9888d84cfbf17d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:10 +0000
Subject: [PATCH 12/41] fix: escape the quote in bytes printed by C++

---
 prophy_cpp/include/prophy/detail/printer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index 51ecd72..f8963f9 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -28,6 +28,7 @@ inline void print_byte(std::ostream& out, uint8_t x)
         case 9: out << "\\t"; return;
         case 10: out << "\\n"; return;
         case 13: out << "\\r"; return;
+        case 39: out << "\\'"; return;
         case 92: out << "\\\\"; return;
     }
     if ((x >= 32) && (x <= 126))
-- 
2.43.0


From 1855a7c62a0003bab61b2fa92edd8a3faa7bc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:19 +0000
Subject: [PATCH 13/41] fix: use wire alignment of optionals which hold limited
 arrays in C++

std::vector raises the C++ alignment of a struct, so padding between the flag
and the value differed from the wire format.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 12 +++++++++---
 prophy_cpp/include/prophy/detail/encoder.hpp | 12 +++++++++---
 prophyc/generators/cpp_full.py               | 16 ++++++++++++++--
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 74313c7..ce8ebe5 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -325,7 +325,7 @@ inline bool do_decode(T* x, size_t n, const uint8_t*& pos, const uint8_t* end)
     return decoder<E, T>::decode(x, n, pos, end);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t A, typename T>
 inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
 {
     uint32_t disc;
@@ -334,9 +334,9 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
         return false;
     }
     x = disc ? optional<T>(T()) : optional<T>();
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (A > sizeof(uint32_t))
     {
-        if (!do_decode_advance(alignment<T>::value - sizeof(uint32_t), pos, end))
+        if (!do_decode_advance(A - sizeof(uint32_t), pos, end))
         {
             return false;
         }
@@ -348,6 +348,12 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
+template <endianness E, typename T>
+inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
+{
+    return do_decode<E, alignment<T>::value>(x, pos, end);
+}
+
 template <endianness E, typename T>
 inline bool do_decode_in_place(T& x, const uint8_t* pos, const uint8_t* end)
 {
diff --git a/prophy_cpp/include/prophy/detail/encoder.hpp b/prophy_cpp/include/prophy/detail/encoder.hpp
index 73fd7df..f295f3d 100644
--- a/prophy_cpp/include/prophy/detail/encoder.hpp
+++ b/prophy_cpp/include/prophy/detail/encoder.hpp
@@ -237,13 +237,13 @@ inline uint8_t* do_encode(uint8_t* data, const T* x, size_t n)
     return encoder<E, T>::encode(data, x, n);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t A, typename T>
 inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
 {
     data = do_encode<E>(data, uint32_t(bool(x)));
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (A > sizeof(uint32_t))
     {
-        data = data + alignment<T>::value - sizeof(uint32_t);
+        data = data + A - sizeof(uint32_t);
     }
     if (x)
     {
@@ -252,6 +252,12 @@ inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
     return data + codec_traits<T>::size;
 }
 
+template <endianness E, typename T>
+inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
+{
+    return do_encode<E, alignment<T>::value>(data, x);
+}
+
 } // namespace detail
 } // namespace prophy
 
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 492798d..9c646f3 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -58,6 +58,18 @@ def _get_byte_size(node):
         return node.byte_size
 
 
+def _holds_vector(node):
+    """Checks if C++ type of any node holds std::vector, which affects its C++ alignment."""
+    node = _get_leaf(node)
+    return isinstance(node, (model.Struct, model.Union)) and any(
+        getattr(m, 'bound', None) or _holds_vector(m) for m in node.members)
+
+
+def _get_endianness_and_alignment(m):
+    """Gets template arguments for optional, with wire alignment if C++ alignment is different."""
+    return _holds_vector(m) and 'E, {}'.format(m.byte_size - _get_byte_size(m)) or 'E'
+
+
 def _get_cpp_builtin_type(node):
     """Gets C++ float or int type from stdint.h, or throws miserably."""
     return BUILTIN2C[_get_leaf(node).type_name]
@@ -347,7 +359,7 @@ def generate_struct_encode(node):
         elif m.greedy:
             text += 'pos = do_encode<E>(pos, x.{0}.data(), x.{0}.size());\n'.format(m.name)
         elif m.optional:
-            text += 'pos = do_encode<E>(pos, x.{0});\n'.format(m.name)
+            text += 'pos = do_encode<{1}>(pos, x.{0});\n'.format(m.name, _get_endianness_and_alignment(m))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
@@ -382,7 +394,7 @@ def generate_struct_decode(node):
         elif m.greedy:
             text.append('do_decode_greedy<E>(x.{0}, pos, end)'.format(m.name))
         elif m.optional:
-            text.append('do_decode<E>(x.{0}, pos, end)'.format(m.name))
+            text.append('do_decode<{1}>(x.{0}, pos, end)'.format(m.name, _get_endianness_and_alignment(m)))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
-- 
2.43.0


From 6b333f1cec9a0060112e488008e01ef792564f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:05 +0000
Subject: [PATCH 14/41] fix: pad between the flag and an 8-aligned optional
 value in raw C++ structs

The generated struct put the value right after the 4-byte flag, while the
wire format aligns it.
---
 prophyc/generators/cpp.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7593f21..429f6c6 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -28,6 +28,18 @@ def _to_literal(value):
         return value
 
 
+def _get_value_alignment(member):
+    """Gets alignment of struct member's type, regardless of where the member lies."""
+    definition = member.definition
+    type_name = member.type_name
+    while isinstance(definition, model.Typedef):
+        type_name = definition.type_name
+        definition = definition.definition
+    if isinstance(definition, (model.Struct, model.Union)):
+        return definition.alignment or 1
+    return model.BUILTIN_SIZES.get(type_name, model.ENUM_SIZE)
+
+
 class _Padder(object):
     PADDINGS = (
         (1, 'uint8_t'),
@@ -121,7 +133,10 @@ class _HppDefinitionsTranslator(TranslatorBase):
             else:
                 field = '{0} {1};\n'.format(typename, member.name)
             if member.optional:
-                field = 'prophy::bool_t has_{0};\n'.format(member.name) + field
+                flag = 'prophy::bool_t has_{0};\n'.format(member.name)
+                if _get_value_alignment(member) > model.DISC_SIZE:
+                    flag += padder.generate_padding(_get_value_alignment(member) - model.DISC_SIZE)
+                field = flag + field
             if member.padding is not None and member.padding > 0:
                 field += padder.generate_padding(member.padding)
             return field
-- 
2.43.0


From f95bca634922e70a1d4c2d1773574f5d7d54410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:43 +0000
Subject: [PATCH 15/41] fix: a struct with a dynamic array and an unlimited
 last member is unlimited

It was classified as dynamic when the unlimited part came from a nested struct.
---
 prophyc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 3946dcf..be56636 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -334,10 +334,10 @@ class _SerializableContainer(_Container, _Serializable):
 
                 if self.members[-1].greedy:
                     self.kind = Kind.UNLIMITED
-                elif any(x.is_dynamic for x in self.members):
-                    self.kind = Kind.DYNAMIC
                 else:
                     self.kind = max(x.kind for x in self.members)
+                    if any(x.is_dynamic for x in self.members):
+                        self.kind = max(self.kind, Kind.DYNAMIC)
 
 
 class Struct(_SerializableContainer):
-- 
2.43.0


From ca78d61541c09cbe7068e9af82a2133cf6874983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:51 +0000
Subject: [PATCH 16/41] fix: reject floats that do not fit their type when they
 are assigned

A float beyond the range of r32, or an integer beyond that of r64, was stored
and made encode() raise OverflowError later. It is now refused with
ProphyError like an integer out of bounds.
---
 prophy/scalar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index afd157a..e276d47 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -65,6 +65,10 @@ def float_decorator(size, id_):
         def check(value):
             if not isinstance(value, (float, int, long)):
                 raise ProphyError("not a float")
+            try:
+                struct.pack('=' + id_, value)
+            except (OverflowError, struct.error):
+                raise ProphyError("value out of {}B float's bounds".format(size))
             return value
 
         cls._check = check
-- 
2.43.0


From 469c8958a95412fdfebbcd49a1977cbe602035ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:33 +0000
Subject: [PATCH 17/41] fix: scalar array slices honour their step and failed
 updates change nothing

Slice assignment ignored the step and overwrote the wrong elements. extend()
kept the elements before a bad one, never returned when given the array
itself, and like slice assignment took iterators only for arrays without a
limit.
---
 prophy/container.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index 8811bd4..7d6ae84 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -17,6 +17,14 @@ def decode_scalar_array(tp, data, pos, endianness, count):
     return values, cursor
 
 
+def check_values(tp, values):
+    try:
+        values = iter(values)
+    except TypeError:
+        raise ProphyError("'{}' has no length".format(type(values).__name__))
+    return [tp._check(value) for value in values]
+
+
 def scalar_array_eq(self, other):
     if self is other:
         return True
@@ -45,15 +53,16 @@ class fixed_scalar_array(base_array):
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            values = check_values(self._TYPE, value)
+            if len(self._values[idx]) != len(values):
+                raise ProphyError("setting slice with different length collection")
+            self._values[idx] = values
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if len(self._values[start:stop]) != len(values):
-            raise ProphyError("setting slice with different length collection")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __eq__(self, other):
         return scalar_array_eq(self, other)
@@ -87,24 +96,26 @@ class bound_scalar_array(base_array):
     def extend(self, values):
         if not values:
             return
+        values = check_values(self._TYPE, values)
         if self._max_len and len(self) + len(values) > self._max_len:
             raise ProphyError("exceeded array limit")
-        self._values.extend(map(self._TYPE._check, values))
+        self._values.extend(values)
 
     def remove(self, elem):
         self._values.remove(elem)
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            values = check_values(self._TYPE, value)
+            if self._max_len and len(self) + len(values) - len(self._values[idx]) > self._max_len:
+                raise ProphyError("exceeded array limit")
+            self._values[idx] = values
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if self._max_len and len(self) + len(values) - len(self._values[start:stop]) > self._max_len:
-            raise ProphyError("exceeded array limit")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From 504defe612ec5b439c39936000d2e9aa7c2d454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:34 +0000
Subject: [PATCH 18/41] fix: a failed add() or extend() leaves a composite
 array unchanged

add() appended the element before setting the attributes that could be
refused. extend() kept the elements before a bad one, never returned when
given the array itself and took iterators only for arrays without a limit.
---
 prophy/container.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index 7d6ae84..0fe24ee 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -167,24 +167,26 @@ class bound_composite_array(base_array):
             raise ProphyError("exceeded array limit")
 
         new_element = self._TYPE()
-        self._values.append(new_element)
         for name, value in attributes.items():
             attr = getattr(new_element, name)
             if isinstance(attr, base_array):
                 attr[:] = value
             else:
                 setattr(new_element, name, value)
+        self._values.append(new_element)
         return new_element
 
     def extend(self, elem_seq):
-        if self._max_len and len(self) + len(elem_seq) > self._max_len:
-            raise ProphyError("exceeded array limit")
-
         composite_cls = self._TYPE
+        new_elements = []
         for message in elem_seq:
             new_element = composite_cls()
             new_element.copy_from(message)
-            self._values.append(new_element)
+            new_elements.append(new_element)
+
+        if self._max_len and len(self) + len(new_elements) > self._max_len:
+            raise ProphyError("exceeded array limit")
+        self._values.extend(new_elements)
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From 63ff6da6edd87b89cc39543d0851c4086e35a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:58 +0000
Subject: [PATCH 19/41] fix: refuse array elements that the sizer cannot count

An array or bytes field bound to an 8- or 16-bit sizer took more elements than
the sizer can represent and encode() then raised struct.error. The limit is
now checked when elements are added, like that of a limited array.
---
 prophy/composite.py  | 3 ++-
 prophy/generators.py | 3 +++
 prophy/scalar.py     | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 6762c4b..fa936ca 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -189,6 +189,7 @@ def bytes_(**kwargs):
         raise ProphyError("unknown arguments to bytes field")
 
     class _bytes(bytes):
+        _max_len = size
         _SIZE = size
         _DYNAMIC = not size
         _UNLIMITED = not size and not bound
@@ -204,7 +205,7 @@ def bytes_(**kwargs):
         def _check(value):
             if not isinstance(value, bytes):
                 raise ProphyError("not a bytes")
-            if size and len(value) > size:
+            if _bytes._max_len and len(value) > _bytes._max_len:
                 raise ProphyError("too long")
             if size and not bound:
                 return value.ljust(size, b'\x00')
diff --git a/prophy/generators.py b/prophy/generators.py
index 5191500..bf5c687 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -308,6 +308,9 @@ class struct_generator(_composite_generator_base):
         sizer_item = next(field for field in cls._descriptor if field.name == sizer_name)
         bound_shift = container_item.type._BOUND_SHIFT
         cls.validate_sizer_type(sizer_item, container_item)
+        countable = sizer_item.type._MAX - bound_shift
+        if not container_item.type._max_len or container_item.type._max_len > countable:
+            container_item.type._max_len = countable
 
         if sizer_item.type.__name__ == "container_len":
             sizer_item.type.add_bounded_container(container_item.name)
diff --git a/prophy/scalar.py b/prophy/scalar.py
index e276d47..53590ea 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -51,6 +51,7 @@ def int_decorator(size, id_, min_, max_):
         cls._check = check
 
         cls._DEFAULT = 0
+        cls._MAX = max_
 
         return cls
 
-- 
2.43.0


From a5bd94e3ad7b491405b85f2e382ee9f0c6fcd48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:00 +0000
Subject: [PATCH 20/41] fix: copy_from copies limited composite arrays and
 optional composites

Elements of a limited array of structs or unions were dropped, and a present
optional struct or union made copy_from raise AttributeError.
---
 prophy/composite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index fa936ca..a769f9a 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -101,7 +101,7 @@ class struct(_composite_base):
         lhs = getattr(self, name)
         if isinstance(rhs, base_array):
             if codec_kind.is_composite(rhs._TYPE):
-                if rhs._DYNAMIC:
+                if rhs._DYNAMIC or rhs._BOUND:
                     del lhs[:]
                     lhs.extend(rhs[:])
                 else:
@@ -110,6 +110,9 @@ class struct(_composite_base):
             else:
                 lhs[:] = rhs[:]
         elif codec_kind.is_composite(type(rhs)):
+            if lhs is None:
+                setattr(self, name, True)
+                lhs = getattr(self, name)
             lhs.copy_from(rhs)
         else:
             self._fields[name] = rhs
-- 
2.43.0


From 635ace528c6016d3fdf049971b5b930937f81a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:29 +0000
Subject: [PATCH 21/41] fix: the value of an optional struct or union can be
 copied from its type

copy_from on an optional field raised TypeError unless the other message was
the value of the very same optional field.
---
 prophy/composite_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prophy/composite_base.py b/prophy/composite_base.py
index 7f129d4..70e2839 100644
--- a/prophy/composite_base.py
+++ b/prophy/composite_base.py
@@ -14,7 +14,9 @@ class _composite_base(prophy_data_object):
 
     @classmethod
     def validate_copy_from(cls, rhs):
-        if not isinstance(rhs, cls):
+        # type of optional field derives from the type it makes optional
+        expected = cls.__bases__[0] if cls._OPTIONAL else cls
+        if not isinstance(rhs, expected):
             raise TypeError("Parameter to copy_from must be instance of same class.")
 
     def _copy_implementation(self, other):
-- 
2.43.0


From 53ee0c20b57b9ef7406ca97d1df023d8e54d090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:15 +0000
Subject: [PATCH 22/41] fix: division in constant expressions gives an integer

Both evaluators used true division, so '7 / 2' became 3.5 and crashed later.
---
 prophyc/calc.py           | 2 +-
 prophyc/parsers/prophy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 5b554c6..0e03b45 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -74,7 +74,7 @@ class Calc(object):
         elif p[2] == '*':
             p[0] = p[1] * p[3]
         elif p[2] == '/':
-            p[0] = p[1] / p[3]
+            p[0] = p[1] // p[3]
         elif p[2] == '<<':
             p[0] = p[1] << p[3]
         elif p[2] == '>>':
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 0ab25ad..dbc6505 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -415,7 +415,7 @@ class Parser(object):
             elif t[2] == '*':
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
-                t[0] = t[1] / t[3]
+                t[0] = t[1] // t[3]
             elif t[2] == '<<':
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
-- 
2.43.0


From bcf7cf097dda592458d36a3bfc27f55e91a29cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:15 +0000
Subject: [PATCH 23/41] fix: emit evaluated expressions instead of leaving them
 to the target language

Expressions of isar files were copied to generated code, where Python and C++
apply their own precedence and division, and may not see included enumerators.
---
 prophyc/model.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index be56636..0ff4f1d 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -1,3 +1,4 @@
+import re
 from itertools import islice
 
 import renew
@@ -491,6 +492,39 @@ def to_int(x, constants):
         return val if val is not None else calc.eval(x, constants)
 
 
+def evaluate_expressions(nodes, constants):
+    """
+    Replaces expressions by the numbers they denote. Generated code would evaluate them using
+    precedence and division of the target language. Literals and names are left as they are,
+    unless a name is an enumerator from included file, which generated code may not see.
+    """
+    included = [symbol for node in nodes if isinstance(node, Include) for symbol in node.defined_symbols()]
+    enumerators = set(member.name for node in included if isinstance(node, Enum) for member in node.members)
+
+    def evaluate(expression):
+        if not isinstance(expression, six.string_types):
+            return expression
+        if re.match(r'\w+$', expression) and expression not in enumerators:
+            return expression
+        try:
+            return str(to_int(expression, constants))
+        except calc.ParseError:
+            return expression
+
+    for node in nodes:
+        if isinstance(node, Constant):
+            node._value = evaluate(node.value)
+        elif isinstance(node, Enum):
+            for member in node.members:
+                member._value = evaluate(member.value)
+        elif isinstance(node, Struct):
+            for member in node.members:
+                member.size = evaluate(member.size)
+        elif isinstance(node, Union):
+            for member in node.members:
+                member.discriminator = evaluate(member.discriminator)
+
+
 def evaluate_stiffness_kinds(nodes):
     """Adds kind to all Structs and StructMembers. Requires cross referenced nodes."""
     for node in nodes:
@@ -622,6 +656,7 @@ def partition(members):
 def evaluate_model(nodes, warn_emitter=lambda x: None):
     topological_sort(nodes)
     constants = cross_reference(nodes, warn_emitter)
+    evaluate_expressions(nodes, constants)
     evaluate_stiffness_kinds(nodes)
     evaluate_sizes(nodes, warn_emitter)
     return nodes, constants
-- 
2.43.0


From a095780862f0c169db4ffcdb70ae61ef3c0befa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:15 +0000
Subject: [PATCH 24/41] fix: sort definitions by everything they refer to

Enumerators, array sizes, discriminators and operators other than + and - were
not seen as dependencies. A definition that depends on itself is an error now,
it used to make the sort loop forever.
---
 prophyc/model.py | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 0ff4f1d..ec65d58 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -85,6 +85,11 @@ class ModelNode(renew.Mold):
         raise NotImplementedError("To be overridden in %s class." % self.__class__.__name__)
 
 
+def _expression_symbols(expression):
+    """ Names used by an expression, which may as well be a number or None. """
+    return re.findall(r'\b[A-Za-z_]\w*', str(expression or ''))
+
+
 class Constant(ModelNode):
     _str_pattern = "const {s.name} = {s.value!r};"
     __slots__ = ()
@@ -99,12 +104,7 @@ class Constant(ModelNode):
                 return None
 
     def dependencies(self):
-        def sub_(x, y):
-            return x.replace(y, " ")
-
-        for symbol in six.reduce(sub_, "()+-", self.value).split():
-            if not symbol.isdigit():
-                yield symbol
+        return _expression_symbols(self.value)
 
 
 class EnumMember(Constant):
@@ -190,6 +190,9 @@ class StructMember(Typedef):
         """amount of bytes to add before next field. If field dynamic: negative alignment of next field"""
         self.padding = None
 
+    def dependencies(self):
+        return [self.type_name] + _expression_symbols(self.size)
+
     @property
     def is_array(self):
         return self.bound or self.size or self.greedy
@@ -233,6 +236,9 @@ class UnionMember(Typedef):
         super(UnionMember, self).__init__(name, type_name, definition, docstring)
         self.discriminator = discriminator
 
+    def dependencies(self):
+        return [self.type_name] + _expression_symbols(self.discriminator)
+
 
 """ Composite kinds """
 
@@ -317,8 +323,10 @@ class Enum(_Container):
     __slots__ = ()
 
     def dependencies(self):
-        for member in self.members:
-            yield member.name
+        own = set(member.name for member in self.members)
+        for dependency in super(Enum, self).dependencies():
+            if dependency not in own:
+                yield dependency
 
 
 class _SerializableContainer(_Container, _Serializable):
@@ -386,9 +394,16 @@ def null_warn(_):
 def topological_sort(nodes):
     """Sorts nodes."""
 
+    def names_defined_by(node_):
+        if isinstance(node_, Include):
+            return []
+        if isinstance(node_, Enum):
+            return [node_.name] + [member.name for member in node_.members]
+        return [node_.name]
+
     def find_first_dep(dependency, start_index):
         for i, n in enumerate(islice(nodes, start_index, None), start_index):
-            if n.name == dependency:
+            if dependency in names_defined_by(n):
                 return i
 
     def model_sort_rotate():
@@ -399,13 +414,16 @@ def topological_sort(nodes):
                 if found_index:
                     nodes.insert(index, nodes.pop(found_index))
                 return True
-        known.add(node.name)
+        known.update(names_defined_by(node))
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
-    available = set(node.name for node in nodes)
+    available = set(name for node in nodes for name in names_defined_by(node))
     for index in range(len(nodes)):
+        rotations = 0
         while model_sort_rotate():
-            pass
+            rotations += 1
+            if rotations > len(nodes):
+                raise ModelError("Definition of '{}' depends on itself.".format(nodes[index].name))
 
 
 def _make_types_index(nodes_):
-- 
2.43.0


From 9694f831ea70b133261aa807c5da60d0282fc8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:46 +0000
Subject: [PATCH 25/41] fix: report unreadable files and model errors as errors
 of prophyc

Definition cycles, unreadable or badly encoded files, directories given as
includes, too deep include chains and unwritable outputs escaped as internal
exceptions.
---
 prophyc/__init__.py       | 11 ++++++++++-
 prophyc/file_processor.py | 19 +++++++++++++++----
 prophyc/parsers/prophy.py |  3 ++-
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 56f4753..1961e2e 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -4,6 +4,7 @@ import os
 import sys
 from contextlib import contextmanager
 
+from . import file_processor
 from . import model
 from . import options
 from .file_processor import FileProcessor
@@ -49,7 +50,8 @@ def main(args):
     if not serializers and not opts.void_out:
         emit.error("missing output directives")
 
-    patcher = get_patcher(opts.patch)
+    with error_on_exception(emit):
+        patcher = get_patcher(opts.patch)
     supplementary_nodes = create_supplements(emit, opts.isar_includes, opts.include_dirs, patcher)
 
     model_nodes = dict(flatten_included_defs(supplementary_nodes))
@@ -152,6 +154,8 @@ def generate_target_files(emit, serializers, model_nodes):
                 serializer.serialize(nodes, basename)
             except GenerateError as e:
                 emit.error(str(e))
+            except EnvironmentError as e:
+                emit.error(str(e))
 
 
 @contextmanager
@@ -160,3 +164,8 @@ def error_on_exception(emit):
         yield
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
+    except (model.ModelError, file_processor.FileReadError, file_processor.FileNotFoundError,
+            file_processor.CyclicIncludeError, EnvironmentError, UnicodeError) as e:
+        emit.error(str(e))
+    except RuntimeError as e:
+        emit.error("input too complex: %s" % e)
diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 1ab3f99..dd6b016 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -3,6 +3,11 @@ import os
 from contextlib import contextmanager
 
 
+class FileReadError(Exception):
+    def __init__(self, path, reason):
+        Exception.__init__(self, "file %s cannot be read: %s" % (path, reason))
+
+
 class CyclicIncludeError(Exception):
     def __init__(self, path):
         Exception.__init__(self, "file %s included again during parsing" % path)
@@ -16,7 +21,7 @@ class FileNotFoundError(Exception):
 def _get_first_existing_path(leaf, dirs):
     for directory in dirs:
         path = os.path.join(directory, leaf)
-        if os.path.exists(path):
+        if os.path.isfile(path):
             return path
 
 
@@ -70,7 +75,10 @@ class FileProcessor(object):
         if not path:
             raise FileNotFoundError(leaf)
         with swap_dir(self.include_dirs, os.path.dirname(path)):
-            return self._process_file(path)
+            try:
+                return self._process_file(path)
+            except RuntimeError as e:
+                raise FileReadError(leaf, e)
 
     def _process_file(self, path):
         abspath = os.path.abspath(path)
@@ -80,8 +88,11 @@ class FileProcessor(object):
             return self.files[abspath]
         self.files[abspath] = None
 
-        with codecs.open(path, 'r', encoding='utf-8') as f:
-            content = f.read()
+        try:
+            with codecs.open(path, 'r', encoding='utf-8') as f:
+                content = f.read()
+        except (EnvironmentError, UnicodeError) as e:
+            raise FileReadError(path, e)
         result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
         self.files[abspath] = result
         return result
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index dbc6505..cbe0f26 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -187,7 +187,8 @@ class Parser(object):
 
         try:
             nodes = self.parse_file(path)
-        except (file_processor.CyclicIncludeError, file_processor.FileNotFoundError) as e:
+        except (file_processor.CyclicIncludeError, file_processor.FileNotFoundError,
+                file_processor.FileReadError) as e:
             self._parser_error(str(e), t.lineno(3), t.lexpos(3))
             nodes = []
 
-- 
2.43.0


From 7c9f280f84f7b377bef9b3ec3c385d3ad3e72f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:42 +0000
Subject: [PATCH 26/41] fix: report bad expressions and duplicate names with
 their location

Negative shift counts, division by zero in isar expressions, truncated
expressions and numbers too big to handle escaped as internal exceptions or
took all memory. Duplicate names in enums and unions lost file and line.
---
 prophyc/__init__.py       |  6 ++++--
 prophyc/calc.py           | 32 ++++++++++++++++++++++++++++++++
 prophyc/model.py          |  3 ++-
 prophyc/parsers/prophy.py | 20 +++++++++++++++++++-
 4 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 1961e2e..851d25b 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -164,8 +164,10 @@ def error_on_exception(emit):
         yield
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
-    except (model.ModelError, file_processor.FileReadError, file_processor.FileNotFoundError,
-            file_processor.CyclicIncludeError, EnvironmentError, UnicodeError) as e:
+    except model.ModelError as e:
+        emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)) or str(e))
+    except (file_processor.FileReadError, file_processor.FileNotFoundError, file_processor.CyclicIncludeError,
+            EnvironmentError, UnicodeError) as e:
         emit.error(str(e))
     except RuntimeError as e:
         emit.error("input too complex: %s" % e)
diff --git a/prophyc/calc.py b/prophyc/calc.py
index 0e03b45..68aaa3a 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -6,6 +6,28 @@ class ParseError(Exception):
     pass
 
 
+MAX_BITS = 1024
+
+
+def check_shift(operator, count):
+    """ Shift counts which have no result, or result not worth computing. """
+    if operator in ('<<', '>>') and count < 0:
+        raise ParseError("negative shift count '%s'" % count)
+    if operator == '<<' and count > MAX_BITS:
+        raise ParseError("shift count '%s' too big" % count)
+
+
+def check_literal(text):
+    if len(text) > MAX_BITS:
+        raise ParseError("number too big")
+
+
+def check_number(number):
+    if isinstance(number, int) and abs(number) >> MAX_BITS:
+        raise ParseError("number too big")
+    return number
+
+
 class Calc(object):
     tokens = ('NAME', 'CONST16', 'CONST10', 'LSHIFT', 'RSHIFT')
     precedence = (
@@ -33,12 +55,14 @@ class Calc(object):
     @staticmethod
     def t_CONST16(t):
         r"""0x[0-9a-fA-F]+"""
+        check_literal(t.value)
         t.value = int(t.value, 16)
         return t
 
     @staticmethod
     def t_CONST10(t):
         r"""\d+"""
+        check_literal(t.value)
         t.value = int(t.value)
         return t
 
@@ -67,6 +91,9 @@ class Calc(object):
                       | expression '|' expression
                       | expression LSHIFT expression
                       | expression RSHIFT expression"""
+        check_shift(p[2], p[3])
+        if p[2] == '/' and p[3] == 0:
+            raise ParseError("division by zero")
         if p[2] == '+':
             p[0] = p[1] + p[3]
         elif p[2] == '-':
@@ -81,6 +108,7 @@ class Calc(object):
             p[0] = p[1] >> p[3]
         elif p[2] == '|':
             p[0] = p[1] | p[3]
+        check_number(p[0])
 
     @staticmethod
     def p_expression_uminus(p):
@@ -103,11 +131,15 @@ class Calc(object):
         try:
             p[0] = p[1]
             while not isinstance(p[0], int):
+                if p[0] == self.vars[p[0]]:
+                    raise LookupError
                 p[0] = self.vars[p[0]]
         except LookupError:
             raise ParseError("numeric constant '%s' not found" % p[1])
 
     def p_error(self, p):
+        if p is None:
+            raise ParseError("unexpected end of expression")
         raise ParseError("syntax error at '%s'" % p.value)
 
 
diff --git a/prophyc/model.py b/prophyc/model.py
index ec65d58..416f42d 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -17,7 +17,8 @@ class ParseError(Exception):
 
 class ModelError(Exception):
     """ General error for model tree construction errors. """
-    pass
+    errors = ()
+    """Like errors of ParseError, if location is known."""
 
 
 class Kind:
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index cbe0f26..814a7ab 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -4,7 +4,7 @@ from contextlib import contextmanager
 import ply.lex as lex
 import ply.yacc as yacc
 
-from prophyc import file_processor, model, six
+from prophyc import calc, file_processor, model, six
 
 
 def get_column(input_, pos):
@@ -42,16 +42,19 @@ class Parser(object):
 
     def t_CONST16(self, t):
         r'0x[0-9a-fA-F]+'
+        self._check_literal(t)
         t.value = int(t.value, 16)
         return t
 
     def t_CONST8(self, t):
         r'0[0-7]+'
+        self._check_literal(t)
         t.value = int(t.value, 8)
         return t
 
     def t_CONST10(self, t):
         r'(([1-9]\d*)|0)'
+        self._check_literal(t)
         t.value = int(t.value)
         return t
 
@@ -121,6 +124,13 @@ class Parser(object):
             get_column(self.lexer.lexdata, pos)
         ), message))
 
+    def _check_literal(self, t):
+        try:
+            calc.check_literal(t.value)
+        except calc.ParseError as e:
+            self._parser_error(str(e), t.lexer.lineno, t.lexpos)
+            t.value = '0'
+
     def _parser_check(self, condition, message, line, pos):
         if not condition:
             self._parser_error(message, line, pos)
@@ -409,6 +419,7 @@ class Parser(object):
                       | expression LSHIFT expression
                       | expression RSHIFT expression'''
         try:
+            calc.check_shift(t[2], t[3])
             if t[2] == '+':
                 t[0] = t[1] + t[3]
             elif t[2] == '-':
@@ -421,6 +432,10 @@ class Parser(object):
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
                 t[0] = t[1] >> t[3]
+            calc.check_number(t[0])
+        except calc.ParseError as e:
+            self._parser_error(str(e), t.lineno(1), t.lexpos(1))
+            t[0] = 0
         except ZeroDivisionError:
             self._parser_error(
                 'division by zero',
@@ -494,6 +509,9 @@ def allocate_parser(parsers_stack):
     parser = parsers_stack and parsers_stack.pop() or Parser()
     try:
         yield parser
+    except model.ModelError as e:
+        e.errors = list(e.errors) + parser.errors
+        raise
     finally:
         parsers_stack.append(parser)
 
-- 
2.43.0


From 833f811cd00e4490849f1dee9058ff4e4a3a254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:34 +0000
Subject: [PATCH 27/41] fix: check models of other schemas and patched ones
 like those of prophy

Isar elements without required attributes, malformed xml, incomplete patch rules,
sizers missing after patching and types misused by arrays or optionals
ended with internal exceptions or with code that cannot be imported or compiled.
Enumerators and discriminators have to fit in 32 bits.
---
 prophyc/model.py          | 77 ++++++++++++++++++++++++++++++++++++++-
 prophyc/parsers/isar.py   | 54 +++++++++++++++++++++++++--
 prophyc/parsers/prophy.py | 18 +++++++++
 prophyc/patch.py          |  2 +
 4 files changed, 146 insertions(+), 5 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 416f42d..562adff 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -479,6 +479,8 @@ def cross_reference(nodes, warn=null_warn):
             node_.definition = None
             return
         found = types_index.get(node_.type_name)
+        if isinstance(found, Constant):
+            found = None
         if not found:
             warn("type '%s' not found" % node_.type_name)
         node_.definition = found
@@ -508,6 +510,8 @@ def to_int(x, constants):
         return int(x)
     except ValueError:
         val = constants.get(x)
+        if isinstance(val, six.string_types):
+            val = None
         return val if val is not None else calc.eval(x, constants)
 
 
@@ -523,7 +527,7 @@ def evaluate_expressions(nodes, constants):
     def evaluate(expression):
         if not isinstance(expression, six.string_types):
             return expression
-        if re.match(r'\w+$', expression) and expression not in enumerators:
+        if re.match(r'(0|[1-9][0-9]*|0x[0-9a-fA-F]+|[A-Za-z_]\w*)$', expression) and expression not in enumerators:
             return expression
         try:
             return str(to_int(expression, constants))
@@ -672,6 +676,74 @@ def partition(members):
     return main, parts
 
 
+def misused_types(members):
+    """ Generates 2-tuples of member and reason, for members whose type does not fit the way they use it. """
+    for member in members:
+        if member.kind == Kind.UNLIMITED and member.is_array:
+            yield member, "array '{}' of unlimited type".format(member.name)
+        elif member.kind != Kind.FIXED and member.size:
+            yield member, "fixed or limited array '{}' of dynamic type".format(member.name)
+        elif member.kind != Kind.FIXED and member.optional:
+            yield member, "optional field '{}' of dynamic type".format(member.name)
+
+
+def check_composition(nodes, constants):
+    """
+    Checks rules which parsers other than the prophy one and patches may break.
+    Requires cross referenced nodes and evaluated kinds.
+    """
+
+    def check(condition, node_, message):
+        if not condition:
+            raise ModelError("{} {}: {}".format(node_._collection_kind, node_.name, message))
+
+    def check_sizer(node_, index, member):
+        sizer = next((x for x in node_.members[:index] if x.name == member.bound), None)
+        check(sizer, node_, "sizer of '{}' has to be defined before the array".format(member.name))
+        check(not sizer.is_array and not sizer.optional, node_,
+              "sizer of '{}' cannot be an array nor optional".format(member.name))
+        type_ = sizer
+        while isinstance(type_, Typedef) and type_.definition:
+            type_ = type_.definition
+        check(isinstance(type_, Typedef) and type_.type_name in BUILTIN_SIZES and type_.type_name[0] in 'ui', node_,
+              "sizer of '{}' has to be of (unsigned) integer type".format(member.name))
+
+    def check_value(node_, member, value):
+        try:
+            value = to_int(value, constants)
+        except calc.ParseError:
+            return
+        check(0 <= value < 2**32, node_, "value {} of '{}' does not fit in 32 bits".format(value, member.name))
+        return value
+
+    for node in nodes:
+        if isinstance(node, (Enum, Struct, Union)):
+            node._check_members_duplication(node.members)
+        if isinstance(node, Enum):
+            for member in node.members:
+                check_value(node, member, member.value)
+        if isinstance(node, Struct):
+            for i, member in enumerate(node.members):
+                if member.bound:
+                    check_sizer(node, i, member)
+                check(member.numeric_size is None or member.numeric_size > 0, node,
+                      "array size of '{}' non-positive".format(member.name))
+            for member in node.members[:-1]:
+                check(not member.greedy and member.kind != Kind.UNLIMITED, node,
+                      "greedy array field '{}' not last".format(member.name))
+            for member, message in misused_types(node.members):
+                check(False, node, message)
+        elif isinstance(node, Union):
+            discriminators = set()
+            for member in node.members:
+                discriminator = check_value(node, member, member.discriminator)
+                check(discriminator is None or discriminator not in discriminators, node,
+                      "duplicate discriminator value '{}'".format(discriminator))
+                discriminators.add(discriminator)
+                member.calc_wire_stiffness()
+                check(member.kind == Kind.FIXED, node, "dynamic union arm '{}'".format(member.name))
+
+
 def evaluate_model(nodes, warn_emitter=lambda x: None):
     topological_sort(nodes)
     constants = cross_reference(nodes, warn_emitter)
@@ -691,5 +763,6 @@ class ModelParser(object):
         nodes = self.parser.parse(*parse_args)
         if self.patcher:
             self.patcher(nodes)
-        nodes, _ = evaluate_model(nodes, self.emit.warn)
+        nodes, constants = evaluate_model(nodes, self.emit.warn)
+        check_composition(nodes, constants)
         return nodes
diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 0567e94..1f59edb 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -57,6 +57,53 @@ primitive_types = {"8 bit integer unsigned": "u8",
                    "64 bit float": "r64"}
 
 
+class DuplicateValueError(model.ModelError, ValueError):
+    pass
+
+
+def parse_xml(content, path):
+    try:
+        return ElementTree.fromstring(content)
+    except ElementTree.ParseError as e:
+        line, column = e.position
+        raise model.ParseError([("%s:%s:%s" % (path, line, column + 1), str(e))])
+    except (LookupError, ValueError) as e:
+        raise model.ParseError([(path, str(e))])
+
+
+def check_attributes(root, path):
+    """ Reports lack of attributes, without which elements cannot be understood. """
+    errors = []
+
+    def check(xml_elem, *attributes):
+        for attribute in attributes:
+            if not xml_elem.get(attribute):
+                errors.append((path, "{} '{}' has no {}".format(xml_elem.tag, xml_elem.get("name"), attribute)))
+
+    def check_children(tag, *attributes):
+        for xml_elem in root.iterfind('.//' + tag):
+            if len(xml_elem):
+                check(xml_elem, "name")
+            for child in xml_elem:
+                check(child, *attributes)
+
+    for xml_elem in root.iterfind('.//constant'):
+        check(xml_elem, "name", "value")
+    for xml_elem in root.iterfind('.//typedef'):
+        check(xml_elem, "name")
+        if "type" in xml_elem.attrib:
+            check(xml_elem, "type")
+        elif "primitiveType" in xml_elem.attrib and xml_elem.get("primitiveType") not in primitive_types:
+            errors.append((path, "unknown primitive type '{}'".format(xml_elem.get("primitiveType"))))
+    check_children('enum', "name", "value")
+    check_children('struct', "name", "type")
+    check_children('union', "name", "type", "discriminatorValue")
+    check_children('message', "name", "type")
+
+    if errors:
+        raise model.ParseError(errors)
+
+
 def make_include(xml_elem, process_file, warn):
     if "include" in xml_elem.tag:
         path = xml_elem.get("href")
@@ -102,7 +149,7 @@ def make_enum(xml_elem):
         values = set()
         for m in enum_obj.members:
             if m.value in values:
-                raise ValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
+                raise DuplicateValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
             values.add(m.value)
 
     if len(xml_elem):
@@ -193,14 +240,15 @@ class IsarParser(object):
     def __init__(self, warn=None):
         self.warn = warn
 
-    def parse(self, content, _, process_file):
+    def parse(self, content, path, process_file):
         # by default FileProcessor decodes files while opening in _process_file method,
         # but ElementTree doesn't like it. ElementTree handles the encoding on its own,
         # so it's OK to encode the data back into utf-8 before parsing
         content = content.encode('utf-8')
 
         def collect():
-            root = ElementTree.fromstring(content)
+            root = parse_xml(content, path)
+            check_attributes(root, path)
             for xml_elem in root.iterfind('.//*[@href]'):
                 yield make_include(xml_elem, process_file, self.warn)
 
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 814a7ab..29598c9 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -151,6 +151,9 @@ class Parser(object):
                     self._parser_check(self._is_type_sizer_compatible(bound.type_name),
                                        "Sizer of '{}' has to be of (unsigned) integer type".format(name),
                                        line, pos)
+                    self._parser_check(not bound.optional and not bound.is_array,
+                                       "Sizer of '{}' cannot be an array nor optional".format(name),
+                                       line, pos)
                 else:
                     self._parser_error("Sizer of '{}' has to be defined before the array".format(name),
                                        line, pos)
@@ -162,6 +165,10 @@ class Parser(object):
                 line, pos
             )
 
+        locations = {id(member): (line, pos) for member, line, pos in members}
+        for member, message in model.misused_types([member for member, _, __ in members]):
+            self._parser_error(message, *locations[id(member)])
+
     def _is_type_sizer_compatible(self, typename):
         if typename in {type_ + width for type_ in 'ui' for width in ['8', '16', '32', '64']}:
             return True
@@ -240,6 +247,11 @@ class Parser(object):
 
     def p_enum_member(self, t):
         '''enum_member : unique_id EQUALS expression'''
+        self._parser_check(
+            0 <= t[3] < 2**32,
+            "enumerator '{}' value {} does not fit in 32 bits".format(t[1], t[3]),
+            t.lineno(1), t.lexpos(1)
+        )
         member = model.EnumMember(t[1], str(t[3]))
         self.constdecls[t[1]] = member
         t[0] = member
@@ -322,6 +334,12 @@ class Parser(object):
     def p_union_def(self, t):
         '''union_def : UNION unique_id union_body SEMI'''
 
+        for member, line, pos in t[3]:
+            self._parser_check(
+                0 <= int(member.discriminator) < 2**32,
+                "discriminator {} does not fit in 32 bits".format(member.discriminator),
+                line, pos
+            )
         fieldnames = set()
         for member, line, pos in t[3]:
             self._parser_check(
diff --git a/prophyc/patch.py b/prophyc/patch.py
index e6ae894..1c6a5f4 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -12,6 +12,8 @@ def parse(filename):
         for line in f.readlines():
             if line.strip():
                 words = line.split()
+                if len(words) < 2:
+                    raise Exception("Patch rule without action: %s" % line.strip())
                 name, action = words[:2]
                 params = words[2:]
                 patches[name].append(Action(action, params))
-- 
2.43.0


From 47b58a7dc6e97f2d214f5a892b2b0305c0af3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:30 +0000
Subject: [PATCH 28/41] fix: reject names defined twice and sack types prophy
 cannot express

A typedef sharing its name with an enumerator made the compiler loop forever.
Self-containing C++ structs, unsupported C++ types and empty enums or unions
escaped as internal exceptions.
---
 prophyc/model.py          | 27 ++++++++++++++++++++-------
 prophyc/parsers/prophy.py |  7 +++++++
 prophyc/parsers/sack.py   | 12 +++++++++++-
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 562adff..c632f75 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -392,16 +392,26 @@ def null_warn(_):
 """ Following functions process model. """
 
 
+def names_defined_by(node):
+    if isinstance(node, Include):
+        return []
+    if isinstance(node, Enum):
+        return [node.name] + [member.name for member in node.members]
+    return [node.name]
+
+
+def check_names(nodes):
+    """ Definitions of the same name would shadow each other, or even refer to themselves. """
+    defined = set()
+    for name in (name for node in nodes for name in names_defined_by(node)):
+        if name in defined:
+            raise ModelError("Name '{}' redefined.".format(name))
+        defined.add(name)
+
+
 def topological_sort(nodes):
     """Sorts nodes."""
 
-    def names_defined_by(node_):
-        if isinstance(node_, Include):
-            return []
-        if isinstance(node_, Enum):
-            return [node_.name] + [member.name for member in node_.members]
-        return [node_.name]
-
     def find_first_dep(dependency, start_index):
         for i, n in enumerate(islice(nodes, start_index, None), start_index):
             if dependency in names_defined_by(n):
@@ -720,6 +730,7 @@ def check_composition(nodes, constants):
         if isinstance(node, (Enum, Struct, Union)):
             node._check_members_duplication(node.members)
         if isinstance(node, Enum):
+            check(node.members, node, "no enumerators")
             for member in node.members:
                 check_value(node, member, member.value)
         if isinstance(node, Struct):
@@ -734,6 +745,7 @@ def check_composition(nodes, constants):
             for member, message in misused_types(node.members):
                 check(False, node, message)
         elif isinstance(node, Union):
+            check(node.members, node, "no arms")
             discriminators = set()
             for member in node.members:
                 discriminator = check_value(node, member, member.discriminator)
@@ -763,6 +775,7 @@ class ModelParser(object):
         nodes = self.parser.parse(*parse_args)
         if self.patcher:
             self.patcher(nodes)
+        check_names(nodes)
         nodes, constants = evaluate_model(nodes, self.emit.warn)
         check_composition(nodes, constants)
         return nodes
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 29598c9..ee01079 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -229,6 +229,11 @@ class Parser(object):
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
+        self._parser_check(
+            t[2] not in [member.name for member in t[3]],
+            "name '{}' redefined".format(t[2]),
+            t.lineno(2), t.lexpos(2)
+        )
         node = model.Enum(t[2], t[3])
         self.typedecls[t[2]] = node
         self.nodes.append(node)
@@ -419,6 +424,8 @@ class Parser(object):
             t.lineno(1), t.lexpos(1)
         )
         t[0] = t[1]
+        t.slice[0].lineno = t.lineno(1)
+        t.slice[0].lexpos = t.lexpos(1)
 
     def p_positive_expression(self, t):
         '''positive_expression : expression'''
diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index 3310b10..ae517bc 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -9,7 +9,7 @@ from prophyc.six import to_bytes
 from .clang import cindex
 
 
-class SackParserError(Exception):
+class SackParserError(model.ModelError):
     pass
 
 
@@ -40,6 +40,7 @@ class Builder(object):
 
     def __init__(self, tree_model):
         self.tree = tree_model
+        self.entered = []
 
     @staticmethod
     def alphanumeric_name(cursor):
@@ -57,8 +58,12 @@ class Builder(object):
 
         def dive_deeper(method):
             name = Builder.alphanumeric_name(decl)
+            if name in self.entered:
+                raise SackParserError("{} contains itself".format(name))
             if name not in self.tree.known:
+                self.entered.append(name)
                 method(decl)
+                self.entered.pop()
             return name
 
         if tp.kind is cindex.TypeKind.TYPEDEF:
@@ -93,6 +98,9 @@ class Builder(object):
         elif tp.kind in (cindex.TypeKind.SHORT, cindex.TypeKind.INT, cindex.TypeKind.LONG, cindex.TypeKind.LONGLONG):
             return 'i%d' % (tp.get_size() * 8)
 
+        if tp.kind not in self.unambiguous_builtins:
+            raise SackParserError("Unsupported type, {} {}".format(tp.spelling.decode(), tp.kind))
+
         return self.unambiguous_builtins[tp.kind]
 
     def add_enum(self, cursor):
@@ -269,6 +277,8 @@ class SackParser(object):
                 self.warn(spelling, location)
 
     def _get_location(self, location, target_path):
+        if not location.file:
+            return target_path.decode()
         location_file = location.file.name.decode()
         target_file_name = os.path.basename(target_path.decode())
         if os.path.basename(location_file) == target_file_name:
-- 
2.43.0


From aedc574035d8d243770de9191cca11f45cbf82c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 29/41] fix: pick missing sizers like the Python codec does

---
 prophyc/model.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index c632f75..1d53c19 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -697,7 +697,7 @@ def misused_types(members):
             yield member, "optional field '{}' of dynamic type".format(member.name)
 
 
-def check_composition(nodes, constants):
+def check_composition(nodes, constants, warn=null_warn):
     """
     Checks rules which parsers other than the prophy one and patches may break.
     Requires cross referenced nodes and evaluated kinds.
@@ -707,11 +707,24 @@ def check_composition(nodes, constants):
         if not condition:
             raise ModelError("{} {}: {}".format(node_._collection_kind, node_.name, message))
 
+    def find_sizer(node_, index, bound):
+        """ As lenient as Python codec, since other schemas do not name sizers explicitly. """
+        names = [x.name for x in node_.members[:index]]
+        counters = [x for x in names if x.startswith("numOf")]
+        alike = [bound, bound + 's'] + ([bound[:-1]] if bound.endswith('s') else [])
+        if len(counters) == 1 and len([x for x in node_.members if x.bound]) == 1:
+            alike += counters
+        return next((node_.members[names.index(x)] for x in alike if x in names), None)
+
     def check_sizer(node_, index, member):
-        sizer = next((x for x in node_.members[:index] if x.name == member.bound), None)
+        sizer = find_sizer(node_, index, member.bound)
         check(sizer, node_, "sizer of '{}' has to be defined before the array".format(member.name))
         check(not sizer.is_array and not sizer.optional, node_,
               "sizer of '{}' cannot be an array nor optional".format(member.name))
+        if sizer.name != member.bound:
+            warn("{} {}: sizer '{}' of '{}' not found, picking '{}'".format(
+                node_._collection_kind, node_.name, member.bound, member.name, sizer.name))
+            member.bound = sizer.name
         type_ = sizer
         while isinstance(type_, Typedef) and type_.definition:
             type_ = type_.definition
@@ -777,5 +790,5 @@ class ModelParser(object):
             self.patcher(nodes)
         check_names(nodes)
         nodes, constants = evaluate_model(nodes, self.emit.warn)
-        check_composition(nodes, constants)
+        check_composition(nodes, constants, self.emit.warn)
         return nodes
-- 
2.43.0


From a2caba4de6d5e2665e07d13ae4c89d7a6d7fda50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:29 +0000
Subject: [PATCH 30/41] fix: refuse what the generated Python and C++ can not
 express

Names that are keywords of the output language, members named like a type
they stand next to, constants beyond 64 bits, array sizes beyond 32 bits
were accepted and gave code which does not import or compile. Enumerators
of equal value gave a switch with duplicate cases.
---
 prophyc/generators/base.py     | 45 ++++++++++++++++++++++++++++++++++
 prophyc/generators/cpp.py      |  3 ++-
 prophyc/generators/cpp_full.py | 18 +++++++++++++-
 prophyc/generators/python.py   | 14 ++++++++++-
 prophyc/parsers/prophy.py      |  5 ++++
 5 files changed, 82 insertions(+), 3 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 3576768..9f70cd9 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -3,11 +3,56 @@ import os
 
 from prophyc import model
 
+MAX_BYTE_SIZE = 2 ** 60
+
 
 class GenerateError(Exception):
     pass
 
 
+CPP_KEYWORDS = set(
+    'alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const '
+    'const_cast constexpr continue decltype default delete do double dynamic_cast else enum explicit export extern '
+    'false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or '
+    'or_eq private protected public register reinterpret_cast return short signed sizeof static static_assert '
+    'static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned '
+    'using virtual void volatile wchar_t while xor xor_eq'.split()
+)
+
+
+def check_cpp_nodes(nodes):
+    """
+        What the model allows, but can't be expressed in C++.
+    """
+
+    def check_name(name):
+        if name in CPP_KEYWORDS:
+            raise GenerateError("name '{}' is a C++ keyword".format(name))
+
+    constants = model._collect_constants(nodes)
+    for node in nodes:
+        if isinstance(node, model.Include):
+            continue
+        check_name(node.name)
+        if isinstance(node, model.Constant):
+            value = constants[node.name]
+            if value is not None and not -2 ** 63 <= value < 2 ** 64:
+                raise GenerateError("constant '{}' doesn't fit in 64 bits".format(node.name))
+        elif isinstance(node, model.Enum):
+            for m in node.members:
+                check_name(m.name)
+        elif isinstance(node, (model.Struct, model.Union)):
+            if node.byte_size is not None and node.byte_size >= MAX_BYTE_SIZE:
+                raise GenerateError('{0} byte size too big'.format(node.name))
+            types = set(m.type_name for m in node.members)
+            for m in node.members:
+                check_name(m.name)
+                if isinstance(node, model.Union) and m.name == 'discriminator':
+                    raise GenerateError("arm '{0}.{1}' has a name of the discriminator".format(node.name, m.name))
+                if m.name == node.name or m.name in types:
+                    raise GenerateError("member '{0}.{1}' has a name of a type".format(node.name, m.name))
+
+
 def _write_file(file_path, string):
     with codecs.open(file_path, "w", encoding="utf-8") as f:
         f.write(string)
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 429f6c6..343764e 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,5 +1,5 @@
 from prophyc import model
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_cpp_nodes
 
 primitive_types = {
     'u8': 'uint8_t',
@@ -386,6 +386,7 @@ class CppGenerator(GeneratorBase):
     }
 
     def check_nodes(self, nodes):
+        check_cpp_nodes(nodes)
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 9c646f3..abeaad5 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,6 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_cpp_nodes
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -220,8 +220,19 @@ namespace detail
 
 class _CppTranslator(TranslatorBase):
     block_template = CPP_SOURCE_TEMPLATE
+    constants = {}
+
+    def __call__(self, nodes, base_name):
+        self.constants = model._collect_constants(nodes)
+        return super(_CppTranslator, self).__call__(nodes, base_name)
 
     def translate_enum(self, node):
+        def value(m):
+            evaluated = m.eval_int(self.constants)
+            return m.name if evaluated is None else evaluated
+
+        last_names = {value(m): m.name for m in node.members}
+        node = model.Enum(node.name, [m for m in node.members if last_names[value(m)] == m.name])
         return (
                 'template <>\n' +
                 'const char* print_traits<{0}>::to_literal({0} x)\n'.format(node.name) +
@@ -625,9 +636,14 @@ class CppFullGenerator(GeneratorBase):
     }
 
     def check_nodes(self, nodes):
+        check_cpp_nodes(nodes)
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
+            if isinstance(n, (model.Struct, model.Union)):
+                for m in n.members:
+                    if m.name in ('encoded_byte_size', 'get_byte_size'):
+                        raise GenerateError("member '{0}.{1}' has a name of a generated member".format(n.name, m.name))
             if isinstance(n, model.Struct):
                 occured = set()
                 for m in n.members:
diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 01d596f..8166e75 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -1,5 +1,8 @@
+import keyword
+
+from prophyc import model
 from prophyc.generators import word_wrap
-from prophyc.generators.base import GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
 
 libname = u"prophy"
 primitive_types = {x + y: u"%s.%s" % (libname, x + y) for x in u"uir" for y in ["8", "16", "32", "64"]}
@@ -162,3 +165,12 @@ class PythonGenerator(GeneratorBase):
     top_level_translators = {
         ".py": _PythonTranslator
     }
+
+    def check_nodes(self, nodes):
+        for node in nodes:
+            if isinstance(node, model.Include):
+                continue
+            members = node.members if isinstance(node, model.Enum) else []
+            for name in [node.name] + [m.name for m in members]:
+                if keyword.iskeyword(name) or name in (libname, u"None", u"True", u"False"):
+                    raise GenerateError("name '{}' is reserved in Python".format(name))
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index ee01079..92cf456 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -434,6 +434,11 @@ class Parser(object):
             "array size '{}' non-positive".format(t[1]),
             t.lineno(1), t.lexpos(1)
         )
+        self._parser_check(
+            t[1] < 2 ** 32,
+            "array size '{}' too big".format(t[1]),
+            t.lineno(1), t.lexpos(1)
+        )
         t[0] = t[1]
 
     def p_expression_binop(self, t):
-- 
2.43.0


From 9f4fd890aa92b6181fb7349076fadf671f569780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:03 +0000
Subject: [PATCH 31/41] fix: let the Python classes refuse what the compiler
 refuses

Duplicate field names, duplicate or too big discriminators, enums as sizers
and negative sizes were accepted by the Python runtime.
---
 prophy/composite.py  |  2 ++
 prophy/container.py  |  2 ++
 prophy/generators.py | 13 +++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/prophy/composite.py b/prophy/composite.py
index a769f9a..d191b3c 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -186,6 +186,8 @@ def bytes_(**kwargs):
     size = kwargs.pop("size", 0)
     bound = kwargs.pop("bound", None)
     shift = kwargs.pop("shift", 0)
+    if size < 0:
+        raise ProphyError("bytes size must not be negative")
     if shift and (not bound or size):
         raise ProphyError("only shifting bound bytes implemented")
     if kwargs:
diff --git a/prophy/container.py b/prophy/container.py
index 0fe24ee..e751fce 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -221,6 +221,8 @@ def array(type_, **kwargs):
     if kwargs:
         raise ProphyError("unknown arguments to array field")
 
+    if size < 0:
+        raise ProphyError("array size must not be negative")
     if issubclass(type_, base_array):
         raise ProphyError("array of arrays not allowed")
     if issubclass(type_, bytes):
diff --git a/prophy/generators.py b/prophy/generators.py
index bf5c687..f6021b0 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -191,6 +191,10 @@ class struct_generator(_composite_generator_base):
                 msg = "struct member's ({}.{}) type must be a prophy object, is: {!r}"
                 raise ProphyError(msg.format(cls.__name__, field.name, field.type))
 
+        duplicates = ", ".join(_list_duplicates(field.name for field in cls._descriptor))
+        if duplicates:
+            raise ProphyError("names overlap in '{}' struct, duplicates: {}".format(cls.__name__, duplicates))
+
         types = list(cls._types())
         for type_ in types[:-1]:
             if type_._UNLIMITED:
@@ -364,6 +368,9 @@ class struct_generator(_composite_generator_base):
         if not issubclass(sizer_item.type, (int, long)):
             msg = "array {}.{} must be bound to an unsigned integer"
             raise ProphyError(msg.format(cls.__name__, container_item.name))
+        if isinstance(sizer_item.type, enum_generator):
+            msg = "array {}.{} must not be bound to an enum"
+            raise ProphyError(msg.format(cls.__name__, container_item.name))
 
     def validate_bound_shift(cls, sizer_item_type, container_name, expected_bound_shift):
         msg = "Different bound shifts are unsupported in externally sized arrays ({}.{})"
@@ -422,6 +429,12 @@ class union_generator(_composite_generator_base):
             if type_._OPTIONAL:
                 raise ProphyError("union with optional field disallowed")
 
+        duplicates = ", ".join(_list_duplicates(field.name for field in cls._descriptor))
+        if duplicates:
+            raise ProphyError("names overlap in '{}' union, duplicates: {}".format(cls.__name__, duplicates))
+        if _list_duplicates(u32._check(field.discriminator) for field in cls._descriptor):
+            raise ProphyError("discriminators overlap in '{}' union".format(cls.__name__))
+
     def add_attributes(cls):
         cls._ALIGNMENT = max(u32._ALIGNMENT, max(type_._ALIGNMENT for type_ in cls._types()))
         cls._BOUND = None
-- 
2.43.0


From 74b94cd2f8124103a38b3cae28d30d26ebb6b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:48 +0000
Subject: [PATCH 32/41] fix: follow typedefs of included files when checking
 sizers

The typedef of an included file was looked up by names visible in the
including file, so a sizer behind two typedefs in two files was refused.
---
 prophyc/parsers/prophy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 92cf456..afe5736 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -173,7 +173,11 @@ class Parser(object):
         if typename in {type_ + width for type_ in 'ui' for width in ['8', '16', '32', '64']}:
             return True
         elif typename in self.typedecls and isinstance(self.typedecls[typename], model.Typedef):
-            return self._is_type_sizer_compatible(self.typedecls[typename].type_name)
+            typedef = self.typedecls[typename]
+            while isinstance(typedef.definition, model.Typedef):
+                # names used by included typedefs need not be visible here
+                typedef = typedef.definition
+            return typedef.definition is None and self._is_type_sizer_compatible(typedef.type_name)
         else:
             return False
 
-- 
2.43.0


From 071d37570aa4cb30cc4b1e018f573b9d21142e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:48 +0000
Subject: [PATCH 33/41] fix: refuse names defined by more than one included
 file

The parser took the last definition, the Python output imported the first
one and the C++ output did not compile.
---
 prophyc/parsers/prophy.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index afe5736..51cb534 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -114,6 +114,7 @@ class Parser(object):
         self.nodes = []
         self.typedecls = {}
         self.constdecls = {}
+        self.included = {}
         self.errors = []
         self.parse_error_prefix = parse_error_prefix
 
@@ -196,6 +197,16 @@ class Parser(object):
                       | struct_def
                       | union_def'''
 
+    def _check_included_names(self, nodes, line, pos):
+        for node in model.Include('', nodes).defined_symbols():
+            for symbol in [node] + (node.members if isinstance(node, model.Enum) else []):
+                known = self.constdecls.get(symbol.name) or self.typedecls.get(symbol.name)
+                self._parser_check(
+                    (known or self.included.setdefault(symbol.name, symbol)) is symbol,
+                    "name '{}' redefined by included file".format(symbol.name),
+                    line, pos
+                )
+
     def p_include_def(self, t):
         """include_def : '#' ID PATH"""
         self._parser_check(
@@ -213,6 +224,7 @@ class Parser(object):
             self._parser_error(str(e), t.lineno(3), t.lexpos(3))
             nodes = []
 
+        self._check_included_names(nodes, t.lineno(3), t.lexpos(3))
         for node in nodes:
             if isinstance(node, model.Constant):
                 self.constdecls[node.name] = node
@@ -423,7 +435,7 @@ class Parser(object):
     def p_unique_id(self, t):
         '''unique_id : ID'''
         self._parser_check(
-            t[1] not in self.typedecls and t[1] not in self.constdecls,
+            t[1] not in self.typedecls and t[1] not in self.constdecls and t[1] not in self.included,
             "name '{}' redefined".format(t[1]),
             t.lineno(1), t.lexpos(1)
         )
-- 
2.43.0


From 0695aec4ef1ea893884f15a434e91f9c68c6947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:48 +0000
Subject: [PATCH 34/41] fix: visit every included file once

Files reachable by many include paths were walked once per path, so the
time grew exponentially with the depth of diamond shaped includes.
---
 prophyc/model.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 1d53c19..3c6dd9a 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -308,11 +308,15 @@ class Include(_Container):
         """ No need to provide any dependencies to include. """
         return []
 
-    def defined_symbols(self):
+    def defined_symbols(self, visited=None):
         """ Generate collection of symbols delivered by this include. """
+        visited = set() if visited is None else visited
+        visited.add(id(self.members))
         for member in self.members:
             if isinstance(member, Include):
-                for symbol in member.defined_symbols():
+                if id(member.members) in visited:
+                    continue
+                for symbol in member.defined_symbols(visited):
                     yield symbol
             else:
                 yield member
@@ -437,26 +441,26 @@ def topological_sort(nodes):
                 raise ModelError("Definition of '{}' depends on itself.".format(nodes[index].name))
 
 
-def _make_types_index(nodes_):
+def _make_types_index(nodes_, included=None):
     """ Creates flat dictionary that maps model objects to its name. """
-    included = set()
+    included = set() if included is None else included
     for node_ in nodes_:
         if isinstance(node_, Include):
-            if node_.name not in included:
-                included.add(node_.name)
-                for included_name, included_type in _make_types_index(node_.members):
+            if id(node_.members) not in included:
+                included.add(id(node_.members))
+                for included_name, included_type in _make_types_index(node_.members, included):
                     yield included_name, included_type
         else:
             yield node_.name, node_
 
 
-def _collect_constants(nodes_, constants=None):
+def _collect_constants(nodes_, constants=None, included=None):
     constants = constants or {}
-    included = set()
+    included = set() if included is None else included
     for node_ in nodes_:
-        if isinstance(node_, Include) and node_.name not in included:
-            included.add(node_.name)
-            constants.update(_collect_constants(node_.members, constants))
+        if isinstance(node_, Include) and id(node_.members) not in included:
+            included.add(id(node_.members))
+            constants.update(_collect_constants(node_.members, constants, included))
 
         elif isinstance(node_, Constant):
             constants[node_.name] = node_.eval_int(constants)
@@ -565,7 +569,7 @@ def evaluate_stiffness_kinds(nodes):
             node.calc_wire_stiffness()
 
 
-def evaluate_sizes(nodes, warn=null_warn):
+def evaluate_sizes(nodes, warn=null_warn, included=None):
     """
     Adds byte_size and alignment to Struct, StructMember, Union, UnionMember.
     Requires cross referenced nodes and evaluated kinds.
@@ -655,6 +659,7 @@ def evaluate_sizes(nodes, warn=null_warn):
         node_.byte_size = (node_.members and max(x.byte_size for x in node_.members) or 0) + node_.alignment
         node_.byte_size = int((node_.byte_size + node_.alignment - 1) / node_.alignment) * node_.alignment
 
+    included = set() if included is None else included
     for node in nodes:
         if isinstance(node, Struct):
             if evaluate_members_sizes(node):
@@ -664,8 +669,9 @@ def evaluate_sizes(nodes, warn=null_warn):
         elif isinstance(node, Union):
             if evaluate_members_sizes(node):
                 evaluate_union_size(node)
-        elif isinstance(node, Include):
-            evaluate_sizes(node.members, warn)
+        elif isinstance(node, Include) and id(node.members) not in included:
+            included.add(id(node.members))
+            evaluate_sizes(node.members, warn, included)
 
 
 def partition(members):
-- 
2.43.0


From bc33ee0d0b357531f85bc5cbea9ff2c060bab7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:07 +0000
Subject: [PATCH 35/41] fix: multiply the sizes of a two-dimensional isar array
 as a whole

The sizes were joined as texts, so an expression in one of them got multiplied only in part.
---
 prophyc/parsers/isar.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 1f59edb..58d3093 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -1,4 +1,5 @@
 import os
+import re
 import xml.etree.ElementTree as ElementTree
 
 from prophyc import model, six
@@ -173,6 +174,14 @@ def make_enum(xml_elem):
         return enum
 
 
+def parenthesize_sizes(dimension):
+    """ The sizes of two-dimensional array are going to be multiplied. """
+    if dimension is not None and dimension.get("size2"):
+        for name in ("size", "size2"):
+            if not re.match(r"\w*$", dimension.get(name, "")):
+                dimension.set(name, "({})".format(dimension.get(name)))
+
+
 def make_struct_members(xml_elem, dynamic_array=False):
     xml_elem_name = xml_elem.get("name")
     xml_elem_type = xml_elem.get("type")
@@ -180,6 +189,7 @@ def make_struct_members(xml_elem, dynamic_array=False):
     optional = bool(optional) and optional.lower() == "true"
     dimension = xml_elem.find("dimension")
     comment = get_docstr(xml_elem)
+    parenthesize_sizes(dimension)
 
     def collect():
         if dimension is None:
-- 
2.43.0


From 6f670180d49e750bd4181cc6cf1eabddfc238e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:07 +0000
Subject: [PATCH 36/41] fix: refuse array sizes which are unknown or too big
 also for Python output

The C++ outputs refused them already, and the Python output wrote a module which could not be imported.
---
 prophyc/generators/python.py | 2 ++
 prophyc/model.py             | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 8166e75..64cba53 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -170,6 +170,8 @@ class PythonGenerator(GeneratorBase):
         for node in nodes:
             if isinstance(node, model.Include):
                 continue
+            if isinstance(node, (model.Struct, model.Union)) and node.byte_size is None:
+                raise GenerateError('{0} byte size unknown'.format(node.name))
             members = node.members if isinstance(node, model.Enum) else []
             for name in [node.name] + [m.name for m in members]:
                 if keyword.iskeyword(name) or name in (libname, u"None", u"True", u"False"):
diff --git a/prophyc/model.py b/prophyc/model.py
index 3c6dd9a..4b7b681 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -758,6 +758,8 @@ def check_composition(nodes, constants, warn=null_warn):
                     check_sizer(node, i, member)
                 check(member.numeric_size is None or member.numeric_size > 0, node,
                       "array size of '{}' non-positive".format(member.name))
+                check(member.numeric_size is None or member.numeric_size < 2**32, node,
+                      "array size of '{}' too big".format(member.name))
             for member in node.members[:-1]:
                 check(not member.greedy and member.kind != Kind.UNLIMITED, node,
                       "greedy array field '{}' not last".format(member.name))
-- 
2.43.0


From 45f0a33a477ec39090cb519cdda156b8d007990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:07 +0000
Subject: [PATCH 37/41] fix: patch rules which did not do what they say

- static and dynamic left a greedy array greedy
- limited made a dynamic array out of a field which was no fixed array
- rules for a message were applied to an included file of the same name
---
 prophyc/patch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index 1c6a5f4..0f8a471 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -22,6 +22,8 @@ def parse(filename):
 
 def patch(nodes, patch_dict):
     for idx, node in enumerate(nodes):
+        if isinstance(node, model.Include):
+            continue
         patches = patch_dict.get(node.name)
         if patches:
             nodes[idx] = _apply(node, patches)
@@ -100,6 +102,7 @@ def _dynamic(node, patch_):
     mem = node.members[i]
     mem.bound = len_name
     mem.size = None
+    mem.greedy = False
     mem.optional = False
     return node
 
@@ -142,6 +145,7 @@ def _static(node, patch_):
     mem = node.members[i]
     mem.bound = None
     mem.size = size
+    mem.greedy = False
     mem.optional = False
     return node
 
@@ -163,6 +167,8 @@ def _limited(node, patch_):
         raise Exception("Array len member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
+    if not mem.size:
+        raise Exception("Limited field must be a fixed array: %s %s" % (node.name, patch_))
     mem.bound = len_array
     mem.optional = False
     return node
-- 
2.43.0


From 4b0eeecc70050da8566c0d22f984c4ea6ad41ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:55 +0000
Subject: [PATCH 38/41] fix: accept a file included through two paths, e.g. by
 a link

---
 prophyc/parsers/prophy.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 51cb534..0ef79fc 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -197,15 +197,28 @@ class Parser(object):
                       | struct_def
                       | union_def'''
 
-    def _check_included_names(self, nodes, line, pos):
-        for node in model.Include('', nodes).defined_symbols():
-            for symbol in [node] + (node.members if isinstance(node, model.Enum) else []):
-                known = self.constdecls.get(symbol.name) or self.typedecls.get(symbol.name)
-                self._parser_check(
-                    (known or self.included.setdefault(symbol.name, symbol)) is symbol,
-                    "name '{}' redefined by included file".format(symbol.name),
-                    line, pos
-                )
+    def _check_included_names(self, stem, nodes, line, pos):
+        """ The same file may be reached by different paths, e.g. through links. """
+
+        def symbols(stem_, nodes_, visited):
+            for node in nodes_:
+                if isinstance(node, model.Include):
+                    if id(node.members) not in visited:
+                        visited.add(id(node.members))
+                        for symbol_ in symbols(node.name, node.members, visited):
+                            yield symbol_
+                else:
+                    for symbol_ in [node] + (node.members if isinstance(node, model.Enum) else []):
+                        yield stem_, symbol_
+
+        for origin, symbol in symbols(stem, nodes, set()):
+            known = self.constdecls.get(symbol.name) or self.typedecls.get(symbol.name)
+            first = self.included.setdefault(symbol.name, (origin if known is None else None, known or symbol))
+            self._parser_check(
+                first[1] is symbol or first == (origin, symbol),
+                "name '{}' redefined by included file".format(symbol.name),
+                line, pos
+            )
 
     def p_include_def(self, t):
         """include_def : '#' ID PATH"""
@@ -224,7 +237,7 @@ class Parser(object):
             self._parser_error(str(e), t.lineno(3), t.lexpos(3))
             nodes = []
 
-        self._check_included_names(nodes, t.lineno(3), t.lexpos(3))
+        self._check_included_names(stem, nodes, t.lineno(3), t.lexpos(3))
         for node in nodes:
             if isinstance(node, model.Constant):
                 self.constdecls[node.name] = node
-- 
2.43.0


From 0f0857f6d113f84b6d26a165afa3d68a3a22fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:41:33 +0000
Subject: [PATCH 39/41] fix: quote comments of constants in generated Python
 modules

---
 prophyc/generators/python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 64cba53..ca74306 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -99,6 +99,7 @@ else:
         content = u"%s = %s" % (constant.name, constant.value)
         doc = constant.docstring
         if doc:
+            doc = doc.replace(u"\\", u"\\\\").replace(u"'", u"\\'")
             content = u"\'\'\'{}\'\'\'\n{}".format(doc, content)
         return content
 
-- 
2.43.0


From b44125640bfef5a39fb06bea3b6d5a8d68e563b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:55:32 +0000
Subject: [PATCH 40/41] fix: pass the sizers of limited arrays to the parts of
 raw C++ structs

---
 prophyc/generators/cpp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 343764e..68f0b94 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -306,7 +306,7 @@ class _CppSwapTranslator(TranslatorBase):
                     gen_member(last_mem, delimiters)
                 )
             else:
-                return gen_member(last_mem) + ';\n' + 'return payload + 1;\n'
+                return gen_member(last_mem, delimiters) + ';\n' + 'return payload + 1;\n'
 
         def gen_main(main, parts):
             all_names = {mem.name: 'payload' for mem in main}
@@ -321,7 +321,8 @@ class _CppSwapTranslator(TranslatorBase):
                         if mem.bound and mem.bound not in names]
 
             def gen_missing(part_number):
-                return ''.join(', {0}->{1}'.format(x[0], x[1]) for x in get_missing(part_number))
+                missing = get_missing(part_number)
+                return ''.join(', {0}->{1}'.format(x[0], x[1]) for x in sorted(set(missing), key=missing.index))
 
             members = ''.join(gen_member(mem) + ';\n' for mem in main[:-1])
             if parts:
@@ -341,6 +342,7 @@ class _CppSwapTranslator(TranslatorBase):
         def gen_part(part_number, part):
             names = [mem.name for mem in part]
             delimiters = [mem.bound for mem in part if mem.bound and mem.bound not in names]
+            delimiters = sorted(set(delimiters), key=delimiters.index)
             members = ''.join(gen_member(mem, delimiters) + ';\n' for mem in part[:-1])
             members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part[-1], delimiters)
             delimiters_list = ''.join(', size_t {0}'.format(x) for x in delimiters)
-- 
2.43.0


From 76a6f9908ca6cbf0d938921f52266a5f2d0056e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:30 +0000
Subject: [PATCH 41/41] fix: aliases and union arms of isar bytes in generated
 Python modules

---
 prophyc/generators/python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index ca74306..c29f36c 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -41,7 +41,7 @@ def _form_struct_member(member):
 
 
 def _form_union_member(member):
-    prefixed_type = u"%s.%s" % (libname, member.type_name) if member.type_name in primitive_types else member.type_name
+    prefixed_type = primitive_types.get(member.type_name, member.type_name)
     return u"('%s', %s, %s)" % (member.name, prefixed_type, member.discriminator)
 
 
@@ -106,7 +106,7 @@ else:
     @staticmethod
     def translate_typedef(typedef):
         if typedef.type_name in primitive_types:
-            value = u"{0}.{1}".format(libname, typedef.type_name)
+            value = primitive_types[typedef.type_name]
         else:
             value = typedef.type_name
 
-- 
2.43.0

