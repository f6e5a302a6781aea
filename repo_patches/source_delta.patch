From 0da7d80e4f679acfdb5a2fadc0341e89395ca104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:28 +0000
Subject: [PATCH 01/42] fix: align optional fields to their flag in the Python
 codec

The flag of an optional field is a 32-bit number, so the field is aligned to
at least 4. The codec padded such fields and computed struct sizes by the
alignment and size of the value alone.
---
 prophy/composite.py  | 12 ++++++++++--
 prophy/generators.py | 12 ++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index bcf498d..55e2764 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -10,6 +10,14 @@ def distance_to_next_multiply(number, alignment):
     return (alignment - remainer) % alignment
 
 
+def wire_alignment(type_):
+    return type_._OPTIONAL_ALIGNMENT if type_._OPTIONAL else type_._ALIGNMENT
+
+
+def wire_size(type_):
+    return type_._OPTIONAL_SIZE if type_._OPTIONAL else type_._SIZE
+
+
 def field_to_string(name, type_, value):
     single_indent_level = " " * 2
 
@@ -60,7 +68,7 @@ class struct(_composite_base):
         data = b""
 
         for field in self._descriptor:
-            data += (self._get_padding(len(data), field.type._ALIGNMENT))
+            data += (self._get_padding(len(data), wire_alignment(field.type)))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
             if field.type._PARTIAL_ALIGNMENT:
@@ -78,7 +86,7 @@ class struct(_composite_base):
         start_pos = pos
 
         for field in self._descriptor:
-            pos += self._get_padding_size(pos, field.type._ALIGNMENT)
+            pos += self._get_padding_size(pos, wire_alignment(field.type))
             try:
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
diff --git a/prophy/generators.py b/prophy/generators.py
index 0b3f72c..df92a9a 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -1,7 +1,7 @@
 import collections
 
 from .base_array import base_array
-from .composite import codec_kind, distance_to_next_multiply, struct_packed
+from .composite import codec_kind, distance_to_next_multiply, struct_packed, wire_alignment, wire_size
 from .descriptor import DescriptorField
 from .exception import ProphyError
 from .scalar import u32
@@ -201,25 +201,25 @@ class struct_generator(_composite_generator_base):
         cls._DYNAMIC = any(type_._DYNAMIC for type_ in cls._types())
         cls._OPTIONAL = False
         cls._PARTIAL_ALIGNMENT = None
-        cls._SIZE = sum((type_._OPTIONAL_SIZE if type_._OPTIONAL else type_._SIZE) for type_ in cls._types())
+        cls._SIZE = sum(wire_size(type_) for type_ in cls._types())
         cls._UNLIMITED = any(type_._UNLIMITED for type_ in cls._types())
         if not cls._descriptor:
             cls._ALIGNMENT = 1
         else:
-            cls._ALIGNMENT = max((t._OPTIONAL_ALIGNMENT if t._OPTIONAL else t._ALIGNMENT) for t in cls._types())
+            cls._ALIGNMENT = max(wire_alignment(type_) for type_ in cls._types())
 
         alignment = 1
         for type_ in reversed(list(cls._types())):
             if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
                 type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
-            alignment = max(type_._ALIGNMENT, alignment)
+            alignment = max(wire_alignment(type_), alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
 
             def get_padded_sizes():
                 types = list(cls._types())
-                sizes = [tp._SIZE for tp in types]
-                alignments = [tp._ALIGNMENT for tp in types[1:]] + [cls._ALIGNMENT]
+                sizes = [wire_size(tp) for tp in types]
+                alignments = [wire_alignment(tp) for tp in types[1:]] + [cls._ALIGNMENT]
                 offset = 0
 
                 for size, alignment in zip(sizes, alignments):
-- 
2.43.0


From 0beee07a144e0db1a0ccf06bda81842abb439278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:27 +0000
Subject: [PATCH 02/42] fix: start a new block after a nested dynamic struct in
 the Python codec

The encoding rules split a struct into blocks after every dynamic field. The
codec did it only after dynamic arrays and bytes. The block alignment is now
kept per field, because a nested type may be shared by several structs.
---
 prophy/composite.py  |  8 ++++----
 prophy/descriptor.py |  5 +++--
 prophy/generators.py | 10 ++++++----
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 55e2764..2f0f855 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -71,8 +71,8 @@ class struct(_composite_base):
             data += (self._get_padding(len(data), wire_alignment(field.type)))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
-            if field.type._PARTIAL_ALIGNMENT:
-                data += self._get_padding(len(data), field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                data += self._get_padding(len(data), field.partial_alignment)
 
         data += self._get_padding(len(data), self._ALIGNMENT)
 
@@ -91,8 +91,8 @@ class struct(_composite_base):
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
                 raise ProphyError("{}: {}".format(self.__class__.__name__, e))
-            if field.type._PARTIAL_ALIGNMENT:
-                pos += self._get_padding_size(pos, field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                pos += self._get_padding_size(pos, field.partial_alignment)
 
         pos += self._get_padding_size(pos, self._ALIGNMENT)
 
diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 250d631..e8a426e 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -11,16 +11,17 @@ FieldDescriptor.__repr__ = lambda self: "<{}, {!r}, {!r}>".format(*self)
 
 class DescriptorField(renew.Mold):
     _cls_namespace = "prophy.descriptor"
-    _extra_slots = "encode_fcn", "decode_fcn"
+    _extra_slots = "encode_fcn", "decode_fcn", "partial_alignment"
 
     def __init__(self, name, type, discriminator=None):
         self.name = name
         self.type = type
         self.discriminator = discriminator
-        # These two are set later in extend_descriptor
+        # These are set later in extend_descriptor and add_attributes
         # their value don't affect __eq__ & __ne__ result
         self.encode_fcn = None
         self.decode_fcn = None
+        self.partial_alignment = None
 
     def __repr__(self):
         is_union_descriptor = self.discriminator is not None
diff --git a/prophy/generators.py b/prophy/generators.py
index df92a9a..76b01ee 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -209,11 +209,13 @@ class struct_generator(_composite_generator_base):
             cls._ALIGNMENT = max(wire_alignment(type_) for type_ in cls._types())
 
         alignment = 1
-        for type_ in reversed(list(cls._types())):
-            if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
-                type_._PARTIAL_ALIGNMENT = alignment
+        for field in reversed(cls._descriptor):
+            if field.type._DYNAMIC:
+                field.partial_alignment = alignment
+                if issubclass(field.type, (base_array, bytes)):
+                    field.type._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
-            alignment = max(wire_alignment(type_), alignment)
+            alignment = max(wire_alignment(field.type), alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
 
             def get_padded_sizes():
-- 
2.43.0


From 0dea86307913d1be92ed5432ca275f9fdd9fbf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:04 +0000
Subject: [PATCH 03/42] fix: decode optional enums which have no enumerator 1

The decoder set the field to True before decoding the value. For an enum that
assignment is rejected unless 1 is one of its values.
---
 prophy/descriptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index e8a426e..4797fe0 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -102,8 +102,9 @@ def decode_optional(parent, name, type_, data, pos, endianness, len_hints):
     value, _ = type_._optional_type._decode(data, pos, endianness)
     opt_alignment = type_._OPTIONAL_ALIGNMENT
     if value:
-        setattr(parent, name, True)
         sub_type = type_.__bases__[0]
+        if codec_kind.is_composite(sub_type):
+            setattr(parent, name, True)
         pos += opt_alignment
         return opt_alignment + type_._decode(parent, name, sub_type, data, pos, endianness, len_hints)
     else:
-- 
2.43.0


From 70d83d857ae63755d569520967ec8935753a087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:30 +0000
Subject: [PATCH 04/42] fix: encode and print bytes fields which were never set

The default of a non-fixed bytes field is an empty text, not empty bytes, so
encoding an untouched message raised TypeError on Python 3.
---
 prophy/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 2f0f855..e11471b 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -29,7 +29,7 @@ def field_to_string(name, type_, value):
     elif issubclass(type_, (struct, union)):
         return "%s {\n%s}\n" % (name, indent(str(value)))
     elif issubclass(type_, bytes):
-        return "%s: %s\n" % (name, repr_bytes(value))
+        return "%s: %s\n" % (name, repr_bytes(value or b""))
     elif issubclass(type_, enum):
         return "%s: %s\n" % (name, type_._int_to_name[value])
     else:
@@ -220,7 +220,7 @@ def bytes_(**kwargs):
 
         @staticmethod
         def _encode(value):
-            return value.ljust(size, b'\x00')
+            return (value or b"").ljust(size, b'\x00')
 
         @staticmethod
         def _decode(data, pos, len_hint):
-- 
2.43.0


From c37b567c990ed62c43328d4bb1f81aa4270de2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:39 +0000
Subject: [PATCH 05/42] fix: honour the step of a slice assigned to a scalar
 array

The step was dropped, so a[::2] = values replaced the whole array.
---
 prophy/container.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index 8811bd4..24b0441 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -45,15 +45,15 @@ class fixed_scalar_array(base_array):
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            if len(self._values[idx]) != len(value):
+                raise ProphyError("setting slice with different length collection")
+            self._values[idx] = map(self._TYPE._check, value)
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if len(self._values[start:stop]) != len(values):
-            raise ProphyError("setting slice with different length collection")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __eq__(self, other):
         return scalar_array_eq(self, other)
@@ -96,15 +96,15 @@ class bound_scalar_array(base_array):
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            if self._max_len and len(self) + len(value) - len(self._values[idx]) > self._max_len:
+                raise ProphyError("exceeded array limit")
+            self._values[idx] = map(self._TYPE._check, value)
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if self._max_len and len(self) + len(values) - len(self._values[start:stop]) > self._max_len:
-            raise ProphyError("exceeded array limit")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From 4a6a2b0192e710712349955cf660f6ade4b1d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:10 +0000
Subject: [PATCH 06/42] fix: leave an array unchanged when extend() or add() is
 rejected

Elements were stored before the next one was validated. Extending an array
with itself never ended.
---
 prophy/container.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index 24b0441..74ea7d2 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -89,7 +89,7 @@ class bound_scalar_array(base_array):
             return
         if self._max_len and len(self) + len(values) > self._max_len:
             raise ProphyError("exceeded array limit")
-        self._values.extend(map(self._TYPE._check, values))
+        self._values.extend([self._TYPE._check(value) for value in values])
 
     def remove(self, elem):
         self._values.remove(elem)
@@ -156,13 +156,15 @@ class bound_composite_array(base_array):
             raise ProphyError("exceeded array limit")
 
         new_element = self._TYPE()
-        self._values.append(new_element)
         for name, value in attributes.items():
+            if not hasattr(new_element, name):
+                raise ProphyError("{} has no field '{}'".format(self._TYPE.__name__, name))
             attr = getattr(new_element, name)
             if isinstance(attr, base_array):
                 attr[:] = value
             else:
                 setattr(new_element, name, value)
+        self._values.append(new_element)
         return new_element
 
     def extend(self, elem_seq):
@@ -170,10 +172,12 @@ class bound_composite_array(base_array):
             raise ProphyError("exceeded array limit")
 
         composite_cls = self._TYPE
+        new_elements = []
         for message in elem_seq:
             new_element = composite_cls()
             new_element.copy_from(message)
-            self._values.append(new_element)
+            new_elements.append(new_element)
+        self._values.extend(new_elements)
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From d1aa734e80baeeca8fba9c472f775548fa618255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:45 +0000
Subject: [PATCH 07/42] fix: reject floats which the field cannot hold

Such values were stored and made encode() raise OverflowError.
---
 prophy/scalar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index afd157a..8e45d45 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -65,6 +65,10 @@ def float_decorator(size, id_):
         def check(value):
             if not isinstance(value, (float, int, long)):
                 raise ProphyError("not a float")
+            try:
+                struct.pack(id_, value)
+            except OverflowError:
+                raise ProphyError("value out of {}B float's bounds".format(size))
             return value
 
         cls._check = check
-- 
2.43.0


From ab69adf3ec33eda6172799c4233535a98b9d33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:14 +0000
Subject: [PATCH 08/42] fix: do not let an array outgrow its sizer

An array bound to a narrow sizer accepted more elements than the sizer can
count and then could not be encoded.
---
 prophy/composite.py  | 3 ++-
 prophy/generators.py | 2 ++
 prophy/scalar.py     | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index e11471b..b60a72d 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -207,12 +207,13 @@ def bytes_(**kwargs):
         _BOUND_SHIFT = shift
         _PARTIAL_ALIGNMENT = None
         _is_prophy_object = True
+        _max_len = size
 
         @staticmethod
         def _check(value):
             if not isinstance(value, bytes):
                 raise ProphyError("not a bytes")
-            if size and len(value) > size:
+            if _bytes._max_len and len(value) > _bytes._max_len:
                 raise ProphyError("too long")
             if size and not bound:
                 return value.ljust(size, b'\x00')
diff --git a/prophy/generators.py b/prophy/generators.py
index 76b01ee..1f780a6 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -307,6 +307,8 @@ class struct_generator(_composite_generator_base):
         sizer_item = next(field for field in cls._descriptor if field.name == sizer_name)
         bound_shift = container_item.type._BOUND_SHIFT
         cls.validate_sizer_type(sizer_item, container_item)
+        if not container_item.type._max_len:
+            container_item.type._max_len = sizer_item.type._MAX - bound_shift
 
         if sizer_item.type.__name__ == "container_len":
             sizer_item.type.add_bounded_container(container_item.name)
diff --git a/prophy/scalar.py b/prophy/scalar.py
index 8e45d45..6f66758 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -51,6 +51,7 @@ def int_decorator(size, id_, min_, max_):
         cls._check = check
 
         cls._DEFAULT = 0
+        cls._MAX = max_
 
         return cls
 
-- 
2.43.0


From 4c70c75ceea477d9b5815515ba39349d63f740f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:29 +0000
Subject: [PATCH 09/42] fix: copy limited composite arrays and optional
 composites in copy_from()

Elements of limited arrays were lost, an optional composite absent in the
target raised AttributeError.
---
 prophy/composite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index b60a72d..e8afcfe 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -109,7 +109,7 @@ class struct(_composite_base):
         lhs = getattr(self, name)
         if isinstance(rhs, base_array):
             if codec_kind.is_composite(rhs._TYPE):
-                if rhs._DYNAMIC:
+                if rhs._DYNAMIC or rhs._BOUND:
                     del lhs[:]
                     lhs.extend(rhs[:])
                 else:
@@ -118,6 +118,9 @@ class struct(_composite_base):
             else:
                 lhs[:] = rhs[:]
         elif codec_kind.is_composite(type(rhs)):
+            if lhs is None:
+                setattr(self, name, True)
+                lhs = getattr(self, name)
             lhs.copy_from(rhs)
         else:
             self._fields[name] = rhs
-- 
2.43.0


From dd1ea573cf7cc16e51d9856690b208dcad2dc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:50 +0000
Subject: [PATCH 10/42] fix: never classify an unlimited struct or a typedef as
 a lesser stiffness

---
 prophyc/model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 08234b8..4f43719 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -332,12 +332,11 @@ class _SerializableContainer(_Container, _Serializable):
                 for member in self.members:
                     member.calc_wire_stiffness()
 
+                self.kind = max(x.kind for x in self.members)
                 if self.members[-1].greedy:
                     self.kind = Kind.UNLIMITED
                 elif any(x.is_dynamic for x in self.members):
-                    self.kind = Kind.DYNAMIC
-                else:
-                    self.kind = max(x.kind for x in self.members)
+                    self.kind = max(self.kind, Kind.DYNAMIC)
 
 
 class Struct(_SerializableContainer):
@@ -492,9 +491,9 @@ def to_int(x, constants):
 
 
 def evaluate_stiffness_kinds(nodes):
-    """Adds kind to all Structs and StructMembers. Requires cross referenced nodes."""
+    """Adds kind to all Typedefs, Structs and StructMembers. Requires cross referenced nodes."""
     for node in nodes:
-        if isinstance(node, Struct):
+        if isinstance(node, (Typedef, Struct)):
             node.calc_wire_stiffness()
 
 
-- 
2.43.0


From 9ac987b11ee7352d143157d9e8cfedb2cafa7bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:27 +0000
Subject: [PATCH 11/42] fix: divide constants as integers

---
 prophyc/calc.py           | 2 +-
 prophyc/parsers/prophy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 5b554c6..0e03b45 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -74,7 +74,7 @@ class Calc(object):
         elif p[2] == '*':
             p[0] = p[1] * p[3]
         elif p[2] == '/':
-            p[0] = p[1] / p[3]
+            p[0] = p[1] // p[3]
         elif p[2] == '<<':
             p[0] = p[1] << p[3]
         elif p[2] == '>>':
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 0ab25ad..dbc6505 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -415,7 +415,7 @@ class Parser(object):
             elif t[2] == '*':
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
-                t[0] = t[1] / t[3]
+                t[0] = t[1] // t[3]
             elif t[2] == '<<':
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
-- 
2.43.0


From 72591e3fb2dad52712f6ac145b41b80a88dbc257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 12/42] fix: give every generator the number an expression
 denotes

---
 prophyc/model.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 4f43719..3c1bf58 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -1,3 +1,4 @@
+import re
 from itertools import islice
 
 import renew
@@ -490,6 +491,36 @@ def to_int(x, constants):
         return val if val is not None else calc.eval(x, constants)
 
 
+def evaluate_expressions(nodes, constants):
+    """
+    Replaces expressions with the numbers they denote, so that all generators use the same ones.
+    Plain names and numbers, which all output languages read alike, are left as they are.
+    """
+    plain = re.compile(r'([A-Za-z_]\w*|-?(0|[1-9]\d*)|0[xX][0-9a-fA-F]+)$')
+
+    def evaluate(value):
+        if not isinstance(value, six.string_types) or plain.match(value):
+            return value
+        try:
+            number = to_int(value, constants)
+        except (calc.ParseError, ValueError, ZeroDivisionError):
+            return value
+        return str(number)
+
+    for node in nodes:
+        if isinstance(node, Constant):
+            node._value = evaluate(node.value)
+        elif isinstance(node, Enum):
+            for member in node.members:
+                member._value = evaluate(member.value)
+        elif isinstance(node, Struct):
+            for member in node.members:
+                member.size = evaluate(member.size)
+        elif isinstance(node, Union):
+            for member in node.members:
+                member.discriminator = evaluate(member.discriminator)
+
+
 def evaluate_stiffness_kinds(nodes):
     """Adds kind to all Typedefs, Structs and StructMembers. Requires cross referenced nodes."""
     for node in nodes:
@@ -635,5 +666,6 @@ class ModelParser(object):
         nodes = self.parser.parse(*parse_args)
         if self.patcher:
             self.patcher(nodes)
-        nodes, _ = evaluate_model(nodes, self.emit.warn)
+        nodes, constants = evaluate_model(nodes, self.emit.warn)
+        evaluate_expressions(nodes, constants)
         return nodes
-- 
2.43.0


From 7937dc37f01e1c0fba95f8af0969e8dd10032460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:32 +0000
Subject: [PATCH 13/42] fix: multiply two-dimensional isar array sizes as a
 whole

---
 prophyc/parsers/isar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 0567e94..cdf0248 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -1,4 +1,5 @@
 import os
+import re
 import xml.etree.ElementTree as ElementTree
 
 from prophyc import model, six
@@ -141,7 +142,7 @@ def make_struct_members(xml_elem, dynamic_array=False):
             size = dimension.get("size", None)
             size2 = dimension.get("size2", None)
             if size2:
-                size = "{}*{}".format(size, size2)
+                size = "*".join(x if re.match(r"\w+$", x) else "({})".format(x) for x in (str(size), size2))
             if optional:
                 yield model.StructMember("has_" + xml_elem_name, "u32", docstring="implicit enabler for optional field")
 
-- 
2.43.0


From c978b7b6ee602e63766ece6a266ccd453daec82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:32 +0000
Subject: [PATCH 14/42] fix: report constant expressions which have no value

---
 prophyc/calc.py           | 22 ++++++++++++++++------
 prophyc/model.py          |  2 +-
 prophyc/parsers/prophy.py |  8 +++++++-
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 0e03b45..03c4f46 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -2,6 +2,9 @@ import ply.lex as lex
 import ply.yacc as yacc
 
 
+MAX_SHIFT = 1024
+
+
 class ParseError(Exception):
     pass
 
@@ -28,7 +31,10 @@ class Calc(object):
 
     def eval(self, expr, vars_):
         self.vars = vars_
-        return self.parser.parse(expr, lexer=self.lexer)
+        try:
+            return self.parser.parse(expr, lexer=self.lexer)
+        except ArithmeticError as e:
+            raise ParseError("%s in '%s'" % (e, expr))
 
     @staticmethod
     def t_CONST16(t):
@@ -75,10 +81,10 @@ class Calc(object):
             p[0] = p[1] * p[3]
         elif p[2] == '/':
             p[0] = p[1] // p[3]
-        elif p[2] == '<<':
-            p[0] = p[1] << p[3]
-        elif p[2] == '>>':
-            p[0] = p[1] >> p[3]
+        elif p[2] in ('<<', '>>'):
+            if not 0 <= p[3] < MAX_SHIFT:
+                raise ParseError("shift count '%s' out of range" % p[3])
+            p[0] = p[1] << p[3] if p[2] == '<<' else p[1] >> p[3]
         elif p[2] == '|':
             p[0] = p[1] | p[3]
 
@@ -102,13 +108,17 @@ class Calc(object):
         """expression : NAME"""
         try:
             p[0] = p[1]
+            visited = set()
             while not isinstance(p[0], int):
+                if p[0] in visited:
+                    raise LookupError(p[0])
+                visited.add(p[0])
                 p[0] = self.vars[p[0]]
         except LookupError:
             raise ParseError("numeric constant '%s' not found" % p[1])
 
     def p_error(self, p):
-        raise ParseError("syntax error at '%s'" % p.value)
+        raise ParseError("syntax error at '%s'" % (p.value if p else 'end of expression'))
 
 
 calc = Calc()
diff --git a/prophyc/model.py b/prophyc/model.py
index 3c1bf58..becb228 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -488,7 +488,7 @@ def to_int(x, constants):
         return int(x)
     except ValueError:
         val = constants.get(x)
-        return val if val is not None else calc.eval(x, constants)
+        return val if isinstance(val, int) else calc.eval(x, constants)
 
 
 def evaluate_expressions(nodes, constants):
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index dbc6505..e0722ac 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -4,7 +4,7 @@ from contextlib import contextmanager
 import ply.lex as lex
 import ply.yacc as yacc
 
-from prophyc import file_processor, model, six
+from prophyc import calc, file_processor, model, six
 
 
 def get_column(input_, pos):
@@ -416,6 +416,12 @@ class Parser(object):
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
                 t[0] = t[1] // t[3]
+            elif not 0 <= t[3] < calc.MAX_SHIFT:
+                self._parser_error(
+                    "shift count '{}' out of range".format(t[3]),
+                    t.lineno(1), t.lexpos(1)
+                )
+                t[0] = 0
             elif t[2] == '<<':
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
-- 
2.43.0


From 4fecc1767dfd8c332f3c388b6ee243777d3d09ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:10 +0000
Subject: [PATCH 15/42] fix: order definitions after the enumerators, sizes and
 discriminators they use and report cycles

---
 prophyc/model.py | 64 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index becb228..780a884 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -99,12 +99,7 @@ class Constant(ModelNode):
                 return None
 
     def dependencies(self):
-        def sub_(x, y):
-            return x.replace(y, " ")
-
-        for symbol in six.reduce(sub_, "()+-", self.value).split():
-            if not symbol.isdigit():
-                yield symbol
+        return _symbols_in(self.value)
 
 
 class EnumMember(Constant):
@@ -190,6 +185,9 @@ class StructMember(Typedef):
         """amount of bytes to add before next field. If field dynamic: negative alignment of next field"""
         self.padding = None
 
+    def dependencies(self):
+        return [self.type_name] + _symbols_in(self.size)
+
     @property
     def is_array(self):
         return self.bound or self.size or self.greedy
@@ -233,6 +231,9 @@ class UnionMember(Typedef):
         super(UnionMember, self).__init__(name, type_name, definition, docstring)
         self.discriminator = discriminator
 
+    def dependencies(self):
+        return [self.type_name] + _symbols_in(self.discriminator)
+
 
 """ Composite kinds """
 
@@ -317,8 +318,9 @@ class Enum(_Container):
     __slots__ = ()
 
     def dependencies(self):
-        for member in self.members:
-            yield member.name
+        """ Enumerators may refer to the ones defined above them in the same enum. """
+        own = set(member.name for member in self.members)
+        return [dep for dep in super(Enum, self).dependencies() if dep not in own]
 
 
 class _SerializableContainer(_Container, _Serializable):
@@ -364,6 +366,13 @@ def _check_string(docstring, what_):
     return six.decode_string(docstring)
 
 
+def _symbols_in(expression):
+    """ Names used in constant expression. """
+    if not isinstance(expression, six.string_types):
+        return []
+    return re.findall(r'\b[A-Za-z_]\w*', expression)
+
+
 def split_after(nodes, predicate):
     part = []
     for x in nodes:
@@ -383,26 +392,38 @@ def null_warn(_):
 
 
 def topological_sort(nodes):
-    """Sorts nodes."""
+    """Sorts nodes, so that each one follows nodes it depends on."""
+
+    def get_symbols(node):
+        yield node.name
+        if isinstance(node, Enum):
+            for member in node.members:
+                yield member.name
 
-    def find_first_dep(dependency, start_index):
+    def find_node(searched, start_index):
         for i, n in enumerate(islice(nodes, start_index, None), start_index):
-            if n.name == dependency:
+            if n is searched:
                 return i
 
     def model_sort_rotate():
         node = nodes[index]
         for dep in node.dependencies():
             if dep not in known and dep in available:
-                found_index = find_first_dep(dep, index + 1)
-                if found_index:
-                    nodes.insert(index, nodes.pop(found_index))
+                found_index = find_node(available[dep], index + 1)
+                if not found_index or id(node) in rotated:
+                    raise ModelError("definition of '%s' depends on itself" % node.name)
+                rotated.add(id(node))
+                nodes.insert(index, nodes.pop(found_index))
                 return True
-        known.add(node.name)
+        known.update(get_symbols(node))
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
-    available = set(node.name for node in nodes)
+    available = {}
+    for node in nodes:
+        for symbol in get_symbols(node):
+            available.setdefault(symbol, node)
     for index in range(len(nodes)):
+        rotated = set()
         while model_sort_rotate():
             pass
 
@@ -663,9 +684,12 @@ class ModelParser(object):
         self.emit = emit
 
     def __call__(self, *parse_args):
-        nodes = self.parser.parse(*parse_args)
-        if self.patcher:
-            self.patcher(nodes)
-        nodes, constants = evaluate_model(nodes, self.emit.warn)
+        try:
+            nodes = self.parser.parse(*parse_args)
+            if self.patcher:
+                self.patcher(nodes)
+            nodes, constants = evaluate_model(nodes, self.emit.warn)
+        except ModelError as e:
+            raise ParseError([(parse_args[1], str(e))])
         evaluate_expressions(nodes, constants)
         return nodes
-- 
2.43.0


From 9ff495b4187363a46805b22f0d6f7c7fff6d5122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:45 +0000
Subject: [PATCH 16/42] fix: expand isar operators in array sizes and
 discriminators

---
 prophyc/parsers/isar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index cdf0248..a2a235e 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -36,6 +36,8 @@ operators = (
 
 
 def expand_operators(string_):
+    if not string_:
+        return string_
     for operator in operators:
         while True:
             pos = string_.find(operator[0])
@@ -139,8 +141,8 @@ def make_struct_members(xml_elem, dynamic_array=False):
         if dimension is None:
             yield model.StructMember(xml_elem_name, xml_elem_type, optional=optional, docstring=comment)
         else:
-            size = dimension.get("size", None)
-            size2 = dimension.get("size2", None)
+            size = expand_operators(dimension.get("size", None))
+            size2 = expand_operators(dimension.get("size2", None))
             if size2:
                 size = "*".join(x if re.match(r"\w+$", x) else "({})".format(x) for x in (str(size), size2))
             if optional:
@@ -183,7 +185,7 @@ def make_union(xml_elem):
             members.append(model.UnionMember(
                 member.get("name"),
                 member.get("type"),
-                member.get("discriminatorValue"),
+                expand_operators(member.get("discriminatorValue")),
                 docstring=get_docstr(member),
             ))
         return model.Union(xml_elem.get('name'), members, docstring=get_docstr(xml_elem))
-- 
2.43.0


From 412cd03670026417e892aca7f12b192a68885b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:45 +0000
Subject: [PATCH 17/42] fix: replace included enumerators, which generated
 Python does not import, with their values

---
 prophyc/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 780a884..1b3dd15 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -515,12 +515,15 @@ def to_int(x, constants):
 def evaluate_expressions(nodes, constants):
     """
     Replaces expressions with the numbers they denote, so that all generators use the same ones.
-    Plain names and numbers, which all output languages read alike, are left as they are.
+    Numbers and names, which all output languages read alike, are left as they are. Names of included
+    enumerators are not: the Python module imports only the enum itself.
     """
     plain = re.compile(r'([A-Za-z_]\w*|-?(0|[1-9]\d*)|0[xX][0-9a-fA-F]+)$')
+    foreign = set(member.name for node in nodes if isinstance(node, Include)
+                  for symbol in node.defined_symbols() if isinstance(symbol, Enum) for member in symbol.members)
 
     def evaluate(value):
-        if not isinstance(value, six.string_types) or plain.match(value):
+        if not isinstance(value, six.string_types) or plain.match(value) and value not in foreign:
             return value
         try:
             number = to_int(value, constants)
-- 
2.43.0


From 97a4bab32f74f389c4c24bfe20dd57f91f60eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:37 +0000
Subject: [PATCH 18/42] fix: reject arrays and optionals of types which may not
 be in them, and sizers which are arrays or optional

---
 prophyc/parsers/prophy.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index e0722ac..a8c2cbd 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -138,12 +138,28 @@ class Parser(object):
             if member.bound:
                 bound, _, __ = next(six.ifilter(lambda m: m[0].name == member.bound, members[:i]), (None, None, None))
                 if bound:
-                    self._parser_check(self._is_type_sizer_compatible(bound.type_name),
+                    is_plain = not bound.optional and not bound.is_array
+                    self._parser_check(is_plain and self._is_type_sizer_compatible(bound.type_name),
                                        "Sizer of '{}' has to be of (unsigned) integer type".format(name),
                                        line, pos)
                 else:
                     self._parser_error("Sizer of '{}' has to be defined before the array".format(name),
                                        line, pos)
+            self._parser_check(
+                not member.is_array or member.kind != model.Kind.UNLIMITED,
+                "array field '{}' of unlimited type".format(name),
+                line, pos
+            )
+            self._parser_check(
+                not member.size or member.kind != model.Kind.DYNAMIC,
+                "fixed or limited array field '{}' of dynamic type".format(name),
+                line, pos
+            )
+            self._parser_check(
+                not member.optional or member.kind == model.Kind.FIXED,
+                "optional field '{}' of dynamic type".format(name),
+                line, pos
+            )
 
         for member, line, pos in members[:-1]:
             self._parser_check(
-- 
2.43.0


From d5a8922a2343ed597b7b443026534f6b55ad9c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:06 +0000
Subject: [PATCH 19/42] fix: reject names defined twice among included files or
 by an enum and its enumerator

---
 prophyc/parsers/prophy.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index a8c2cbd..63c4ae0 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -111,6 +111,8 @@ class Parser(object):
         self.nodes = []
         self.typedecls = {}
         self.constdecls = {}
+        self.included = {}
+        self.own_names = set()
         self.errors = []
         self.parse_error_prefix = parse_error_prefix
 
@@ -168,6 +170,13 @@ class Parser(object):
                 line, pos
             )
 
+    @staticmethod
+    def _declared_names(node):
+        yield node.name, node
+        if isinstance(node, model.Enum):
+            for member in node.members:
+                yield member.name, member
+
     def _is_type_sizer_compatible(self, typename):
         if typename in {type_ + width for type_ in 'ui' for width in ['8', '16', '32', '64']}:
             return True
@@ -207,6 +216,14 @@ class Parser(object):
             self._parser_error(str(e), t.lineno(3), t.lexpos(3))
             nodes = []
 
+        for node in model.Include(stem, nodes).defined_symbols():
+            for name, symbol in self._declared_names(node):
+                self._parser_check(
+                    self.included.setdefault(name, symbol) is symbol and name not in self.own_names,
+                    "name '{}' redefined".format(name),
+                    t.lineno(3), t.lexpos(3)
+                )
+
         for node in nodes:
             if isinstance(node, model.Constant):
                 self.constdecls[node.name] = node
@@ -401,10 +418,11 @@ class Parser(object):
     def p_unique_id(self, t):
         '''unique_id : ID'''
         self._parser_check(
-            t[1] not in self.typedecls and t[1] not in self.constdecls,
+            t[1] not in self.own_names and t[1] not in self.included,
             "name '{}' redefined".format(t[1]),
             t.lineno(1), t.lexpos(1)
         )
+        self.own_names.add(t[1])
         t[0] = t[1]
 
     def p_positive_expression(self, t):
-- 
2.43.0


From 3850b9fa5ed118b34546941d5d5cc36de57f5bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:14 +0000
Subject: [PATCH 20/42] fix: take negative enumerators as unsigned and reject
 enumerators and discriminators beyond 32 bits

---
 prophyc/parsers/prophy.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 63c4ae0..cb45583 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -170,6 +170,11 @@ class Parser(object):
                 line, pos
             )
 
+    @staticmethod
+    def _to_enumerator(value):
+        """ Enums are unsigned on the wire. """
+        return 0x100000000 + value if -0x80000000 <= value < 0 else value
+
     @staticmethod
     def _declared_names(node):
         yield node.name, node
@@ -262,7 +267,13 @@ class Parser(object):
 
     def p_enum_member(self, t):
         '''enum_member : unique_id EQUALS expression'''
-        member = model.EnumMember(t[1], str(t[3]))
+        value = self._to_enumerator(t[3])
+        self._parser_check(
+            0 <= value < 0x100000000,
+            "enumerator '{}' value '{}' does not fit in 32 bits".format(t[1], t[3]),
+            t.lineno(3), t.lexpos(3)
+        )
+        member = model.EnumMember(t[1], str(value))
         self.constdecls[t[1]] = member
         t[0] = member
 
@@ -385,6 +396,11 @@ class Parser(object):
 
     def p_union_member(self, t):
         '''union_member : expression COLON type_spec ID'''
+        self._parser_check(
+            0 <= t[1] < 0x100000000,
+            "discriminator '{}' does not fit in 32 bits".format(t[1]),
+            t.lineno(1), t.lexpos(1)
+        )
         t[0] = (model.UnionMember(t[4], t[3][0], str(t[1]), definition=t[3][1]), t.lineno(4), t.lexpos(4))
 
     def p_type_spec_1(self, t):
-- 
2.43.0


From 8ce9b178876bd2f59375f5c259ff4bcb816ba769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:37 +0000
Subject: [PATCH 21/42] fix: report names, numbers and sizes which output
 languages cannot express

---
 prophyc/generators/base.py     | 65 ++++++++++++++++++++++++++++++++++
 prophyc/generators/cpp.py      |  5 ++-
 prophyc/generators/cpp_full.py |  8 ++++-
 prophyc/generators/python.py   | 13 ++++++-
 4 files changed, 88 insertions(+), 3 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 3576768..f3be7e3 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -8,6 +8,71 @@ class GenerateError(Exception):
     pass
 
 
+CPP_RESERVED = frozenset("""
+    alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const
+    const_cast constexpr continue decltype default delete do double dynamic_cast else enum explicit export extern false
+    float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private
+    protected public register reinterpret_cast return short signed sizeof static static_assert static_cast struct switch
+    template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t
+    while xor xor_eq linux unix size_t int8_t int16_t int32_t int64_t uint8_t uint16_t uint32_t uint64_t std prophy
+    """.split())
+""" Names which C++ definitions and fields may not have. """
+
+
+def _get_names_used_by(node):
+    """ Names which C++ looks up inside of a composite, so its fields may not hide them. """
+    yield node.name
+    for member in node.members:
+        yield member.type_name
+        definition = member.definition
+        while isinstance(definition, model.Typedef):
+            definition = definition.definition
+        if isinstance(definition, model.Enum):
+            for enumerator in definition.members:
+                yield enumerator.name
+        if getattr(member, 'size', None):
+            yield member.size
+        if getattr(member, 'optional', None):
+            yield 'has_' + member.name
+
+
+def check_cpp_nodes(nodes, reserved_fields):
+    """ Raises an error if there's something, which C++ cannot express. """
+    check_names(nodes, CPP_RESERVED, CPP_RESERVED.union(reserved_fields))
+    for node in nodes:
+        if isinstance(node, model.Constant):
+            try:
+                value = int(node.value, 0)
+            except ValueError:
+                continue
+            if not -2 ** 63 <= value < 2 ** 64:
+                raise GenerateError("'{}' does not fit in 64 bits".format(node.name))
+        elif isinstance(node, (model.Struct, model.Union)):
+            used = set(_get_names_used_by(node))
+            for member in node.members:
+                if member.name in used:
+                    raise GenerateError("field '{}' of '{}' hides a name used there".format(member.name, node.name))
+            if node.byte_size >= 2 ** 63:
+                raise GenerateError("byte size of '{}' is too big".format(node.name))
+
+
+def check_names(nodes, reserved, reserved_fields):
+    """ Raises an error if there's a name, which is reserved in output language. """
+    for node in nodes:
+        if isinstance(node, model.Include):
+            continue
+        if node.name in reserved:
+            raise GenerateError("name '{}' is reserved".format(node.name))
+        if isinstance(node, model.Enum):
+            for member in node.members:
+                if member.name in reserved:
+                    raise GenerateError("name '{}' is reserved".format(member.name))
+        elif isinstance(node, (model.Struct, model.Union)):
+            for member in node.members:
+                if member.name in reserved_fields or isinstance(node, model.Union) and member.name == 'discriminator':
+                    raise GenerateError("field name '{}' of '{}' is reserved".format(member.name, node.name))
+
+
 def _write_file(file_path, string):
     with codecs.open(file_path, "w", encoding="utf-8") as f:
         f.write(string)
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7593f21..c3d48bb 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,5 +1,5 @@
 from prophyc import model
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_cpp_nodes
 
 primitive_types = {
     'u8': 'uint8_t',
@@ -23,6 +23,8 @@ def _indent(string_, spaces):
 
 def _to_literal(value):
     try:
+        if int(value, 0) == -2 ** 63:
+            return '(-{} - 1)'.format(2 ** 63 - 1)
         return '{}{}'.format(value, int(value, 0) > 0 and 'u' or '')
     except ValueError:
         return value
@@ -374,3 +376,4 @@ class CppGenerator(GeneratorBase):
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
+        check_cpp_nodes(nodes, ())
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 7462e4f..f9d0805 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,6 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_cpp_nodes
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -16,6 +16,9 @@ BUILTIN2C = {
     'r64': 'double'
 }
 
+""" Names, which fields may not have: members of message class. """
+RESERVED_FIELDS = frozenset(('encode', 'decode', 'print', 'get_byte_size', 'encoded_byte_size', 'array', 'optional'))
+
 
 # flake8: noqa E501
 
@@ -65,6 +68,8 @@ def _get_cpp_builtin_type(node):
 
 def _to_literal(value):
     try:
+        if int(value, 0) == -2 ** 63:
+            return '(-{} - 1)'.format(2 ** 63 - 1)
         return '{}{}'.format(value, int(value, 0) > 0 and 'u' or '')
     except ValueError:
         return value
@@ -625,3 +630,4 @@ class CppFullGenerator(GeneratorBase):
                                                 'not supported'.format(m.bound, n.name))
                         else:
                             occured.add(m.bound)
+        check_cpp_nodes(nodes, RESERVED_FIELDS)
diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 01d596f..d7bc5a1 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -1,10 +1,18 @@
+import keyword
+
 from prophyc.generators import word_wrap
-from prophyc.generators.base import GeneratorBase, TranslatorBase
+from prophyc.generators.base import GeneratorBase, TranslatorBase, check_names
 
 libname = u"prophy"
 primitive_types = {x + y: u"%s.%s" % (libname, x + y) for x in u"uir" for y in ["8", "16", "32", "64"]}
 primitive_types['byte'] = u'%s.u8' % libname
 
+""" Names, which definitions may not have. """
+RESERVED = frozenset(keyword.kwlist) | {'None', 'True', 'False', 'print', 'exec', 'sys', libname}
+
+""" Names, which fields may not have: attributes of composites. """
+RESERVED_FIELDS = frozenset(('encode', 'decode', 'copy_from', 'get_descriptor', 'get_discriminated', 'set_field'))
+
 
 def _make_list(repr_function, members):
     if not members:
@@ -162,3 +170,6 @@ class PythonGenerator(GeneratorBase):
     top_level_translators = {
         ".py": _PythonTranslator
     }
+
+    def check_nodes(self, nodes):
+        check_names(nodes, RESERVED, RESERVED_FIELDS)
-- 
2.43.0


From f19b11b0e81ea570cc2d7371e2e2fa93fce0c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:58 +0000
Subject: [PATCH 22/42] fix: compile unions with discriminators above 31 bits

---
 prophy_cpp/include/prophy/detail/mpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/mpl.hpp b/prophy_cpp/include/prophy/detail/mpl.hpp
index 04bbe59..2d2e8e9 100644
--- a/prophy_cpp/include/prophy/detail/mpl.hpp
+++ b/prophy_cpp/include/prophy/detail/mpl.hpp
@@ -17,7 +17,7 @@ struct is_class_or_union
     static const bool value = sizeof(is_class_or_union_tester<T>(0)) == sizeof(char);
 };
 
-template <int I>
+template <unsigned int I>
 struct int2type
 {
     enum { value = I };
-- 
2.43.0


From 4faf97cfe50ca74e69615dd298e7d17950095146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:31 +0000
Subject: [PATCH 23/42] fix: compile printing of enums with several names for
 one value

---
 prophyc/generators/cpp_full.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index f9d0805..c99ece2 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -75,6 +75,13 @@ def _to_literal(value):
         return value
 
 
+def _to_number(value):
+    try:
+        return int(value, 0)
+    except ValueError:
+        return value
+
+
 class _HppIncludesTranslator(TranslatorBase):
     block_template = "{content}"
 
@@ -215,6 +222,7 @@ class _CppTranslator(TranslatorBase):
     block_template = CPP_SOURCE_TEMPLATE
 
     def translate_enum(self, node):
+        named = {_to_number(m.value): m for m in node.members}
         return (
                 'template <>\n' +
                 'const char* print_traits<{0}>::to_literal({0} x)\n'.format(node.name) +
@@ -223,7 +231,8 @@ class _CppTranslator(TranslatorBase):
                     'switch (x)\n' +
                     '{\n' +
                     _indent(
-                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in node.members) +
+                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in node.members
+                                if named[_to_number(m.value)] is m) +
                         'default: return 0;\n'
                     ) +
                     '}\n'
-- 
2.43.0


From 1d7589285d1d00e30f938f9c59af42150aa81b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:04 +0000
Subject: [PATCH 24/42] fix: report malformed isar xml and definitions with
 missing attributes

---
 prophyc/parsers/isar.py | 50 +++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index a2a235e..51f42a4 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -6,6 +6,10 @@ from prophyc import model, six
 from prophyc.file_processor import CyclicIncludeError, FileNotFoundError
 
 
+class EnumValueError(model.ModelError, ValueError):
+    pass
+
+
 def extract_operator_args(string_, pos):
     brackets = 0
     open_pos = pos
@@ -76,10 +80,17 @@ def get_docstr(xml_elem):
     return six.decode_string(xml_elem.get("comment", "")) or None
 
 
+def get_required(xml_elem, attribute):
+    value = xml_elem.get(attribute)
+    if not value:
+        raise model.ModelError("%s without %s: %s" % (xml_elem.tag, attribute, xml_elem.attrib))
+    return value
+
+
 def make_constant(xml_elem):
     return model.Constant(
-        xml_elem.get("name"),
-        expand_operators(xml_elem.get("value")),
+        get_required(xml_elem, "name"),
+        expand_operators(get_required(xml_elem, "value")),
         docstring=get_docstr(xml_elem)
     )
 
@@ -87,14 +98,16 @@ def make_constant(xml_elem):
 def make_typedef(xml_elem):
     if "type" in xml_elem.attrib:
         return model.Typedef(
-            xml_elem.get("name"),
-            xml_elem.get("type"),
+            get_required(xml_elem, "name"),
+            get_required(xml_elem, "type"),
             docstring=get_docstr(xml_elem)
         )
 
     elif "primitiveType" in xml_elem.attrib and xml_elem.get("name") not in primitive_types.values():
+        if xml_elem.get("primitiveType") not in primitive_types:
+            raise model.ModelError("unknown primitive type '%s'" % xml_elem.get("primitiveType"))
         return model.Typedef(
-            xml_elem.get("name"),
+            get_required(xml_elem, "name"),
             primitive_types[xml_elem.get("primitiveType")],
             docstring=get_docstr(xml_elem)
         )
@@ -105,13 +118,13 @@ def make_enum(xml_elem):
         values = set()
         for m in enum_obj.members:
             if m.value in values:
-                raise ValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
+                raise EnumValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
             values.add(m.value)
 
     if len(xml_elem):
         members = []
         for member in xml_elem:
-            value = member.get('value')
+            value = get_required(member, "value")
             try:
                 int_value = int(value, 0)
                 if int_value < 0:
@@ -119,19 +132,19 @@ def make_enum(xml_elem):
             except ValueError:
                 pass
             members.append(model.EnumMember(
-                member.get("name"),
+                get_required(member, "name"),
                 expand_operators(value),
                 docstring=get_docstr(member))
             )
 
-        enum = model.Enum(xml_elem.get("name"), members, docstring=get_docstr(xml_elem))
+        enum = model.Enum(get_required(xml_elem, "name"), members, docstring=get_docstr(xml_elem))
         check_for_duplicates(enum)
         return enum
 
 
 def make_struct_members(xml_elem, dynamic_array=False):
-    xml_elem_name = xml_elem.get("name")
-    xml_elem_type = xml_elem.get("type")
+    xml_elem_name = get_required(xml_elem, "name")
+    xml_elem_type = get_required(xml_elem, "type")
     optional = xml_elem.get("optional")
     optional = bool(optional) and optional.lower() == "true"
     dimension = xml_elem.find("dimension")
@@ -175,7 +188,7 @@ def make_struct(xml_elem, last_member_array_is_dynamic=False):
         for member in xml_elem:
             for sub_ in make_struct_members(member, last_member_array_is_dynamic):
                 members.append(sub_)
-        return model.Struct(xml_elem.get("name"), members, docstring=get_docstr(xml_elem))
+        return model.Struct(get_required(xml_elem, "name"), members, docstring=get_docstr(xml_elem))
 
 
 def make_union(xml_elem):
@@ -183,12 +196,12 @@ def make_union(xml_elem):
         members = []
         for member in xml_elem:
             members.append(model.UnionMember(
-                member.get("name"),
-                member.get("type"),
-                expand_operators(member.get("discriminatorValue")),
+                get_required(member, "name"),
+                get_required(member, "type"),
+                expand_operators(get_required(member, "discriminatorValue")),
                 docstring=get_docstr(member),
             ))
-        return model.Union(xml_elem.get('name'), members, docstring=get_docstr(xml_elem))
+        return model.Union(get_required(xml_elem, "name"), members, docstring=get_docstr(xml_elem))
 
 
 class IsarParser(object):
@@ -201,9 +214,12 @@ class IsarParser(object):
         # but ElementTree doesn't like it. ElementTree handles the encoding on its own,
         # so it's OK to encode the data back into utf-8 before parsing
         content = content.encode('utf-8')
+        try:
+            root = ElementTree.fromstring(content)
+        except (ElementTree.ParseError, LookupError, ValueError) as e:
+            raise model.ModelError("invalid xml: %s" % e)
 
         def collect():
-            root = ElementTree.fromstring(content)
             for xml_elem in root.iterfind('.//*[@href]'):
                 yield make_include(xml_elem, process_file, self.warn)
 
-- 
2.43.0


From a9919ad1adbcb0ba7fef77773ed4ce3c9a7166f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:38 +0000
Subject: [PATCH 25/42] fix: report patches which cannot be read or applied

---
 prophyc/__init__.py |  9 ++++---
 prophyc/patch.py    | 64 +++++++++++++++++++++++++--------------------
 2 files changed, 41 insertions(+), 32 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 56f4753..217175d 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -49,7 +49,7 @@ def main(args):
     if not serializers and not opts.void_out:
         emit.error("missing output directives")
 
-    patcher = get_patcher(opts.patch)
+    patcher = get_patcher(emit, opts.patch)
     supplementary_nodes = create_supplements(emit, opts.isar_includes, opts.include_dirs, patcher)
 
     model_nodes = dict(flatten_included_defs(supplementary_nodes))
@@ -122,10 +122,13 @@ def get_serializers(opts):
     return serializers
 
 
-def get_patcher(patch_file_path):
+def get_patcher(emit, patch_file_path):
     if patch_file_path:
         from prophyc import patch
-        patches = patch.parse(patch_file_path)
+        try:
+            patches = patch.parse(patch_file_path)
+        except (patch.PatchError, UnicodeDecodeError) as e:
+            emit.error(str(e), patch_file_path)
         return lambda nodes: patch.patch(nodes, patches)
 
 
diff --git a/prophyc/patch.py b/prophyc/patch.py
index e6ae894..75cf895 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -6,12 +6,18 @@ from . import model
 Action = namedtuple("Action", ["action", "params"])
 
 
+class PatchError(model.ModelError):
+    pass
+
+
 def parse(filename):
     patches = defaultdict(list)
     with codecs.open(filename, "r", encoding="utf-8") as f:
         for line in f.readlines():
             if line.strip():
                 words = line.split()
+                if len(words) < 2:
+                    raise PatchError("Action missing: %s" % line.strip())
                 name, action = words[:2]
                 params = words[2:]
                 patches[name].append(Action(action, params))
@@ -29,22 +35,22 @@ def _apply(node, patches):
     for patch_ in patches:
         action = _actions.get(patch_.action)
         if not action:
-            raise Exception("Unknown action: %s %s" % (node.name, patch_))
+            raise PatchError("Unknown action: %s %s" % (node.name, patch_))
         node = action(node, patch_)
     return node
 
 
 def _type(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 2:
-        raise Exception("Change field must have 2 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 2 params: %s %s" % (node.name, patch_))
     name, tp = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
     mem.type_name = tp
@@ -53,15 +59,15 @@ def _type(node, patch_):
 
 def _insert(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can insert field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can insert field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 3:
-        raise Exception("Change field must have 3 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 3 params: %s %s" % (node.name, patch_))
     index, name, tp = patch_.params
 
     if not _is_int(index):
-        raise Exception("Index is not a number: %s %s" % (node.name, patch_))
-    index = int(index)
+        raise PatchError("Index is not a number: %s %s" % (node.name, patch_))
+    index = max(min(int(index), len(node.members)), -len(node.members))
 
     node.members.insert(index, model.StructMember(name, tp))
     return node
@@ -69,15 +75,15 @@ def _insert(node, patch_):
 
 def _remove(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can remove field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can remove field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 1:
-        raise Exception("Remove field must have 1 param: %s %s" % (node.name, patch_))
+        raise PatchError("Remove field must have 1 param: %s %s" % (node.name, patch_))
     name, = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     del node.members[i]
     return node
@@ -85,15 +91,15 @@ def _remove(node, patch_):
 
 def _dynamic(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 2:
-        raise Exception("Change field must have 2 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 2 params: %s %s" % (node.name, patch_))
     name, len_name = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
     mem.bound = len_name
@@ -104,15 +110,15 @@ def _dynamic(node, patch_):
 
 def _greedy(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 1:
-        raise Exception("Change field must have 1 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 1 params: %s %s" % (node.name, patch_))
     name, = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
     mem.greedy = True
@@ -124,15 +130,15 @@ def _greedy(node, patch_):
 
 def _static(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 2:
-        raise Exception("Change field must have 2 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 2 params: %s %s" % (node.name, patch_))
     name, size = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     node.members[i].bound = None
     node.members[i].size = None
@@ -146,19 +152,19 @@ def _static(node, patch_):
 
 def _limited(node, patch_):
     if not isinstance(node, model.Struct):
-        raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
+        raise PatchError("Can change field only in struct: %s %s" % (node.name, patch_))
 
     if len(patch_.params) != 2:
-        raise Exception("Change field must have 2 params: %s %s" % (node.name, patch_))
+        raise PatchError("Change field must have 2 params: %s %s" % (node.name, patch_))
     name, len_array = patch_.params
 
     i, member = next((x for x in enumerate(node.members) if x[1].name == name), (None, None))
     if not member:
-        raise Exception("Member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Member not found: %s %s" % (node.name, patch_))
 
     sizer_found = len(tuple(x for x in node.members[:i] if x.name == len_array))
     if not sizer_found:
-        raise Exception("Array len member not found: %s %s" % (node.name, patch_))
+        raise PatchError("Array len member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
     mem.bound = len_array
@@ -168,10 +174,10 @@ def _limited(node, patch_):
 
 def _struct(node, patch_):
     if not isinstance(node, model.Union):
-        raise Exception("Can only change union to struct: %s" % node.name)
+        raise PatchError("Can only change union to struct: %s" % node.name)
 
     if len(patch_.params):
-        raise Exception("Change union to struct takes no params: %s" % node.name)
+        raise PatchError("Change union to struct takes no params: %s" % node.name)
 
     def to_struct_member(member):
         return model.StructMember(name=member.name, type_name=member.type_name, definition=member.definition)
@@ -186,10 +192,10 @@ def _rename(node, patch_):
 
     def rename_field(node_, orig_name, new_name):
         if not isinstance(node_, (model.Struct, model.Union)):
-            raise Exception("Can rename fields only in composites: %s %s" % (node_.name, patch_))
+            raise PatchError("Can rename fields only in composites: %s %s" % (node_.name, patch_))
         member = next((x for x in node_.members if x.name == orig_name), None)
         if not member:
-            raise Exception("Member not found: %s %s" % (node_.name, patch_))
+            raise PatchError("Member not found: %s %s" % (node_.name, patch_))
         member.name = new_name
         return node_
 
@@ -199,7 +205,7 @@ def _rename(node, patch_):
     if len(patch_.params) == 2:
         return rename_field(node, patch_.params[0], patch_.params[1])
 
-    raise Exception("Rename must have 1 or 2 params: %s %s" % (node.name, patch_))
+    raise PatchError("Rename must have 1 or 2 params: %s %s" % (node.name, patch_))
 
 
 _actions = {
-- 
2.43.0


From 9961a7c7bf8e188c30e3b24800cdf163f7b53638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:08 +0000
Subject: [PATCH 26/42] fix: report included directories, files in other
 encodings and duplicate union fields

---
 prophyc/__init__.py       |  4 +++-
 prophyc/file_processor.py | 16 +++++++++++++---
 prophyc/model.py          |  4 ++--
 prophyc/parsers/prophy.py |  6 +++++-
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 217175d..5488382 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -6,7 +6,7 @@ from contextlib import contextmanager
 
 from . import model
 from . import options
-from .file_processor import FileProcessor
+from .file_processor import FileContentError, FileProcessor
 from .generators.base import GenerateError
 
 __version__ = '1.2.5'
@@ -163,3 +163,5 @@ def error_on_exception(emit):
         yield
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
+    except FileContentError as e:
+        emit.error(str(e), e.location)
diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 1ab3f99..4b3a2ab 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -8,6 +8,13 @@ class CyclicIncludeError(Exception):
         Exception.__init__(self, "file %s included again during parsing" % path)
 
 
+class FileContentError(Exception):
+    def __init__(self, path, error):
+        Exception.__init__(self, str(error))
+        before = error.object[:error.start]
+        self.location = "%s:%s:%s" % (path, before.count(b'\n') + 1, error.start - before.rfind(b'\n'))
+
+
 class FileNotFoundError(Exception):
     def __init__(self, path):
         Exception.__init__(self, "file %s not found" % path)
@@ -16,7 +23,7 @@ class FileNotFoundError(Exception):
 def _get_first_existing_path(leaf, dirs):
     for directory in dirs:
         path = os.path.join(directory, leaf)
-        if os.path.exists(path):
+        if os.path.isfile(path):
             return path
 
 
@@ -80,8 +87,11 @@ class FileProcessor(object):
             return self.files[abspath]
         self.files[abspath] = None
 
-        with codecs.open(path, 'r', encoding='utf-8') as f:
-            content = f.read()
+        try:
+            with codecs.open(path, 'r', encoding='utf-8') as f:
+                content = f.read()
+        except UnicodeDecodeError as e:
+            raise FileContentError(path, e)
         result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
         self.files[abspath] = result
         return result
diff --git a/prophyc/model.py b/prophyc/model.py
index 1b3dd15..b7d335b 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -17,7 +17,7 @@ class ParseError(Exception):
 
 class ModelError(Exception):
     """ General error for model tree construction errors. """
-    pass
+    location = None
 
 
 class Kind:
@@ -693,6 +693,6 @@ class ModelParser(object):
                 self.patcher(nodes)
             nodes, constants = evaluate_model(nodes, self.emit.warn)
         except ModelError as e:
-            raise ParseError([(parse_args[1], str(e))])
+            raise ParseError([(e.location or parse_args[1], str(e))])
         evaluate_expressions(nodes, constants)
         return nodes
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index cb45583..6a467bf 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -378,7 +378,11 @@ class Parser(object):
                 line, pos
             )
 
-        node = model.Union(t[2], [x for x, _, _ in t[3]])
+        try:
+            node = model.Union(t[2], [x for x, _, _ in t[3]])
+        except model.ModelError as e:
+            e.location = self.errors[0][0]
+            raise
         self.typedecls[t[2]] = node
         self.nodes.append(node)
 
-- 
2.43.0


From 4a85267baa6efacf79cd69c6ae0c48cc3c0695cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:41 +0000
Subject: [PATCH 27/42] fix: check rules of composition also in isar
 definitions and patched ones

---
 prophyc/generators/base.py |   3 ++
 prophyc/model.py           | 103 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 105 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index f3be7e3..944a1c0 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -48,8 +48,11 @@ def check_cpp_nodes(nodes, reserved_fields):
             if not -2 ** 63 <= value < 2 ** 64:
                 raise GenerateError("'{}' does not fit in 64 bits".format(node.name))
         elif isinstance(node, (model.Struct, model.Union)):
+            names = set(member.name for member in node.members)
             used = set(_get_names_used_by(node))
             for member in node.members:
+                if getattr(member, 'bound', None) and member.bound not in names:
+                    raise GenerateError("sizer of '{}' of '{}' not found".format(member.name, node.name))
                 if member.name in used:
                     raise GenerateError("field '{}' of '{}' hides a name used there".format(member.name, node.name))
             if node.byte_size >= 2 ** 63:
diff --git a/prophyc/model.py b/prophyc/model.py
index b7d335b..a3401b6 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -480,7 +480,8 @@ def cross_reference(nodes, warn=null_warn):
             node_.definition = None
             return
         found = types_index.get(node_.type_name)
-        if not found:
+        if not isinstance(found, (Typedef, Enum, Struct, Union)):
+            found = None
             warn("type '%s' not found" % node_.type_name)
         node_.definition = found
 
@@ -680,6 +681,104 @@ def evaluate_model(nodes, warn_emitter=lambda x: None):
     return nodes, constants
 
 
+def make_enumerators_unsigned(nodes):
+    """ Enums are unsigned on the wire. """
+    topological_sort(nodes)
+    constants = _collect_constants(nodes)
+    for node in nodes:
+        if isinstance(node, Enum):
+            for member in node.members:
+                value = constants.get(member.name)
+                if isinstance(value, int) and -0x80000000 <= value < 0:
+                    member._value = str(0x100000000 + value)
+
+
+def check_composition(nodes, constants):
+    """
+    Checks if definitions keep to the rules of composition, raises ModelError otherwise.
+    Requires evaluated model.
+    """
+
+    def fail(node, member, reason):
+        raise ModelError("field '%s' of '%s': %s" % (member.name, node.name, reason))
+
+    def evaluate(value):
+        try:
+            return to_int(value, constants)
+        except (calc.ParseError, ValueError, TypeError, ZeroDivisionError):
+            return None
+
+    def is_integer(member):
+        while member.definition:
+            if not isinstance(member.definition, Typedef):
+                return False
+            member = member.definition
+        return member.type_name not in ('r32', 'r64', 'byte')
+
+    def check_sizer(node, index, member):
+        before = node.members[:index]
+        sizer = next((m for m in before if m.name == member.bound), None)
+        if not sizer:
+            if any(m.name == member.bound for m in node.members):
+                fail(node, member, "sizer has to be defined before the array")
+            if not any(m.name in (member.bound + 's', member.bound[:-1]) or m.name.startswith('numOf') for m in before):
+                fail(node, member, "sizer '%s' not found" % member.bound)
+        elif sizer.optional or sizer.is_array or not is_integer(sizer):
+            fail(node, member, "sizer has to be of integer type")
+
+    def check_struct(node):
+        for index, member in enumerate(node.members):
+            if member.bound:
+                check_sizer(node, index, member)
+            if member.is_array and member.kind == Kind.UNLIMITED:
+                fail(node, member, "array of unlimited type")
+            if member.size and member.kind == Kind.DYNAMIC:
+                fail(node, member, "fixed or limited array of dynamic type")
+            if member.size and member.numeric_size is not None and member.numeric_size <= 0:
+                fail(node, member, "array size '%s' non-positive" % member.size)
+            if member.optional and member.kind != Kind.FIXED:
+                fail(node, member, "optional of dynamic type")
+            if (member.greedy or member.kind == Kind.UNLIMITED) and member is not node.members[-1]:
+                fail(node, member, "greedy array not last")
+
+    def check_union(node):
+        discriminators = set()
+        for member in node.members:
+            member.calc_wire_stiffness()
+            if member.kind != Kind.FIXED:
+                fail(node, member, "dynamic union arm")
+            value = evaluate(member.discriminator)
+            if value is not None:
+                if not 0 <= value < 0x100000000:
+                    fail(node, member, "discriminator '%s' does not fit in 32 bits" % member.discriminator)
+                if value in discriminators:
+                    fail(node, member, "duplicate discriminator value '%s'" % member.discriminator)
+                discriminators.add(value)
+
+    def check_enum(node):
+        for member in node.members:
+            value = evaluate(member.value)
+            if value is not None and not 0 <= value < 0x100000000:
+                fail(node, member, "value '%s' does not fit in 32 bits" % member.value)
+
+    names = set()
+    for node in nodes:
+        if isinstance(node, Include):
+            continue
+        for name in [node.name] + ([m.name for m in node.members] if isinstance(node, Enum) else []):
+            if name in names:
+                raise ModelError("name '%s' redefined" % name)
+            names.add(name)
+        if isinstance(node, _Container):
+            node._check_members_duplication(node.members)
+        if isinstance(node, Struct):
+            check_struct(node)
+        elif isinstance(node, Union):
+            check_union(node)
+        elif isinstance(node, Enum):
+            check_enum(node)
+
+
 class ModelParser(object):
     def __init__(self, parser, patcher, emit):
         self.parser = parser
@@ -691,7 +790,9 @@ class ModelParser(object):
             nodes = self.parser.parse(*parse_args)
             if self.patcher:
                 self.patcher(nodes)
+            make_enumerators_unsigned(nodes)
             nodes, constants = evaluate_model(nodes, self.emit.warn)
+            check_composition(nodes, constants)
         except ModelError as e:
             raise ParseError([(e.location or parse_args[1], str(e))])
         evaluate_expressions(nodes, constants)
-- 
2.43.0


From 9b9803cc81bc0690d13b01c38b4b4243dcba9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:17 +0000
Subject: [PATCH 28/42] fix: locate errors of enums with repeated enumerators

---
 prophyc/parsers/prophy.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 6a467bf..5e8c2de 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -127,6 +127,15 @@ class Parser(object):
         if not condition:
             self._parser_error(message, line, pos)
 
+    @contextmanager
+    def _located_error(self):
+        """ Errors of model repeat ones already found by parser. """
+        try:
+            yield
+        except model.ModelError as e:
+            e.location = self.errors[0][0]
+            raise
+
     def _validate_struct_members(self, members):
         fieldnames = set()
         for i, (member, line, pos) in enumerate(members):
@@ -249,7 +258,8 @@ class Parser(object):
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
-        node = model.Enum(t[2], t[3])
+        with self._located_error():
+            node = model.Enum(t[2], t[3])
         self.typedecls[t[2]] = node
         self.nodes.append(node)
 
@@ -378,11 +388,8 @@ class Parser(object):
                 line, pos
             )
 
-        try:
+        with self._located_error():
             node = model.Union(t[2], [x for x, _, _ in t[3]])
-        except model.ModelError as e:
-            e.location = self.errors[0][0]
-            raise
         self.typedecls[t[2]] = node
         self.nodes.append(node)
 
-- 
2.43.0


From 3d3261c7120761f76067f892a96b0f37cdb5ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:01 +0000
Subject: [PATCH 29/42] fix: clear greediness of patched arrays, make only
 fixed arrays limited

---
 prophyc/patch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index 75cf895..3054b1e 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -104,6 +104,7 @@ def _dynamic(node, patch_):
     mem = node.members[i]
     mem.bound = len_name
     mem.size = None
+    mem.greedy = False
     mem.optional = False
     return node
 
@@ -146,6 +147,7 @@ def _static(node, patch_):
     mem = node.members[i]
     mem.bound = None
     mem.size = size
+    mem.greedy = False
     mem.optional = False
     return node
 
@@ -167,6 +169,8 @@ def _limited(node, patch_):
         raise PatchError("Array len member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
+    if not mem.size or mem.bound:
+        raise PatchError("Only fixed array can be made limited: %s %s" % (node.name, patch_))
     mem.bound = len_array
     mem.optional = False
     return node
-- 
2.43.0


From d3e15c7912a1baecfa4b40ba5c1b7bfb68d2d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:13 +0000
Subject: [PATCH 30/42] fix: report input files whose outputs have the same
 names

---
 prophyc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 5488382..805892c 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -62,7 +62,8 @@ def main(args):
         with error_on_exception(emit):
             nodes = file_processor_(input_file)
             basename = get_basename(input_file)
-            model_nodes[basename] = nodes
+            if model_nodes.setdefault(basename, nodes) is not nodes:
+                emit.error("output of another input file would be overwritten", input_file)
 
     generate_target_files(emit, serializers, model_nodes)
 
-- 
2.43.0


From 33a966e91e82aa78ad9471c08ecc5e140f208dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:31 +0000
Subject: [PATCH 31/42] fix: let sources generated from schemas without
 definitions compile

---
 prophy_cpp/include/prophy/detail/message.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/message.hpp b/prophy_cpp/include/prophy/detail/message.hpp
index 2d22af9..a6dcff9 100644
--- a/prophy_cpp/include/prophy/detail/message.hpp
+++ b/prophy_cpp/include/prophy/detail/message.hpp
@@ -77,6 +77,10 @@ struct message
 };
 
 } // namespace detail
+
+namespace generated
+{
+} // namespace generated
 } // namespace prophy
 
 #endif /* _PROPHY_DETAIL_MESSAGE_HPP_ */
-- 
2.43.0


From c2bbd9ddf211ecfb49c69bb36fea3f94e032065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:02 +0000
Subject: [PATCH 32/42] fix: do not subtract alignment from byte size of C++
 messages

---
 prophyc/generators/cpp_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index c99ece2..d0580f6 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -451,7 +451,7 @@ def generate_struct_get_byte_size(node):
             if m.is_dynamic or m.greedy:
                 elems += ['{0}.size() * {1}'.format(m.name, _get_byte_size(m))]
             else:
-                bytes_ += m.byte_size + m.padding
+                bytes_ += m.byte_size + max(m.padding, 0)
         else:
             if m.is_dynamic or m.greedy:
                 elems += [
-- 
2.43.0


From 5e603da159d23133953ed803820d218f7ab0575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:16 +0000
Subject: [PATCH 33/42] fix: pad C++ messages which end with fields shorter
 than the message alignment

---
 prophyc/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index a3401b6..f98e642 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -632,7 +632,8 @@ def evaluate_sizes(nodes, warn=null_warn):
             padding = (alignment - byte_size % alignment) % alignment
             byte_size += padding
             if any(is_member_dynamic(m) for m in node_.members):
-                prev_member.padding = (node_.members[-1].alignment < alignment) and (-alignment) or 0
+                aligned = prev_member.alignment == alignment and not prev_member.byte_size % alignment
+                prev_member.padding = not aligned and -alignment or 0
             else:
                 prev_member.padding = padding
         node_.byte_size, node_.alignment = byte_size, alignment
-- 
2.43.0


From 75f8514eca4565a5d249f8ffe00c4f48bed519bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:32 +0000
Subject: [PATCH 34/42] fix: do not skip absent optionals beyond the end of
 input in C++ decoder

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 63120de..d6290ba 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -342,8 +342,7 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     {
         return decoder<E, T>::decode(*x, pos, end);
     }
-    pos = pos + codec_traits<T>::size;
-    return true;
+    return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
 template <endianness E, typename T>
-- 
2.43.0


From 9b670a15f0ce5de53772792caa822caf81c71368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:53 +0000
Subject: [PATCH 35/42] fix: do not allocate array elements which the input
 cannot hold in C++ decoder

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index d6290ba..660578d 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -2,6 +2,7 @@
 #define _PROPHY_DETAIL_DECODER_HPP_
 
 #include <stdint.h>
+#include <algorithm>
 #include <prophy/endianness.hpp>
 #include <prophy/optional.hpp>
 #include <prophy/detail/codec_traits.hpp>
@@ -375,7 +376,8 @@ inline bool do_decode_resize(std::vector<T>& v, const uint8_t*& pos, const uint8
     {
         return false;
     }
-    v.resize(n);
+    // one element more than bytes left is enough to make decoding fail
+    v.resize(std::min(size_t(n), size_t(end - pos) + 1));
     return true;
 }
 
-- 
2.43.0


From efe47bff87766bcff3dd080e424f35135baba0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:09 +0000
Subject: [PATCH 36/42] fix: do not consume bytes of an incomplete greedy
 element in C++ decoder

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 660578d..565f390 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -279,9 +279,11 @@ struct decoder_greedy<E, T, true>
         v.resize(0);
         while(true)
         {
+            const uint8_t* start = pos;
             v.push_back(T());
             if (!decoder<E, T>::decode(v.back(), pos, end))
             {
+                pos = start;
                 v.pop_back();
                 return true;
             }
-- 
2.43.0


From cf5ddb44f7b499be36a2dbe3d13046c4267ca859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:27 +0000
Subject: [PATCH 37/42] fix: place optionals with limited arrays by their
 encoded alignment in C++ codec

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 12 +++++++++---
 prophy_cpp/include/prophy/detail/encoder.hpp | 12 +++++++++---
 prophyc/generators/cpp_full.py               | 15 +++++++++++++--
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 565f390..b6f54ab 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -325,7 +325,7 @@ inline bool do_decode(T* x, size_t n, const uint8_t*& pos, const uint8_t* end)
     return decoder<E, T>::decode(x, n, pos, end);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t A, typename T>
 inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
 {
     uint32_t disc;
@@ -334,9 +334,9 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
         return false;
     }
     x = disc ? optional<T>(T()) : optional<T>();
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (A > sizeof(uint32_t))
     {
-        if (!do_decode_advance(alignment<T>::value - sizeof(uint32_t), pos, end))
+        if (!do_decode_advance(A - sizeof(uint32_t), pos, end))
         {
             return false;
         }
@@ -348,6 +348,12 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
+template <endianness E, typename T>
+inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
+{
+    return do_decode<E, alignment<T>::value>(x, pos, end);
+}
+
 template <endianness E, typename T>
 inline bool do_decode_in_place(T& x, const uint8_t* pos, const uint8_t* end)
 {
diff --git a/prophy_cpp/include/prophy/detail/encoder.hpp b/prophy_cpp/include/prophy/detail/encoder.hpp
index 73fd7df..f295f3d 100644
--- a/prophy_cpp/include/prophy/detail/encoder.hpp
+++ b/prophy_cpp/include/prophy/detail/encoder.hpp
@@ -237,13 +237,13 @@ inline uint8_t* do_encode(uint8_t* data, const T* x, size_t n)
     return encoder<E, T>::encode(data, x, n);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t A, typename T>
 inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
 {
     data = do_encode<E>(data, uint32_t(bool(x)));
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (A > sizeof(uint32_t))
     {
-        data = data + alignment<T>::value - sizeof(uint32_t);
+        data = data + A - sizeof(uint32_t);
     }
     if (x)
     {
@@ -252,6 +252,12 @@ inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
     return data + codec_traits<T>::size;
 }
 
+template <endianness E, typename T>
+inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
+{
+    return do_encode<E, alignment<T>::value>(data, x);
+}
+
 } // namespace detail
 } // namespace prophy
 
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index d0580f6..70d1eb1 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -66,6 +66,17 @@ def _get_cpp_builtin_type(node):
     return BUILTIN2C[_get_leaf(node).type_name]
 
 
+def _has_vectors(node):
+    """Tells whether C++ type has vectors, so that its alignment may differ from encoding's one."""
+    node = _get_leaf(node)
+    return (isinstance(node, (model.Struct, model.Union)) and
+            any(getattr(m, 'is_limited', False) or _has_vectors(m) for m in node.members))
+
+
+def _get_optional_args(m):
+    return _has_vectors(m) and 'E, {0}'.format(_get_leaf(m).alignment) or 'E'
+
+
 def _to_literal(value):
     try:
         if int(value, 0) == -2 ** 63:
@@ -361,7 +372,7 @@ def generate_struct_encode(node):
         elif m.greedy:
             text += 'pos = do_encode<E>(pos, x.{0}.data(), x.{0}.size());\n'.format(m.name)
         elif m.optional:
-            text += 'pos = do_encode<E>(pos, x.{0});\n'.format(m.name)
+            text += 'pos = do_encode<{1}>(pos, x.{0});\n'.format(m.name, _get_optional_args(m))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
@@ -396,7 +407,7 @@ def generate_struct_decode(node):
         elif m.greedy:
             text.append('do_decode_greedy<E>(x.{0}, pos, end)'.format(m.name))
         elif m.optional:
-            text.append('do_decode<E>(x.{0}, pos, end)'.format(m.name))
+            text.append('do_decode<{1}>(x.{0}, pos, end)'.format(m.name, _get_optional_args(m)))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
-- 
2.43.0


From d14eee9969fbcb9057762fc9979505ad9a0a9783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:41 +0000
Subject: [PATCH 38/42] fix: pad flags of optionals aligned to 8 in raw C++
 structs

---
 prophyc/generators/cpp.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index c3d48bb..7139f51 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -30,6 +30,14 @@ def _to_literal(value):
         return value
 
 
+def _is_aligned_to_8(node):
+    while getattr(node, 'definition', None):
+        node = node.definition
+    if isinstance(node, (model.Struct, model.Union)):
+        return node.alignment == 8
+    return model.BUILTIN_SIZES.get(getattr(node, 'type_name', None)) == 8
+
+
 class _Padder(object):
     PADDINGS = (
         (1, 'uint8_t'),
@@ -123,7 +131,8 @@ class _HppDefinitionsTranslator(TranslatorBase):
             else:
                 field = '{0} {1};\n'.format(typename, member.name)
             if member.optional:
-                field = 'prophy::bool_t has_{0};\n'.format(member.name) + field
+                padding = padder.generate_padding(4) if _is_aligned_to_8(member) else ''
+                field = 'prophy::bool_t has_{0};\n'.format(member.name) + padding + field
             if member.padding is not None and member.padding > 0:
                 field += padder.generate_padding(member.padding)
             return field
-- 
2.43.0


From 9899230f185818125312d14898b475ea695ff9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:56 +0000
Subject: [PATCH 39/42] fix: return the exact address of greedy arrays from raw
 C++ swap

---
 prophyc/generators/cpp.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7139f51..cbf559a 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -266,6 +266,11 @@ template <>
 {members}}}"""
 
 
+def _cast(type_name, expression, aligned=True):
+    cast = 'cast<{0}*>({1})' if aligned else 'static_cast<{0}*>(static_cast<void*>({1}))'
+    return cast.format(type_name, expression)
+
+
 class _CppSwapTranslator(TranslatorBase):
     block_template = SOURCE_TEMPLATE
 
@@ -290,20 +295,23 @@ class _CppSwapTranslator(TranslatorBase):
                     preamble = ''
                 return preamble + 'swap({0})'.format(_member_access_statement(member))
 
-        def gen_last_member(name, last_mem, delimiters=[]):
-            if last_mem.kind == model.Kind.UNLIMITED or last_mem.greedy:
-                return 'return cast<{0}*>({1});\n'.format(
-                    name,
-                    _member_access_statement(last_mem)
-                )
+        def is_unlimited(member):
+            return member.kind == model.Kind.UNLIMITED or member.greedy
+
+        def gen_last_member(name, last_mem, aligned, delimiters=[]):
+            if is_unlimited(last_mem):
+                return 'return {0};\n'.format(_cast(name, _member_access_statement(last_mem), aligned))
             elif last_mem.kind == model.Kind.DYNAMIC or last_mem.is_dynamic:
-                return 'return cast<{0}*>({1});\n'.format(
-                    name,
-                    gen_member(last_mem, delimiters)
-                )
+                return 'return {0};\n'.format(_cast(name, gen_member(last_mem, delimiters), aligned))
             else:
                 return gen_member(last_mem) + ';\n' + 'return payload + 1;\n'
 
+        def is_tail_aligned(part, alignment):
+            if not is_unlimited(part[-1]) or part[-1].alignment >= alignment:
+                return True
+            offset = sum(mem.byte_size + mem.padding for mem in part[:-1])
+            return (part is main and struct.alignment or part[0].alignment) >= alignment and offset % alignment == 0
+
         def gen_main(main, parts):
             all_names = {mem.name: 'payload' for mem in main}
             for i, part in enumerate(parts):
@@ -327,9 +335,10 @@ class _CppSwapTranslator(TranslatorBase):
                         i + 2,
                         'swap(part{0}{1})'.format(i + 1, gen_missing(i - 1)) if i else gen_member(main[-1])
                     )
-                members += 'return cast<{0}*>(swap(part{1}{2}));\n'.format(struct.name, i + 2, gen_missing(i))
+                end = 'swap(part{0}{1})'.format(i + 2, gen_missing(i))
+                members += 'return {0};\n'.format(_cast(struct.name, end, is_tail_aligned(part, struct.alignment)))
             elif main:
-                members += gen_last_member(struct.name, main[-1])
+                members += gen_last_member(struct.name, main[-1], is_tail_aligned(main, struct.alignment))
             else:
                 members += 'return payload + 1;\n'
             return STRUCT_SWAP_MAIN_TEMPLATE.format(name=struct.name, members=_indent(members, 4))
@@ -338,7 +347,8 @@ class _CppSwapTranslator(TranslatorBase):
             names = [mem.name for mem in part]
             delimiters = [mem.bound for mem in part if mem.bound and mem.bound not in names]
             members = ''.join(gen_member(mem, delimiters) + ';\n' for mem in part[:-1])
-            members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part[-1], delimiters)
+            members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part[-1],
+                                       is_tail_aligned(part, part[0].alignment), delimiters)
             delimiters_list = ''.join(', size_t {0}'.format(x) for x in delimiters)
             return STRUCT_SWAP_PART_TEMPLATE.format(name=struct.name, number=part_number, members=_indent(members, 4),
                                                     delimiters=delimiters_list)
-- 
2.43.0


From afe76fa92aeb83c8d52e84bd60d7d356d59f027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:45 +0000
Subject: [PATCH 40/42] fix: print of a non-printable byte no longer switches
 later numbers to hex

---
 prophy_cpp/include/prophy/detail/printer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index f5aaf4e..c525751 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -36,10 +36,8 @@ inline void print_byte(std::ostream& out, uint8_t x)
     }
     else
     {
-        out << "\\x";
-        out.width(2);
-        out.fill('0');
-        out << std::hex << unsigned(x);
+        const char* digits = "0123456789abcdef";
+        out << "\\x" << digits[x >> 4] << digits[x & 15];
     }
 }
 
-- 
2.43.0


From dd5380411eb5d490bd20a54efd199044b3c734cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:02 +0000
Subject: [PATCH 41/42] fix: escape the quote character in printed byte strings

---
 prophy_cpp/include/prophy/detail/printer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index c525751..2dfb258 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -28,6 +28,7 @@ inline void print_byte(std::ostream& out, uint8_t x)
         case 9: out << "\\t"; return;
         case 10: out << "\\n"; return;
         case 13: out << "\\r"; return;
+        case 39: out << "\\'"; return;
         case 92: out << "\\\\"; return;
     }
     if ((x >= 32) && (x <= 126))
-- 
2.43.0


From 79cfe2433a85b432b80225dd6af4ccdf1a96773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:45 +0000
Subject: [PATCH 42/42] fix: always quote byte strings with an apostrophe in
 str()

---
 prophy/six.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophy/six.py b/prophy/six.py
index 9a11677..c39a715 100644
--- a/prophy/six.py
+++ b/prophy/six.py
@@ -8,7 +8,7 @@ if sys.version < '3':  # pragma: no cover
     xrange = xrange
 
     def repr_bytes(x):
-        return repr(x)
+        return "'" + repr('"' + x)[2:]
 
 else:  # pragma: no cover
     long = int
@@ -16,7 +16,7 @@ else:  # pragma: no cover
     xrange = range
 
     def repr_bytes(x):
-        return repr(x)[1:]
+        return "'" + repr(b'"' + x)[3:]
 
 
 def with_metaclass(meta, *bases):
-- 
2.43.0

