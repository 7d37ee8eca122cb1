From 238645faa727609c664700ae6a5df8d1dc738b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 01/61] fix: parse falsy keywords as False when loading bool in
 non-strict mode

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e04df80..12ea1a5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -52,7 +52,7 @@ def _bool_from_str(s: str) -> bool:
     if s.lower() in ("yes", "true", "on", "enabled"):
         return True
     if s.lower() in ("no", "false", "off", "disabled"):
-        return True
+        return False
     raise ValueError(f"not a truthy keyword: {s!r}")
 
 
-- 
2.43.0


From 615d33f443cbf7c0751724a7e01c6c792251a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 02/61] fix: report a lossy float to int conversion as
 ConversionError

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 12ea1a5..1aa0487 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -42,7 +42,8 @@ T = t.TypeVar("T")
 def _int_lossless(v: float) -> int:
     """Convert *v* to an integer only if the conversion is lossless, otherwise raise an error."""
 
-    assert v % 1.0 == 0.0, f"expected int, got {v!r}"
+    if not v.is_integer():
+        raise ValueError(f"expected int, got {v!r}")
     return int(v)
 
 
-- 
2.43.0


From 89fcb5863309030e7766dc80932fc81c569de880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 03/61] fix: report an int too large for float as
 ConversionError

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 1aa0487..1637f43 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -435,7 +435,7 @@ class PlainDatatypeConverter(Converter):
 
         try:
             return adapter(ctx.value)
-        except ValueError as exc:
+        except (ValueError, OverflowError) as exc:
             raise ConversionError(self, ctx, str(exc)) from exc
 
 
-- 
2.43.0


From ac2dc840c63eb97b05d70f094532dc122c8d0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 04/61] fix: keep the two directions of bytes conversion apart

dump() decoded a str given in place of bytes, and load() turned bytes into a
base64 encoded str.
---
 databind/src/databind/json/converters.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 1637f43..9d7a8d7 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -387,7 +387,7 @@ class PlainDatatypeConverter(Converter):
 
     # Map for (source_type, target_type)
     _strict_adapters: t.Dict[t.Tuple[type, type], t.Callable[[t.Any], t.Any]] = {
-        (bytes, bytes): lambda d: base64.b64encode(d).decode("ascii"),
+        (bytes, bytes): bytes,
         (str, bytes): base64.b64decode,
         (str, str): str,
         (int, int): int,
@@ -410,6 +410,11 @@ class PlainDatatypeConverter(Converter):
         }
     )
 
+    # Used only during serialization, where bytes are to be encoded and a string is not acceptable in their place.
+    _serialize_adapters = _strict_adapters.copy()
+    _serialize_adapters[(bytes, bytes)] = lambda d: base64.b64encode(d).decode("ascii")
+    del _serialize_adapters[(str, bytes)]
+
     def __init__(self, strict_by_default: bool = True) -> None:
         self.strict_by_default = strict_by_default
 
@@ -428,6 +433,8 @@ class PlainDatatypeConverter(Converter):
             else Strict(True)
         )
         adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
+        if ctx.direction == Direction.SERIALIZE:
+            adapters = self._serialize_adapters
         adapter = adapters.get((source_type, target_type))
 
         if adapter is None:
-- 
2.43.0


From c75100f910d426f1e4084209cf341dedce9b54e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 05/61] fix: report an invalid decimal string as
 ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 9d7a8d7..8361187 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -238,7 +238,10 @@ class DecimalConverter(Converter):
 
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
-                return decimal.Decimal(ctx.value, context)
+                try:
+                    return decimal.Decimal(ctx.value, context)
+                except decimal.InvalidOperation:
+                    raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}")
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-- 
2.43.0


From 1976062d29cc2148cc2c4feefadef339a405868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 06/61] fix: apply the Precision setting when loading a Decimal

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 8361187..972e351 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -239,8 +239,8 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    return decimal.Decimal(ctx.value, context)
-                except decimal.InvalidOperation:
+                    return context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                except decimal.DecimalException:
                     raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}")
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
-- 
2.43.0


From c0ba47474190f25c4249c0bce9ec07693ec69485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 07/61] fix: construct the annotated subclass in
 StringifyConverter

Without an explicit parser, the constructor of the type that the converter
was registered for was used even when a subclass of it is requested, e.g. a
PureWindowsPath was loaded as a PurePosixPath.
---
 databind/src/databind/json/converters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 972e351..f0fe62d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -646,7 +646,7 @@ class StringifyConverter(Converter):
     ) -> None:
         assert isinstance(type_, type), type_
         self.type_ = type_
-        self.parser: t.Callable[[str], T] = parser or type_
+        self.parser = parser
         self.formatter = formatter
         self.name = name
 
@@ -667,8 +667,9 @@ class StringifyConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if not isinstance(ctx.value, str):
                 raise ConversionError.expected(self, ctx, str)
+            parser: t.Callable[[str], t.Any] = self.parser or datatype.type
             try:
-                return self.parser(ctx.value)
+                return parser(ctx.value)
             except (TypeError, ValueError) as exc:
                 raise ConversionError(self, ctx, str(exc))
 
-- 
2.43.0


From e9e013ffdf370a4acbc1303747e1ec8b73bbc825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 08/61] fix: support Literal hints that are wrapped in
 Annotated

---
 databind/src/databind/json/converters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index f0fe62d..3fc2c81 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -874,14 +874,15 @@ class LiteralConverter(Converter):
     or #None."""
 
     def convert(self, ctx: Context) -> t.Any:
-        if not isinstance(ctx.datatype, LiteralTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        if not isinstance(datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        if ctx.value not in ctx.datatype.values:
+        if ctx.value not in datatype.values:
             raise ConversionError(
                 self,
                 ctx,
-                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, ctx.datatype.values))}",
+                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, datatype.values))}",
             )
 
         return ctx.value
-- 
2.43.0


From f9091d4b98ec5af310cac9c6295d27a7442ac8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 09/61] fix: support plain unions in Annotated without a Union
 setting

---
 databind/src/databind/json/converters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 3fc2c81..4449fce 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -775,6 +775,13 @@ class UnionConverter(Converter):
     def convert(self, ctx: Context) -> t.Any:
         datatype = ctx.datatype
         union: t.Optional[Union]
+        if (
+            isinstance(datatype, AnnotatedTypeHint)
+            and isinstance(datatype[0], UnionTypeHint)
+            and ctx.get_setting(Union) is None
+        ):
+            # The annotations are not about the union, so it is to be treated like a plain union.
+            datatype = datatype[0]
         if isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
-- 
2.43.0


From db85f8afc0036fffdd5d4cbb8b40049eaa9c2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 10/61] fix: keep the annotations of an Optional for the type
 it wraps

Settings such as DateFormat or Union had no effect in
Annotated[Optional[T], ...].
---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 4449fce..52b934f 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -4,6 +4,7 @@ import decimal
 import enum
 import typing as t
 
+import typing_extensions as te
 from typeapi import (
     AnnotatedTypeHint,
     ClassTypeHint,
@@ -373,7 +374,11 @@ class OptionalConverter(Converter):
             raise NotImplementedError
         if ctx.value is None:
             return None
-        return ctx.spawn(ctx.value, datatype.without_none_type(), None).convert()
+        inner: t.Any = datatype.without_none_type()
+        if isinstance(ctx.datatype, AnnotatedTypeHint):
+            # The settings on the optional type are still of relevance to the type that it wraps.
+            inner = te.Annotated[(inner.hint, *ctx.datatype.metadata)]  # type: ignore[misc]
+        return ctx.spawn(ctx.value, inner, None).convert()
 
 
 class PlainDatatypeConverter(Converter):
-- 
2.43.0


From 948d3ae490b5354dfe7d27ac8febc840308e4c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 11/61] fix: respect the nesting key of a Union when
 serializing

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 52b934f..112470e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -865,7 +865,7 @@ class UnionConverter(Converter):
             self._check_style_compatibility(ctx, style, result)
             # Bring the serialized value into shape.
             if style == Union.NESTED:
-                result = {discriminator_key: member_name, member_name: result}
+                result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
                 result[discriminator_key] = member_name
-- 
2.43.0


From 89756d50114f233c06dd0d941803281d4e37f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 12/61] fix: report unknown union members as ConversionError

---
 databind/src/databind/json/converters.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 112470e..446c0c5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -827,12 +827,18 @@ class UnionConverter(Converter):
             if not isinstance(ctx.value, t.Mapping):
                 raise ConversionError.expected(self, ctx, t.Mapping)
             member_name = self._get_deserialize_member_name(ctx, ctx.value, style, discriminator_key)
-            member_type = union.members.get_type_by_id(member_name)
+            try:
+                member_type = union.members.get_type_by_id(member_name)
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
 
         else:
             # Identify the member type based on the Python value type.
-            member_name = union.members.get_type_id(type(ctx.value))
-            member_type = union.members.get_type_by_id(member_name)
+            try:
+                member_name = union.members.get_type_id(type(ctx.value))
+                member_type = union.members.get_type_by_id(member_name)
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
 
         nesting_key = union.nesting_key or member_name
         type_hint = TypeHint(member_type) if not isinstance(member_type, TypeHint) else member_type
-- 
2.43.0


From e054b270200440f2acdef51ba82fc1519bed3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 13/61] fix: return type IDs from
 ChainUnionMembers.get_type_ids()

It returned the individual characters of the IDs.
---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 95bb90d..0a19718 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -245,4 +245,4 @@ class ChainUnionMembers(UnionMembers):
                 except NotImplementedError:
                     pass
 
-        return Stream(_gen()).concat().distinct().collect()
+        return Stream(_gen()).distinct().collect()
-- 
2.43.0


From 8cc704f6b2459712beeda1e128bc9386ff73e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 14/61] fix: do not keep evaluated union members that were
 replaced or removed

---
 databind/src/databind/core/union.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 0a19718..4d9b7e9 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -88,7 +88,7 @@ class StaticUnionMembers(UnionMembers):
     members: _MembersDictType = dataclasses.field(default_factory=dict)
 
     def __post_init__(self) -> None:
-        self._eval_cache: t.Dict[str, StaticUnionMembers._TypeType] = {}
+        self._eval_cache: t.Dict[str, t.Tuple[t.Any, StaticUnionMembers._TypeType]] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
         for type_id in self.members:
@@ -102,18 +102,17 @@ class StaticUnionMembers(UnionMembers):
         raise ValueError(f"type {type_} is not a member of {self}")
 
     def get_type_by_id(self, type_id: str) -> t.Any:
-        try:
-            return self._eval_cache[type_id]
-        except KeyError:
-            pass
-
         try:
             member = self.members[type_id]
         except KeyError:
             raise ValueError(f"{type_id!r} is not a type ID of {self}")
 
         if isinstance(member, types.FunctionType):
-            member = self._eval_cache[type_id] = member()
+            # The members dictionary can be altered, so make sure that the result is from the current provider.
+            provider, evaluated = self._eval_cache.get(type_id, (None, None))
+            if provider is not member:
+                provider, evaluated = self._eval_cache[type_id] = (member, member())
+            member = evaluated
 
         return member
 
-- 
2.43.0


From f3dfdf33760c10d868006e67ec6efa762c913e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 15/61] fix: let the SchemaConverter handle TypedDict in the
 JsonModule

The MappingConverter took precedence and failed with an AssertionError.
---
 databind/src/databind/json/converters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 446c0c5..d1b2d20 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -13,6 +13,7 @@ from typeapi import (
     TypeHint,
     UnionTypeHint,
     get_annotations,
+    is_typed_dict,
     type_repr,
 )
 
@@ -332,6 +333,8 @@ class MappingConverter(Converter):
         # Find the key and value types of the mapping.
         if not isinstance(datatype, ClassTypeHint) or not issubclass(datatype.type, t.Mapping):
             raise NotImplementedError
+        if is_typed_dict(datatype.type):
+            raise NotImplementedError  # Handled by the SchemaConverter
         candidates = set()
         for current in datatype.recurse_bases():
             if issubclass(current.type, t.Mapping) and len(current.args) == 2:
-- 
2.43.0


From a2aba4742ecc5647303464ffee59e2dbec38db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 16/61] fix: do not mistake dict methods for default values of
 TypedDict keys

---
 databind/src/databind/core/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index dafd295..1e5f255 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -303,7 +303,7 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
-        has_default = hasattr(typed_dict, key)
+        has_default = key in vars(typed_dict)
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-- 
2.43.0


From 4992c6cbc124539d5195aa8338717cc3e635bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 17/61] fix: respect the totality that a TypedDict inherits its
 keys with

---
 databind/src/databind/core/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 1e5f255..eb66c43 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -307,7 +307,7 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-            required=required and typed_dict.__total__,
+            required=required and key in typed_dict.__required_keys__,
             default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
             flattened=_is_flat(field_hint, False),
         )
-- 
2.43.0


From 1f2d815f233d2aa5268d257debf00ae2ec07e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 18/61] fix: respect non-required keys when serializing a
 TypedDict

---
 databind/src/databind/json/converters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d1b2d20..518cdb6 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -507,7 +507,7 @@ class SchemaConverter(Converter):
 
         def _get_field_value(field_name: str, field: Field) -> t.Any:
             if isinstance(ctx.value, t.Mapping):
-                return ctx.value[field_name]  # TODO (@NiklasRosenstein): Respect non-required fields
+                return ctx.value[field_name]
             else:
                 return getattr(ctx.value, field_name)
 
@@ -515,6 +515,10 @@ class SchemaConverter(Converter):
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
 
         for field_name, field in schema.fields.items():
+            if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
+                if field.required:
+                    raise ConversionError(self, ctx, f"missing required field: {field_name!r}")
+                continue
             field_ctx = ctx.spawn(_get_field_value(field_name, field), field.datatype, field_name)
             remainder = field_ctx.get_setting(Remainder)
             if remainder and remainder.enabled:
-- 
2.43.0


From 542865c4aa8cf5933b8443b81e2f1ffcc6a75482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 19/61] fix: report a non-mapping value for a TypedDict as
 ConversionError

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 518cdb6..1db9796 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -497,7 +497,8 @@ class SchemaConverter(Converter):
             is_instance = isinstance(ctx.value, schema.type)
         except TypeError:
             # The type may not support isinstance() checks (e.g. typing.TypedDict).
-            pass
+            if is_typed_dict(schema.type) and not isinstance(ctx.value, t.Mapping):
+                raise ConversionError.expected(self, ctx, t.Mapping)
         else:
             if not is_instance:
                 raise ConversionError.expected(self, ctx, schema.type)
-- 
2.43.0


From 5e61e565c4618f2d1acaa90b280c4ff21a46bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 20/61] fix: allow a remainder field to be omitted with
 SerializeDefaults(False)

---
 databind/src/databind/json/converters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 1db9796..e4b2b6a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -555,8 +555,7 @@ class SchemaConverter(Converter):
                     else:
                         result[alias] = value
 
-        if remainder_field:
-            assert remainder_values is not None
+        if remainder_field and remainder_values is not None:
             duplicate_keys = result.keys() & remainder_values.keys()
             if duplicate_keys:
                 raise ConversionError(
-- 
2.43.0


From 42cefe425dc6cd350751bef100ed49af72e04d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 21/61] fix: attach class settings to the decorated class only

When the base class already had settings, they were added to the base class
instead.
---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 5777529..1a62b4a 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -176,7 +176,7 @@ class ClassDecoratorSetting(Setting):
             raise RuntimeError("cannot decorate multiple types with the same setting instance")
 
         self.bound_to = type_
-        settings = getattr(type_, "__databind_settings__", None)
+        settings = vars(type_).get("__databind_settings__")  # Must not pick up the list of a base class
         if settings is None:
             settings = []
             setattr(type_, "__databind_settings__", settings)
-- 
2.43.0


From af12bb47a64743b1b680e6368cfdffc00c1e5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 22/61] fix: accept the documented priority argument for
 DateFormat

---
 databind/src/databind/core/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 1a62b4a..4df4a98 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -557,11 +557,13 @@ class DateFormat(Setting):
     T_Dtype = t.TypeVar("T_Dtype", bound=Dtype)
 
     formats: t.Sequence[T_Input]
+    priority: Priority = Priority.NORMAL
 
-    def __init__(self, *formats: T_Input) -> None:
+    def __init__(self, *formats: T_Input, priority: Priority = Priority.NORMAL) -> None:
         if not formats:
             raise ValueError("need at least one date format")
         self.formats = formats
+        self.priority = priority
 
     @staticmethod
     def __get_builtin_format(fmt: str) -> Formatter:
-- 
2.43.0


From 975e52ee2dcb09c48309272d63eade0674ad70a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 23/61] fix: format instances of datetime subclasses

---
 databind/src/databind/core/settings.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 4df4a98..778d1f4 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -633,11 +633,15 @@ class DateFormat(Setting):
         from nr.date import date_format, datetime_format, time_format
 
         format_t: t.Type[DateFormat.Formatter]
-        format_t, method_name = {  # type: ignore
-            datetime.date: (date_format, "format_date"),
-            datetime.time: (time_format, "format_time"),
-            datetime.datetime: (datetime_format, "format_datetime"),
-        }[type(dt)]
+        format_t, method_name = next(  # type: ignore
+            spec
+            for type_, spec in {
+                datetime.datetime: (datetime_format, "format_datetime"),
+                datetime.date: (date_format, "format_date"),
+                datetime.time: (time_format, "format_time"),
+            }.items()
+            if isinstance(dt, type_)
+        )
         for fmt in self.__iter_formats(format_t):
             try:
                 return t.cast(str, getattr(fmt, method_name)(dt))
-- 
2.43.0


From 97fc75d8633232e37cd5ed759e9ae7ec76dc0db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 24/61] fix: support Annotated hints in
 DelegateToClassmethodConverter

---
 databind/src/databind/core/converter.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/converter.py b/databind/src/databind/core/converter.py
index 3696ab9..b98e757 100644
--- a/databind/src/databind/core/converter.py
+++ b/databind/src/databind/core/converter.py
@@ -3,7 +3,7 @@ import logging
 import typing as t
 from textwrap import indent
 
-from typeapi import ClassTypeHint, type_repr
+from typeapi import AnnotatedTypeHint, ClassTypeHint, type_repr
 
 from databind.core.utils import exception_safe_str
 
@@ -166,17 +166,19 @@ class DelegateToClassmethodConverter(Converter):
         self._deserialize = deserialize
 
     def serialize(self, ctx: "Context") -> t.Any:
-        if self._serialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+        if self._serialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
-        if not isinstance(ctx.value, ctx.datatype.type):
-            raise ConversionError.expected(self, ctx, ctx.datatype.type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._serialize)
+        if not isinstance(ctx.value, datatype.type):
+            raise ConversionError.expected(self, ctx, datatype.type)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._serialize)
         return method(ctx.value)
 
     def deserialize(self, ctx: "Context") -> t.Any:
-        if self._deserialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+        if self._deserialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
         if self._serialized_type is not None and not isinstance(ctx.value, self._serialized_type):
             raise ConversionError.expected(self, ctx, self._serialized_type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._deserialize)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._deserialize)
         return method(ctx.value)
-- 
2.43.0


From 68852d8a9c5bf3d70e2de0e49fe7f6bbaefd0430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 25/61] fix: raise the documented ValueError for type IDs that
 cannot be imported

---
 databind/src/databind/core/union.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 4d9b7e9..ec4c5b1 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -180,7 +180,12 @@ class ImportUnionMembers(UnionMembers):
         parts = type_id.split(".")
         offset = 1
         module_name = parts[0]
-        module = importlib.import_module(module_name)
+        try:
+            module = importlib.import_module(module_name)
+        except ModuleNotFoundError as exc:
+            if exc.name != module_name:
+                raise
+            raise ValueError(f"{type_id!r} does not point to a type ({exc})")
 
         # Import as many modules as we can.
         for offset, part in enumerate(parts[offset:], offset):
@@ -192,11 +197,16 @@ class ImportUnionMembers(UnionMembers):
                 if sub_module_name in str(exc):
                     break
                 raise
+        else:
+            offset = len(parts)
 
         # Read the class.
         target = module
         for offset, part in enumerate(parts[offset:], offset):
-            target = getattr(target, part)
+            try:
+                target = getattr(target, part)
+            except AttributeError as exc:
+                raise ValueError(f"{type_id!r} does not point to a type ({exc})")
 
         if not isinstance(target, type):  # type: ignore[unreachable]
             raise ValueError(f"{type_id!r} does not point to a type (got {type(target).__name__} instead)")
-- 
2.43.0


From 3e214adf5f242c7f745869b0a762f714f38ae8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 26/61] fix: format the trace of a context with any type of
 mapping key

---
 databind/src/databind/core/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index 7248791..f462498 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -150,7 +150,8 @@ def format_context_trace(ctx: Context) -> str:
         elif ctx.key is None:
             key = "^"
         else:
-            raise TypeError(f"encountered unexpected type in Context.key: {ctx.key.__class__.__name__!r}")
+            # E.g. the key of a mapping that is being serialized.
+            key = f"[{ctx.key!r}]"
 
         line = f"  {key}: {ctx.datatype}"
         if ctx.location.line or ctx.location.column:
-- 
2.43.0


From 4680c2cdff0207420b2ae5fa85e17df13ae18434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 27/61] fix: support ClassVar, InitVar and init=False in the
 dataclass extension

---
 databind/src/databind/core/dataclasses.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ef61477..ccc50b2 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -81,13 +81,15 @@ def _process_class(cls, **kwargs):
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
     orig_postinit = getattr(cls, "__post_init__", None)
 
-    def __post_init__(self):
+    def __post_init__(self, *init_vars):
         # Ensure that no field has a "uninitialized" value.
-        for key in self.__dataclass_fields__.keys():
-            if getattr(self, key) == NotSet.Value:
-                raise TypeError(f"missing required argument {key!r}")
+        for f in fields(self):
+            if f.init and getattr(self, f.name) is NotSet.Value:
+                raise TypeError(f"missing required argument {f.name!r}")
+        if any(value is NotSet.Value for value in init_vars):
+            raise TypeError("missing required argument for an InitVar")
         if orig_postinit:
-            orig_postinit(self)
+            orig_postinit(self, *init_vars)
 
     cls.__post_init__ = __post_init__
 
-- 
2.43.0


From 2f6e46053ecaa70ad3003491d5ed547394139964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 28/61] fix: support slots=True in the dataclass extension

---
 databind/src/databind/core/dataclasses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ccc50b2..0fdfc7e 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -99,7 +99,7 @@ def _process_class(cls, **kwargs):
     # After setting #Field.default for non-default fields, the default will be propagated
     # on the class level, so we delete that again from the class.
     for key in no_default_fields:
-        if key in no_default_fields:
+        if cls.__dict__.get(key) is NotSet.Value:  # It isn't there with slots=True
             delattr(cls, key)
 
     return cls
-- 
2.43.0


From 055cb8d7b32c21dbe9a810934c0be2e065ad7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 29/61] fix: do not alter the fields of the base class in the
 dataclass extension

---
 databind/src/databind/core/dataclasses.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 0fdfc7e..26d799b 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -10,6 +10,7 @@ Note: `make_dataclass` is not currently overridden, so it will not support non-d
 following default arguments.
 """
 
+import copy
 import dataclasses
 import typing as t
 from dataclasses import (
@@ -67,7 +68,8 @@ def _process_class(cls, **kwargs):
     # check if the field was set in __post_init__().
     for key in annotations.keys():
         if not hasattr(cls, key):
-            f = existing_fields.get(key, field())
+            # The field of a base class must not be altered, so we work with a copy of it.
+            f = copy.copy(existing_fields[key]) if key in existing_fields else field()
             setattr(cls, key, f)
         else:
             f = getattr(cls, key)
-- 
2.43.0


From db98f82ff7b492ef2e5e8fe1083872c58dd33dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 30/61] fix: agree with dataclasses on where a field comes from
 in multiple inheritance

The type and default of a field were taken from the base class that is the
closest, which is not necessarily the one that the dataclass uses.
---
 databind/src/databind/core/schema.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index eb66c43..a40ac34 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -181,15 +181,14 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     # forward references in field annotations; we can't just use the target
     # dataclass if it was defined in a different module.
     field_origin: t.Dict[str, type] = {}
-    base_queue = [hint.type]
-    while base_queue:
-        base_type = base_queue.pop(0)
-        if dataclasses.is_dataclass(base_type):
+    effective_fields = {field.name: field for field in dataclasses.fields(hint.type)}
+    for base_type in hint.type.__mro__:
+        if "__dataclass_fields__" in vars(base_type):
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
-                if field.name in annotations and field.name not in field_origin:
-                    field_origin[field.name] = base_type
-        base_queue += base_type.__bases__
+                # With multiple inheritance, only the Field object tells which of the bases prevails.
+                if field.name in annotations and field is effective_fields[field.name]:
+                    field_origin.setdefault(field.name, base_type)
 
     # Retrieve the context in which type hints from each field origin type need to be
     # evaluated.
-- 
2.43.0


From ba96f5f6e1ea080e92fa5e6e9f618ae3974787e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 31/61] fix: do not lose the fields of a subclass of a
 parametrized generic dataclass

The bases of C were taken to be those of B in 'class B(A[int])' and
'class C(B)', so the fields of B were missing in the schema for C.
---
 databind/src/databind/core/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index a40ac34..ac836f0 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -243,8 +243,8 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
             # are overwritten by other fields.
             pass
 
-        # Continue with the base classes.
-        for base in hint.bases or hint.type.__bases__:
+        # Continue with the base classes. Note that `__orig_bases__` must not be inherited from a base class.
+        for base in vars(hint.type).get("__orig_bases__") or hint.type.__bases__:
             base_hint = TypeHint(base, source=hint.type).evaluate().parameterize(parameter_map)
             assert isinstance(base_hint, ClassTypeHint), f"nani? {base_hint}"
             if dataclasses.is_dataclass(base_hint.type):
-- 
2.43.0


From 3f6537b34c0fb0d5794303033df5dd90a5dd9d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 32/61] fix: report values that are not iterable as conversion
 errors in the collection converter

---
 databind/src/databind/json/converters.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e4b2b6a..e2494b1 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -146,22 +146,21 @@ class CollectionConverter(Converter):
             def _length_check() -> None:
                 pass
 
-        values: t.Iterable[t.Any] = (
-            ctx.spawn(val, item_type, idx).convert()
-            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator))
-        )
+        def _convert_items() -> t.Iterator[t.Any]:
+            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator)):
+                yield ctx.spawn(val, item_type, idx).convert()
 
         if ctx.direction == Direction.SERIALIZE:
             if not isinstance(ctx.value, python_type):
                 raise ConversionError.expected(self, ctx, python_type)
             _length_check()
-            return self.json_collection_type(values)  # type: ignore[call-arg]
+            return self.json_collection_type(_convert_items())  # type: ignore[call-arg]
 
         else:
             if not isinstance(ctx.value, t.Collection) or isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                 raise ConversionError.expected(self, ctx, t.Collection)
             _length_check()
-            values = list(values)
+            values = list(_convert_items())
             if python_type == list:
                 return values
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
-- 
2.43.0


From c1dd9d2f370225b12b2b26867586b4dabe90f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 33/61] fix: report keys of keyed unions that are not strings
 as conversion errors

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e2494b1..171746d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -772,7 +772,8 @@ class UnionConverter(Converter):
                     self, ctx, f"expected exactly one key to act as the discriminator, got {len(value)} key(s)"
                 )
             member_name = next(iter(value))
-            assert isinstance(member_name, str)
+            if not isinstance(member_name, str):
+                raise ConversionError.expected(self, ctx.spawn(member_name, str, member_name), str)
         else:
             raise ConversionError(self, ctx, f"unsupported Union.style: {style!r}")
 
-- 
2.43.0


From 6a939ef05f0d8573b7fb643d6319dd066e3ef8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 34/61] fix: keep the order of the keys in a remainder field

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 171746d..bf744df 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -625,7 +625,7 @@ class SchemaConverter(Converter):
 
         unused_keys = source.keys() - used_keys
         if remainder_field:
-            remainders = {k: ctx.value[k] for k in unused_keys}
+            remainders = {k: v for k, v in source.items() if k in unused_keys}
             result[remainder_field[0]] = ctx.spawn(
                 remainders, remainder_field[1].datatype, remainder_field[0]
             ).convert()
-- 
2.43.0


From 1c60f6a44debe0ccab16aadf1f965d288906fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 35/61] fix: Settings.add_conditional() raised a NameError

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 778d1f4..b423c73 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -70,7 +70,7 @@ class Settings(SettingsProvider):
     def add_conditional(self, predicate: t.Callable[["Context"], bool], setting: "Setting") -> None:
         """Adds a setting conditional on the given *predicate*."""
 
-        def _provider(context: Context) -> t.List[Setting]:
+        def _provider(context: "Context") -> t.List[Setting]:
             if predicate(context):
                 return [setting]
             return []
-- 
2.43.0


From 2c0134f687fb3c79ff4808b3dc3320ae24f3740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:55 +0000
Subject: [PATCH 36/61] fix: context key of an aliased field is the key in the
 payload

---
 databind/src/databind/json/converters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index bf744df..66ef538 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -570,6 +570,7 @@ class SchemaConverter(Converter):
 
         source = ctx.value
         used_keys = set()
+        source_keys: t.Dict[str, str] = {}
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
 
         def _extract_field(
@@ -592,6 +593,7 @@ class SchemaConverter(Converter):
                 if alias in source:
                     result[alias if keep_aliased else field_name] = source[alias]
                     used_keys.add(alias)
+                    source_keys[field_name] = alias
                     break
             else:
                 if field.required:
@@ -618,7 +620,7 @@ class SchemaConverter(Converter):
                     if field.has_default():
                         result[field_name] = field.get_default()
                     continue
-                value = ctx.spawn(container[field_name], field.datatype, field_name).convert()
+                value = ctx.spawn(container[field_name], field.datatype, source_keys[field_name]).convert()
             result[field_name] = value
 
         # TODO(@NiklasRosenstein): Support deserializing as a type different than what is defined in the schema.
-- 
2.43.0


From eca572fd9a4583c56a493324f313585bdec2b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 37/61] fix: a dataclass field that a subclass overrides by a
 ClassVar is no field of the subclass

---
 databind/src/databind/core/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index ac836f0..5550ff9 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -187,7 +187,7 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
                 # With multiple inheritance, only the Field object tells which of the bases prevails.
-                if field.name in annotations and field is effective_fields[field.name]:
+                if field.name in annotations and field is effective_fields.get(field.name):
                     field_origin.setdefault(field.name, base_type)
 
     # Retrieve the context in which type hints from each field origin type need to be
@@ -216,7 +216,7 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
                 if field.name in fields:
                     # Subclasses override their parent's fields.
                     continue
-                if field_origin[field.name] != hint.type:
+                if field_origin.get(field.name) != hint.type:
                     # If this field does not belong to the current type
                     continue
 
-- 
2.43.0


From bb12027759aa7858ed331ce31eabe95a3a91bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 38/61] fix: named tuple classes that inherit their fields

---
 databind/src/databind/json/converters.py | 46 +++++++++++++++---------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 66ef538..72771e2 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -82,6 +82,33 @@ class CollectionConverter(Converter):
     def __init__(self, json_collection_type: t.Type[t.Collection[t.Any]] = list) -> None:
         self.json_collection_type = json_collection_type
 
+    @staticmethod
+    def _get_namedtuple_schema(datatype: ClassTypeHint) -> t.Optional[Schema]:
+        field_names: t.Sequence[str] = getattr(datatype.type, "_fields", ())
+        if not issubclass(datatype.type, tuple) or not field_names:
+            return None
+
+        # The type information may have been declared on a base class.
+        annotations: t.Dict[str, t.Tuple[t.Any, type]] = {}
+        for base in reversed(datatype.type.__mro__):
+            for name, type_ in vars(base).get("__annotations__", {}).items():
+                annotations[name] = (type_, base)
+        if not annotations.keys() >= set(field_names):
+            return None
+
+        return Schema(
+            fields={
+                name: Field(
+                    # We need to evaluate the type hint to remove forward references. The source is needed to
+                    # understand the context in which forward references must be evaluated.
+                    datatype=TypeHint(annotations[name][0], source=annotations[name][1]).evaluate(),
+                )
+                for name in field_names
+            },
+            constructor=datatype.type,
+            type=datatype.type,
+        )
+
     def convert(self, ctx: Context) -> t.Any:
         datatype = _unwrap_annotated(ctx.datatype)
         if (
@@ -92,23 +119,8 @@ class CollectionConverter(Converter):
             raise NotImplementedError
 
         # NamedTuples with type information are a lot like data classes, so we delegate to the SchemaConverter.
-        if (
-            isinstance(datatype, ClassTypeHint)
-            and issubclass(datatype.type, tuple)
-            and getattr(datatype.type, "__annotations__", None)
-        ):
-            schema = Schema(
-                fields={
-                    name: Field(
-                        # We need to evaluate the type hint to remove forward references. The source is needed to
-                        # understand the context in which forward references must be evaluated.
-                        datatype=TypeHint(type_, source=datatype.type).evaluate(),
-                    )
-                    for name, type_ in getattr(datatype.type, "__annotations__").items()
-                },
-                constructor=datatype.type,
-                type=datatype.type,
-            )
+        schema = self._get_namedtuple_schema(datatype) if isinstance(datatype, ClassTypeHint) else None
+        if schema is not None:
             if ctx.direction.is_serialize():
                 return SchemaConverter().serialize_from_schema(ctx, schema)
             elif ctx.direction.is_deserialize():
-- 
2.43.0


From 0e72738ad1286b0e2cc0b6ea2e962baf094e1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 39/61] fix: defaults of named tuple fields

---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 72771e2..93be698 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -37,6 +37,7 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
+from databind.core.utils import NotSet
 
 T = t.TypeVar("T")
 
@@ -96,12 +97,15 @@ class CollectionConverter(Converter):
         if not annotations.keys() >= set(field_names):
             return None
 
+        defaults: t.Mapping[str, t.Any] = getattr(datatype.type, "_field_defaults", {})
         return Schema(
             fields={
                 name: Field(
                     # We need to evaluate the type hint to remove forward references. The source is needed to
                     # understand the context in which forward references must be evaluated.
                     datatype=TypeHint(annotations[name][0], source=annotations[name][1]).evaluate(),
+                    required=name not in defaults,
+                    default=defaults.get(name, NotSet.Value),
                 )
                 for name in field_names
             },
-- 
2.43.0


From e0ea2d093f617cc3590141d901b49ba3e810a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 40/61] fix: type parameters of generic named tuples

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 93be698..5e85870 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -98,12 +98,15 @@ class CollectionConverter(Converter):
             return None
 
         defaults: t.Mapping[str, t.Any] = getattr(datatype.type, "_field_defaults", {})
+        parameter_map = datatype.get_parameter_map()
         return Schema(
             fields={
                 name: Field(
                     # We need to evaluate the type hint to remove forward references. The source is needed to
                     # understand the context in which forward references must be evaluated.
-                    datatype=TypeHint(annotations[name][0], source=annotations[name][1]).evaluate(),
+                    datatype=TypeHint(annotations[name][0], source=annotations[name][1])
+                    .evaluate()
+                    .parameterize(parameter_map),
                     required=name not in defaults,
                     default=defaults.get(name, NotSet.Value),
                 )
-- 
2.43.0


From e8fa8e25986a9261dcb4dcc032532377f7092cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 41/61] fix: resolve forward references of typed dict keys in
 the module that declares them

---
 databind/src/databind/core/schema.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 5550ff9..0d45c49 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -295,11 +295,11 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     assert is_typed_dict(typed_dict), typed_dict
 
-    eval_context = vars(sys.modules[typed_dict.__module__])
-
+    key_origin = _get_typed_dict_key_origin(t.cast(type, typed_dict))
     annotations = get_annotations(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
     for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
+        eval_context = vars(sys.modules[key_origin[key].__module__])
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
         has_default = key in vars(typed_dict)
@@ -314,6 +314,23 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     return Schema(fields, t.cast("Constructor", typed_dict), t.cast(type, typed_dict))
 
 
+def _get_typed_dict_key_origin(typed_dict: type) -> t.Dict[str, type]:
+    """Returns for each key of a #typing.TypedDict the class that it is declared on, as the forward references in its
+    annotation must be evaluated in the context of that class. Note that the annotations of a typed dict contain those
+    of its bases, which are known only through `__orig_bases__`."""
+
+    annotations = get_annotations(typed_dict)
+    result = dict.fromkeys(annotations, typed_dict)
+    for base in vars(typed_dict).get("__orig_bases__", ()):
+        base = getattr(base, "__origin__", base)
+        if isinstance(base, type) and is_typed_dict(base):
+            base_annotations = get_annotations(base)
+            for key, origin in _get_typed_dict_key_origin(base).items():
+                if base_annotations[key] is annotations[key]:
+                    result[key] = origin
+    return result
+
+
 def _is_required(datatype: TypeHint, default: bool) -> bool:
     """If *datatype* is a #AnnotatedTypeHint instance, it will look for a #Required settings instance and returns
     that instances #Required.enabled value. Otherwise, it returns *default*."""
-- 
2.43.0


From 471cb672583ea2e1fe5bb1fed66d86013775b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:25 +0000
Subject: [PATCH 42/61] fix: a date format for one type does not get in the way
 of formats for another type

---
 databind/src/databind/core/settings.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index b423c73..87fbd14 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -583,7 +583,13 @@ class DateFormat(Setting):
                 if fmt.startswith("."):
                     yield self.__get_builtin_format(fmt)
                 else:
-                    yield type_.compile(fmt)  # type: ignore
+                    try:
+                        compiled = type_.compile(fmt)  # type: ignore[union-attr]
+                    except ValueError:
+                        # The format may be meant for another of the types, unless it is not a format at all.
+                        datetime_format.compile(fmt)
+                        continue
+                    yield compiled
             elif type(fmt) is type_:
                 yield fmt
             elif isinstance(fmt, format_set):
-- 
2.43.0


From c55e7114e89642516bde5e77b37cd63cc143eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 43/61] fix: no applicable date format on dump is a
 ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 5e85870..e366379 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -238,7 +238,10 @@ class DatetimeConverter(Converter):
         else:
             if not isinstance(ctx.value, date_type):
                 raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
-            return datefmt.format(ctx.value)  # type: ignore[type-var]
+            try:
+                return datefmt.format(ctx.value)  # type: ignore[type-var]
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc))
 
 
 class DecimalConverter(Converter):
-- 
2.43.0


From 5ca6854cbb346e88ad6016f65a73ab51b07cbe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 44/61] fix: dataclass extension leaves a placeholder in
 uninitialized fields of classes with slots

---
 databind/src/databind/core/dataclasses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 26d799b..4211b3c 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -75,7 +75,7 @@ def _process_class(cls, **kwargs):
             f = getattr(cls, key)
             if not isinstance(f, Field):
                 continue
-        if not _field_has_default(f):
+        if f.init and not _field_has_default(f):
             # This prevents a SyntaxError if non-default arguments follow default arguments.
             f.default = NotSet.Value
             no_default_fields.append(key)
-- 
2.43.0


From 7fb7c474521e9477399f2d704c59cc0b41d8e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 45/61] fix: dataclass extension with required fields that
 override fields of a class with slots

---
 databind/src/databind/core/dataclasses.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 4211b3c..b93d807 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -12,6 +12,7 @@ following default arguments.
 
 import copy
 import dataclasses
+import types
 import typing as t
 from dataclasses import (
     MISSING,
@@ -67,7 +68,8 @@ def _process_class(cls, **kwargs):
     # defaults, we will set #Field.default to #NotSet.Value so we can later
     # check if the field was set in __post_init__().
     for key in annotations.keys():
-        if not hasattr(cls, key):
+        # (What a base class with slots has as attribute is no default.)
+        if isinstance(getattr(cls, key, MISSING), (type(MISSING), types.MemberDescriptorType)):
             # The field of a base class must not be altered, so we work with a copy of it.
             f = copy.copy(existing_fields[key]) if key in existing_fields else field()
             setattr(cls, key, f)
-- 
2.43.0


From 39e65670f1e672fc3129a8831c7a44f6de7fe661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 46/61] fix: fields that are declared anew have the options of
 the field they override in the dataclass extension

---
 databind/src/databind/core/dataclasses.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index b93d807..8748bde 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -10,7 +10,6 @@ Note: `make_dataclass` is not currently overridden, so it will not support non-d
 following default arguments.
 """
 
-import copy
 import dataclasses
 import types
 import typing as t
@@ -58,8 +57,10 @@ def _field_has_default(field: Field) -> bool:
 def _process_class(cls, **kwargs):
     # Collect a list of the fields that have no default values but follow after a default argument.
     no_default_fields: t.List[str] = []
-    existing_fields = getattr(cls, "__dataclass_fields__", {})  # For subclasses of dataclasses
     annotations = getattr(cls, "__annotations__", {})
+    if any(annotations is getattr(base, "__annotations__", None) for base in cls.__mro__[1:]):
+        # Before Python 3.10, a class without annotations has the ones of its base class.
+        annotations = {}
     if "__annotations__" not in cls.__dict__:
         # Make sure that __annotations__ exists on the class itself.
         cls.__annotations__ = annotations
@@ -70,8 +71,7 @@ def _process_class(cls, **kwargs):
     for key in annotations.keys():
         # (What a base class with slots has as attribute is no default.)
         if isinstance(getattr(cls, key, MISSING), (type(MISSING), types.MemberDescriptorType)):
-            # The field of a base class must not be altered, so we work with a copy of it.
-            f = copy.copy(existing_fields[key]) if key in existing_fields else field()
+            f = field()
             setattr(cls, key, f)
         else:
             f = getattr(cls, key)
-- 
2.43.0


From e4529555a2e7ea8e6801b5ac2bb5b28e8415c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:33 +0000
Subject: [PATCH 47/61] fix: hooks of further base classes are not called in
 the dataclass extension

---
 databind/src/databind/core/dataclasses.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 8748bde..50351ae 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -83,7 +83,7 @@ def _process_class(cls, **kwargs):
             no_default_fields.append(key)
 
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
-    orig_postinit = getattr(cls, "__post_init__", None)
+    orig_postinit = getattr(cls, "__post_init__") if "__post_init__" in cls.__dict__ else None
 
     def __post_init__(self, *init_vars):
         # Ensure that no field has a "uninitialized" value.
@@ -94,6 +94,11 @@ def _process_class(cls, **kwargs):
             raise TypeError("missing required argument for an InitVar")
         if orig_postinit:
             orig_postinit(self, *init_vars)
+        else:
+            # The one of the next class in the method resolution order, which is not known before there is an instance.
+            base_postinit = getattr(super(cls, self), "__post_init__", None)
+            if base_postinit:
+                base_postinit(*init_vars)
 
     cls.__post_init__ = __post_init__
 
-- 
2.43.0


From c6a1ba92119ede6d57792b45a8830982d71786df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:49 +0000
Subject: [PATCH 48/61] fix: field() of the dataclass extension modifies the
 metadata it is given

---
 databind/src/databind/core/dataclasses.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 50351ae..6ca39fd 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -136,7 +136,5 @@ def field(*, annotations=None, metadata=None, **kwargs):
     """
 
     if annotations:
-        if metadata is None:
-            metadata = {}
-        metadata[ANNOTATIONS_METADATA_KEY] = annotations
+        metadata = {**(metadata or {}), ANNOTATIONS_METADATA_KEY: annotations}
     return dataclasses.field(**kwargs, metadata=metadata)
-- 
2.43.0


From 0926383a5e5b9e4bae8b8fada4fd017cafbe4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 49/61] fix: required fields are not omitted with
 SerializeDefaults(False), as they have to be there on load

---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e366379..c0c2db7 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -563,7 +563,12 @@ class SchemaConverter(Converter):
                 assert result.keys().isdisjoint(value.keys()), result.keys() & value.keys()
                 result.update(value)
             else:
-                if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
+                if (
+                    serialize_defaults
+                    or field.required
+                    or not field.has_default()
+                    or field_ctx.value != field.get_default()
+                ):
                     alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
                     if remainder and remainder.enabled:
                         if not isinstance(value, t.Mapping):
-- 
2.43.0


From ae19729bb10142eb0aa32cdc99320c459cad7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 50/61] fix: DeserializeAs ignores the settings of the class to
 deserialize as

---
 databind/src/databind/json/converters.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c0c2db7..ed1e0cc 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -1,4 +1,5 @@
 import base64
+import dataclasses
 import datetime
 import decimal
 import enum
@@ -665,6 +666,14 @@ class SchemaConverter(Converter):
         return schema.constructor(**result)
 
     def deserialize(self, ctx: Context) -> t.Any:
+        deserialize_as = ctx.get_setting(DeserializeAs)
+        if deserialize_as is not None and TypeHint(deserialize_as.type) != _unwrap_annotated(ctx.datatype):
+            # Convert by the other type, such that its settings (e.g. #ExtraKeys) are taken into account instead of the
+            # ones of the original type. The settings of the annotation still apply.
+            datatype: t.Any = deserialize_as.type
+            if isinstance(ctx.datatype, AnnotatedTypeHint):
+                datatype = te.Annotated[(datatype, *ctx.datatype.metadata)]  # type: ignore[misc]
+            return dataclasses.replace(ctx, datatype=TypeHint(datatype)).convert()
         schema = self._get_schema(ctx)
         return self.deserialize_from_schema(ctx, schema)
 
-- 
2.43.0


From 3d0ed64fbda036b65313de98414b4c887b1df429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 51/61] fix: booleans are not accepted as the number of an
 integer enumeration

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index ed1e0cc..e81f8ac 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -325,7 +325,7 @@ class EnumConverter(Converter):
 
         else:
             if issubclass(enum_type, enum.IntEnum):
-                if not isinstance(value, int):
+                if not isinstance(value, int) or isinstance(value, bool):
                     raise ConversionError.expected(self, ctx, int, type(value))
                 try:
                     return enum_type(value)
-- 
2.43.0


From fc4d9a41e50954b845573f9446e220e86272147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 52/61] fix: aliases on further names of an enumeration member
 are not recognized

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e81f8ac..cf88359 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -334,8 +334,8 @@ class EnumConverter(Converter):
             if issubclass(enum_type, enum.Enum):
                 if not isinstance(value, str):
                     raise ConversionError.expected(self, ctx, str, type(value))
-                for enum_value in enum_type:
-                    alias = self._discover_alias(enum_type, enum_value.name)
+                for member_name, enum_value in enum_type.__members__.items():
+                    alias = self._discover_alias(enum_type, member_name)
                     if alias and value in alias.aliases:
                         return enum_value
                 try:
-- 
2.43.0


From 3834d91be6e52128144917f850dc6d3d84e77748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 53/61] fix: collections and mappings whose type parameters are
 not the ones of their base

---
 databind/src/databind/json/converters.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index cf88359..fd884bf 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -67,6 +67,16 @@ def _unwrap_annotated(hint: TypeHint) -> TypeHint:
     return hint
 
 
+def _get_type_arguments(datatype: ClassTypeHint, type_: type, count: int) -> t.Set[t.Tuple[t.Any, ...]]:
+    """Returns the arguments that the collection *type_* is parametrized with among the bases of *datatype*. Only the
+    most basic of its parametrized classes count, as the type parameters of the classes derived from it may be of other
+    significance. Note that the parameters of `class MyList(list[T])` are not known to be the ones of its base."""
+
+    bases = [x for x in datatype.recurse_bases() if issubclass(x.type, type_) and len(x.args) == count]
+    bases = [x for x in bases if not any(isinstance(arg, t.TypeVar) for arg in x.args)] or bases
+    return {x.args for x in bases if not any(y.type is not x.type and y.type in x.type.__mro__ for y in bases)}
+
+
 class AnyConverter(Converter):
     """A converter for #typing.Any and #object typed values, which will return them unchanged in any case."""
 
@@ -150,10 +160,7 @@ class CollectionConverter(Converter):
                     )
 
         else:
-            candidates = set()
-            for current in datatype.recurse_bases():
-                if issubclass(current.type, t.Collection) and len(current.args) == 1:
-                    candidates.add(current.args[0])
+            candidates = {args[0] for args in _get_type_arguments(datatype, t.Collection, 1)}
             if len(candidates) == 0:
                 raise ConversionError(self, ctx, f"could not find item type in {datatype}")
             elif len(candidates) > 1:
@@ -357,10 +364,7 @@ class MappingConverter(Converter):
             raise NotImplementedError
         if is_typed_dict(datatype.type):
             raise NotImplementedError  # Handled by the SchemaConverter
-        candidates = set()
-        for current in datatype.recurse_bases():
-            if issubclass(current.type, t.Mapping) and len(current.args) == 2:
-                candidates.add(current.args)
+        candidates = _get_type_arguments(datatype, t.Mapping, 2)
         if len(candidates) == 0:
             raise ConversionError(self, ctx, f"could not find key/value type in {datatype}")
         elif len(candidates) > 1:
-- 
2.43.0


From feb5e18b10e076747e05074a57bcf4ca45be0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 54/61] fix: sets of items that are not hashable are loaded as
 lists, and so are abstract sets

---
 databind/src/databind/json/converters.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index fd884bf..eb7b21f 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -3,6 +3,7 @@ import dataclasses
 import datetime
 import decimal
 import enum
+import inspect
 import typing as t
 
 import typing_extensions as te
@@ -193,12 +194,16 @@ class CollectionConverter(Converter):
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
                 return python_type(*values)
 
+            if inspect.isabstract(python_type):
+                # We assume that the native list (or set) is an appropriate placeholder for whatever abstract Collection
+                # type was chosen in the value's datatype.
+                python_type = set if issubclass(python_type, t.AbstractSet) else list
+
             try:
                 return python_type(values)
-            except TypeError:
-                # We assume that the native list is an appropriate placeholder for whatever specific Collection type
-                # was chosen in the value's datatype.
-                return values
+            except TypeError as exc:
+                # E.g. for a set of items that are not hashable.
+                raise ConversionError(self, ctx, str(exc)) from exc
 
 
 class DatetimeConverter(Converter):
-- 
2.43.0


From c88d17728019c270e34c84efc326306316b107f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 55/61] fix: report mapping keys that are not hashable as
 conversion errors

---
 databind/src/databind/json/converters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index eb7b21f..830b39a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -383,8 +383,13 @@ class MappingConverter(Converter):
         result = {}
         for key, value in ctx.value.items():
             value = ctx.spawn(value, value_type, key).convert()
-            key = ctx.spawn(key, key_type, f"Key({key!r})").convert()
-            result[key] = value
+            key_ctx = ctx.spawn(key, key_type, f"Key({key!r})")
+            key = key_ctx.convert()
+            try:
+                result[key] = value
+            except TypeError as exc:
+                # The key is not hashable.
+                raise ConversionError(self, key_ctx, str(exc)) from exc
 
         if ctx.direction == Direction.DESERIALIZE and datatype.type != dict:
             # We assume that the runtime type is constructible from a plain dictionary.
-- 
2.43.0


From c90b62e2f9c01530f284303a3d657a9393478c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 56/61] fix: default dictionaries are loaded as plain
 dictionaries

---
 databind/src/databind/json/converters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 830b39a..74c6c1a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -1,4 +1,5 @@
 import base64
+import collections
 import dataclasses
 import datetime
 import decimal
@@ -391,7 +392,10 @@ class MappingConverter(Converter):
                 # The key is not hashable.
                 raise ConversionError(self, key_ctx, str(exc)) from exc
 
-        if ctx.direction == Direction.DESERIALIZE and datatype.type != dict:
+        if ctx.direction == Direction.DESERIALIZE and issubclass(datatype.type, collections.defaultdict):
+            # The first argument is the default factory, which is not known.
+            return datatype.type(None, result)
+        elif ctx.direction == Direction.DESERIALIZE and datatype.type != dict:
             # We assume that the runtime type is constructible from a plain dictionary.
             try:
                 return datatype.type(result)  # type: ignore[call-arg]
-- 
2.43.0


From d5e026dfa4c8e52c8b8076fac9fa5bde1af92e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 57/61] fix: subclasses of Decimal are loaded as plain decimals

---
 databind/src/databind/json/converters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 74c6c1a..f8925c2 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -276,14 +276,15 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    return context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                    value = context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                    return value if datatype.type is decimal.Decimal else datatype.type(value)
                 except decimal.DecimalException:
                     raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}")
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-            if not isinstance(ctx.value, decimal.Decimal):
-                raise ConversionError.expected(self, ctx, decimal.Decimal, type(ctx.value))
+            if not isinstance(ctx.value, datatype.type):
+                raise ConversionError.expected(self, ctx, datatype.type, type(ctx.value))
             return str(ctx.value)
 
 
-- 
2.43.0


From 171841caecb99d0cb326c74ea5f82f7a9cfdc907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 58/61] fix: new types of types that are not plain classes are
 not supported

---
 databind/src/databind/core/context.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index f462498..deda9ed 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -2,7 +2,8 @@ import dataclasses
 import enum
 import typing as t
 
-from typeapi import TypeHint
+import typing_extensions as te
+from typeapi import AnnotatedTypeHint, TypeHint
 
 if t.TYPE_CHECKING:
     from databind.core.settings import SettingsProvider, T_Setting
@@ -44,6 +45,17 @@ class Direction(enum.Enum):
         return self == Direction.DESERIALIZE
 
 
+def _resolve_new_type(datatype: TypeHint) -> TypeHint:
+    """Replaces a #typing.NewType of something other than a plain class (e.g. of another new type, or a generic type) by
+    what it stands for. Note that a new type of a class is a #ClassTypeHint for that class."""
+
+    annotated = isinstance(datatype, AnnotatedTypeHint)
+    supertype = getattr(datatype.type if annotated else datatype.hint, "__supertype__", None)
+    if supertype is None or isinstance(supertype, type):
+        return datatype
+    return _resolve_new_type(TypeHint(te.Annotated[(supertype, *datatype.metadata)] if annotated else supertype))
+
+
 @dataclasses.dataclass
 class Context:
     """The context is constructed by the #ObjectMapper and passed to an applicable #Converter to convert #value
@@ -80,6 +92,7 @@ class Context:
 
     def __post_init__(self) -> None:
         assert isinstance(self.datatype, TypeHint), self.datatype
+        self.datatype = _resolve_new_type(self.datatype)
         assert self.location is not None
         assert self.parent is not None or self.key == Context.ROOT
 
-- 
2.43.0


From 8907d199b1b9d2519f7323bc8dabdc72ae2207d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 59/61] fix: a wrong number of items for a named tuple is a
 conversion error

---
 databind/src/databind/json/converters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index f8925c2..7485968 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -193,7 +193,11 @@ class CollectionConverter(Converter):
             if python_type == list:
                 return values
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
-                return python_type(*values)
+                try:
+                    return python_type(*values)
+                except TypeError as exc:
+                    # The number of items does not match the fields.
+                    raise ConversionError(self, ctx, str(exc)) from exc
 
             if inspect.isabstract(python_type):
                 # We assume that the native list (or set) is an appropriate placeholder for whatever abstract Collection
-- 
2.43.0


From c4d930d0b4ba371dc779712678b40e1f1a14d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 60/61] fix: the discriminator of a union no longer overwrites
 a key of its member

---
 databind/src/databind/json/converters.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7485968..96cb0b3 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -937,6 +937,17 @@ class UnionConverter(Converter):
 
         else:
             self._check_style_compatibility(ctx, style, result)
+            # The discriminator shares the mapping with the keys of the member (or the nesting key).
+            if style == Union.FLAT:
+                existing = result.get(discriminator_key, member_name)
+            elif style == Union.NESTED and nesting_key == discriminator_key:
+                existing = result
+            else:
+                existing = member_name
+            if existing != member_name:
+                raise ConversionError(
+                    self, ctx, f"discriminator key {discriminator_key!r} collides with another key of the union member"
+                )
             # Bring the serialized value into shape.
             if style == Union.NESTED:
                 result = {discriminator_key: member_name, nesting_key: result}
-- 
2.43.0


From b674654960f89acc97cba6f89fdc49d085bd4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 61/61] fix: defaults are told apart from absent ones by
 identity, not by their own equality

---
 databind/src/databind/core/dataclasses.py | 2 +-
 databind/src/databind/core/schema.py      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 6ca39fd..19fa57e 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -51,7 +51,7 @@ ANNOTATIONS_METADATA_KEY = "databind.core.annotations"
 
 
 def _field_has_default(field: Field) -> bool:
-    return any(x != MISSING for x in (field.default, field.default_factory))  # type: ignore
+    return any(x is not MISSING for x in (field.default, field.default_factory))  # type: ignore
 
 
 def _process_class(cls, **kwargs):
diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 0d45c49..7c1b034 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -226,9 +226,9 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
                 #       but we also cannot ignore it because of warn_unused_ignores.
                 _field_default_factory = getattr(field, "default_factory")
 
-                default = NotSet.Value if field.default == MISSING else field.default
-                default_factory = NotSet.Value if _field_default_factory == MISSING else _field_default_factory
-                has_default = default != NotSet.Value or default_factory != NotSet.Value
+                default = NotSet.Value if field.default is MISSING else field.default
+                default_factory = NotSet.Value if _field_default_factory is MISSING else _field_default_factory
+                has_default = default is not NotSet.Value or default_factory is not NotSet.Value
                 required = _is_required(field_hint, not has_default)
 
                 fields[field.name] = Field(
-- 
2.43.0

