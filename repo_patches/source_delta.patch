From 44060da099cceab74ac1c2b88e7cc92bfed1eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:26 +0000
Subject: [PATCH 01/68] fix: make_nullable must not strip or extend the type it
 is called on

---
 recap/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 7773800..237c755 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -44,7 +44,8 @@ class RecapType:
         # Move doc to the union type
         doc = attrs.pop("doc", None)
         # Unnest extra_attrs for copy or we end up with extra_attrs["extra_attrs"]
-        extra_attrs = attrs.pop("extra_attrs", {})
+        # Copy extra_attrs so `self` keeps its default and name.
+        extra_attrs = dict(attrs.pop("extra_attrs", {}))
         union_attrs = {
             "default": extra_attrs.pop("default", None),
             "doc": doc,
@@ -56,7 +57,8 @@ class RecapType:
         type_copy = RecapTypeClass(**attrs, **extra_attrs)
         if RecapTypeClass == UnionType:
             # Avoid UnionType(types=[NullType(), UnionType(...)])
-            # Instead, just add NullType and default=None to the existing union
+            # Instead, just add NullType and default=None to a copy of the union
+            attrs["types"] = list(attrs["types"])
             type_copy = UnionType(**attrs, **extra_attrs, **union_attrs)
         else:
             type_copy = UnionType([type_copy], **union_attrs)
-- 
2.43.0


From 02168526ed08115a3fd8a0559062382384b5a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:53 +0000
Subject: [PATCH 02/68] fix: JSON schema $defs must not be overwritten by
 references to them

---
 recap/converters/json_schema.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 24721ae..16c6347 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -164,7 +164,12 @@ class JSONSchemaConverter:
 
         defs = {}
 
-        if (alias := recap_type.alias) and alias not in BUILTIN_ALIASES:
+        # A ProxyType's alias is a reference to a definition, not a definition.
+        if (
+            (alias := recap_type.alias)
+            and alias not in BUILTIN_ALIASES
+            and not isinstance(recap_type, ProxyType)
+        ):
             # Don't use $ref for concrete types, since we're defining them,
             # not referencing them.
             defs[alias] = self._convert_field(recap_type, False)
-- 
2.43.0


From e0c240cfafeff7969937e101f7c17a61e39935a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:59 +0000
Subject: [PATCH 03/68] fix: protobuf fields after a oneof must not reuse its
 field numbers

---
 recap/converters/protobuf.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index ec8833f..6f7b10c 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -321,10 +321,16 @@ class ProtobufConverter:
                 message_elements: list[MessageElement] = []
 
                 for field in recap_type.fields:
-                    message_elements.append(
-                        self._recap_to_field(field, field_number, package)
+                    message_element = self._recap_to_field(
+                        field, field_number, package
+                    )
+                    message_elements.append(message_element)
+                    # A oneof takes a field number for each of its fields.
+                    field_number += (
+                        len(message_element.elements)
+                        if isinstance(message_element, OneOf)
+                        else 1
                     )
-                    field_number += 1
                     self._from_recap_gather_types(field, package_to_types)
 
                 package_to_types.setdefault(package, []).append(
-- 
2.43.0


From e70305d45264b866151cc440659dde4a598558da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:05 +0000
Subject: [PATCH 04/68] fix: nullable lists must stay repeated and nullable
 maps must stay maps in protobuf

---
 recap/converters/protobuf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 6f7b10c..94e7752 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -468,8 +468,13 @@ class ProtobufConverter:
                         field_number,
                         package,
                     )
-                    assert isinstance(field, Field), "Maps can't be nullable."
-                    field.cardinality = FieldCardinality.OPTIONAL
+                    # Repeated and map fields have no presence, so they can't be
+                    # (and needn't be) marked optional.
+                    if (
+                        isinstance(field, Field)
+                        and field.cardinality != FieldCardinality.REPEATED
+                    ):
+                        field.cardinality = FieldCardinality.OPTIONAL
                     return field
                 else:
                     # Multiple non-null types means this is a true union of multiple types.
-- 
2.43.0


From c1cb6da0157e96e8d10ddb50a4e2d4681fe4ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:42 +0000
Subject: [PATCH 05/68] fix: nullable and list fields must keep their names in
 protobuf

---
 recap/converters/protobuf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 94e7752..46c2293 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -443,6 +443,8 @@ class ProtobufConverter:
                     nested_field,
                     Field,
                 ), "Maps and unions can't be repeated (lists)."
+                if "name" not in values.extra_attrs:
+                    nested_field.name = field_name
                 nested_field.cardinality = FieldCardinality.REPEATED
                 return nested_field
             case MapType(keys=keys, values=values):
@@ -468,6 +470,8 @@ class ProtobufConverter:
                         field_number,
                         package,
                     )
+                    if "name" not in non_null_types[0].extra_attrs:
+                        field.name = field_name
                     # Repeated and map fields have no presence, so they can't be
                     # (and needn't be) marked optional.
                     if (
-- 
2.43.0


From a9116aeb78cf440a2b1facc152bac24a4f2bded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:46 +0000
Subject: [PATCH 06/68] fix: protobuf must reject lists of lists rather than
 flatten them

---
 recap/converters/protobuf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 46c2293..6458ae4 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -443,6 +443,9 @@ class ProtobufConverter:
                     nested_field,
                     Field,
                 ), "Maps and unions can't be repeated (lists)."
+                assert (
+                    nested_field.cardinality != FieldCardinality.REPEATED
+                ), "Lists can't be repeated (lists)."
                 if "name" not in values.extra_attrs:
                     nested_field.name = field_name
                 nested_field.cardinality = FieldCardinality.REPEATED
-- 
2.43.0


From 6bb0de3ff8e69205dc114b2e649f1692846d022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:51 +0000
Subject: [PATCH 07/68] fix: protobuf strings and bytes read by Recap must be
 writable again

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 6458ae4..0d22e23 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -433,9 +433,9 @@ class ProtobufConverter:
                     "Invalid bit size for FloatType. Protobuf supports only 32 "
                     "or 64 bits for floating-point types."
                 )
-            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "string")
-            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
                 nested_field = self._recap_to_field(values, field_number, package)
-- 
2.43.0


From f398ce16f05e4766a329722ded30cea2da12c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:58 +0000
Subject: [PATCH 08/68] fix: a protobuf message used by several fields must be
 defined once

---
 recap/converters/protobuf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 0d22e23..e05883b 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -60,8 +60,9 @@ class ProtobufConverter:
         resolved: set[str] | None = None,
         seen: set[str] | None = None,
     ) -> RecapType:
-        resolved = resolved or set()
-        seen = seen or set()
+        # An empty set is falsy, but must still be shared with the callees.
+        resolved = resolved if resolved is not None else set()
+        seen = seen if seen is not None else set()
 
         # Detect circular references.
         if not isinstance(recap_type, ProxyType) and recap_type.alias is not None:
-- 
2.43.0


From 4d02d0ffd2bfc2cf979680a81ab71eb181be7f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:31 +0000
Subject: [PATCH 09/68] fix: protobuf must reject types outside the root
 package rather than drop them

---
 recap/converters/protobuf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index e05883b..a0e9f66 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -289,7 +289,13 @@ class ProtobufConverter:
         package = sorted(package_to_types.keys())[0]
         # Verify all subpackages are under the root package.
         for subpackage in package_to_types.keys():
-            assert subpackage.startswith(package), (
+            parent, _, name = subpackage.rpartition(".")
+            # Types in a subpackage are nested in the message of that name. If there's
+            # no such message, they'd be referenced but never defined.
+            assert subpackage == package or any(
+                isinstance(type_, Message) and type_.name == name
+                for type_ in package_to_types.get(parent, [])
+            ), (
                 "Proto files must contain messages in a single root package space, "
                 f"but found root={package} and subpackage={subpackage}."
             )
-- 
2.43.0


From 0dccbd64a5170d11844eda9c60ade9e35bc8a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:56 +0000
Subject: [PATCH 10/68] fix: Avro must resolve built-in aliases that convert to
 a simple type

---
 recap/converters/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 3e0d0b1..914ffad 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -138,7 +138,7 @@ class AvroConverter:
                     if isinstance(alias_type, dict):
                         avro_schema |= alias_type
                     else:
-                        avro_schema["type"] = alias
+                        avro_schema["type"] = alias_type
                 else:
                     # Fully qualified (non-builtin) aliases should just be referenced.
                     avro_schema["type"] = alias
-- 
2.43.0


From aa597782f0dfbde130f177fa5fdf19a7f4502bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:03 +0000
Subject: [PATCH 11/68] fix: Avro durations are fixed length, so they can be
 written back

---
 recap/converters/avro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 914ffad..1aacb67 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -426,6 +426,7 @@ class AvroConverter:
                 return BytesType(
                     logical="build.recap.Interval",
                     bytes_=12,
+                    variable=False,
                     signed=True,
                     unit="millisecond",
                     **extra_attrs,
-- 
2.43.0


From ff4e81990f081c27f65d0f11ed795c04141a9993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:09 +0000
Subject: [PATCH 12/68] fix: Avro must support strings and bytes without a
 length, as the README shows

---
 recap/converters/avro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 1aacb67..5fad80c 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -92,6 +92,11 @@ class AvroConverter:
                 avro_schema["type"] = "double"
             case StringType(bytes_=int(bytes_)) if bytes_ <= 9_223_372_036_854_775_807:
                 avro_schema["type"] = "string"
+            case StringType(bytes_=None):
+                # No length set, so any length is allowed.
+                avro_schema["type"] = "string"
+            case BytesType(bytes_=None, variable=True):
+                avro_schema["type"] = "bytes"
             case BytesType(
                 bytes_=int(bytes_),
                 variable=True,
-- 
2.43.0


From a17b80e116643290e33f7514bbe65815f063a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 13/68] fix: to_dict must not lose attributes of unions and the
 types nested in them

---
 recap/types.py | 74 ++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 237c755..8ea9601 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -396,9 +396,12 @@ def from_dict(
         name = type_dict.pop("name", None)
         default = type_dict.pop("default", None)
         if type_dict["type"] != "union":
+            # Promote the doc to the union, as `make_nullable` does
+            doc = type_dict.pop("doc", None)
             type_dict = {
                 "type": "union",
                 "types": ["null", type_dict],
+                "doc": doc,
             }
         if "null" not in type_dict["types"]:
             type_dict["types"] = ["null"] + type_dict["types"]
@@ -664,47 +667,46 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
 
     # Support "optional" sytnactic sugar.
     # Shorten {"type": "union", "types": ["null", ...], "default": ...}
-    # to {"type": "union", "types": [...], "optional": True}
+    # to {"type": "union", "types": [...], "optional": True}. Only do so if the
+    # union has no other (non-standard) extra attributes, and if null is where
+    # `from_dict` puts it, so the types keep their order.
     if (
         type_dict["type"] == "union"
-        and "null" in type_dict["types"]
+        and type_dict["types"][:1] == ["null"]
+        and type_dict["types"].count("null") == 1
         and "default" in type_dict
+        and type_dict.get("name", "") is not None
+        and type_dict.keys()
+        <= {"type", "types", "alias", "default", "doc", "logical", "name"}
     ):
-        # Pop off standard attributes that should be kept whether the type is kept
-        # as a union or converted to a single nested type.
-        alias = type_dict.pop("alias", None)
-        logical = type_dict.pop("logical", None)
-        default = type_dict.pop("default")
-        doc = type_dict.pop("doc", None)
-        name = type_dict.pop("name", None)
-
-        # Only do syntactic sugar if the union is a union with no other
-        # (non-standard) extra attributes.
-        if len(type_dict) == 2:
-            type_dict["types"].remove("null")
-
-            # If the type was ["null", <some type>], use <some type> instead
-            # of a union of a single type. Don't do this if union is an alias or
-            # logical type, since we promoting the nested type would change what
-            # the alias/logical type means.
-            if len(type_dict["types"]) == 1 and alias is None and logical is None:
-                nested_type = type_dict["types"][0]
-                if isinstance(nested_type, str):
-                    nested_type = {"type": nested_type}
+        # Attributes that should be kept whether the type is kept as a union or
+        # converted to a single nested type.
+        attributes = {
+            k: v
+            for k, v in type_dict.items()
+            if k not in ("type", "types") and v is not None
+        }
+        types = type_dict["types"][1:]
+        type_dict = {"type": "union", "types": types}
+
+        # If the type was ["null", <some type>], use <some type> instead
+        # of a union of a single type. Don't do this if union is an alias or
+        # logical type, since we promoting the nested type would change what
+        # the alias/logical type means. Don't do this if the nested type has
+        # attributes of its own that the union's attributes would replace.
+        if len(types) == 1 and not {"alias", "logical"} & attributes.keys():
+            nested_type = types[0]
+            if isinstance(nested_type, str):
+                nested_type = {"type": nested_type}
+            if (
+                isinstance(nested_type, dict)
+                and nested_type["type"] != "union"
+                and not {"default", "doc", "name", "optional"} & nested_type.keys()
+            ):
                 type_dict = nested_type
-            assert isinstance(type_dict, dict), "Expected type_dict to be a dict."
-            attributes = {
-                "alias": alias,
-                "default": default,
-                "doc": doc,
-                "logical": logical,
-                "name": name,
-                "optional": True,
-            }
-            # Filter None values
-            attributes = {k: v for k, v in attributes.items() if v is not None}
-            # Add attributes to the type_dict.
-            type_dict |= attributes
+
+        # Add attributes to the type_dict.
+        type_dict |= {**attributes, "optional": True}
 
     # Shorten simple types {"type": "type"} to "type"
     if len(type_dict) == 1:
-- 
2.43.0


From baab93bdd4dc50fd66d80ca8fdf0a279ad47609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 14/68] fix: to_dict must support aliased types that are nested
 more than one level deep

---
 recap/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 8ea9601..53ac4c2 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -746,7 +746,9 @@ def alias_dict(
         return type_dict
 
     registry = registry or RecapTypeRegistry()
-    recap_type = from_dict(type_dict, registry)
+    # Don't register the dictionary's aliases. Nested dictionaries are converted
+    # once per nesting level, so their aliases would be registered repeatedly.
+    recap_type = from_dict(type_dict)
 
     # If there's a matching alias, replace the type_dict with it
     for alias, alias_type in registry._type_registry.items():
-- 
2.43.0


From 0a1ce180e47e85c81b797117c5981b471746c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 15/68] fix: a list of types must not drop its nested lists

---
 recap/types.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 53ac4c2..88b5fd6 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -414,13 +414,10 @@ def from_dict(
 
     if isinstance(type_name, list):
         # If type is a list, handle as a union
-        union_types = []
-        for t in type_name:
-            if isinstance(t, dict):
-                union_types.append(from_dict(t, registry))
-            elif isinstance(t, str):
-                union_types.append(from_dict({"type": t}, registry))
-        recap_type = UnionType(union_types, **type_dict)
+        recap_type = UnionType(
+            [from_dict(t, registry) for t in type_name],
+            **type_dict,
+        )
     elif isinstance(type_name, str):
         match type_name:
             case "null":
-- 
2.43.0


From 24ccd62771eb5da033f626edc44d7d7f5d60dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 16/68] fix: safe URLs must never contain credentials and must
 keep IPv6 hosts intact

---
 recap/settings.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 0ec5c5c..68810e4 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -45,14 +45,9 @@ class RecapSettings(BaseSettings):
 
         for url in self.urls:
             split_url = urlsplit(str(url))
-            netloc = split_url.netloc
-
-            if split_url.username or split_url.password:
-                if split_url.hostname is not None:
-                    netloc = split_url.hostname
-
-                if split_url.port is not None:
-                    netloc += f":{split_url.port}"
+            # Remove everything up to the last @, but keep the host and port as
+            # they are, including the brackets of an IPv6 address.
+            netloc = split_url.netloc.rpartition("@")[2]
 
             sanitized_url = urlunsplit(
                 (
-- 
2.43.0


From 1a0ae2d22715d487cb057abe83a08529ad7d8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:45 +0000
Subject: [PATCH 17/68] fix: credentials must only be merged into URLs beneath
 the configured path

---
 recap/settings.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 68810e4..6fb7282 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -1,5 +1,5 @@
 import os
-from pathlib import Path
+from pathlib import Path, PurePosixPath
 from typing import Any
 from urllib.parse import parse_qs, urlencode, urlsplit, urlunsplit
 
@@ -75,7 +75,7 @@ class RecapSettings(BaseSettings):
         into the input URL and return it. Merging occurs if:
 
         - The input URL's scheme, hostname, and port match a URL in settings.
-        - The input URL's path starts with the settings URL's path.
+        - The input URL's path is the settings URL's path, or is beneath it.
 
         :param url: URL to merge
         :param strict: If True, raise an error if the URL is not configured in settings.
@@ -83,16 +83,18 @@ class RecapSettings(BaseSettings):
         """
 
         url_split = urlsplit(url)
-        url_path = Path(url_split.path or "/").as_posix()
+        url_path = PurePosixPath(url_split.path or "/")
 
         for unsafe_url in self.urls:
             unsafe_url_split = urlsplit(unsafe_url.unicode_string())
+            unsafe_url_path = PurePosixPath(unsafe_url_split.path or "/")
 
             if (
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(Path(unsafe_url_split.path).as_posix())
+                and url_path.is_relative_to(unsafe_url_path)
+                and ".." not in url_path.relative_to(unsafe_url_path).parts
             ):
                 netloc = unsafe_url_split.netloc
 
@@ -108,7 +110,7 @@ class RecapSettings(BaseSettings):
                     (
                         url_split.scheme,
                         netloc,
-                        url_path.rstrip("/"),
+                        url_path.as_posix().rstrip("/"),
                         query,
                         url_split.fragment or unsafe_url_split.fragment,
                     )
-- 
2.43.0


From 6d25cea344c9cec4c20c79d99c2d9bb3ea403c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 18/68] fix: query parameters must not replace the components
 of a URL

---
 recap/clients/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index fe91054..3e682f9 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -124,7 +124,13 @@ def _url_to_dict(url: str) -> dict[str, str]:
     parsed_qs = {
         key: value[0] if len(value) == 1 else value for key, value in parsed_qs.items()
     }
-    parsed_dict |= parsed_qs
+    # Query parameters must not replace what the URL itself specifies (its host,
+    # credentials, scheme, and so on).
+    parsed_dict |= {
+        key: value
+        for key, value in parsed_qs.items()
+        if key == "query" or parsed_dict.get(key) is None
+    }
 
     return parsed_dict
 
-- 
2.43.0


From 3d2d1a42285fd4b44b6e8d809abebc0cfca5d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:59 +0000
Subject: [PATCH 19/68] fix: parse_url must keep the driver in the scheme of
 its connection URL

---
 recap/clients/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index 3e682f9..de7fe24 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -65,6 +65,11 @@ def parse_url(method: str, url: str, strict: bool = True) -> tuple[str, list[Any
         module = import_module(module_path)
         client_class = getattr(module, class_name)
         connection_url, method_args = client_class.parse(method, **url_args)
+        # Clients drop the driver from the scheme (http+csr -> http). Restore it,
+        # since settings and `create_client` know the URL by its full scheme.
+        dialect = scheme.partition("+")[0]
+        if connection_url.startswith(f"{dialect}://"):
+            connection_url = scheme + connection_url.removeprefix(dialect)
         return (settings.unsafe_url(connection_url, strict), method_args)
     else:
         raise ValueError(f"No clients available for scheme: {scheme}")
-- 
2.43.0


From 901a0a4088081b997eb7796e2510509a6fe975b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:05 +0000
Subject: [PATCH 20/68] fix: BigQuery ls must accept the arguments its URLs are
 parsed into

---
 recap/clients/bigquery.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index 5434ada..b70a526 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -29,13 +29,18 @@ class BigQueryClient:
             case _:
                 raise ValueError("Invalid method")
 
-    def ls(self, project: str | None = None, dataset: str | None = None) -> list[str]:
-        match (project, dataset):
-            case (None, None):
+    def ls(
+        self,
+        project: str | None = None,
+        dataset: str | None = None,
+        table: str | None = None,
+    ) -> list[str]:
+        match (project, dataset, table):
+            case (None, None, None):
                 return self.ls_projects()
-            case (str(project), None):
+            case (str(project), None, None):
                 return self.ls_datasets(project)
-            case (str(project), str(dataset)):
+            case (str(project), str(dataset), None):
                 return self.ls_tables(project, dataset)
             case _:
                 raise ValueError("Invalid arguments")
-- 
2.43.0


From f6756e6181e1ceb35a99fd481eaf6cef5eaf0625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 21/68] fix: registry names must not escape the directory their
 versions are stored in

---
 recap/storage/registry.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 2904d8d..4651eca 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -25,7 +25,7 @@ class RegistryStorage:
         name: str,
         version: int | None = None,
     ) -> tuple[RecapType, int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote_name(name)
 
         if version is None:
             versions = self.versions(name)
@@ -47,7 +47,7 @@ class RegistryStorage:
         type_: RecapType,
         version: int | None = None,
     ) -> int:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote_name(name)
 
         if version is None:
             version = (self.latest(name) or 0) + 1
@@ -63,7 +63,7 @@ class RegistryStorage:
         return version
 
     def versions(self, name: str) -> list[int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote_name(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
 
         try:
@@ -76,6 +76,23 @@ class RegistryStorage:
         except FileNotFoundError:
             return None
 
+    def _quote_name(self, name: str) -> str:
+        """
+        Quote a name so it's a single path segment beneath the root path.
+
+        :param name: Name of a type.
+        :return: Name of the directory that contains the type's versions.
+        """
+
+        if not name:
+            raise ValueError("Name must not be empty.")
+
+        # quote_plus leaves dots alone, but . and .. are not directory names.
+        if name in (".", ".."):
+            return name.replace(".", "%2E")
+
+        return quote_plus(name)
+
     def latest(self, name: str) -> int | None:
         versions = self.versions(name)
         if not versions:
-- 
2.43.0


From c3426b71bc72a2cd01e63b5a33ac9919eaad64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:17 +0000
Subject: [PATCH 22/68] fix: a registry type that cannot be serialized must not
 leave a truncated version

---
 recap/storage/registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 4651eca..1b9757a 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -53,12 +53,14 @@ class RegistryStorage:
             version = (self.latest(name) or 0) + 1
 
         path_without_version = f"{self.root_path}/{quoted_name}"
-        type_dict = to_dict(type_)
+        # Serialize before opening the file so a type that can't be serialized
+        # doesn't leave a truncated version behind.
+        type_json = json.dumps(to_dict(type_))
 
         self.fs.mkdirs(path_without_version, exist_ok=True)
 
         with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
-            json.dump(type_dict, f)
+            f.write(type_json)
 
         return version
 
-- 
2.43.0


From b75235eade1d2dd743397585d138742cba89791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 23/68] fix: concurrent registry PUTs must not overwrite an
 existing version

---
 recap/server/registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 365bb63..d1a9bff 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -76,14 +76,16 @@ async def put(
     request: Request,
     storage: RegistryStorage = Depends(get_storage),
 ):
+    # Read the request before checking for an existing version. Awaiting between
+    # the check and the write would let another request write the version first.
+    type_ = await _request_to_type(request)
+
     if storage.get(name, version):
         raise HTTPException(
             status_code=409,
             detail=f"Type {name} version {version} already exists",
         )
 
-    type_ = await _request_to_type(request)
-
     return storage.put(name, type_, version)
 
 
-- 
2.43.0


From 24c488267774d047891f4a748b81c6858b4d77c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:30 +0000
Subject: [PATCH 24/68] fix: PostgreSQL and SQLite connections must be closed
 with their client

---
 recap/clients/postgresql.py | 4 ++--
 recap/clients/sqlite.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 246d043..17bb818 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 from typing import Generator
 
 from recap.clients.dbapi import Connection, DbapiClient
@@ -70,7 +70,7 @@ class PostgresqlClient(DbapiClient):
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in PSYCOPG2_CONNECT_ARGS}
 
-        with psycopg2.connect(**url_args) as client:
+        with closing(psycopg2.connect(**url_args)) as client:
             yield PostgresqlClient(client)
 
     def ls_catalogs(self) -> list[str]:
diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 0cf65a2..38c67e6 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 from re import compile as re_compile
 from typing import Any, Generator
 
@@ -36,7 +36,7 @@ class SQLiteClient:
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
 
-        with sqlite3.connect(**url_args) as client:
+        with closing(sqlite3.connect(**url_args)) as client:
             yield SQLiteClient(client)  # type: ignore
 
     @staticmethod
-- 
2.43.0


From 7df412711a7d4808d6eda6471f7b83a12578a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:36 +0000
Subject: [PATCH 25/68] fix: SQLite table names must not be interpolated into
 SQL

---
 recap/clients/sqlite.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 38c67e6..9c1cda2 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -80,12 +80,11 @@ class SQLiteClient:
     def schema(self, table: str) -> StructType:
         cursor = self.connection.cursor()
 
-        # Validate that table exists since we want to prevent SQL injections in
-        # the PRAGMA call
+        # Validate that table exists since table info of a missing table is empty
         if not self._table_exists(table):
             raise ValueError(f"Table '{table}' does not exist in the database.")
 
-        cursor.execute(f"PRAGMA table_info({table});")
+        cursor.execute("SELECT * FROM pragma_table_info(?)", (table,))
         names = [name[0].upper() for name in cursor.description]
         rows = []
 
-- 
2.43.0


From fedbe57ce0948b13901d4dfbdb9e4d6f15af67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:43 +0000
Subject: [PATCH 26/68] fix: SQLite schema URLs must keep absolute database
 paths

---
 recap/clients/sqlite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 9c1cda2..058f22f 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -48,12 +48,14 @@ class SQLiteClient:
                 return (url_args["url"], [])
             case "schema":
                 table = url_args["paths"].pop(-1)
+                # A leading // is the root of an absolute path
+                root = "/" if url_args["path"].startswith("//") else ""
                 connection_url = urlunparse(
                     [
                         url_args.get("dialect") or url_args.get("scheme"),
                         url_args.get("netloc"),
                         # Include / prefix for paths
-                        "/".join(url_args.get("paths", [])),
+                        root + "/".join(url_args.get("paths", [])),
                         url_args.get("params"),
                         url_args.get("query"),
                         url_args.get("fragment"),
-- 
2.43.0


From 70a81d29f2c1689d935c1d36888b8eb61bf78d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:50 +0000
Subject: [PATCH 27/68] fix: Snowflake must connect to the database in its URL

---
 recap/clients/snowflake.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index b604992..db48b77 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -20,9 +20,9 @@ class SnowflakeClient(DbapiClient):
         snowflake_args["account"] = url_args.pop("host")
 
         match url_args.get("paths"):
-            case str(database), None:
+            case [str(database)]:
                 snowflake_args["database"] = database
-            case str(database), str(schema):
+            case [str(database), str(schema)]:
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-- 
2.43.0


From e549c45387aa803fc7e29bf884fe569208dc3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:14 +0000
Subject: [PATCH 28/68] fix: Snowflake must support URLs without a port

---
 recap/clients/snowflake.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index db48b77..28818dd 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -26,7 +26,10 @@ class SnowflakeClient(DbapiClient):
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-        with snowflake.connector.connect(**(snowflake_args | url_args)) as client:
+        # Leave out components that the URL doesn't have (e.g. port=None)
+        snowflake_args |= {k: v for k, v in url_args.items() if v is not None}
+
+        with snowflake.connector.connect(**snowflake_args) as client:
             yield SnowflakeClient(client)  # type: ignore
 
     def ls_catalogs(self) -> list[str]:
-- 
2.43.0


From d1065b2f915e1a38dd16268a8dd51801aa638747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:20 +0000
Subject: [PATCH 29/68] fix: a PostgreSQL converter must convert any number of
 tables with array columns

---
 recap/converters/postgresql.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index d5c17cf..dcc6a35 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -14,6 +14,7 @@ from recap.types import (
     RecapType,
     RecapTypeRegistry,
     StringType,
+    StructType,
     UnionType,
 )
 
@@ -38,6 +39,11 @@ class PostgresqlConverter(DbapiConverter):
         self.namespace = namespace
         self.registry = RecapTypeRegistry()
 
+    def to_recap(self, columns: list[dict[str, Any]]) -> StructType:
+        # Aliases are only unique within a table, so every table needs a registry
+        self.registry = RecapTypeRegistry()
+        return super().to_recap(columns)
+
     def _parse_type(self, column_props: dict[str, Any]) -> RecapType:
         column_name = column_props["COLUMN_NAME"]
         data_type = column_props["DATA_TYPE"].lower()
-- 
2.43.0


From 4b8778150105dfe426b2f29dd2c51a04fb63c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:47 +0000
Subject: [PATCH 30/68] fix: PostgreSQL arrays of decimals and timestamps must
 be supported

---
 recap/converters/dbapi.py      | 4 +++-
 recap/converters/postgresql.py | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/recap/converters/dbapi.py b/recap/converters/dbapi.py
index 7d17cbc..a8004cd 100644
--- a/recap/converters/dbapi.py
+++ b/recap/converters/dbapi.py
@@ -38,8 +38,10 @@ class DbapiConverter(ABC):
             return [p.strip() for p in match.group(1).split(",")]
         return None
 
-    def _get_time_unit(self, params: list[str] | None) -> str | None:
+    def _get_time_unit(self, params: list[str | None] | None) -> str | None:
         match params:
+            case [None, *_]:
+                return None
             case [unit, *_] if int(unit) == 0:
                 return "second"
             case [unit, *_] if int(unit) <= 3:
diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index dcc6a35..3ea2913 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -118,6 +118,10 @@ class PostgresqlConverter(DbapiConverter):
                     "CHARACTER_OCTET_LENGTH": MAX_FIELD_SIZE,
                     # * 8 because bit columns use bits not bytes.
                     "CHARACTER_MAXIMUM_LENGTH": MAX_FIELD_SIZE * 8,
+                    # Nor does it contain precisions for array types
+                    "DATETIME_PRECISION": None,
+                    "NUMERIC_PRECISION": None,
+                    "NUMERIC_SCALE": None,
                     "UDT_NAME": None,
                     "ATTNDIMS": 0,
                 }
-- 
2.43.0


From 9f4195b2cf74c4fcc1f7de5cf759af5f48f62d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:53 +0000
Subject: [PATCH 31/68] fix: lists and maps in Hive unions must keep their
 attributes

---
 recap/converters/hive_metastore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/converters/hive_metastore.py b/recap/converters/hive_metastore.py
index 996eb7f..a7fce5c 100644
--- a/recap/converters/hive_metastore.py
+++ b/recap/converters/hive_metastore.py
@@ -216,13 +216,15 @@ class HiveMetastoreConverter:
         elif isinstance(recap_type, ListType):
             return ListType(
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                length=recap_type.length,
+                variable=recap_type.variable,
+                **extra_attrs,
             )
         elif isinstance(recap_type, MapType):
             return MapType(
                 keys=self._flatten_unions(recap_type.keys),
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         else:
             # No nested union type to flatten
-- 
2.43.0


From 04389c3d63372ae169193fcf17aaac61f0be492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:50 +0000
Subject: [PATCH 32/68] fix: copies of recursive types must still resolve

---
 recap/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 88b5fd6..a18a31b 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -363,6 +363,11 @@ class RecapTypeRegistry:
         except KeyError:
             raise TypeError(f"No RecapType with alias {alias} found.")
 
+    def __deepcopy__(self, memo):
+        # Copies of a ProxyType must resolve to the same types as the original,
+        # even to ones that are registered after the copy was made.
+        return self
+
 
 def from_dict(
     type_dict: dict | list | str,
-- 
2.43.0


From 34d441597df34524219522204cbba2582f21352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:56 +0000
Subject: [PATCH 33/68] fix: JSON schema bytes written by Recap must be read as
 bytes again

---
 recap/converters/json_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 16c6347..a13ef79 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -95,7 +95,7 @@ class JSONSchemaConverter:
             case {"type": "array", "items": items}:
                 values = self._parse(items, alias_strategy)
                 return ListType(values, **extra_attrs)
-            case {"type": "string", "format": "bytes"}:
+            case {"type": "string", "format": "bytes" | "byte"}:
                 return BytesType(**extra_attrs)
             case {"type": "string", "format": "date"}:
                 return StringType(logical="org.iso.8601.Date", **extra_attrs)
-- 
2.43.0


From ab021d59d82823530c8223579a19d21339b8e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:02 +0000
Subject: [PATCH 34/68] fix: JSON schema fields that refer to an alias must
 stay references

---
 recap/converters/json_schema.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index a13ef79..7c7718f 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -258,10 +258,11 @@ class JSONSchemaConverter:
                 type_dict |= {"type": "string", "format": "byte"}
             case NullType():
                 type_dict |= {"type": "null"}
-            case ProxyType(alias=alias) if alias in BUILTIN_ALIASES or len(
-                field.extra_attrs
-            ) > 0:
-                # If there are attribute overrides, we can't use refs. JSON
+            case ProxyType(alias=alias) if (
+                alias in BUILTIN_ALIASES or field.extra_attrs.keys() - {"name"}
+            ):
+                # If there are attribute overrides, we can't use refs. A name isn't
+                # an override, since it belongs to the struct's field. JSON
                 # schema doesn't support $def overrides. Also, if the alias
                 # is a built-in type, convert to standard types instead of $defs
                 return self._convert_field(field.resolve())
-- 
2.43.0


From 7441d419b1a8da7c01ead934b945ae372175a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:29 +0000
Subject: [PATCH 35/68] fix: JSON schema lists and maps must keep nullable
 values nullable

---
 recap/converters/json_schema.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 7c7718f..ade4463 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -191,12 +191,14 @@ class JSONSchemaConverter:
         self,
         field: RecapType,
         use_refs: bool = True,
+        is_property: bool = False,
     ) -> dict[str, Any]:
         """
         Convert a Recap type to a JSON schema type.
 
         :param field: The Recap type to convert.
         :param use_refs: If true, use $ref for concrete types with aliases.
+        :param is_property: If true, the field is a property of an object.
         :return: A JSON schema type.
         """
 
@@ -216,9 +218,11 @@ class JSONSchemaConverter:
                 # since _generate_alias_defs will handle defining the type.
                 type_dict = {"$ref": f"#/$defs/{alias}"}
             case UnionType(types=types):
-                # If field is optional, just return the nested type.
-                # from_recap will mark the field as required in the struct.
-                if field.is_optional:
+                # If field is optional, just return the nested type. The struct
+                # won't mark the field as required. Only properties (and their
+                # definitions) can be left out, so everything else has to allow
+                # null.
+                if (is_property or not use_refs) and field.is_optional:
                     non_null_types = [t for t in types if not isinstance(t, NullType)]
                     assert len(non_null_types) == 1
                     type_dict |= self._convert_field(non_null_types[0])
@@ -228,7 +232,10 @@ class JSONSchemaConverter:
                 type_dict |= {"type": "object", "properties": {}}
                 for field in field.fields:
                     if field_name := field.extra_attrs.get("name"):
-                        type_dict["properties"][field_name] = self._convert_field(field)
+                        type_dict["properties"][field_name] = self._convert_field(
+                            field,
+                            is_property=True,
+                        )
 
                         if not isinstance(field, UnionType) or not field.is_optional:
                             type_dict.setdefault("required", []).append(field_name)
-- 
2.43.0


From 7c107d2f60d0ff0900caa7d04ee7e727164edde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:05 +0000
Subject: [PATCH 36/68] fix: unsigned MySQL integers must not be reported as
 signed

---
 recap/converters/mysql.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/recap/converters/mysql.py b/recap/converters/mysql.py
index 4947ff0..dde344b 100644
--- a/recap/converters/mysql.py
+++ b/recap/converters/mysql.py
@@ -10,22 +10,24 @@ class MysqlConverter(DbapiConverter):
         octet_length = column_props["CHARACTER_OCTET_LENGTH"]
         precision = column_props["NUMERIC_PRECISION"]
         scale = column_props["NUMERIC_SCALE"]
+        # DATA_TYPE is "int" for "int unsigned", but COLUMN_TYPE is not
+        signed = "unsigned" not in (column_props.get("COLUMN_TYPE") or "").lower()
 
         if data_type == "bigint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=64, signed=True)
+            base_type = IntType(bits=64, signed=signed)
         elif data_type in ["int", "integer"]:
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=32, signed=True)
+            base_type = IntType(bits=32, signed=signed)
         elif data_type == "mediumint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=24, signed=True)
+            base_type = IntType(bits=24, signed=signed)
         elif data_type == "smallint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=16, signed=True)
+            base_type = IntType(bits=16, signed=signed)
         elif data_type == "tinyint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=8, signed=True)
+            base_type = IntType(bits=8, signed=signed)
         elif data_type == "double" or (data_type == "float" and precision > 23):
             # https://dev.mysql.com/doc/refman/8.0/en/floating-point-types.html
             base_type = FloatType(bits=64)
-- 
2.43.0


From fddeae232841b6ae9a4e30cc1b864d23d22decba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:29 +0000
Subject: [PATCH 37/68] fix: a protobuf converter must keep its namespace for
 schemas without a package

---
 recap/converters/protobuf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index a0e9f66..645980c 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -118,7 +118,8 @@ class ProtobufConverter:
         if root_message is None:
             raise ValueError("Protobuf schema must contain at least one Message")
 
-        self.namespaces.pop()
+        if packages:
+            self.namespaces.pop()
 
         return root_message
 
-- 
2.43.0


From c6aed736407dec9a49f1eb8a5e7f0d575c4d3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:34 +0000
Subject: [PATCH 38/68] fix: protobuf must resolve Recap's built-in aliases

---
 recap/converters/protobuf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 645980c..0f35bf8 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -14,6 +14,7 @@ from proto_schema_parser.ast import (
 from proto_schema_parser.parser import Parser
 
 from recap.types import (
+    BUILTIN_ALIASES,
     BoolType,
     BytesType,
     EnumType,
@@ -505,6 +506,9 @@ class ProtobufConverter:
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
+            case ProxyType(alias=alias) if alias in BUILTIN_ALIASES:
+                # Protobuf doesn't know Recap's built-in types by their alias
+                return self._recap_to_field(recap_type.resolve(), field_number, package)
             case (
                 StructType(alias=alias) | EnumType(alias=alias) | ProxyType(alias=alias)
             ):
-- 
2.43.0


From 5fa4a922e87b4844e72c216e70dcd0beced0c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:12 +0000
Subject: [PATCH 39/68] fix: ProxyType.resolve() dropped the doc and logical
 attributes of the reference

---
 recap/types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index a18a31b..21403fa 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -321,7 +321,12 @@ class ProxyType(RecapType):
         if self._resolved is None:
             self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))
             # Apply attribute overrides
-            for attr, value in self.extra_attrs.items():
+            overrides = {
+                k: v
+                for k, v in (("logical", self.logical), ("doc", self.doc))
+                if v is not None
+            } | self.extra_attrs
+            for attr, value in overrides.items():
                 if hasattr(self._resolved, attr):
                     setattr(self._resolved, attr, value)
                 else:
-- 
2.43.0


From 7e8aaee115a4992bfc66f297ba44cf69223e495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:53 +0000
Subject: [PATCH 40/68] fix: Avro schemas with the same field name in two
 records were rejected

---
 recap/converters/avro.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 5fad80c..385c390 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -276,7 +276,10 @@ class AvroConverter:
             if not namespace:
                 namespace = "_root"
             extra_attrs["name"] = name
-            alias = f"{namespace}.{name}"
+            # Only records, enums, and fixed are named types. The name of a
+            # field isn't a definition, and can be used in many records.
+            if avro_schema.get("type") in ("record", "enum", "fixed"):
+                alias = f"{namespace}.{name}"
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-- 
2.43.0


From f9ada2d4f496b84864e9a211e31a7a8d7433d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:58 +0000
Subject: [PATCH 41/68] fix: Avro docs of fields with complex types were kept
 as an extra attribute

---
 recap/converters/avro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 385c390..742d740 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -355,6 +355,7 @@ class AvroConverter:
 
                 # Don't pass extra_attrs into _parse since we don't want field
                 # "name" to overwrite "alias" for record/enum/fixed.
+                return_type.doc = extra_attrs.pop("doc", return_type.doc)
                 return_type.extra_attrs |= extra_attrs
 
                 # Short circuit so we don't re-register aliases for nested types
-- 
2.43.0


From e1d8e41ed76d32814e0f550ca594697475cd516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:29 +0000
Subject: [PATCH 42/68] fix: Avro arrays and maps of unions were rejected

---
 recap/converters/avro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 742d740..a32df03 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -256,14 +256,14 @@ class AvroConverter:
 
     def _parse(
         self,
-        avro_schema: dict | str,
+        avro_schema: dict | list | str,
         namespace: str | None,
     ) -> RecapType:
         return_type = None
         alias: str | None = None
         extra_attrs = {}
 
-        if isinstance(avro_schema, str):
+        if isinstance(avro_schema, (str, list)):
             avro_schema = {"type": avro_schema}
         if "doc" in avro_schema:
             extra_attrs["doc"] = avro_schema["doc"]
-- 
2.43.0


From 197f3bdeb37b7982d9d9cd21f72b64b51af0f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 43/68] fix: Protobuf writer turned maps of lists into maps of
 the list's values

---
 recap/converters/protobuf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 0f35bf8..1d94f10 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -467,6 +467,9 @@ class ProtobufConverter:
                     key_field, Field
                 ), "Key must be integral or string type."
                 assert isinstance(value_field, Field), "Value must not be a map type."
+                assert (
+                    value_field.cardinality != FieldCardinality.REPEATED
+                ), "Value must not be a list type."
                 return MapField(
                     field_name,
                     field_number,
-- 
2.43.0


From 23685981746fdc38380c6e67c8b04e80fed9a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:00 +0000
Subject: [PATCH 44/68] fix: Protobuf writer put repeated, map and oneof fields
 into oneofs

---
 recap/converters/protobuf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 1d94f10..abc292a 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -506,6 +506,10 @@ class ProtobufConverter:
                             oneof_field_num,
                             package,
                         )
+                        assert (
+                            isinstance(field, Field)
+                            and field.cardinality != FieldCardinality.REPEATED
+                        ), "Maps, unions, and lists can't be in a oneof."
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
-- 
2.43.0


From 167c9574ec2f34252bc0c057b1dc05baba0b3281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:19 +0000
Subject: [PATCH 45/68] fix: read PostgreSQL arrays of booleans and smallints

---
 recap/converters/postgresql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index 3ea2913..6018484 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -56,13 +56,13 @@ class PostgresqlConverter(DbapiConverter):
             base_type = IntType(bits=64, signed=True)
         elif data_type in ["integer", "int", "int4", "serial", "serial4"]:
             base_type = IntType(bits=32, signed=True)
-        elif data_type in ["smallint", "smallserial", "serial2"]:
+        elif data_type in ["smallint", "int2", "smallserial", "serial2"]:
             base_type = IntType(bits=16, signed=True)
         elif data_type in ["double precision", "float8"]:
             base_type = FloatType(bits=64)
         elif data_type in ["real", "float4"]:
             base_type = FloatType(bits=32)
-        elif data_type == "boolean":
+        elif data_type in ["boolean", "bool"]:
             base_type = BoolType()
         elif (
             data_type in ["text", "json", "jsonb"]
-- 
2.43.0


From 7e3b8c53aa17a72559031287bac8253d37fa7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:02 +0000
Subject: [PATCH 46/68] fix: give PostgreSQL array columns valid and distinct
 aliases

---
 recap/converters/postgresql.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index 6018484..9534bd0 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -1,3 +1,4 @@
+import re
 from math import ceil
 from typing import Any
 
@@ -129,8 +130,7 @@ class PostgresqlConverter(DbapiConverter):
             if self.enforce_array_dimensions:
                 base_type = self._create_n_dimension_list(value_type, ndims)
             else:
-                column_name_without_periods = column_name.replace(".", "_")
-                base_type_alias = f"{self.namespace}.{column_name_without_periods}"
+                base_type_alias = self._create_alias(column_name)
                 # Construct a self-referencing list comprised of the array's value
                 # type and a proxy to the list itself. This allows arrays to be an
                 # arbitrary number of dimensions, which is how PostgreSQL treats
@@ -158,6 +158,19 @@ class PostgresqlConverter(DbapiConverter):
 
         return base_type
 
+    def _create_alias(self, column_name: str) -> str:
+        """
+        Create a valid alias for `column_name` that no other column is using.
+        Quoted PG column names may contain any character; aliases may not.
+        """
+        alias = re.sub(r"\W", "_", column_name, flags=re.ASCII)
+        if alias[0].isdigit():
+            alias = f"_{alias}"
+        alias = f"{self.namespace}.{alias}"
+        while alias in self.registry._type_registry:
+            alias += "_"
+        return alias
+
     def _create_n_dimension_list(self, base_type: RecapType, ndims: int) -> RecapType:
         """
         Build a list type with `ndims` dimensions containing nullable `base_type` as the innermost value type.
-- 
2.43.0


From 08b25d69a47de3b6e5172bbff5125d0b618abf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:31 +0000
Subject: [PATCH 47/68] fix: MySQL must support URLs without a port

---
 recap/clients/mysql.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/clients/mysql.py b/recap/clients/mysql.py
index 004e40f..515dce3 100644
--- a/recap/clients/mysql.py
+++ b/recap/clients/mysql.py
@@ -26,8 +26,13 @@ class MysqlClient(DbapiClient):
         if paths:
             url_args["database"] = paths[0]
 
-        # Only include kwargs that are valid for the MySQL connector
-        kwargs = {k: v for k, v in url_args.items() if k in DEFAULT_CONFIGURATION}
+        # Only include kwargs that are valid for the MySQL connector. Leave out
+        # components that the URL doesn't have (e.g. port=None).
+        kwargs = {
+            k: v
+            for k, v in url_args.items()
+            if k in DEFAULT_CONFIGURATION and v is not None
+        }
 
         with mysql.connector.connect(**kwargs) as client:
             yield MysqlClient(client)  # type: ignore
-- 
2.43.0


From f9e77648119be4a8b82844a00cf9a8957235769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:37 +0000
Subject: [PATCH 48/68] fix: Snowflake query parameters must not replace the
 account or database of the URL

---
 recap/clients/snowflake.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index 28818dd..36c0254 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -26,8 +26,11 @@ class SnowflakeClient(DbapiClient):
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-        # Leave out components that the URL doesn't have (e.g. port=None)
-        snowflake_args |= {k: v for k, v in url_args.items() if v is not None}
+        # Leave out components that the URL doesn't have (e.g. port=None). Query
+        # parameters must not replace the account, database, and schema.
+        snowflake_args = {
+            k: v for k, v in url_args.items() if v is not None
+        } | snowflake_args
 
         with snowflake.connector.connect(**snowflake_args) as client:
             yield SnowflakeClient(client)  # type: ignore
-- 
2.43.0


From 4c682e7e19ba29e1d35e4f046aef36a2752ad57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:44 +0000
Subject: [PATCH 49/68] fix: Hive metastore must support URLs without a port

---
 recap/clients/hive_metastore.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 4ae4d62..1d6ad39 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -18,6 +18,8 @@ from pymetastore.stats import (
 from recap.converters.hive_metastore import HiveMetastoreConverter
 from recap.types import RecapType, StructType
 
+DEFAULT_PORT = 9083
+
 
 class HiveMetastoreClient:
     def __init__(self, client: HMS):
@@ -25,8 +27,12 @@ class HiveMetastoreClient:
 
     @staticmethod
     @contextmanager
-    def create(host: str, port: int, **_) -> Generator[HiveMetastoreClient, None, None]:
-        with HMS.create(host, port) as client:
+    def create(
+        host: str,
+        port: int | None = None,
+        **_,
+    ) -> Generator[HiveMetastoreClient, None, None]:
+        with HMS.create(host, port or DEFAULT_PORT) as client:
             yield HiveMetastoreClient(client)
 
     @staticmethod
-- 
2.43.0


From 2ca84b2dc068af967b806450d270ccd13e80eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:52 +0000
Subject: [PATCH 50/68] fix: credentials must be decoded before they are used
 to connect

---
 recap/clients/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index de7fe24..e7183df 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from contextlib import contextmanager
 from importlib import import_module
 from typing import Any, Generator, Protocol
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs, unquote, urlparse
 
 from recap.settings import RecapSettings
 from recap.types import StructType
@@ -116,7 +116,12 @@ def _url_to_dict(url: str) -> dict[str, str]:
         parsed_dict["driver"] = driver
         url = url.replace(f"{dialect}+{driver}://", f"{dialect}://")
 
-    if username := parsed_url.username:
+    # Credentials are percent-encoded in URLs
+    for field in ["username", "password"]:
+        if parsed_dict[field]:
+            parsed_dict[field] = unquote(parsed_dict[field])
+
+    if username := parsed_dict["username"]:
         parsed_dict["user"] = username
 
     if hostname := parsed_url.hostname:
-- 
2.43.0


From 51e3e5dcf0a651634ac66cce657bcb49e522e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:07 +0000
Subject: [PATCH 51/68] fix: PostgreSQL enums must keep the order of their
 symbols

---
 recap/clients/postgresql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 17bb818..e457e37 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -111,7 +111,7 @@ class PostgresqlClient(DbapiClient):
                 LEFT JOIN (
                     SELECT
                         enumtypid,
-                        array_agg(enumlabel) AS enum_values
+                        array_agg(enumlabel ORDER BY enumsortorder) AS enum_values
                     FROM pg_catalog.pg_enum
                     GROUP BY enumtypid
                 ) enums ON enums.enumtypid = pg_catalog.pg_type.oid
-- 
2.43.0


From 16cdf0f547ce8c38504a9f7842005805ac70d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:08 +0000
Subject: [PATCH 52/68] fix: file URLs must keep their slashes when listed or
 merged with settings

---
 recap/settings.py | 61 +++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 6fb7282..c1e19ea 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -1,7 +1,7 @@
 import os
 from pathlib import Path, PurePosixPath
 from typing import Any
-from urllib.parse import parse_qs, urlencode, urlsplit, urlunsplit
+from urllib.parse import parse_qs, urlencode, urlsplit
 
 from dotenv import load_dotenv
 from pydantic import AnyUrl, Field
@@ -49,22 +49,14 @@ class RecapSettings(BaseSettings):
             # they are, including the brackets of an IPv6 address.
             netloc = split_url.netloc.rpartition("@")[2]
 
-            sanitized_url = urlunsplit(
-                (
-                    split_url.scheme,
-                    netloc,
-                    split_url.path.rstrip("/"),
-                    split_url.query,
-                    split_url.fragment,
-                )
+            sanitized_url = _unsplit_url(
+                split_url.scheme,
+                netloc,
+                split_url.path.rstrip("/"),
+                split_url.query,
+                split_url.fragment,
             )
 
-            # urlunsplit does not double slashes if netloc is empty. But most
-            # URLs with empty netloc should have a double slash (e.g.
-            # bigquery:// or sqlite:///some/file.db).
-            if not netloc:
-                sanitized_url = sanitized_url.replace(":", "://", 1)
-
             safe_urls_list.append(sanitized_url)
 
         return safe_urls_list
@@ -106,25 +98,32 @@ class RecapSettings(BaseSettings):
                 merged_qs = unsafe_qs | url_qs
                 query = urlencode(merged_qs, doseq=True)
 
-                merged_url = urlunsplit(
-                    (
-                        url_split.scheme,
-                        netloc,
-                        url_path.as_posix().rstrip("/"),
-                        query,
-                        url_split.fragment or unsafe_url_split.fragment,
-                    )
+                return _unsplit_url(
+                    url_split.scheme,
+                    netloc,
+                    url_path.as_posix().rstrip("/"),
+                    query,
+                    url_split.fragment or unsafe_url_split.fragment,
                 )
 
-                # urlunsplit does not double slashes if netloc is empty. But most
-                # URLs with empty netloc should have a double slash (e.g.
-                # bigquery:// or sqlite:///some/file.db).
-                if not netloc:
-                    merged_url = merged_url.replace(":", "://", 1)
-
-                return merged_url
-
         if strict:
             raise ValueError(f"URL must be configured in Recap settings: {url}")
 
         return url
+
+
+def _unsplit_url(scheme: str, netloc: str, path: str, query: str, fragment: str) -> str:
+    """
+    urllib's urlunsplit only includes the double slash of URLs with an empty
+    netloc for some schemes. But URLs with an empty netloc should always have it
+    (e.g. bigquery://, sqlite:///some/file.db, or file:///some/dir).
+    """
+
+    url = f"{scheme}://{netloc}{path}"
+
+    if query:
+        url += f"?{query}"
+    if fragment:
+        url += f"#{fragment}"
+
+    return url
-- 
2.43.0


From 8799e1827d68860648f68937f1f772148f4aac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 53/68] fix: file systems whose listings are detailed by
 default must be supported

---
 recap/clients/fs.py       | 2 +-
 recap/storage/registry.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/recap/clients/fs.py b/recap/clients/fs.py
index 1a1496b..c9476ed 100644
--- a/recap/clients/fs.py
+++ b/recap/clients/fs.py
@@ -38,7 +38,7 @@ class FilesystemClient:
             import fsspec
 
             fs = fsspec.filesystem(self.scheme)
-            return [Path(p).name for p in fs.ls(path)]
+            return [Path(p).name for p in fs.ls(path, detail=False)]
 
     def schema(self, path: str = "/") -> StructType:
         suffix = Path(path).suffix.lower().strip(".")
diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 1b9757a..d0bdf45 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -16,7 +16,7 @@ class RegistryStorage:
         return sorted(
             [
                 unquote_plus(file_path[len(self.root_path) + 1 :])
-                for file_path in self.fs.ls(self.root_path)
+                for file_path in self.fs.ls(self.root_path, detail=False)
             ]
         )
 
@@ -72,7 +72,7 @@ class RegistryStorage:
             return sorted(
                 [
                     int(Path(file_path).stem)
-                    for file_path in self.fs.ls(path_without_version)
+                    for file_path in self.fs.ls(path_without_version, detail=False)
                 ]
             )
         except FileNotFoundError:
-- 
2.43.0


From 4c814a578e8ff813f1079e409524ef33de5c6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:38 +0000
Subject: [PATCH 54/68] fix: the CLI must print Protobuf schemas unchanged

---
 recap/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/cli.py b/recap/cli.py
index 6de5dba..3ec5016 100644
--- a/recap/cli.py
+++ b/recap/cli.py
@@ -1,7 +1,7 @@
 from typing import Annotated, Optional
 
 import typer
-from rich import print, print_json
+from rich import print_json
 
 from recap import commands
 
@@ -35,7 +35,8 @@ def schema(
         case dict():
             print_json(data=struct_obj)
         case str():
-            print(struct_obj)
+            # rich would wrap long lines and interpret text in square brackets.
+            typer.echo(struct_obj)
         case _:
             raise ValueError(f"Unexpected schema type: {type(struct_obj)}")
 
-- 
2.43.0


From ff80583544ebf724b4e62608a3e6359047bec706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:44 +0000
Subject: [PATCH 55/68] fix: the registry must refuse types that are not UTF-8
 with a 400

---
 recap/server/registry.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index d1a9bff..1761c06 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -99,7 +99,14 @@ async def _request_to_type(request: Request) -> RecapType:
         )
 
     type_bytes = await request.body()
-    type_str = type_bytes.decode("utf-8")
+
+    try:
+        type_str = type_bytes.decode("utf-8")
+    except UnicodeDecodeError as e:
+        raise HTTPException(
+            status_code=400,
+            detail=f"Failed to decode type: {e}",
+        )
 
     try:
         type_json = json.loads(type_str)
-- 
2.43.0


From d8f1a6939a6afc279e0c233a37bc76f9545709ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:58 +0000
Subject: [PATCH 56/68] fix: forget the package of a Protobuf file that could
 not be read

---
 recap/converters/protobuf.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index abc292a..d1d530f 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -109,19 +109,21 @@ class ProtobufConverter:
             self.namespaces.append(packages[0].name)
 
         # Now parse messages and enums.
-        for file_element in file.file_elements:
-            if isinstance(file_element, Message):
-                struct_type = self._parse_message(file_element)
-                root_message = root_message or struct_type
-            elif isinstance(file_element, Enum):
-                self._parse_enum(file_element)
+        try:
+            for file_element in file.file_elements:
+                if isinstance(file_element, Message):
+                    struct_type = self._parse_message(file_element)
+                    root_message = root_message or struct_type
+                elif isinstance(file_element, Enum):
+                    self._parse_enum(file_element)
+        finally:
+            # The package must not be used for the next file if this one fails.
+            if packages:
+                self.namespaces.pop()
 
         if root_message is None:
             raise ValueError("Protobuf schema must contain at least one Message")
 
-        if packages:
-            self.namespaces.pop()
-
         return root_message
 
     def _parse_message(self, message: Message) -> StructType:
-- 
2.43.0


From a36455b087fa6fb768a30a25524eaa51dbbe47d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:32 +0000
Subject: [PATCH 57/68] fix: clean type dictionaries whose type is a list of
 types

---
 recap/types.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 21403fa..461971a 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -630,6 +630,11 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
 
     type_name = type_dict.get("type")
 
+    # A list of types is a union
+    if isinstance(type_name, list):
+        type_dict = {**type_dict, "type": "union", "types": type_name}
+        type_name = "union"
+
     if isinstance(type_name, str):
         recap_type_class = TYPE_CLASSES.get(type_name, ProxyType)
         param_defaults = {}
@@ -666,11 +671,6 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
 
         if type_name == "union":
             type_dict["types"] = [clean_dict(t) for t in type_dict["types"]]
-    elif isinstance(type_name, list):
-        type_dict = {
-            "type": "union",
-            "types": [clean_dict(t) for t in type_dict["types"]],
-        }
 
     # Support "optional" sytnactic sugar.
     # Shorten {"type": "union", "types": ["null", ...], "default": ...}
-- 
2.43.0


From 34690a8033e1830d6a9fb1e88d9655d6383d34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:52 +0000
Subject: [PATCH 58/68] fix: a registry of JSON schemas that holds none yet was
 ignored

---
 recap/converters/json_schema.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index ade4463..3eb9e79 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -32,8 +32,11 @@ AliasStrategy = Callable[[str], str]
 class JSONSchemaConverter:
     def __init__(self, json_registry: Registry | None = None):
         self.registry = RecapTypeRegistry()
-        self.json_registry = json_registry or Registry(
-            retrieve=JSONSchemaConverter.httpx_retrieve
+        # A registry that has no schemas yet is falsy, but can still retrieve them.
+        self.json_registry = (
+            json_registry
+            if json_registry is not None
+            else Registry(retrieve=JSONSchemaConverter.httpx_retrieve)
         )
 
     def to_recap(
-- 
2.43.0


From 12518335fade2d54c750358faa4a48ee80e035ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 59/68] fix: JSON schemas with references to retrieved or
 nested schemas were refused

---
 recap/converters/json_schema.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 3eb9e79..6253762 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -131,9 +131,8 @@ class JSONSchemaConverter:
                     # type as a normal Recap type with an alias set.
                     retrieved = self.json_registry.get_or_retrieve(urn)
                     resource = retrieved.value
-                    self.json_registry = (
-                        retrieved.registry @ self.json_registry
-                    )  # pyright: ignore[reportGeneralTypeIssues]
+                    # The registry of what's retrieved has all that ours has, too.
+                    self.json_registry = retrieved.registry
                     return self._parse(resource.contents, alias_strategy)
             case _:
                 raise ValueError(f"Unsupported JSON schema: {json_schema}")
-- 
2.43.0


From b420a0ffbbdd033e41f2b1afbf4921ff31b23ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 60/68] fix: Avro fixed types with a logical type could not be
 referenced by their names

---
 recap/converters/avro.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index a32df03..692c551 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -283,7 +283,12 @@ class AvroConverter:
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-            return self._parse_logical(logical_type, avro_schema, extra_attrs)
+            return_type = self._parse_logical(logical_type, avro_schema, extra_attrs)
+            if alias is not None:
+                # A fixed type with a logical type can be referenced by its name, too.
+                return_type.alias = alias
+                self.registry.register_alias(return_type)
+            return return_type
 
         match avro_schema:
             case {"type": "null"}:
-- 
2.43.0


From 9e1e1440ad5758fa9bc1c9eea24cb0f3ef383d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 61/68] fix: the bytes attribute of a reference was lost when
 it was resolved

---
 recap/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 461971a..8d4dbe1 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -327,6 +327,9 @@ class ProxyType(RecapType):
                 if v is not None
             } | self.extra_attrs
             for attr, value in overrides.items():
+                # Type dictionaries spell the bytes_ attribute "bytes"
+                if attr == "bytes" and hasattr(self._resolved, "bytes_"):
+                    attr = "bytes_"
                 if hasattr(self._resolved, attr):
                     setattr(self._resolved, attr, value)
                 else:
-- 
2.43.0


From 336b86e86c466293ed56bcb825df6f2dc441973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:58 +0000
Subject: [PATCH 62/68] fix: refuse URLs with more path parts than the object
 they name

---
 recap/clients/bigquery.py | 2 +-
 recap/clients/dbapi.py    | 2 +-
 recap/clients/mysql.py    | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index b70a526..0e9f345 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -24,7 +24,7 @@ class BigQueryClient:
         project, dataset, table = (paths + [None, None, None])[:3]
 
         match method:
-            case "ls" | "schema":
+            case "ls" | "schema" if len(paths) <= 3:
                 return ("bigquery://", [project, dataset, table])
             case _:
                 raise ValueError("Invalid method")
diff --git a/recap/clients/dbapi.py b/recap/clients/dbapi.py
index 5716601..2071d5b 100644
--- a/recap/clients/dbapi.py
+++ b/recap/clients/dbapi.py
@@ -33,7 +33,7 @@ class DbapiClient(ABC):
         match method:
             case "ls" if not table:
                 return (connection_url, [catalog, schema])
-            case "schema" if catalog and schema and table:
+            case "schema" if catalog and schema and table and not paths:
                 return (connection_url, [catalog, schema, table])
             case _:
                 raise ValueError("Invalid method")
diff --git a/recap/clients/mysql.py b/recap/clients/mysql.py
index 515dce3..e324208 100644
--- a/recap/clients/mysql.py
+++ b/recap/clients/mysql.py
@@ -56,9 +56,9 @@ class MysqlClient(DbapiClient):
         )
 
         match method:
-            case "ls":
+            case "ls" if not table:
                 return (connection_url, [schema])
-            case "schema" if schema and table:
+            case "schema" if schema and table and not paths:
                 return (connection_url, [schema, table])
             case _:
                 raise ValueError("Invalid method")
-- 
2.43.0


From 9a577b188a7c0229c02146fa1a62fccc64bee0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:23 +0000
Subject: [PATCH 63/68] fix: keep the lengths of SQLite columns declared with
 spaces or several words

---
 recap/clients/sqlite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 058f22f..8d1fd64 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -122,17 +122,17 @@ class SQLiteClient:
         # This regex matches the following patterns:
         # - <type>(<param1>(, <param2>)?)
         # param1 can be a precision or octet length, and param2 can be a scale.
-        numeric_pattern = re_compile(r"(\w+)\((\d+)(?:,\s*(\d+))?\)")
+        # SQLite keeps the spaces of the declaration, e.g. "VARCHAR (255)".
+        numeric_pattern = re_compile(r"\(\s*(\d+)\s*(?:,\s*(\d+)\s*)?\)")
         param_match = numeric_pattern.search(row["TYPE"])
 
         if param_match:
             # Extract matched values
-            base_type, precision, scale = param_match.groups()
-            base_type = base_type.upper()
+            precision, scale = param_match.groups()
             precision = int(precision)
             scale = int(scale) if scale else 0
 
-            match SQLiteConverter.get_affinity(base_type):
+            match SQLiteConverter.get_affinity(row["TYPE"]):
                 case SQLiteAffinity.INTEGER | SQLiteAffinity.REAL | SQLiteAffinity.NUMERIC:
                     information_schema_cols["NUMERIC_PRECISION"] = precision
                     information_schema_cols["NUMERIC_SCALE"] = scale
-- 
2.43.0


From 8a4ba1546b379b186528a06e04100634dd031329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:45 +0000
Subject: [PATCH 64/68] fix: Protobuf types referred to by a fully qualified
 name with a leading dot must be found

---
 recap/converters/protobuf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index d1d530f..1101d59 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -191,6 +191,8 @@ class ProtobufConverter:
     def _protobuf_type_to_recap_type(self, protobuf_type: str) -> RecapType:
         # NOTE: Protobuf doesn't support type aliases, so we don't need to
         # register aliases here (or in oneof, map, etc).
+        # A leading dot says that the name is fully qualified. Aliases always are.
+        protobuf_type = protobuf_type.removeprefix(".")
         match protobuf_type:
             case "string":
                 return StringType(bytes_=2_147_483_648, variable=True)
-- 
2.43.0


From c0f8cd9495489f1506e2e13ea150ef34f64fad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:51 +0000
Subject: [PATCH 65/68] fix: Protobuf maps with boolean keys must be read

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 1101d59..b279aac 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -171,8 +171,8 @@ class ProtobufConverter:
     def _parse_map_field(self, field: MapField) -> RecapType:
         key_type = self._protobuf_type_to_recap_type(field.key_type)
 
-        # Proto map keys are always strings or integers.
-        assert isinstance(key_type, IntType) or isinstance(key_type, StringType)
+        # Proto map keys are always strings, integers, or booleans.
+        assert isinstance(key_type, (BoolType, IntType, StringType))
 
         value_type = self._protobuf_type_to_recap_type(field.value_type)
         map_type = UnionType(
-- 
2.43.0


From 6e819f7275105875a17be54059ab62ea86d25ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:56 +0000
Subject: [PATCH 66/68] fix: Protobuf writer must refuse maps whose keys
 Protobuf does not support

---
 recap/converters/protobuf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index b279aac..ba9162c 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -467,8 +467,13 @@ class ProtobufConverter:
                 # 0 field_number because we ignore it. We just need types.
                 key_field = self._recap_to_field(keys, 0, package)
                 value_field = self._recap_to_field(values, 0, package)
-                assert isinstance(
-                    key_field, Field
+                assert isinstance(key_field, Field) and key_field.type in (
+                    "bool",
+                    "int32",
+                    "int64",
+                    "string",
+                    "uint32",
+                    "uint64",
                 ), "Key must be integral or string type."
                 assert isinstance(value_field, Field), "Value must not be a map type."
                 assert (
-- 
2.43.0


From b06aa594a49525182b202ca55e8624f2670377f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:03 +0000
Subject: [PATCH 67/68] fix: JSON schema writer must keep the formats of dates
 and times

---
 recap/converters/json_schema.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 6253762..fff15cb 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -261,6 +261,12 @@ class JSONSchemaConverter:
                 type_dict |= {"type": "integer"}
             case FloatType():
                 type_dict |= {"type": "number"}
+            case StringType(logical="org.iso.8601.Date"):
+                type_dict |= {"type": "string", "format": "date"}
+            case StringType(logical="org.iso.8601.DateTime"):
+                type_dict |= {"type": "string", "format": "date-time"}
+            case StringType(logical="org.iso.8601.Time"):
+                type_dict |= {"type": "string", "format": "time"}
             case StringType():
                 type_dict |= {"type": "string"}
             case BytesType():
-- 
2.43.0


From da54a5a6652c8907025defbf72c5240e97c77c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:37 +0000
Subject: [PATCH 68/68] fix: Hive metastores with an IPv6 address must be
 reachable

---
 recap/clients/hive_metastore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 1d6ad39..f21f1a5 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -43,7 +43,9 @@ class HiveMetastoreClient:
         include_stats: str | None = None,
         **url_args,
     ) -> tuple[str, list[Any]]:
-        clean_url = f"thrift://{url_args['host']}"
+        host = url_args["host"]
+        # IPv6 addresses are in brackets in URLs
+        clean_url = f"thrift://[{host}]" if ":" in host else f"thrift://{host}"
         if url_args["port"]:
             clean_url += f":{url_args['port']}"
         match method:
-- 
2.43.0

