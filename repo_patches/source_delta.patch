From 95a8721cc28b89e304ad9986a1c2a3ee895952b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 01/30] fix: update removes nothing, instead of failing or
 storing the marker, when the key to delete is absent

---
 mappyfile/dictutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index bc6e1ee..1c73828 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -281,7 +281,7 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
         if isinstance(v, dict):
             if v.get("__delete__", False):
                 # allow a __delete__ property to be set to delete objects
-                del d1[k]
+                d1.pop(k, None)
             else:
                 d1[k] = update(d1.get(k, {}), v, overwrite)
         elif isinstance(v, (tuple, list)) and all(
@@ -308,8 +308,8 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
                     new_list.append(d)
             d1[k] = new_list
         else:
-            if k in d1 and v == "__delete__":
-                del d1[k]
+            if v == "__delete__":
+                d1.pop(k, None)
             else:
                 if overwrite is True or k not in d1:
                     d1[k] = v
-- 
2.43.0


From b753b980dd91b1a0e6ad52dd8a909406ae5b5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 02/30] fix: find skips items lacking the key, without adding
 the key to them

---
 mappyfile/dictutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 1c73828..8ab74e1 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -78,7 +78,8 @@ def find(lst: list[dict], key: str, value: Any) -> dict | None:
         cmp = mappyfile.find(d["layers"], "name", "Layer2")
         assert cmp["name"] == "Layer2"
     """
-    return next((item for item in lst if item[key.lower()] == value), None)
+    key = key.lower()
+    return next((item for item in lst if key in item and item[key] == value), None)
 
 
 def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
-- 
2.43.0


From 0401f1cfa260731a160027197bfd765b80f83aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 03/30] fix: findall compares whole values, including false
 ones, and leaves items lacking the key unchanged

---
 mappyfile/dictutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 8ab74e1..f27195e 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -137,7 +137,9 @@ def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
         layers = mappyfile.findall(d["layers"], "group", "test")
         assert len(layers) == 2
     """
-    return [item for item in lst if item[key.lower()] and item[key.lower()] in value]
+    key = key.lower()
+    values = value if isinstance(value, (list, tuple, set, frozenset)) else [value]
+    return [item for item in lst if key in item and item[key] in values]
 
 
 def findunique(lst, key):
-- 
2.43.0


From b2e3100c00c581ff9f16d86f2a1d8837e85e5003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 04/30] fix: findunique accepts keys with list values

---
 mappyfile/dictutils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index f27195e..ed55899 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -190,12 +190,13 @@ def findunique(lst, key):
         groups = mappyfile.findunique(d["classes"], "group")
         assert groups == ["group1", "group2"]
     """
-    return sorted(
-        set((item.get(key.lower(), None) for item in lst))
-        - {
-            None,
-        }
-    )
+    values = []
+    for item in lst:
+        value = item.get(key.lower(), None)
+        # the values of some keywords are lists, which cannot be added to a set
+        if value is not None and value not in values:
+            values.append(value)
+    return sorted(values)
 
 
 def findkey(d: dict, *keys: list[Any]) -> dict:
-- 
2.43.0


From 2d67fc98ccb5321fe64cadfd1fea1c008688d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 05/30] fix: findkey leaves the dictionary unchanged when a key
 is missing

---
 mappyfile/dictutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index ed55899..9b5cb41 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 from typing import Any
+import copy
 from itertools import zip_longest
 
 
@@ -244,6 +245,9 @@ def findkey(d: dict, *keys: list[Any]) -> dict:
     if keys:
         keys_list = list(keys)
         search_key = keys_list.pop(0)
+        if isinstance(d, dict) and search_key not in d:
+            # a default value is created for the missing key, do not store it in the dictionary searched
+            d = copy.copy(d)
         return findkey(d[search_key], *keys_list)
 
     return d
-- 
2.43.0


From 6c8977df8b640be31274f39a9b1b4271e173951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 06/30] fix: keywords SYMBOL and NAME are recognised in any
 case before an unquoted value, and a root GRID block parses

---
 mappyfile/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index ef2f081..5c1dba6 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -215,16 +215,18 @@ class Parser:
             self._comments[:] = []  # clear any comments from a previous parse
             ip = self.lalr.parse_interactive(text)
             for t in ip.iter_parse():
+                stack = ip.parser_state.value_stack
+                previous = stack[-1] if stack else None
                 if t.type == "UNQUOTED_STRING":
                     # Unquoted strings after SYMBOL can only be values, not attributes
                     if (
-                        ip.parser_state.value_stack[-1] == "SYMBOL"
+                        getattr(previous, "type", None) == "SYMBOL"
                         and t.value.upper() not in SYMBOL_ATTRIBUTES
                     ):
                         t.type = "UNQUOTED_STRING_VALUE"
                 elif t.type == "GRID":
                     # Unquoted 'GRID' coming after NAME is always a value, not a composite type
-                    if ip.parser_state.value_stack[-1] == "NAME":
+                    if str(getattr(previous, "value", "")).upper() == "NAME":
                         t.type = "UNQUOTED_STRING_VALUE"
 
             tree = ip.resume_parse()
-- 
2.43.0


From 8b9596b1d4740e82db898a1fabe0d97430e16b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 07/30] fix: QUERYMAP STYLE NORMAL can be followed by other
 keywords

---
 mappyfile/mapfile.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 6144ea4..ae0cc36 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -65,7 +65,7 @@ hexcolor: DOUBLE_QUOTED_HEXCOLOR | SINGLE_QUOTED_HEXCOLOR
 
 extent: (int|float) (int|float) (int|float) (int|float) 
 
-!_attr_keyword: "AUTO"i | "HILITE"i | "SELECTED"i 
+!_attr_keyword: "AUTO"i | "HILITE"i | "NORMAL"i | "SELECTED"i
 
 string: DOUBLE_QUOTED_STRING | SINGLE_QUOTED_STRING | ESCAPED_STRING
 string_pair: (string|UNQUOTED_STRING) (string|UNQUOTED_STRING)
-- 
2.43.0


From 59d060bd76eac9808a967ff3514dd8040d26a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 08/30] fix: a SYMBOL block may start with BACKGROUNDCOLOR or
 INCLUDE

---
 mappyfile/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 5c1dba6..13b5a1f 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -55,9 +55,11 @@ if use_cython:
 SYMBOL_ATTRIBUTES = {
     "ANCHORPOINT",
     "ANTIALIAS",
+    "BACKGROUNDCOLOR",
     "FILLED",
     "FONT",
     "IMAGE",
+    "INCLUDE",
     "NAME",
     "COLOR",
     "TYPE",
-- 
2.43.0


From 7d88a26452dd2e1cb46a59f65f8eaa0f7a89bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:20 +0000
Subject: [PATCH 09/30] fix: strings are quoted for keywords whose schema nests
 its alternatives (hex colours, LABEL EXPRESSION)

---
 mappyfile/pprint.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 636bd0f..ac0674d 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -352,6 +352,17 @@ class PrettyPrinter:
     def is_expression(self, option):
         return "description" in option and (option["description"] == "expression")
 
+    def get_options_list(self, attr_props) -> list:
+        """
+        Get all the alternatives of a property, including nested ones
+        """
+        options_list = []
+        for key in ("oneOf", "anyOf", "allOf"):
+            for option in attr_props.get(key, []):
+                options_list.extend(self.get_options_list(option) or [option])
+
+        return options_list
+
     def check_options_list(self, options_list, value):
         for option in options_list:
             if "enum" in option and value.lower() in option["enum"]:
@@ -404,13 +415,8 @@ class PrettyPrinter:
             return self.quoter.add_quotes(value)
 
         # expressions can be one of a string or an expression in brackets
-        if any(
-            i in ["oneOf", "anyOf"] for i in attr_props
-        ):  # and check that type string is in list
-            if "oneOf" in attr_props:
-                options_list = attr_props["oneOf"]
-            else:
-                options_list = attr_props["anyOf"]
+        options_list = self.get_options_list(attr_props)
+        if options_list:  # and check that type string is in list
             if self.quoter.is_string(value):
                 if self.quoter.in_parenthesis(value):
                     pass
-- 
2.43.0


From a3921a5d0b25a87e70e791236e00c5b148195c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:38 +0000
Subject: [PATCH 10/30] fix: attribute bindings in value pairs such as
 SHADOWSIZE are written without quotes

---
 mappyfile/pprint.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index ac0674d..93c212f 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -435,11 +435,8 @@ class PrettyPrinter:
             new_values = []
 
             for v in value:
-                if not isinstance(v, numbers.Number) and attr not in [
-                    "offset",
-                    "polaroffset",
-                ]:
-                    # don't add quotes to list of attributes for offset / polaroffset
+                if not isinstance(v, numbers.Number) and not self.quoter.in_brackets(v):
+                    # don't add quotes to lists of attributes, e.g. offset / polaroffset
                     v = self.quoter.add_quotes(v)
                 new_values.append(v)
 
-- 
2.43.0


From e5ddf6f71e16e3456311fe03e1c946db43b80e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:42 +0000
Subject: [PATCH 11/30] fix: empty dictionaries and None are refused for every
 keyword when printing, not only for enumerated ones

---
 mappyfile/pprint.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 93c212f..4e25141 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -45,6 +45,9 @@ from typing import Any
 
 log = logging.getLogger("mappyfile")
 
+# the keys whose values are dictionaries of strings
+KEY_VALUE_KEYS = ("metadata", "validation", "values", "connectionoptions", "config")
+
 
 # pylint: disable=too-many-arguments
 class PrettyPrinter:
@@ -155,6 +158,16 @@ class PrettyPrinter:
         d = {"spacer": spacer, "key": key, "value": value, "indent": indent}
         return tmpl.format(**d)
 
+    def check_value(self, attr: str, value: Any) -> None:
+        """
+        Refuse values that cannot be written to a Mapfile, for example
+        the empty dictionary created when reading a missing key
+        """
+        if isinstance(value, dict) and not value:
+            raise ValueError(f"The property {attr} has an empty dictionary as a value")
+        if value is None or isinstance(value, dict):
+            raise ValueError(f"The property {attr} has {value} as a value")
+
     def process_key_dict(self, key: str, d: dict, level: int) -> list[str]:
         """
         Process key value dicts e.g. METADATA "key" "value"
@@ -184,6 +197,7 @@ class PrettyPrinter:
 
         for k, v in d.items():
             if not self.__is_metadata(k):
+                self.check_value(k, v)
                 qk = self.quoter.add_quotes(k)
                 qv = self.quoter.add_quotes(v)
                 line = self.__format_line(
@@ -200,6 +214,7 @@ class PrettyPrinter:
         """
         lines = []
         for k, v in d.items():
+            self.check_value(k, v)
             cfg_val = self.quoter.add_quotes(k.upper())
             k = f"CONFIG {cfg_val}"
             v = self.quoter.add_quotes(v)
@@ -215,6 +230,7 @@ class PrettyPrinter:
         lines = []
 
         for v in lst:
+            self.check_value(key, v)
             k = key.upper()
             v = self.quoter.add_quotes(v)
             lines.append(
@@ -388,11 +404,6 @@ class PrettyPrinter:
             return str(value).upper()
 
         if any(i in ["enum"] for i in attr_props):
-            if isinstance(value, dict) and not value:
-                raise ValueError(
-                    f"The property {attr} has an empty dictionary as a value"
-                )
-
             if not isinstance(value, numbers.Number):
                 if attr == "compop":
                     return self.quoter.add_quotes(str(value))
@@ -531,6 +542,9 @@ class PrettyPrinter:
                 # skip hidden attributes
                 continue
 
+            if not (self.is_composite(value) or attr in KEY_VALUE_KEYS):
+                self.check_value(attr, value)
+
             if self.is_hidden_container(attr, value):
                 # now recursively print all the items in the container
                 for v in value:
-- 
2.43.0


From ac570cedc679e141b6bdc3187f5b8c7703ed757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 12/30] fix: hidden keys of CONFIG are not printed

---
 mappyfile/pprint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 4e25141..456e8d1 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -214,6 +214,8 @@ class PrettyPrinter:
         """
         lines = []
         for k, v in d.items():
+            if self.__is_metadata(k):
+                continue
             self.check_value(k, v)
             cfg_val = self.quoter.add_quotes(k.upper())
             k = f"CONFIG {cfg_val}"
-- 
2.43.0


From 8b2ed09b48df1c60b06f2e6ee24363cd1459c011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:51 +0000
Subject: [PATCH 13/30] fix: case-insensitive regular expressions (/re/i) are
 printed without quotes

---
 mappyfile/pprint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 456e8d1..b5d11d1 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -392,6 +392,8 @@ class PrettyPrinter:
             if self.is_expression(option):
                 if value.endswith("'i") or value.endswith('"i'):
                     return value
+                if value.startswith("/") and value.endswith("/i"):
+                    return value
 
         if self.quoter.in_slashes(value):
             return value
-- 
2.43.0


From 368da01fac08abeae3fdb7473327c1aa9600ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 14/30] fix: LABEL BACKGROUNDSHADOWSIZE is a pair of integers
 in the schema

---
 mappyfile/schemas/label.json | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mappyfile/schemas/label.json b/mappyfile/schemas/label.json
index 4f781ec..688f827 100644
--- a/mappyfile/schemas/label.json
+++ b/mappyfile/schemas/label.json
@@ -80,11 +80,12 @@
     },
     "backgroundshadowsize": {
       "default": false,
-      "allOf": [
-        {
-          "$ref": "points.json"
-        }
-      ],
+      "type": "array",
+      "items": {
+        "type": "integer"
+      },
+      "minItems": 2,
+      "maxItems": 2,
       "metadata": {
         "maxVersion": 6.0
       }
-- 
2.43.0


From 606c5538a9d62bde794a13ef3ad32e726300c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:20 +0000
Subject: [PATCH 15/30] fix: layout of root key-value blocks, and simple
 keywords named like blocks stay in place when complex types are separated

---
 mappyfile/pprint.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index b5d11d1..721ce9b 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -307,13 +307,17 @@ class PrettyPrinter:
         return False
 
     def is_complex_type(self, composite: dict, key: str, level: int) -> bool:
+        value = composite[key]
+        if key != "projection" and isinstance(value, (str, numbers.Number)):
+            # keywords that share a name with a block e.g. SYMBOL in a STYLE
+            return False
         # symbol needs special treatment
         if key == "symbol" and level > 0:
             return False
         return (
             key in COMPLEX_TYPES
-            or self.is_composite(key)
-            or self.is_hidden_container(key, composite[key])
+            or self.is_composite(value)
+            or self.is_hidden_container(key, value)
         )
 
     def is_hidden_container(self, key: str, val: Any) -> bool:
@@ -343,7 +347,7 @@ class PrettyPrinter:
             type_ = composite["__type__"]
             if type_ in ("metadata", "validation", "connectionoptions"):
                 # types are being parsed directly, and not as an attr of a parent
-                lines += self.process_key_dict(type_, composite, level=0)
+                lines += self.process_key_dict(type_, composite, level=-1)
             else:
                 lines += self._format(composite)
 
-- 
2.43.0


From 7ee7f0a6576d9a968de3da50a4107a213391f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 16/30] fix: operands of expressions and lists are kept as
 written, and parentheses and % never regroup them

---
 mappyfile/mapfile.lark   | 20 ++++++++---
 mappyfile/transformer.py | 72 ++++++++++++++++++++++------------------
 2 files changed, 54 insertions(+), 38 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index ae0cc36..36cc33c 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -77,7 +77,7 @@ float_pair: float float
 path: PATH
 regexp: REGEXP1 | REGEXP2
 runtime_var: RUNTIME_VAR
-list: "{" (value | UNQUOTED_STRING_SPACE) ("," (value | UNQUOTED_STRING_SPACE))* "}"
+list: "{" (_operand | UNQUOTED_STRING_SPACE) ("," (_operand | UNQUOTED_STRING_SPACE))* "}"
 
 num_pair: (int|float) (int|float)
 
@@ -88,8 +88,7 @@ expression: "(" or_test ")"
 ?or_test : (or_test ("OR"i|"||"))? and_test
 ?and_test : (and_test ("AND"i|"&&"))? comparison
 ?comparison: (comparison compare_op)? sum
-!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">" | "%"
-| "<=" | "IN"i | "NE"i | "EQ"i | "LE"i | "LT"i | "GE"i | "GT"i | "LIKE"i
+!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">" | "<=" | "IN"i | "NE"i | "EQ"i | "LE"i | "LT"i | "GE"i | "GT"i | "LIKE"i
 
 ?sum: product
     | sum "+" product -> add
@@ -98,17 +97,25 @@ expression: "(" or_test ")"
 ?product: unary_expr
     | product "*" unary_expr -> mul
     | product "/" unary_expr -> div
+    | product "%" unary_expr -> mod
     | product "^" unary_expr -> power
 
 ?unary_expr: atom
     | "-" unary_expr -> neg
     | "+" unary_expr
 
-?atom: (func_call | value)
+?atom: (func_call | _operand)
 // ?multiply: (multiply "*")? (func_call | value)
 
 func_call: UNQUOTED_STRING "(" func_params ")"
-func_params: value ("," value)*
+func_params: _operand ("," _operand)*
+
+// the operands of expressions and lists are kept as they are written
+_operand: string | literal | expression | not_expression | operand_bind | path
+| regexp | runtime_var | list | NULL | _attr_keyword
+
+!literal: SIGNED_INT | SIGNED_FLOAT | "TRUE"i | "FALSE"i | DOUBLE_QUOTED_HEXCOLOR | SINGLE_QUOTED_HEXCOLOR
+operand_bind: "[" UNQUOTED_STRING "]" -> attr_bind
 
 !true: "TRUE"i
 !false: "FALSE"i
@@ -142,6 +149,9 @@ SINGLE_QUOTED_HEXCOLOR.2: /'#(?:[0-9a-fA-F]{3}){1,2}([0-9a-fA-F]{2})?'/
 
 NULL: "NULL"i
 
+// takes precedence over UNQUOTED_STRING in expressions such as ([a]-5 > 0)
+MINUS.2: "-"
+
 SIGNED_FLOAT: ["-"|"+"] FLOAT
 SIGNED_INT: ["-"|"+"] INT
 
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 44d662b..e558f65 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -455,24 +455,24 @@ class MapfileTransformer(Transformer):
 
     # for expressions
 
+    def build_expression(self, t, value: str, type_: str = "EXPRESSION"):
+        """
+        Create a token for (part of) an expression at the position of its first token
+        """
+        return Token.new_borrow_pos(type_, value, t[0])
+
     def comparison(self, t):
         assert len(t) == 3
-        parts = [str(p.value) for p in t]
-        v = " ".join(parts)
-
-        v = f"( {v} )"
-        t[0].value = v
-        return t[0]
+        v = " ".join(p.value for p in t)
+        return self.build_expression(t, f"( {v} )")
 
     def and_test(self, t):
         assert len(t) == 2
-        t[0].value = f"( {t[0].value} AND {t[1].value} )"
-        return t[0]
+        return self.build_expression(t, f"( {t[0].value} AND {t[1].value} )")
 
     def or_test(self, t):
         assert len(t) == 2
-        t[0].value = f"( {t[0].value} OR {t[1].value} )"
-        return t[0]
+        return self.build_expression(t, f"( {t[0].value} OR {t[1].value} )")
 
     def compare_op(self, t):
         v = t[0]
@@ -484,43 +484,49 @@ class MapfileTransformer(Transformer):
         return v
 
     def expression(self, t):
-        exp = " ".join(
-            [str(v.value) for v in t]
-        )  # convert to string for boolean expressions e.g. (true)
+        exp = " ".join([v.value for v in t])
 
-        if not self.quoter.in_parenthesis(exp):
-            t[0].value = f"({exp})"
+        # (a) + (b) starts and ends with brackets but is not enclosed by them
+        if t[0].type == "ARITHMETIC" or not self.quoter.in_parenthesis(exp):
+            exp = f"({exp})"
 
-        return t[0]
+        return self.build_expression(t, exp)
 
-    def add(self, t):
+    def arithmetic(self, t, operator: str):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} + {t[1].value}"
-        return t[0]
+        value = f"{t[0].value} {operator} {t[1].value}"
+        return self.build_expression(t, value, "ARITHMETIC")
+
+    def add(self, t):
+        return self.arithmetic(t, "+")
 
     def sub(self, t):
-        assert len(t) == 2
-        t[0].value = f"{t[0].value} - {t[1].value}"
-        return t[0]
+        return self.arithmetic(t, "-")
 
     def div(self, t):
-        assert len(t) == 2
-        t[0].value = f"{t[0].value} / {t[1].value}"
-        return t[0]
+        return self.arithmetic(t, "/")
 
     def mul(self, t):
+        return self.arithmetic(t, "*")
+
+    def mod(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} * {t[1].value}"
-        return t[0]
+        return self.build_expression(t, f"( {t[0].value} % {t[1].value} )")
 
     def power(self, t):
-        assert len(t) == 2
-        t[0].value = f"{t[0].value} ^ {t[1].value}"
-        return t[0]
+        return self.arithmetic(t, "^")
 
     def neg(self, t):
         assert len(t) == 1
-        t[0].value = f"-{t[0].value}"
+        value = t[0].value
+        # the signs of -(-1) have to be kept apart
+        sign = "- " if value.startswith("-") else "-"
+        return self.build_expression(t, f"{sign}{value}", "ARITHMETIC")
+
+    def literal(self, t):
+        """
+        A number, boolean or quoted colour used as an operand
+        """
         return t[0]
 
     def runtime_var(self, t):
@@ -546,7 +552,7 @@ class MapfileTransformer(Transformer):
         return func
 
     def func_params(self, t):
-        params = ",".join(str(v.value) for v in t)
+        params = ",".join(v.value for v in t)
         return params
 
     def attr_bind(self, t):
@@ -636,7 +642,7 @@ class MapfileTransformer(Transformer):
     def list(self, t):
         # http://www.mapserver.org/mapfile/expressions.html#list-expressions
         v = t[0]
-        list_values = ",".join([str(s) for s in t])
+        list_values = ",".join([s.value for s in t])
         v.value = "{%s}" % list_values
         return v
 
-- 
2.43.0


From bc14499502e841545eef8e6841d727d357e95ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 17/30] fix: unquoted strings that start with several digits
 are not split into two tokens

---
 mappyfile/mapfile.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 36cc33c..2d72366 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -155,7 +155,7 @@ MINUS.2: "-"
 SIGNED_FLOAT: ["-"|"+"] FLOAT
 SIGNED_INT: ["-"|"+"] INT
 
-INT: /[0-9]+(?![_a-zA-Z])/
+INT: /[0-9]+(?![_a-zA-Z0-9])/
 
 %import common.FLOAT
 
-- 
2.43.0


From 061c7b8e7450633a249b54efe6ad8e15ec8d89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 18/30] fix: recognise INCLUDE directives as a whole word with
 an optionally quoted filename

---
 mappyfile/parser.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 13b5a1f..f8716fe 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 import os
+import re
 import logging
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
@@ -69,6 +70,13 @@ SYMBOL_ATTRIBUTES = {
 }
 
 
+# a line with an INCLUDE directive, the filename can be in quotes
+INCLUDE_DIRECTIVE = re.compile(
+    r"""\s*include(?:\s*(?P<quote>["'])(?P<quoted>.*?)(?P=quote)|\s+(?P<unquoted>[^\s#"']+))(?P<rest>.*)""",
+    re.IGNORECASE | re.DOTALL,
+)
+
+
 class Parser:
     def __init__(
         self, expand_includes: bool = True, include_comments: bool = False, **kwargs
@@ -96,20 +104,23 @@ class Parser:
 
         return Lark.open("mapfile.lark", rel_to=__file__, parser="lalr", **extra_args)
 
-    def _get_include_filename(self, line: str) -> str:
-        if "#" in line:
-            # remove any comments on the same line
-            line = line.split("#")[0]
+    def _get_include_filename(self, line: str) -> str | None:
+        """
+        Get the filename from a line with an INCLUDE directive,
+        or None for any other line
+        """
+        match = INCLUDE_DIRECTIVE.match(line)
+
+        if match is None:
+            return None
 
-        include_pairs = line.split()
-        if len(include_pairs) > 2:
+        if match.group("rest").split("#")[0].strip():
             log.warning(
                 "Multiple include files have been found on the same line. "
                 "Only the first will be used. "
             )
-        inc_file_path = include_pairs[1]
 
-        return inc_file_path.strip("'").strip('"')
+        return match.group("quoted") or match.group("unquoted")
 
     def load_includes(
         self, text: str, fn: str | None = None, _nested_includes: int = 0
@@ -121,12 +132,11 @@ class Parser:
         lines = text.split("\n")
         includes = {}
         for idx, l in enumerate(lines):
-            if l.strip().lower().startswith("include"):
+            inc_file_path = self._get_include_filename(l)
+            if inc_file_path:
                 if _nested_includes == 5:
                     raise ValueError("Maximum nested include exceeded! (MaxNested=5)")
 
-                inc_file_path = self._get_include_filename(l)
-
                 if not os.path.isabs(inc_file_path):
                     inc_file_path = os.path.abspath(
                         os.path.join(os.path.dirname(fn), inc_file_path)
-- 
2.43.0


From 307228b69dbd0294858c44b3fd95dc857efeda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 19/30] fix: write several comments of one keyword without
 hiding or merging them

A C-style comment printed behind a # comment was commented out and its text
became part of the Mapfile; comments of one keyword now go on lines of their
own above it, the last one behind the value. Where comments are still joined,
# comments come last.
---
 mappyfile/pprint.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 721ce9b..d32a741 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -509,9 +509,10 @@ class PrettyPrinter:
             spacer = " "
 
             # for multiple comments associated with an attribute
-            # simply join them together as a single string
+            # simply join them together as a single string, with any # comments
+            # last as these hide the remainder of the line
             if isinstance(value, list):
-                value = " ".join(value)
+                value = " ".join(sorted(value, key=lambda v: v.startswith("#")))
 
             comment = self.format_comment(spacer, value)
 
@@ -590,7 +591,15 @@ class PrettyPrinter:
                 line = self.process_attribute(
                     type_, attr, value, level, aligned_max_indent
                 )
-                line += self.process_attribute_comment(comments, attr)
+                attr_comments = comments.get(attr)
+                if isinstance(attr_comments, list) and attr_comments:
+                    # only the last comment can follow the value on its line
+                    spacer = self.whitespace(level, 1)
+                    for comment in attr_comments[:-1]:
+                        lines.append(self.format_comment(spacer, comment))
+                    line += self.format_comment(" ", attr_comments[-1])
+                else:
+                    line += self.process_attribute_comment(comments, attr)
                 lines.append(line)
 
         if not is_hidden:
-- 
2.43.0


From e2dd14c4bfcf6062450d3501c34f9497c7fdf9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 20/30] fix: validate reports violations inside the value of a
 keyword

A violation inside a list of values (MAP SIZE 10.5 20) raised a TypeError,
and the position of an object-level error was the one of the parent object.
---
 mappyfile/validator.py | 45 +++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index c699e8f..bb47999 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -34,7 +34,6 @@ from collections import OrderedDict
 import logging
 import jsonschema
 import jsonref
-from mappyfile import dictutils
 from referencing import Registry, Resource
 from referencing.jsonschema import DRAFT4
 from typing import Any
@@ -210,17 +209,27 @@ class Validator:
         See https://github.com/Julian/jsonschema/issues/119
         """
 
-        if not path:
-            # error applies to the root type
-            d = rootdict
-            key = d["__type__"]
-        elif isinstance(path[-1], int):
-            # the error is on an object in a list
-            d = dictutils.findkey(rootdict, *path)
-            key = d["__type__"]
+        # follow the path to the innermost object, and the key in this object which
+        # contains the error - the error may be further down within a list of values
+        d, key = rootdict, rootdict.get("__type__", "")
+        value: Any = rootdict
+        indexes: list[int] = []
+
+        for step in path:
+            if isinstance(value, dict):
+                d, key, indexes = value, step, []
+                # paths are in lowercase
+                value = next(v for k, v in value.items() if k.lower() == step)
+            else:
+                indexes.append(step)
+                value = value[step]
+
+        if isinstance(value, dict) and "__type__" in value:
+            # the error applies to the object itself
+            d, key = value, value["__type__"]
+            is_object_error = True
         else:
-            key = path[-1]
-            d = dictutils.findkey(rootdict, *path[:-1])
+            is_object_error = False
 
         error_message = f"ERROR: Invalid value in {key.upper()}"
 
@@ -238,11 +247,15 @@ class Validator:
         # include position details
 
         if "__position__" in d:
-            if not path or key not in d["__position__"]:
-                # position for the root object is stored in the root of the dict
-                pd = d["__position__"]
-            else:
-                pd = d["__position__"][key]
+            # position for an object is stored in the root of the dict
+            pd = d["__position__"]
+
+            if not is_object_error and key in pd:
+                pd = pd[key]
+
+                if isinstance(pd, list):
+                    # repeated keys have a position for each of their values
+                    pd = pd[indexes[0] if indexes else 0]
 
             error_dict["line"] = pd.get("line")
             error_dict["column"] = pd.get("column")
-- 
2.43.0


From 94a624dc7490ce94931b0d7362f0865cb33c4b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 21/30] fix: validate each root object with the schema of its
 type

A partial Mapfile, for example a single LAYER, was always validated with the
schema of MAP.
---
 mappyfile/validator.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index bb47999..d6f211c 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -290,28 +290,35 @@ class Validator:
         self,
         value: Any,
         add_comments: bool = False,
-        schema_name: str = "map",
+        schema_name: (str | None) = None,
         version: (float | None) = None,
     ):
         """
         verbose - also return the jsonschema error details
+        If no schema_name is provided each object is validated with the schema of its type
         """
-        if version:
-            jsn_schema = self.get_versioned_schema(version, schema_name)
-            validator = jsonschema.Draft4Validator(schema=jsn_schema)
-        else:
-            validator = self.get_schema_validator(schema_name)
-
         error_messages = []
+        validators: dict[str, jsonschema.Draft4Validator] = {}
 
-        if isinstance(value, list):
-            for d in value:
-                error_messages += self._get_errors(d, validator, add_comments)
-        else:
-            error_messages = self._get_errors(value, validator, add_comments)
+        for d in value if isinstance(value, list) else [value]:
+            name = schema_name or d.get("__type__", "map")
+
+            if name not in validators:
+                validators[name] = self._get_validator(name, version)
+
+            error_messages += self._get_errors(d, validators[name], add_comments)
 
         return error_messages
 
+    def _get_validator(
+        self, schema_name: str, version: (float | None)
+    ) -> jsonschema.Draft4Validator:
+        if version:
+            jsn_schema = self.get_versioned_schema(version, schema_name)
+            return jsonschema.Draft4Validator(schema=jsn_schema)
+
+        return self.get_schema_validator(schema_name)
+
     def get_expanded_schema(
         self, schema_name: str, version: (float | None) = None
     ) -> dict:
-- 
2.43.0


From b03f04f769004b3ff3e418a0e5c12f1c148a8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 22/30] fix: version ranges of root objects and below
 alternative lists

A root CONNECTIONOPTIONS block was accepted for versions before 7.6, and
annotated keywords of an object listed in allOf, oneOf or anyOf were kept
unless the same object was also referred to elsewhere.
---
 mappyfile/validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index d6f211c..71ca4bf 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -138,6 +138,10 @@ class Validator:
                 properties, version
             )
 
+            if not self.is_valid_for_version(jsn_schema, version):
+                # the object itself is not available in this version
+                jsn_schema["not"] = {}
+
         return jsn_schema
 
     def get_versioned_properties(self, properties: dict, version: float) -> dict:
@@ -158,6 +162,7 @@ class Validator:
                 for props in v:
                     if isinstance(props, dict):
                         if self.is_valid_for_version(props, version) is True:
+                            self.get_versioned_properties(props, version)
                             valid_list.append(props)
                     else:
                         valid_list.append(props)
-- 
2.43.0


From 70f3e00cabb018a9f168219fd401dfea9f6c7835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 23/30] fix: record the position of a SYMBOLSET keyword

---
 mappyfile/mapfile.lark   | 3 ++-
 mappyfile/transformer.py | 4 +---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 2d72366..f30d0c2 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -27,7 +27,7 @@
 // 
 // =================================================================
 
-start: "SYMBOLSET"i composite_body _END   -> symbolset
+start: SYMBOLSET composite_body _END   -> symbolset
      | composite+
 
 composite: composite_type composite_body _END
@@ -140,6 +140,7 @@ operand_bind: "[" UNQUOTED_STRING "]" -> attr_bind
             | "WEB"i
             | "SYMBOL"i
 
+SYMBOLSET: "SYMBOLSET"i
 AUTO: "AUTO"i
 PATH: /([a-z0-9_]*\.*\/|[a-z0-9_]+[.\/])[a-z0-9_\/\.-]+/i
 
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index e558f65..e572a5a 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -764,10 +764,8 @@ class MapfileToDict:
 class Canonize(Transformer_InPlace):
     @v_args(tree=True)
     def symbolset(self, tree):
-        composite_type = Tree("composite_type", [Token("symbolset", "symbolset")])
-
         tree.data = "composite"
-        tree.children.insert(0, composite_type)
+        tree.children[0] = Tree("composite_type", [tree.children[0]])
         return tree
 
 
-- 
2.43.0


From 9cb27ffa474aef4e9a5aa268cbd130e7333c64c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 24/30] fix: multipart points are collected in time linear to
 their number

---
 mappyfile/transformer.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index e572a5a..e172e08 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -174,7 +174,8 @@ class MapfileTransformer(Transformer):
             # allow for multipart features in a nested list
             existing_points = composite_dict[key_name]
 
-            if calculate_depth(existing_points) == 2:
+            if isinstance(existing_points[0], tuple):
+                # a single part is a list of coordinate pairs
                 composite_dict[key_name] = [existing_points]
 
             if key_name not in composite_dict:
@@ -767,12 +768,3 @@ class Canonize(Transformer_InPlace):
         tree.data = "composite"
         tree.children[0] = Tree("composite_type", [tree.children[0]])
         return tree
-
-
-def calculate_depth(iterable):
-    """
-    A helper function to get the max length + 1 in a list of lists
-    """
-    return (
-        isinstance(iterable, (tuple, list)) and max(map(calculate_depth, iterable)) + 1
-    )
-- 
2.43.0


From b4b1d0a2e3f7d1caff7636f8a1bcc4006c0e6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 25/30] fix: comments are assigned to nodes in time linear to
 their number

---
 mappyfile/parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index f8716fe..b2adc25 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -31,6 +31,7 @@ from __future__ import annotations
 import os
 import re
 import logging
+from collections import OrderedDict
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
 from typing import Any, IO
@@ -176,12 +177,14 @@ class Parser:
 
                 if node.data in ("projection"):
                     line = node.meta.end_line
-                line_numbers = list(sorted(self.comments_dict.keys()))
                 comments = []
 
-                for line_number in line_numbers:
-                    if line_number <= line:
-                        comments.append(self.comments_dict.pop(line_number))
+                # the comments are in the order of their lines
+                while self.comments_dict:
+                    line_number = next(iter(self.comments_dict))
+                    if line_number > line:
+                        break
+                    comments.append(self.comments_dict.pop(line_number))
 
                 if comments:
                     node.meta.comments = comments  # type: ignore
@@ -243,8 +246,9 @@ class Parser:
 
             tree = ip.resume_parse()
             if self.include_comments:
-                self.comments_dict = {}
+                self.comments_dict = OrderedDict()
                 # create a dictionary using line numbers as keys, and comments as values
+                # (an OrderedDict, as its first item is found in constant time)
                 for c in self._comments:
                     self.comments_dict[c.line] = c.value.strip()
                 self._assign_comments(tree)
-- 
2.43.0


From 91aac6acf3c1b07c25bbd6521f7f67a9c372620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 26/30] fix: unquoted filenames of INCLUDE directives are kept
 when includes are not expanded

---
 mappyfile/mapfile.lark | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index f30d0c2..f2db7a5 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -50,6 +50,7 @@ _composite_item: (composite|attr|points|projection|pattern|values|config)
 !connectionoptions: "CONNECTIONOPTIONS"i string_pair* _END
 
 attr: (UNQUOTED_STRING | composite_type) (value | UNQUOTED_STRING | UNQUOTED_STRING_VALUE)
+    | INCLUDE FILENAME
 %declare UNQUOTED_STRING_VALUE  // generated using the interactive parser. See issues #48, #98
 
 ?value: string | int | float | expression | not_expression | attr_bind | path
@@ -140,6 +141,10 @@ operand_bind: "[" UNQUOTED_STRING "]" -> attr_bind
             | "WEB"i
             | "SYMBOL"i
 
+// an INCLUDE directive with an unquoted filename
+INCLUDE.2: /include(?=[ \t]+[^\s#"'])/i
+FILENAME: /[^\s#"']+/
+
 SYMBOLSET: "SYMBOLSET"i
 AUTO: "AUTO"i
 PATH: /([a-z0-9_]*\.*\/|[a-z0-9_]+[.\/])[a-z0-9_\/\.-]+/i
-- 
2.43.0


From 2b98ff0118037d95e50d6a728e1b02622f7c7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 27/30] fix: the validate command counts files that fail to
 parse and never exits with 0 after errors

---
 mappyfile/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mappyfile/cli.py b/mappyfile/cli.py
index 0fd14df..6944b1c 100644
--- a/mappyfile/cli.py
+++ b/mappyfile/cli.py
@@ -191,8 +191,8 @@ def validate(_, mapfiles, expand, version):
 
     The MAPFILES argument is a list of paths, either to individual Mapfiles, or a folders containing Mapfiles.
     Wildcards are supported (natively on Linux, and up to one level deep on Windows).
-    Validation errors are reported to the console. The program returns the error count - this will be 0 if no
-    validation errors are encountered.
+    Validation errors are reported to the console. The program returns the error count (up to 255), including
+    any files that could not be parsed - this will be 0 if no errors are encountered.
 
     Example of validating a single Mapfile:
 
@@ -219,6 +219,7 @@ def validate(_, mapfiles, expand, version):
         except Exception as ex:
             logger.exception(ex)
             click.echo(f"{fn} failed to parse successfully")
+            errors += 1
             continue
 
         validation_messages = mappyfile.validate(d, version)
@@ -238,7 +239,7 @@ def validate(_, mapfiles, expand, version):
     click.echo(
         f"{len(all_mapfiles)} file(s) validated ({validation_count} successfully)"
     )
-    sys.exit(errors)
+    sys.exit(min(errors, 255))  # an exit status is limited to a single byte
 
 
 @main.command(short_help="Export a Mapfile Schema")
-- 
2.43.0


From c865eddf2727066ac7f660cdb69aa75375ce9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 28/30] fix: line breaks within the strings of a file are not
 translated when it is opened

---
 mappyfile/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index b2adc25..3101883 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -204,7 +204,8 @@ class Parser:
 
     def open_file(self, fn: str):
         try:
-            with open(fn, "r", encoding="utf-8") as f:
+            # keep the line breaks within strings as they are
+            with open(fn, "r", encoding="utf-8", newline="") as f:
                 return f.read()
         except UnicodeDecodeError as ex:
             log.debug(ex)
-- 
2.43.0


From 4b2d87057721a9b45abe60119656341084afaede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 29/30] fix: a comment may stand between INCLUDE and its quoted
 filename

---
 mappyfile/mapfile.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index f2db7a5..c07f07b 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -142,7 +142,7 @@ operand_bind: "[" UNQUOTED_STRING "]" -> attr_bind
             | "SYMBOL"i
 
 // an INCLUDE directive with an unquoted filename
-INCLUDE.2: /include(?=[ \t]+[^\s#"'])/i
+INCLUDE.2: /include(?=[ \t]+(?!\/\*)[^\s#"'])/i
 FILENAME: /[^\s#"']+/
 
 SYMBOLSET: "SYMBOLSET"i
-- 
2.43.0


From 009f6328d638f705d5684a5b4f1c036f48eecc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 30/30] fix: comments above a SYMBOLSET stay above it

---
 mappyfile/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 3101883..ca9a31d 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -172,7 +172,13 @@ class Parser:
             # when we encounter a new type that can have associated comments
             # assign all comments up to that point in the Mapfile to the node
             # for metadata we want to assign comments to the string_pair
-            if node.data in ("composite", "attr", "projection", "string_pair"):
+            if node.data in (
+                "composite",
+                "symbolset",
+                "attr",
+                "projection",
+                "string_pair",
+            ):
                 # for projection blocks capture any comments within the block
 
                 if node.data in ("projection"):
@@ -252,7 +258,8 @@ class Parser:
                 # (an OrderedDict, as its first item is found in constant time)
                 for c in self._comments:
                     self.comments_dict[c.line] = c.value.strip()
-                self._assign_comments(tree)
+                # start with the tree itself, as a SYMBOLSET can have comments
+                self._assign_comments(Tree("root", [tree]))
 
             return tree
         except (ParseError, UnexpectedInput) as ex:
-- 
2.43.0

