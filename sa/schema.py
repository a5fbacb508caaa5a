"""Reading the published schema files (data, not code): resolution of references, value alternatives, Draft 4 semantics."""
from __future__ import annotations
import json
import os
import re
from collections import OrderedDict

BLOCKS = ["class", "cluster", "composite", "feature", "grid", "join", "label", "layer", "leader", "legend", "map", "outputformat",
          "querymap", "reference", "scalebar", "scaletoken", "style", "web", "symbol"]
KV = ["metadata", "validation", "values", "connectionoptions"]


class Schemas:
    def __init__(self, root, package="mappyfile"):
        self.dir = os.path.join(root, package, "schemas")
        self.files = {}
        for f in sorted(os.listdir(self.dir)):
            if f.endswith(".json"):
                self.files[f[:-5]] = json.load(open(os.path.join(self.dir, f), encoding="utf-8"), object_pairs_hook=OrderedDict)

    def types(self):
        return [t for t in self.files if self.files[t].get("type") == "object" and "properties" in self.files[t]]

    def blocks(self):
        out = []
        for t, d in self.files.items():
            p = d.get("properties", {})
            if isinstance(p, dict) and "__type__" in p:
                out.append(t)
        return out

    def deref(self, node, depth=0):
        """a $ref hides its siblings (Draft 4)"""
        n = 0
        while isinstance(node, dict) and "$ref" in node and n < 20:
            r = node["$ref"].split("#")[0]
            node = self.files[r[:-5] if r.endswith(".json") else r]
            n += 1
        return node

    def props(self, t):
        return self.files[t].get("properties", {})

    def refname(self, node):
        if isinstance(node, dict) and "$ref" in node:
            r = node["$ref"].split("#")[0]
            return r[:-5] if r.endswith(".json") else r
        return None

    def alts(self, node, path=()):
        """flatten oneOf/anyOf/allOf into primitive alternatives: (node, path, metadata chain)"""
        md = []
        ref = self.refname(node)
        if isinstance(node, dict) and "metadata" in node and ref is None and isinstance(node["metadata"], dict):
            md = [node["metadata"]]
        d = self.deref(node)
        out = []
        comb = [c for c in ("oneOf", "anyOf", "allOf") if c in d]
        if comb:
            for c in comb:
                for i, o in enumerate(d[c]):
                    for n, p, m in self.alts(o, path + ((c, i),)):
                        out.append((n, p, md + m))
            return out
        return [(dict(d, __ref__=ref) if ref else d, path, md)]

    # -------------------------------------------------- Draft 4 evaluation of plain JSON values
    def valid(self, node, v, depth=0):
        if isinstance(node, dict) and "$ref" in node:
            return self.valid(self.deref(node), v, depth + 1)
        t = node.get("type")
        if t is not None:
            ts = t if isinstance(t, list) else [t]
            if not any(self.is_type(v, x) for x in ts):
                return False
        if "enum" in node and not any(self.jeq(v, e) for e in node["enum"]):
            return False
        if "oneOf" in node and sum(1 for o in node["oneOf"] if self.valid(o, v)) != 1:
            return False
        if "anyOf" in node and not any(self.valid(o, v) for o in node["anyOf"]):
            return False
        if "allOf" in node and not all(self.valid(o, v) for o in node["allOf"]):
            return False
        if "not" in node and self.valid(node["not"], v):
            return False
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            if "minimum" in node:
                if node.get("exclusiveMinimum") is True and v <= node["minimum"]:
                    return False
                if v < node["minimum"]:
                    return False
            if "maximum" in node:
                if node.get("exclusiveMaximum") is True and v >= node["maximum"]:
                    return False
                if v > node["maximum"]:
                    return False
        if isinstance(v, str):
            if "minLength" in node and len(v) < node["minLength"]:
                return False
            if "maxLength" in node and len(v) > node["maxLength"]:
                return False
            if "pattern" in node and not re.search(node["pattern"], v):
                return False
        if isinstance(v, (list, tuple)):
            if "minItems" in node and len(v) < node["minItems"]:
                return False
            if "maxItems" in node and len(v) > node["maxItems"]:
                return False
            it = node.get("items")
            if isinstance(it, dict):
                if not all(self.valid(it, x) for x in v):
                    return False
            elif isinstance(it, list):
                if not all(self.valid(s, x) for s, x in zip(it, v)):
                    return False
        if isinstance(v, dict):
            for r in node.get("required", []):
                if r not in v:
                    return False
            props = node.get("properties", {})
            pats = node.get("patternProperties", {})
            for k, x in v.items():
                if k in props and not self.valid(props[k], x):
                    return False
                extra = k not in props
                for p, s in pats.items():
                    if re.search(p, k):
                        extra = False
                        if not self.valid(s, x):
                            return False
                if extra and node.get("additionalProperties") is False:
                    return False
                if extra and isinstance(node.get("additionalProperties"), dict) and not self.valid(node["additionalProperties"], x):
                    return False
        return True

    @staticmethod
    def is_type(v, t):
        if t == "string":
            return isinstance(v, str)
        if t == "number":
            return isinstance(v, (int, float)) and not isinstance(v, bool)
        if t == "integer":
            return isinstance(v, int) and not isinstance(v, bool)  # jsonschema Draft4: 1.0 is not an integer
        if t == "boolean":
            return isinstance(v, bool)
        if t == "array":
            return isinstance(v, (list, tuple))
        if t == "object":
            return isinstance(v, dict)
        if t == "null":
            return v is None
        return False

    @staticmethod
    def jeq(a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return a == b

    # -------------------------------------------------- structure
    def slots(self, t):
        """(keyword, node) of one block type without hidden keys"""
        return [(k, v) for k, v in self.props(t).items() if not (k.startswith("__") and k.endswith("__"))]

    def child_ref(self, node):
        """('one'|'many', type) when the slot holds child blocks"""
        ref = self.refname(node)
        if ref in self.blocks() or ref in KV:
            return ("one", ref)
        d = self.deref(node)
        if d.get("type") == "array" and isinstance(d.get("items"), dict):
            r = self.refname(d["items"])
            if r in self.blocks():
                return ("many", r)
        for c in ("allOf", "oneOf", "anyOf"):
            for o in node.get(c, []) if isinstance(node, dict) else []:
                r = self.child_ref(o)
                if r and r[0] == "one":
                    return r
        return None

    def parents(self):
        """child type -> [(parent type, key, 'one'|'many')]"""
        out = {}
        for t in list(self.blocks()) + ["symbolset"]:
            if t not in self.files:
                continue
            for k, v in self.slots(t):
                c = self.child_ref(v)
                if c:
                    out.setdefault(c[1], []).append((t, k, c[0]))
        return out
