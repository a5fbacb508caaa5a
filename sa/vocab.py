"""The Mapfile vocabulary as the published schemas describe it, with an independent renderer.

A document is a tree of Block / Attr / KV / Config / Pairs / Proj nodes over abstract leaves (blocks of characters,
unknown numbers).  From one tree come: its Mapfile text under chosen surface options, the dictionary the documentation
promises for it (expected), and the printed lines with the lexical class of every value (printed).  Nothing in here is
taken from the analysed code, only from the schema files and the documentation."""
from __future__ import annotations
import re
from .values import *
from . import strings as S
from .schema import Schemas, BLOCKS, KV

LETTER = ALPHA_L | ALPHA_U
BODY = UNIVERSE - frozenset('"\'`\\\n\r')  # characters of a string that need no care in either quoting
SINGLETONS = {"map", "querymap", "legend", "reference", "scalebar", "web", "cluster", "grid", "leader", "metadata", "validation", "values", "connectionoptions"}  # documented: at most one per parent
REPEATED = ("processing", "formatoption", "include", "compfilter")


def plural(t):
    return t + "es" if t.endswith("s") else t + "s"


class Dict_:
    """an expected dictionary (compared by content and order)"""


def mkdict(pairs):
    d = DictV(None)
    for k, v in pairs:
        d.d[k] = v
    return d


def cat(*xs):
    return mkstr([p for x in xs for p in (x.parts if isinstance(x, AStr) else (x,))])


# ------------------------------------------------------------------ leaves
_n = [0]


def fresh(pfx):
    _n[0] += 1
    return "%s%d" % (pfx, _n[0])


def atom(pfx, cs, lo=1, hi=None):
    return AStr([Atom(fresh(pfx), cs, lo, hi)])


def text_body(pfx="s"):
    """any string whose first and last characters are letters (the first not n: see the NOT strings) and which holds
    no quote, backslash or line break"""
    n = fresh(pfx)
    return AStr([Atom(n + "a", LETTER - frozenset("nN"), 1, 1), Atom(n, BODY, 0), Atom(n + "z", LETTER, 1, 1)])


def word_body(pfx="w"):
    n = fresh(pfx)
    return AStr(["q", Atom(n, LETTER | DIGITS | frozenset("_"), 0), Atom(n + "z", LETTER - frozenset("iI"), 1, 1)])


def ident(pfx="f"):
    n = fresh(pfx)
    return AStr(["q", Atom(n, LETTER | DIGITS | frozenset("_"), 0)])


def int_text(pfx="n"):
    return AStr([Atom(fresh(pfx), DIGITS, 1)])


class Lex:
    """one lexeme of a value"""

    def __init__(self, kind, val):
        self.kind = kind  # raw | word | str | kw
        self.val = val

    def render(self, o, where=None):
        if self.kind == "str":
            q = o.quote_for(self.val)
            return cat(q, self.val, q)
        if self.kind == "word":
            return o.case(self.val, where)
        if self.kind == "kw":
            return o.case(self.val, where)
        return self.val


def raw_(v):
    return Lex("raw", v)


def str_(v):
    return Lex("str", v)


def word_(v):
    return Lex("word", v)


class Shape:
    """one way of writing a value of one schema alternative"""

    def __init__(self, name, lex, value, out, kind, rep=None):
        self.name = name
        self.lex = lex  # list of Lex
        self.value = value  # expected value in the dictionary
        self.out = out  # list of lexemes ('str', v) / ('bare', v) / ('enum', v) / ('num', v) / ('any', [..]) expected when printed
        self.kind = kind

    def __repr__(self):
        return self.name


def num_app(text, ty):
    return App("int" if ty == "int" else "float", (text,), ty)


def shape_int(t=None, name="integer", neg=False):
    t = int_text() if t is None else t
    full = cat("-", t) if neg else t
    v = int(full) if isinstance(full, str) else num_app(full, "int")
    return Shape(name, [raw_(full)], v, [("num", v)], "int")


def shape_float(t=None, name="float", neg=False):
    t = cat(int_text(), ".", int_text()) if t is None else t
    full = cat("-", t) if neg else t
    v = float(full) if isinstance(full, str) else num_app(full, "float")
    return Shape(name, [raw_(full)], v, [("num", v)], "float")


def shape_str(v=None, name="string"):
    v = text_body() if v is None else v
    return Shape(name, [str_(v)], v, [("str", v)], "str")


def shape_word(v=None, name="unquoted string"):
    v = word_body() if v is None else v
    return Shape(name, [raw_(v)], v, [("str", v)], "str")


def shape_enum(w, name=None):
    return Shape(name or "enum %s" % w, [word_(w)], ("enum", w), [("enum", w)], "enum")


def shape_bind(name="binding"):
    v = cat("[", ident(), "]")
    return Shape(name, [raw_(v)], v, [("bare", v)], "bind")


def shape_hex(n=6, name=None):
    t = atom("h", frozenset("0123456789abcdef"), n, n)
    v = cat("#", t)
    return Shape(name or "hex colour %d" % n, [str_(v)], v, [("str", v)], "hex")


def shape_expr(name="expression"):
    v = cat("( [", ident(), "] = ", "5", " )")
    return Shape(name, [raw_(v)], v, [("bare", v)], "expr")


def shape_expr2(name="compound expression"):
    v = cat('( ( "[', ident(), ']" = "', atom("s", LETTER | DIGITS | frozenset(" _."), 0), '" ) AND ( [', ident(), "] > 10 ) )")
    return Shape(name, [raw_(v)], v, [("bare", v)], "expr")


def shape_not(name="NOT expression"):
    v = cat("NOT ( [", ident(), "] = 5 )")
    return Shape(name, [raw_(v)], v, [("bare", v)], "expr")


def shape_list(name="list expression"):
    v = cat("{q", atom("l", LETTER, 1), ",q", atom("l", LETTER, 1), "}")
    return Shape(name, [raw_(v)], v, [("bare", v)], "list")


def shape_re(name="regular expression", i=False):
    body = AStr(["^", Atom(fresh("r"), LETTER | DIGITS | frozenset(".*+[]()|^$ -"), 1), "q"])
    v = cat("/", body, "/" + ("i" if i else ""))
    return Shape(name, [raw_(v)], v, [("bare", v)], "regex")


def shape_ci(name="case-insensitive string"):
    v = cat('"', text_body(), '"i')
    return Shape(name, [raw_(v)], v, [("bare", v)], "istr")


def tuple_shape(shapes, name):
    return Shape(name, [x for s in shapes for x in s.lex], ListV([s.value for s in shapes]), [x for s in shapes for x in s.out], "list")


def between(node, int_only):
    lo, hi = node.get("minimum"), node.get("maximum")
    lo = -(10 ** 6) if lo is None else lo
    hi = 10 ** 6 if hi is None else hi
    if node.get("exclusiveMinimum"):
        lo = lo + (1 if int_only else 0.5)
    return lo, hi


def rep_num(node, k=0):
    """text of a number valid for the node"""
    io = node.get("type") == "integer"
    lo, hi = between(node, io)
    for c in ((7, 12, 0, 1, 5, 100, 25)[k % 7:] + (7, 1, 0, 12, 100, 5, 25)):
        if lo <= c <= hi:
            return str(c)
    return str(int(lo) + 1)


def unbounded(node):
    return "minimum" not in node and "maximum" not in node and "exclusiveMinimum" not in node


def num_shapes(node, abstract=True, k=0):
    t = node.get("type")
    out = []
    if abstract:
        out.append(shape_int())
        out.append(shape_int(neg=True, name="negative integer"))
        if t != "integer":
            out.append(shape_float())
            out.append(shape_float(neg=True, name="negative float"))
    else:
        out.append(shape_int(rep_num(node, k)))
        lo, hi = between(node, t == "integer")
        if t != "integer":
            for c in ("0.5", "1.5", "12.25", "5.5"):
                if lo <= float(c) <= hi:
                    out.append(shape_float(c))
                    break
            if lo <= 1e3 <= hi:
                out.append(shape_float("1e3", "exponent"))
        if lo <= -3 and hi >= -3:
            out.append(shape_int("3", "negative integer", neg=True))
    return out


class Vocab:
    def __init__(self, root):
        self.S = Schemas(root)
        self.slot_cache = {}

    def is_expr_slot(self, t, k):
        return any(n.get("description") == "expression" for n, p, m in self.S.alts(dict(self.S.props(t))[k]))

    def shapes(self, t, k, abstract=True, rich=False):
        """[(alternative index, node, metadata chain, Shape)] of one slot, or None for child/kv/points/... slots"""
        node = self.S.props(t)[k]
        out = []
        free = False
        alts = self.S.alts(node)
        for i, (n, p, m) in enumerate(alts):
            for s in self.alt_shapes(t, k, n, abstract):
                out.append((i, n, m, s))
            if n.get("type") == "string" and not any(x in n for x in ("enum", "pattern", "maxLength")):
                free = True
        if self.is_expr_slot(t, k):
            i = [i for i, (n, p, m) in enumerate(alts) if n.get("description") == "expression"][0]
            n, p, m = alts[i]
            out.append((i, n, m, shape_expr2()))
            if t in ("class", "layer", "label", "cluster") and k in ("expression", "filter"):
                out.append((i, n, m, shape_not()))
                out.append((i, n, m, shape_re("case-insensitive regular expression", i=True)))
                out.append((i, n, m, shape_ci()))
                if k == "expression":
                    out.append((i, n, m, shape_list()))
        if free and rich:
            n = [n for n, p, m in alts if n.get("type") == "string" and not any(x in n for x in ("enum", "pattern"))][0]
            for s in rich_strings():
                out.append((0, n, [], s))
            # strings that are an enumerated word up to blanks or a letter
            for w in [w for a, p, m in alts for w in a.get("enum", ()) if isinstance(w, str)]:
                for v in (" " + w, w.upper() + " ", w + "\n", w[:-1], w + "q", "q " + w, w + "," + w):
                    out.append((0, n, [], shape_str(v, "string %r" % v)))
        return out

    def alt_shapes(self, t, k, n, abstract):
        if "enum" in n:
            out = []
            for w in n["enum"]:
                if isinstance(w, bool):
                    out.append(Shape("enum %s" % w, [word_(str(w).lower())], w, [("enum", str(w))], "bool"))
                elif isinstance(w, (int, float)):
                    out.append(Shape("enum %s" % w, [raw_(str(w))], w, [("num", w)], "int"))
                elif k == "compop":
                    out.append(Shape("enum %s" % w, [str_(w)], w, [("any", w)], "enum"))
                elif not re.match(r"^[a-z0-9_\-]+$", w, re.I) or w == "end":
                    out.append(Shape("enum %s" % w, [str_(w)], w, [("any", w)], "enum"))
                else:
                    out.append(shape_enum(w))
            return out
        ty = n.get("type")
        pat = n.get("pattern")
        if ty == "boolean":
            return [Shape("true", [word_("true")], True, [("enum", "TRUE")], "bool"), Shape("false", [word_("false")], False, [("enum", "FALSE")], "bool")]
        if ty in ("integer", "number"):
            return num_shapes(n, abstract)
        if ty == "string" and pat:
            if pat.startswith("^\\["):
                return [shape_bind()]
            if pat.startswith("^\\("):
                return [shape_expr()]
            if pat.startswith("^/"):
                return [shape_re()]
            if pat.startswith("^#"):
                return [shape_hex(6), shape_hex(3), shape_hex(8)]
            if pat.startswith("^&#"):
                v = cat("&#", int_text(), ";") if abstract else "&#10140;"
                return [Shape("character reference", [str_(v)], v, [("str", v)], "str")]
            m = re.match(r"^\^([a-z]+)\$$", pat)
            if m:
                return [Shape("word %s" % m.group(1), [str_(m.group(1))], m.group(1), [("str", m.group(1))], "str")]
            return []
        if ty == "string":
            if n.get("maxLength") == 1:
                return [shape_str(atom("c", LETTER, 1, 1) if abstract else "#" if k == "wrap" else "a", "one character")]
            if abstract:
                return [shape_str(), shape_word()]
            return [shape_str("a b/c.d"), shape_word("abc_1")]
        if ty == "array":
            return self.array_shapes(t, k, n, abstract)
        return []

    def array_shapes(self, t, k, n, abstract):
        items = n.get("items")
        cnt = n.get("minItems") or 2
        if isinstance(items, dict):
            items = dict(self.S.deref(items))
            if items.get("type") == "array":
                if k not in ("points", "pattern"):
                    return [tuple_shape([shape_int() if abstract else shape_int(str(1 + x)) for x in range(2)], "pair of integers")]
                return []  # points
            if "oneOf" in items:
                alts = [self.alt_shapes(t, k, self.S.deref(o), abstract)[0] for o in items["oneOf"]]
                out = []
                for i in range(len(alts)):
                    for j in range(len(alts)):
                        a = [self.alt_shapes(t, k, self.S.deref(items["oneOf"][x]), abstract)[0] for x in (i, j)]
                        out.append(tuple_shape(a, "pair of %s and %s" % (a[0].name, a[1].name)))
                return out
            if items.get("type") in ("number", "integer"):
                out = []
                base = [num_shapes(items, abstract, x) for x in range(cnt)]
                kinds = 4 if items.get("type") == "number" and cnt in (2, 4) else 1
                for v in range(min(len(b) for b in base)):
                    if base[0][v].kind == "float" and kinds == 1:
                        continue
                    out.append(tuple_shape([b[v] for b in base], "%d x %s" % (cnt, base[0][v].name)))
                if kinds == 4 and len(base[0]) > 2:
                    out.append(tuple_shape([base[x][0] if x % 2 else base[x][2] for x in range(cnt)], "%d mixed numbers" % cnt))
                return out
            if items.get("type") == "string" and items.get("pattern", "").startswith("^\\["):
                return [tuple_shape([shape_bind() for _ in range(cnt)], "%d bindings" % cnt)]
            if items.get("type") == "string" and k == "colorrange":
                return [tuple_shape([shape_hex(6), shape_hex(6)], "hex colour range"), tuple_shape([shape_hex(3), shape_hex(8)], "hex colour range 3 8")]
            return []
        if isinstance(items, list):
            ss = []
            for x in range(cnt):
                node = self.S.deref(items[x]) if x < len(items) else self.S.deref(items[-1])
                ss.append(self.alt_shapes(t, k, node, abstract)[0])
            out = [tuple_shape(ss, "items %s" % "/".join(s.kind for s in ss))]
            if all(self.S.deref(x).get("type") in ("number",) for x in items):
                ss = [(num_shapes(self.S.deref(items[min(x, len(items) - 1)]), abstract) + [None] * 3)[2 if abstract else 1] or shape_float("0.5") for x in range(cnt)]
                out.append(tuple_shape(ss, "float items"))
            if len(items) == 2:  # the other mixes of number and binding of a pair keyword
                kinds = {s.kind for s in ss}
                if kinds == {"int", "bind"}:
                    pass
            return out
        return []


def rich_strings():
    """string contents that stress lexing, quoting and layout"""
    X = lambda pfx="x": atom(pfx, LETTER | DIGITS, 1)
    out = []

    def s(name, *parts):
        out.append(shape_str(cat(*parts), name))

    s("empty string", "")
    s("string with leading and trailing blanks", " ", X(), "  ")
    s("string with line break", X(), "\n  ", X())
    s("string with hash", "q", X(), " # ", X())
    s("string starting with NOT", "NOT q", X(), " ", X(), "q")
    s("string starting with hash", "#", atom("x", frozenset("ghijkl"), 1))
    s("string with comment marks", "q /* ", X(), " */ q")
    s("string with slashes", X(), "//", X(), "/")
    s("string with backslashes", "C:\\q", X(), "\\q", X())
    s("string with tab", X(), "\t", X())
    s("keyword-like string", "END")
    s("block-like string", "LAYER")
    s("string of digits", AStr([Atom(fresh("d"), DIGITS, 1)]))
    s("string TRUE", "TRUE")
    s("string null", "null")
    s("non-ASCII string", "\xe9", atom("u", frozenset("\xe9\u0416\u6f22\xdf"), 1))
    s("string with braces inside", "q", X(), " {q} [q] (q) %q% q")
    s("string with percent", "%q", X(), "%")
    s("string with equals", "q=", X(), ",q=", X())
    s("string with format marks", "q{0} {q} %s %d", X())
    s("url", "http://q", X(), ".example/q?a=b&c=d#e")
    s("string with a semicolon", "q;", X())
    out.append(shape_word(AStr(["q", Atom(fresh("w"), LETTER | DIGITS | frozenset("_-:"), 0)]), "unquoted string with dashes"))
    return out


# ------------------------------------------------------------------ documents
class Node:
    pass


class Attr(Node):
    def __init__(self, key, shape):
        self.key = key
        self.shape = shape


class KVB(Node):
    """METADATA / VALIDATION / VALUES / CONNECTIONOPTIONS"""

    def __init__(self, kind, pairs):
        self.kind = kind
        self.pairs = pairs  # [(key Lex, value Lex)]


class Config(Node):
    def __init__(self, key, val):
        self.key = key  # Lex
        self.val = val


class Pairs(Node):
    """POINTS / PATTERN: list of (Shape, Shape) numbers"""

    def __init__(self, kind, pairs):
        self.kind = kind
        self.pairs = pairs


class Proj(Node):
    def __init__(self, strings=None):
        self.strings = strings  # None = AUTO


class Block(Node):
    def __init__(self, type_, *items):
        self.type = type_
        self.items = list(items)


class Opts:
    """surface rendering"""

    def __init__(self, quote='"', case="upper", sep=" ", nl="\n", indent="  ", tight=False):
        self.q = quote
        self.casing = case
        self.sep = sep
        self.nl = nl
        self.indent = indent

    def quote_for(self, v):
        return self.q

    def case(self, w, where=None):
        if not isinstance(w, str):
            return w
        if self.casing == "upper":
            return w.upper()
        if self.casing == "lower":
            return w.lower()
        if self.casing == "title":
            return w.title()
        if self.casing == "mixed":
            return "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(w))
        return w


def tokens(node, o):
    """[(list of lexeme texts of one line)...] nested: the text of a node as lines of lexemes, with depth"""
    out = []

    def go(n, depth):
        if isinstance(n, Block):
            out.append((depth, [o.case(n.type)]))
            for x in n.items:
                go(x, depth + 1)
            out.append((depth, [o.case("end")]))
        elif isinstance(n, Attr):
            out.append((depth, [o.case(n.key)] + [x.render(o) for x in n.shape.lex]))
        elif isinstance(n, KVB):
            out.append((depth, [o.case(n.kind)]))
            for k, v in n.pairs:
                out.append((depth + 1, [k.render(o), v.render(o)]))
            out.append((depth, [o.case("end")]))
        elif isinstance(n, Config):
            out.append((depth, [o.case("config"), n.key.render(o), n.val.render(o)]))
        elif isinstance(n, Pairs):
            out.append((depth, [o.case(n.kind)]))
            for a, b in n.pairs:
                out.append((depth + 1, [a.lex[0].val, b.lex[0].val]))
            out.append((depth, [o.case("end")]))
        elif isinstance(n, Proj):
            out.append((depth, [o.case("projection")]))
            if n.strings is None:
                out.append((depth + 1, [o.case("auto")]))
            else:
                for s in n.strings:
                    out.append((depth + 1, [s.render(o)]))
            out.append((depth, [o.case("end")]))

    for n in node if isinstance(node, list) else [node]:
        go(n, 0)
    return out


def render(node, o=None):
    o = o or Opts()
    parts = []
    for depth, lex in tokens(node, o):
        parts.append(o.indent * depth)
        for i, x in enumerate(lex):
            if i:
                parts.append(o.sep)
            parts.append(x)
        parts.append(o.nl)
    return cat(*parts)


def value_of(v, o):
    if isinstance(v, tuple) and v and v[0] == "enum":
        return o.case(v[1])
    if isinstance(v, ListV):
        return ListV([value_of(x, o) for x in v.items])
    return v


def lower_str(v):
    if isinstance(v, str):
        return v.lower()
    if isinstance(v, AStr):
        return cat(*[p.lower() if isinstance(p, str) else AStr([p.transform("lower")]) for p in v.parts])
    return v


def expected(node, o=None):
    """the documented dictionary"""
    o = o or Opts()
    if isinstance(node, list):
        r = [expected(x, o) for x in node]
        return r[0] if len(r) == 1 else ListV(r)
    if isinstance(node, KVB):
        d = DictV(None)
        for k, v in node.pairs:
            kk = lower_str(k.val)
            d.d[kk] = v.val
        d.d["__type__"] = node.kind
        return d
    d = DictV(None)
    d.d["__type__"] = node.type
    npts = {}
    for n in node.items:
        if isinstance(n, Attr):
            v = value_of(n.shape.value, o)
            if n.key in REPEATED:
                d.d.setdefault(n.key, ListV([])).items.append(v)
            else:
                d.d[n.key] = v
        elif isinstance(n, KVB):
            d.d[n.kind] = expected(n, o)
        elif isinstance(n, Config):
            c = d.d.setdefault("config", DictV(None))
            c.d[lower_str(n.key.val)] = n.val.val
        elif isinstance(n, Proj):
            d.d["projection"] = ListV([o.case("auto")]) if n.strings is None else ListV([s.val for s in n.strings])
        elif isinstance(n, Pairs):
            v = ListV([(a.value, b.value) for a, b in n.pairs])
            if n.kind == "points":
                c = npts.get("points", 0)
                if c == 0:
                    d.d["points"] = v
                elif c == 1:
                    d.d["points"] = ListV([d.d["points"], v])
                else:
                    d.d["points"].items.append(v)
                npts["points"] = c + 1
            else:
                d.d[n.kind] = v
        elif isinstance(n, Block):
            e = expected(n, o)
            if n.type in SINGLETONS:
                d.d[n.type] = e
            else:
                d.d.setdefault(plural(n.type), ListV([])).items.append(e)
    return d
