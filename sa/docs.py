"""Families of documents built from the schema vocabulary."""
from __future__ import annotations
import copy
from .values import *
from .vocab import *
from . import harness as H

_v = None


def vocab():
    global _v
    if _v is None:
        _v = Vocab(H.REPO)
    return _v


def reset_names():
    from . import vocab as V

    V._n[0] = 0


def first_simple(t, skip=(), n=2):
    """(keyword, shape) of n simple keywords of a block type, used as neighbours"""
    V = vocab()
    pref = ("name", "title", "template", "maxscaledenom", "status", "opacity", "minarcs", "group", "buffer", "wkt", "image", "size", "gridstep", "style", "keysize", "driver", "type", "marker", "region", "table")
    keys = [k for k, v in V.S.slots(t)]
    order = [k for k in pref if k in keys] + [k for k in keys if k not in pref]
    out = []
    for k in order:
        if k in skip or k in REPEATED or k in ("symbol",):
            continue
        sh = V.shapes(t, k, abstract=False)
        if not sh:
            continue
        out.append(Attr(k, sh[0][3]))
        if len(out) == n:
            break
    return out


def slot_list(abstract=True, rich=False):
    """(type, key, alternative, node, metadata chain, shape) for every value keyword"""
    V = vocab()
    out = []
    for t in V.S.blocks():
        for k, node in V.S.slots(t):
            if k == "projection":
                continue  # a block: see special_docs
            for i, n, m, s in V.shapes(t, k, abstract, rich):
                out.append((t, k, i, n, m, s))
    return out


def kv_pair(k, v):
    return (k, v)


def kv_docs():
    """key-value blocks in every parent and at the root"""
    V = vocab()
    W = LETTER | DIGITS | frozenset("_")
    low = lambda: AStr(["q", Atom(fresh("k"), frozenset("abcdefghklmnopqrstuvwxyz0123456789_"), 0), "z"])
    up = lambda: AStr(["Q", Atom(fresh("k"), W, 0), "Z"])
    out = []

    def variants(kind):
        yield "one pair", [(str_(low()), str_(text_body()))]
        yield "upper-case key", [(str_(up()), str_(text_body()))]
        yield "three pairs", [(str_("b_key"), str_(text_body())), (str_("a_key"), str_(text_body())), (str_("C_key"), str_(text_body()))]
        yield "unquoted", [(raw_(AStr(["q", Atom(fresh("k"), W, 0)])), raw_(AStr(["q", Atom(fresh("k"), W | frozenset("-:"), 0)])))]
        yield "unquoted key", [(raw_("wms_srs"), str_("EPSG:4326 EPSG:900913")), (raw_("Wms_Title"), str_(text_body()))]
        yield "duplicate key", [(str_("title"), str_(text_body())), (str_("other"), str_(text_body())), (str_("TITLE"), str_(text_body()))]
        yield "empty", []
        yield "empty value", [(str_(low()), str_("")), (str_("n2"), str_(" "))]
        yield "key with blanks", [(str_(AStr(["q", Atom(fresh("k"), W, 0), " q-", Atom(fresh("k"), W, 0)])), str_("0"))]
        yield "keyword keys", [(str_("type"), str_("END")), (str_("name"), str_("LAYER")), (str_("class"), str_("#hash"))]
        yield "digits", [(str_(AStr([Atom(fresh("k"), DIGITS, 1)])), str_(AStr([Atom(fresh("k"), DIGITS, 1)])))]
        yield "values with marks", [(str_("a"), str_("%q% [q] (q) {q}")), (str_("b"), str_("^q.*$|/q/")), (str_("d"), str_("http://q/?a=b&c={q}"))]
        yield "multi-line value", [(str_("a"), str_("q\n  r")), (str_("b"), str_("x"))]

    parents = {}
    for t in V.S.blocks():
        for k, node in V.S.slots(t):
            c = V.S.child_ref(node)
            if c and c[1] in KV or k == "values":
                parents.setdefault(k, []).append(t)
    parents.setdefault("metadata", [])
    for kind in ("metadata", "validation", "values", "connectionoptions"):
        for name, pairs in variants(kind):
            pts = parents.get(kind, [])
            for i, t in enumerate(pts):
                if i and name not in ("one pair", "empty"):
                    continue
                out.append(("%s in %s, %s" % (kind, t, name), Block(t, KVB(kind, pairs))))
                if name == "one pair":
                    f = first_simple(t)
                    out.append(("%s in %s between keywords" % (kind, t), Block(t, *([f[0]] + [KVB(kind, pairs)] + f[1:]))))
            if kind != "values":
                out.append(("%s root, %s" % (kind, name), KVB(kind, pairs)))
    return out


def num(k=0):
    return [shape_int(), shape_float(), shape_int(neg=True), shape_float(neg=True)][k % 4]


def special_docs():
    """CONFIG, PROJECTION, POINTS, PATTERN, repeated keywords, duplicates"""
    V = vocab()
    out = []
    A = lambda k, s: Attr(k, s)
    W = LETTER | DIGITS | frozenset("_")
    # CONFIG
    key = lambda: AStr(["Q", Atom(fresh("c"), W, 0), "z"])
    out.append(("config quoted", Block("map", Config(str_(key()), str_(text_body())))))
    out.append(("config unquoted", Block("map", Config(raw_("MS_ERRORFILE"), raw_("stderr")), A("name", shape_str()))))
    out.append(("config mixed", Block("map", A("name", shape_str()), Config(raw_("PROJ_LIB"), str_("/q/r")), A("status", shape_enum("on")), Config(str_("MS_ERRORFILE"), str_(text_body())), Config(str_("Cgi_Context_Url"), str_("1")))))
    out.append(("config duplicate", Block("map", Config(str_("PROJ_DEBUG"), str_(text_body())), Config(str_("ON_MISSING_DATA"), str_("IGNORE")), Config(str_("proj_debug"), str_(text_body())))))
    # PROJECTION
    for t in [t for t in V.S.blocks() if "projection" in V.S.props(t)]:
        f = first_simple(t)
        out.append(("projection in %s" % t, Block(t, Proj([str_("init=epsg:4326")]))))
        out.append(("projection auto in %s" % t, Block(t, Proj(None), *f[:1])))
        out.append(("projection parts in %s" % t, Block(t, f[0], Proj([str_("proj=utm"), str_(text_body()), str_("no_defs")]), *f[1:])))
        out.append(("projection twice in %s" % t, Block(t, Proj([str_("init=epsg:1")]), f[0], Proj([str_("init=epsg:2"), str_(text_body())]))))
    # POINTS / PATTERN
    for t, kind in (("feature", "points"), ("symbol", "points"), ("style", "pattern")):
        f = first_simple(t)
        for n in (1, 2, 3):
            out.append(("%s of %d in %s" % (kind, n, t), Block(t, Pairs(kind, [(num(i), num(i + 1)) for i in range(n)]))))
        out.append(("%s between keywords in %s" % (kind, t), Block(t, f[0], Pairs(kind, [(num(0), num(0)), (num(1), num(3))]), *f[1:])))
        if kind == "points":
            for n in (2, 3):
                out.append(("%s %d times in %s" % (kind, n, t), Block(t, *[Pairs(kind, [(num(1 if i == 1 and j == 0 else 2 * (i == 0)), num(0)) for j in range(1 + i)]) for i in range(n)])))
            out.append(("%s twice around a keyword in %s" % (kind, t), Block(t, Pairs(kind, [(num(0), num(0))]), f[0], Pairs(kind, [(num(0), num(0)), (num(1), num(1))]))))
        else:
            out.append(("%s twice in %s" % (kind, t), Block(t, Pairs(kind, [(num(0), num(1))]), f[0], Pairs(kind, [(num(1), num(0)), (num(0), num(0))]))))
    # repeated keywords
    for t in V.S.blocks():
        for k in REPEATED:
            if k in V.S.props(t):
                f = first_simple(t, skip=(k,))
                if t in ("layer", "outputformat", "composite", "map", "class"):
                    out.append(("%s once in %s" % (k, t), Block(t, A(k, shape_str()))))
                    out.append(("%s twice in %s" % (k, t), Block(t, A(k, shape_str()), A(k, shape_str()))))
                out.append(("%s three times in %s" % (k, t), Block(t, A(k, shape_str("b q=1")), f[0], A(k, shape_str()), *f[1:], A(k, shape_str("b q=1")))))
    # duplicates of ordinary keywords, within each type
    for t in V.S.blocks():
        f = first_simple(t, n=2)
        if not f:
            continue
        k = f[0].key
        sh = [s for i, n, m, s in V.shapes(t, k, True)]
        other = f[1:]
        out.append(("%s twice in %s" % (k, t), Block(t, A(k, sh[0]), *other, A(k, sh[-1]))))
        out.append(("%s three times in %s" % (k, t), Block(t, A(k, sh[0]), A(k, sh[-1]), *other, A(k, sh[0]))))
    # the same key in a parent and its children
    out.append(("same keyword at every level", Block("map", A("name", shape_str()), Block("layer", A("name", shape_str()), Block("class", A("name", shape_str()), Block("style", A("width", num())), A("title", shape_str())), A("group", shape_str())), A("angle", num()))))
    return out


def child_docs(deep=True):
    """every parent with every child block: counts, positions, interleavings"""
    V = vocab()
    out = []
    par = V.S.parents()
    for child, ps in par.items():
        if child in KV:
            continue
        for parent, key, card in ps:
            if parent == "symbolset":
                continue
            if key == child and card == "one" and child not in SINGLETONS:
                continue  # style/class SYMBOL: see C19
            fp = first_simple(parent)
            fc = lambda: first_simple(child, n=1)
            out.append(("%s in %s" % (child, parent), Block(parent, Block(child))))
            out.append(("%s with keywords in %s" % (child, parent), Block(parent, *fp[:1], Block(child, *fc()), *fp[1:])))
            if card == "many":
                out.append(("2 %s in %s" % (child, parent), Block(parent, Block(child, *fc()), Block(child))))
                out.append(("3 %s around keywords in %s" % (child, parent), Block(parent, Block(child, *fc()), *fp[:1], Block(child), *fp[1:], Block(child, *fc()))))
    # interleaved children of different kinds
    kids = {}
    for child, ps in par.items():
        for parent, key, card in ps:
            if child not in KV and parent != "symbolset" and not (key == child and card == "one" and child not in SINGLETONS):
                kids.setdefault(parent, []).append((child, card))
    for p, cs in kids.items():
        many = [c for c, card in cs if card == "many"]
        one = [c for c, card in cs if card == "one"]
        if len(cs) > 1:
            seq = many + one + many[::-1]
            out.append(("children of %s interleaved" % p, Block(p, *[Block(c, *first_simple(c, n=1)) for c in seq])))
    # roots
    for t in V.S.blocks():
        out.append(("root %s" % t, Block(t)))
        out.append(("root %s with a keyword" % t, Block(t, *first_simple(t, n=1))))
        out.append(("two roots %s" % t, [Block(t, *first_simple(t, n=1)), Block(t)]))
    out.append(("roots of several kinds", [Block("class"), Block("layer", *first_simple("layer")), Block("style"), KVB("metadata", [(str_("a"), str_("b"))]), Block("grid")]))
    out.append(("symbolset", Block("symbolset")))
    out.append(("symbolset of one", Block("symbolset", Block("symbol", Attr("name", shape_str())))))
    out.append(("symbolset of three", Block("symbolset", Block("symbol", Attr("name", shape_str()), Attr("type", shape_enum("ellipse")), Pairs("points", [(num(0), num(1))])), Block("symbol"), Block("symbol", Attr("filled", Shape("true", [word_("true")], True, [("enum", "TRUE")], "bool"))))))
    # depth
    deep_label = Block("label", Block("style", Attr("size", num()), Pairs("pattern", [(num(0), num(0))])), Attr("text", shape_str()))
    deep_leader = Block("leader", Block("style", Attr("width", num())))
    deep_class = Block("class", deep_label, deep_leader, Attr("name", shape_str()))
    out.append(("depth 5", Block("map", Block("layer", deep_class), Block("scalebar", Block("label", Block("style"))))))
    out.append(("legend and label styles", Block("map", Block("legend", Block("label", Attr("size", num()), Block("style", Attr("width", num())), Block("style"))), Attr("name", shape_str()), Block("layer", Block("feature", Pairs("points", [(num(0), num(1))]), Attr("text", shape_str())), Block("feature", Pairs("points", [(num(2), num(2))]), Pairs("points", [(num(0), num(0))]))))))
    out.append(("many layers", Block("map", *[Block("layer", Attr("name", shape_str("q%d r" % i)), Block("class", Attr("name", shape_str("c%d r" % i)))) for i in range(40)])))
    return out


def clone(n):
    """the same document with nodes of its own (leaf values stay shared)"""
    if isinstance(n, list):
        return [clone(x) for x in n]
    c = copy.copy(n)
    if isinstance(n, Block):
        c.items = [clone(x) for x in n.items]
    return c


def equal_docs():
    """everything that may be repeated, repeated with the same content"""
    V = vocab()
    out = []
    A = lambda k, s: Attr(k, s)
    for t in ("feature", "symbol"):
        f = first_simple(t, n=1)
        a, b = [(num(0), num(1)), (num(2), num(0))], [(num(0), num(0))]
        P = lambda x: Pairs("points", x)
        for name, seq in (("2 equal", [a, a]), ("3 equal", [a, a, a]), ("abb", [a, b, b]), ("aab", [a, a, b]), ("aba", [a, b, a]), ("abab", [a, b, a, b]), ("4 single pairs", [b, b, b, b]), ("abbb", [a, b, b, b])):
            out.append(("points parts %s in %s" % (name, t), Block(t, *([P(x) for x in seq] + f))))
        out.append(("points parts aab around a keyword in %s" % t, Block(t, P(a), P(a), *f, P(b))))
        p, q = (num(0), num(1)), (num(2), num(3))
        for name, seq in (("closed ring", [p, q, p]), ("equal pairs", [p, p, p]), ("pair twice", [p, q, q]), ("two equal", [p, p])):
            out.append(("points %s in %s" % (name, t), Block(t, P(seq), *f)))
        x = num(0)
        out.append(("points with equal coordinates in %s" % t, Block(t, P([(x, x), (x, x)]), *f)))
    p, q = (num(0), num(1)), (num(2), num(3))
    for name, seq in (("closed", [p, q, p]), ("equal", [p, p]), ("pair twice", [p, q, q])):
        out.append(("pattern %s" % name, Block("style", Pairs("pattern", seq))))
    out.append(("pattern twice equal", Block("style", Pairs("pattern", [p, q]), Pairs("pattern", [p, q]))))
    for t in V.S.blocks():
        for k in REPEATED:
            if k in V.S.props(t) and t in ("layer", "outputformat", "composite", "map"):
                u, w = shape_str(), shape_str()
                for name, seq in (("2 equal", [u, u]), ("3 equal", [u, u, u]), ("aab", [u, u, w]), ("abba", [u, w, w, u])):
                    out.append(("%s %s in %s" % (k, name, t), Block(t, *[A(k, x) for x in seq])))
        f = first_simple(t, n=2)
        if len(f) == 2:
            g = A(f[0].key, [s for i, n, m, s in V.shapes(t, f[0].key, True)][-1])
            out.append(("%s aba in %s" % (f[0].key, t), Block(t, f[0], f[1], g, f[0])))
            out.append(("%s aa in %s" % (f[0].key, t), Block(t, f[0], f[1], f[0], f[1])))
    u, w = text_body(), text_body()
    for kind, t in (("metadata", "map"), ("validation", "layer"), ("values", "scaletoken"), ("connectionoptions", "layer")):
        out.append(("%s equal values" % kind, Block(t, KVB(kind, [(str_("a"), str_(u)), (str_("b"), str_(u)), (str_("c"), str_(w))]))))
        out.append(("%s equal pairs" % kind, Block(t, KVB(kind, [(str_("a"), str_(u)), (str_("b"), str_(w)), (str_("a"), str_(u)), (str_("A"), str_(u))]))))
        out.append(("%s a b a" % kind, Block(t, KVB(kind, [(str_("a"), str_(u)), (str_("b"), str_(w)), (str_("a"), str_(w))]))))
        out.append(("%s twice" % kind, Block(t, KVB(kind, [(str_("a"), str_(u)), (str_("b"), str_(w))]), KVB(kind, [(str_("a"), str_(u))]))))
    out.append(("config equal", Block("map", Config(str_("A"), str_(u)), Config(str_("B"), str_(u)), Config(str_("a"), str_(u)))))
    for name, seq in (("equal strings", [u, u]), ("aba", [u, w, u]), ("abb", [u, w, w])):
        out.append(("projection %s" % name, Block("layer", Proj([str_(x) for x in seq]))))
    out.append(("projection twice equal", Block("layer", Proj([str_(u), str_(w)]), Proj([str_(u), str_(w)]))))
    par = V.S.parents()
    for child, ps in par.items():
        for parent, key, card in ps:
            if card != "many" or child in KV:
                continue
            b = Block(child, *first_simple(child, n=1))
            e = Block(child)
            for name, seq in (("2 equal", [b, b]), ("3 equal", [b, b, b]), ("abb", [e, b, b]), ("aab", [b, b, e])):
                out.append(("%s %s in %s" % (name, child, parent), Block(parent, *seq)))
    for t in V.S.blocks():
        b = Block(t, *first_simple(t, n=1))
        out.append(("three equal roots %s" % t, [b, b, b]))
    out.append(("equal nested", Block("map", *[Block("layer", A("name", shape_str("n")), Block("class", A("name", shape_str("n")), Block("style", A("width", shape_int("1"))), Block("style", A("width", shape_int("1"))))) for i in range(3)])))
    return [(n, clone(d)) for n, d in out]


def slot_doc(t, k, s, pos="first", fill=None):
    f = first_simple(t, skip=(k,)) if fill is None else fill
    a = Attr(k, s)
    if pos == "first":
        return Block(t, a, *f[:1])
    if pos == "middle":
        return Block(t, *f[:1], a, *f[1:])
    if pos == "last":
        return Block(t, *f[:1], a)
    if pos == "only":
        return Block(t, a)


def structure():
    return kv_docs() + special_docs() + child_docs() + equal_docs()


def doc_key(name):
    return name
