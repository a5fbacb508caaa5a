"""C05: surface syntax does not change meaning."""
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from ..surface import *
from .c02 import DocIn, load, show_exc

PLAIN = Style("plain")


def has_include(n):
    if isinstance(n, list):
        return any(has_include(x) for x in n)
    if isinstance(n, Block):
        return any(has_include(x) for x in n.items)
    return isinstance(n, Attr) and n.key == "include"


def pair_ob(name, inputs, texts, construct, what, rule="surface", **kw):
    """texts(inputs) -> (reference text, other text)"""
    lk = kw.pop("load", {})

    def run(it, inp):
        a, b = texts(inp)
        it.stage = 0
        va = load(it, a, **lk)
        it.stage = 1
        it.b = b
        vb = load(it, b, **lk)
        return va, vb

    def judge(it, inp, p):
        if p.kind == "raise":
            if it.stage == 0:
                return []
            return [Bad(rule, construct, "%s: the text does not load: %s%s; text: %s" % (what, p.value.cls.name, show_exc(p), show(it.b)[:400]))]
        a, b = p.value
        r = same(it, a, b)
        if r is True:
            return []
        return [Bad(rule, construct, "%s: %s; text: %s" % (what, diff(a, b), show(texts(inp)[1])[:400]), r is False)]

    return Ob("%s [%s]" % (name, what), inputs, run, judge, max_paths=128, **kw)


def style_ob(name, doc, construct, st, **kw):
    return pair_ob(name, DocIn(doc, Opts()), lambda inp: (surface(inp.doc, PLAIN), surface(inp.doc, st)), construct, st.name, **kw)


def styles(n, seed):
    """n styles, all different; every third holds comments"""
    cm = comments()
    out = []
    for k in range(n):
        j = k + seed
        kind = j % 5
        if kind == 0:
            out.append(Style("case %d" % (j // 5 % 5), case=j // 5 % 5))
        elif kind == 1:
            out.append(Style("blanks", sep=list(BLANKS), case="each", seed=j))
        elif kind == 2:
            out.append(Style("comments", sep=cm, seed=j))
        elif kind == 3:
            out.append(Style("quotes", quote="mixed", case="each", seed=j))
        else:
            out.append(Style("everything", sep=list(BLANKS) + cm, case="each", quote="mixed", seed=j))
    return out


# ------------------------------------------------------------------ bare words
def words():
    yield "a word", cat("q", atom("w", LETTER | DIGITS | frozenset("_"), 0))
    yield "a word with dashes and colons", cat("q", atom("w", LETTER | DIGITS | frozenset("_-:"), 0))
    yield "one letter", "q"
    yield "an underscore first", cat("_q", atom("w", LETTER, 0))
    yield "Latin-1 letters", cat("q\xe9", atom("w", frozenset("\xe9\xe0\xfc\xd6"), 0))
    yield "a digit first", cat("1q", atom("w", LETTER, 0))
    yield "several digits first", cat("123q", atom("w", LETTER, 0))
    for w in ("endpoint", "mapname", "layer1", "class_x", "nullable", "trueish", "auto1", "normals", "in1", "android", "order", "notx", "le_mans", "gridded", "symbols", "points1", "metadata2", "includes", "config1", "ends"):
        yield "the word %s" % w, w


def bare_docs():
    """(name, document with the word as a quoted string, the same with the bare word)"""
    V = DD.vocab()
    ws = list(words())
    seen = 0
    for t in V.S.blocks():
        for k, node in V.S.slots(t):
            alts = V.S.alts(node)
            if not any(n.get("type") == "string" and not any(x in n for x in ("enum", "pattern", "maxLength", "minLength", "format")) for n, p, m in alts):
                continue
            if k == "include":
                continue
            for i in range(4):
                nm, w = ws[(seen * 4 + i) % len(ws)] if i else ws[0]
                if k == "symbol" and isinstance(w, str) and w.upper() in ("IMAGE", "FONT"):
                    continue
                yield "%s.%s %s" % (t.upper(), k.upper(), nm), DD.slot_doc(t, k, shape_str(w), "middle"), DD.slot_doc(t, k, shape_word(w), "middle")
            seen += 1
    for nm, w in ws:
        yield "LAYER.NAME %s" % nm, DD.slot_doc("layer", "name", shape_str(w), "middle"), DD.slot_doc("layer", "name", shape_word(w), "middle")
        yield "CLASS.NAME %s, first" % nm, DD.slot_doc("class", "name", shape_str(w), "first"), DD.slot_doc("class", "name", shape_word(w), "first")
        for kind, parent in (("metadata", "web"), ("validation", "layer"), ("connectionoptions", "layer"), ("values", "scaletoken")):
            for a, b in ((raw_, str_), (str_, raw_), (raw_, raw_)):
                yield "%s pair %s %s" % (kind.upper(), nm, a.__name__ + b.__name__), Block(parent, KVB(kind, [(str_(w), str_(w)), (str_("q2"), str_("z"))])), Block(parent, KVB(kind, [(a(w), b(w)), (raw_("q2"), str_("z"))]))
        for a, b in ((raw_, str_), (str_, raw_), (raw_, raw_)):
            yield "CONFIG %s %s" % (nm, a.__name__ + b.__name__), Block("map", Config(str_(w), str_(w)), Attr("name", shape_str("q"))), Block("map", Config(a(w), b(w)), Attr("name", shape_str("q")))


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    n = 0
    obs = []
    for name, doc in DD.structure():
        for st in styles(25 if thorough else 5, n):
            obs.append(style_ob(name, doc, name, st))
        if not has_include(doc):
            for st in styles(5 if thorough else 1, n * 3 + 1):
                st.name += ", includes expanded"
                obs.append(style_ob(name, doc, name, st, load={"expand_includes": True}))
        n += 1
    chk.add(obs, "structure")
    obs = []
    for t, k, i, nd, m, s in DD.slot_list(abstract=True, rich=True):
        where = "%s.%s/%s" % (t.upper(), k.upper(), s.name)
        for st in styles(10 if thorough else 2, n):
            obs.append(style_ob(where, DD.slot_doc(t, k, s, ("middle", "first", "last")[n % 3]), where, st))
        n += 1
    chk.add(obs, "keyword value")
    obs = []
    for name, a, b in bare_docs():
        for st in styles(5 if thorough else 1, n):
            obs.append(pair_ob(name, (DocIn(a, Opts()), DocIn(b, Opts())), lambda inp, st=st: (surface(inp[0].doc, PLAIN), surface(inp[1].doc, st)), name, "bare word, " + st.name, rule="bare word"))
        n += 1
    chk.add(obs, "bare words")
    # every separator and every comment at every place of a document with every kind of token
    obs = []
    from .c16 import deep_docs

    for name, doc in deep_docs()[1:]:
        for x in list(BLANKS) + comments():
            obs.append(style_ob(name, doc, "%s between all tokens of %s" % (show(x)[:40], name), Style("separator %s" % show(x)[:20], sep=[x])))
        for c in range(5):
            obs.append(style_ob(name, doc, "case %d in %s" % (c, name), Style("case %d" % c, case=c)))
    obs.append(pair_ob("include in a block comment", ("q",), lambda inp: ("LAYER NAME 'q' END", "LAYER\n/*\ninclude 'q.map'\n*/\nNAME 'q' END"), "block comment with a line that starts with INCLUDE", "comment", load={"expand_includes": True}))
    chk.add(obs, "separators")
    return ("For every structural family and every keyword value, the dictionary loaded from the plain rendering and from renderings with other keyword case, blanks, line breaks, comments (bodies unknown), quotes and unquoted words are compared abstractly.")
