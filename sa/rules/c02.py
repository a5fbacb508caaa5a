"""C02: the dictionary loads returns is the documented one."""
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *


def load(it, text, **kw):
    kw.setdefault("expand_includes", False)
    return it.call(it.import_module("mappyfile").ns["loads"], [text], kw)


def judge_for(rule, construct, o):
    def judge(it, inp, p):
        doc, text = inp
        if p.kind == "raise":
            return [Bad(rule, construct, "the document does not load: %s%s" % (p.value.cls.name, show_exc(p)))]
        exp = expected(doc, o)
        s = same(it, exp, p.value)
        if s is True:
            return []
        return [Bad(rule, construct, diff(exp, p.value), s is False)]

    return judge


def show_exc(p):
    a = p.value.attrs
    if "line" in a:
        return " at line %s column %s" % (show(a.get("line")), show(a.get("column")))
    return " (%s)" % ", ".join(show(x)[:120] for x in a.get("args", ()))


class DocIn:
    """a document together with its text: substituting leaves keeps both in step"""

    def __init__(self, doc, o):
        self.doc = doc
        self.o = o

    def __iter__(self):
        return iter((self.doc, render(self.doc, self.o)))

    def __abs_fields__(self):
        out = []

        def go(n):
            if isinstance(n, list):
                for x in n:
                    go(x)
            elif isinstance(n, Block):
                for x in n.items:
                    go(x)
            elif isinstance(n, Attr):
                out.extend(x.val for x in n.shape.lex)
            elif isinstance(n, KVB):
                for a, b in n.pairs:
                    out.extend((a.val, b.val))
            elif isinstance(n, Config):
                out.extend((n.key.val, n.val.val))
            elif isinstance(n, Pairs):
                for a, b in n.pairs:
                    out.extend(x.val for x in a.lex + b.lex)
            elif isinstance(n, Proj) and n.strings:
                out.extend(x.val for x in n.strings)

        go(self.doc)
        return [x for x in out if not isinstance(x, str)]

    def __abs_subst__(self, f):
        def lx(l):
            return Lex(l.kind, f(l.val))

        def val(v):
            if isinstance(v, tuple) and v and v[0] == "enum":
                return v
            return f(v)

        def sh(s):
            return Shape(s.name, [lx(x) for x in s.lex], val(s.value), [(a, val(b) if not isinstance(b, tuple) else b) for a, b in s.out], s.kind)

        def go(n):
            if isinstance(n, list):
                return [go(x) for x in n]
            if isinstance(n, Block):
                return Block(n.type, *[go(x) for x in n.items])
            if isinstance(n, Attr):
                return Attr(n.key, sh(n.shape))
            if isinstance(n, KVB):
                return KVB(n.kind, [(lx(a), lx(b)) for a, b in n.pairs])
            if isinstance(n, Config):
                return Config(lx(n.key), lx(n.val))
            if isinstance(n, Pairs):
                return Pairs(n.kind, [(sh(a), sh(b)) for a, b in n.pairs])
            if isinstance(n, Proj):
                return Proj(None if n.strings is None else [lx(x) for x in n.strings])

        return DocIn(go(self.doc), self.o)

    def show(self):
        return show(render(self.doc, self.o))[:1500]


def ob(name, doc, rule, construct, o=None, **kw):
    o = o or Opts()

    def run(it, inp):
        d, text = inp
        return load(it, text, **kw.get("load", {}))

    return Ob(name, DocIn(doc, o), run, judge_for(rule, construct, o), cython=kw.get("cython", True))


def run(chk):
    thorough = chk.tier == "thorough"
    obs = []
    for t, k, i, n, m, s in DD.slot_list(abstract=True, rich=True):
        where = "%s.%s/%s" % (t.upper(), k.upper(), s.name)
        for pos in (("first", "last", "middle") if thorough else ("middle",)):
            obs.append(ob("%s %s" % (where, pos), DD.slot_doc(t, k, s, pos), "keyword", where))
        if thorough:
            for o in (Opts(quote="'", case="lower"), Opts(case="mixed")):
                obs.append(ob("%s %s" % (where, o.casing), DD.slot_doc(t, k, s, "middle"), "keyword", where, o))
    chk.add(obs, "keyword value")
    obs = []
    for name, doc in DD.structure():
        obs.append(ob(name, doc, "structure", name))
        obs.append(ob(name + " (lower case, single quotes)", doc, "structure", name, Opts(quote="'", case="lower")))
        if thorough:
            obs.append(ob(name + " (pure Python lark)", doc, "structure", name, cython=False))
    chk.add(obs, "structure")
    return ("For every keyword of every block type and every way of writing each schema alternative of its value, and for every "
            "block/child/key-value/CONFIG/PROJECTION/POINTS/repetition structure, the text written by an independent renderer "
            "(leaf strings and numbers unknown) is pushed through the analysed parser and transformer by abstract interpretation and the "
            "resulting dictionary is compared with the documented one.")
