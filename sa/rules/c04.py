"""C04: formatting is a deterministic normal form."""
import random
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from .. import optsets as OS
from .. import exprs as X
from .c02 import DocIn, load, show_exc
from .c01 import dump, number_strings
from .c16 import deep_docs


def ob(name, doc, construct, o, opts=None, rule="normal form", **kw):
    def run(it, inp):
        it.stage = 0
        d = load(it, tuple(inp)[1])
        t = dump(it, d, **o)
        it.t = t
        it.stage = 1
        again = dump(it, d, **o)
        it.stage = 2
        d1 = load(it, t)
        it.stage = 3
        t2 = dump(it, d1, **o)
        it.stage = 4
        d2 = load(it, t2)
        d1 = load(it, t)
        return t, again, d1, t2, d2

    def judge(it, inp, p):
        if p.kind == "raise":
            if it.stage == 0:
                return []
            what = ("", "printing the same dictionary again raises", "the printed text does not load:", "printing the loaded text again raises", "the text printed second does not load:")[it.stage]
            return [Bad(rule, construct, "%s: %s %s%s; text: %s" % (OS.name(o), what, p.value.cls.name, show_exc(p), show(it.t)[:300]))]
        t, again, d1, t2, d2 = p.value
        bads = []
        for a, b, what in ((t, again, "printing the same dictionary twice gives different texts"), (t, t2, "formatting the formatted text changes it")):
            r = same(it, a, b)
            if r is not True:
                bads.append(Bad(rule, construct, "%s: %s: %s" % (OS.name(o), what, first_diff(a, b)), r is False))
        if not bads:
            r = same(it, d1, d2)
            if r is not True:
                bads.append(Bad(rule, construct, "%s: the second text loads differently: %s" % (OS.name(o), diff(d1, d2)), r is False))
        return bads

    return Ob("%s [%s]" % (name, OS.name(o)), DocIn(doc, opts or Opts()), run, judge, max_paths=256, **kw)


def first_diff(a, b):
    a, b = show(a), show(b)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "...%s, then ...%s" % (a[max(0, i - 40):i + 60], b[max(0, i - 40):i + 60])


def ordered(name, doc, construct):
    """the text does not depend on the iteration order of sets (hash randomisation)"""
    def mk(rev):
        def run(it, inp):
            return dump(it, load(it, tuple(inp)[1]))

        return run

    def run(it, inp):
        it.set_rev = False
        a = dump(it, load(it, tuple(inp)[1]))
        it.set_rev = True
        try:
            b = dump(it, load(it, tuple(inp)[1]))
        finally:
            it.set_rev = False
        return a, b

    def judge(it, inp, p):
        if p.kind == "raise":
            return []
        a, b = p.value
        r = same(it, a, b)
        return [] if r is True else [Bad("determinism", construct, "the text depends on the iteration order of a set: " + first_diff(a, b), r is False)]

    return Ob(name, DocIn(doc, Opts()), run, judge)


def number_forms():
    for t in ("007", "+3", "-0", "2.50", ".5", "5.", "1e5", "1.5E3", "-1e-7", "00.10", "123456789012345678", "1e16", "0.1e1", "-0.0"):
        yield t, Shape("number " + t, [raw_(t)], None, [], "num")


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    opts = list(OS.all_options())
    obs = []
    for name, doc in deep_docs():
        os_ = opts if thorough else OS.spread(len(opts) // 8 if name == "every kind of line" else len(opts) // 16, len(name))
        for i, o in enumerate(os_):
            obs.append(ob(name, doc, name, o, Opts(case=("upper", "lower", "mixed")[i % 3]) if "case" in Opts.__init__.__code__.co_varnames else None))
    chk.add(obs, "option sets")
    obs = []
    k = 0
    for name, doc in DD.structure():
        for o in OS.spread(9 if thorough else 1, k * 2):
            obs.append(ob(name, doc, name, o, Opts(quote="'" if k % 2 else '"', case="mixed" if k % 3 else "lower")))
        obs.append(ordered(name + " (set order)", doc, name))
        k += 1
    chk.add(obs, "structure")
    obs = []
    for t, kk, i, n, m, s in DD.slot_list(abstract=True, rich=True):
        where = "%s.%s/%s" % (t.upper(), kk.upper(), s.name)
        for o in OS.spread(4 if thorough else 1, k):
            obs.append(ob(where, DD.slot_doc(t, kk, s, "middle"), where, o, Opts(quote="'" if k % 2 else '"', case="mixed" if k % 3 else "lower")))
        k += 1
    for t, kk, s in number_strings():
        where = "%s.%s/%s in a string keyword" % (t.upper(), kk.upper(), s.name)
        for o in OS.spread(1, k):
            obs.append(ob(where, DD.slot_doc(t, kk, s, "middle"), where, o))
        k += 1
    for nm, s in number_forms():
        for t, kk in (("map", "angle"), ("layer", "opacity"), ("style", "width"), ("layer", "group"), ("class", "name"), ("layer", "maxscaledenom"), ("web", "template"), ("label", "size")):
            for o in OS.spread(1, k):
                obs.append(ob("%s.%s %s" % (t, kk, nm), Block(t, Attr(kk, s)), "%s.%s %s" % (t.upper(), kk.upper(), nm), o))
            k += 1
        for doc in (Block("feature", Pairs("points", [(s, shape_int("1")), (shape_int("2"), s)])), Block("style", Pairs("pattern", [(s, s)])), Block("map", Attr("extent", tuple_shape([s, s, s, s], "extent")))):
            for o in OS.spread(1, k):
                obs.append(ob("%s %s" % (doc.type, nm), doc, "%s numbers %s" % (doc.type, nm), o))
            k += 1
    rng = random.Random(chk.seed)
    from . import c10

    for i in range(200 if not thorough else 1500):
        n = c10.random_tree(rng, rng.randrange(1, 7), c10.bind)
        e = cat("(", X.spell(n, rng.choice(("", " "))), ")")
        s = Shape("expression", [raw_(e)], e, [], "expr")
        for o in OS.spread(1, k):
            obs.append(ob("expression %d" % i, Block("class", Attr("expression", s)), "CLASS.EXPRESSION", o))
        k += 1
    chk.add(obs, "keyword value")
    chk.cov["option_sets"] = len(opts)
    return ("For documents with unknown leaves the abstract text printed with an option set is loaded and printed again: the two texts must be the same abstract text and load to the same dictionary; the same dictionary printed twice must give one text, "
            "and no text may depend on the iteration order of a set.")
