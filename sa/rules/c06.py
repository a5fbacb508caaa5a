"""C06: formatting options never change content."""
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from .. import optsets as OS
from .c02 import DocIn, load, show_exc
from .c01 import dump
from .c16 import deep_docs


def is_block(k, v):
    if isinstance(v, DictV):
        return "__type__" in v.d
    if isinstance(v, ListV):
        if v.items and all(isinstance(x, DictV) and "__type__" in x.d for x in v.items):
            return True
    return k in ("points", "pattern", "projection")


def reorder(v):
    """block-valued keys after the simple keys, the order inside each group kept"""
    if isinstance(v, ListV):
        return ListV([reorder(x) for x in v.items])
    if not isinstance(v, DictV):
        return v
    out = DictV(None)
    out.d["__type__"] = v.d.get("__type__")
    if "__type__" not in v.d:
        del out.d["__type__"]
    for want in (False, True):
        for k, x in v.d.items():
            if k != "__type__" and is_block(k, x) is want:
                out.d[k] = reorder(x)
    return out


def fits(it, a, b):
    """b is a with block-valued keys possibly moved after the simple ones (each object as a whole)"""
    if isinstance(a, ListV) and isinstance(b, ListV):
        if len(a.items) != len(b.items):
            return False
        rs = [fits(it, x, y) for x, y in zip(a.items, b.items)]
        return False if False in rs else None if None in rs else True
    if isinstance(a, DictV) and isinstance(b, DictV):
        ka, kb = list(a.d), list(b.d)
        if len(ka) != len(kb):
            return False
        if "__type__" in a.d:
            ra = list(shallow(a).d)
            if not (same_keys(it, ka, kb) or same_keys(it, ra, kb)):
                return False
            # pair values by key
            r = True
            for k in kb:
                if k not in a.d:
                    return None
                x = fits(it, a.d[k], b.d[k])
                if x is False:
                    return False
                if x is None:
                    r = None
            return r
    return same(it, a, b)


def same_keys(it, a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def shallow(v):
    out = DictV(None)
    if "__type__" in v.d and list(v.d)[0] == "__type__":
        out.d["__type__"] = v.d["__type__"]
    for want in (False, True):
        for k, x in v.d.items():
            if k not in out.d and is_block(k, x) is want:
                out.d[k] = x
    return out


def ob(name, doc, construct, o, rule="options"):
    def run(it, inp):
        it.stage = 0
        text = tuple(inp)[1]
        d = load(it, text)
        plain = load(it, dump(it, d))
        it.stage = 1
        out = dump(it, d, **o)
        it.stage = 2
        it.mid = out
        return plain, out, load(it, out)

    def judge(it, inp, p):
        if p.kind == "raise":
            if it.stage == 0:
                return []
            what = "dumps raises" if it.stage == 1 else "the formatted text does not load:"
            return [Bad(rule, construct, "%s: %s %s%s%s" % (OS.name(o), what, p.value.cls.name, show_exc(p), "; text: " + show(it.mid)[:300] if it.stage == 2 else ""))]
        a, out, b = p.value
        r = fits(it, a, b) if o["separate_complex_types"] else same(it, a, b)
        if r is True:
            return []
        e = reorder(a) if o["separate_complex_types"] else a
        return [Bad(rule, construct, "%s: %s; text: %s" % (OS.name(o), diff(e, b), show(out)[:300]), r is False)]

    return Ob("%s [%s]" % (name, OS.name(o)), DocIn(doc, Opts()), run, judge, max_paths=256)


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    opts = list(OS.all_options())
    obs = []
    for name, doc in deep_docs():
        os_ = opts if thorough else OS.spread(len(opts) // 3 if name == "every kind of line" else len(opts) // 8, len(name))
        for o in os_:
            obs.append(ob(name, doc, name, o))
    chk.add(obs, "option sets")
    obs = []
    k = 0
    for name, doc in DD.structure():
        for o in OS.spread(9 if thorough else 2, k * 2):
            obs.append(ob(name, doc, name, o))
        k += 1
    chk.add(obs, "structure")
    obs = []
    for t, kk, i, n, m, s in DD.slot_list(abstract=True, rich=True):
        where = "%s.%s/%s" % (t.upper(), kk.upper(), s.name)
        for o in OS.spread(4 if thorough else 1, k):
            obs.append(ob(where, DD.slot_doc(t, kk, s, "middle"), where, o))
        k += 1
    chk.add(obs, "keyword value")
    chk.cov["option_sets"] = len(opts)
    return ("For documents with unknown leaves the dictionary loaded from the text printed with an option set is compared with the one loaded from the default text, abstractly: representative documents under the option cross product "
            "(quick: a third of it), every structural family and every keyword value under option sets that walk through the whole space; under separate_complex_types the only accepted change is the stable partition.")
