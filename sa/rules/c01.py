"""C01: loads -> dumps -> loads gives the same content."""
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from ..ops import strnum
from .c02 import DocIn, load, show_exc


def dump(it, d, **kw):
    return it.call(it.import_module("mappyfile").ns["dumps"], [d], kw)


def relax(it, V, doc, v1, v2):
    """v1 with the changes the property allows replaced by what v2 shows (a copy)"""
    if isinstance(doc, list):
        if len(doc) == 1:
            return relax(it, V, doc[0], v1, v2)
        if not (isinstance(v1, ListV) and isinstance(v2, ListV) and len(v1.items) == len(v2.items) == len(doc)):
            return v1
        return ListV([relax(it, V, d, a, b) for d, a, b in zip(doc, v1.items, v2.items)])
    return relax_obj(it, V, v1, v2)


def enum_words(V, t, k):
    """the words that count as enumerated values of a slot"""
    out = set()
    try:
        alts = V.S.alts(V.S.props(t)[k])
    except Exception:
        return out
    for n, p, m in alts:
        for w in n.get("enum", ()):
            if isinstance(w, str):
                out.add(w.lower())
        if n.get("type") == "array" and isinstance(n.get("items"), dict):
            for w in V.S.deref(n["items"]).get("enum", ()):
                if isinstance(w, str):
                    out.add(w.lower())
    return out


def stringy(V, t, k):
    """does the schema type the keyword as a string (no numeric alternative)?"""
    try:
        alts = V.S.alts(V.S.props(t)[k])
    except Exception:
        return False
    tys = {n.get("type") for n, p, m in alts}
    return "string" in tys and not tys & {"integer", "number"}


def relax_val(it, V, t, k, a, b):
    if isinstance(a, DictV) and isinstance(b, DictV):
        return relax_obj(it, V, a, b)
    if isinstance(a, ListV) and isinstance(b, ListV) and len(a.items) == len(b.items):
        return ListV([relax_val(it, V, t, k, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, str) and isinstance(b, str) and a != b and a.lower() == b.lower() and a.lower() in enum_words(V, t, k):
        return b
    if isinstance(a, (int, float, Sym, App)) and not isinstance(a, bool) and isinstance(b, (str, AStr)) and stringy(V, t, k):
        s = it.str_of(a)
        if s == b:
            return b
    return a


def relax_obj(it, V, a, b):
    if not (isinstance(a, DictV) and isinstance(b, DictV)):
        return a
    t = a.d.get("__type__")
    out = DictV(None)
    for k, x in a.d.items():
        out.d[k] = relax_val(it, V, t, k, x, b.d[k]) if k in b.d else x
    return out


def judge_for(rule, construct):
    def judge(it, inp, p):
        doc, text = inp
        if p.kind == "raise":
            st = getattr(it, "stage", 0)
            if st == 0:
                return []  # not accepted by loads: outside this property (see C02, C19)
            what = ("dumps raises %s%s", "the written text does not load: %s%s")[st - 1] % (p.value.cls.name, show_exc(p))
            if st == 2:
                what += "; text written: " + show(it.mid)[:300]
            return [Bad(rule, construct, what)]
        v1, out, v2 = p.value
        exp = relax(it, DD.vocab(), doc, v1, v2)
        s = same(it, exp, v2)
        if s is True:
            return []
        return [Bad(rule, construct, diff(exp, v2) + "; text written: " + show(out)[:300], s is False)]

    return judge


def run_rt(it, text, load_kw=None, dump_kw=None):
    it.stage = 0
    v1 = load(it, text, **(load_kw or {}))
    it.stage = 1
    out = dump(it, v1, **(dump_kw or {}))
    it.stage = 2
    it.mid = out
    v2 = load(it, out, **(load_kw or {}))
    it.stage = 3
    return (v1, out, v2)


def ob(name, doc, rule, construct, o=None, **kw):
    o = o or Opts()
    return Ob(name, DocIn(doc, o), lambda it, inp: run_rt(it, tuple(inp)[1], kw.get("load"), kw.get("dump")), judge_for(rule, construct), cython=kw.get("cython", True), max_paths=256)


def number_strings():
    """numbers written for keywords the schemas type as strings"""
    V = DD.vocab()
    for t in V.S.blocks():
        for k, node in V.S.slots(t):
            if stringy(V, t, k) and any(n.get("type") == "string" and not any(x in n for x in ("enum", "pattern", "maxLength")) for n, p, m in V.S.alts(node)):
                if k in REPEATED:
                    continue
                yield t, k, shape_int()
                yield t, k, shape_float()
                yield t, k, shape_int(neg=True, name="negative integer")


def run(chk):
    thorough = chk.tier == "thorough"
    obs = []
    for t, k, i, n, m, s in DD.slot_list(abstract=True, rich=True):
        where = "%s.%s/%s" % (t.upper(), k.upper(), s.name)
        for pos in (("first", "last", "middle") if thorough else ("middle",)):
            obs.append(ob("%s %s" % (where, pos), DD.slot_doc(t, k, s, pos), "keyword", where))
        if thorough:
            obs.append(ob("%s single quotes, lower case" % where, DD.slot_doc(t, k, s, "middle"), "keyword", where, Opts(quote="'", case="lower")))
    for t, k, s in number_strings():
        where = "%s.%s/%s in a string keyword" % (t.upper(), k.upper(), s.name)
        obs.append(ob(where, DD.slot_doc(t, k, s, "middle"), "keyword", where))
    chk.add(obs, "keyword value")
    obs = []
    for name, doc in DD.structure():
        obs.append(ob(name, doc, "structure", name))
        if thorough:
            obs.append(ob(name + " (lower case, single quotes)", doc, "structure", name, Opts(quote="'", case="lower")))
            obs.append(ob(name + " (pure Python lark)", doc, "structure", name, cython=False))
    chk.add(obs, "structure")
    return ("For every keyword of every block type and every way of writing each schema alternative of its value, and for every structural "
            "document family, unknown text/number leaves are pushed by abstract interpretation through loads, dumps and loads again; the two dictionaries are compared "
            "up to the two allowed differences.")
