"""C17: the Mapfile dictionaries behave as case-insensitive insertion-ordered dictionaries.

Every operation of the statement is evaluated abstractly from every shape of state and compared with a reference
dictionary (a list of pairs keyed by the lower-cased keys).  Keys are blocks of characters, so one obligation stands for
every key with that relation to the stored ones.  The state before an operation is arbitrary and the object has no other
state (checked), so the step obligations add up to every history."""
from itertools import permutations
from ..values import *
from ..harness import *

SRC = r'''
import copy, pickle
from mappyfile.ordereddict import CaseInsensitiveOrderedDict, DefaultOrderedDict

OBJ = ("layers", "classes", "styles", "symbols", "labels", "outputformats", "features", "scaletokens", "composites", "joins")

class Absent:
    pass

ABSENT = Absent()

def mk(pairs, factory):
    d = CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict if factory else None)
    for k, v in pairs:
        d[k] = v
    return d

def items(d):
    return [[k, v] for k, v in d.items()]

def state(d):
    f = d.default_factory
    return [type(d) is CaseInsensitiveOrderedDict, f is None or f is CaseInsensitiveOrderedDict, f is None, items(d)]

def ref_find(p, k):
    for i in range(len(p)):
        if p[i][0] == k.lower():
            return i
    return None

def ref_set(p, k, v):
    i = ref_find(p, k)
    if i is None:
        p.append([k.lower(), v])
    else:
        p[i][1] = v

class Err:
    def __init__(self, n):
        self.n = n

def attempt(f, d, k, v, pairs, more):
    try:
        return f(d, k, v, pairs, more)
    except KeyError:
        return "KEYERROR"

def newv(k, factory):
    return [] if k.lower() in OBJ else CaseInsensitiveOrderedDict()

# ---- operation on the real class, operation on the reference: both return the result
def r_getitem(d, k, v, q, m): return d[k]
def s_getitem(p, k, v, q, m, factory):
    i = ref_find(p, k)
    if i is not None:
        return p[i][1]
    if not factory:
        return "KEYERROR"
    x = newv(k, factory)
    p.append([k.lower(), x])
    return x

def r_getitem2(d, k, v, q, m):
    x = d[k]
    return [x is d[k], x]
def s_getitem2(p, k, v, q, m, factory):
    x = s_getitem(p, k, v, q, m, factory)
    return x if x == "KEYERROR" else [True, x]

def r_setitem(d, k, v, q, m): d[k] = v
def s_setitem(p, k, v, q, m, factory): ref_set(p, k, v)

def r_del(d, k, v, q, m): del d[k]
def s_del(p, k, v, q, m, factory):
    i = ref_find(p, k)
    if i is None:
        return "KEYERROR"
    p.pop(i)

def r_in(d, k, v, q, m): return [k in d, k not in d]
def s_in(p, k, v, q, m, factory): return [ref_find(p, k) is not None, ref_find(p, k) is None]

def r_haskey(d, k, v, q, m): return d.has_key(k)
def s_haskey(p, k, v, q, m, factory): return ref_find(p, k) is not None

def r_get(d, k, v, q, m): return d.get(k)
def s_get(p, k, v, q, m, factory):
    i = ref_find(p, k)
    return None if i is None else p[i][1]

def r_getd(d, k, v, q, m): return d.get(k, v)
def s_getd(p, k, v, q, m, factory):
    i = ref_find(p, k)
    return v if i is None else p[i][1]

def r_pop(d, k, v, q, m): return d.pop(k)
def s_pop(p, k, v, q, m, factory):
    i = ref_find(p, k)
    return "KEYERROR" if i is None else p.pop(i)[1]

def r_popd(d, k, v, q, m): return d.pop(k, v)
def s_popd(p, k, v, q, m, factory):
    i = ref_find(p, k)
    return v if i is None else p.pop(i)[1]

def r_popn(d, k, v, q, m): return d.pop(k, None)
def s_popn(p, k, v, q, m, factory):
    i = ref_find(p, k)
    return None if i is None else p.pop(i)[1]

def r_setdefault(d, k, v, q, m): return d.setdefault(k, v)
def s_setdefault(p, k, v, q, m, factory):
    i = ref_find(p, k)
    if i is None:
        p.append([k.lower(), v])
        return v
    return p[i][1]

def r_setdefault1(d, k, v, q, m): return d.setdefault(k)
def s_setdefault1(p, k, v, q, m, factory):
    i = ref_find(p, k)
    if i is None:
        p.append([k.lower(), None])
        return None
    return p[i][1]

def r_update_dict(d, k, v, q, m): return d.update(dict([(a, b) for a, b in q]))
def s_update_dict(p, k, v, q, m, factory):
    for a, b in q:
        ref_set(p, a, b)

def r_update_pairs(d, k, v, q, m): return d.update([(a, b) for a, b in q])
s_update_pairs = s_update_dict

def r_update_ci(d, k, v, q, m): return d.update(mk(q, m))
s_update_ci = s_update_dict

def r_update_none(d, k, v, q, m): return d.update()
def s_update_none(p, k, v, q, m, factory): return None

def r_update_kw(d, k, v, q, m): return d.update(Red=v, lAyers=1)
def s_update_kw(p, k, v, q, m, factory):
    ref_set(p, "Red", v)
    ref_set(p, "lAyers", 1)

def r_update_both(d, k, v, q, m): return d.update(dict([(a, b) for a, b in q]), Red=v)
def s_update_both(p, k, v, q, m, factory):
    s_update_dict(p, k, v, q, m, factory)
    ref_set(p, "Red", v)

def r_keys(d, k, v, q, m): return [list(d.keys()), list(d), len(d), list(d.values())]
def s_keys(p, k, v, q, m, factory): return [[a for a, b in p], [a for a, b in p], len(p), [b for a, b in p]]

def new(d, c):
    "a copy: its own state, and the effect of a differently spelled write, read and delete on it"
    return [c is d, state(c)]

def rs_copy(p, k, v, q, m, factory):
    return [False, [True, True, not factory, [[a, b] for a, b in p]]]

def r_copy(d, k, v, q, m): return new(d, d.copy())
s_copy = rs_copy
def r_copycopy(d, k, v, q, m): return new(d, copy.copy(d))
s_copycopy = rs_copy
def r_deepcopy(d, k, v, q, m): return new(d, copy.deepcopy(d))
s_deepcopy = rs_copy
def r_pickle(d, k, v, q, m): return new(d, pickle.loads(pickle.dumps(d)))
s_pickle = rs_copy

def r_copyset(d, k, v, q, m):
    c = d.copy()
    c[k] = v
    return new(d, c)
def s_copyset(p, k, v, q, m, factory):
    p2 = [[a, b] for a, b in p]
    ref_set(p2, k, v)
    return rs_copy(p2, k, v, q, m, factory)

def r_copyread(d, k, v, q, m):
    c = copy.deepcopy(d)
    x = c[k]
    return [x, new(d, c)]
def s_copyread(p, k, v, q, m, factory):
    p2 = [[a, b] for a, b in p]
    x = s_getitem(p2, k, v, q, m, factory)
    return x if x == "KEYERROR" else [x, rs_copy(p2, k, v, q, m, factory)]

def r_pickleread(d, k, v, q, m):
    c = pickle.loads(pickle.dumps(d))
    x = c[k]
    return [x, new(d, c)]
s_pickleread = s_copyread

def r_copydel(d, k, v, q, m):
    c = copy.copy(d)
    c.pop(k, None)
    return new(d, c)
def s_copydel(p, k, v, q, m, factory):
    p2 = [[a, b] for a, b in p]
    s_popn(p2, k, v, q, m, factory)
    return rs_copy(p2, k, v, q, m, factory)

def r_eq(d, k, v, q, m): return [d == d.copy(), d == copy.deepcopy(d), d == pickle.loads(pickle.dumps(d))]
def s_eq(p, k, v, q, m, factory): return [True, True, True]

def r_child(d, k, v, q, m):
    "what reading an absent key creates is itself a Mapfile dictionary"
    x = d["Zzz"]
    x["AbC"] = v
    return [items(x), d["zZZ"] is x]
def s_child(p, k, v, q, m, factory):
    if not factory:
        return "KEYERROR"
    p.append(["zzz", mk([["abc", v]], False)])
    return [[["abc", v]], True]

def r_clear(d, k, v, q, m):
    d.clear()
    d[k] = v
def s_clear(p, k, v, q, m, factory):
    while p:
        p.pop()
    ref_set(p, k, v)

def run(op, pairs, factory, k, v, q, m):
    d = mk(pairs, factory)
    r = attempt(globals()["r_" + op], d, k, v, q, m)
    p = []
    for a, b in pairs:
        ref_set(p, a, b)
    e = globals()["s_" + op](p, k, v, q, m, factory)
    return [[r, state(d)], [e, [True, True, not factory, p]]]

def construct(how, q, factory):
    f = CaseInsensitiveOrderedDict if factory else None
    if how == "pairs":
        d = CaseInsensitiveOrderedDict(f, [(a, b) for a, b in q])
    elif how == "dict":
        d = CaseInsensitiveOrderedDict(f, dict([(a, b) for a, b in q]))
    elif how == "ci":
        d = CaseInsensitiveOrderedDict(f, mk(q, False))
    elif how == "kw":
        d = CaseInsensitiveOrderedDict(f, Red=1, RED=2, lAyers=3)
        q = [["red", 1], ["red", 2], ["layers", 3]]
    elif how == "both":
        d = CaseInsensitiveOrderedDict(f, [(a, b) for a, b in q], Red=7)
        q = q + [["red", 7]]
    p = []
    for a, b in q:
        ref_set(p, a, b)
    return [state(d), [True, True, not factory, p]]

def deep(factory, v):
    "deepcopy and pickle share no mutable state, at any depth; a shallow copy shares the values"
    inner = mk([["K", v]], factory)
    lst = [inner, 5]
    d = mk([["Layers", lst], ["metadata", inner], ["x", [1, 2]]], factory)
    out = []
    for c in (copy.deepcopy(d), pickle.loads(pickle.dumps(d))):
        out.append([c["layers"] is lst, c["layers"][0] is inner, c["METADATA"] is inner, c["x"] is d["x"], c == d])
        out.append(state(c["layers"][0]))
        c["layers"].append(1)
        c["layers"][0]["K"] = 0
        c["metadata"]["new"] = 1
        c["x"].append(3)
    out.append([len(lst), items(inner), d["x"], len(d)])
    s = d.copy()
    out.append([s["layers"] is lst, s["metadata"] is inner, s == d])
    exp = []
    for i in (0, 1):
        exp.append([False, False, False, False, True])
        exp.append([True, True, not factory, [["k", v]]])
    exp.append([2, [["k", v]], [1, 2], 3])
    exp.append([True, True, True])
    return [out, exp]
'''

OPS = [n[3:] for n in (line.split("(")[0].replace("def ", "") for line in SRC.splitlines() if line.startswith("def r_"))]
OPS = [line.split("(")[0][len("def r_"):] for line in SRC.splitlines() if line.startswith("def r_")]

LAT = AStr([Atom("name", frozenset("bcdBCD"), 1)])
UNI = AStr([Atom("word", frozenset("\xc0\xe9\xdf\xd7w"), 1)])
OTHER = AStr([Atom("other", frozenset("xyzXYZ"), 1)])


def spell(k, how):
    """other spellings of the same key"""
    if isinstance(k, str):
        return {"same": k, "upper": k.upper(), "mixed": "".join(c.upper() if i % 2 else c for i, c in enumerate(k))}[how]
    if how == "same":
        return k
    return AStr([p.transform("upper") for p in k.parts])


def pl(items):
    return ListV([ListV([k, v]) for k, v in items])


def value(kind, n):
    if kind == "sym":
        return Sym("v%d" % n, "int")
    if kind == "list":
        return ListV([Sym("v%d" % n, "int"), AStr([Atom("t%d" % n, WORD, 0)])])
    if kind == "str":
        return AStr([Atom("t%d" % n, WORD, 0)])
    return None


def fresh_copy(v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, ListV):
        if id(v) not in memo:
            memo[id(v)] = ListV([fresh_copy(x, memo) for x in v.items], v.kind)
        return memo[id(v)]
    return v


def judge_pair(rule, construct):
    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad(rule, construct, "%s escapes: %s" % (p.value.cls.name, show(p.value)))]
        got, exp = p.value.items if isinstance(p.value, ListV) else p.value
        s = same(it, exp, got)
        if s is True:
            return []
        return [Bad(rule, construct, "got %s, reference dictionary gives %s" % (show(got)[:400], show(exp)[:400]), s is False)]

    return judge


def ob(name, fn, args, rule, construct):
    def run(it, inp):
        m = it.load_source("scenario-c17", SRC)
        return it.call(m.ns[fn], [fresh_copy(a) for a in inp])

    return Ob(name, args, run, judge_pair(rule, construct), max_paths=40)


def run(chk):
    obs = []
    keys = [LAT, UNI, "layers"]
    states = [()]
    for n in (1, 2, 3):
        states += list(permutations(keys, n))
    for op in OPS:
        for st in states:
            for factory in (True, False):
                for k in keys + [OTHER, "Styles"]:
                    how_set = ("upper", "mixed") if k == "layers" else ("upper",)
                    if op.startswith("update") or op in ("keys", "copy", "copycopy", "deepcopy", "pickle", "eq", "update_none", "child"):
                        if k is not LAT:
                            continue
                    if chk.tier == "quick" and len(st) == 3 and st != tuple(keys) and k not in (LAT, OTHER):
                        continue
                    for how in how_set:
                        pairs = pl([(spell(x, "same" if i else "upper") if isinstance(x, AStr) else x, value(("sym", "list", "str")[i], i)) for i, x in enumerate(st)])
                        qs = [pl([(spell(LAT, "upper"), value("str", 7)), ("LAYERS", value("sym", 8)), (OTHER, value("list", 9)), (LAT, value("sym", 10))])] if op.startswith("update") else [pl([])]
                        for q in qs:
                            args = [op, pairs, factory, spell(k, how), value("str", 5) if op != "setdefault" else value("list", 5), q, bool(len(st) % 2)]
                            obs.append(ob("%s on {%s}%s key %s" % (op, ", ".join(map(show, st)), " with a factory" if factory else "", show(args[3])), "run", args, "operation", "CaseInsensitiveOrderedDict.%s%s" % (op, "" if factory else " (no factory)")))
    for how in ("pairs", "dict", "ci", "kw", "both"):
        for factory in (True, False):
            for q in (pl([]), pl([(spell(LAT, "upper"), value("str", 1)), (OTHER, value("sym", 2)), (LAT, value("list", 3)), ("Layers", value("sym", 4))]), pl([("B", 1), ("a", 2), ("b", 3), ("A", None)])):
                obs.append(ob("construct from %s %s" % (how, show(q)), "construct", [how, q, factory], "construction", "CaseInsensitiveOrderedDict(%s)" % how))
    for factory in (True, False):
        obs.append(ob("deep copies share nothing", "deep", [factory, value("str", 1)], "sharing", "CaseInsensitiveOrderedDict.__deepcopy__/__reduce__"))
    chk.add(obs, "operation")
    # reading a missing key of every object-list name
    obs = []
    for k in ("layers", "classes", "styles", "symbols", "labels", "outputformats", "features", "scaletokens", "composites", "joins"):
        for op in ("getitem2", "copyread", "pickleread"):
            obs.append(ob("%s of missing %s" % (op, k), "run", [op, pl([("a", 1)]), True, spell(k, "mixed"), 0, pl([]), True], "object list", k))
    chk.add(obs, "object list")
    from . import c17_docs

    c17_docs.add(chk)
    return ("Each operation of the case-insensitive dictionary is interpreted abstractly from every state over up to three keys "
            "(keys are character blocks, including non-ASCII letters, in any spelling) and its result, the items, the class and "
            "the factory afterwards are compared with a reference list of pairs; an instance has no state besides its items and "
            "default_factory, so the step obligations compose to any history. A second rule checks that every dictionary "
            "object loads builds is of that class with that factory.")
