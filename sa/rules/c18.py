"""C18: update / find* against an independent reference, over shapes of d1 x d2 with unknown leaves."""
from ..values import *
from ..harness import *

SRC = r'''
import copy
import mappyfile
from mappyfile.ordereddict import CaseInsensitiveOrderedDict

def conv(v, ci):
    "nested pair lists -> dictionaries: ['D', [[k, v]...]]; everything else as it is"
    if isinstance(v, list):
        if len(v) == 2 and isinstance(v[0], str) and v[0] == "%D%":
            d = CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict) if ci else {}
            for k, x in v[1]:
                d[k] = conv(x, ci)
            return d
        return [conv(x, ci) for x in v]
    return v

def plain(v):
    "dictionaries as lists of pairs, so that class differences do not matter"
    if isinstance(v, dict):
        return ["%D%", [[k, plain(v.get(k))] for k in list(v.keys())]]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v

# ------------------------------------------------- reference: on pair lists
def isd(v):
    return isinstance(v, list) and len(v) == 2 and isinstance(v[0], str) and v[0] == "%D%"

def look(pairs, k, ci):
    for i in range(len(pairs)):
        if pairs[i][0] == (k.lower() if ci else k):
            return i
    return None

def deleted(v):
    if not isd(v):
        return False
    for k, x in v[1]:
        if k == "__delete__":
            return bool(x)
    return False

def ref_update(a, b, ow, ci):
    "a, b: reference dictionaries; returns the merged one"
    pairs = [[k, v] for k, v in a[1]]
    for k, v in b[1]:
        i = look(pairs, k, ci)
        if isinstance(v, str) and v == "__delete__" or deleted(v):
            if i is not None:
                pairs.pop(i)
            continue
        if isd(v):
            new = ref_update(pairs[i][1] if i is not None else ["%D%", []], v, ow, ci if i is not None else False)
        elif isinstance(v, list) and v and all([x is None or isd(x) for x in v]):
            old = pairs[i][1] if i is not None else []
            new = []
            for j in range(max(len(old), len(v))):
                o = old[j] if j < len(old) else None
                n = v[j] if j < len(v) else None
                if n is None:
                    new.append(o if o is not None else ["%D%", []])
                elif deleted(n):
                    pass
                else:
                    new.append(ref_update(o if o is not None else ["%D%", []], n, ow, ci if o is not None else False))
        else:
            if i is not None and not ow:
                continue
            new = v
        if i is None:
            pairs.append([k.lower() if ci else k, new])
        else:
            pairs[i][1] = new
    return ["%D%", pairs]

def run_update(a, b, ow, ci, ci2):
    d1 = conv(a, ci)
    d2 = conv(b, ci2)
    r = mappyfile.update(d1, d2, ow) if ow is not None else mappyfile.update(d1, d2)
    return [[r is d1, plain(r)], [True, ref_update(lowkeys(a) if ci else a, lowkeys(b) if ci2 else b, ow is not False, ci)]]

def lowkeys(v):
    if isd(v):
        return ["%D%", [[k.lower(), lowkeys(x)] for k, x in v[1]]]
    if isinstance(v, list):
        return [lowkeys(x) for x in v]
    return v

# ------------------------------------------------- find helpers
def has(item, key):
    for k, v in item[1]:
        if k == key.lower():
            return True
    return False

def val(item, key):
    for k, v in item[1]:
        if k == key.lower():
            return v

def idx(items, x):
    for i in range(len(items)):
        if items[i] is x:
            return i
    return None

def run_find(items, key, value, ci):
    lst = [conv(x, ci) for x in items]
    r = mappyfile.find(lst, key, value)
    exp = None
    for i in range(len(items)):
        if has(items[i], key) and val(items[i], key) == value:
            exp = i
            break
    return [[None if r is None else idx(lst, r), [plain(x) for x in lst]], [exp, items]]

def run_findall(items, key, value, ci):
    lst = [conv(x, ci) for x in items]
    r = mappyfile.findall(lst, key, value)
    exp = []
    vals = value if isinstance(value, (list, tuple)) else [value]
    for i in range(len(items)):
        if has(items[i], key) and any([val(items[i], key) == v for v in vals]):
            exp.append(i)
    return [[isinstance(r, list), [idx(lst, x) for x in r], [plain(x) for x in lst]], [True, exp, items]]

def run_findunique(items, key, order, ci):
    lst = [conv(x, ci) for x in items]
    r = mappyfile.findunique(lst, key)
    exp = []
    for v in order:
        if any([has(x, key) and val(x, key) == v for x in items]) and v not in exp:
            exp.append(v)
    return [[isinstance(r, list), [x for x in r], [plain(x) for x in lst]], [True, exp, items]]

def run_findkey(a, keys, ci):
    d = conv(a, ci)
    r = mappyfile.findkey(d, *keys)
    e = d
    for k in keys:
        if isinstance(e, dict):
            e = e.get(k.lower() if ci else k)
        else:
            e = e[k]
    return [[r is e or not isinstance(e, (dict, list)), plain(r), plain(d)], [True, plain(e), a]]

def run_findkey_missing(a, keys, ci):
    "a path that does not exist: whatever the outcome, the dictionary stays as it was"
    d = conv(a, ci)
    try:
        mappyfile.findkey(d, *keys)
    except (KeyError, IndexError):
        pass
    return [plain(d), a]
'''


def D(*pairs):
    return ListV(["%D%", ListV([ListV([k, v]) for k, v in pairs])])


def L(*xs):
    return ListV(list(xs))


def I(n):
    return Sym("n_" + n, "int")


def T(n):
    # leaves that start with a letter different from '_': never the delete marker
    return AStr([Atom("t_" + n, WORD - frozenset("_"), 1)])


def cp(v):
    if isinstance(v, ListV):
        return ListV([cp(x) for x in v.items])
    return v


def judge(rule, construct):
    def f(it, inp, p):
        if p.kind == "raise":
            return [Bad(rule, construct, "%s(%s) escapes" % (p.value.cls.name, ", ".join(map(show, p.value.attrs.get("args", ())))))]
        got, exp = p.value.items
        s = same(it, exp, got)
        if s is True:
            return []
        return [Bad(rule, construct, "got %s, expected %s" % (show(got)[:500], show(exp)[:500]), s is False)]

    return f


def ob(name, fn, args, rule, construct):
    def run(it, inp):
        m = it.load_source("scenario-c18", SRC)
        return it.call(m.ns[fn], [cp(a) for a in inp])

    return Ob(name, args, run, judge(rule, construct), max_paths=32)


def old_values():
    return {
        "absent": None, "int": I("old"), "text": T("old"), "numbers": L(I("o1"), I("o2")), "False": False, "None": "%NONE%",
        "dict": D(("a", I("oa")), ("b", T("ob"))), "deep": D(("a", D(("x", I("ox")), ("y", I("oy")))), ("c", L(D(("p", I("op")))))),
        "empty dict": D(), "objs0": L(), "objs1": L(D(("a", I("oa0")), ("b", I("ob0")))), "objs2": L(D(("a", I("oa0"))), D(("a", I("oa1")), ("c", T("oc1")))),
        "objs3": L(D(("a", I("oa0"))), D(("a", I("oa1"))), D(("a", I("oa2")))),
    }


DEL = D(("__delete__", True))


def new_values():
    anyold = ("absent", "int", "text", "numbers", "False", "None", "dict", "deep", "objs0", "objs1", "objs2", "objs3", "empty dict")
    dicts = ("absent", "dict", "deep", "empty dict")
    objs = ("absent", "objs0", "objs1", "objs2", "objs3")
    return {
        "int": (I("new"), anyold), "text": (T("new"), anyold), "False": (False, anyold), "zero": (0, anyold), "empty text": ("", anyold), "None": ("%NONE%", anyold),
        "numbers": (L(I("m1"), I("m2")), anyold), "texts": (L(T("m1")), anyold), "marker": ("__delete__", anyold),
        "dict": (D(("a", I("na"))), dicts), "dict2": (D(("z", I("nz")), ("b", T("nb")), ("a", I("na"))), ("absent", "dict", "empty dict")), "dict delete key": (D(("a", "__delete__"), ("n", I("nn"))), dicts),
        "dict delete absent key": (D(("gone", "__delete__")), dicts), "dict delete absent object": (D(("gone", DEL), ("n", I("nn"))), dicts),
        "dict delete": (DEL, anyold), "dict delete with more": (D(("a", 1), ("__delete__", True)), anyold),
        "deep": (D(("a", D(("y", I("ny")), ("w", I("nw")))), ("c", L(D(("p", I("np")), ("q", 1)), D(("p", I("nq")))))), ("absent", "deep", "empty dict")),
        "deep delete": (D(("a", DEL), ("c", L(DEL))), ("absent", "deep", "empty dict")), "deep delete key": (D(("a", D(("x", "__delete__")))), ("deep",)),
        "deep none": (D(("c", L("%NONE%", D(("p", I("np")))))), ("deep",)),
        "objs": (L(D(("a", I("na0")), ("d", I("nd")))), objs), "objs skip": (L("%NONE%", D(("a", I("na1")))), ("objs1", "objs2", "objs3")),
        "objs skip2": (L("%NONE%", "%NONE%", D(("z", T("nz")))), ("objs2", "objs3")), "objs delete": (L(DEL), objs), "objs delete2": (L("%NONE%", DEL, D(("a", I("na2")))), ("objs1", "objs2", "objs3")),
        "objs all": (L(D(("a", I("na0"))), D(("b", I("nb1"))), D(("a", I("na2"))), D(("n", I("nn3")))), objs), "objs del key": (L(D(("a", "__delete__"), ("b", "__delete__"))), objs),
        "objs del first and last": (L(DEL, "%NONE%", DEL), ("objs3",)), "objs empty patch": (L(D()), ("objs1", "objs2")), "objs none": (L("%NONE%"), ("objs1", "objs2")),
        "objs same": (L(D(("a", I("x"))), D(("a", I("x")))), objs),
    }


def none(v):
    """the %NONE% place holder stands for None inside pair lists"""
    if isinstance(v, ListV):
        return ListV([none(x) for x in v.items])
    return None if isinstance(v, str) and v == "%NONE%" else v


def run(chk):
    olds, news = old_values(), new_values()
    obs = []
    for on, o in olds.items():
        for nn, (n, allowed) in news.items():
            if on not in allowed:
                continue
            for ow in (True, False, None):
                for ci in (True, False):
                    for key in ("k", "K"):
                        if key == "K" and not ci:
                            continue
                        if chk.tier == "quick" and (key == "K") != (ow is None) and ci:
                            continue
                        before = [("first", I("f"))] + ([] if on == "absent" else [("k", o)]) + [("last", D(("u", T("u"))))]
                        a = none(D(*before))
                        for b in (D((key, n)), D(("other", I("q")), (key, n), ("first", I("g")))):
                            obs.append(ob("update %s with %s overwrite=%s %s %s" % (on, nn, ow, "Mapfile dict" if ci else "dict", key), "run_update", [a, none(b), ow, ci, False], "update", "update: d1 %s, d2 %s, overwrite=%s" % (on, nn, ow)))
    # both arguments Mapfile dictionaries, patch with several keys, empty patch, empty target
    for ow in (True, False):
        for ci in (True, False):
            for ci2 in (True, False):
                for a, b in ((D(), D()), (D(("k", I("o"))), D()), (D(), D(("k", I("n")), ("m", D(("x", I("x")))))), (D(("k", D(("a", I("a")))), ("l", L(D(("a", 1))))), D(("l", L(D(("b", I("b"))), DEL, D(("c", 1)))), ("k", DEL), ("n", "__delete__")))):
                    obs.append(ob("update %s with %s" % (show(a), show(b)), "run_update", [a, b, ow, ci, ci2], "update", "update: combined patch"))
    chk.add(obs, "update")

    # ---------------------------------------------------------------- find helpers
    g1, g2 = AStr([Atom("g1", frozenset("abc"), 1)]), AStr([Atom("g2", frozenset("xyz"), 1)])
    longer = AStr([*g1.parts, "s"])
    x, y = I("x"), T("y")
    lists = {
        "empty": [], "one": [D(("name", y), ("group", g1))], "missing first": [D(("name", y)), D(("group", g1)), D(("group", g2))],
        "two equal": [D(("group", g2)), D(("group", g1)), D(("name", y), ("group", g1))], "prefix": [D(("group", longer)), D(("group", g1))], "longer only": [D(("group", longer))],
        "all missing": [D(("name", y)), D()], "empty text": [D(("group", "")), D(("group", g1))], "None value": [D(("group", None)), D(("group", g1))],
    }
    obs = []
    for ln, lst in lists.items():
        for val in (g1, g2, longer, ""):
            for key in ("group", "GROUP", "Group"):
                for ci in (True, False):
                    if key == "Group" and chk.tier == "quick":
                        continue
                    obs.append(ob("find %s in %s" % (show(val), ln), "run_find", [ListV(lst), key, val, ci], "find", "find: %s" % ln))
                    obs.append(ob("findall %s in %s" % (show(val), ln), "run_findall", [ListV(lst), key, val, ci], "findall", "findall of a value: %s" % ln))
        for vals in (L(g1, g2), L(g2), L(), L(longer, ""), (g1, g2)):
            for ci in (True, False):
                obs.append(ob("findall one of %s in %s" % (show(vals), ln), "run_findall", [ListV(lst), "group", vals, ci], "findall", "findall of several values: %s" % ln))
        for ci in (True, False):
            if ln != "empty text":
                obs.append(ob("findunique in %s" % ln, "run_findunique", [ListV(lst), "group", L(g1, g2) if ln != "prefix" else L(g1, longer), ci], "findunique", "findunique: %s" % ln) if ln not in ("longer only", "prefix", "missing first", "two equal") else ob("findunique in %s" % ln, "run_findunique", [subst(ListV(lst), {"g1": "road", "g2": "zone", "y": "q"}), "GROUP", L("road", "roads", "zone"), ci], "findunique", "findunique: %s" % ln))
    nums = {
        "numbers": [D(("n", 5)), D(("n", 0)), D(("m", 1)), D(("n", 5)), D(("n", -3))], "floats": [D(("n", 2.5)), D(("n", 0)), D(("n", 10))],
        "flags": [D(("n", False)), D(("m", 1)), D(("n", True))],
    }
    for ln, lst in nums.items():
        for val in (5, 0, -3, 2.5, 7, False, True):
            for ci in (True, False):
                obs.append(ob("find %s in %s" % (val, ln), "run_find", [ListV(lst), "N", val, ci], "find", "find: %s" % ln))
                obs.append(ob("findall %s in %s" % (val, ln), "run_findall", [ListV(lst), "n", val, ci], "findall", "findall of a value: %s" % ln))
        for ci in (True, False):
            obs.append(ob("findall several numbers in %s" % ln, "run_findall", [ListV(lst), "n", L(0, 5), ci], "findall", "findall of several values: %s" % ln))
            obs.append(ob("findunique in %s" % ln, "run_findunique", [ListV(lst), "N", L(-3, 0, 2.5, 5, 10) if ln != "flags" else L(False, True), ci], "findunique", "findunique: %s" % ln))
    lists2 = [D(("color", L(1, 2, 3))), D(("color", L(1, 2))), D(("x", 1)), D(("color", L(1, 2, 3)))]
    for ci in (True, False):
        obs.append(ob("findunique of list values", "run_findunique", [ListV(lists2), "color", L(L(1, 2), L(1, 2, 3)), ci], "findunique", "findunique: list values"))
        obs.append(ob("find a list value", "run_find", [ListV(lists2), "color", L(1, 2), ci], "find", "find: list values"))
    words = [D(("t", "road")), D(("t", "River")), D(("t", "road")), D(("t", "area")), D(("t", "10")), D(("t", "9"))]
    for ci in (True, False):
        obs.append(ob("findunique is sorted", "run_findunique", [ListV(words), "T", L("10", "9", "River", "area", "road"), ci], "findunique", "findunique: order"))
    doc = D(("name", y), ("layers", L(D(("name", g1), ("classes", L(D(("name", x), ("styles", L()))))), D(("name", g2)))), ("web", D(("metadata", D(("k", y))))))
    for keys in ((), ("name",), ("layers",), ("layers", 0), ("layers", 1, "name"), ("layers", -1, "name"), ("layers", 0, "classes", 0, "name"), ("layers", 0, "classes", 0, "styles"), ("web", "metadata", "k"), ("web",)):
        for ci in (True, False):
            obs.append(ob("findkey %s" % (keys,), "run_findkey", [doc, ListV(list(keys)), ci], "findkey", "findkey: %s" % ("/".join(map(str, keys)) or "no keys")))
        obs.append(ob("findkey %s, upper case" % (keys,), "run_findkey", [doc, ListV([k.upper() if isinstance(k, str) else k for k in keys]), True], "findkey", "findkey: %s" % ("/".join(map(str, keys)) or "no keys")))
    for keys in (("nothing",), ("symbols",), ("web", "validation"), ("layers", 0, "zzz"), ("layers", 1, "classes")):
        for ci in (True, False):
            obs.append(ob("findkey of a missing %s" % (keys,), "run_findkey_missing", [doc, ListV(list(keys)), ci], "findkey", "findkey: missing path"))
    chk.add(obs, "find helpers")
    return ("update and the find helpers are interpreted abstractly on every combination of the shapes a d1 value and a d2 value can "
            "take (scalars, texts, number lists, dictionaries, lists of objects of length 0-3, delete markers, None place holders), "
            "with unknown leaves, both overwrite modes, plain and Mapfile dictionaries; the returned value and the argument afterwards "
            "are compared with an independent reference merge / search.")
