"""Models of the Python builtins and of the library functions the analysed package uses (or plausibly could use)."""
from __future__ import annotations
import builtins as _b
import json as _json
import os as _os
import posixpath
from .values import *
from .ops import is_num, raw, concrete, OrdSym, ABC, strnum
from . import strings as S

# ======================================================================= string methods


def _arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def _need_str(it, v, what):
    v = raw(v)
    if isinstance(v, (str, AStr, Top)):
        return v
    if isinstance(v, (Sym, App)) and v.ty in ("any", "str"):
        return it.top("%s of %r" % (what, v))
    it.raise_("TypeError", "%s: expected str, got %s" % (what, it.typename(v)))


def _m_lower(it, a, k):
    return S.lower(raw(a[0]))


def _m_upper(it, a, k):
    return S.upper(raw(a[0]))


def _conc(name):
    def f(it, a, k):
        a = [raw(x) for x in a]
        if all(concrete(x) for x in a):
            try:
                return _wrap(it, getattr(a[0], name)(*a[1:], **k))
            except Exception as ex:
                it.raise_(type(ex).__name__, *ex.args)
        return it.top("str.%s on %r" % (name, a[0]))

    return f


def _wrap(it, v):
    if isinstance(v, list):
        return ListV([_wrap(it, x) for x in v])
    return v


def _case(name):
    def f(it, a, k):
        s = raw(a[0])
        if isinstance(s, str):
            return getattr(s, name)()
        return AStr([Atom((name, s), S.chars_of(s) | {c2 for c in S.chars_of(s) for c2 in (c.upper() + c.lower()) if c2 in UNIVERSE}, S.min_len(s), S.max_len(s))])

    return f


def _m_startswith(it, a, k):
    return _affix(it, a, S.starts, "startswith")


def _m_endswith(it, a, k):
    return _affix(it, a, S.ends, "endswith")


def _affix(it, a, fn, name):
    s, x = raw(a[0]), raw(a[1])
    if len(a) > 2:
        if all(concrete(y) for y in a):
            return getattr(s, name)(*a[1:])
        if name == "startswith" and isinstance(a[2], int) and len(a) == 3:
            t = S.slice_(s, a[2], None)
            if t is not None:
                return _affix(it, [t, x], fn, name)
        return it.top(name + " with bounds")
    if isinstance(x, tuple):
        for y in x:
            if it.truth(_affix(it, [s, y], fn, name)):
                return True
        return False
    if isinstance(x, Top):
        return it.top(name)
    if not isinstance(x, (str, AStr)):
        it.raise_("TypeError", "%s first arg must be str or a tuple of str, not %s" % (name, it.typename(x)))
    if isinstance(x, str):
        r = fn(s, x)
        if r is None:
            return it.dbool((name, s, x))
        return r
    # abstract affix
    if name == "startswith":
        if isinstance(s, AStr) and s.parts[: len(x.parts)] == x.parts:
            return True
        pat = mkstr([x, Atom("__any", UNIVERSE)])
    else:
        if isinstance(s, AStr) and s.parts[-len(x.parts):] == x.parts:
            return True
        pat = mkstr([Atom("__any", UNIVERSE), x])
    if not S.may_intersect(s, pat):
        return False
    if isinstance(s, str) and any(not isinstance(p, str) and p.generic for p in x.parts):
        return False
    return it.dbool((name, s, x))


def _strip(which):
    fn = {"strip": S.strip, "lstrip": S.lstrip, "rstrip": S.rstrip}[which]

    def f(it, a, k):
        s = raw(a[0])
        ch = a[1] if len(a) > 1 else None
        if isinstance(s, str) and (ch is None or isinstance(ch, str)):
            return getattr(s, which)(ch)
        if ch is not None and not isinstance(ch, str):
            return it.top(which)
        r = fn(s, ch)
        if r is None:
            # abstract result: the block loses characters at its ends
            cs = S.chars_of(s)
            return AStr([Atom((which, s, ch), cs, 0, S.max_len(s))])
        return r

    return f


def _m_split(it, a, k):
    s = raw(a[0])
    sep = _arg(a, k, 1, "sep")
    mx = _arg(a, k, 2, "maxsplit", -1)
    if isinstance(s, str) and (sep is None or isinstance(sep, str)):
        if sep == "":
            it.raise_("ValueError", "empty separator")
        return ListV(s.split(sep, mx))
    if isinstance(sep, (AStr, Top)):
        return it.top("split on abstract separator")
    r = S.split_ws(s, mx) if sep is None else S.split_lit(s, sep, mx)
    if r is None:
        return it.top("split(%r) of %r" % (sep, s))
    return ListV(r)


def _m_rsplit(it, a, k):
    s = raw(a[0])
    sep = _arg(a, k, 1, "sep")
    mx = _arg(a, k, 2, "maxsplit", -1)
    if isinstance(s, str):
        return ListV(s.rsplit(sep, mx))
    if sep is None:
        if mx < 0:
            return _m_split(it, [s], {})
        return it.top("rsplit")
    r = S.split_lit(s, sep)
    if r is None:
        return it.top("rsplit")
    if mx >= 0 and len(r) > mx + 1:
        head = r[: len(r) - mx]
        r = [mkstr([y for i, x in enumerate(head) for y in ([sep] if i else []) + [x]])] + r[len(r) - mx:]
    return ListV(r)


def _m_splitlines(it, a, k):
    s = raw(a[0])
    keep = _arg(a, k, 1, "keepends", False)
    if isinstance(s, str):
        return ListV(s.splitlines(keep))
    brk = set("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
    for p in s.parts:
        if not isinstance(p, str) and (p.cs & brk):
            return it.top("splitlines of %r" % (s,))
    out = [[]]
    parts = list(s.parts)
    text = []
    # mark atoms with a private character, split, then restore
    marks = {}
    buf = ""
    for p in parts:
        if isinstance(p, str):
            buf += p
        else:
            c = chr(0xE000 + len(marks))
            marks[c] = p
            buf += c
    res = []
    for ln in buf.splitlines(keep):
        res.append(mkstr([marks.get(c, c) for c in ln]))
    return ListV(res)


def _m_join(it, a, k):
    sep = raw(a[0])
    items = it.to_list(a[1])
    out = []
    for i, x in enumerate(items):
        x = raw(x)
        if isinstance(x, Top):
            return x
        if not isinstance(x, (str, AStr)):
            if isinstance(x, (Sym, App)) and x.ty == "any":
                return it.top("join of unknown")
            it.raise_("TypeError", "sequence item %d: expected str instance, %s found" % (i, it.typename(x)))
        if i:
            out.append(sep)
        out.append(x)
    return mkstr(out)


def _m_replace(it, a, k):
    s, x, y = raw(a[0]), raw(a[1]), raw(a[2])
    cnt = a[3] if len(a) > 3 else k.get("count", -1)
    if isinstance(x, Top) or isinstance(y, Top):
        return it.top("replace")
    if not isinstance(x, str):
        if isinstance(s, (str, AStr)) and not it.truth(it.substr(s, x)):
            return s
        if s == x:
            return y
        return it.top("replace of abstract text")
    if x == "":
        if isinstance(s, str) and isinstance(y, str):
            return s.replace(x, y, cnt)
        return it.top("replace of empty")
    r = S.replace_lit(s, x, y, cnt)
    if r is None:
        cs = set(S.chars_of(s)) | set(S.chars_of(y))
        # rewriting inside blocks: keep the operation as a transformer of each block when it is per-character
        if len(x) == 1 and cnt < 0:
            parts = []
            for p in sparts(s):
                if isinstance(p, str):
                    parts.append(S.replace_lit(p, x, y))
                elif x in p.cs:
                    parts.append(Atom(p.name, (p.cs - {x}) | S.chars_of(y), 0 if y == "" else p.lo, p.hi if S.max_len(y) in (0, 1) else None, p.xf + (("replace", x, y),), None, p.generic))
                else:
                    parts.append(p)
            return mkstr(parts)
        return AStr([Atom(("replace", s, x, y), cs, 0, None)])
    return r


def _find(name):
    def f(it, a, k):
        s, x = raw(a[0]), raw(a[1])
        if all(concrete(raw(y)) for y in a):
            try:
                return getattr(s, name)(x, *a[2:])
            except ValueError as ex:
                it.raise_("ValueError", *ex.args)
        if len(a) == 2 and isinstance(x, str):
            r = S.contains(s, x)
            if r is False or r is None and not it.dbool(("contains", s, x)):
                if name in ("index", "rindex"):
                    it.raise_("ValueError", "substring not found")
                return -1
            if name in ("find", "index"):
                # position when it lies in the leading literal and cannot occur earlier
                p0 = sparts(s)[0]
                if isinstance(p0, str) and x in p0:
                    return p0.find(x)
            elif name in ("rfind", "rindex"):
                p0 = sparts(s)[-1]
                if isinstance(p0, str) and x in p0 and S.min_len(s) == S.max_len(s):
                    return S.min_len(s) - len(p0) + p0.rfind(x)
            return Sym(("find", name, s, x), "int", {"lo": 0})
        return it.top(name)

    return f


def _m_count(it, a, k):
    s, x = raw(a[0]), raw(a[1])
    if isinstance(s, str) and isinstance(x, str):
        return s.count(x)
    if isinstance(x, str) and len(x) == 1:
        n = S.count_char(s, x)
        if n is not None:
            return n
    if isinstance(x, str) and len(x) > 1 and S.contains(s, x) is False:
        return 0
    return Sym(("count", s, x), "int", {"lo": 0})


def _isclass(name, pred):
    def f(it, a, k):
        s = raw(a[0])
        if isinstance(s, str):
            return getattr(s, name)()
        good = frozenset(c for c in UNIVERSE if pred(c))
        r = S.isdigit_like(s, good)
        if r is None:
            return it.dbool((name, s))
        return r

    return f


def _isupperlower(name, fold, other):
    def f(it, a, k):
        s = raw(a[0])
        if isinstance(s, str):
            return getattr(s, name)()
        cs = S.chars_of(s)
        if any(isinstance(p, str) and any(getattr(c, other)() for c in p) for p in s.parts):
            return False
        if not any(getattr(c, other)() for c in cs) and any(isinstance(p, str) and getattr(p, name)() for p in s.parts):
            return True
        if not any(getattr(c, name)() for c in cs):
            return False
        return it.dbool((name, s))

    return f


def _m_partition(it, a, k):
    s, x = raw(a[0]), raw(a[1])
    if isinstance(s, str) and isinstance(x, str):
        return s.partition(x)
    if isinstance(x, str):
        if S.contains(s, x) is False:
            return (s, "", "")
        r = S.split_lit(s, x, 1)
        if r is not None:
            return (r[0], x, r[1]) if len(r) == 2 else (r[0], "", "")
        # first separator in the leading literal
        p0 = sparts(s)[0]
        if isinstance(p0, str) and x in p0:
            i = p0.index(x)
            return (p0[:i], x, mkstr([p0[i + len(x):]] + list(sparts(s)[1:])))
    return (it.top("partition of %r" % (s,)),) * 3


def _m_rpartition(it, a, k):
    s, x = raw(a[0]), raw(a[1])
    if isinstance(s, str) and isinstance(x, str):
        return s.rpartition(x)
    r = _m_partition(it, [S.rev(s), x[::-1]], {})
    if isinstance(r[0], Top):
        return r
    if r[1] == "":
        return ("", "", s)
    return (S.rev(r[2]) if not isinstance(r[2], str) else r[2][::-1], x, S.rev(r[0]) if not isinstance(r[0], str) else r[0][::-1])


def _just(how):
    def f(it, a, k):
        s = raw(a[0])
        w = a[1]
        fill = a[2] if len(a) > 2 else " "
        if isinstance(s, str) and isinstance(w, int):
            return getattr(s, how)(w, fill)
        return it.just(s, how, w, fill)

    return f


def _m_format(it, a, k):
    return it.str_format(raw(a[0]), a[1:], k)


def _m_encode(it, a, k):
    s = raw(a[0])
    enc = _arg(a, k, 1, "encoding", "utf-8")
    if isinstance(s, str) and isinstance(enc, str):
        try:
            return s.encode(enc)
        except Exception as ex:
            it.raise_("UnicodeEncodeError", str(ex))
    return Sym(("encode", s, enc), "bytes")


def _m_removeprefix(it, a, k):
    s, x = raw(a[0]), raw(a[1])
    if it.truth(_m_startswith(it, [s, x], {})):
        return it.getitem(s, slice(it.length(x), None))
    return s


def _m_removesuffix(it, a, k):
    s, x = raw(a[0]), raw(a[1])
    if x != "" and it.truth(_m_endswith(it, [s, x], {})):
        n = it.length(x)
        return it.getitem(s, slice(None, -n))
    return s


def _m_expandtabs(it, a, k):
    s = raw(a[0])
    if isinstance(s, str):
        return s.expandtabs(*a[1:])
    if "\t" not in S.chars_of(s):
        return s
    return it.top("expandtabs")


def _m_translate(it, a, k):
    s, t = raw(a[0]), a[1]
    if isinstance(t, DictV):
        tab = {}
        for kk, v in t.d.items():
            tab[kk] = v
        if isinstance(s, str):
            return s.translate(tab)
        for p in s.parts:
            if not isinstance(p, str) and any(ord(c) in tab for c in p.cs):
                return it.top("translate")
        return mkstr([p.translate(tab) if isinstance(p, str) else p for p in s.parts])
    return it.top("translate")


STR = {
    "lower": _m_lower, "upper": _m_upper, "casefold": _case("casefold"), "title": _case("title"), "capitalize": _case("capitalize"),
    "swapcase": _case("swapcase"), "startswith": _m_startswith, "endswith": _m_endswith, "strip": _strip("strip"), "lstrip": _strip("lstrip"),
    "rstrip": _strip("rstrip"), "split": _m_split, "rsplit": _m_rsplit, "splitlines": _m_splitlines, "join": _m_join, "replace": _m_replace,
    "find": _find("find"), "rfind": _find("rfind"), "index": _find("index"), "rindex": _find("rindex"), "count": _m_count,
    "isdigit": _isclass("isdigit", str.isdigit), "isnumeric": _isclass("isnumeric", str.isnumeric), "isdecimal": _isclass("isdecimal", str.isdecimal),
    "isalpha": _isclass("isalpha", str.isalpha), "isalnum": _isclass("isalnum", str.isalnum), "isspace": _isclass("isspace", str.isspace),
    "isascii": _isclass("isascii", str.isascii), "isprintable": _isclass("isprintable", str.isprintable),
    "isupper": _isupperlower("isupper", str.upper, "islower"), "islower": _isupperlower("islower", str.lower, "isupper"),
    "isidentifier": _conc("isidentifier"), "istitle": _conc("istitle"), "partition": _m_partition, "rpartition": _m_rpartition, "ljust": _just("ljust"), "rjust": _just("rjust"),
    "center": _just("center"), "zfill": _conc("zfill"), "format": _m_format, "encode": _m_encode, "removeprefix": _m_removeprefix,
    "removesuffix": _m_removesuffix, "expandtabs": _m_expandtabs, "translate": _m_translate, "format_map": lambda it, a, k: it.str_format(raw(a[0]), [], dict(it.mapping_items(a[1]))),
    "__len__": lambda it, a, k: it.length(a[0]), "__contains__": lambda it, a, k: it.contains(a[0], a[1]), "__eq__": lambda it, a, k: it.eq(a[0], a[1]),
    "__add__": lambda it, a, k: mkstr([raw(a[0]), raw(a[1])]), "__getitem__": lambda it, a, k: it.getitem(a[0], a[1]),
    "__hash__": lambda it, a, k: 1, "__str__": lambda it, a, k: raw(a[0]), "__format__": lambda it, a, k: it.format_value(raw(a[0]), a[1]),
    "__lt__": lambda it, a, k: it.order("Lt", a[0], a[1]),
}


# ======================================================================= list methods
def _l(f, mut=None):
    def g(it, a, k):
        if mut:
            it.mutated(a[0], mut)
        return f(it, a, k)

    return g


def _l_append(it, a, k):
    a[0].items.append(a[1])


def _l_extend(it, a, k):
    a[0].items.extend(it.to_list(a[1]))


def _l_insert(it, a, k):
    a[0].items.insert(a[1], a[2])


def _l_pop(it, a, k):
    i = a[1] if len(a) > 1 else -1
    try:
        return a[0].items.pop(i)
    except IndexError:
        it.raise_("IndexError", "pop from empty list" if not a[0].items else "pop index out of range")


def _l_remove(it, a, k):
    for i, x in enumerate(a[0].items):
        if it.truth(it.eq(x, a[1])):
            del a[0].items[i]
            return None
    it.raise_("ValueError", "list.remove(x): x not in list")


def _l_index(it, a, k):
    items = it.to_list(a[0])
    for i, x in enumerate(items):
        if i >= (a[2] if len(a) > 2 else 0) and it.truth(it.eq(x, a[1])):
            return i
    it.raise_("ValueError", "is not in list")


def _l_count(it, a, k):
    return sum(1 for x in it.to_list(a[0]) if it.truth(it.eq(x, a[1])))


def _l_clear(it, a, k):
    a[0].items.clear()


def _l_reverse(it, a, k):
    a[0].items.reverse()


def _l_sort(it, a, k):
    a[0].items[:] = it.sort(a[0].items, k.get("key"), it.truth(k.get("reverse", False)))


def _l_init(it, a, k):
    if len(a) > 1:
        a[0].items[:] = it.to_list(a[1])


LIST = {
    "append": _l(_l_append, "append"), "extend": _l(_l_extend, "extend"), "insert": _l(_l_insert, "insert"), "pop": _l(_l_pop, "pop"),
    "remove": _l(_l_remove, "remove"), "index": _l_index, "count": _l_count, "clear": _l(_l_clear, "clear"), "reverse": _l(_l_reverse, "reverse"),
    "sort": _l(_l_sort, "sort"), "copy": lambda it, a, k: ListV(a[0].items), "__init__": _l_init, "__len__": lambda it, a, k: len(a[0].items),
    "__getitem__": lambda it, a, k: it.getitem(ListV(a[0].items), a[1]), "__contains__": lambda it, a, k: any(it.truth(it.eq(x, a[1])) for x in a[0].items),
    "__iter__": lambda it, a, k: GenV(it._iter_list(a[0])), "__setitem__": lambda it, a, k: it.setitem(a[0], a[1], a[2]),
    "popleft": _l(lambda it, a, k: _l_pop(it, [a[0], 0], k), "popleft"), "appendleft": _l(lambda it, a, k: a[0].items.insert(0, a[1]), "appendleft"),
    "__add__": lambda it, a, k: ListV(a[0].items + it.to_list(a[1])), "__delitem__": lambda it, a, k: it.delitem(a[0], a[1]),
    "__eq__": lambda it, a, k: it.eq(ListV(a[0].items), a[1]), "__reversed__": lambda it, a, k: GenV(iter(list(reversed(a[0].items)))),
}
TUPLE = {"index": _l_index, "count": _l_count, "__len__": lambda it, a, k: len(a[0]), "__getitem__": lambda it, a, k: it.getitem(a[0], a[1]),
         "__iter__": lambda it, a, k: GenV(iter(a[0])), "__contains__": lambda it, a, k: it.contains(a[0], a[1])}


# ======================================================================= dict methods
def _view(it, d, what):
    def gen():
        n = len(d.d)
        for kk in list(d.d):
            if len(d.d) != n:
                it.raise_("RuntimeError", "dictionary changed size during iteration")
            yield kk if what == "keys" else d.d[kk] if what == "values" else (kk, d.d[kk])

    v = ObjV(it.builtins["dict_" + what])
    v.data = ("view", d, what)
    return v


def _view_iter(it, a, k):
    _, d, what = a[0].data
    if what == "keys":
        return GenV(it._iter_dict(d))
    return GenV(_viewgen(it, d, what))


def _viewgen(it, d, what):
    for kk in it._iter_dict(d):
        yield d.d[kk] if what == "values" else (kk, d.d[kk])


def _view_contains(it, a, k):
    _, d, what = a[0].data
    if what == "keys":
        return it.dict_find(d, a[1]) is not None
    return any(it.truth(it.eq(x, a[1])) for x in _viewgen(it, d, what))


def _viewop(n):
    import ast

    op = getattr(ast, n)()

    def f(it, a, k):
        x = SetV(it.to_list(a[0]))
        y = SetV()
        for z in it.to_list(a[1]):
            it.set_add(y, z)
        return it.binop(op, x, y)

    return f


VIEW = {
    "__iter__": _view_iter, "__len__": lambda it, a, k: len(a[0].data[1].d), "__contains__": _view_contains,
    "__sub__": _viewop("Sub"), "__and__": _viewop("BitAnd"), "__or__": _viewop("BitOr"), "__xor__": _viewop("BitXor"),
    "isdisjoint": lambda it, a, k: not any(it.truth(it.contains(a[0], x)) for x in it.to_list(a[1])),
    "__eq__": lambda it, a, k: it.eq(SetV(it.to_list(a[0])), SetV(it.to_list(a[1]))) if not isinstance(a[1], ObjV) or a[1].data else False,
}


def _d_get(it, a, k):
    r = it.dict_get_raw(a[0], a[1])
    if r is not None:
        return r[0]
    return _arg(a, k, 2, "default")


def _d_pop(it, a, k):
    d = a[0]
    f = it.dict_find(d, a[1])
    if f is not None:
        it.mutated(d, "pop")
        return d.d.pop(f[0])
    if len(a) > 2:
        return a[2]
    if "default" in k and it.is_od(d):
        return k["default"]
    it.raise_("KeyError", a[1])


def _d_setdefault(it, a, k):
    d = a[0]
    dv = _arg(a, k, 2, "default")
    if it.is_od(d) and isinstance(d.cls, ClassV):
        if it.truth(it.contains(d, a[1])):
            return it.getitem(d, a[1])
        it.setitem(d, a[1], dv)
        return dv
    r = it.dict_get_raw(d, a[1])
    if r is not None:
        return r[0]
    it.dict_set_raw(d, a[1], dv)
    return dv


def _d_update(it, a, k):
    it.dict_update_base(a[0], a[1:], k)


def _d_init(it, a, k):
    it.dict_update_base(a[0], a[1:], k)


def _d_popitem(it, a, k):
    d = a[0]
    if not d.d:
        it.raise_("KeyError", "dictionary is empty")
    last = _arg(a, k, 1, "last", True)
    kk = list(d.d)[-1 if it.truth(last) else 0]
    it.mutated(d, "popitem")
    return (kk, d.d.pop(kk))


def _d_clear(it, a, k):
    it.mutated(a[0], "clear")
    a[0].d.clear()


def _d_copy(it, a, k):
    d = a[0]
    if it.is_od(d):
        if isinstance(d.cls, ClassV):
            r = it.call(d.cls, [], {})
            for kk in list(d.d):
                it.setitem(r, kk, it.getitem(d, kk))
            return r
        return it.copy_dict(d)
    return DictV(it.builtins["dict"], d.d)


def _d_move_to_end(it, a, k):
    d = a[0]
    f = it.dict_find(d, _arg(a, k, 1, "key"))
    if f is None:
        it.raise_("KeyError", a[1])
    it.mutated(d, "move_to_end")
    v = d.d.pop(f[0])
    if it.truth(_arg(a, k, 2, "last", True)):
        d.d[f[0]] = v
    else:
        items = list(d.d.items())
        d.d.clear()
        d.d[f[0]] = v
        d.d.update(items)


def _d_fromkeys(it, a, k):
    cls = a[0]
    r = it.call(cls, [], {})
    for kk in it.to_list(a[1]):
        it.setitem(r, kk, a[2] if len(a) > 2 else None)
    return r


def _d_reduce(it, a, k):
    return (a[0].cls, (), None, None, GenV(iter(list(a[0].d.items()))))


def _d_eq(it, a, k):
    x, y = a
    if not isinstance(y, DictV):
        return NotImplemented
    dx = DictV(it.builtins["OrderedDict" if it.is_od(x) else "dict"], x.d)
    dy = DictV(it.builtins["OrderedDict" if it.is_od(y) else "dict"], y.d)
    return it.eq(dx, dy)


DICT = {
    "__init__": _d_init, "get": _d_get, "pop": _d_pop, "setdefault": _d_setdefault, "update": _d_update, "popitem": _d_popitem, "clear": _d_clear,
    "copy": _d_copy, "keys": lambda it, a, k: _view(it, a[0], "keys"), "values": lambda it, a, k: _view(it, a[0], "values"),
    "items": lambda it, a, k: _view(it, a[0], "items"), "__getitem__": lambda it, a, k: it.dict_getitem_base(a[0], a[1]),
    "__setitem__": lambda it, a, k: it.dict_set_raw(a[0], a[1], a[2]), "__delitem__": lambda it, a, k: (it.dict_del_raw(a[0], a[1]), None)[1],
    "__contains__": lambda it, a, k: it.dict_find(a[0], a[1]) is not None, "__len__": lambda it, a, k: len(a[0].d),
    "__iter__": lambda it, a, k: GenV(it._iter_dict(a[0])), "__eq__": _d_eq, "__reversed__": lambda it, a, k: GenV(iter(list(reversed(list(a[0].d))))),
    "__repr__": lambda it, a, k: it.repr_of(DictV(it.builtins["dict"], a[0].d)), "fromkeys": ClassMethodV(NativeV("dict.fromkeys", _d_fromkeys)),
    "__ne__": lambda it, a, k: not it.truth(_d_eq(it, a, k)), "__or__": lambda it, a, k: _d_or(it, a, k),
}


def _d_or(it, a, k):
    r = _d_copy(it, [a[0]], {})
    for kk, v in it.mapping_items(a[1]):
        it.setitem(r, kk, v)
    return r


ODICT = {"move_to_end": _d_move_to_end, "__reduce__": _d_reduce}


# ======================================================================= set methods
def _toset(it, v):
    s = SetV()
    for x in it.to_list(v):
        it.set_add(s, x)
    return s


def _s_op(n):
    import ast

    op = getattr(ast, n)()

    def f(it, a, k):
        r = a[0] if isinstance(a[0], SetV) else SetV(it.to_list(a[0]), True)
        for x in a[1:]:
            r = it.binop(op, r, x if isinstance(x, SetV) else _toset(it, x))
        return SetV(r.items, r.frozen) if len(a) == 1 else r

    return f


def _s_add(it, a, k):
    it.set_add(a[0], a[1])


def _s_update(it, a, k):
    for v in a[1:]:
        for x in it.to_list(v):
            it.set_add(a[0], x)


def _s_discard(it, a, k):
    for i, x in enumerate(a[0].items):
        if it.truth(it.eq(x, a[1])):
            it.mutated(a[0], "discard")
            del a[0].items[i]
            return True
    return None


def _s_remove(it, a, k):
    if _s_discard(it, a, k) is None:
        it.raise_("KeyError", a[1])


SET = {
    "union": _s_op("BitOr"), "difference": _s_op("Sub"), "intersection": _s_op("BitAnd"), "symmetric_difference": _s_op("BitXor"), "add": _s_add, "update": _s_update,
    "discard": lambda it, a, k: (_s_discard(it, a, k), None)[1], "remove": _s_remove, "copy": lambda it, a, k: SetV(a[0].items, a[0].frozen),
    "issubset": lambda it, a, k: all(it.truth(it.contains(a[1], x)) for x in a[0].items), "issuperset": lambda it, a, k: all(it.set_has(a[0], x) for x in it.to_list(a[1])),
    "isdisjoint": lambda it, a, k: not any(it.set_has(a[0], x) for x in it.to_list(a[1])), "clear": lambda it, a, k: (it.mutated(a[0], "clear"), a[0].items.clear())[1],
    "pop": lambda it, a, k: (it.mutated(a[0], "pop"), it.nondet.append(("set.pop", it.where())), a[0].items.pop(-1 if it.set_rev else 0) if a[0].items else it.raise_("KeyError", "pop from an empty set"))[2],
    "__contains__": lambda it, a, k: it.set_has(a[0], a[1]), "__len__": lambda it, a, k: len(a[0].items), "__iter__": lambda it, a, k: GenV(it.iter(a[0])),
    "difference_update": lambda it, a, k: (it.mutated(a[0], "difference_update"), a[0].items.__setitem__(slice(None), [x for x in a[0].items if not any(it.truth(it.contains(o, x)) for o in a[1:])]))[1],
}


# ======================================================================= builtin functions
def b_isinstance(it, a, k):
    return it.isinstance_(a[0], a[1])


def b_issubclass(it, a, k):
    c, s = a
    if isinstance(s, tuple):
        return any(b_issubclass(it, [c, x], k) for x in s)
    if not isinstance(c, (ClassV, BuiltinClass)):
        it.raise_("TypeError", "issubclass() arg 1 must be a class")
    return s in it.mro(c)


def b_len(it, a, k):
    return it.length(a[0])


def b_all(it, a, k):
    for x in it.iter(a[0]):
        if not it.truth(x):
            return False
    return True


def b_any(it, a, k):
    for x in it.iter(a[0]):
        if it.truth(x):
            return True
    return False


def b_next(it, a, k):
    g = a[0]
    if isinstance(g, GenV):
        try:
            return next(g.it)
        except StopIteration:
            pass
    elif isinstance(g, ObjV):
        m = it.class_lookup(g.cls, "__next__")
        if m is None:
            it.raise_("TypeError", "not an iterator")
        try:
            return it.call(it.bind(m, g, g.cls), [], {})
        except PyRaise as pr:
            if it.builtins["StopIteration"] not in it.mro(pr.exc.cls) or len(a) < 2:
                raise
    elif isinstance(g, Top):
        return g
    else:
        it.raise_("TypeError", "'%s' object is not an iterator" % it.typename(g))
    if len(a) > 1:
        return a[1]
    it.raise_("StopIteration")


def b_iter(it, a, k):
    if len(a) == 2:
        def gen():
            while True:
                v = it.call(a[0], [], {})
                if it.truth(it.eq(v, a[1])):
                    return
                yield v
        return GenV(gen())
    return a[0] if isinstance(a[0], GenV) else GenV(it.iter(a[0]))


def b_enumerate(it, a, k):
    start = _arg(a, k, 1, "start", 0)

    def gen():
        i = start
        for x in it.iter(a[0]):
            yield (i, x)
            i = it.binop(__import__("ast").Add(), i, 1)

    return GenV(gen())


def b_zip(it, a, k):
    its = [it.iter(x) for x in a]

    def gen():
        while True:
            row = []
            for i, g in enumerate(its):
                try:
                    row.append(next(g))
                except StopIteration:
                    if it.truth(k.get("strict", False)) and i > 0:
                        it.raise_("ValueError", "zip() arguments differ in length")
                    return
            if not row:
                return
            yield tuple(row)

    return GenV(gen())


def b_map(it, a, k):
    its = [it.iter(x) for x in a[1:]]

    def gen():
        while True:
            row = []
            for g in its:
                try:
                    row.append(next(g))
                except StopIteration:
                    return
            yield it.call(a[0], row, {})

    return GenV(gen())


def b_filter(it, a, k):
    def gen():
        for x in it.iter(a[1]):
            if it.truth(x if a[0] is None else it.call(a[0], [x], {})):
                yield x

    return GenV(gen())


def b_sorted(it, a, k):
    v = a[0]
    if isinstance(v, SetV):
        items = list(v.items)
    else:
        items = it.to_list(v)
    return ListV(it.sort(items, k.get("key"), it.truth(k.get("reverse", False))))


def b_reversed(it, a, k):
    if isinstance(a[0], ObjV) and a[0].data and a[0].data[0] == "view":
        return GenV(iter(list(reversed(it.to_list(a[0])))))
    return GenV(iter(list(reversed(it.to_list(a[0])))))


def _minmax(n):
    def f(it, a, k):
        items = it.to_list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            it.raise_("ValueError", "%s() iterable argument is empty" % n)
        key = k.get("key")
        best = items[0]
        bk = it.call(key, [best], {}) if key else best
        for x in items[1:]:
            xk = it.call(key, [x], {}) if key else x
            if isinstance(xk, Top) or isinstance(bk, Top):
                return it.top(n)
            if it.truth(it.order("Gt" if n == "max" else "Lt", xk, bk)):
                best, bk = x, xk
        return best

    return f


def b_sum(it, a, k):
    import ast

    t = a[1] if len(a) > 1 else k.get("start", 0)
    for x in it.iter(a[0]):
        t = it.binop(ast.Add(), t, x)
    return t


def b_abs(it, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    return App("abs", (v,), getattr(v, "ty", "num"))


def b_getattr(it, a, k):
    o, n = a[0], a[1]
    if not isinstance(n, str):
        return it.top("getattr with abstract name")
    if len(a) > 2:
        try:
            return it.getattr(o, n)
        except PyRaise as pr:
            if it.builtins["AttributeError"] in it.mro(pr.exc.cls):
                return a[2]
            raise
    return it.getattr(o, n)


def b_hasattr(it, a, k):
    o, n = a
    if isinstance(o, Top):
        return it.top("hasattr of unknown")
    try:
        it.getattr(o, n)
        return True
    except PyRaise as pr:
        if it.builtins["AttributeError"] in it.mro(pr.exc.cls):
            return False
        raise


def b_setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


def b_callable(it, a, k):
    v = a[0]
    return isinstance(v, (FuncV, BoundV, NativeV, ClassV, BuiltinClass)) or isinstance(v, ObjV) and it.class_lookup(v.cls, "__call__") is not None


def b_print(it, a, k):
    it.out.append(("print", tuple(it.str_of(x) for x in a)))


def b_repr(it, a, k):
    return it.repr_of(a[0])


def b_format(it, a, k):
    return it.format_value(a[0], a[1] if len(a) > 1 else "")


def b_id(it, a, k):
    it.nondet.append(("id", it.where()))
    return Sym(("id", id(a[0])), "int")


def b_hash(it, a, k):
    it.hashable(a[0])
    it.nondet.append(("hash", it.where()))
    return Sym(("hash", a[0] if concrete(a[0]) else id(a[0])), "int")


def b_ord(it, a, k):
    v = raw(a[0])
    if isinstance(v, str):
        return ord(v)
    return Sym(("ord", v), "int")


def b_chr(it, a, k):
    return chr(a[0]) if isinstance(a[0], int) else it.top("chr")


def b_round(it, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        return round(*a)
    return App("round", tuple(a), "num")


def b_divmod(it, a, k):
    import ast

    return (it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1]))


def b_vars(it, a, k):
    return it.getattr(a[0], "__dict__")


def b_dir(it, a, k):
    return it.top("dir")


def b_property(it, a, k):
    return PropertyV(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))


def b_super(it, a, k):
    return SuperV(a[0], a[1])


# ======================================================================= construction of builtin classes
def construct_builtin(it, cls, orig, a, k):
    n = cls.name
    if cls.construct is not None:
        return cls.construct(it, cls, a, k)
    if cls.pyexc is not None:
        e = ObjV(cls, {"args": tuple(a)})
        for kk, v in k.items():
            e.attrs[kk] = v
        e.data = {}
        return e
    if n == "type":
        if len(a) == 1:
            return it.class_of(a[0]) or it.top("type()")
        return ClassV(a[0], it.to_list(a[1]) or [it.builtins["object"]], dict(a[2].d), it.modules.get("mappyfile"))
    if n in ("dict", "OrderedDict"):
        d = DictV(cls)
        it.dict_update_base(d, a, k)
        return d
    if n == "defaultdict":
        d = DictV(cls)
        d.attrs["default_factory"] = a[0] if a else None
        it.dict_update_base(d, a[1:], k)
        return d
    if n == "Counter":
        d = DictV(cls)
        for x in it.to_list(a[0]) if a else []:
            r = it.dict_get_raw(d, x)
            it.dict_set_raw(d, x, (r[0] if r else 0) + 1)
        return d
    if n == "list":
        return ListV(it.to_list(a[0]) if a else ())
    if n == "deque":
        return ListV(it.to_list(a[0]) if a else (), "deque", it.builtins["deque"])
    if n == "tuple":
        return tuple(it.to_list(a[0])) if a else ()
    if n in ("set", "frozenset"):
        s = SetV((), False)
        if a:
            for x in (a[0].items if isinstance(a[0], SetV) else it.to_list(a[0])):
                it.set_add(s, x)
        s.frozen = n == "frozenset"
        return s
    if n == "str":
        if not a:
            return ""
        if isinstance(a[0], bytes):
            return a[0].decode(a[1]) if len(a) > 1 else str(a[0])
        return it.str_of(a[0])
    if n == "int":
        if len(a) > 1:
            if all(concrete(x) for x in a):
                try:
                    return int(*a)
                except ValueError as ex:
                    it.raise_("ValueError", str(ex))
            return it.top("int base")
        return it.to_number(a[0], "int") if a else 0
    if n == "float":
        return it.to_number(a[0], "float") if a else 0.0
    if n == "bool":
        return it.truth(a[0]) if a else False
    if n == "bytes":
        return it.top("bytes()")
    if n == "object":
        return ObjV(cls)
    if n == "range":
        if all(isinstance(x, int) for x in a):
            return range(*a)
        raise Unsupported("symbolic range")
    if n == "slice":
        return slice(*a)
    o = ObjV(cls)
    init = it.class_lookup(cls, "__init__")
    if init is not None:
        it.call(it.bind(init, o, cls), a, k)
    return o


# ======================================================================= library modules
def nat(name, fn):
    return NativeV(name, fn)


def _path(it, v):
    v = raw(v)
    if isinstance(v, ObjV) and v.cls.name == "Path":
        return v.attrs["p"]
    return v


def p_join(it, a, k):
    out = _path(it, a[0])
    for x in a[1:]:
        x = _path(it, x)
        if isinstance(x, Top) or isinstance(out, Top):
            return it.top("path join")
        if isinstance(x, str) and isinstance(out, str):
            out = posixpath.join(out, x)
        elif it.truth(_m_startswith(it, [x, "/"], {})):
            out = x
        elif out == "" or S.ends(out, "/"):
            out = mkstr([out, x])
        else:
            out = mkstr([out, "/", x])
    return out


def p_isabs(it, a, k):
    return _m_startswith(it, [_path(it, a[0]), "/"], {})


def p_abspath(it, a, k):
    p = _path(it, a[0])
    if isinstance(p, Top):
        return p
    if isinstance(p, str):
        return posixpath.normpath(posixpath.join(it.env.get("cwd", "/cwd"), p))
    if not it.truth(_m_startswith(it, [p, "/"], {})):
        p = mkstr([it.env.get("cwd", "/cwd"), "/", p])
    # normalisation of the literal part only
    parts = list(p.parts)
    if isinstance(parts[0], str) and all(isinstance(q, str) or not (q.cs & {"/"}) for q in parts):
        head = parts[0]
        i = head.rfind("/")
        head = posixpath.normpath(head[: i + 1])
        parts[0] = (head if head.endswith("/") else head + "/") + parts[0][i + 1:]
    return mkstr(parts)


def p_dirname(it, a, k):
    p = _path(it, a[0])
    if isinstance(p, str):
        return posixpath.dirname(p)
    if isinstance(p, AStr):
        last = p.parts[-1]
        for i in range(len(p.parts) - 1, -1, -1):
            q = p.parts[i]
            if isinstance(q, str) and "/" in q:
                return posixpath.dirname(q[: q.rfind("/") + 1]) if i == 0 else mkstr(list(p.parts[:i]) + [q[: q.rfind("/")]])
            if not isinstance(q, str) and "/" in q.cs:
                return it.top("dirname")
        return ""
    if isinstance(p, (Sym, App)):
        return AStr([Atom(("dirname", p), UNIVERSE)])
    return it.top("dirname") if isinstance(p, Top) else it.raise_("TypeError", "expected str, bytes or os.PathLike object, not %s" % it.typename(p))


def p_basename(it, a, k):
    p = _path(it, a[0])
    if isinstance(p, str):
        return posixpath.basename(p)
    if isinstance(p, AStr):
        r = S.split_lit(p, "/")
        if r is not None:
            return r[-1]
    return it.top("basename")


def p_splitext(it, a, k):
    p = _path(it, a[0])
    if isinstance(p, str):
        return posixpath.splitext(p)
    if isinstance(p, AStr):
        q = p.parts[-1]
        if isinstance(q, str) and "." in q:
            i = q.rfind(".")
            return (mkstr(list(p.parts[:-1]) + [q[:i]]), q[i:])
        if not any("." in (x if isinstance(x, str) else x.cs) for x in p.parts):
            return (p, "")
    return (it.top("splitext"), it.top("splitext"))


def p_split(it, a, k):
    return (p_dirname(it, a, k), p_basename(it, a, k))


def p_norm(it, a, k):
    p = _path(it, a[0])
    return posixpath.normpath(p) if isinstance(p, str) else p


def file_state(it, p):
    """content | None (missing) ; real data files of the package are read as data"""
    if not isinstance(p, str):
        for q, c in it.files.items():
            if q == p:
                return c
        return None
    q = posixpath.normpath(posixpath.join(it.env.get("cwd", "/cwd"), p))
    if p in it.files:
        return it.files[p]
    if q in it.files:
        return it.files[q]
    root = _os.path.join(_os.path.realpath(it.project.root), it.project.package)
    if _os.path.realpath(q).startswith(root + "/") and _os.path.isfile(q) and not q.endswith((".py", ".pyc")):
        return ("data", _os.path.realpath(q))
    return None


def p_exists(it, a, k):
    p = _path(it, a[0])
    if isinstance(p, str):
        if file_state(it, p) is not None:
            return True
        root = _os.path.join(_os.path.realpath(it.project.root), it.project.package)
        return _os.path.realpath(p).startswith(root) and _os.path.isdir(p) or p in it.env.get("dirs", ())
    if file_state(it, p) is not None:
        return True
    return it.dbool(("exists", p))


def p_isfile(it, a, k):
    p = _path(it, a[0])
    if isinstance(p, Top):
        return it.top("isfile")
    return file_state(it, p) is not None


def p_isdir(it, a, k):
    p = _path(it, a[0])
    if isinstance(p, str):
        root = _os.path.join(_os.path.realpath(it.project.root), it.project.package)
        return _os.path.realpath(p).startswith(root) and _os.path.isdir(p) or p in it.env.get("dirs", ())
    return False


def make_file(it, path, mode, encoding, newline, errors=None, via="open"):
    f = ObjV(it.builtins["File"], {"name": path, "closed": False, "mode": mode, "encoding": encoding})
    f.data = {"path": path, "mode": mode, "encoding": encoding, "newline": newline, "buf": [], "errors": errors, "via": via, "pos": 0}
    return f


def f_open(it, a, k, via="open"):
    path = _path(it, a[0] if a else k.get("file", k.get("filename")))
    mode = _arg(a, k, 1, "mode", "r")
    if via == "codecs":
        enc = _arg(a, k, 2, "encoding")
        errors = _arg(a, k, 3, "errors")
        newline = "" if enc is not None else None  # codecs.open opens the file in binary mode when an encoding is given
    else:
        enc = _arg(a, k, 3, "encoding")
        errors = _arg(a, k, 4, "errors")
        newline = _arg(a, k, 5, "newline")
    if isinstance(path, Top) or not isinstance(mode, str):
        it.add_taint("open of unknown path")
        return make_file(it, path, "r", enc, newline)
    if isinstance(path, (str, AStr)) or isinstance(path, (Sym, App)):
        if any(c in mode for c in "wax+"):
            it.writes_opened = getattr(it, "writes_opened", 0) + 1
            f = make_file(it, path, mode, enc, newline, errors, via)
            it.writes.append(f)
            return f
        st = file_state(it, path)
        if st is None:
            it.raise_("FileNotFoundError", 2, "No such file or directory", path)
        if isinstance(st, tuple) and st[0] == "error":
            it.raise_(st[1], *st[2:])
        return make_file(it, path, mode, enc, newline, errors, via)
    if path is None:
        it.raise_("TypeError", "expected str, bytes or os.PathLike object, not NoneType")
    it.raise_("TypeError", "expected str, bytes or os.PathLike object, not %s" % it.typename(path))


def universal_newlines(it, s):
    if isinstance(s, str):
        return s.replace("\r\n", "\n").replace("\r", "\n")
    parts = []
    for p in s.parts:
        if isinstance(p, str):
            parts.append(p.replace("\r\n", "\n").replace("\r", "\n"))
        elif "\r" in p.cs:
            parts.append(Atom(p.name, p.cs - {"\r"} | {"\n"}, p.lo, p.hi, p.xf + ("universal-newlines",), None, p.generic))
        else:
            parts.append(p)
    return mkstr(parts)


def fl_read(it, a, k):
    f = a[0]
    if "w" in f.data["mode"] and "+" not in f.data["mode"]:
        it.raise_("OSError", "not readable")
    st = file_state(it, f.data["path"])
    if isinstance(st, tuple) and st[0] == "data":
        c = open(st[1], encoding="utf-8").read()
    elif isinstance(st, tuple) and st[0] == "undecodable":
        if "b" in f.data["mode"]:
            return Sym(("bytes", st), "bytes")
        if f.data["errors"] in ("replace", "ignore", "surrogateescape", "backslashreplace"):
            return it.top("lossy decoding (%s)" % f.data["errors"])
        enc = f.data["encoding"]
        if enc is not None and str(enc).lower().replace("_", "-") in ("latin-1", "latin1", "iso-8859-1", "cp1252"):
            return AStr([Atom(("decoded", enc), UNIVERSE)])
        it.raise_("UnicodeDecodeError", "utf-8", b"", 0, 1, "invalid start byte")
    else:
        c = st
    it.reads = getattr(it, "reads", [])
    it.reads.append((f.data["path"], f.data["encoding"], f.data["newline"], f.data["errors"]))
    if f.data["pos"]:
        return ""
    f.data["pos"] = 1
    if isinstance(c, (str, AStr)):
        enc = f.data["encoding"]
        if f.data["via"] == "codecs" and enc is None:
            enc = "locale"
        if enc is None:
            enc = "locale"
        e = str(enc).lower().replace("_", "-")
        if e not in ("utf-8", "utf8", "utf-8-sig", "u8") and any(ord(ch) > 127 for ch in S.chars_of(c)):
            c = mkstr([p if isinstance(p, str) and p.isascii() else Atom((p if isinstance(p, str) else p.name), UNIVERSE, 0, None, (("decode", e),)) if isinstance(p, str) or any(ord(ch) > 127 for ch in p.cs) else p for p in sparts(c)])
        if "b" in f.data["mode"]:
            return Sym(("bytes", c), "bytes", {"text": c})
        if f.data["newline"] is None:
            c = universal_newlines(it, c)
        return c
    return it.top("file content")


def fl_write(it, a, k):
    f = a[0]
    v = raw(a[1])
    if not any(c in f.data["mode"] for c in "wax+"):
        it.raise_("OSError", "not writable")
    if "b" in f.data["mode"]:
        if isinstance(v, (str, AStr)):
            it.raise_("TypeError", "a bytes-like object is required, not 'str'")
    elif not isinstance(v, (str, AStr, Top)):
        it.raise_("TypeError", "write() argument must be str, not %s" % it.typename(v))
    f.data["buf"].append(v)
    return it.length(v) if isinstance(v, (str, AStr)) else 0


def fl_lines(it, a, k):
    c = fl_read(it, [a[0]], {})
    return _m_splitlines(it, [c, True], {})


def fl_iter(it, a, k):
    c = fl_read(it, [a[0]], {})
    if isinstance(c, str):
        import io

        return GenV(iter(list(io.StringIO(c, newline="\n"))))
    r = S.split_lit(c, "\n")
    if r is None:
        raise Unsupported("iteration over abstract lines")
    r = [mkstr([x, "\n"]) for x in r[:-1]] + ([r[-1]] if r[-1] != "" else [])
    return GenV(iter(r))


FILE = {
    "read": fl_read, "write": fl_write, "close": lambda it, a, k: a[0].attrs.__setitem__("closed", True), "__enter__": lambda it, a, k: a[0],
    "__exit__": lambda it, a, k: (a[0].attrs.__setitem__("closed", True), None)[1], "flush": lambda it, a, k: None, "readlines": fl_lines, "__iter__": fl_iter,
    "writelines": lambda it, a, k: [fl_write(it, [a[0], x], {}) for x in it.to_list(a[1])] and None, "fileno": lambda it, a, k: 3,
    "readable": lambda it, a, k: True, "writable": lambda it, a, k: True, "isatty": lambda it, a, k: False,
    "seek": lambda it, a, k: a[0].data.__setitem__("pos", 0), "tell": lambda it, a, k: 0,
    "getvalue": lambda it, a, k: mkstr([x for x in a[0].data["buf"]]),
    "truncate": lambda it, a, k: None,
}


class JsonBox:
    """JSON text of a value (kept structured)"""

    def __init__(self, value, opts):
        self.value = value
        self.opts = opts

    def __repr__(self):
        return "json(%r)" % (self.value,)


def to_plain(it, v, depth=0):
    """abstract value as JSON data: DictV -> ('dict' pairs)..."""
    if depth > 200:
        it.raise_("RecursionError", "maximum recursion depth exceeded")
    v = raw(v)
    if isinstance(v, DictV):
        d = DictV(it.builtins["dict"])
        items = v.d.items()
        if it.user_method(v, "items"):
            items = [tuple(it.to_list(x)) for x in it.to_list(it.call(it.user_method(v, "items"), [], {}))]
        for k, x in items:
            if isinstance(k, bool):
                k = "true" if k else "false"
            elif k is None:
                k = "null"
            elif isinstance(k, (int, float)):
                k = str(k)
            elif not isinstance(k, (str, AStr)):
                it.raise_("TypeError", "keys must be str, int, float, bool or None, not %s" % it.typename(k))
            d.d[k] = to_plain(it, x, depth + 1)
        return d
    if isinstance(v, (ListV, tuple)):
        return ListV([to_plain(it, x, depth + 1) for x in it.to_list(v)])
    if isinstance(v, (str, AStr, int, float, bool)) or v is None or isinstance(v, (Sym, App)):
        return v
    if isinstance(v, Top):
        return v
    it.raise_("TypeError", "Object of type %s is not JSON serializable" % it.typename(v))


def from_plain(it, v, hook=None, objhook=None):
    if isinstance(v, DictV):
        items = [(k, from_plain(it, x, hook, objhook)) for k, x in v.d.items()]
        if hook is not None:
            return it.call(hook, [ListV(items)], {})
        d = DictV(it.builtins["dict"], dict(items))
        return it.call(objhook, [d], {}) if objhook is not None else d
    if isinstance(v, ListV):
        return ListV([from_plain(it, x, hook, objhook) for x in v.items])
    return v


def pydata(it, v):
    """plain Python JSON data -> abstract"""
    if isinstance(v, dict):
        return DictV(it.builtins["dict"], {k: pydata(it, x) for k, x in v.items()})
    if isinstance(v, list):
        return ListV([pydata(it, x) for x in v])
    return v


def to_py(it, v):
    if isinstance(v, DictV):
        return {k: to_py(it, x) for k, x in v.d.items()}
    if isinstance(v, (ListV, tuple)):
        return [to_py(it, x) for x in it.to_list(v)]
    return v


def all_concrete(v):
    if isinstance(v, DictV):
        return all(isinstance(k, str) and all_concrete(x) for k, x in v.d.items())
    if isinstance(v, ListV):
        return all(all_concrete(x) for x in v.items)
    return v is None or isinstance(v, (str, int, float, bool))


def sort_plain(v):
    if isinstance(v, DictV):
        ks = list(v.d)
        if all(isinstance(k, str) for k in ks):
            ks.sort()
        d = DictV(v.cls)
        d.d = {k: sort_plain(v.d[k]) for k in ks}
        return d
    if isinstance(v, ListV):
        return ListV([sort_plain(x) for x in v.items])
    return v


def j_dumps(it, a, k):
    v = a[0]
    if k.get("default") is not None:
        it.add_taint("json default hook")
    p = to_plain(it, v)
    opts = {kk: x for kk, x in k.items() if concrete(x)}
    if opts.get("sort_keys"):
        p = sort_plain(p)
    if all_concrete(p) and len(opts) == len(k) and set(opts) <= {"indent", "sort_keys", "ensure_ascii", "separators"}:
        return _json.dumps(to_py(it, p), **opts)
    return AStr([Atom(("json", JsonBox(p, opts)), UNIVERSE, 2, None)])


def j_loads(it, a, k):
    s = raw(a[0])
    if isinstance(s, AStr) and len(s.parts) == 1 and isinstance(s.parts[0].name, tuple) and s.parts[0].name[0] == "json" and not s.parts[0].xf:
        return from_plain(it, s.parts[0].name[1].value, k.get("object_pairs_hook"), k.get("object_hook"))
    if isinstance(s, str):
        try:
            d = _json.loads(s)
        except ValueError as ex:
            it.raise_("JSONDecodeError", str(ex))
        return from_plain(it, pydata(it, d), k.get("object_pairs_hook"), k.get("object_hook"))
    return it.top("json.loads of abstract text")


def j_load(it, a, k):
    return j_loads(it, [fl_read(it, [a[0]], {})] + list(a[1:]), k)


def j_dump(it, a, k):
    fl = a[1]
    it.call(it.getattr(fl, "write"), [j_dumps(it, [a[0]], k)], {})


# logging
def get_logger(it, a, k):
    name = a[0] if a else "root"
    key = "logger:%s" % (name if isinstance(name, str) else "?")
    if key not in it.models:
        it.models[key] = ObjV(it.builtins["Logger"], {"name": name})
    return it.models[key]


def _log(level):
    def f(it, a, k):
        it.out.append(("log", level, tuple(a[1:])))

    return f


LOGGER = {n: _log(n) for n in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log")}
LOGGER.update({
    "addHandler": lambda it, a, k: None, "setLevel": lambda it, a, k: None, "isEnabledFor": lambda it, a, k: it.dbool(("logenabled", a[1] if concrete(a[1]) else 0)),
    "getEffectiveLevel": lambda it, a, k: 30, "removeHandler": lambda it, a, k: None, "hasHandlers": lambda it, a, k: False, "getChild": lambda it, a, k: a[0],
})


def ext(name):
    return ExternV(name)


def sys_exit(it, a, k):
    e = ObjV(it.builtins["SystemExit"], {"args": tuple(a), "code": a[0] if a else None})
    e.data = {"where": it.where(), "stack": it.callstack()}
    raise PyRaise(e, it.where())


def ft_wraps(it, a, k):
    src = a[0]

    def deco(it, b, kk):
        f = b[0]
        if isinstance(f, FuncV):
            f.attrs.setdefault("__wrapped__", src)
            f.attrs["__name__"] = it.getattr(src, "__name__", "f") if not isinstance(src, Top) else "f"
        return f

    return nat("wraps", deco)


def ft_partial(it, a, k):
    f, pre = a[0], a[1:]

    def call(it, b, kk):
        d = dict(k)
        d.update(kk)
        return it.call(f, list(pre) + list(b), d)

    n = nat("functools.partial", call)
    n.attrs = {"func": f, "args": tuple(pre), "keywords": DictV(it.builtins["dict"], k)}
    return n


def ft_reduce(it, a, k):
    items = it.to_list(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            it.raise_("TypeError", "reduce() of empty iterable with no initial value")
        acc = items.pop(0)
    for x in items:
        acc = it.call(a[0], [acc, x], {})
    return acc


def ft_lru(it, a, k):
    def make(f):
        cache = DictV(it.builtins["dict"])
        cache.owner = "cache:" + getattr(f, "qualname", getattr(f, "name", "?"))

        def call(it, b, kk):
            key = tuple(b) + tuple(sorted(kk.items(), key=lambda x: x[0]))
            for x in b:
                it.hashable(x)
            r = it.dict_get_raw(cache, key)
            if r is not None:
                it.effect("cache-hit", cache.owner)
                return r[0]
            v = it.call(f, b, kk)
            it.dict_set_raw(cache, key, v)
            return v

        def clear(it, a, k):
            it.mutated(cache, "clear")
            cache.d.clear()

        n = nat("lru_cache(%s)" % getattr(f, "qualname", "?"), call)
        n.attrs = {"__wrapped__": f, "cache_clear": nat("cache_clear", clear), "__cache__": cache}
        n.attrs["__name__"] = getattr(f, "qualname", "f")
        return n

    if a and isinstance(a[0], (FuncV, NativeV, BoundV)):
        return make(a[0])
    return nat("lru_cache", lambda it, b, kk: make(b[0]))


class Blocked(BaseException):
    """the schedule cannot happen: a lock is held by the thread that is preempted"""


def lock_classes(it, B):
    """locks, thread-local objects and context variables: it.thread is the thread that runs"""

    def st(o):
        if o.data is None:
            o.data = {"holder": None, "n": 0}
        return o.data

    def acquire(re):
        def f(it, a, k):
            s = st(a[0])
            if s["n"] and s["holder"] != it.thread:
                if k.get("blocking", a[1] if len(a) > 1 else True) is False:
                    return False
                raise Blocked()
            if s["n"] and not re:
                if k.get("blocking", a[1] if len(a) > 1 else True) is False:
                    return False
                raise Unsupported("a lock is acquired twice by one thread (deadlock)")
            s["holder"] = it.thread
            s["n"] += 1
            return True

        return f

    def release(it, a, k):
        s = st(a[0])
        if not s["n"]:
            it.raise_("RuntimeError", "release unlocked lock")
        s["n"] -= 1

    def cls(name, re):
        ac = acquire(re)
        return BuiltinClass(name, [B["object"]], {"acquire": ac, "release": release, "__enter__": ac, "__exit__": release, "locked": lambda it, a, k: bool(st(a[0])["n"])})

    def space(it, o):
        if o.data is None:
            o.data = {}
        return o.data.setdefault(it.thread, {})

    def lget(it, a, k):
        d = space(it, a[0])
        if a[1] in d:
            return d[a[1]]
        it.raise_("AttributeError", "'_thread._local' object has no attribute '%s'" % (a[1],))

    def lset(it, a, k):
        it.effect("thread-local", "thread-local", "." + str(a[1]))
        space(it, a[0])[a[1]] = a[2]

    def ldict(it, a, k):
        return DictV(it.builtins["dict"], space(it, a[0]))

    local = BuiltinClass("local", [B["object"]], {"__getattr__": lget, "__setattr__": lset})

    def cget(it, a, k):
        d = space(it, a[0])
        if "v" in d:
            return d["v"]
        if len(a) > 1:
            return a[1]
        if "default" in a[0].attrs:
            return a[0].attrs["default"]
        it.raise_("LookupError" if "LookupError" in it.builtins else "KeyError", "no value")

    def cset(it, a, k):
        it.effect("thread-local", "context variable")
        d = space(it, a[0])
        tok = ObjV(B["object"], {"old": d.get("v", ABSENT_)})
        d["v"] = a[1]
        return tok

    def creset(it, a, k):
        d = space(it, a[0])
        old = a[1].attrs["old"]
        if old is ABSENT_:
            d.pop("v", None)
        else:
            d["v"] = old

    def cmake(it, c, a, k):
        return ObjV(c, {"default": k["default"]} if "default" in k else {})

    cvar = BuiltinClass("ContextVar", [B["object"]], {"get": cget, "set": cset, "reset": creset}, construct=cmake)
    return cls("Lock", False), cls("RLock", True), local, cvar


ABSENT_ = object()


def ft_cached_property(it, a, k):
    f = a[0]
    name = getattr(f.node, "name", "?")

    def get(it, b, kk):
        o = b[0]
        if ("cached", name) in o.attrs:
            return o.attrs[("cached", name)]
        v = it.call(f, [o], {})
        it.mutated(o, "cached_property " + name)
        o.attrs[("cached", name)] = v
        return v

    return PropertyV(nat("cached_property." + name, get))


def it_zip_longest(it, a, k):
    its = [it.iter(x) for x in a]
    fill = k.get("fillvalue")

    def gen():
        alive = [True] * len(its)
        while True:
            row = []
            for i, g in enumerate(its):
                if alive[i]:
                    try:
                        row.append(next(g))
                        continue
                    except StopIteration:
                        alive[i] = False
                row.append(fill)
            if not any(alive):
                return
            yield tuple(row)

    return GenV(gen())


def it_chain(it, a, k):
    def gen():
        for x in a:
            yield from it.iter(x)

    return GenV(gen())


def it_chain_from(it, a, k):
    def gen():
        for x in it.iter(a[0]):
            yield from it.iter(x)

    return GenV(gen())


def it_islice(it, a, k):
    import itertools

    return GenV(itertools.islice(it.iter(a[0]), *a[1:]))


def it_takewhile(it, a, k):
    def gen():
        for x in it.iter(a[1]):
            if not it.truth(it.call(a[0], [x], {})):
                return
            yield x

    return GenV(gen())


def it_dropwhile(it, a, k):
    def gen():
        dropping = True
        for x in it.iter(a[1]):
            if dropping and it.truth(it.call(a[0], [x], {})):
                continue
            dropping = False
            yield x

    return GenV(gen())


def it_groupby(it, a, k):
    key = _arg(a, k, 1, "key")
    groups = []
    for x in it.iter(a[0]):
        kk = it.call(key, [x], {}) if key else x
        if groups and it.truth(it.eq(groups[-1][0], kk)):
            groups[-1][1].append(x)
        else:
            groups.append((kk, [x]))
    return GenV(iter([(g, GenV(iter(xs))) for g, xs in groups]))


def it_count(it, a, k):
    import itertools

    return GenV(itertools.count(*(a or [0])))


def it_product(it, a, k):
    import itertools

    return GenV(itertools.product(*[it.to_list(x) for x in a]))


def it_repeat(it, a, k):
    import itertools

    return GenV(itertools.repeat(*a))


def it_accumulate(it, a, k):
    import ast

    def gen():
        acc = None
        first = True
        for x in it.iter(a[0]):
            acc = x if first else (it.call(a[1], [acc, x], {}) if len(a) > 1 else it.binop(ast.Add(), acc, x))
            first = False
            yield acc

    return GenV(gen())


def op_itemgetter(it, a, k):
    def f(it, b, kk):
        r = tuple(it.getitem(b[0], x) for x in a)
        return r[0] if len(r) == 1 else r

    return nat("itemgetter", f)


def op_attrgetter(it, a, k):
    def one(o, n):
        for x in n.split("."):
            o = it.getattr(o, x)
        return o

    def f(it, b, kk):
        r = tuple(one(b[0], x) for x in a)
        return r[0] if len(r) == 1 else r

    return nat("attrgetter", f)


def op_methodcaller(it, a, k):
    return nat("methodcaller", lambda it, b, kk: it.call(it.getattr(b[0], a[0]), a[1:], k))


def cx_contextmanager(it, a, k):
    f = a[0]

    def make(it, b, kk):
        g = it.call(f, b, kk)
        o = ObjV(it.builtins["_GenCM"])
        o.data = g
        return o

    return nat("contextmanager", make)


def _gencm_exit(it, a, k):
    g = a[0].data
    if a[1] is None:
        try:
            next(g.it)
        except StopIteration:
            return False
        return False
    try:
        g.it.throw(PyRaise(a[2], it.where()))
    except StopIteration:
        return True
    except PyRaise as pr:
        if pr.exc is a[2]:
            return False
        raise
    return False


def cx_suppress(it, a, k):
    o = ObjV(it.builtins["_Suppress"])
    o.data = tuple(a)
    return o


def cx_closing(it, a, k):
    o = ObjV(it.builtins["_Closing"])
    o.data = a[0]
    return o


# click ------------------------------------------------------------------
def click_deco(kind):
    def f(it, a, k):
        if kind == "pass_context" and a and isinstance(a[0], (FuncV, NativeV)):
            fn = a[0]
            fn_attrs = fn.attrs if hasattr(fn, "attrs") else {}
            fn_attrs["__pass_ctx__"] = True
            if not hasattr(fn, "attrs"):
                fn.attrs = fn_attrs
            return fn

        def deco(it, b, kk):
            fn = b[0]
            if isinstance(fn, ObjV):
                fn.attrs.setdefault("__params__", []).insert(0, (kind, tuple(a), dict(k)))
                return fn
            if not hasattr(fn, "attrs"):
                fn.attrs = {}
            fn.attrs.setdefault("__params__", []).insert(0, (kind, tuple(a), dict(k)))
            return fn

        return nat("click." + kind, deco)

    return f


def click_command(it, a, k):
    def deco(it, b, kk):
        fn = b[0]
        cmd = ObjV(it.builtins["ClickCommand"], {"callback": fn, "name": (a[0] if a and isinstance(a[0], str) else k.get("name")) or getattr(fn.node, "name", "?") if isinstance(fn, FuncV) else "?"})
        cmd.attrs["__params__"] = getattr(fn, "attrs", {}).get("__params__", [])
        cmd.attrs["commands"] = DictV(it.builtins["dict"])
        it.models.setdefault("click_commands", {})[cmd.attrs["name"]] = cmd
        return cmd

    if a and isinstance(a[0], FuncV):
        fn = a[0]
        a = []
        return deco(it, [fn], {})
    return nat("click.command", deco)


def click_cmd_command(it, a, k):
    return click_command(it, a[1:], k)


def click_echo(it, a, k):
    it.out.append(("echo", it.str_of(a[0]) if a else "", bool(k.get("err"))))


# re -----------------------------------------------------------------------
def re_fn(name):
    def f(it, a, k):
        import re

        if isinstance(a[0], ObjV) and a[0].cls.name == "Pattern":
            pat, flags = a[0].data
            rest = a[1:]
        else:
            pat = a[0]
            rest = a[1:]
            flags = 0
            if len(a) > {"sub": 3, "subn": 3, "split": 2}.get(name, 2):
                pass
            flags = k.get("flags", a[2] if name in ("match", "search", "fullmatch", "findall", "finditer") and len(a) > 2 and isinstance(a[2], int) else 0)
            if name in ("match", "search", "fullmatch", "findall", "finditer"):
                rest = a[1:2]
        return re_apply(it, name, pat, flags, [raw(x) for x in rest], k)

    return f


def re_apply(it, name, pat, flags, args, k):
    import re

    if not isinstance(pat, str):
        return it.top("abstract pattern")
    rx = re.compile(pat, flags)
    subj = args[1] if name in ("sub", "subn") else args[0]
    if isinstance(subj, Top):
        return it.top("re on unknown")
    if not isinstance(subj, (str, AStr)):
        it.raise_("TypeError", "expected string or bytes-like object, got '%s'" % it.typename(subj))
    if isinstance(subj, str):
        if name in ("match", "search", "fullmatch"):
            m = getattr(rx, name)(subj)
            return mk_match(it, m, subj, None) if m else None
        if name == "findall":
            return ListV([x for x in rx.findall(subj)])
        if name == "finditer":
            return GenV(iter([mk_match(it, m, subj, None) for m in rx.finditer(subj)]))
        if name == "split":
            return ListV(rx.split(subj, args[1] if len(args) > 1 else k.get("maxsplit", 0)))
        if name == "sub":
            rep = args[0]
            cnt = args[2] if len(args) > 2 else k.get("count", 0)
            if isinstance(rep, str):
                return rx.sub(rep, subj, cnt)
            out = []
            pos = 0
            for i, m in enumerate(rx.finditer(subj)):
                if cnt and i >= cnt:
                    break
                out.append(subj[pos:m.start()])
                out.append(rep if isinstance(rep, AStr) else it.call(rep, [mk_match(it, m, subj, None)], {}))
                pos = m.end()
            out.append(subj[pos:])
            return mkstr(out)
        return it.top("re." + name)
    # abstract subject: representative members must agree structurally
    results = []
    for kk in range(4):
        w, spans = S.witness(subj, kk)
        ms = [m for m in rx.finditer(w)] if name in ("findall", "finditer", "sub", "split") else [m for m in [getattr(rx, name)(w)] if m]
        results.append([[_span_abs(subj, w, spans, g) for g in [m.span(i) for i in range(rx.groups + 1)]] for m in ms])
    if any(r != results[0] for r in results[1:]) or any(x == "?" for m in results[0] for x in m):
        if name in ("match", "search", "fullmatch") and all(bool(r) == bool(results[0]) for r in results):
            if not results[0]:
                return None
            o = mk_match(it, None, subj, None)
            o.data = {"tainted": True}
            return o
        if name in ("match", "search", "fullmatch"):
            if it.dbool(("re", name, pat, flags, subj)):
                o = mk_match(it, None, subj, None)
                o.data = {"tainted": True}
                return o
            return None
        return it.top("re.%s(%r) on %r" % (name, pat, subj))
    ms = results[0]
    if name in ("match", "search", "fullmatch"):
        return mk_match(it, None, subj, (ms[0], rx)) if ms else None
    if name == "findall":
        return ListV([_absub(subj, m[0] if rx.groups == 0 else m[1]) if rx.groups < 2 else tuple(_absub(subj, g) for g in m[1:]) for m in ms])
    if name == "finditer":
        return GenV(iter([mk_match(it, None, subj, (m, rx)) for m in ms]))
    if name == "sub":
        rep = args[0]
        if isinstance(rep, str) and "\\" in rep:
            if not ms:
                return subj
            return it.top("re.sub template on abstract text")
        out = []
        pos = (0, 0)
        for m in ms:
            s, e = m[0]
            out.append(_absub(subj, (pos, s)))
            out.append(rep if isinstance(rep, (str, AStr)) else it.call(rep, [mk_match(it, None, subj, (m, rx))], {}))
            pos = e
        out.append(_absub(subj, (pos, None)))
        return mkstr(out)
    if name == "split" and rx.groups == 0:
        out = []
        pos = (0, 0)
        for m in ms:
            s, e = m[0]
            out.append(_absub(subj, (pos, s)))
            pos = e
        out.append(_absub(subj, (pos, None)))
        return ListV(out)
    return it.top("re." + name)


def _span_abs(subj, w, spans, span):
    """concrete span -> ((part, off), (part, off)) or '?'"""
    if span == (-1, -1):
        return None
    parts = sparts(subj)

    def conv(pos, end):
        # prefer literal-relative positions
        for i, (a, b) in enumerate(spans):
            if a <= pos <= b:
                if isinstance(parts[i], str):
                    if pos == b and i + 1 < len(parts):
                        return (i + 1, 0)
                    return (i, pos - a)
                if pos == a:
                    return (i, 0)
                if pos == b:
                    return (i + 1, 0)
                return None
        return (len(parts), 0)

    s, e = conv(span[0], False), conv(span[1], True)
    if s is None or e is None:
        return "?"
    return (s, e)


def _absub(subj, rng):
    if rng is None:
        return None
    (i, o), e = rng
    parts = list(sparts(subj))
    if e is None:
        e = (len(parts), 0)
    out = []
    for j, p in enumerate(parts):
        if j < i or j > e[0]:
            continue
        if isinstance(p, str):
            lo = o if j == i else 0
            hi = e[1] if j == e[0] else None
            out.append(p[lo:hi])
        elif j < e[0]:
            out.append(p)
    return mkstr(out)


def mk_match(it, m, subj, ab):
    o = ObjV(it.builtins["Match"])
    o.data = {"m": m, "subj": subj, "ab": ab}
    return o


def mt_group(it, a, k):
    d = a[0].data
    idx = a[1:] or [0]
    if d.get("tainted"):
        return it.top("group of undecided match")
    if d["m"] is not None:
        r = [d["m"].group(i) for i in idx]
    else:
        ms, rx = d["ab"]
        r = []
        for i in idx:
            if isinstance(i, str):
                i = rx.groupindex[i]
            r.append(_absub(d["subj"], ms[i]) if ms[i] is not None else None)
    return r[0] if len(r) == 1 else tuple(r)


def mt_groups(it, a, k):
    d = a[0].data
    if d.get("tainted"):
        return it.top("groups of undecided match")
    if d["m"] is not None:
        return d["m"].groups()
    ms, rx = d["ab"]
    return tuple(_absub(d["subj"], g) if g is not None else None for g in ms[1:])


def mt_pos(n):
    def f(it, a, k):
        d = a[0].data
        if d.get("m") is not None:
            return getattr(d["m"], n)(*a[1:])
        return it.top("match position")

    return f


def re_compile(it, a, k):
    o = ObjV(it.builtins["Pattern"])
    if isinstance(a[0], ObjV):
        return a[0]
    o.data = (a[0], a[1] if len(a) > 1 else k.get("flags", 0))
    o.attrs["pattern"] = a[0]
    return o


def re_escape(it, a, k):
    import re

    return re.escape(a[0]) if isinstance(a[0], str) else it.top("re.escape")


# jsonschema ----------------------------------------------------------------
def js_validator(it, cls, a, k):
    o = ObjV(cls, {"schema": a[0] if a else k.get("schema"), "registry": k.get("registry"), "resolver": k.get("resolver"), "format_checker": k.get("format_checker")})
    it.models.setdefault("validators", []).append(o)
    return o


def shared_py(v, memo):
    """concrete abstract data -> plain Python data, keeping shared parts shared"""
    if isinstance(v, (DictV, ListV)):
        k = id(v)
        if k not in memo:
            if isinstance(v, DictV):
                r = memo[k] = {}
                for x, y in v.d.items():
                    r[x] = shared_py(y, memo)
            else:
                r = memo[k] = []
                r.extend(shared_py(y, memo) for y in v.items)
        return memo[k]
    if isinstance(v, tuple):
        return [shared_py(x, memo) for x in v]
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    raise Unsupported("JSON data with unknown part %r" % (v,))


def js_iter_errors(it, a, k):
    o, inst = a[0], a[1]
    it.models.setdefault("validated", []).append((o, inst))
    h = it.hooks.get("iter_errors")
    if h is not None:
        return GenV(iter(h(it, o, inst)))
    import warnings
    import jsonschema
    import referencing
    import referencing.jsonschema

    memo = {}
    schema = shared_py(o.attrs["schema"], memo)
    data = shared_py(inst, {})
    reg = o.attrs.get("registry")
    rf = reg.attrs.get("retrieve") if reg is not None else None
    pend = []

    def retrieve(uri):
        if rf is None:
            raise referencing.exceptions.NoSuchResource(ref=uri)
        try:
            r = it.call(rf, [uri], {})
        except PyRaise as ex:
            pend.append(ex)
            raise
        return referencing.Resource.from_contents(shared_py(r.attrs["contents"], memo), default_specification=referencing.jsonschema.DRAFT4)

    kw = {"registry": referencing.Registry(retrieve=retrieve)} if reg is not None else {}
    cls = getattr(jsonschema, o.cls.name)
    if rf is None and "$ref" in repr(schema)[:20000000]:
        raise Unsupported("references without a registry")
    out = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for e in cls(schema=schema, **kw).iter_errors(data):
                out.append(js_error(it, e))
    except PyRaise:
        raise
    except (Unsupported, RecursionError):
        raise
    except Exception as ex:
        if pend:
            raise pend[0]
        it.raise_("Exception" if type(ex).__name__ not in it.builtins else type(ex).__name__, "%s: %s" % (type(ex).__name__, str(ex)[:200]))
    return GenV(iter(out))


def js_error(it, e):
    x = ObjV(it.builtins["ValidationError"])
    dq = lambda d: ListV(list(d), "deque", it.builtins["deque"])
    x.attrs = {"args": (e.message,), "message": e.message, "path": dq(e.absolute_path), "relative_path": dq(e.relative_path), "absolute_path": dq(e.absolute_path), "schema_path": dq(e.absolute_schema_path),
               "absolute_schema_path": dq(e.absolute_schema_path), "relative_schema_path": dq(e.relative_schema_path), "validator": e.validator, "validator_value": pydata(it, e.validator_value) if isinstance(e.validator_value, (dict, list)) else e.validator_value,
               "instance": pydata(it, e.instance), "cause": None, "parent": None, "schema": pydata(it, e.schema) if isinstance(e.schema, dict) else e.schema, "context": ListV([js_error(it, c) for c in e.context])}
    return x


def js_is_valid(it, a, k):
    return not list(js_iter_errors(it, a, k).it)


def js_best(it, a, k):
    l = it.to_list(a[0])
    return l[0] if l else None


# jsonref ---------------------------------------------------------------------
def jr_expand(it, data, base, store, depth=0):
    if depth > 60:
        raise Unsupported("recursive $ref")
    if isinstance(data, dict):
        if set(data) >= {"$ref"} and isinstance(data["$ref"], str):
            return jr_doc(it, data["$ref"], base, store, depth)
        return DictV(it.builtins["dict"], {k: jr_expand(it, v, base, store, depth + 1) for k, v in data.items()})
    if isinstance(data, list):
        return ListV([jr_expand(it, v, base, store, depth + 1) for v in data])
    return data


def jr_doc(it, ref, base, store, depth):
    uri = ref.split("#")[0]
    frag = ref.split("#")[1] if "#" in ref else ""
    if uri:
        folder = base if base.endswith("/") else posixpath.dirname(base) + "/"
        full = folder + uri
    else:
        full = base
    key = (full, frag)
    if key in store:
        if store[key] is None:
            raise Unsupported("recursive $ref")
        return store[key]
    store[key] = None
    path = full
    for pre in ("file:////", "file:///", "file://"):
        if path.startswith(pre):
            path = "/" + path[len(pre):].lstrip("/")
            break
    path = posixpath.normpath(path)
    st = file_state(it, path)
    if st is None:
        it.raise_("JsonRefError", "unresolvable $ref %s" % ref)
    text = open(st[1], encoding="utf-8").read() if isinstance(st, tuple) else st
    data = _json.loads(text)
    for part in [p for p in frag.split("/") if p]:
        data = data[int(part)] if isinstance(data, list) else data[part]
    store[key] = jr_expand(it, data, full, store, depth + 1)
    return store[key]


def jr_load(it, a, k):
    st = file_state(it, a[0].data["path"])
    text = fl_read(it, [a[0]], {})
    return jr_loads(it, [text] + list(a[1:]), k)


def jr_loads(it, a, k):
    base = k.get("base_uri", "")
    if not isinstance(a[0], str):
        return it.top("jsonref of abstract text")
    return jr_expand(it, _json.loads(a[0]), base, {})


def jr_replace(it, a, k):
    return jr_expand(it, to_py(it, a[0]), k.get("base_uri", ""), {})


# ------------------------------------------------------------------------------
def dataclass_deco(it, a, k):
    def deco(it, b, kk):
        cls = b[0]
        fields = []
        for c in reversed(it.mro(cls)):
            if isinstance(c, ClassV) and "__annotations__" in c.ns:
                for n in c.ns["__annotations__"].d:
                    if n not in [f for f in fields]:
                        fields.append(n)

        def init(it, args, kw):
            o = args[0]
            args = args[1:]
            for i, n in enumerate(fields):
                if i < len(args):
                    v = args[i]
                elif n in kw:
                    v = kw[n]
                else:
                    dv = it.class_lookup(cls, n)
                    if isinstance(dv, ObjV) and dv.cls.name == "dataclass_field":
                        v = it.call(dv.attrs["default_factory"], [], {}) if dv.attrs.get("default_factory") else dv.attrs.get("default")
                    elif dv is None and not any(isinstance(c, ClassV) and n in c.ns for c in it.mro(cls)):
                        it.raise_("TypeError", "missing required argument: '%s'" % n)
                    else:
                        v = dv
                o.attrs[n] = v
            pi = it.class_lookup(cls, "__post_init__")
            if pi is not None:
                it.call(it.bind(pi, o, cls), [], {})

        if "__init__" not in cls.ns:
            cls.ns["__init__"] = nat(cls.name + ".__init__", init)
        if "__eq__" not in cls.ns:
            cls.ns["__eq__"] = nat("__eq__", lambda it, a, k: isinstance(a[1], ObjV) and a[1].cls is a[0].cls and all(it.truth(it.eq(a[0].attrs[f], a[1].attrs[f])) for f in fields))
        return cls

    if a and isinstance(a[0], ClassV):
        return deco(it, [a[0]], {})
    return nat("dataclass", deco)


def dc_field(it, a, k):
    o = ObjV(BuiltinClass("dataclass_field", [it.builtins["object"]]))
    o.attrs = dict(k)
    return o


def namedtuple(it, a, k):
    name, fs = a[0], a[1]
    fs = fs.replace(",", " ").split() if isinstance(fs, str) else it.to_list(fs)
    raise Unsupported("namedtuple")


def make_builtins(it):
    B = {}
    obj = BuiltinClass("object", [])
    B["object"] = obj
    obj.methods = {
        "__init__": lambda it, a, k: None,
        "__init_subclass__": lambda it, a, k: None,
        "__new__": None,
    }
    del obj.methods["__new__"]

    def bc(name, bases=None, methods=None, construct=None):
        c = BuiltinClass(name, bases or [obj], dict(methods or {}), construct=construct)
        B[name] = c
        return c

    bc("NoneType")
    num = bc("Number")
    bc("Real", [num]); bc("Integral", [num]); bc("Complex", [num])
    bc("int", None, {"__str__": lambda it, a, k: str(a[0]), "bit_length": lambda it, a, k: a[0].bit_length()})
    bc("bool", [B["int"]])
    bc("float", None, {"is_integer": lambda it, a, k: a[0].is_integer() if isinstance(a[0], float) else (it.dbool(("is_integer", a[0])) if not (isinstance(a[0], (Sym, App)) and a[0].ty == "int") else True)})
    bc("num", [B["Number"]])
    bc("any")
    sc = bc("str", None, STR)
    sc.methods["maketrans"] = StaticV(nat("str.maketrans", lambda it, a, k: pydata(it, str.maketrans(*[to_py(it, x) for x in a])) if all(isinstance(x, (str, DictV)) for x in a) else it.top("maketrans")))
    bc("bytes", None, {"decode": lambda it, a, k: a[0].decode(*[x for x in a[1:]]) if isinstance(a[0], bytes) else bytes_decode(it, a, k), "lower": lambda it, a, k: a[0].lower() if isinstance(a[0], bytes) else it.top("bytes.lower")})
    bc("list", None, LIST)
    bc("deque", [B["list"]])
    bc("tuple", None, TUPLE)
    bc("set", None, SET)
    bc("frozenset", None, {k: v for k, v in SET.items() if k not in ("add", "update", "discard", "remove", "clear", "pop")})
    bc("dict", None, DICT)
    bc("OrderedDict", [B["dict"]], ODICT)
    bc("defaultdict", [B["dict"]], {"__missing__": dd_missing})
    bc("Counter", [B["dict"]], {"__missing__": lambda it, a, k: 0})
    bc("ChainMap", [B["dict"]])
    for n in ("keys", "values", "items"):
        bc("dict_" + n, None, VIEW)
    bc("type")
    for n in ("function", "module", "generator", "range", "slice"):
        bc(n)
    B["generator"].methods = {
        "__next__": lambda it, a, k: b_next(it, a, k), "__iter__": lambda it, a, k: a[0],
        "close": lambda it, a, k: None, "send": lambda it, a, k: b_next(it, a[:1], k),
    }
    B["function"].methods = {"__get__": lambda it, a, k: BoundV(a[1], a[0]), "__call__": lambda it, a, k: it.call(a[0], a[1:], k)}
    # exceptions from the real hierarchy
    pend = [BaseException]
    done = {}

    def exc(cls):
        if cls in done:
            return done[cls]
        bases = [exc(b) if issubclass(b, BaseException) else obj for b in cls.__bases__]
        c = BuiltinClass(cls.__name__, bases, {}, pyexc=cls)
        if cls is BaseException:
            c.methods = {
                "__init__": lambda it, a, k: a[0].attrs.__setitem__("args", tuple(a[1:])),
                "with_traceback": lambda it, a, k: a[0],
                "add_note": lambda it, a, k: None,
            }
        if cls is KeyError:
            c.methods = {"__str__": lambda it, a, k: it.repr_of(a[0].attrs["args"][0]) if len(a[0].attrs["args"]) == 1 else it.repr_of(a[0].attrs["args"])}
        if cls is StopIteration:
            c.methods = {"value": PropertyV(nat("value", lambda it, a, k: (a[0].attrs["args"] or (None,))[0]))}
        if cls is OSError:
            c.methods = {
                "errno": PropertyV(nat("errno", lambda it, a, k: a[0].attrs["args"][0] if len(a[0].attrs["args"]) > 1 else None)),
                "strerror": PropertyV(nat("strerror", lambda it, a, k: a[0].attrs["args"][1] if len(a[0].attrs["args"]) > 1 else None)),
                "filename": PropertyV(nat("filename", lambda it, a, k: a[0].attrs["args"][2] if len(a[0].attrs["args"]) > 2 else None)),
            }
        if cls is UnicodeDecodeError:
            pass
        done[cls] = c
        return c

    for n in dir(_b):
        v = getattr(_b, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            B[n] = exc(v)
    B["JSONDecodeError"] = BuiltinClass("JSONDecodeError", [B["ValueError"]], {}, pyexc=ValueError)
    B["JsonRefError"] = BuiltinClass("JsonRefError", [B["Exception"]], {}, pyexc=Exception)
    bc("File", None, FILE)
    bc("Logger", None, LOGGER)
    bc("_GenCM", None, {"__enter__": lambda it, a, k: next(a[0].data.it), "__exit__": _gencm_exit})
    bc("_Suppress", None, {"__enter__": lambda it, a, k: None, "__exit__": lambda it, a, k: a[1] is not None and any(it.exc_matches(a[2], c) for c in a[0].data)})
    bc("_Closing", None, {"__enter__": lambda it, a, k: a[0].data, "__exit__": lambda it, a, k: it.call(it.getattr(a[0].data, "close"), [], {})})
    bc("_NullCM", None, {"__enter__": lambda it, a, k: a[0].attrs.get("r"), "__exit__": lambda it, a, k: None, "acquire": lambda it, a, k: True, "release": lambda it, a, k: None})
    bc("ClickCommand", None, {"command": click_cmd_command, "group": click_cmd_command, "add_command": lambda it, a, k: None,
                              "__call__": lambda it, a, k: it.call(a[0].attrs["callback"], a[1:], k), "main": lambda it, a, k: None})
    bc("Pattern", None, {n: re_fn(n) for n in ("match", "search", "fullmatch", "findall", "finditer", "sub", "split", "subn")})
    bc("Match", None, {"group": mt_group, "groups": mt_groups, "start": mt_pos("start"), "end": mt_pos("end"), "span": mt_pos("span"),
                       "__getitem__": mt_group, "groupdict": lambda it, a, k: DictV(it.builtins["dict"], a[0].data["m"].groupdict()) if a[0].data.get("m") else it.top("groupdict")})
    bc("Draft4Validator", None, {"iter_errors": js_iter_errors, "is_valid": js_is_valid, "validate": lambda it, a, k: [it.raise_(e) for e in js_iter_errors(it, a, k).it][:0] and None,
                                 "check_schema": lambda it, a, k: None, "evolve": lambda it, a, k: js_validator(it, a[0].cls, [], dict(a[0].attrs, **k))}, construct=js_validator)
    B["Draft4Validator"].methods["check_schema"] = ClassMethodV(nat("check_schema", lambda it, a, k: None))
    bc("SimpleNamespace", None, {"__init__": lambda it, a, k: a[0].attrs.update(k)})
    for n in ABC:
        bc(n)
    bc("ABC")
    bc("Enum")

    fns = dict(isinstance=b_isinstance, issubclass=b_issubclass, len=b_len, all=b_all, any=b_any, next=b_next, iter=b_iter, enumerate=b_enumerate, zip=b_zip,
               map=b_map, filter=b_filter, sorted=b_sorted, reversed=b_reversed, max=_minmax("max"), min=_minmax("min"), sum=b_sum, abs=b_abs, getattr=b_getattr,
               hasattr=b_hasattr, setattr=b_setattr, callable=b_callable, print=b_print, repr=b_repr, format=b_format, id=b_id, hash=b_hash, ord=b_ord, chr=b_chr,
               round=b_round, divmod=b_divmod, vars=b_vars, dir=b_dir, property=b_property, super=b_super, open=f_open,
               delattr=lambda it, a, k: it.delattr(a[0], a[1]), classmethod=lambda it, a, k: ClassMethodV(a[0]), staticmethod=lambda it, a, k: StaticV(a[0]),
               input=lambda it, a, k: it.top("input"), exit=sys_exit, quit=sys_exit, ascii=b_repr, __import__=lambda it, a, k: it.import_module(a[0].split(".")[0]),
               pow=lambda it, a, k: pow(*a) if all(isinstance(x, (int, float)) for x in a) else it.top("pow"),
               globals=lambda it, a, k: it.top("globals"), eval=lambda it, a, k: it.top("eval"), exec=lambda it, a, k: it.top("exec"),
               bytearray=lambda it, a, k: it.top("bytearray"), memoryview=lambda it, a, k: it.top("memoryview"), complex=lambda it, a, k: it.top("complex"),
               hex=lambda it, a, k: hex(a[0]) if isinstance(a[0], int) else it.top("hex"), oct=lambda it, a, k: it.top("oct"), bin=lambda it, a, k: it.top("bin"))
    for n, f in fns.items():
        B[n] = nat(n, f)
    B["NotImplemented"] = NotImplemented
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = True
    B["True"], B["False"], B["None"] = True, False, None
    return B


def bytes_decode(it, a, k):
    v = a[0]
    if isinstance(v, Sym) and v.data and "text" in v.data:
        e = str(_arg(a, k, 1, "encoding", "utf-8")).lower().replace("_", "-")
        if e in ("utf-8", "utf8"):
            return v.data["text"]
    if isinstance(v, Sym) and isinstance(v.name, tuple) and v.name[0] == "bytes":
        it.raise_("UnicodeDecodeError", "utf-8", b"", 0, 1, "invalid start byte")
    return it.top("bytes.decode")


def dd_missing(it, a, k):
    f = a[0].attrs.get("default_factory")
    if f is None:
        it.raise_("KeyError", a[1])
    v = it.call(f, [], {})
    it.setitem(a[0], a[1], v)
    return v


def codecs_decode(it, a, k):
    s = raw(a[0])
    enc = _arg(a, k, 1, "encoding", "utf-8")
    if isinstance(s, str):
        import codecs

        try:
            return codecs.decode(s, enc)
        except Exception as ex:
            it.raise_("UnicodeDecodeError" if isinstance(ex, UnicodeDecodeError) else type(ex).__name__, str(ex))
    return AStr([Atom(("codecs.decode", s, enc), UNIVERSE, 0, None)])


def glob_glob(it, a, k):
    r = it.env.get("glob")
    if r is not None:
        return ListV(r(a[0]))
    return it.top("glob")


def model_modules(it):
    B = it.builtins
    M = {}

    def mod(mname, /, **ns):
        M[mname] = ModuleV(mname, ns)
        return M[mname]

    path = mod("os.path", join=nat("os.path.join", p_join), isabs=nat("isabs", p_isabs), abspath=nat("abspath", p_abspath), dirname=nat("dirname", p_dirname),
               basename=nat("basename", p_basename), splitext=nat("splitext", p_splitext), split=nat("split", p_split), exists=nat("exists", p_exists),
               isfile=nat("isfile", p_isfile), isdir=nat("isdir", p_isdir), realpath=nat("realpath", lambda it, a, k: p_abspath(it, a, k)), normpath=nat("normpath", p_norm),
               expanduser=nat("expanduser", lambda it, a, k: a[0]), expandvars=nat("expandvars", lambda it, a, k: a[0]), sep="/", relpath=nat("relpath", lambda it, a, k: it.top("relpath")),
               normcase=nat("normcase", lambda it, a, k: a[0]))
    M["posixpath"] = path

    def environ_get(it, a, k):
        if a[0] == "MAPPYFILE_USE_CYTHON":
            return it.env.get("environ", {}).get(a[0], _arg(a, k, 1, "default"))
        e = it.env.get("environ", {})
        if a[0] in e:
            return e[a[0]]
        it.nondet.append(("os.environ", it.where()))
        return _arg(a, k, 1, "default")

    environ = ObjV(BuiltinClass("environ", [B["object"]], {"get": environ_get, "__getitem__": lambda it, a, k: environ_get(it, [a[0], a[1]], k) if False else _env_item(it, a),
                                                           "__contains__": lambda it, a, k: a[1] in it.env.get("environ", {})}))
    for n in ("get",):
        pass
    environ.cls.methods["get"] = lambda it, a, k: environ_get(it, a[1:], k)
    mod("os", path=path, getcwd=nat("os.getcwd", _getcwd), sep="/", linesep="\n", environ=environ, getenv=nat("getenv", environ_get), name="posix",
        fspath=nat("fspath", lambda it, a, k: _path(it, a[0])), PathLike=BuiltinClass("PathLike", [B["object"]]), pathsep=":", altsep=None, extsep=".", curdir=".",
        getpid=nat("getpid", lambda it, a, k: Sym("pid", "int")), remove=nat("remove", lambda it, a, k: it.effect("fs", "remove", repr(a[0]))),
        replace=nat("replace", lambda it, a, k: it.effect("fs", "replace", repr(a))), rename=nat("rename", lambda it, a, k: it.effect("fs", "rename", repr(a))),
        makedirs=nat("makedirs", lambda it, a, k: None), listdir=nat("listdir", lambda it, a, k: it.top("listdir")), linesep_="\n",
        chdir=nat("chdir", lambda it, a, k: (it.effect("process-state", "cwd", ""), it.env.__setitem__("cwd", a[0]))[0]))
    mod("io", open=B["open"], StringIO=BuiltinClass("StringIO", [B["File"]], construct=lambda it, c, a, k: _stringio(it, c, a)), TextIOWrapper=BuiltinClass("TextIOWrapper", [B["object"]]),
        IOBase=BuiltinClass("IOBase", [B["object"]]), BytesIO=ext("io.BytesIO"), UnsupportedOperation=B["OSError"])
    mod("codecs", open=nat("codecs.open", lambda it, a, k: f_open(it, a, k, "codecs")), decode=nat("codecs.decode", codecs_decode), encode=nat("codecs.encode", lambda it, a, k: it.top("codecs.encode")), BOM_UTF8=b"\xef\xbb\xbf")
    mod("json", dumps=nat("json.dumps", j_dumps), loads=nat("json.loads", j_loads), load=nat("json.load", j_load), dump=nat("json.dump", j_dump), JSONDecodeError=B["JSONDecodeError"],
        JSONEncoder=BuiltinClass("JSONEncoder", [B["object"]]))
    mod("logging", getLogger=nat("getLogger", get_logger), NullHandler=BuiltinClass("NullHandler", [B["object"]]), basicConfig=nat("basicConfig", lambda it, a, k: it.out.append(("basicConfig", dict(k)))),
        DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50, Logger=B["Logger"], StreamHandler=BuiltinClass("StreamHandler", [B["object"]], {"__init__": lambda it, a, k: None}), **{n: nat(n, (lambda nn: lambda it, a, k: it.out.append(("log", nn, tuple(a))))(n)) for n in ("debug", "info", "warning", "error", "critical", "exception")})
    mod("sys", exit=nat("sys.exit", sys_exit), modules=DictV(B["dict"]), version_info=(3, 12, 3, "final", 0), stderr=ObjV(B["File"]), stdout=ObjV(B["File"]), stdin=ext("sys.stdin"), argv=ListV(["mappyfile"]),
        platform="linux", maxsize=2 ** 63 - 1, version="3.12.3", getrecursionlimit=nat("grl", lambda it, a, k: 1000), setrecursionlimit=nat("srl", lambda it, a, k: it.effect("process-state", "recursionlimit", "")),
        executable="/usr/bin/python3", getsizeof=nat("getsizeof", lambda it, a, k: 1), exc_info=nat("exc_info", lambda it, a, k: (it.cur_exc[-1].cls, it.cur_exc[-1], None) if it.cur_exc else (None, None, None)), intern=nat("intern", lambda it, a, k: a[0]), path=ListV([]),
        getfilesystemencoding=nat("gfe", lambda it, a, k: "utf-8"), getdefaultencoding=nat("gde", lambda it, a, k: "utf-8"))
    for n in ("stderr", "stdout"):
        M["sys"].ns[n].data = {"path": "<%s>" % n, "mode": "w", "encoding": "utf-8", "newline": None, "buf": [], "errors": None, "via": "open", "pos": 0}
    mod("glob", glob=nat("glob.glob", glob_glob), iglob=nat("glob.iglob", lambda it, a, k: GenV(it.iter(glob_glob(it, a, k)))), escape=nat("escape", lambda it, a, k: a[0]), has_magic=nat("has_magic", lambda it, a, k: any(c in a[0] for c in "*?[") if isinstance(a[0], str) else it.top("has_magic")))
    mod("functools", wraps=nat("wraps", ft_wraps), partial=nat("partial", ft_partial), reduce=nat("reduce", ft_reduce), lru_cache=nat("lru_cache", ft_lru), cache=nat("cache", ft_lru),
        cached_property=nat("cached_property", ft_cached_property), total_ordering=nat("total_ordering", lambda it, a, k: a[0]), singledispatch=ext("functools.singledispatch"),
        update_wrapper=nat("update_wrapper", lambda it, a, k: a[0]), cmp_to_key=ext("functools.cmp_to_key"), partialmethod=ext("functools.partialmethod"))
    chain = nat("itertools.chain", it_chain)
    chain.attrs = {"from_iterable": nat("from_iterable", it_chain_from)}
    mod("itertools", zip_longest=nat("zip_longest", it_zip_longest), chain=chain, islice=nat("islice", it_islice), takewhile=nat("takewhile", it_takewhile), dropwhile=nat("dropwhile", it_dropwhile),
        groupby=nat("groupby", it_groupby), count=nat("count", it_count), product=nat("product", it_product), repeat=nat("repeat", it_repeat), accumulate=nat("accumulate", it_accumulate),
        starmap=nat("starmap", lambda it, a, k: GenV(it.call(a[0], it.to_list(x), {}) for x in it.iter(a[1]))), tee=nat("tee", lambda it, a, k: (lambda l: (GenV(iter(l)), GenV(iter(list(l)))))(it.to_list(a[0]))),
        pairwise=nat("pairwise", lambda it, a, k: (lambda l: GenV(iter(list(zip(l, l[1:])))))(it.to_list(a[0]))), filterfalse=nat("filterfalse", lambda it, a, k: GenV(x for x in it.iter(a[1]) if not it.truth(it.call(a[0], [x], {})))))
    mod("collections", OrderedDict=B["OrderedDict"], defaultdict=B["defaultdict"], Counter=B["Counter"], deque=B["deque"], namedtuple=nat("namedtuple", namedtuple), ChainMap=B["ChainMap"],
        UserDict=ext("collections.UserDict"), abc=None)
    abcm = mod("collections.abc", **{n: B[n] for n in ABC})
    M["collections"].ns["abc"] = abcm
    mod("copy", copy=nat("copy.copy", lambda it, a, k: it.shallow_copy(a[0])), deepcopy=nat("copy.deepcopy", lambda it, a, k: it.deepcopy(a[0])))
    mod("copyreg", __newobj__=nat("newobj", lambda it, a, k: it.alloc(a[0], a[0], [], {})))
    mod("pickle", dumps=nat("pickle.dumps", lambda it, a, k: _pickle(it, a[0])), loads=nat("pickle.loads", lambda it, a, k: a[0].data["v"]() if isinstance(a[0], Sym) and a[0].data else it.top("pickle.loads")))
    mod("numbers", Number=B["Number"], Real=B["Real"], Integral=B["Integral"], Complex=B["Complex"])
    tns = {n: ext("typing." + n) for n in ("Any", "Optional", "Union", "List", "Dict", "Tuple", "IO", "TextIO", "Type", "cast_", "Literal", "Final", "ClassVar", "Set_", "FrozenSet", "overload_", "Text", "AnyStr", "NoReturn", "TypedDict", "Protocol", "Generic", "Self")}
    for n in ABC:
        tns.setdefault(n, B[n])
    tns["cast"] = nat("cast", lambda it, a, k: a[1])
    tns["TYPE_CHECKING"] = False
    tns["TypeVar"] = nat("TypeVar", lambda it, a, k: ext("typing.TypeVar"))
    tns["overload"] = nat("overload", lambda it, a, k: a[0])
    tns["NamedTuple"] = nat("typing.NamedTuple", namedtuple)
    tns["no_type_check"] = nat("ntc", lambda it, a, k: a[0])
    tns["Dict"], tns["List"], tns["OrderedDict"], tns["Set"] = B["dict"], B["list"], B["OrderedDict"], B["set"]
    mod("typing", **tns)
    mod("typing_extensions", **tns)
    mod("types", ModuleType=nat("ModuleType", lambda it, a, k: ModuleV(a[0], {"__name__": a[0]})), SimpleNamespace=B["SimpleNamespace"], MappingProxyType=nat("MappingProxyType", lambda it, a, k: a[0]), FunctionType=B["function"], GeneratorType=B["generator"])
    mod("warnings", warn=nat("warn", lambda it, a, k: it.out.append(("warn", tuple(a)))), simplefilter=nat("simplefilter", lambda it, a, k: it.effect("process-state", "warnings filter", "")), filterwarnings=nat("fw", lambda it, a, k: it.effect("process-state", "warnings filter", "")), catch_warnings=nat("cw", lambda it, a, k: ObjV(B["_NullCM"])))
    meta = mod("importlib.metadata", entry_points=nat("entry_points", lambda it, a, k: ListV([])), version=nat("version", lambda it, a, k: "1.0"), PackageNotFoundError=B["Exception"])
    mod("importlib", metadata=meta, resources=ext("importlib.resources"), import_module=nat("import_module", lambda it, a, k: it.import_module(a[0])))
    mod("importlib.resources", files=ext("importlib.resources.files"))
    mod("operator", itemgetter=nat("itemgetter", op_itemgetter), attrgetter=nat("attrgetter", op_attrgetter), methodcaller=nat("methodcaller", op_methodcaller),
        eq=nat("eq", lambda it, a, k: it.eq(a[0], a[1])), ne=nat("ne", lambda it, a, k: not it.truth(it.eq(a[0], a[1]))), getitem=nat("getitem", lambda it, a, k: it.getitem(a[0], a[1])),
        contains=nat("contains", lambda it, a, k: it.contains(a[0], a[1])), lt=nat("lt", lambda it, a, k: it.order("Lt", a[0], a[1])), le=nat("le", lambda it, a, k: it.order("LtE", a[0], a[1])),
        gt=nat("gt", lambda it, a, k: it.order("Gt", a[0], a[1])), ge=nat("ge", lambda it, a, k: it.order("GtE", a[0], a[1])), not_=nat("not_", lambda it, a, k: not it.truth(a[0])), is_=nat("is_", lambda it, a, k: it.is_(a[0], a[1])),
        add=nat("add", lambda it, a, k: it.binop(__import__("ast").Add(), a[0], a[1])), concat=nat("concat", lambda it, a, k: it.binop(__import__("ast").Add(), a[0], a[1])), index=nat("index", lambda it, a, k: a[0]))
    mod("contextlib", contextmanager=nat("contextmanager", cx_contextmanager), suppress=nat("suppress", cx_suppress), closing=nat("closing", cx_closing), nullcontext=nat("nullcontext", lambda it, a, k: ObjV(B["_NullCM"], {"r": a[0] if a else None})), ExitStack=ext("contextlib.ExitStack"))
    lockc, rlock, local, cvar = lock_classes(it, B)
    mod("threading", Lock=lockc, RLock=rlock, local=local, current_thread=ext("threading.current_thread"), get_ident=nat("get_ident", lambda it, a, k: 1 + it.thread), Thread=ext("threading.Thread"))
    mod("contextvars", ContextVar=cvar)
    cls_click = {n: nat("click." + n, click_deco(n)) for n in ("option", "argument", "version_option", "help_option", "pass_context", "pass_obj")}
    mod("click", group=nat("click.group", click_command), command=nat("click.command", click_command), echo=nat("click.echo", click_echo), secho=nat("click.secho", click_echo),
        Path=nat("click.Path", lambda it, a, k: _ctype(it, "Path", a, k)), FLOAT=_ctype(it, "FLOAT", [], {}), INT=_ctype(it, "INT", [], {}), STRING=_ctype(it, "STRING", [], {}), BOOL=_ctype(it, "BOOL", [], {}),
        Choice=nat("click.Choice", lambda it, a, k: _ctype(it, "Choice", a, k)), IntRange=nat("click.IntRange", lambda it, a, k: _ctype(it, "IntRange", a, k)), File=nat("click.File", lambda it, a, k: _ctype(it, "File", a, k)), format_filename=nat("format_filename", lambda it, a, k: a[0]),
        ClickException=BuiltinClass("ClickException", [B["Exception"]], {}, pyexc=Exception), BadParameter=BuiltinClass("BadParameter", [B["Exception"]], {}, pyexc=Exception), UsageError=BuiltinClass("UsageError", [B["Exception"]], {}, pyexc=Exception),
        Abort=BuiltinClass("Abort", [B["Exception"]], {}, pyexc=Exception), Context=BuiltinClass("Context", [B["object"]]), get_current_context=ext("click.get_current_context"), style=nat("click.style", lambda it, a, k: a[0]), **cls_click)
    rem = {n: nat("re." + n, re_fn(n)) for n in ("match", "search", "fullmatch", "findall", "finditer", "sub", "split", "subn")}
    import re as _re

    mod("re", compile=nat("re.compile", re_compile), escape=nat("re.escape", re_escape), I=int(_re.I), IGNORECASE=int(_re.I), M=int(_re.M), MULTILINE=int(_re.M), S=int(_re.S), DOTALL=int(_re.S), X=int(_re.X), VERBOSE=int(_re.X), ASCII=int(_re.A), UNICODE=int(_re.U), error=B["ValueError"],
        Pattern=B["Pattern"], Match=B["Match"], **rem)
    import string as _string

    mod("string", ascii_letters=_string.ascii_letters, digits=_string.digits, punctuation=_string.punctuation, whitespace=_string.whitespace, ascii_lowercase=_string.ascii_lowercase, ascii_uppercase=_string.ascii_uppercase, hexdigits=_string.hexdigits, printable=_string.printable)
    mod("textwrap", dedent=nat("dedent", lambda it, a, k: __import__("textwrap").dedent(a[0]) if isinstance(a[0], str) else it.top("dedent")), indent=nat("indent", lambda it, a, k: __import__("textwrap").indent(a[0], a[1]) if all(isinstance(x, str) for x in a[:2]) else it.top("textwrap.indent")))
    mod("dataclasses", dataclass=nat("dataclass", dataclass_deco), field=nat("field", dc_field))
    mod("abc", ABC=B["ABC"], abstractmethod=nat("abstractmethod", lambda it, a, k: a[0]), ABCMeta=B["type"])
    mod("enum", Enum=B["Enum"], IntEnum=ext("enum.IntEnum"))

    def nd(name, ty="num"):
        def f(it, a, k):
            it.nondet.append((name, it.where()))
            it.counter += 1
            return Sym((name, it.counter), ty)

        return nat(name, f)

    mod("time", time=nd("time.time", "float"), perf_counter=nd("time.perf_counter", "float"), monotonic=nd("time.monotonic", "float"), sleep=nat("sleep", lambda it, a, k: None), strftime=nd("time.strftime", "any"))
    mod("random", random=nd("random.random", "float"), shuffle=nat("shuffle", lambda it, a, k: it.nondet.append(("shuffle", it.where()))), choice=nd("random.choice", "any"), randint=nd("random.randint", "int"))
    mod("uuid", uuid4=nd("uuid.uuid4", "any"))
    mod("math", floor=nat("floor", lambda it, a, k: __import__("math").floor(a[0]) if isinstance(a[0], (int, float)) else App("floor", (a[0],), "int")), ceil=nat("ceil", lambda it, a, k: __import__("math").ceil(a[0]) if isinstance(a[0], (int, float)) else App("ceil", (a[0],), "int")), inf=float("inf"), isinf=nat("isinf", lambda it, a, k: __import__("math").isinf(a[0]) if isinstance(a[0], (int, float)) else False), isnan=nat("isnan", lambda it, a, k: __import__("math").isnan(a[0]) if isinstance(a[0], (int, float)) else False), isfinite=nat("isfinite", lambda it, a, k: __import__("math").isfinite(a[0]) if isinstance(a[0], (int, float)) else True), nan=float("nan"))
    mod("platform", system=nat("system", lambda it, a, k: "Linux"))
    mod("tempfile", **{n: ext("tempfile." + n) for n in ("NamedTemporaryFile", "mkstemp", "TemporaryDirectory", "gettempdir")})
    mod("shutil", **{n: ext("shutil." + n) for n in ("copy", "move", "rmtree", "copyfile")})
    mod("traceback", format_exc=nat("format_exc", lambda it, a, k: AStr([Atom("traceback", UNIVERSE)])), print_exc=nat("print_exc", lambda it, a, k: None))
    mod("inspect", signature=ext("inspect.signature"), isclass=nat("isclass", lambda it, a, k: isinstance(a[0], (ClassV, BuiltinClass))))
    pc = BuiltinClass("Path", [B["object"]], {
        "exists": lambda it, a, k: p_exists(it, a, k), "is_file": lambda it, a, k: p_isfile(it, a, k), "is_dir": lambda it, a, k: p_isdir(it, a, k), "is_absolute": lambda it, a, k: p_isabs(it, a, k),
        "__truediv__": lambda it, a, k: mkpath(it, p_join(it, [a[0].attrs["p"], a[1]], {})), "__str__": lambda it, a, k: a[0].attrs["p"], "__fspath__": lambda it, a, k: a[0].attrs["p"],
        "read_text": lambda it, a, k: fl_read(it, [f_open(it, [a[0].attrs["p"], "r"], {"encoding": _arg(a, k, 1, "encoding")})], {}), "open": lambda it, a, k: f_open(it, [a[0].attrs["p"]] + a[1:], k),
        "write_text": lambda it, a, k: fl_write(it, [f_open(it, [a[0].attrs["p"], "w"], {"encoding": _arg(a, k, 2, "encoding"), "newline": k.get("newline")}), a[1]], {}),
        "resolve": lambda it, a, k: mkpath(it, p_abspath(it, [a[0]], {})), "absolute": lambda it, a, k: mkpath(it, p_abspath(it, [a[0]], {})),
        "parent": PropertyV(nat("parent", lambda it, a, k: mkpath(it, p_dirname(it, [a[0].attrs["p"]], {}) or "."))), "name": PropertyV(nat("name", lambda it, a, k: p_basename(it, [a[0].attrs["p"]], {}))),
        "suffix": PropertyV(nat("suffix", lambda it, a, k: p_splitext(it, [a[0].attrs["p"]], {})[1])), "joinpath": lambda it, a, k: mkpath(it, p_join(it, [a[0].attrs["p"]] + a[1:], {})),
        "stem": PropertyV(nat("stem", lambda it, a, k: p_splitext(it, [p_basename(it, [a[0].attrs["p"]], {})], {})[0])), "as_posix": lambda it, a, k: a[0].attrs["p"],
        "as_uri": lambda it, a, k: mkstr(["file://", a[0].attrs["p"]]),
        "with_suffix": lambda it, a, k: mkpath(it, mkstr([p_splitext(it, [a[0].attrs["p"]], {})[0], a[1]])),
    }, construct=lambda it, c, a, k: mkpath(it, p_join(it, a, {}) if a else "."))
    pc.methods["cwd"] = StaticV(nat("cwd", lambda it, a, k: mkpath(it, _getcwd(it, a, k))))
    B["Path"] = pc
    mod("pathlib", Path=pc, PurePath=pc, PurePosixPath=pc)
    ve = BuiltinClass("ValidationError", [B["Exception"]], {}, pyexc=Exception)
    B["ValidationError"] = ve
    jex = mod("jsonschema.exceptions", ValidationError=ve, SchemaError=BuiltinClass("SchemaError", [B["Exception"]], {}, pyexc=Exception), RefResolutionError=BuiltinClass("RefResolutionError", [B["Exception"]], {}, pyexc=Exception), best_match=nat("best_match", js_best), relevance=ext("relevance"))
    vld = mod("jsonschema.validators", Draft4Validator=B["Draft4Validator"], validator_for=nat("validator_for", lambda it, a, k: B["Draft4Validator"]), extend=nat("extend", lambda it, a, k: it.top("jsonschema.extend")))
    mod("jsonschema", Draft4Validator=B["Draft4Validator"], ValidationError=ve, exceptions=jex, validators=vld, SchemaError=jex.ns["SchemaError"], FormatChecker=nat("FormatChecker", lambda it, a, k: None),
        Draft7Validator=BuiltinClass("Draft7Validator", [B["Draft4Validator"]], {}, construct=js_validator), Draft6Validator=BuiltinClass("Draft6Validator", [B["Draft4Validator"]], {}, construct=js_validator), Draft3Validator=BuiltinClass("Draft3Validator", [B["Draft4Validator"]], {}, construct=js_validator), Draft202012Validator=BuiltinClass("Draft202012Validator", [B["Draft4Validator"]], {}, construct=js_validator), RefResolver=ext("jsonschema.RefResolver"))
    mod("jsonref", load=nat("jsonref.load", jr_load), loads=nat("jsonref.loads", jr_loads), replace_refs=nat("jsonref.replace_refs", jr_replace), JsonRef=BuiltinClass("JsonRef", [B["object"]]), JsonRefError=B["JsonRefError"])
    reg = BuiltinClass("Registry", [B["object"]], {"__init__": lambda it, a, k: a[0].attrs.update(k), "with_resource": lambda it, a, k: a[0], "with_resources": lambda it, a, k: a[0], "with_contents": lambda it, a, k: a[0]})
    res = BuiltinClass("Resource", [B["object"]], {"__init__": lambda it, a, k: a[0].attrs.update(k)})
    res.methods["from_contents"] = StaticV(nat("Resource.from_contents", lambda it, a, k: ObjV(res, {"contents": a[0], "spec": k.get("default_specification")})))
    mod("referencing", Registry=reg, Resource=res, jsonschema=None, exceptions=ext("referencing.exceptions"))
    M["referencing"].ns["jsonschema"] = mod("referencing.jsonschema", DRAFT4=ObjV(BuiltinClass("Specification", [B["object"]]), {"name": "draft4", "create_resource": nat("create_resource", lambda it, a, k: ObjV(res, {"contents": a[0], "spec": "draft4"}))}), DRAFT7=ObjV(BuiltinClass("Specification", [B["object"]]), {"name": "draft7"}))
    mod("__future__", annotations=None)
    mod("builtins", **B)
    from . import larkmodel

    larkmodel.install(it, M, mod)
    return M


def _env_item(it, a):
    e = it.env.get("environ", {})
    if a[1] in e:
        return e[a[1]]
    it.raise_("KeyError", a[1])


def _stringio(it, c, a):
    f = ObjV(c, {"closed": False})
    f.data = {"path": None, "mode": "w+", "encoding": None, "newline": "", "buf": list(a[:1]), "errors": None, "via": "stringio", "pos": 0}
    c.methods.setdefault("read", lambda it, a, k: mkstr(a[0].data["buf"]))
    return f


def mkpath(it, p):
    return ObjV(it.builtins["Path"], {"p": p})


def _ctype(it, n, a, k):
    return ObjV(BuiltinClass("ParamType", [it.builtins["object"]]), {"name": n, "args": tuple(a), "kw": dict(k)})


def _getcwd(it, a, k):
    it.models.setdefault("cwd_reads", []).append(it.where())
    return it.env.get("cwd", "/cwd")


def _pickle(it, v):
    def loads():
        return it.deepcopy_pickle(v)

    s = Sym(("pickle", id(v)), "bytes")
    snap = v
    s.data = {"v": lambda: pickle_copy(it, snap)}
    return s


def pickle_copy(it, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, ListV):
        r = ListV((), v.kind, v.cls)
        memo[id(v)] = r
        r.items = [pickle_copy(it, x, memo) for x in v.items]
        return r
    if isinstance(v, tuple):
        return tuple(pickle_copy(it, x, memo) for x in v)
    if isinstance(v, DictV) and isinstance(v.cls, ClassV):
        class _D:  # deep copy callback through the reduce protocol
            pass

        old = it.deepcopy
        it.deepcopy = lambda x, m=None: pickle_copy(it, x, memo)
        try:
            r = it.reduce_copy(v, deep=True, memo=memo)
        finally:
            it.deepcopy = old
        memo[id(v)] = r
        return r
    if isinstance(v, DictV):
        r = DictV(v.cls)
        memo[id(v)] = r
        r.d = {k: pickle_copy(it, x, memo) for k, x in v.d.items()}
        return r
    if isinstance(v, (FuncV, BoundV)) and (isinstance(v, BoundV) or v.qualname.startswith("<lambda>") or "<locals>" in v.qualname):
        it.raise_("AttributeError", "Can't pickle %r" % (v,))
    return v


def install(it):
    it.builtins = make_builtins(it)
    it.builtins_modules = model_modules(it)
    it.models = {}

    def model_module(name):
        if name in it.builtins_modules:
            return it.builtins_modules[name]
        if name == "lark_cython" :
            it.raise_("ImportError", "No module named '%s'" % name)
        if name.split(".")[0] == it.project.package:
            it.raise_("ModuleNotFoundError", "No module named '%s'" % name)
        return ModuleV(name, _Extern(name))

    def model_attr(m, name):
        if isinstance(m.ns, _Extern):
            return ExternV(m.name + "." + name)
        if m.name + "." + name in it.builtins_modules:
            return it.builtins_modules[m.name + "." + name]
        if m.name in it.builtins_modules and m.name not in ("builtins",):
            return ExternV(m.name + "." + name)
        return None

    it.model_module = model_module
    it.model_attr = model_attr
    it.construct_builtin = lambda cls, orig, a, k: construct_builtin(it, cls, orig, a, k)


class _Extern(dict):
    def __init__(self, name):
        dict.__init__(self)
