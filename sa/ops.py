"""Operations on abstract values (mixed into Interp)."""
from __future__ import annotations
import ast
import operator
from .values import *
from . import strings as S

_BIN = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv,
    "Mod": operator.mod, "Pow": operator.pow, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
    "LShift": operator.lshift, "RShift": operator.rshift,
}
_CMP = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}
_DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "BitAnd": "and",
           "BitOr": "or", "BitXor": "xor", "Pow": "pow"}
CONC = (str, int, float, bool, bytes, type(None))
STRNUM_INT = ("7", "-40", "123", "0")
STRNUM_FLOAT = ("2.5", "1e-05", "1e+16", "-0.25", "10.0")


def is_num(v):
    return isinstance(v, (int, float)) or isinstance(v, (Sym, App)) and v.ty in ("int", "float", "num", "bool")


def raw(v):
    """pure-python tokens behave as their text"""
    if isinstance(v, ObjV) and v.data is not None and isinstance(v.data, dict) and "strval" in v.data:
        return v.data["strval"]
    return v


def concrete(v):
    if isinstance(v, CONC):
        return True
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    return False


def strnum(v, it=None):
    """abstract text of a symbolic number; with an interpreter, one partition per spelling str() can produce
    (sign, fixed or exponent notation; finite numbers only)"""
    ty = getattr(v, "ty", "num")
    if ty == "bool":
        return None
    if it is None:
        if ty == "int":
            return AStr([Atom(("strnum", v), DIGITS | {"-"}, 1, None, (), STRNUM_INT)])
        return AStr([Atom(("strnum", v), DIGITS | frozenset("-+.e"), 1, None, (), STRNUM_FLOAT if ty == "float" else STRNUM_INT + STRNUM_FLOAT)])
    sign = None
    if isinstance(v, App) and v.op in ("int", "float") and isinstance(v.args[0], (str, AStr)):
        t = v.args[0]
        f = t[:1] if isinstance(t, str) else t.parts[0]
        if isinstance(f, str):
            sign = "-" if f[0] == "-" and ty == "float" else None if f[0] == "-" else ""
        elif f.cs <= DIGITS:
            sign = ""
    if sign is None:
        sign = "-" if it.dbool(("negative", v)) else ""
    kind = ty
    if ty == "num":
        kind = "int" if it.dbool(("numint", v)) else "float"
    D = lambda i: Atom(("strnum", v, i), DIGITS, 1, None, (), None)
    if kind == "int":
        parts = [D(0)]
    else:
        n = it.decide(("floatform", v), 3)
        parts = [D(0)] if n == 1 else [D(0), ".", D(1)]
        if n:
            parts += ["e", Atom(("strnum", v, 3), frozenset("+-"), 1, 1, (), None), D(2)]
    return mkstr(([sign] if sign else []) + parts)


def linear(e):
    """an integer expression as {term: coefficient}, None for the constant"""
    if isinstance(e, int):
        return {None: int(e)}
    if isinstance(e, App):
        if e.op == "Add":
            return minus(linear(e.args[0]), {k: -v for k, v in linear(e.args[1]).items()})
        if e.op == "Sub":
            return minus(linear(e.args[0]), linear(e.args[1]))
        if e.op == "len" and isinstance(e.args[0], AStr):
            out = {}
            for p in e.args[0].parts:
                if isinstance(p, str):
                    t = {None: len(p)}
                elif p.hi is not None and p.lo == p.hi and not p.xf:
                    t = {None: p.lo}
                else:
                    t = {App("len", (AStr([p]),), "int"): 1}
                out = minus(out, {k: -v for k, v in t.items()})
            return out
    return {e: 1}


def minus(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) - v
    return {k: v for k, v in out.items() if v}


def lower_bound(e):
    """a number the integer expression is at least (-1: unknown)"""
    d = linear(e)
    for _ in range(4):
        for t, c in list(d.items()):
            if c > 0 and isinstance(t, App) and t.op in ("trunc", "int") and isinstance(t.args[0], App) and t.args[0].op == "Div" and t.args[0].args[1] == 1 and nonneg(linear(t.args[0].args[0])):
                d = minus({k: v for k, v in d.items() if k is not t}, {k: -v * c for k, v in linear(t.args[0].args[0]).items()})
                break
            # (int(x / m) + 1) * m > x for x >= 0
            if c > 0 and isinstance(t, App) and t.op == "Mult" and isinstance(t.args[1], int) and t.args[1] > 0:
                m = t.args[1]
                a = t.args[0]
                if isinstance(a, App) and a.op == "Add" and a.args[1] == 1 and isinstance(a.args[0], App) and a.args[0].op in ("trunc", "int", "FloorDiv"):
                    q = a.args[0] if a.args[0].op == "FloorDiv" else a.args[0].args[0]
                    if isinstance(q, App) and q.op in ("Div", "FloorDiv") and q.args[1] == m and nonneg(linear(q.args[0])):
                        rest = {k: v for k, v in d.items() if k is not t}
                        d = minus(rest, {k: -v * c for k, v in minus(linear(q.args[0]), {None: -1}).items()})
                        break
        else:
            break
    return d.get(None, 0) if nonneg(minus(d, {None: d.get(None, 0)})) else -1


def nonneg(d):
    return all(v > 0 and (k is None or isinstance(k, App) and k.op == "len") for k, v in d.items())


class OrdSym(Sym):
    """A number known only through its order relative to the constants of the program (represented by `rep`).
    Only comparisons and conversion to an opaque text are interpreted."""

    __slots__ = ("rep",)

    def __init__(self, name, rep):
        Sym.__init__(self, name, "float")
        self.rep = rep

    def __repr__(self):
        return "?%s~%s" % (self.name, self.rep)


class Ops:
    # ------------------------------------------------------------ truth / equality
    def truth(self, v):
        if v is True or v is False:
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, bytes, tuple, frozenset, range)):
            return bool(v)
        if isinstance(v, AStr):
            if S.min_len(v) > 0:
                return True
            return not self.dbool(("empty", v))
        if isinstance(v, (ListV, SetV)):
            um = self.user_method(v, "__bool__") or self.user_method(v, "__len__") if isinstance(v, ListV) else None
            if um is not None:
                return self.truth(self.call(um, [], {}))
            return bool(v.items)
        if isinstance(v, DictV):
            um = self.user_method(v, "__bool__") or self.user_method(v, "__len__")
            if um is not None:
                return self.truth(self.call(um, [], {}))
            return bool(v.d)
        if isinstance(v, OrdSym):
            return v.rep != 0
        if isinstance(v, ObjV):
            r = raw(v)
            if r is not v:
                return self.truth(r)
            for n in ("__bool__", "__len__"):
                m = self.class_lookup(v.cls, n)
                if m is not None:
                    return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
            return True
        if isinstance(v, (Sym, App)):
            if isinstance(v, Sym) and v.data and "truth" in v.data:
                return v.data["truth"]
            if v.ty in ("int", "float", "num"):
                # generic number: zero is a special constant
                self.seen_consts.add(0)
                return True
            if v.ty == "bool":
                return self.dbool(("truth", v))
            self.add_taint("truth of %r" % (v,))
            return self.dbool(("truth", v))
        if isinstance(v, Top):
            self.add_taint("branch on unknown (%s)" % v.why)
            self.counter += 1
            return self.dbool(("top", self.counter))
        return True

    def eq(self, a, b):
        """abstract ==; returns True/False or decides"""
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, Top) or isinstance(b, Top):
            self.add_taint("== on unknown")
            self.counter += 1
            return self.dbool(("topeq", self.counter))
        if isinstance(a, (ObjV, DictV, ListV)):
            m = self.user_method(a, "__eq__")
            if m is not None:
                r = self.call(m, [b], {})
                if r is not NotImplemented:
                    return r
        if isinstance(b, (ObjV, DictV, ListV)) :
            m = self.user_method(b, "__eq__")
            if m is not None:
                r = self.call(m, [a], {})
                if r is not NotImplemented:
                    return r
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ObjV):
                m = self.class_lookup(x.cls, "__eq__")
                if m is not None:
                    r = self.call(self.bind(m, x, x.cls), [y], {})
                    if r is not NotImplemented:
                        return r
        a, b = raw(a), raw(b)
        if isinstance(a, CONC) and isinstance(b, CONC):
            return a == b
        if isinstance(a, OrdSym) and isinstance(b, (int, float)):
            return a.rep == b
        if isinstance(b, OrdSym) and isinstance(a, (int, float)):
            return b.rep == a
        sa, sb = isinstance(a, (str, AStr)), isinstance(b, (str, AStr))
        if sa and sb:
            if a == b:
                return True
            return self.str_eq(a, b)
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            x, y = self.to_list(a), self.to_list(b)
            if len(x) != len(y):
                return False
            return all(self.truth(self.eq(p, q)) for p, q in zip(x, y))
        if isinstance(a, DictV) and isinstance(b, DictV):
            if len(a.d) != len(b.d):
                return False
            names = [c.name for c in self.mro(a.cls)]
            names2 = [c.name for c in self.mro(b.cls)]
            if "OrderedDict" in names and "OrderedDict" in names2:
                for x, y in zip(a.d, b.d):
                    if not self.truth(self.eq(x, y)):
                        return False
            for k, v in a.d.items():
                w = self.dict_find(b, k)
                if w is None:
                    return False
                if not self.truth(self.eq(v, b.d[w[0]])):
                    return False
            return True
        if isinstance(a, SetV) and isinstance(b, SetV):
            return len(a.items) == len(b.items) and all(self.set_has(b, x) for x in a.items)
        na, nb = is_num(a), is_num(b)
        if na and nb:
            if a == b:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (int, float)):
                    if isinstance(y, Sym) and (y.data or {}).get("generic", True) and not isinstance(x, bool):
                        self.seen_consts.add(x)
                        return False
                    if isinstance(y, App):
                        self.seen_consts.add(x)
                        return False
            if isinstance(a, Sym) and isinstance(b, Sym):
                if (a.data or {}).get("generic", True):
                    return False
            return self.dbool(("eq", a, b))
        if isinstance(a, (Sym, App)) and isinstance(b, (Sym, App)):
            if a == b:
                return True
            ta, tb = a.ty, b.ty
            if ta != tb and "any" not in (ta, tb):
                return False
            return self.dbool(("eq", a, b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Sym, App)):
                if x.ty == "any":
                    if isinstance(x, Sym) and (x.data or {}).get("generic"):
                        if isinstance(y, CONC):
                            self.seen_consts.add(y)
                        return False
                    return self.dbool(("eq", x, y if concrete(y) or isinstance(y, AStr) else id(y)))
                return False
        if isinstance(a, slice) and isinstance(b, slice):
            return a == b
        if type(a) is type(b) and isinstance(a, (range, frozenset)):
            return a == b
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.self_ is b.self_ and a.func is b.func
        return False

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        lit, ab = (a, b) if isinstance(a, str) else (b, a) if isinstance(b, str) else (None, None)
        if lit is not None:
            if not S.may_equal(ab, lit):
                return False
            if any(not isinstance(p, str) and p.generic for p in ab.parts):
                self.seen_consts.add(lit)
                return False
            return self.dbool(("streq", ab, lit))
        if not S.may_intersect(a, b):
            return False
        # two abstract strings
        na = {p.name for p in a.parts if not isinstance(p, str)}
        nb = {p.name for p in b.parts if not isinstance(p, str)}
        if na != nb and any(not isinstance(p, str) and p.generic for p in a.parts + b.parts):
            return False
        k = ("streq",) + tuple(sorted((a, b), key=repr))
        return self.dbool(k)

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == "Is" or n == "IsNot":
            r = self.is_(a, b)
            return r if n == "Is" else not r
        if n == "Eq":
            return self.eq(a, b)
        if n == "NotEq":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ObjV, DictV, ListV)):
                    m = self.user_method(x, "__ne__")
                    if m is not None:
                        return self.call(m, [y], {})
            return not self.truth(self.eq(a, b))
        if n in ("In", "NotIn"):
            r = self.truth(self.contains(b, a))
            return r if n == "In" else not r
        return self.order(n, a, b)

    def is_(self, a, b):
        if isinstance(a, CONC) and isinstance(b, CONC):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                return a is b
            return a == b and type(a) is type(b)
        if isinstance(a, (Sym, App)) and b is None:
            if a.ty != "any":
                return False
            if isinstance(a, Sym) and (a.data or {}).get("generic"):
                return False
            return self.dbool(("isnone", a))
        if isinstance(a, (Sym, App)) and isinstance(b, bool):
            if a.ty == "bool":
                t = self.dbool(("truth", a))
                return t is b
            if a.ty != "any":
                return False
        if isinstance(a, Top):
            self.add_taint("is on unknown")
            self.counter += 1
            return self.dbool(("topis", self.counter))
        if isinstance(a, (AStr, tuple)) and isinstance(b, (AStr, tuple)):
            return a is b or (isinstance(a, AStr) and a == b)
        return a is b

    def order(self, n, a, b):
        a, b = raw(a), raw(b)
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top("comparison of unknown")
        if isinstance(a, OrdSym):
            a = a.rep
        if isinstance(b, OrdSym):
            b = b.rep
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
            return _CMP[n](a, b)
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)) and isinstance(a, tuple) == isinstance(b, tuple):
            for x, y in zip(self.to_list(a), self.to_list(b)):
                if not self.truth(self.eq(x, y)):
                    return self.order(n, x, y)
            return _CMP[n](len(self.to_list(a)), len(self.to_list(b)))
        if isinstance(a, SetV) and isinstance(b, SetV):
            sub = all(self.set_has(b, x) for x in a.items)
            sup = all(self.set_has(a, x) for x in b.items)
            return {"LtE": sub, "Lt": sub and not sup, "GtE": sup, "Gt": sup and not sub}[n]
        if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)) or is_num(a) and is_num(b):
            if a == b:
                return n in ("LtE", "GtE")
            if is_num(a):
                la, ha = self.bounds(a)
                lb, hb = self.bounds(b)
                r = _decide_order(n, la, ha, lb, hb)
                if r is not None:
                    return r
            # normalise to a single fact per pair
            ra, rb = repr(a), repr(b)
            if ra <= rb:
                lt = self.dbool(("lt", a, b))
            else:
                lt = not self.dbool(("lt", b, a))
            return lt if n in ("Lt", "LtE") else not lt
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, (ObjV, DictV)):
                nm = {"Lt": ("__lt__", "__gt__"), "LtE": ("__le__", "__ge__"), "Gt": ("__gt__", "__lt__"), "GtE": ("__ge__", "__le__")}[n][1 if sw else 0]
                m = self.class_lookup(x.cls, nm)
                if m is not None:
                    return self.call(self.bind(m, x, x.cls), [y], {})
        if isinstance(a, (Sym, App)) or isinstance(b, (Sym, App)):
            ta = a.ty if isinstance(a, (Sym, App)) else None
            tb = b.ty if isinstance(b, (Sym, App)) else None
            if "any" in (ta, tb):
                return self.top("order of unknown types")
        self.raise_("TypeError", "'%s' not supported between instances of '%s' and '%s'" % (n, self.typename(a), self.typename(b)))

    def bounds(self, v):
        if isinstance(v, (int, float)):
            return v, v
        if isinstance(v, Sym) and v.data and ("lo" in v.data or "hi" in v.data):
            return v.data.get("lo"), v.data.get("hi")
        if isinstance(v, App):
            if v.op == "len":
                s = v.args[0]
                if isinstance(s, AStr):
                    return S.min_len(s), S.max_len(s)
                return 0, None
            if v.op in ("Add", "Sub"):
                la, ha = self.bounds(v.args[0])
                lb, hb = self.bounds(v.args[1])
                if v.op == "Add":
                    return (None if la is None or lb is None else la + lb, None if ha is None or hb is None else ha + hb)
                return (None if la is None or hb is None else la - hb, None if ha is None or lb is None else ha - lb)
        return None, None

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        if isinstance(a, ListV):
            self.cost += len(a.items)
        n = type(op).__name__
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, (ObjV, DictV, ListV)) and n in _DUNDER:
                m = self.user_method(x, pre + _DUNDER[n] + "__")
                if m is None and isinstance(x, ObjV):
                    mm = self.class_lookup(x.cls, pre + _DUNDER[n] + "__")
                    m = self.bind(mm, x, x.cls) if mm is not None else None
                if m is not None:
                    r = self.call(m, [y], {})
                    if r is not NotImplemented:
                        return r
        a, b = raw(a), raw(b)
        if n == "Add":
            if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
                return mkstr([a, b])
            if isinstance(a, ListV) and isinstance(b, ListV):
                return ListV(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if n == "Mod" and isinstance(a, (str, AStr)):
            return self.percent(a, b)
        if n == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and not isinstance(y, bool) or isinstance(y, bool):
                    if isinstance(x, (str, AStr)):
                        return mkstr([x] * max(0, y))
                    if isinstance(x, ListV):
                        return ListV(x.items * y)
                    if isinstance(x, tuple):
                        return x * y
                if isinstance(x, (str, AStr)) and isinstance(y, (Sym, App)) and y.ty == "int":
                    if x == "":
                        return ""
                    cs = S.chars_of(x)
                    if isinstance(x, str) and len(x) == 1 and self.hooks.get("symrep"):
                        return AStr([Atom(("rep", x, y), cs, 0, None, (), ("", x, x * 3), generic=False)])
                    lo = max(0, lower_bound(y)) * (len(x) if isinstance(x, str) else 0)
                    return AStr([Atom(("rep", x, y), cs, lo, None, (), None, generic=False)])
        if isinstance(a, SetV) and isinstance(b, SetV):
            if n == "Sub":
                return SetV([x for x in a.items if not self.set_has(b, x)], a.frozen)
            if n == "BitOr":
                r = SetV(a.items, a.frozen)
                for x in b.items:
                    self.set_add(r, x)
                return r
            if n == "BitAnd":
                return SetV([x for x in a.items if self.set_has(b, x)], a.frozen)
            if n == "BitXor":
                r = SetV([x for x in a.items if not self.set_has(b, x)], a.frozen)
                r.items += [x for x in b.items if not self.set_has(a, x)]
                return r
        if isinstance(a, DictV) and isinstance(b, DictV) and n == "BitOr":
            r = self.copy_dict(a)
            for k, v in self.mapping_items(b):
                self.setitem(r, k, v)
            return r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return _BIN[n](a, b)
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", "division by zero")
            except Exception as ex:
                raise Unsupported("arith %s" % ex)
        if is_num(a) and is_num(b):
            if isinstance(a, OrdSym) or isinstance(b, OrdSym):
                return self.top("arithmetic on an order-abstracted number")
            if n == "Add" and b == 0 or n == "Sub" and b == 0 or n == "Mult" and b == 1:
                return a
            if n == "Add" and a == 0:
                return b
            if n == "Sub" and a == b:
                return 0
            if n == "Sub" and getattr(a, "ty", "int") == "int" and getattr(b, "ty", "int") == "int":
                d = minus(linear(a), linear(b))
                if set(d) <= {None}:
                    return d.get(None, 0)
            # (x + c) - c2
            if n in ("Add", "Sub") and isinstance(b, int) and isinstance(a, App) and a.op in ("Add", "Sub") and isinstance(a.args[1], int):
                c = a.args[1] * (1 if a.op == "Add" else -1) + b * (1 if n == "Add" else -1)
                return a.args[0] if c == 0 else App("Add", (a.args[0], c), a.ty)
            ta = "float" if (isinstance(a, float) or getattr(a, "ty", "") == "float" or isinstance(b, float) or getattr(b, "ty", "") == "float" or n == "Div") else "int"
            return App(n, (a, b), ta)
        if isinstance(a, (ClassV, BuiltinClass, ExternV)) and n == "BitOr":
            return (a, b)
        if isinstance(a, (Sym, App)) and a.ty == "any" or isinstance(b, (Sym, App)) and b.ty == "any":
            return self.top("operator on unknown type")
        if isinstance(a, ExternV) or isinstance(b, ExternV):
            return self.top("operator on external")
        if isinstance(a, bytes) and isinstance(b, bytes) and n == "Add":
            return a + b
        self.raise_("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (n, self.typename(a), self.typename(b)))

    def percent(self, a, b):
        if not isinstance(a, str):
            # only literal formats are interpreted
            if any(isinstance(p, str) and "%" in p for p in a.parts):
                return self.top("% formatting of an abstract format")
            return a
        args = list(b) if isinstance(b, tuple) else [b]
        out = []
        i = 0
        k = 0
        import re

        for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([sdrifgexXc%])", a):
            out.append(a[i : m.start()])
            i = m.end()
            name, flags, width, prec, ty = m.groups()
            if ty == "%":
                out.append("%")
                continue
            if name is not None:
                v = self.getitem(b, name)
            else:
                if k >= len(args):
                    self.raise_("TypeError", "not enough arguments for format string")
                v = args[k]
                k += 1
            spec = m.group(0)
            if name is not None:
                spec = spec.replace("(%s)" % name, "")
            if concrete(v):
                try:
                    out.append(spec % (v,))
                except TypeError as ex:
                    self.raise_("TypeError", str(ex))
            elif ty in "sr" and not width and not prec:
                out.append(self.str_of(v) if ty == "s" else self.repr_of(v))
            elif ty in "di" and not width and not prec and getattr(v, "ty", "") == "int":
                out.append(self.str_of(v))
            elif ty in "di" and not is_num(v):
                self.raise_("TypeError", "%d format: a number is required")
            else:
                return self.top("format %s of %r" % (spec, v))
        out.append(a[i:])
        if not any(m for m in ()) and k < len(args) and not isinstance(b, DictV) and "%(" not in a:
            self.raise_("TypeError", "not all arguments converted during string formatting")
        for p in out:
            if isinstance(p, Top):
                return p
        return mkstr(out)

    # ------------------------------------------------------------ conversion to text
    def str_of(self, v):
        if isinstance(v, (str, AStr)):
            return v
        if v is None or isinstance(v, (bool, int, float, bytes, range)):
            return str(v)
        if isinstance(v, Top):
            return v
        if isinstance(v, ObjV):
            m = self.class_lookup(v.cls, "__str__")
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {})
            if self.is_exc(v):
                a = v.attrs.get("args", ())
                if len(a) == 0:
                    return ""
                if len(a) == 1:
                    return self.str_of(a[0])
                return self.repr_of(tuple(a))
            m = self.class_lookup(v.cls, "__repr__")
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {})
            return AStr([Atom(("objrepr", v.cls.name), UNIVERSE, 1)])
        if isinstance(v, (DictV, ListV)):
            for n in ("__str__", "__repr__"):
                m = self.user_method(v, n)
                if m is not None:
                    return self.call(m, [], {})
        if isinstance(v, OrdSym):
            return AStr([Atom(("str", v.name), frozenset("0123456789."), 1)])
        if isinstance(v, (Sym, App)):
            if v.ty in ("int", "float", "num"):
                return strnum(v, self)
            if v.ty == "bool":
                return "True" if self.dbool(("truth", v)) else "False"
            return AStr([Atom(("strof", v), UNIVERSE, 0)])
        return self.repr_of(v)

    def repr_of(self, v):
        if isinstance(v, (str, bytes, bool, int, float, range)) or v is None:
            return repr(v)
        if isinstance(v, AStr):
            if not ("'" in S.chars_of(v) or "\\" in S.chars_of(v)) and all(c.isprintable() for c in S.chars_of(v)):
                return mkstr(["'", v, "'"])
            return AStr([Atom(("repr", v), UNIVERSE, 2)])
        if isinstance(v, (Sym, App)):
            return self.str_of(v)
        if isinstance(v, Top):
            return v
        if isinstance(v, ListV):
            return self._seqrepr("[", v.items, "]")
        if isinstance(v, tuple):
            return self._seqrepr("(", list(v), ",)" if len(v) == 1 else ")")
        if isinstance(v, SetV):
            return self._seqrepr("{", v.items, "}")
        if isinstance(v, DictV):
            m = self.user_method(v, "__repr__")
            if m is not None:
                return self.call(m, [], {})
            parts = ["{"]
            for i, (k, x) in enumerate(v.d.items()):
                parts += [", "] if i else []
                parts += [self.repr_of(k), ": ", self.repr_of(x)]
            parts.append("}")
            if any(isinstance(p, Top) for p in parts):
                return self.top("repr")
            names = [c.name for c in self.mro(v.cls)]
            if "OrderedDict" in names:
                return mkstr([v.cls.name, "("] + parts + [")"] if v.d else [v.cls.name + "()"])
            return mkstr(parts)
        if isinstance(v, ObjV):
            m = self.class_lookup(v.cls, "__repr__")
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {})
            return AStr([Atom(("objrepr", v.cls.name), UNIVERSE, 1)])
        return "<%s>" % self.typename(v)

    def _seqrepr(self, a, items, b):
        parts = [a]
        for i, x in enumerate(items):
            if i:
                parts.append(", ")
            parts.append(self.repr_of(x))
        parts.append(b)
        if any(isinstance(p, Top) for p in parts):
            return self.top("repr")
        return mkstr(parts)

    def format_value(self, v, spec="", conv=None):
        if isinstance(v, Top):
            return v
        if isinstance(spec, Top):
            return spec
        if conv == "s":
            v = self.str_of(v)
        elif conv in ("r", "a"):
            v = self.repr_of(v)
        if spec == "":
            return self.str_of(v)
        v = raw(v)
        if concrete(v) and isinstance(spec, str):
            try:
                return format(v, spec)
            except (ValueError, TypeError) as ex:
                self.raise_("ValueError", str(ex))
        if isinstance(spec, str) and isinstance(v, (str, AStr)):
            if spec in ("s",):
                return v
            import re

            m = re.fullmatch(r"(?:(.)?([<>^]))?(\d+)s?", spec)
            if m:
                return self.just(v, {"<": "ljust", ">": "rjust", "^": "center", None: "ljust"}[m.group(2)], int(m.group(3)), m.group(1) or " ")
        if isinstance(spec, str) and is_num(v) and spec in ("d", "n") and getattr(v, "ty", "") == "int":
            return self.str_of(v)
        return self.top("format spec %r of %r" % (spec, v))

    def just(self, s, how, width, fill):
        ml, mx = S.min_len(s), S.max_len(s)
        if isinstance(width, int) and ml >= width:
            return s
        if isinstance(width, int) and mx is not None and ml == mx:
            pad = width - ml
            if how == "ljust":
                return mkstr([s, fill * pad])
            if how == "rjust":
                return mkstr([fill * pad, s])
        if isinstance(fill, str):
            p = AStr([Atom(("pad", how, s, width), set(fill), 0, None, (), ("", fill, fill * 5), generic=False)])
            return mkstr([s, p]) if how == "ljust" else mkstr([p, s]) if how == "rjust" else self.top("center")
        return self.top(how)

    def str_format(self, fmt, args, kw):
        if not isinstance(fmt, str):
            if any(isinstance(p, str) and ("{" in p or "}" in p) or not isinstance(p, str) and (p.cs & {"{", "}"}) for p in fmt.parts):
                return self.top("format of an abstract template")
            return fmt
        import string

        out = []
        auto = [0]

        def field(name):
            if name == "" or name[0] in ".[":
                first, rest = str(auto[0]), name
                auto[0] += 1
            else:
                import re

                m = re.match(r"[^.\[]+", name)
                first, rest = m.group(0), name[m.end() :]
            if first.isdigit():
                i = int(first)
                if i >= len(args):
                    self.raise_("IndexError", "Replacement index out of range")
                v = args[i]
            else:
                if first not in kw:
                    self.raise_("KeyError", first)
                v = kw[first]
            import re

            for m in re.finditer(r"\.(\w+)|\[([^\]]+)\]", rest):
                if m.group(1):
                    v = self.getattr(v, m.group(1))
                else:
                    k = m.group(2)
                    v = self.getitem(v, int(k) if k.isdigit() else k)
            return v

        try:
            pieces = list(string.Formatter().parse(fmt))
        except ValueError as ex:
            self.raise_("ValueError", str(ex))
        for lit, name, spec, conv in pieces:
            out.append(lit)
            if name is None:
                continue
            v = field(name)
            if spec and "{" in spec:
                spec = self.str_format(spec, args, kw)
            out.append(self.format_value(v, spec, conv))
        for p in out:
            if isinstance(p, Top):
                return p
        return mkstr(out)

    def to_number(self, v, ty):
        """int(...) / float(...)"""
        v = raw(v)
        if isinstance(v, bool) or isinstance(v, (int, float)):
            try:
                return int(v) if ty == "int" else float(v)
            except (ValueError, OverflowError) as ex:
                self.raise_(type(ex).__name__, str(ex))
        if isinstance(v, str):
            try:
                return int(v) if ty == "int" else float(v)
            except ValueError as ex:
                self.raise_("ValueError", str(ex))
        if isinstance(v, AStr):
            for x in v.parts:
                if isinstance(x, Atom) and isinstance(x.name, tuple) and x.name[0] == "strnum" and not x.xf:
                    n = x.name[1]
                    if getattr(n, "ty", "") in (ty, "num") and strnum(n, self) == v:
                        return n
                    break
            cs = S.chars_of(v)
            if ty == "int" and cs <= DIGITS | frozenset("+-"):
                return App("int", (v,), "int")
            if ty == "float" and cs <= DIGITS | frozenset("+-.eE"):
                return App("float", (v,), "float")
            if not (cs & DIGITS) and not (ty == "float"):
                self.raise_("ValueError", "invalid literal for %s()" % ty)
            # ill-formed texts possible
            if S.min_len(v) and not any(isinstance(p, str) and not set(p) <= (DIGITS | frozenset("+-.eE_ \tinfaINFA")) for p in v.parts):
                if self.dbool(("numeric", ty, v)):
                    return App(ty, (v,), ty)
            self.raise_("ValueError", "invalid literal for %s()" % ty)
        if isinstance(v, OrdSym):
            if ty == "float":
                return v
            return self.top("int of an order-abstracted number")
        if isinstance(v, (Sym, App)):
            if v.ty == ty:
                return v
            if v.ty in ("int", "float", "num", "bool"):
                if v.ty == "float" and ty == "int":
                    return App("trunc", (v,), "int")
                return App(ty, (v,), ty)
            return self.top("%s of unknown" % ty)
        if isinstance(v, Top):
            return v
        m = self.class_lookup(v.cls, "__%s__" % ty) if isinstance(v, ObjV) else None
        if m is not None:
            return self.call(self.bind(m, v, v.cls), [], {})
        self.raise_("TypeError", "%s() argument must be a string or a number, not '%s'" % (ty, self.typename(v)))

    # ------------------------------------------------------------ dict primitives
    def hashable(self, k):
        if isinstance(k, (ListV, DictV)) or isinstance(k, SetV) and not k.frozen:
            if not self.class_lookup(self.class_of(k), "__hash__"):
                self.raise_("TypeError", "unhashable type: '%s'" % self.typename(k))
        if isinstance(k, tuple):
            for x in k:
                self.hashable(x)

    def keynorm(self, k):
        """abstract dict keys: tokens behave as their text"""
        if isinstance(k, ObjV):
            r = raw(k)
            if r is not k:
                return r
        return k

    def dict_find(self, d, k):
        """(existing key,) or None"""
        k = self.keynorm(k)
        if isinstance(k, Top):
            self.add_taint("lookup of unknown key")
            if d.d and self.dbool(("topkey", id(d))):
                return (next(iter(d.d)),)
            return None
        self.hashable(k)
        try:
            if k in d.d:
                kk = k
                if isinstance(k, (bool, int, float)) or isinstance(k, (str, AStr)) or True:
                    return (kk,)
        except TypeError:
            pass
        if isinstance(k, str):
            for x in d.d:
                if isinstance(x, AStr) and self.str_eq(k, x):
                    return (x,)
            return None
        if isinstance(k, (AStr, Sym, App)):
            for x in d.d:
                if isinstance(x, (str, AStr, Sym, App, int, float)) and self.truth(self.eq(k, x)):
                    return (x,)
        elif isinstance(k, tuple) and not concrete(k):
            for x in d.d:
                if isinstance(x, tuple) and self.truth(self.eq(k, x)):
                    return (x,)
        elif isinstance(k, (int, float)) :
            for x in d.d:
                if isinstance(x, (Sym, App)) and self.truth(self.eq(k, x)):
                    return (x,)
        return None

    def dict_set_raw(self, d, k, v):
        k = self.keynorm(k)
        f = self.dict_find(d, k)
        self.mutated(d, "[%r]=" % (k,))
        if isinstance(k, Top):
            self.add_taint("store under unknown key")
            return
        d.d[f[0] if f else k] = v
        d.locs[f[0] if f else k] = self.where()

    def dict_del_raw(self, d, k):
        f = self.dict_find(d, k)
        if f is None:
            self.raise_("KeyError", k)
        self.mutated(d, "del [%r]" % (k,))
        return d.d.pop(f[0])

    def dict_get_raw(self, d, k):
        f = self.dict_find(d, k)
        if f is None:
            return None
        return (d.d[f[0]],)

    def is_od(self, d):
        return any(c.name == "OrderedDict" for c in self.mro(d.cls))

    def dict_getitem_base(self, d, k):
        """dict.__getitem__ including __missing__ of a subclass"""
        r = self.dict_get_raw(d, k)
        if r is not None:
            return r[0]
        m = self.user_method(d, "__missing__")
        if m is None and isinstance(d.cls, BuiltinClass) or m is None:
            mm = self.class_lookup(d.cls, "__missing__")
            if mm is not None:
                m = self.bind(mm, d, d.cls)
        if m is not None:
            return self.call(m, [k], {})
        self.raise_("KeyError", k)

    def mapping_items(self, m):
        """items as seen by dict(m), {**m}, f(**m)"""
        if isinstance(m, DictV):
            if isinstance(m.cls, ClassV) and (self.is_od(m) or self.user_method(m, "__iter__")):
                ks = self.to_list(self.call(self.getattr(m, "keys"), [], {}))
                return [(k, self.getitem(m, k)) for k in ks]
            return list(m.d.items())
        if isinstance(m, ModuleV):
            return list(m.ns.items())
        if isinstance(m, Top) or isinstance(m, (Sym, ExternV)):
            self.add_taint("mapping of unknown")
            return []
        if isinstance(m, ObjV):
            ks = self.to_list(self.call(self.getattr(m, "keys"), [], {}))
            return [(k, self.getitem(m, k)) for k in ks]
        self.raise_("TypeError", "argument must be a mapping")

    def copy_dict(self, d):
        r = DictV(d.cls, d.d)
        r.attrs = dict(d.attrs)
        return r

    def dict_update_base(self, d, args, kw):
        """OrderedDict.update / __init__ (self items stored through overridden __setitem__); dict.update stores directly"""
        od = self.is_od(d)

        def store(k, v):
            if od and isinstance(d.cls, ClassV):
                self.setitem(d, k, v)
            else:
                self.dict_set_raw(d, k, v)

        if len(args) > 1:
            self.raise_("TypeError", "update expected at most 1 argument, got %d" % len(args))
        if args:
            a = args[0]
            if isinstance(a, DictV) and isinstance(a.cls, BuiltinClass):
                for k, v in list(a.d.items()):
                    store(k, v)
            elif isinstance(a, DictV) or isinstance(a, ObjV) and self.class_lookup(a.cls, "keys"):
                if isinstance(a, DictV) and not self.is_od(a) and not od and not self.user_method(a, "__iter__"):
                    for k, v in list(a.d.items()):
                        store(k, v)
                else:
                    for k in self.to_list(self.call(self.getattr(a, "keys"), [], {})):
                        store(k, self.getitem(a, k))
            else:
                for p in self.to_list(a):
                    kv = self.to_list(p)
                    if len(kv) != 2:
                        self.raise_("ValueError", "dictionary update sequence element has length %d; 2 is required" % len(kv))
                    store(kv[0], kv[1])
        for k, v in kw.items():
            store(k, v)

    # ------------------------------------------------------------ sets
    def set_has(self, s, x):
        x = self.keynorm(x)
        items = s.items if isinstance(s, SetV) else list(s)
        if isinstance(x, (str, int, float, bool)) or x is None:
            for y in items:
                if type(y) is type(x) and y == x:
                    return True
            if not any(not isinstance(y, CONC) for y in items):
                return any(y == x for y in items)
        if isinstance(x, AStr) and len(items) > 12:
            # large constant tables: pre-filter
            cand = [y for y in items if not isinstance(y, str) or S.may_equal(x, y)]
            return any(self.truth(self.eq(y, x)) for y in cand)
        return any(self.truth(self.eq(y, x)) for y in items)

    def set_add(self, s, x):
        self.hashable(x)
        if not self.set_has(s, x):
            self.mutated(s, "add")
            s.items.append(x)

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        if isinstance(o, Top):
            return o
        if isinstance(o, DictV):
            m = self.class_lookup(o.cls, "__getitem__")
            if isinstance(m, FuncV):
                return self.call(self.bind(m, o, o.cls), [i], {})
            return self.dict_getitem_base(o, i)
        if isinstance(o, ObjV) and raw(o) is o:
            m = self.class_lookup(o.cls, "__getitem__")
            if m is not None:
                return self.call(self.bind(m, o, o.cls), [i], {})
            self.raise_("TypeError", "'%s' object is not subscriptable" % self.typename(o))
        o = raw(o)
        if isinstance(i, Top):
            return self.top("unknown index")
        if isinstance(o, (ListV, tuple, range)):
            m = self.user_method(o, "__getitem__") if isinstance(o, ListV) else None
            if m is not None:
                return self.call(m, [i], {})
            items = o.items if isinstance(o, ListV) else o
            if isinstance(i, slice):
                if not all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                    return self.top("symbolic slice")
                r = items[i]
                self.cost += len(r)
                return ListV(r) if isinstance(o, ListV) else r
            if isinstance(i, bool) or isinstance(i, int):
                try:
                    return items[i]
                except IndexError:
                    self.raise_("IndexError", "%s index out of range" % self.typename(o))
            if isinstance(i, (Sym, App)):
                return self.top("symbolic index")
            self.raise_("TypeError", "%s indices must be integers or slices, not %s" % (self.typename(o), self.typename(i)))
        if isinstance(o, (str, AStr)):
            if isinstance(i, slice):
                if i.step not in (None, 1):
                    if isinstance(o, str):
                        return o[i]
                    if i.step == -1 and i.start is None and i.stop is None:
                        return S.rev(o)
                    return self.top("string slice step")
                lo, hi = i.start, i.stop
                if not all(x is None or isinstance(x, int) for x in (lo, hi)):
                    return self.top("symbolic slice of a string")
                if isinstance(o, str):
                    return o[lo:hi]
                r = S.slice_(o, lo, hi)
                if r is None:
                    return self.top("slice %r:%r of %r" % (lo, hi, o))
                return r
            if isinstance(i, int):
                r = S.index_(o, i)
                if r is False:
                    self.raise_("IndexError", "string index out of range")
                if r is None:
                    if S.min_len(o) <= (i if i >= 0 else -i - 1):
                        if S.min_len(o) == 0 and i in (0, -1) and self.dbool(("empty", o)):
                            self.raise_("IndexError", "string index out of range")
                        cs = S.chars_of(o)
                        return AStr([Atom(("char", o, i), cs, 1, 1)])
                    return AStr([Atom(("char", o, i), S.chars_of(o), 1, 1)])
                return r
            self.raise_("TypeError", "string indices must be integers, not '%s'" % self.typename(i))
        if isinstance(o, bytes):
            return o[i]
        if isinstance(o, (ClassV, BuiltinClass)):
            m = self.class_lookup(o, "__class_getitem__")
            if isinstance(m, FuncV):
                return self.call(m, [o, i], {})
            return o
        if isinstance(o, ExternV):
            return o
        if isinstance(o, (Sym, App)):
            if o.ty == "any":
                return self.top("subscript of %r" % (o,))
        self.raise_("TypeError", "'%s' object is not subscriptable" % self.typename(o))

    def setitem(self, o, i, v):
        if isinstance(o, Top):
            return
        if isinstance(o, DictV):
            m = self.class_lookup(o.cls, "__setitem__")
            if isinstance(m, FuncV):
                self.call(self.bind(m, o, o.cls), [i, v], {})
                return
            self.dict_set_raw(o, i, v)
            return
        if isinstance(o, ListV):
            m = self.user_method(o, "__setitem__")
            if m is not None:
                self.call(m, [i, v], {})
                return
            self.mutated(o, "[]=")
            if isinstance(i, slice):
                o.items[i] = self.to_list(v)
                return
            if isinstance(i, int):
                try:
                    o.items[i] = v
                except IndexError:
                    self.raise_("IndexError", "list assignment index out of range")
                return
            if isinstance(i, (Top, Sym, App)):
                self.add_taint("store at unknown index")
                return
            self.raise_("TypeError", "list indices must be integers or slices")
        if isinstance(o, ObjV):
            m = self.class_lookup(o.cls, "__setitem__")
            if m is not None:
                self.call(self.bind(m, o, o.cls), [i, v], {})
                return
        if isinstance(o, ExternV):
            return
        self.raise_("TypeError", "'%s' object does not support item assignment" % self.typename(o))

    def delitem(self, o, i):
        if isinstance(o, Top):
            return
        if isinstance(o, DictV):
            m = self.class_lookup(o.cls, "__delitem__")
            if isinstance(m, FuncV):
                self.call(self.bind(m, o, o.cls), [i], {})
                return
            self.dict_del_raw(o, i)
            return
        if isinstance(o, ListV):
            self.mutated(o, "del []")
            try:
                del o.items[i]
            except IndexError:
                self.raise_("IndexError", "list assignment index out of range")
            return
        if isinstance(o, ObjV):
            m = self.class_lookup(o.cls, "__delitem__")
            if m is not None:
                self.call(self.bind(m, o, o.cls), [i], {})
                return
        if isinstance(o, ExternV):
            return
        self.raise_("TypeError", "'%s' object doesn't support item deletion" % self.typename(o))

    def contains(self, c, x):
        if isinstance(c, ListV):
            self.cost += len(c.items)
        elif isinstance(c, tuple):
            self.cost += len(c)
        elif isinstance(c, str):
            self.cost += len(c) >> 3
        if isinstance(c, Top):
            return self.top("membership in unknown")
        if isinstance(c, DictV):
            m = self.class_lookup(c.cls, "__contains__")
            if isinstance(m, FuncV):
                return self.call(self.bind(m, c, c.cls), [x], {})
            return self.dict_find(c, x) is not None
        if isinstance(c, ListV):
            m = self.user_method(c, "__contains__")
            if m is not None:
                return self.call(m, [x], {})
            return any(self.truth(self.eq(y, x)) for y in c.items)
        if isinstance(c, tuple):
            return any(self.truth(self.eq(y, x)) for y in c)
        if isinstance(c, SetV):
            self.hashable(x)
            return self.set_has(c, x)
        if isinstance(c, frozenset):
            return self.set_has(SetV(sorted(c, key=repr)), x)
        if isinstance(c, range):
            return isinstance(x, int) and x in c
        if isinstance(c, ObjV) and raw(c) is c:
            m = self.class_lookup(c.cls, "__contains__")
            if m is not None:
                return self.call(self.bind(m, c, c.cls), [x], {})
            if self.class_lookup(c.cls, "__iter__"):
                return any(self.truth(self.eq(y, x)) for y in self.iter(c))
            self.raise_("TypeError", "argument of type '%s' is not iterable" % self.typename(c))
        c, x = raw(c), raw(x)
        if isinstance(c, (str, AStr)):
            if isinstance(x, Top):
                return self.top("substring test")
            if not isinstance(x, (str, AStr)):
                if isinstance(x, (Sym, App)) and x.ty == "any":
                    return self.top("substring test")
                self.raise_("TypeError", "'in <string>' requires string as left operand, not %s" % self.typename(x))
            return self.substr(c, x)
        if isinstance(c, GenV):
            for y in c.it:
                if self.truth(self.eq(y, x)):
                    return True
            return False
        if isinstance(c, ExternV) or isinstance(c, (Sym, App)) and c.ty == "any":
            return self.top("membership in %r" % (c,))
        self.raise_("TypeError", "argument of type '%s' is not iterable" % self.typename(c))

    def substr(self, c, x):
        if isinstance(x, str):
            r = S.contains(c, x)
            if r is None:
                return self.dbool(("contains", c, x))
            return r
        if x == c:
            return True
        if isinstance(c, AStr):
            # x occurs structurally
            xp, cp = x.parts, c.parts
            for i in range(len(cp) - len(xp) + 1):
                if cp[i : i + len(xp)] == xp:
                    return True
        anyc = Atom("__any", UNIVERSE, 0, None)
        if not S.may_intersect(c, mkstr([anyc, x, anyc])):
            return False
        if isinstance(c, str) and any(not isinstance(p, str) and p.generic for p in x.parts):
            self.seen_consts.add(c)
            return False
        if isinstance(c, AStr) and isinstance(x, AStr):
            na = {p.name for p in c.parts if not isinstance(p, str)}
            nb = {p.name for p in x.parts if not isinstance(p, str)}
            if not (na & nb) and all(not isinstance(p, str) and p.generic and p.lo > 0 for p in x.parts if not isinstance(p, str)):
                return False
        return self.dbool(("contains", c, x))

    # ------------------------------------------------------------ iteration
    def iter(self, v):
        if isinstance(v, ListV):
            m = self.user_method(v, "__iter__")
            if m is not None:
                return self.iter(self.call(m, [], {}))
            return self._iter_list(v)
        if isinstance(v, (tuple, range, list)):
            return iter(v)
        if isinstance(v, DictV):
            m = self.user_method(v, "__iter__")
            if m is not None:
                return self.iter(self.call(m, [], {}))
            return self._iter_dict(v)
        if isinstance(v, GenV):
            return v.it
        if isinstance(v, SetV):
            items = list(v.items)
            if len(items) > 1:
                self.nondet.append(("set-iteration", self.where()))
                if self.set_rev:
                    items.reverse()
            return iter(items)
        if isinstance(v, frozenset):
            return iter(sorted(v, key=repr))
        v = raw(v)
        if isinstance(v, (str, bytes)):
            return iter(v)
        if isinstance(v, AStr):
            toks = []
            for k, x in expand(v):
                if k == "c":
                    toks.append(x)
                elif x.lo == x.hi:
                    toks += [AStr([Atom((x.name, i), x.cs, 1, 1, x.xf)]) for i in range(x.lo)]
                else:
                    raise Unsupported("iteration over the characters of an abstract string")
            return iter(toks)
        if isinstance(v, ObjV):
            m = self.class_lookup(v.cls, "__iter__")
            if m is not None:
                r = self.call(self.bind(m, v, v.cls), [], {})
                if r is v:
                    nx = self.class_lookup(v.cls, "__next__")
                    return self._iter_next(v, self.bind(nx, v, v.cls))
                return self.iter(r)
            nx = self.class_lookup(v.cls, "__next__")
            if nx is not None:
                return self._iter_next(v, self.bind(nx, v, v.cls))
            m = self.class_lookup(v.cls, "__getitem__")
            if m is not None:
                return self._iter_seq(v)
        if isinstance(v, Top) or isinstance(v, ExternV) or isinstance(v, (Sym, App)) and v.ty == "any":
            raise Unsupported("iteration over unknown (%r)" % (v,))
        self.raise_("TypeError", "'%s' object is not iterable" % self.typename(v))

    def _iter_list(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def _iter_dict(self, v):
        n = len(v.d)
        for k in list(v.d):
            if len(v.d) != n:
                self.raise_("RuntimeError", "dictionary changed size during iteration")
            yield k
        if len(v.d) != n:
            self.raise_("RuntimeError", "dictionary changed size during iteration")

    def _iter_next(self, v, nx):
        while True:
            try:
                x = self.call(nx, [], {})
            except PyRaise as pr:
                if self.builtins["StopIteration"] in self.mro(pr.exc.cls):
                    return
                raise
            yield x

    def _iter_seq(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except PyRaise as pr:
                if self.builtins["IndexError"] in self.mro(pr.exc.cls):
                    return
                raise
            yield x
            i += 1

    def to_list(self, v):
        if isinstance(v, tuple):
            return list(v)
        return list(self.iter(v))

    # ------------------------------------------------------------ misc
    def isinstance_(self, v, c):
        if isinstance(c, tuple):
            return any(self.truth(self.isinstance_(v, x)) for x in c)
        if isinstance(c, Top) or isinstance(c, ExternV):
            n = c.name if isinstance(c, ExternV) else ""
            if n.startswith("typing."):
                leaf = n.split(".")[-1]
                return leaf == "Any"
            return self.top("isinstance with %r" % (c,))
        if isinstance(c, ObjV) and c.cls.name == "UnionType":
            return any(self.truth(self.isinstance_(v, x)) for x in c.attrs["args"])
        if not isinstance(c, (ClassV, BuiltinClass)):
            self.raise_("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")
        if isinstance(c, ClassV) and False:
            return None
        if isinstance(v, Top):
            return self.top("isinstance of unknown")
        if c.name in ("Number", "Real", "Integral", "Complex") and isinstance(c, BuiltinClass):
            if isinstance(v, (int, float)):
                return c.name != "Integral" or isinstance(v, int)
            if isinstance(v, (Sym, App)):
                return v.ty in ("int", "float", "num", "bool") and (c.name != "Integral" or v.ty in ("int", "bool"))
            return False
        if isinstance(c, BuiltinClass) and c.name in ABC:
            return self.abc_check(v, c.name)
        if isinstance(v, (Sym, App)):
            if v.ty == "any":
                return self.dbool(("isinstance", v, c.name))
            if v.ty == "num":
                if c.name in ("int", "float"):
                    return self.dbool(("isinstance", v, c.name))
                return c.name == "object"
            k = self.builtins.get(v.ty)
            return c in self.mro(k) if k else False
        k = self.class_of(v)
        if k is None:
            return False
        if c in self.mro(k):
            return True
        if isinstance(c, BuiltinClass) and c.name == "str" and isinstance(v, ObjV) and raw(v) is not v:
            return True
        return False

    def abc_check(self, v, n):
        isd = isinstance(v, DictV)
        isl = isinstance(v, (ListV, tuple, range))
        iss = isinstance(v, (str, AStr, bytes))
        if n in ("Mapping", "MutableMapping"):
            return isd
        if n == "Sequence":
            return isl or iss
        if n == "MutableSequence":
            return isinstance(v, ListV)
        if n in ("Set", "MutableSet", "AbstractSet"):
            return isinstance(v, (SetV, frozenset)) and not (n == "MutableSet" and (isinstance(v, frozenset) or v.frozen))
        if n in ("Iterable", "Collection", "Container", "Sized"):
            if isd or isl or iss or isinstance(v, (SetV, frozenset)):
                return True
            if isinstance(v, GenV):
                return n == "Iterable"
            if isinstance(v, ObjV):
                return raw(v) is not v or self.class_lookup(v.cls, {"Iterable": "__iter__", "Sized": "__len__"}.get(n, "__contains__")) is not None
            return False
        if n in ("Iterator", "Generator"):
            return isinstance(v, GenV)
        if n == "Callable":
            return isinstance(v, (FuncV, BoundV, NativeV, ClassV, BuiltinClass)) or isinstance(v, ObjV) and self.class_lookup(v.cls, "__call__") is not None
        if n == "Hashable":
            return not isinstance(v, (ListV, DictV)) and not (isinstance(v, SetV) and not v.frozen)
        return False

    def length(self, v):
        if isinstance(v, (ListV, SetV)):
            m = self.user_method(v, "__len__") if isinstance(v, ListV) else None
            if m is not None:
                return self.call(m, [], {})
            return len(v.items)
        if isinstance(v, DictV):
            m = self.user_method(v, "__len__")
            if m is not None:
                return self.call(m, [], {})
            return len(v.d)
        v = raw(v)
        if isinstance(v, (str, bytes, tuple, range, frozenset)):
            return len(v)
        if isinstance(v, AStr):
            a, b = S.min_len(v), S.max_len(v)
            if a == b:
                return a
            # literal part + symbolic part
            return App("len", (v,), "int")
        if isinstance(v, ObjV):
            m = self.class_lookup(v.cls, "__len__")
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {})
        if isinstance(v, Top) or isinstance(v, ExternV) or isinstance(v, (Sym, App)) and v.ty == "any":
            return self.top("len of unknown")
        self.raise_("TypeError", "object of type '%s' has no len()" % self.typename(v))

    def sort(self, items, key=None, reverse=False):
        items = list(items)
        ks = [self.call(key, [x], {}) if key is not None else x for x in items]
        if all(isinstance(k, str) for k in ks) or all(isinstance(k, (int, float)) for k in ks):
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=reverse)
            return [items[i] for i in order]
        out = []
        for i in range(len(items)):
            j = len(out)
            while j > 0 and self.truth(self.order("Lt", ks[i], ks[out[j - 1]])):
                j -= 1
            out.insert(j, i)
        if reverse:
            out.reverse()
        return [items[i] for i in out]

    def deepcopy(self, v, memo=None):
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, ListV):
            m = self.user_method(v, "__deepcopy__")
            if m is not None:
                return self.call(m, [DictV(self.builtins["dict"])], {})
            r = ListV((), v.kind, v.cls)
            memo[id(v)] = r
            r.items = [self.deepcopy(x, memo) for x in v.items]
            return r
        if isinstance(v, SetV):
            return SetV(v.items, v.frozen)
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo) for x in v)
        if isinstance(v, DictV):
            m = self.user_method(v, "__deepcopy__")
            if m is not None:
                r = self.call(m, [DictV(self.builtins["dict"])], {})
                memo[id(v)] = r
                return r
            if isinstance(v.cls, ClassV):
                r = self.reduce_copy(v, deep=True, memo=memo)
                memo[id(v)] = r
                return r
            r = DictV(v.cls)
            memo[id(v)] = r
            r.attrs = {k: self.deepcopy(x, memo) for k, x in v.attrs.items()}
            r.d = {k: self.deepcopy(x, memo) for k, x in v.d.items()}
            return r
        if isinstance(v, ObjV):
            m = self.class_lookup(v.cls, "__deepcopy__")
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [DictV(self.builtins["dict"])], {})
            r = ObjV(v.cls)
            memo[id(v)] = r
            r.data = v.data
            r.attrs = {k: self.deepcopy(x, memo) for k, x in v.attrs.items()}
            return r
        return v

    def shallow_copy(self, v):
        if isinstance(v, ListV):
            return ListV(v.items, v.kind, v.cls)
        if isinstance(v, SetV):
            return SetV(v.items, v.frozen)
        if isinstance(v, DictV):
            m = self.user_method(v, "__copy__")
            if m is not None:
                return self.call(m, [], {})
            if isinstance(v.cls, ClassV):
                return self.reduce_copy(v)
            return self.copy_dict(v)
        if isinstance(v, ObjV):
            m = self.class_lookup(v.cls, "__copy__")
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {})
            r = ObjV(v.cls, v.attrs)
            r.data = v.data
            return r
        return v

    def reduce_copy(self, v, deep=False, memo=None):
        """copy/pickle through __reduce_ex__/__reduce__"""
        rx = self.user_method(v, "__reduce_ex__")
        rd = self.user_method(v, "__reduce__")
        cp = (lambda x: self.deepcopy(x, memo if memo is not None else {})) if deep else (lambda x: x)
        if rx is not None:
            t = self.call(rx, [4], {})
        elif rd is not None:
            t = self.call(rd, [], {})
        else:
            # default protocol for a dict subclass: copyreg.__newobj__ / OrderedDict.__reduce__
            state = DictV(self.builtins["dict"], {k: x for k, x in v.attrs.items()}) if v.attrs else None
            gs = self.user_method(v, "__getstate__")
            if gs is not None:
                state = self.call(gs, [], {})
            items = GenV(iter(list(v.d.items()))) if not self.user_method(v, "items") else self.iter_gen(self.call(self.getattr(v, "items"), [], {}))
            if self.is_od(v):
                t = (v.cls, (), state, None, items)
            else:
                t = (NativeV("copyreg.__newobj__", lambda it, a, k: DictV(a[0])), (v.cls,), state, None, items)
        t = list(t) + [None] * (5 - len(t))
        args = [cp(x) for x in self.to_list(t[1])]
        r = self.call(t[0], args, {})
        if t[2] is not None:
            st = cp(t[2])
            ss = self.user_method(r, "__setstate__")
            if ss is not None:
                self.call(ss, [st], {})
            elif isinstance(st, DictV):
                r.attrs.update({k: x for k, x in st.d.items()})
        if t[3] is not None:
            for x in self.to_list(t[3]):
                r.items.append(cp(x))
        if t[4] is not None:
            for kv in self.to_list(t[4]):
                k, x = self.to_list(kv)
                self.setitem(r, cp(k), cp(x))
        return r

    def iter_gen(self, v):
        return v if isinstance(v, GenV) else GenV(self.iter(v))


ABC = {"Mapping", "MutableMapping", "Sequence", "MutableSequence", "Set", "MutableSet", "AbstractSet", "Iterable", "Iterator", "Generator",
       "Callable", "Hashable", "Sized", "Container", "Collection"}


def _decide_order(n, la, ha, lb, hb):
    def lt(ha, lb):
        return ha is not None and lb is not None and ha < lb

    def le(ha, lb):
        return ha is not None and lb is not None and ha <= lb

    if n == "Lt":
        return True if lt(ha, lb) else False if le(hb, la) else None
    if n == "LtE":
        return True if le(ha, lb) else False if lt(hb, la) else None
    if n == "Gt":
        return True if lt(hb, la) else False if le(ha, lb) else None
    return True if le(hb, la) else False if lt(ha, lb) else None


def attach(cls):
    for k, v in Ops.__dict__.items():
        if not k.startswith("__"):
            setattr(cls, k, v)
