"""Abstract values.

Raw Python scalars (None, bool, int, float, str, bytes, tuple of values, frozenset of scalars, range, slice) denote
themselves.  Everything else is one of the classes below.
"""
from __future__ import annotations

# ---------------------------------------------------------------- character classes
# Finite universe of representative characters: all of ASCII plus blocks of non-ASCII characters that the
# grammar or the code may tell apart.
NONASCII = "\x85\xa0\xc0\xe9\xd7\xdf\xf7\xff\u0130\u0178\u0416\u2028\u2029\u6f22\ufb01\U0001f600"
UNIVERSE = frozenset([chr(i) for i in range(128)] + list(NONASCII))
ALPHA_L = frozenset("abcdefghijklmnopqrstuvwxyz")
ALPHA_U = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGITS = frozenset("0123456789")
HEX = frozenset("0123456789abcdefABCDEF")
WORD = ALPHA_L | ALPHA_U | DIGITS | frozenset("_")
NL = frozenset("\r\n")
PYSPACE = frozenset(c for c in UNIVERSE if c.isspace())


class Atom:
    """A block of characters: any string over `cs` with lo..hi characters (hi None = unbounded)."""

    __slots__ = ("name", "cs", "lo", "hi", "xf", "wit", "generic", "_h")

    def __init__(self, name, cs, lo=0, hi=None, xf=(), wit=None, generic=True):
        self.name = name
        self.cs = frozenset(cs)
        self.lo = lo
        self.hi = hi
        self.xf = tuple(xf)
        self.wit = wit
        self.generic = generic
        self._h = hash((name, self.xf))

    def __eq__(self, o):
        return isinstance(o, Atom) and self.name == o.name and self.xf == o.xf

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = "<%s>" % (self.name if isinstance(self.name, str) else ":".join(map(str, self.name)) if isinstance(self.name, tuple) else repr(self.name),)
        for x in self.xf:
            s = "%s(%s)" % (x if isinstance(x, str) else x[0], s)
        return s

    def transform(self, f):
        """f in lower/upper: the result block."""
        if f == "lower":
            cs = frozenset(c2 for c in self.cs for c2 in c.lower())
        elif f == "upper":
            cs = frozenset(c2 for c in self.cs for c2 in c.upper())
        else:
            cs = UNIVERSE
        cs2 = frozenset(c if c in UNIVERSE else "\u6f22" for c in cs)
        if f in ("lower", "upper"):
            fn = str.lower if f == "lower" else str.upper
            if all(fn(c) == c for c in self.cs):
                return self  # already caseless under f
            xf = tuple(x for x in self.xf if x not in ("lower", "upper")) + (f,)
        else:
            xf = self.xf + (f,)
        wit = None
        if self.wit is not None and f in ("lower", "upper"):
            wit = tuple(getattr(w, f)() for w in self.wit)
        return Atom(self.name, cs2, self.lo, self.hi, xf, wit, self.generic)


class AStr:
    """Concatenation of literal strings and Atoms; never all-literal (use mkstr)."""

    __slots__ = ("parts", "_h")

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._h = hash(self.parts)

    def __eq__(self, o):
        return isinstance(o, AStr) and self.parts == o.parts

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "`" + "".join(p.replace("\n", "\\n").replace("\r", "\\r") if isinstance(p, str) else repr(p) for p in self.parts) + "`"


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, AStr):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            continue
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            assert isinstance(p, Atom), p
            out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return AStr(out)


def sparts(s):
    return (s,) if isinstance(s, str) else s.parts


def expand(s):
    """list of single positions: ('c', char) literal char or ('a', atom)."""
    out = []
    for p in sparts(s):
        if isinstance(p, str):
            out.extend(("c", ch) for ch in p)
        else:
            out.append(("a", p))
    return out


class Sym:
    """Opaque typed unknown. ty in int,float,num,bool,str?,any,..."""

    __slots__ = ("name", "ty", "data")

    def __init__(self, name, ty="any", data=None):
        self.name = name
        self.ty = ty
        self.data = data

    def __eq__(self, o):
        return isinstance(o, Sym) and self.name == o.name

    def __hash__(self):
        return hash(("Sym", self.name))

    def __repr__(self):
        return "?%s" % self.name


class App:
    """Uninterpreted application of an operation to abstract values."""

    __slots__ = ("op", "args", "ty", "_h")

    def __init__(self, op, args, ty="any"):
        self.op = op
        self.args = tuple(args)
        self.ty = ty
        try:
            self._h = hash((op, self.args))
        except TypeError:
            self._h = hash((op, len(self.args)))

    def __eq__(self, o):
        return isinstance(o, App) and self.op == o.op and self.args == o.args

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Top:
    """No information; `why` says where precision was lost."""

    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "TOP[%s]" % self.why


class Mut:
    """base of mutable abstract objects"""

    owner = None
    frozen_id = None


class ListV(Mut):
    def __init__(self, items=(), kind="list", cls=None):
        self.items = list(items)
        self.kind = kind  # list | deque
        self.owner = None
        self.cls = cls
        self.locs = {}

    def __repr__(self):
        return "[" + ", ".join(map(repr, self.items)) + "]"


class SetV(Mut):
    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.frozen = frozen
        self.owner = None

    def __repr__(self):
        return "set(" + ", ".join(map(repr, self.items)) + ")"


class DictV(Mut):
    def __init__(self, cls, d=None):
        self.cls = cls
        self.d = dict(d or {})
        self.attrs = {}
        self.owner = None
        self.locs = {}

    def __repr__(self):
        return "{" + ", ".join("%r: %r" % kv for kv in self.d.items()) + "}"


class ObjV(Mut):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.owner = None
        self.data = None

    def __repr__(self):
        return "<%s %s>" % (getattr(self.cls, "name", self.cls), {k: v for k, v in self.attrs.items() if k != "children"} if len(self.attrs) < 6 else "...")


class ClassV:
    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.mro = None
        self.owner = None

    def __repr__(self):
        return "<class %s>" % self.name


class BuiltinClass:
    """A class known to the model. pyexc: real exception class for hierarchy tests."""

    def __init__(self, name, bases=(), methods=None, pyexc=None, construct=None, pytypes=None):
        self.name = name
        self.bases = list(bases)
        self.methods = methods or {}
        self.pyexc = pyexc
        self.construct = construct
        self.pytypes = pytypes

    def __repr__(self):
        return "<builtin class %s>" % self.name


class FuncV:
    def __init__(self, node, module, closure, defaults, kwdefaults, qualname, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qualname = qualname
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return "<func %s>" % self.qualname


class BoundV:
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class NativeV:
    """Model function: fn(interp, args, kwargs) -> value"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<native %s>" % self.name


class ModuleV:
    def __init__(self, name, ns, path=None):
        self.name = name
        self.ns = ns
        self.path = path

    def __repr__(self):
        return "<module %s>" % self.name


class ExternV:
    """Something from a library the model does not know."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<extern %s>" % self.name


class GenV:
    """Lazy iterator over abstract values (wraps a Python iterator)."""

    def __init__(self, it):
        self.it = it
        self.owner = None

    def __repr__(self):
        return "<gen>"


class PropertyV:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMethodV:
    def __init__(self, f):
        self.f = f


class SuperV:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


# ---------------------------------------------------------------- control exceptions of the analysis
class Unsupported(Exception):
    """The analysis has no transfer function for this construct."""


class PyRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, exc, loc=None):
        self.exc = exc
        self.loc = loc

    def __str__(self):
        return "%r at %s" % (self.exc, self.loc)


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    """this partition is covered elsewhere / contradicts the input class"""
