"""An independent reading of printed text: the lexemes a document must be written as, and a matcher over abstract text."""
from __future__ import annotations
from .values import *
from .vocab import *


def printed(node):
    """lexemes of the printed form of the dictionary expected(node), in dictionary order"""
    if isinstance(node, list):
        return [x for n in node for x in printed(n)]
    if isinstance(node, KVB):
        return [("word", node.kind)] + kv_lex(node.pairs) + [("word", "end")]
    return [("word", node.type)] + body(node) + [("word", "end")]


def kv_lex(pairs):
    d = {}
    for k, v in pairs:
        d[lower_str(k.val)] = v.val
    return [x for k, v in d.items() for x in (("strci", k), ("str", v))]


def body(node):
    slots = {}  # key -> list of lexemes, or list of lists
    npts = 0
    for n in node.items:
        if isinstance(n, Attr):
            lx = [("word", n.key)] + [(a, b) for a, b in n.shape.out]
            if n.key in REPEATED:
                slots.setdefault(n.key, []).extend(lx)
            else:
                slots[n.key] = lx
        elif isinstance(n, KVB):
            slots[n.kind] = printed(n)
        elif isinstance(n, Config):
            c = slots.setdefault("config", {})
            c[lower_str(n.key.val)] = [("word", "config"), ("strci", lower_str(n.key.val)), ("str", n.val.val)]
        elif isinstance(n, Proj):
            ps = [("enum", "AUTO")] if n.strings is None else [("str", s.val) for s in n.strings]
            slots["projection"] = [("word", "projection")] + ps + [("word", "end")]
        elif isinstance(n, Pairs):
            ps = [("word", n.kind)] + [("num", x.value) for pr in n.pairs for x in pr] + [("word", "end")]
            if n.kind == "points":
                slots.setdefault("points", []).extend(ps)
            else:
                slots[n.kind] = ps
        elif isinstance(n, Block):
            if n.type in SINGLETONS:
                slots[n.type] = printed(n)
            else:
                slots.setdefault(plural(n.type), []).extend(printed(n))
    out = []
    for k, v in slots.items():
        if isinstance(v, dict):
            for x in v.values():
                out.extend(x)
        else:
            out.extend(v)
    return out


class Cursor:
    def __init__(self, text):
        self.parts = list(text.parts) if isinstance(text, AStr) else [text] if text else []
        self.i = 0
        self.o = 0

    def norm(self):
        while self.i < len(self.parts) and isinstance(self.parts[self.i], str) and self.o >= len(self.parts[self.i]):
            self.i += 1
            self.o = 0

    def peek(self):
        self.norm()
        if self.i >= len(self.parts):
            return None
        p = self.parts[self.i]
        return p[self.o] if isinstance(p, str) else p

    def skip_ws(self):
        n = 0
        while True:
            c = self.peek()
            if isinstance(c, str) and c in " \t\r\n":
                self.o += 1
                n += 1
            elif isinstance(c, Atom) and c.cs <= frozenset(" \t\r\n"):
                self.i += 1
                n += 1
            else:
                return n

    def eat(self, want, ci=False):
        """consume `want` (str / AStr): True, or what was found instead"""
        for p in want.parts if isinstance(want, AStr) else [want]:
            if isinstance(p, Atom):
                c = self.peek()
                if not isinstance(c, Atom):
                    return c
                if c == p or ci and c.name == p.name and set(c.xf) | set(p.xf) <= {"lower", "upper"}:
                    self.i += 1
                    self.o = 0
                    continue
                return c
            for ch in p:
                c = self.peek()
                if not isinstance(c, str) or not (c == ch or ci and c.lower() == ch.lower()):
                    return c
                self.o += 1
        return True

    def at_break(self):
        c = self.peek()
        return c is None or isinstance(c, str) and c in " \t\r\n" or isinstance(c, Atom) and c.cs <= frozenset(" \t\r\n")

    def rest(self):
        out = []
        for j in range(self.i, min(len(self.parts), self.i + 3)):
            p = self.parts[j]
            out.append(p[self.o:][:60] if j == self.i and isinstance(p, str) else p)
        return show_parts(out)


def show_parts(ps):
    return "".join(p if isinstance(p, str) else repr(p) for p in ps)[:90]


def concrete_all(text):
    return isinstance(text, str)


def read(it, text, lexemes, same_quote=None):
    """-> (True, '') | (False, msg) | (None, msg): does the text consist of exactly these lexemes?"""
    if isinstance(text, ObjV) and isinstance(text.data, dict) and "strval" in text.data:
        text = text.data["strval"]
    if not isinstance(text, (str, AStr)):
        return None, "the text is %r" % (text,)
    c = Cursor(text)
    for kind, v in lexemes:
        c.skip_ws()
        at = c.rest()
        save = (c.i, c.o)
        want = v
        if kind == "num":
            want = it.str_of(v)
        if kind == "word":
            want = v.upper()
        if isinstance(want, ObjV):
            want = want.data["strval"]
        r = None
        if kind in ("str", "strci", "any"):
            q = c.peek()
            if q in ("'", '"') and isinstance(q, str):
                qs = [q]
                if same_quote:
                    qs = [same_quote] if q == same_quote else []
                if not qs:
                    return False, "expected a string in %s quotes, found %s" % (same_quote, at)
                c.o += 1
                r = c.eat(want, kind != "str")
                if r is True:
                    r = c.eat(q)
            elif kind == "any":
                r = c.eat(want, True)
            else:
                return sure(q), "expected the quoted string %s, found %s" % (sh(want), at)
        else:
            r = c.eat(want, kind in ("word", "enum"))
        if r is True and c.at_break():
            continue
        f = c.peek() if r is True else r
        return sure_diff(c, want, f), "expected %s %s, found %s" % ({"word": "keyword", "enum": "bare word", "num": "number", "bare": "unquoted", "str": "string", "strci": "string", "any": "word"}[kind], sh(want), at)
    c.skip_ws()
    if c.peek() is not None:
        return sure(c.peek()), "unexpected text after the last END: %s" % c.rest()
    return True, ""


def sh(v):
    return show_parts(v.parts) if isinstance(v, AStr) else repr(v)


def sure(c):
    return None if isinstance(c, Atom) and c.lo == 0 else False


def sure_diff(c, want, found):
    """a concrete character where another was expected is a definite difference unless an unknown block is involved"""
    if found is None or isinstance(found, str):
        return False if isinstance(want, str) or isinstance(found, str) else None
    return None
