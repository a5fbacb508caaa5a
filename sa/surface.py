"""Equivalent surface renderings of a document: letter case of keywords, separators, comments, quotes, bare words."""
from __future__ import annotations
import random
from .values import *
from .vocab import *


def lexemes(node):
    """[(kind, text)]: kw (case-insensitive keyword) | str (quoted string, any quote) | raw (as written)"""
    return [(k, v) for k, v, l in labelled(node)]


def labelled(node):
    """[(kind, text, (role, node, index))]: role open | end | val"""
    out = []

    def lex(x, n, i):
        out.append(("str" if x.kind == "str" else "kw" if x.kind == "kw" else "raw", x.val, ("val", n, i)))

    def kw(w, role, n):
        out.append(("kw", w, (role, n, 0)))

    def go(n):
        if isinstance(n, list):
            for x in n:
                go(x)
        elif isinstance(n, Block):
            kw(n.type, "open", n)
            for x in n.items:
                go(x)
            kw("end", "end", n)
        elif isinstance(n, Attr):
            kw(n.key, "open", n)
            for i, x in enumerate(n.shape.lex):
                lex(x, n, i)
        elif isinstance(n, KVB):
            kw(n.kind, "open", n)
            for i, (k, v) in enumerate(n.pairs):
                lex(k, n, 2 * i)
                lex(v, n, 2 * i + 1)
            kw("end", "end", n)
        elif isinstance(n, Config):
            kw("config", "open", n)
            lex(n.key, n, 0)
            lex(n.val, n, 1)
        elif isinstance(n, Pairs):
            kw(n.kind, "open", n)
            for i, (a, b) in enumerate(n.pairs):
                lex(a.lex[0], n, 2 * i)
                lex(b.lex[0], n, 2 * i + 1)
            kw("end", "end", n)
        elif isinstance(n, Proj):
            kw("projection", "open", n)
            if n.strings is None:
                out.append(("raw", "AUTO", ("val", n, 0)))
            else:
                for i, s in enumerate(n.strings):
                    lex(s, n, i)
            kw("end", "end", n)

    go(node)
    return out


BLANKS = (" ", "\t", "\f", "\n", "\r\n", "  \t ", "\n\n\n", " \r\n\r\n\t", "\t\n ", " \f\n")


def comments():
    b = lambda cs, p: atom(p, cs, 0)
    line = UNIVERSE - frozenset("\n")
    blk = UNIVERSE - frozenset("*/\n")
    return [cat(" # q", b(line, "c"), "z\n"), cat("\n#", b(line - frozenset("\r"), "c"), "z\r\n"), " #\t q \t \n", "# x \f \r\n", cat(" /* q", b(blk, "c"), " */ "), " /**/ ", " # it's \"quoted\n", " # END\n", "\n# LAYER /* not a block comment\n", " /* MAP\n NAME \"x\" # y\n END */ ", "#\n", " /* a */ /* b */\n# c\n",
            "\n\n  # one\n  # two\n\n", " ##\n", "# \\\n", " /* ** / // * */\n", "/*x*/ "]


def alt_case(w, k):
    k %= 5
    if k == 0:
        return w.upper()
    if k == 1:
        return w.lower()
    if k == 2:
        return w.title()
    if k == 3:
        return "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(w))
    return w[:-1].lower() + w[-1:].upper()


def may_hold(v, chars):
    for p in v.parts if isinstance(v, AStr) else [v]:
        if isinstance(p, str):
            if any(c in p for c in chars):
                return True
        elif p.cs & frozenset(chars):
            return True
    return False


class Style:
    """a rule for the free choices"""

    def __init__(self, name, case=None, sep=None, quote=None, seed=0):
        self.name = name
        self.case = case  # None: upper; "each": cycles; int
        self.sep = sep  # None | list of separators cycled
        self.quote = quote  # None: double | "single" | "mixed"
        self.seed = seed


def surface(node, st, marks=None):
    """the text; marks (a list) receives (label, kind, pieces before the lexeme, lexeme)"""
    rng = random.Random("%s%d" % (st.name, st.seed))
    out = []
    for i, (kind, v, label) in enumerate(labelled(node)):
        if i or st.sep is not None:
            if st.sep is None:
                out.append("\n" if kind == "kw" else " ")
            else:
                s = rng.choice(st.sep)
                out.append(s if i or rng.random() < 0.7 else "")
        n = len(out)
        if kind == "kw":
            out.append(v.upper() if st.case is None else alt_case(v, rng.randrange(5) if st.case == "each" else st.case))
        elif kind == "str":
            q = '"'
            if st.quote == "single" or st.quote == "mixed" and rng.random() < 0.5:
                q = "'"
            if may_hold(v, "\"'"):
                q = '"' if not may_hold(v, '"') else "'"
            out.append(cat(q, v, q))
        else:
            out.append(v)
        if marks is not None:
            marks.append((label, kind, cat(*out[:n]), out[n]))
    if st.sep is not None:
        out.append(rng.choice(st.sep))
    return cat(*out)
