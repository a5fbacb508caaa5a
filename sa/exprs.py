"""MapServer expressions: trees, their spellings, and an independent reading of (abstract) expression text."""
from __future__ import annotations
from .values import *
from .vocab import *

CMP = ("=", "==", "!=", "<", "<=", ">", ">=", "~", "~*", "=*", "IN", "EQ", "NE", "LT", "LE", "GT", "GE", "LIKE", "eq", "Like", "in")
SUM = ("+", "-")
PROD = ("*", "/", "%", "^")
AND = ("AND", "&&", "and")
OR = ("OR", "||", "or")
NOT = ("NOT", "!", "not")
LEVEL = {}
for _ops, _l in ((OR, 1), (AND, 2), (NOT, 3), (CMP, 4), (SUM, 5), (PROD, 6)):
    for _o in _ops:
        LEVEL[_o] = _l


class Leaf:
    level = 8

    def __init__(self, text):
        self.text = text


class Call:
    level = 8

    def __init__(self, name, args):
        self.name = name
        self.args = args  # texts


class Bin:
    def __init__(self, op, l, r):
        self.op, self.l, self.r = op, l, r
        self.level = LEVEL[op]


class Un:
    """- or a spelling of NOT"""

    def __init__(self, op, x):
        self.op, self.x = op, x
        self.level = 7 if op == "-" else 3


class Par:
    level = 8

    def __init__(self, x):
        self.x = x


def spell(n, sp=" ", full=False):
    """text of a tree; parentheses where the precedence demands them (full: around every operand that is no leaf)"""
    if isinstance(n, Leaf):
        return n.text
    if isinstance(n, Call):
        out = [n.name, "("]
        for i, a in enumerate(n.args):
            out += [", " if i and sp else "," if i else "", a]
        return cat(*out, ")")
    if isinstance(n, Par):
        return cat("(", sp, spell(n.x, sp, full), sp, ")")

    def sub(x, need):
        t = spell(x, sp, full)
        if need or full and not isinstance(x, (Leaf, Call, Par)):
            return cat("(", t, ")")
        return t

    if isinstance(n, Un):
        word = n.op[0].isalpha()
        t = sub(n.x, n.x.level < n.level)
        return cat(n.op, " " if word or n.op == "-" and sp else "", t)
    word = n.op[0].isalpha()
    s = sp or (" " if word else "")
    return cat(sub(n.l, n.l.level < n.level), s, n.op, s, sub(n.r, n.r.level <= n.level))


def canon(n):
    """the structure the property compares"""
    if isinstance(n, Par):
        return canon(n.x)
    if isinstance(n, Leaf):
        return ("leaf", n.text)
    if isinstance(n, Call):
        return ("call", n.name) + tuple(n.args)
    if isinstance(n, Un):
        x = n.x
        if n.op == "-" and isinstance(x, Leaf) and operand_word(chars(x.text)[:1]):
            return ("leaf", cat("-", x.text))  # the sign of a number
        return ("-" if n.op == "-" else "NOT", canon(x))
    op = {"&&": "AND", "||": "OR"}.get(n.op, n.op.upper() if n.op.lower() in ("and", "or") else n.op)
    return (op, canon(n.l), canon(n.r))


def shown(c):
    if isinstance(c, tuple):
        if c[0] == "leaf":
            return shown(c[1])
        if c[0] == "call":
            return "%s(%s)" % (shown(c[1]), ", ".join(shown(x) for x in c[2:]))
        if len(c) == 2:
            return "[%s %s]" % (c[0], shown(c[1]))
        return "[%s %s %s]" % (shown(c[1]), c[0], shown(c[2]))
    return "".join(p if isinstance(p, str) else "<%s>" % (p.name,) for p in (c.parts if isinstance(c, AStr) else [c]))


# ------------------------------------------------------------------ reading
class Malformed(Exception):
    pass


WORDCH = LETTER | DIGITS | frozenset("_-:.")


def chars(text):
    out = []
    for p in text.parts if isinstance(text, AStr) else [text]:
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def join(cs):
    return mkstr(cs)


def tokens_of(text):
    """(kind, text): op | ( | ) | , | leaf | name"""
    cs = chars(text)
    out = []
    i = 0

    def at(j):
        return cs[j] if j < len(cs) else None

    def isin(j, s):
        c = at(j)
        return isinstance(c, str) and c in s

    def wordy(j):
        c = at(j)
        return isinstance(c, str) and (c in WORDCH and c != "-") or isinstance(c, Atom) and c.cs <= WORDCH

    while i < len(cs):
        c = cs[i]
        operand = not out or out[-1][0] in ("op", "(", ",")
        if isinstance(c, str) and c in " \t\r\n":
            i += 1
            continue
        if isinstance(c, str) and c in "()":
            out.append((c, c))
            i += 1
            continue
        if isinstance(c, str) and c == ",":
            out.append((",", ","))
            i += 1
            continue
        if isinstance(c, str) and c in "\"'`":
            j = i + 1
            while j < len(cs) and cs[j] != c:
                j += 2 if cs[j] == "\\" and at(j + 1) == c else 1
            if j >= len(cs):
                raise Malformed("unterminated string")
            j += 1
            if isin(j, "i"):
                j += 1
            out.append(("leaf", join(cs[i:j])))
            i = j
            continue
        if isinstance(c, str) and c in "[{":
            e = "]" if c == "[" else "}"
            j = i + 1
            q = None
            while j < len(cs) and (q or cs[j] != e):
                if q:
                    if cs[j] == q:
                        q = None
                elif c == "{" and isinstance(cs[j], str) and cs[j] in "\"'" and cs[j - 1] in ("{", ",", " "):
                    q = cs[j]
                j += 1
            if j >= len(cs):
                raise Malformed("unterminated %s" % c)
            out.append(("leaf", join(cs[i:j + 1])))
            i = j + 1
            continue
        if operand and c == "/":
            j = i + 1
            while j < len(cs) and cs[j] != "/":
                j += 1
            if j >= len(cs):
                raise Malformed("unterminated regular expression")
            j += 1
            if isin(j, "i"):
                j += 1
            out.append(("leaf", join(cs[i:j])))
            i = j
            continue
        if operand and c == "%":
            j = i + 1
            while j < len(cs) and cs[j] != "%":
                j += 1
            out.append(("leaf", join(cs[i:j + 1])))
            i = j + 1
            continue
        if isinstance(c, str) and c in "=<>!~+-*/^%&|":
            if c in "+-" and operand and (isin(i + 1, "0123456789") or isinstance(at(i + 1), Atom) and at(i + 1).cs <= DIGITS):
                j = i + 1
                while wordy(j):
                    j += 1
                out.append(("leaf", join(cs[i:j])))
                i = j
                continue
            two = "".join(x for x in cs[i:i + 2] if isinstance(x, str))
            op = two if two in ("==", "!=", "<=", ">=", "~*", "=*", "&&", "||") else c
            if op in ("&", "|"):
                raise Malformed("operator %s" % op)
            out.append(("op", op))
            i += len(op)
            continue
        if wordy(i):
            j = i
            while wordy(j) or isin(j, "-") and not operand_word(cs[i:j]):
                j += 1
            w = join(cs[i:j])
            if isinstance(w, str) and w in LEVEL:
                out.append(("op", w))
            elif isinstance(w, str) and (w.lower() in ("and", "or", "not") or any(w.lower() == x.lower() for x in CMP if x.isalpha())):
                out.append(("op", w))
            else:
                out.append(("name", w))
            i = j
            continue
        raise Malformed("character %r" % (c,))
    return out


def operand_word(cs):
    return all(isinstance(c, str) and c in "0123456789." or isinstance(c, Atom) and c.cs <= DIGITS for c in cs)


class Reader:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end", "")

    def op(self):
        k, v = self.peek()
        return v if k == "op" else None

    def read(self):
        x = self.or_()
        if self.peek()[0] != "end":
            raise Malformed("unexpected %s" % shown(self.peek()[1]))
        return x

    def _left(self, sub, ops):
        x = sub()
        while self.op() is not None and self.op().lower() in ops:
            o = self.op()
            self.i += 1
            x = Bin_(o, x, sub())
        return x

    def or_(self):
        return self._left(self.and_, {x.lower() for x in OR})

    def and_(self):
        return self._left(self.not_, {x.lower() for x in AND})

    def not_(self):
        if self.op() is not None and self.op().lower() in ("not", "!"):
            o = self.op()
            self.i += 1
            return Un(o, self.not_())
        return self.cmp()

    def cmp(self):
        return self._left(self.sum, {x.lower() for x in CMP})

    def sum(self):
        return self._left(self.prod, set(SUM))

    def prod(self):
        return self._left(self.un, set(PROD))

    def un(self):
        if self.op() == "-":
            self.i += 1
            return Un("-", self.un())
        return self.atom()

    def atom(self):
        k, v = self.peek()
        if k == "(":
            self.i += 1
            x = self.or_()
            if self.peek()[0] != ")":
                raise Malformed("expected ) at %s" % shown(self.peek()[1]))
            self.i += 1
            return Par(x)
        if k == "leaf":
            self.i += 1
            return Leaf(v)
        if k == "name":
            self.i += 1
            if self.peek()[0] != "(":
                return Leaf(v)
            self.i += 1
            args = []
            while True:
                depth = 0
                a = []
                while not (depth == 0 and self.peek()[0] in (",", ")")):
                    kk, vv = self.peek()
                    if kk == "end":
                        raise Malformed("unterminated function call")
                    depth += {"(": 1, ")": -1}.get(kk, 0)
                    a.append(vv)
                    self.i += 1
                args.append(cat(*a) if a else "")
                if self.peek()[0] == ")":
                    break
                self.i += 1
            self.i += 1
            return Call(v, args)
        raise Malformed("expected an operand at %s" % (shown(v) or "the end"))


def Bin_(o, l, r):
    b = Bin.__new__(Bin)
    b.op, b.l, b.r, b.level = o, l, r, LEVEL.get(o, 4)
    return b


def read(text):
    return Reader(tokens_of(text)).read()


def list_items(text):
    """the elements of a {..} list, outer blanks removed"""
    cs = chars(text)
    if not cs or cs[0] != "{" or cs[-1] != "}":
        raise Malformed("not a list")
    out, cur, q = [], [], None
    for c in cs[1:-1]:
        if q:
            if c == q:
                q = None
        elif isinstance(c, str) and c in "\"'" and not [x for x in cur if x != " "]:
            q = c
        elif c == ",":
            out.append(cur)
            cur = []
            continue
        cur.append(c)
    out.append(cur)
    res = []
    for c in out:
        while c and c[0] == " ":
            c = c[1:]
        while c and c[-1] == " ":
            c = c[:-1]
        res.append(join(c) if c else "")
    return res
