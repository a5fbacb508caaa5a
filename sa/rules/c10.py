"""C10: expression rewriting preserves structure."""
import itertools
import random
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from .. import exprs as X
from ..exprs import Leaf, Call, Bin, Un, Par, spell, canon, shown
from .c02 import load, show_exc
from .c01 import dump

PLACES = (("class", "expression"), ("layer", "filter"), ("label", "text"), ("class", "text"), ("style", "geomtransform"), ("layer", "geomtransform"), ("cluster", "group"), ("cluster", "filter"), ("label", "expression"))


# ------------------------------------------------------------------ operands
def bind():
    return Leaf(cat("[", ident(), "]"))


def operands():
    """every kind of operand"""
    q = lambda: text_body()
    yield "binding", bind()
    yield "integer", Leaf(int_text())
    yield "negative integer", Leaf(cat("-", int_text()))
    yield "integer with leading zeros", Leaf("007")
    yield "float", Leaf("2.50")
    yield "float in exponent form", Leaf("1.5e3")
    yield "signed float", Leaf("+2.5")
    yield "string", Leaf(cat('"', q(), '"'))
    yield "single-quoted string", Leaf(cat("'", q(), "'"))
    yield "back-quoted string", Leaf(cat("`", q(), "`"))
    yield "case-insensitive string", Leaf(cat('"', q(), '"i'))
    yield "quoted binding", Leaf(cat('"[', ident(), ']"'))
    yield "empty string", Leaf('""')
    yield "string with parentheses", Leaf('"a) or (b"')
    yield "string with the other quote", Leaf('"it\'s"')
    yield "string with an escaped quote", Leaf('"a\\"b"')
    yield "string like a colour", Leaf('"#FF0000"')
    yield "string like a short colour", Leaf("'#fff'")
    yield "string like a number", Leaf('"-05"')
    yield "string with an operator", Leaf('"x AND y && !z"')
    yield "function call", Call(cat("q", atom("g", LETTER, 1)), [bind().text])
    yield "function call with two arguments", Call("tostring", [bind().text, '"%.2f"'])
    yield "function call with numbers", Call("buffer", [bind().text, "2.50", "007"])
    yield "function call with strings", Call("f", [cat("'", q(), "'"), cat('"', q(), '"'), "`x`", '"#FF0000"'])
    yield "regular expression", Leaf("/^a(b|c)$/")
    yield "case-insensitive regular expression", Leaf("/^a.*/i")
    yield "runtime variable", Leaf("%name%")
    yield "list", Leaf(cat("{q", atom("l", LETTER, 1), ",q", atom("l", LETTER, 1), "}"))
    yield "true", Leaf("true")
    yield "FALSE", Leaf("FALSE")


def list_docs():
    q = lambda: text_body()
    w = lambda: cat("q", atom("l", LETTER | DIGITS | frozenset("_"), 1))
    els = [("word", w), ("two words", lambda: cat("q", atom("l", LETTER, 1), " z", atom("l", LETTER, 1))), ("word with an apostrophe", lambda: "rock's"), ("string", lambda: cat('"', q(), '"')), ("single-quoted string", lambda: cat("'", q(), "'")),
           ("string with a comma", lambda: '"a,b"'), ("integer", int_text), ("negative integer", lambda: cat("-", int_text())), ("leading zeros", lambda: "007"), ("float", lambda: "2.50"), ("plus sign", lambda: "+3"),
           ("binding", lambda: bind().text), ("upper-case word", lambda: "ABC"), ("boolean word", lambda: "true"), ("colour string", lambda: '"#FF00aa"'), ("word with hyphen", lambda: "a-b:c")]
    for n, e in els:
        yield "list of one %s" % n, [e()]
        yield "list of two: %s" % n, [e(), e()]
        yield "list: %s, word" % n, [e(), w()]
        yield "list: word, %s" % n, [w(), e()]


# ------------------------------------------------------------------ trees
REPS = ("OR", "AND", "=", "+", "-", "*", "/", "%", "^")


def shapes(n):
    """shapes of binary trees with n inner nodes"""
    if n == 0:
        yield None
        return
    for k in range(n):
        for l in shapes(k):
            for r in shapes(n - 1 - k):
                yield (l, r)


def fill(shape, ops, leaf):
    if shape is None:
        return leaf()
    o = next(ops)
    l = fill(shape[0], ops, leaf)
    r = fill(shape[1], ops, leaf)
    return Bin(o, l, r)


def size(shape):
    return 0 if shape is None else 1 + size(shape[0]) + size(shape[1])


def inner(n):
    """paths to the nodes of a tree"""
    out = [()]
    if isinstance(n, Bin):
        out += [("l",) + p for p in inner(n.l)] + [("r",) + p for p in inner(n.r)]
    elif isinstance(n, (Un, Par)):
        out += [("x",) + p for p in inner(n.x)]
    return out


def wrap(n, path, f):
    if not path:
        return f(n)
    if isinstance(n, Bin):
        return Bin(n.op, wrap(n.l, path[1:], f) if path[0] == "l" else n.l, wrap(n.r, path[1:], f) if path[0] == "r" else n.r)
    if isinstance(n, Un):
        return Un(n.op, wrap(n.x, path[1:], f))
    return Par(wrap(n.x, path[1:], f))


def random_tree(rng, k, leaf):
    if k == 0:
        r = rng.random()
        if r < 0.7:
            return leaf()
        if r < 0.8:
            return Call("f", [bind().text, "2"])
        if r < 0.9:
            return Leaf(cat('"', text_body(), '"'))
        return Leaf(str(rng.randrange(1, 99)))
    r = rng.random()
    if r < 0.12:
        return Un("-", random_tree(rng, k - 1, leaf))
    if r < 0.24:
        return Un(rng.choice(X.NOT), random_tree(rng, k - 1, leaf))
    if r < 0.34:
        return Par(random_tree(rng, k - 1, leaf))
    i = rng.randrange(k)
    op = rng.choice(rng.choice((X.OR, X.AND, X.CMP, X.SUM, X.PROD)))
    return Bin(op, random_tree(rng, i, leaf), random_tree(rng, k - 1 - i, leaf))


class ExprIn:
    def __init__(self, type_, key, tree, text):
        self.type, self.key, self.tree, self.text = type_, key, tree, text

    def __abs_fields__(self):
        return [self.text]

    def __abs_subst__(self, f):
        def go(n):
            if isinstance(n, Leaf):
                return Leaf(f(n.text))
            if isinstance(n, Call):
                return Call(f(n.name), [f(a) for a in n.args])
            if isinstance(n, Bin):
                return X.Bin_(n.op, go(n.l), go(n.r))
            if isinstance(n, Un):
                return Un(n.op, go(n.x))
            if isinstance(n, Par):
                return Par(go(n.x))
            if isinstance(n, list):
                return [f(x) for x in n]
            return n

        return ExprIn(self.type, self.key, go(self.tree), f(self.text))

    def show(self):
        return show(self.text)


def same_tree(it, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b) or a[0] != b[0]:
            return False
        rs = [same_tree(it, x, y) for x, y in zip(a[1:], b[1:])]
        return False if False in rs else None if None in rs else True
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    return same(it, a, b)


def ob(name, type_, key, tree, text, rule, construct, cython=True):
    def run(it, inp):
        it.stage = 0
        doc = cat(inp.type.upper(), " ", inp.key.upper(), " ", inp.text, " END")
        d = load(it, doc)
        v = it.getitem(d, inp.key)
        it.stage, it.v = 1, v
        v2 = it.getitem(load(it, cat(inp.type.upper(), " ", inp.key.upper(), " ", v, " END")), inp.key) if isinstance(v, (str, AStr)) else None
        it.stage = 2
        out = dump(it, d)
        it.stage, it.out = 3, out
        v3 = it.getitem(load(it, out), inp.key)
        it.stage = 4
        return v, v2, out, v3

    def judge(it, inp, p):
        src = show(inp.text)[:200]
        if p.kind == "raise":
            if it.stage == 0:
                return [Bad(rule, construct, "%s does not load: %s%s" % (src, p.value.cls.name, show_exc(p)))]
            if it.stage == 2:
                return [Bad(rule, construct, "%s: dumps raises %s" % (src, p.value.cls.name))]
            return [Bad(rule, construct, "%s is stored as %s, and that does not load again%s" % (src, show(it.v)[:200], "" if it.stage == 1 else " from the text dumps writes: " + show(it.out)[:200]))]
        v, v2, out, v3 = p.value
        if not isinstance(v, (str, AStr)):
            return [Bad(rule, construct, "%s is stored as %s" % (src, show(v)))]
        bads = []
        if isinstance(inp.tree, list):
            try:
                got = ("list",) + tuple(X.list_items(v))
            except X.Malformed as ex:
                return [Bad(rule, construct, "%s is stored as %s, which is no list" % (src, show(v)))]
            want = ("list",) + tuple(inp.tree)
        elif isinstance(inp.tree, Leaf):  # regular expressions and bindings outside parentheses: verbatim
            got, want = ("leaf", v), ("leaf", inp.tree.text)
        else:
            try:
                got = canon(X.read(v))
            except X.Malformed as ex:
                return [Bad(rule, construct, "%s is stored as %s, which does not read as an expression: %s" % (src, show(v), ex))]
            want = canon(inp.tree)
        r = same_tree(it, want, got)
        if r is not True:
            bads.append(Bad(rule, construct, "%s is stored as %s: it reads as %s, expected %s" % (src, show(v)[:200], shown(got) if not isinstance(inp.tree, list) else show(v), shown(want) if not isinstance(inp.tree, list) else src), r is False))
        for w, what in ((v2, "stored"), (v3, "stored and printed")):
            r = same(it, v, w)
            if r is not True:
                bads.append(Bad(rule, construct, "%s is %s as %s and then read again as %s" % (src, what, show(v)[:200], show(w)[:200]), r is False))
        return bads

    return Ob(name, ExprIn(type_, key, tree, text), run, judge, cython=cython, max_paths=64)


def paren(t, sp=" "):
    return cat("(", t, ")")


def top(n, sp=" ", full=False):
    return paren(spell(n, sp, full))


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    obs = []

    def add(name, n, sp=" ", full=False, place=("class", "expression"), text=None, **kw):
        obs.append(ob("%s %s" % (".".join(place).upper(), name), place[0], place[1], n, top(n, sp, full) if text is None else text, "expression", name, **kw))

    # single operators and operands
    ops = list(X.CMP) + list(X.SUM) + list(X.PROD) + list(X.AND) + list(X.OR)
    for o in ops:
        add("operator %s" % o, Bin(o, bind(), bind()))
        add("operator %s, compact" % o, Bin(o, bind(), bind()), sp="")
        add("operator %s before a number" % o, Bin(o, bind(), Leaf("5")), sp="")
        add("operator %s before a negative number" % o, Bin(o, bind(), Leaf("-5")))
        for nm, x in operands():
            if thorough or o in ("=", "IN", "AND", "+", "%", "eq", "||") or nm in ("string", "binding"):
                add("%s right of %s" % (nm, o), Bin(o, bind(), x))
                add("%s left of %s" % (nm, o), Bin(o, x, bind()))
    for o in X.NOT:
        for nm, x in operands():
            add("%s of a %s" % (o, nm), Un(o, x))
            add("%s of a comparison with a %s" % (o, nm), Un(o, Bin("=", bind(), x)))
        c = Bin("=", bind(), Leaf("5"))
        add("%s before the parentheses" % o, Un(o, c), text=cat(o, " ", top(c)))
        add("%s %s" % (o, o), Un(o, Un(o, bind())))
    for nm, x in operands():
        if "string" not in nm and "list" not in nm and "regular" not in nm and nm not in ("true", "FALSE", "runtime variable", "quoted binding"):
            add("minus %s" % nm, Un("-", x))
            add("minus minus %s" % nm, Un("-", Un("-", x)))
            add("minus %s times" % nm, Bin("*", Un("-", x), Un("-", bind())))
            add("minus minus, compact %s" % nm, Bin("-", bind(), Un("-", x)))
        add("only %s" % nm, x, text=paren(spell(x)))
        add("doubly parenthesised %s" % nm, Par(x), text=paren(paren(spell(x))))
    # a parenthesised single operand is one operand again: its own text has parentheses
    obs2 = []
    for o in obs:
        if isinstance(o.inputs.tree, Leaf):
            o.inputs.tree = Par(o.inputs.tree)
    chk.add(obs, "operators and operands")
    obs.clear()
    # precedence: every tree with two binary operators, all parenthesisations
    for sh in shapes(2):
        for a in REPS + (("==", "~", "IN", "&&", "||", "EQ") if thorough else ("IN", "&&")):
            for b in REPS:
                n = fill(sh, iter((a, b)), bind)
                nm = "%s over %s, %s" % (a, b, "left" if sh[0] else "right")
                add(nm, n)
                add(nm + ", compact", n, sp="")
                add(nm + ", fully parenthesised", n, full=True)
                k = ("l",) if sh[0] else ("r",)
                add(nm + ", doubly parenthesised", wrap(n, k, lambda x: Par(Par(x))))
                add(nm + ", parenthesised whole", Par(n))
                add(nm + ", operands parenthesised", wrap(wrap(n, ("l",), Par), ("r",), Par))
    # unary operators at every place of the trees with one and two binary operators
    for k in (1, 2):
        for sh in shapes(k):
            for os_ in itertools.product(("OR", "AND", "=", "-", "%", "^") if k == 1 or thorough else ("AND", "=", "-", "*"), repeat=k):
                n = fill(sh, iter(os_), bind)
                for path in inner(n):
                    for u in ("-", "NOT", "!") if k == 1 else ("-", "NOT"):
                        m = wrap(n, path, lambda x: Un(u, x))
                        add("%s at %s of %s" % (u, "".join(path) or "top", " ".join(os_)), m)
                        if k == 1:
                            add("%s at %s of %s, parenthesised" % (u, "".join(path) or "top", " ".join(os_)), m, full=True)
    chk.add(obs, "precedence")
    obs.clear()
    # three operators
    for sh in shapes(3):
        for os_ in itertools.product(REPS if thorough else ("OR", "AND", "=", "-", "*", "%"), repeat=3):
            n = fill(sh, iter(os_), bind)
            add("three operators %s %s" % (" ".join(os_), sh_name(sh)), n)
    rng = random.Random(chk.seed)
    for i in range(3000 if thorough else 500):
        n = random_tree(rng, rng.randrange(4, 9), bind)
        add("random tree", n, sp=rng.choice((" ", " ", "  ")), full=rng.random() < 0.2)
        obs[-1].name += " %d" % i
    chk.add(obs, "deeper trees")
    obs.clear()
    # other positions, lists, regular expressions
    for place in PLACES:
        for nm, n in (("comparison", Bin("=", bind(), Leaf("5"))), ("and", Bin("AND", Bin("=", bind(), Leaf("5")), Un("NOT", Bin(">", bind(), Leaf("2.50"))))), ("arithmetic", Bin("*", Bin("+", bind(), Leaf("1")), Bin("-", bind(), Leaf("1")))),
                      ("function", Call("buffer", [bind().text, "2.50"])), ("modulo", Bin("=", bind(), Bin("%", bind(), Leaf("2")))), ("colour string", Bin("eq", bind(), Leaf('"#FF0000"'))), ("string", Bin("=", Leaf(cat('"[', ident(), ']"')), Leaf(cat('"', text_body(), '"'))))):
            add(nm, n, place=place)
            add(nm + ", pure Python lark", n, place=place, cython=False)
    for place in (("class", "expression"), ("label", "expression")):
        for nm, els in list_docs():
            t = [x for e in els for x in (",", e)][1:]
            add(nm, els, place=place, text=cat("{", *t, "}"))
            if place[0] == "class":
                add(nm + ", pure Python lark", els, place=place, text=cat("{", *t, "}"), cython=False)
                add(nm + " inside parentheses", Bin("IN", bind(), Leaf(cat("{", *t, "}"))))
        for nm, x in operands():
            if "regular" in nm:
                add(nm + " outside parentheses", x, place=place, text=x.text)
    for place in (("label", "angle"), ("label", "size"), ("style", "symbol"), ("style", "color"), ("cluster", "group")):
        b = bind()
        add("binding", b, place=place, text=b.text) if place != ("cluster", "group") else None
    chk.add(obs, "positions")
    chk.cov["operators"] = ops + list(X.NOT)
    return ("The stored string of expressions with unknown operands (all trees with up to %d binary operators over representatives of every precedence level, every operator spelling, every operand kind, unary operators at every place, all parenthesisations of "
            "pairs, and random larger trees) is parsed abstractly by an independent precedence reader and compared with the source tree; the string is read again directly and through dumps. List elements, regular expressions, call arguments and bindings are compared verbatim." % 3)


def sh_name(s):
    return "." if s is None else "(%s%s)" % (sh_name(s[0]), sh_name(s[1]))
