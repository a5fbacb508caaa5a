"""C14: kept comments are verbatim, never invented or duplicated, and stay attached."""
import random
from ..values import *
from ..harness import *
from .. import docs as DD
from .. import layout as LY
from .. import optsets as OS
from ..vocab import *
from .c01 import dump
from .c02 import DocIn, show_exc
from .c15 import no_newline
from .c16 import deep_docs

LINE = UNIVERSE - frozenset("\n")
BLK = UNIVERSE - frozenset("*\n")


def line_comment():
    n = fresh("c")
    return cat("#", AStr([Atom(n, LINE, 0)]), "z")


def block_comment():
    n = fresh("c")
    return cat("/*", AStr([Atom(n, BLK, 0)]), "*/")


FIXED_LINE = ["#%d", "# note %d", "## %d ##", "#\t%d", "# it's \"%d\" `x`", "# END %d", "# LAYER %d /* open", "# \\%d\\", "# %d {x} %%s", "# caf\u00e9 \U0001f30d %d", "#%d*/", "# INCLUDE %d", "#%d; 'x", "# a # b %d", "#%d //", "# NAME \"%d\" # two"]
FIXED_BLOCK = ["/* %d */", "/*%d*/", "/* a\n b %d\n*/", "/** # %d **/", "/* \"%d' ` */", "/* END %d # x */", "/* // %d /* */", "/* LAYER\nNAME 'x' # %d\nEND */", "/* caf\u00e9 \U0001f30d %d\n\n */", "/*\n%d\n*/"]


class Plan:
    """what is written around each line of a document: {line: (comments above, comment behind | None)}"""

    def __init__(self, at, tail=()):
        self.at = at
        self.tail = tail

    def texts(self):
        return [c for a, b, g in self.at.values() for c in a + ([b] if b is not None else [])] + list(self.tail)


class ComIn:
    def __init__(self, d, plan, nl="\n", indent="  "):
        self.d, self.plan, self.nl, self.indent = d, plan, nl, indent

    def __abs_fields__(self):
        return self.d.__abs_fields__() + [c for c in self.plan.texts() if not isinstance(c, str)]

    def __abs_subst__(self, f):
        p = Plan({k: ([f(c) for c in a], b if b is None else f(b), g) for k, (a, b, g) in self.plan.at.items()}, [f(c) for c in self.plan.tail])
        return ComIn(self.d.__abs_subst__(f), p, self.nl, self.indent)

    def text(self):
        out = []
        for i, (depth, lex, role, node) in enumerate(source_lines(self.d.doc, self.d.o)):
            above, behind, gap = self.plan.at.get(i, ([], None, 0))
            out.append(self.nl * gap)
            for c in above:
                out += [self.indent * depth, c, self.nl]
            out.append(self.indent * depth)
            for j, x in enumerate(lex):
                out += ([" "] if j else []) + [x]
            if behind is not None:
                out += [" ", behind]
            out.append(self.nl)
        for c in self.plan.tail:
            out += [c, self.nl]
        return cat(*out)

    def show(self):
        return show(self.text())[:1800]


def source_lines(doc, o):
    """[(depth, lexemes, role, node)]: role open | end | attr | other"""
    ts = tokens(doc, o)
    roles = []

    def go(n):
        if isinstance(n, list):
            for x in n:
                go(x)
        elif isinstance(n, Block):
            roles.append(("open", n))
            for x in n.items:
                go(x)
            roles.append(("end", n))
        elif isinstance(n, Attr):
            roles.append(("other" if n.key in REPEATED else "attr", n))
        elif isinstance(n, KVB):
            roles.append(("other" if n.kind == "values" else "open", n))
            for _ in n.pairs:
                roles.append(("pair" if n.kind == "metadata" else "inner", n))
            roles.append(("end", n))
        elif isinstance(n, Config):
            roles.append(("other", n))
        elif isinstance(n, Pairs):
            roles.append(("other", n))
            roles.extend([("inner", n)] * len(n.pairs))
            roles.append(("end", n))
        elif isinstance(n, Proj):
            roles.append(("other", n))
            roles.extend([("inner", n)] * (1 if n.strings is None else len(n.strings)))
            roles.append(("end", n))

    go(doc)
    if len(roles) != len(ts):
        raise Unsupported("lines of the document")
    return [(d, lex, r, n) for (d, lex), (r, n) in zip(ts, roles)]


def plan_for(doc, o, rng, mode):
    """a Plan for the documented placements; mode: all | some | more (comments elsewhere too) | symbolic"""
    at = {}
    k = [0]

    def num():
        k[0] += 1
        return k[0]

    def lc():
        return line_comment() if mode == "symbolic" else rng.choice(FIXED_LINE) % num()

    def bc():
        return block_comment() if mode == "symbolic" else rng.choice(FIXED_BLOCK) % num()

    ls = source_lines(doc, o)
    for i, (depth, lex, role, node) in enumerate(ls):
        above, behind = [], None
        gap = rng.choice((0, 0, 0, 1, 2)) if mode != "all" else 0
        if role == "open" and (mode in ("all", "symbolic") or rng.random() < 0.6):
            above = [lc() if rng.random() < 0.7 else bc() for _ in range(rng.choice((1, 1, 2, 3)))]
        elif role == "attr" and (mode in ("all", "symbolic") or rng.random() < 0.6):
            behind = lc() if rng.random() < 0.8 else bc()
        if mode == "more":
            if role != "open" and rng.random() < 0.3:
                above = [lc() if rng.random() < 0.6 else bc() for _ in range(rng.choice((1, 1, 2)))]
            if role != "attr" and rng.random() < 0.3:
                behind = lc() if rng.random() < 0.6 else bc().replace("\n", " ")
        if isinstance(behind, str) and behind.startswith("/*"):
            behind = behind.replace("\n", " ")
        at[i] = (above, behind, gap)
    tail = [lc() for _ in range(rng.choice((0, 1, 2)))] if mode == "more" else []
    return Plan(at, tail)


class OutLine:
    def __init__(self):
        self.code, self.comments = [], []

    def text(self):
        return mkstr(list(self.code))


def scan(text, nl="\n"):
    """lines of a printed text: the code and the comments of each (a comment of several lines belongs to its first)"""
    chars = []
    for p in text.parts if isinstance(text, AStr) else [text]:
        chars.extend(p if isinstance(p, str) else [p])
    out, line, quote, mode, cur = [], OutLine(), None, None, []
    i = 0
    while i < len(chars):
        c = chars[i]
        nxt = chars[i + 1] if i + 1 < len(chars) else None
        if mode == "#":
            if c == "\n":
                line.comments.append(mkstr(cur))
                mode = None
                out.append(line)
                line = OutLine()
            else:
                cur.append(c)
        elif mode == "*":
            cur.append(c)
            if c == "*" and nxt == "/":
                cur.append(nxt)
                i += 1
                mode = None
                line.comments.append(mkstr(cur))
        elif quote:
            line.code.append(c)
            if c == quote:
                quote = None
        elif isinstance(c, str) and c in "\"'`":
            quote = c
            line.code.append(c)
        elif c == "#":
            mode, cur = "#", [c]
        elif c == "/" and nxt == "*":
            mode, cur = "*", [c, nxt]
            i += 1
        elif c == "\n":
            out.append(line)
            line = OutLine()
        else:
            line.code.append(c)
        i += 1
    if mode == "#":
        line.comments.append(mkstr(cur))
    elif mode:
        return None
    out.append(line)
    return out


def bare(c):
    """a comment without blanks at its end"""
    if isinstance(c, AStr):
        ps = list(c.parts)
        if isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip()
        return mkstr(ps)
    return c.rstrip()


def coded(l):
    return any(not (isinstance(x, str) and x in " \t\r") for x in l.code)


def com_ob(name, construct, inp, opts=None, kind="loads"):
    def run(it, inp):
        text = inp.text()
        it.stage = "loads"
        m = it.import_module("mappyfile").ns
        plain = it.call(m["loads"], [text], {"expand_includes": False})
        it.stage = "loads with comments"
        if kind == "open":
            it.files["/cwd/q.map"] = text
            d = it.call(m["open"], ["/cwd/q.map"], {"expand_includes": False, "include_comments": True})
        else:
            d = it.call(m["loads"], [text], {"expand_includes": False, "include_comments": True})
        it.stage = "dumps"
        without = dump(it, plain, **(opts or {}))
        it.stage = "dumps with comments"
        out = dump(it, d, **(opts or {}))
        it.stage = "read again without comments"
        a = it.call(m["loads"], [without], {"expand_includes": False})
        it.stage = "read again"
        b = it.call(m["loads"], [out], {"expand_includes": False})
        return out, a, b

    def judge(it, inp, p):
        if p.kind == "raise":
            if it.stage in ("loads", "dumps", "read again without comments"):
                return []
            return [Bad("content", construct, "%s raises %s%s" % (it.stage, p.value.cls.name, show_exc(p)))]
        out, a, b = p.value
        bads = []
        s = same(it, a, b)
        if s is not True:
            bads.append(Bad("content", construct, "the text with comments loads to another content: %s; printed: %s" % (diff(a, b), show(out)[:500]), s is False))
        ls = scan(out)
        if ls is None:
            return bads + [Bad("verbatim", construct, "a comment without end is written: %s" % show(out)[:400])]
        # every comment that is written is one of the source
        src = [bare(c) for c in inp.plan.texts()]
        used = [False] * len(src)
        where = {}  # index of the source comment -> (line, last on it)
        code = [i for i, l in enumerate(ls) if coded(l)]
        for i, l in enumerate(ls):
            for c in l.comments:
                c = bare(c)
                hit = [j for j, x in enumerate(src) if same(it, x, c) is True]
                free = [j for j in hit if not used[j]]
                if free:
                    used[free[0]] = True
                    where[free[0]] = i
                elif hit:
                    bads.append(Bad("duplicate", construct, "the comment %s is written more often than it occurs; printed: %s" % (show(c), show(out)[:600])))
                else:
                    js = parts_of(it, c, [j for j in range(len(src)) if not used[j]], src)
                    sure = all(same(it, x, c) is False for x in src)
                    if js:
                        for j in js:
                            used[j] = True
                        bads.append(Bad("verbatim", "joined " + spot(ls, i), "comments of the source are written as one comment: %s" % show(c)))
                    else:
                        bads.append(Bad("verbatim", construct, "the comment %s is not one of the source; printed: %s" % (show(c), show(out)[:600]), sure))
        # documented placements
        lay = LY.lines_of(inp.d.doc, 0, (opts or {}).get("separate_complex_types", False))
        if len(lay) != len(code):
            if not bads:
                raise Unsupported("%d lines of code for %d lines of the layout" % (len(code), len(lay)))
            return bads
        at = {}
        for k, l in enumerate(lay):
            if l.src is not None:
                at[id(l.src)] = code[k]
        n = 0
        for i, (depth, lex, role, node) in enumerate(source_lines(inp.d.doc, inp.d.o)):
            above, behind, _ = inp.plan.at.get(i, ([], None, 0))
            line = at.get(id(node))
            if role == "open" and line is not None:
                top = line
                while top > 0 and not coded(ls[top - 1]):
                    top -= 1
                for q, c in enumerate(above):
                    w = where.get(n + q)
                    if w is None:
                        bads.append(Bad("attached", "%s/above %s" % (construct, name_of(node)), "the comment %s above %s is not written; printed: %s" % (show(c), name_of(node), show(out)[:600])))
                    elif not top <= w < line:
                        if not moved(it, src, n + q, where, top, line):
                            bads.append(Bad("attached", "%s/above %s" % (construct, name_of(node)), "the comment %s above %s is written elsewhere; printed: %s" % (show(c), name_of(node), show(out)[:600])))
            elif role == "attr" and behind is not None and line is not None and starts(behind, "#"):
                w = where.get(n + len(above))
                if w is None:
                    bads.append(Bad("attached", "%s/behind %s" % (construct, name_of(node)), "the comment %s behind %s is not written; printed: %s" % (show(behind), name_of(node), show(out)[:600])))
                elif w != line:
                    if not moved(it, src, n + len(above), where, line, line + 1):
                        bads.append(Bad("attached", "%s/behind %s" % (construct, name_of(node)), "the comment %s behind %s is written elsewhere; printed: %s" % (show(behind), name_of(node), show(out)[:600])))
                elif same(it, bare(ls[line].comments[-1]), bare(behind)) is not True:
                    bads.append(Bad("attached", "%s/behind %s" % (construct, name_of(node)), "the comment %s is not at the end of the line of %s" % (show(behind), name_of(node))))
            n += len(above) + (behind is not None)
        return bads

    return Ob(name, inp, run, judge, max_paths=300)


def moved(it, src, i, where, lo, hi):
    """an equal comment is at the place"""
    return any(j != i and same(it, src[j], src[i]) is True and lo <= w < hi for j, w in where.items())


def starts(c, p):
    h = c if isinstance(c, str) else c.parts[0]
    return isinstance(h, str) and h.startswith(p)


def name_of(n):
    return (n.kind if isinstance(n, KVB) else n.type if isinstance(n, Block) else n.key).upper()


def parts_of(it, c, js, src):
    """indices of the source comments whose texts, with a blank between, are the comment"""
    for a in js:
        for n in range(2, len(js) + 1):
            for seq in ([a] + [j for j in js if j > a][: n - 1],):
                for q in (seq, seq[::-1]):
                    t = cat(*[y for i, j in enumerate(q) for y in ((" ", src[j]) if i else (src[j],))])
                    if same(it, t, c) is True:
                        return q
    # any subset in source order (other comments may have been written elsewhere)
    def grow(rest, chosen):
        t = cat(*[y for i, j in enumerate(chosen) for y in ((" ", src[j]) if i else (src[j],))]) if chosen else ""
        if chosen and same(it, t, c) is True:
            return chosen
        if chosen and not prefix(t, c):
            return None
        for k, j in enumerate(rest):
            r = grow([x for x in rest if x != j], chosen + [j])
            if r:
                return r
        return None

    return grow(js, [])


def prefix(t, c):
    x, y = show(t).strip("'`"), show(c).strip("'`")
    if isinstance(t, str) and isinstance(c, str):
        return c.startswith(t)
    return y.startswith(x)


def spot(ls, i):
    """the block of the line: METADATA pair | PROJECTION | the line's keyword"""
    l = ls[i]
    t = "".join(x for x in l.code if isinstance(x, str)).strip()
    if t and t[0] in "\"'":
        return "METADATA pair"
    if not t:
        for k in range(i - 1, -1, -1):
            w = "".join(x for x in ls[k].code if isinstance(x, str)).strip()
            if w:
                return w.split()[0].upper()
        return "top"
    return t.split()[0].upper()


MODES = ("all", "symbolic", "some", "more")


def make(name, doc, construct, seed, mode, opts=None, kind="loads"):
    rng = random.Random("%s/%s/%d" % (name, mode, seed))
    nl = "\r\n" if seed % 5 == 4 else "\n"
    d = DocIn(doc, Opts(nl="\n")).__abs_subst__(no_newline)
    plan = plan_for(d.doc, d.o, rng, mode)
    return com_ob("%s [%s %d, %s]" % (name, mode, seed, opts or {}), construct, ComIn(d, plan, nl, ("  ", "", "\t")[seed % 3]), opts, kind)


def options(n, start):
    out = []
    for o in OS.spread(n * 4, start):
        if o["newlinechar"] != " ":
            o = dict(o, end_comment=False)
            out.append(o)
    return out[:n]


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    obs = []
    k = 0
    for name, doc in DD.structure():
        for mode in MODES:
            for r in range(4 if thorough else 1):
                obs.append(make(name, doc, name, k, mode, options(1, k)[0] if k % 2 else None, "open" if k % 7 == 0 else "loads"))
                k += 1
    chk.add(obs, "structure")
    obs = []
    for t, key, i, nd, m, s in DD.slot_list(abstract=True, rich=thorough):
        where = "%s.%s/%s" % (t.upper(), key.upper(), s.name)
        for r in range(3 if thorough else 1):
            mode = MODES[k % 4]
            obs.append(make(where, DD.slot_doc(t, key, s, ("middle", "first", "last")[k % 3]), where, k, mode, options(1, k)[0] if k % 5 == 0 else None))
            k += 1
    chk.add(obs, "keyword value")
    obs = []
    for name, doc in deep_docs():
        for mode in MODES:
            for r in range(60 if thorough else 14):
                obs.append(make(name, doc, name, k, mode, options(1, k)[0] if r else None, "open" if r % 3 == 2 else "loads"))
                k += 1
    chk.add(obs, "nested documents")
    return ("Documents of every structure and keyword value are rendered one keyword per line with comments (parts of them unknown) at the documented placements and, in some renderings, everywhere else; the text "
            "printed from the dictionary loaded with comments is scanned by an independent lexer: its comments must be comments of the source, none more often than there, each at its placement (found through an "
            "independent layout), and the text must load to the same content as the one printed without comments.")
