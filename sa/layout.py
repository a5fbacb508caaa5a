"""The printed layout of a document, written independently of the printer: lines with depth, lexemes and role."""
from __future__ import annotations
from .values import *
from .vocab import *
from .reader import Cursor, sh, sure, sure_diff, lower_str


class Line:
    def __init__(self, depth, lex, role, owner=None, type_=None, src=None):
        self.src = src  # the node that opens here or whose keyword this is
        self.depth = depth
        self.lex = lex
        self.role = role  # open | end | attr | pair | config | item
        self.owner = owner  # identity of the object the line belongs to
        self.type = type_


def lines_of(node, depth=0, sep=False):
    if isinstance(node, list):
        return [x for n in node for x in lines_of(n, depth, sep)]
    if isinstance(node, KVB):
        return kv_lines(node, depth)
    out = [Line(depth, [("word", node.type)], "open", id(node), node.type, node)]
    groups = {}  # key -> (is block valued, lines)
    for n in node.items:
        if isinstance(n, Attr):
            ln = [Line(depth + 1, [("word", n.key)] + list(n.shape.out), "attr", id(node), None, n)]
            if n.key in REPEATED:
                groups.setdefault(n.key, (False, []))[1].extend(ln)
            else:
                put(groups, n.key, False, ln)
        elif isinstance(n, KVB):
            put(groups, n.kind, True, kv_lines(n, depth + 1))
        elif isinstance(n, Config):
            c = groups.setdefault("config", (False, {}))[1]
            c[lower_str(n.key.val)] = Line(depth + 1, [("word", "config"), ("strci", lower_str(n.key.val)), ("str", n.val.val)], "config", id(node))
        elif isinstance(n, Proj):
            ls = [Line(depth + 1, [("word", "projection")], "open", None, "projection")]
            if n.strings is None:
                ls.append(Line(depth + 2, [("enum", "AUTO")], "item"))
            else:
                ls += [Line(depth + 2, [("str", s.val)], "item") for s in n.strings]
            ls.append(Line(depth + 1, [("word", "end")], "end", None, "projection"))
            put(groups, "projection", True, ls)
        elif isinstance(n, Pairs):
            ls = [Line(depth + 1, [("word", n.kind)], "open", None, n.kind)]
            ls += [Line(depth + 2, [("num", a.value), ("num", b.value)], "item") for a, b in n.pairs]
            ls.append(Line(depth + 1, [("word", "end")], "end", None, n.kind))
            if n.kind == "points" and "points" in groups:
                groups["points"][1].extend(ls)
            else:
                put(groups, n.kind, True, ls)
        elif isinstance(n, Block):
            ls = lines_of(n, depth + 1, sep)
            if n.type in SINGLETONS:
                put(groups, n.type, True, ls)
            else:
                groups.setdefault(plural(n.type), (True, []))[1].extend(ls)
    gs = [(k, b, list(l.values()) if isinstance(l, dict) else l) for k, (b, l) in groups.items()]
    if sep:
        gs = [g for g in gs if not g[1]] + [g for g in gs if g[1]]
    for k, b, ls in gs:
        out += ls
    out.append(Line(depth, [("word", "end")], "end", id(node), node.type))
    return out


def put(groups, k, block, lines):
    if k in groups:
        groups[k] = (block, lines)  # the later occurrence wins, at the place of the first
    else:
        groups[k] = (block, lines)


def kv_lines(node, depth):
    d = {}
    for k, v in node.pairs:
        d[lower_str(k.val)] = v.val
    out = [Line(depth, [("word", node.kind)], "open", id(node), node.kind, node)]
    out += [Line(depth + 1, [("strci", k), ("str", v)], "pair", id(node)) for k, v in d.items()]
    out.append(Line(depth, [("word", "end")], "end", id(node), node.kind))
    return out


def columns(lines, indent):
    """owner -> length of its longest simple keyword"""
    longest = {}
    for l in lines:
        if l.role == "attr":
            longest[l.owner] = max(longest.get(l.owner, 0), len(l.lex[0][1]))
    return longest


def blanks(c):
    n = 0
    while True:
        x = c.peek()
        if isinstance(x, str) and x in " \t":
            c.o += 1
            n += 1
        elif isinstance(x, Atom) and x.lo >= 1 and x.cs <= {" ", "\t"} and not x.xf:
            c.i += 1  # an unknown number of blanks
            n = None if n is None else n
            n += 1
        else:
            return n


def match(it, text, lines, o):
    """-> (True | False | None, rule, message)"""
    if isinstance(text, ObjV) and isinstance(text.data, dict) and "strval" in text.data:
        text = text.data["strval"]
    if not isinstance(text, (str, AStr)):
        return None, "text", "the text is %r" % (text,)
    indent, spacer, quote, nl = o.get("indent", 4), o.get("spacer", " "), o.get("quote", '"'), o.get("newlinechar", "\n")
    endc, align = o.get("end_comment", False), o.get("align_values", False)
    longest = columns(lines, indent)
    cols = {}
    c = Cursor(text)
    for i, l in enumerate(lines):
        what = "%s line %s" % (l.role, " ".join(str(v) if isinstance(v, str) else "..." for k, v in l.lex[:2]))
        at = c.rest()
        n = spaces_exact(c, spacer)
        want = l.depth * indent
        if n != want or isinstance(c.peek(), str) and c.peek() in " \t":
            if isinstance(c.peek(), str) and c.peek() in "\r\n":
                return False, "line break", "%s: a line break that is not newlinechar, or an empty line, before %s" % (what, at)
            return False, "indentation", "%s is indented by %d%s, expected depth %d x indent %d = %d; at %s" % (what, n, " and other blanks" if isinstance(c.peek(), str) and c.peek() in " \t" else "", l.depth, indent, want, at)
        first = True
        start = 0
        for j, (kind, v) in enumerate(l.lex):
            if j:
                g = blanks(c)
                if not g:
                    x = c.peek()
                    return (False if isinstance(x, str) or x is None else None), "line", "%s: expected a blank before the value %s, found %s" % (what, sh(v) if isinstance(v, (str, AStr)) else v, c.rest())
                if j == 1 and l.role == "attr" and align:
                    col = len(l.lex[0][1]) + g
                    lo = longest[l.owner]
                    want = (lo // indent + 1) * indent if indent else None
                    if want is not None and col != want:
                        return False, "alignment", "%s: the value starts in column %d, expected %d (longest keyword %d, indent %d)" % (what, col, want, lo, indent)
                    if want is None and (col <= lo or cols.setdefault(l.owner, col) != col):
                        return False, "alignment", "%s: the value starts in column %d, the column of this object is %s (longest keyword %d)" % (what, col, cols.get(l.owner), lo)
            at = c.rest()
            r = lexeme(it, c, kind, v, quote)
            if r is not True:
                return r[0], "line", "%s: %s, found %s" % (what, r[1], at)
        if l.role == "end" and endc:
            blanks(c)
            r = c.eat("# " + l.type, True)
            if r is not True:
                return sure(r), "end comment", "the END of %s is not followed by its type; found %s" % (l.type.upper(), c.rest())
        if i < len(lines) - 1:
            if nl.strip(" \t") and nl[:1] in "\r\n":
                blanks(c)
            at = c.rest()
            r = c.eat(nl)
            if r is not True:
                return sure(r), "line break", "after %s: expected the line break %r, found %s" % (what, nl, at)
    blanks(c)
    if c.peek() is not None:
        x = c.peek()
        return sure(x), "line", "unexpected text after the last END: %s" % c.rest()
    return True, "", ""


def spaces_exact(c, spacer):
    n = 0
    while True:
        x = c.peek()
        if isinstance(x, str) and x == spacer:
            c.o += 1
            n += 1
        else:
            return n


def lexeme(it, c, kind, v, quote):
    want = v
    if kind == "num":
        want = it.str_of(v)
    if kind == "word":
        want = v.upper()
    if isinstance(want, ObjV):
        want = want.data["strval"]
    if kind in ("str", "strci", "any"):
        q = c.peek()
        if isinstance(q, str) and q in ("'", '"'):
            if q != quote:
                return False, "expected a string in %s quotes" % quote
            c.o += 1
            r = c.eat(want, kind != "str")
            if r is True:
                r = c.eat(q)
        elif kind == "any":
            r = c.eat(want, True)
        else:
            return sure(q), "expected the quoted string %s" % sh(want)
    else:
        r = c.eat(want, kind in ("word", "enum"))
    if r is True and (c.at_break() or kind == "word" and isinstance(c.peek(), str)):
        return True
    return sure_diff(c, want, c.peek() if r is True else r), "expected %s" % sh(want)
