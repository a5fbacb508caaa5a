"""C11: every input is parsed or rejected with a parse error, in time proportional to its length."""
import ast
import random
import re as _re
from ..values import *
from ..harness import *
from .. import docs as DD
from .. import larkmodel as LM
from .. import redos as R
from ..lr import LR
from ..vocab import *
from ..surface import lexemes

CURATED = ["abc", "name", "NAME", "grid", "Symbol", "style", "end", "type", "auto", "a-b", "1abc", "a:b_c", '"a b"', '""', '"NAME"', '"GRID"', "'x'", "''", "'a'i", '"a"i', "5", "-7", "0", "+3", "0.5", "-1.25", "1e3", "5.",
           "a/b.c", "../x", "/a b/", "/^a$/i", "//", "%v%", "%%", "`2001`", "`x`i", '"#ff0000"', "'#FFF'", '"#11223344"', "\\\\a\\\\", "x y", " ", "# note", "/* note */", "\n", " \t"]


def grammar():
    """the grammar the program hands to lark: (text, options)"""
    paths, _ = eval_paths(lambda it: it.call(it.import_module("mappyfile").ns["loads"], ["LAYER END"], {}), {}, 4)
    keys = list(LM._lark_cache)
    if not keys:
        raise Unsupported("no grammar is loaded by loads")
    text, opts, cbs = keys[-1]
    return text


class G:
    """automaton and sample lexemes of the grammar"""

    def __init__(self):
        self.text = grammar()
        self.lr = LR(self.text)
        self.pool = {}
        for n in sorted(set(self.lr.used) | set(self.lr.ignored)):
            t = self.lr.terms.get(n)
            self.pool[n] = self.samples(t)
        words = [n for n in self.pool if not self.pool[n]]
        for n in words:  # declared terminals: filled in by the parse loop from another one
            self.pool[n] = ["abc", "name", "Grid"]

    def samples(self, t):
        if t is None:
            return []
        if t.pattern.type == "str":
            v = t.pattern.value
            return [v.upper(), v.lower(), v.title()] if "i" in t.pattern.flags and v.isalpha() else [v]
        rx = _re.compile(t.pattern.to_regexp())
        out = [c for c in CURATED if rx.fullmatch(c)]
        try:
            d = R.DFA(t.pattern.to_regexp())
            for k in range(4):
                s = R.sample(d, k)
                if s is not None and rx.fullmatch(s) and s not in out:
                    out.append(s)
        except Exception:
            pass
        return out

    def lex(self, term, i=0):
        p = self.pool[term]
        return p[i % len(p)]

    def texts(self, terms, i=0):
        return [self.lex(t, i + j) for j, t in enumerate(terms)]


def load(it, text, **kw):
    return it.call(it.import_module("mappyfile").ns["loads"], [text], kw)


def mro_names(it, cls):
    out, work = set(), [cls]
    while work:
        c = work.pop()
        if c is None or id(c) in out:
            continue
        out.add(id(c))
        out.add(getattr(c, "name", None))
        work.extend(getattr(c, "bases", None) or ())
    return out


def outcome(it, text, **kw):
    """('ok', None) | ('lark', class, line, column) | ('bad', message) | ('?', why)"""
    try:
        v = load(it, text, **kw)
    except PyRaise as ex:
        e = ex.exc
        names = mro_names(it, e.cls)
        if "LarkError" not in names:
            return ("bad", "%s escapes%s" % (e.cls.name, "" if not e.attrs.get("args") else ": " + show(e.attrs["args"])[:80]))
        if "VisitError" in names:
            return ("visit",)
        if "UnexpectedInput" in names:
            return ("lark", e.cls.name, e.attrs.get("line"), e.attrs.get("column"))
        return ("bad", "%s carries no line and column" % e.cls.name)
    except Unsupported as ex:
        return ("?", str(ex))
    if isinstance(v, Top):
        return ("?", "unknown result")
    if isinstance(v, DictV) or isinstance(v, ListV) and v.items and all(isinstance(x, DictV) for x in v.items):
        return ("ok",)
    return ("bad", "the result is %s" % show(v)[:80])


def at(text, i):
    """line, column of an offset"""
    return text.count("\n", 0, i) + 1, i - (text.rfind("\n", 0, i))


def fits(text, line, col, starts):
    if not (isinstance(line, int) and isinstance(col, int)) or isinstance(line, bool):
        return "line %s and column %s are recorded" % (show(line), show(col))
    if starts is not None:
        return None if (line, col) in starts else "the error is placed at line %s column %s, where no token starts" % (line, col)
    ls = text.split("\n")
    if not (1 <= line <= len(ls) and 1 <= col <= len(ls[line - 1]) + 1):
        return "the error is placed at line %s column %s, outside the text" % (line, col)
    return None


class Texts:
    def __init__(self, items):
        self.items = items

    def show(self):
        return "; ".join(repr(x[1])[:80] for x in self.items[:3])


def batch(name, items, rule, files=None):
    """items: [(construct, text, keyword arguments, starts of the tokens | None)]"""

    def run(it, inp):
        return [(c, t, s, outcome(it, t, **kw)) for c, t, kw, s in items]

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad(rule, name, "the analysis left the calls with %s" % p.value.cls.name, False)]
        out, why = [], []
        for c, t, s, r in p.value:
            if r[0] == "bad":
                out.append(Bad(rule, c, "loads(%r): %s" % (t[:160], r[1])))
            elif r[0] == "lark":
                m = fits(t, r[2], r[3], s)
                if m:
                    out.append(Bad(rule, c, "loads(%r): %s: %s" % (t[:160], r[1], m)))
            elif r[0] == "?":
                why.append("%r: %s" % (t[:80], r[1]))
            if len(out) > 5:
                break
        if not out and why:
            raise Unsupported("%d texts, e.g. %s" % (len(why), why[0]))
        return out

    return Ob(name, (), run, judge, max_paths=4)


def chunked(label, items, rule, n=60):
    return [batch("%s %d" % (label, i // n), items[i:i + n], rule) for i in range(0, len(items), n)]


def joined(lex, sep=" "):
    """text and the positions at which its lexemes start"""
    out, starts, line, col = "", set(), 1, 1
    for i, x in enumerate(lex):
        out += sep if i else ""
        starts.add(at(out, len(out)))
        out += x
    return out, starts


BOOK = dict(include_comments=True, include_position=True)


def pair_items(g):
    """every (automaton state, next terminal)"""
    out = []
    lr = g.lr
    for s in sorted(lr.prefix):
        pre = tuple(lr.yields(lr.prefix[s]))
        for j, t in enumerate(lr.used):
            syms = lr.after(s, t)
            i = (s * 7 + j) % 11
            lex = g.texts(pre, i) + [g.lex(t, s + j)]
            c = "%s after %s" % (t, "state %d (%s)" % (s, " ".join(pre[-3:]) or "the start"))
            simple = lr.terms.get(t) is not None and lr.terms[t].pattern.type == "str"
            text, starts = joined(lex, " ")
            out.append((c, text, {}, None))
            if syms is not None:
                end = lr.completion(syms)
                if end is not None:
                    full = lex + g.texts(end, i + 1)
                    out.append((c, joined(full, " ")[0], {}, None))
                    out.append((c, joined(full, "\n")[0], BOOK, None))
                    out.append((c, " # c\n".join(full), BOOK, None))
                    # in the middle of the document, a token follows that cannot
                    out.append((c, joined(lex + ["END", ")"], " ")[0], {}, None))
            elif simple and j % 3 == 0:
                out.append((c, joined(lex, "\n")[0], BOOK, None))
    return out


def mutation_items(lists, rng, every=1):
    """token-level mutations of lexeme lists"""
    out = []
    odd = ["END", "MAP", "SYMBOL", "(", "]", '"', "5", "[a]", "POINTS", "METADATA", "GRID", "name", "'x'", "/", "#", "AND", "auto", "%", "style", "-"]
    for name, lex in lists:
        n = len(lex)
        def put(kind, i, l):
            if l and not any(x.lower() == "include" for x in l):
                t, st = joined(l, " " if i % 2 else "\n")
                out.append(("%s token %d of %s" % (kind, i, name), t, BOOK if i % 5 == 0 else {}, None))
        for i in range(0, n, every):
            put("deleting", i, lex[:i] + lex[i + 1:])
            put("duplicating", i, lex[:i + 1] + lex[i:])
            if i + 1 < n:
                put("swapping", i, lex[:i] + [lex[i + 1], lex[i]] + lex[i + 2:])
            put("truncating at", i, lex[:i])
            for k in range(3):
                o = odd[(i * 3 + k * 7 + len(name)) % len(odd)]
                put("replacing (%s)" % o, i, lex[:i] + [o] + lex[i + 1:])
                o = odd[(i * 5 + k * 3 + len(name)) % len(odd)]
                put("inserting (%s)" % o, i, lex[:i] + [o] + lex[i:])
        other = lists[rng.randrange(len(lists))][1]
        for _ in range(3):
            a, b = rng.randrange(n + 1), rng.randrange(len(other) + 1)
            put("splicing", _, lex[:a] + other[b:])
    return out


def char_items():
    """character-level mutations"""
    out = []
    docs = ['MAP NAME "a" EXTENT 0 0 1 1.5 END', "LAYER CLASS EXPRESSION ('[a]' = \"b\" AND [c] >= 1) END END", "STYLE PATTERN 1 2 END SYMBOL [a] COLOR '#ff0000' END",
            "CLASS EXPRESSION /^a/i TEXT ([x] + 'y') EXPRESSION {a,b} END", "METADATA 'a' \"b\" # c\n d e END", "LAYER DATA %v% /* x */ PROJECTION AUTO END FILTER (`2001` > `2000`) END"]
    odd = ['"', "'", "`", "[", "]", "{", "}", "(", ")", "#", "/", "*", "/*", "*/", "\\", "%", "\0", "\ufeff", "\xa0", "\u2028", "\x85", ";", "&", "&&", "|", "!", "~", "^", "=", "<", ">", ",", ".", "+", "-", "@", "$", "\r", "\t", "\x0b", "\x0c",
           "\ud800", "\u0130", "\xdf", "\U0001f600", "0", "e", "_", "\u0664", "\n#", "\\\""]
    for d in docs:
        for i in range(len(d) + 1):
            if i < len(d):
                out.append(("deleting a character of %r" % d[:20], d[:i] + d[i + 1:], {}, None))
            out.append(("truncating %r" % d[:20], d[:i], {}, None))
            for k in range(4):
                o = odd[(i * 4 + k + len(d)) % len(odd)]
                out.append(("character %r in %r" % (o, d[:20]), d[:i] + o + d[i:], BOOK if (i + k) % 3 == 0 else {}, None))
    for o in odd:
        for t in (o, o * 2, o + "MAP END", "MAP END" + o, "MAP " + o + " END", "MAP NAME " + o + " END", "MAP NAME \"" + o + "\" END", "MAP NAME x" + o + " END", "LAYER FILTER (" + o + ") END", "LAYER FILTER ([a] " + o + " 5) END",
                  "LAYER FILTER ('" + o + "' = 'a') END", "METADATA 'a' '" + o + "' END", "MAP # " + o + "\nEND", "MAP /* " + o + " */ END", "CLASS EXPRESSION /" + o + "/ END", "CLASS EXPRESSION {" + o + "} END", "MAP CONFIG '" + o + "' 'b' END",
                  "MAP CONFIG 'a' '" + o + "' END", "LAYER PROJECTION '" + o + "' END END", "SYMBOL POINTS 1 " + o + " END END", "STYLE COLOR " + o + " 1 1 END", "SYMBOL " + o + " END"):
            for kw in ({}, BOOK):
                out.append(("text with %r" % o, t, kw, None))
    for t in ("", " ", "\n", "\r\n", "#", "# x", "/**/", "/*", "//", "END", "MAP", "map", '"', "'", '"x"', "5", "[a]", "MAP END END", "END MAP", "MAP MAP END", "name x", "MAP\0END", "SYMBOLSET", "SYMBOLSET END", "SYMBOLSET END END", "SYMBOL",
              "SYMBOL SYMBOL", "STYLE STYLE", "GRID", "GRID GRID", "NAME GRID", "MAP NAME", "MAP NAME GRID", "MAP NAME NAME", "LAYER GRID", "LAYER GRID END", "LAYER NAME GRID GRID END END", "MAP SYMBOL", "MAP SYMBOL name", "points 1 1 end", "projection auto end",
              "auto", "config a b", "MAP CONFIG", "MAP CONFIG a", "CONFIG 'a' 'b'", "METADATA", "METADATA END", "METADATA a END", "METADATA a b c END", "VALIDATION a b END", "CONNECTIONOPTIONS a b END", "VALUES a b END", "PROJECTION 'a' END",
              "PATTERN 1 1 END", "POINTS END", "FEATURE POINTS END END", "STYLE PATTERN END END", "FEATURE POINTS 1 END END", "LAYER PROJECTION END END", "LAYER METADATA END END", "LAYER PROJECTION AUTO AUTO END END",
              "SYMBOL ANCHORPOINT", "SYMBOL x", "SYMBOL 5", "STYLE SYMBOL 5 END", "STYLE SYMBOL x END", "STYLE SYMBOL name END", "STYLE SYMBOL 'x' END", "STYLE SYMBOL SYMBOL END", "STYLE SYMBOL SYMBOL END END", "QUERYMAP STYLE NORMAL END", "QUERYMAP STYLE STYLE END",
              "MAP NAME %x END", "MAP NAME /x END", "MAP NAME [x END", "MAP NAME (x END", "MAP NAME {x END", "MAP NAME `x END", 'MAP NAME "x END', "MAP NAME 'x END", "MAP /* END", "MAP NAME 'x\\' END", 'MAP NAME "x\\" END',
              "LAYER FILTER () END", "LAYER FILTER (( END", "LAYER FILTER )) END", "LAYER FILTER ([a] = ) END", "LAYER FILTER (NOT) END", "LAYER FILTER (- - -) END", "LAYER FILTER (--5) END", "CLASS EXPRESSION {} END", "CLASS EXPRESSION {,} END", "CLASS TEXT (f()) END",
              "CLASS TEXT (f(,)) END", "CLASS TEXT (tostring([a],'%.2f')) END", "MAP SIZE 1 END", "MAP SIZE 1 2 3 4 5 6 7 END", "MAP EXTENT 1 2 3 END", "STYLE COLOR 1 2 3 4 5 END", "STYLE COLOR '#ff' END", "STYLE OFFSET [a] END", "STYLE OFFSET [a] 5 [b] END", "MAP SIZE 99999999999999999999 1e999 END"):
        for kw in ({}, BOOK, dict(include_position=True), dict(include_comments=True), dict(expand_includes=False)):
            out.append(("text %r" % t[:30], t, kw, None))
    # strings, regular expressions and comments that never end
    for o in ('"', "'", "`", "/", "[", "{", "(", "%", "/*", "\\\\", "#", '"#'):
        for body in ("x", "x y z", "x\ny\nz END", "x\\", "'", '"', "x END END", ""):
            for ctx in ("%s", "MAP NAME %s", "MAP NAME 'a' %s END", "CLASS EXPRESSION %s END", "METADATA 'a' %s END", "LAYER FILTER ([a] = %s) END", "LAYER PROJECTION %s END END", "SYMBOL %s"):
                out.append(("unterminated %s" % o, ctx % (o + body), BOOK if len(body) % 2 else {}, None))
    return out


def soup_items(g, rng, n):
    """random sequences over the vocabulary"""
    words = [w for t in g.lr.used for w in g.pool[t][:3]] + ["NAME", "TYPE", "DATA", "END", "END", "END", "POINTS", "COLOR", "SIZE", "EXPRESSION", "FILTER", "TEXT", "PROCESSING", "ANGLE", "IMAGE", "STATUS", "# c\n", "/* c */", "5", "[a]"]
    heads = ["", "MAP", "LAYER", "CLASS", "STYLE", "SYMBOL", "FEATURE POINTS", "LAYER METADATA", "LAYER PROJECTION", "CLASS EXPRESSION (", "LABEL", "CLASS TEXT", "SYMBOLSET", "MAP CONFIG", "CLASS EXPRESSION {"]
    out = []
    for i in range(n):
        k = rng.choice((2, 3, 4, 5, 8, 12))
        ws = [w for w in [rng.choice(words) for _ in range(k)] if w.lower() != "include"]
        t = (heads[i % len(heads)] + " " + rng.choice((" ", "\n", " ", "")).join(ws)).strip()
        if "include" in t.lower():
            continue
        out.append(("token soup", t, rng.choice(({}, {}, BOOK)), None))
    return out


def doc_lexemes():
    """[(name, lexemes)] of documents with known leaves"""
    out = []
    for name, doc in DD.kv_docs()[::3] + DD.special_docs()[::3] + DD.child_docs()[::5] + DD.equal_docs()[::9]:
        m = candidates([l for l in lex_values(doc)], (), 3)[0]
        l = []
        for kind, v in lexemes(doc):
            v = subst(v, m)
            if not isinstance(v, str):
                l = None
                break
            l.append('"%s"' % v if kind == "str" else v.upper() if kind == "kw" else v)
        if l and len(l) <= 60:
            out.append((name, l))
    for t, k, i, n, mm, s in DD.slot_list(abstract=False, rich=False)[::4]:
        l = []
        for kind, v in lexemes(DD.slot_doc(t, k, s, "middle")):
            m = candidates([v], (), 3)[0]
            v = subst(v, m)
            if not isinstance(v, str):
                l = None
                break
            l.append('"%s"' % v if kind == "str" else v.upper() if kind == "kw" else v)
        if l:
            out.append(("%s.%s/%s" % (t, k, s.name), l))
    return out


def lex_values(doc):
    return [v for k, v in lexemes(doc)]


# ------------------------------------------------------------------ cost
def uniq(g, term, i):
    """a lexeme of the terminal that differs for every i, when there is room for that"""
    t = g.lr.terms.get(term)
    if t is None:
        return "w%d" % i
    if t.pattern.type == "str":
        return t.pattern.value
    rx = _re.compile(t.pattern.to_regexp())
    for f in ("w%d", '"s%d"', "'s%d'", "%d", "%d.5", "/r%d/", "[b%d]", "`%d`", "%%v%d%%", "a/b%d"):
        if rx.fullmatch(f % i):
            return f % i
    return g.lex(term, i)


def repeated(g, depth=3):
    """[(label, terminals before, repeated terminals, terminals after)]: what the grammar lets repeat without bound"""
    lr = g.lr
    ctx = lr.contexts()
    out = []

    def chains(sym, d):
        if sym not in lr.nts or d == 0:
            return [(tuple(lr.yields([sym])), sym)]
        res = []
        for r in lr.by[sym]:
            rhs = lr.rules[r][1]
            hit = False
            for i, s in enumerate(rhs):
                if s in lr.nts and s != sym:
                    hit = True
                    for t, l in chains(s, d - 1):
                        res.append((tuple(lr.yields(rhs[:i])) + t + tuple(lr.yields(rhs[i + 1:])), "%d>%s" % (r, l)))
            if not hit:
                res.append((tuple(lr.yields(rhs)), "%d" % r))
        seen, o = set(), []
        for t, l in res:
            if t not in seen:
                seen.add(t)
                o.append((t, l))
        return o

    for l, rhs, a in lr.rules:
        if l not in rhs or l not in ctx:
            continue
        b, e = ctx[l]
        i = rhs.index(l)
        base = min((tuple(lr.yields(r2)) for r in lr.by[l] for r2 in [lr.rules[r][1]] if l not in r2), key=len)
        rest = rhs[:i] + rhs[i + 1:]
        nest = not l.startswith("_")
        if nest:
            units = [(tuple(lr.yields(rest)), l)]
        else:
            units = []
            for j, s in enumerate(rest):
                for t, lab in chains(s, depth):
                    units.append((tuple(lr.yields(rest[:j])) + t + tuple(lr.yields(rest[j + 1:])), lab))
                if s not in lr.nts and len(rest) == 1:
                    units.append(((s,), s))
        for u, lab in units:
            out.append(("%s of %s" % (" ".join(u)[:60], a), b, base, u, e, i, nest))
    seen, res = set(), []
    for x in out:
        k = x[1:6]
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res


def rep_text(g, r, k, comments, same):
    lab, b, base, u, e, i, nest = r
    n = [0]

    def lx(ts, vary=True):
        n[0] += 1
        return " ".join(uniq(g, t, n[0] if vary and not same else 1) for t in ts)

    mid = [lx(u) for _ in range(k)]
    parts = ([lx(base)] + mid if i == 0 else mid + [lx(base)])
    sep = "\n"
    if comments:
        sep = " # c\n"
    return sep.join([" ".join(g.lex(t) for t in b)] + parts + [" ".join(g.lex(t) for t in e)])


def growth_ob(g, r, kw, same):
    """abstract operations at 12, 24 and 48 repetitions: the second step may cost twice the first one (operator chains
    and nestings, which are bounded by 100, may cost the square of their length)"""
    lab = r[0]
    rule = "growth"
    mode = ("with bookkeeping" if kw else "plain") + (", equal items" if same else "")
    ks = (12, 24, 48)

    def run(it, inp):
        f = it.import_module("mappyfile").ns["loads"]
        out = []
        for k in (2,) + ks:
            t = rep_text(g, r, k, bool(kw.get("include_comments")), same)
            s0, c0 = it.steps, it.cost
            it.maxdepth = 0
            try:
                it.call(f, [t], kw)
                ok = True
            except PyRaise as ex:
                ok = ex.exc.cls.name
            out.append((k, len(t), it.steps - s0 + it.cost - c0, it.maxdepth, ok))
        return out[1:]

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad(rule, lab, "the analysis left with %s" % p.value.cls.name, False)]
        (k0, l0, a, d0, o0), (k1, l1, b, d1, o1), (k2, l2, c, d2, o2) = p.value
        out = []
        if (b - a) > 0 and c - b > (4.6 if r[6] else 2.12) * (b - a) + 40:
            out.append(Bad(rule, lab, "%s: %d, %d and %d repetitions cost %d, %d and %d abstract operations: more than proportional to the length" % (mode, k0, k1, k2, a, b, c)))
        if not r[6] and d2 - d1 > 12:
            out.append(Bad("recursion", lab, "%s: %d, %d and %d repetitions nest %d, %d and %d calls: long inputs exceed the recursion limit" % (mode, k0, k1, k2, d0, d1, d2)))
        return out

    return Ob("%s %s" % (lab, mode), (), run, judge, max_paths=4)


def literal_regexes(chk):
    """every regular expression written in the program, with the way it is applied"""
    root = os.path.join(REPO, PACKAGE)
    n = 0
    for d, ds, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            try:
                tree = ast.parse(open(p, encoding="utf-8").read())
            except SyntaxError:
                continue
            names = {}  # id of a compile call -> the name it is bound to
            uses = {}  # name -> methods called on it
            for c in ast.walk(tree):
                if isinstance(c, (ast.Assign, ast.AnnAssign)) and c.value is not None:
                    for x in c.targets if isinstance(c, ast.Assign) else [c.target]:
                        names[id(c.value)] = x.id if isinstance(x, ast.Name) else getattr(x, "attr", None)
                if isinstance(c, ast.Attribute):
                    b = c.value
                    uses.setdefault(b.id if isinstance(b, ast.Name) else getattr(b, "attr", None), set()).add(c.attr)
            for c in ast.walk(tree):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "re" and c.args and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str):
                    pat = c.args[0].value
                    flags = 0
                    for x in list(c.args[1:]) + [k.value for k in c.keywords if k.arg == "flags"]:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "re":
                                flags |= int(getattr(_re, y.attr, 0))
                    n += 1
                    rel = os.path.relpath(p, REPO)
                    how = {c.func.attr} if c.func.attr != "compile" else uses.get(names.get(id(c)), set()) & {"match", "fullmatch", "search", "sub", "subn", "split", "findall", "finditer"}
                    try:
                        a = R.ambiguity(pat, flags, "fullmatch" in how)
                        if a is None and how - {"match", "fullmatch"} and not pat.startswith(("^", "\\A")):  # tried at every place of the text
                            a = R.ambiguity("(?s:.*?)(?:%s)" % pat, flags)
                    except Exception as ex:
                        chk.fact("regular expression", "%s: %r" % (rel, pat[:60]), False, undecided=True, msg="not analysable: %s" % ex)
                        continue
                    chk.fact("regular expression", "%s: %r" % (rel, pat[:60]), a is None, "%s %s" % (rel, pat[:60]), "%s:%d: matching %r backtracks in %s time" % (rel, c.lineno, pat, a))
    return n


def terminal_regexes(chk, g):
    for n, t in sorted(g.lr.terms.items()):
        if t.pattern.type == "str":
            continue
        pat = t.pattern.to_regexp()
        try:
            a = R.ambiguity(pat)
        except Exception as ex:
            chk.fact("terminal", n, False, undecided=True, msg="not analysable: %s" % ex)
            continue
        chk.fact("terminal", n, a is None, n, "matching the terminal %s (%s) backtracks in %s time" % (n, pat, a))


def cycles(lr, s, u, limit=5):
    """terminal sequences that start with u behind the shortest prefix of state s and come back to s"""
    out = []
    p0 = tuple(lr.prefix[s])
    q = lr.shift(p0, u)
    if q is None:
        return out
    work = [(q, (u,))]
    seen = set()
    while work and len(out) < 3:
        p, ts = work.pop(0)
        st = lr.states_of(p)[-1]
        for c in lr.reductions(p):
            if lr.states_of(c)[-1] == s:
                out.append(ts)
                break
        if len(ts) >= limit:
            continue
        for t in lr.used:
            n = lr.shift(p, t)
            if n is not None:
                k = lr.states_of(n)
                k = (k[-1], len(n) - len(p0) if len(n) - len(p0) < 4 else 4)
                if k not in seen:
                    seen.add(k)
                    work.append((n, ts + (t,)))
    return out


def scan_cost(L, dfas, text):
    """characters read by terminals that are tried in vain before the one that matches, summed over all tokens"""
    total = 0
    lexer = L.parser.lexer
    try:
        ip = L.parse_interactive(text)
        toks = []
        gen = ip.lexer_thread.lex(ip.parser_state)
        while True:
            st = ip.parser_state.position
            try:
                t = next(gen)
            except StopIteration:
                break
            order = [x.name for x in lexer.lexers[st].terminals] if st in lexer.lexers else []
            for n in order:
                if n == t.type:
                    break
                if n in dfas:
                    total += dfas[n].scan(text, t.start_pos)
            ip.feed_token(t)
    except Exception:
        pass
    return total


def scans(chk, g):
    """terminals that can be tried in vain again and again over the rest of the text"""
    lr = g.lr
    L = lr.L
    dfas = {}
    for n, t in lr.terms.items():
        if t.pattern.type != "str":
            try:
                dfas[n] = R.DFA(t.pattern.to_regexp())
            except Exception:
                pass
    full = {n: R.DFA(t.pattern.to_regexp()) for n, t in lr.terms.items() if t.pattern.type == "str"}
    full.update(dfas)
    cand = {}
    for st, lx in L.parser.lexer.lexers.items():
        ts = [t.name for t in lx.terminals]
        for i, T in enumerate(ts):
            if T not in dfas:
                continue
            for U in ts[i + 1:]:
                if U in full:
                    cand.setdefault((T, U), None)
    memo = {}

    def cyc_of(s, U):
        if (s, U) not in memo:
            memo[(s, U)] = cycles(lr, s, U) if U not in lr.ignored else [(U,)]
        return memo[(s, U)]

    def scan_ob(T, us):
        def run(it, inp):
            for U in us:
                try:
                    u = R.failing_scan(dfas[T], full[U])
                except Exception as ex:
                    raise Unsupported(str(ex))
                if u is None:
                    continue
                tried = 0
                for s in sorted(lr.prefix):
                    if tried > 12:
                        break
                    for cyc in cyc_of(s, U):
                        tried += 1
                        pre = " ".join(g.texts(lr.yields(lr.prefix[s]), 0))
                        unit = " ".join([u] + [g.lex(t, 0) for t in cyc[1:]])
                        c = [scan_cost(L, dfas, pre + " " + (unit + " ") * k) for k in (20, 40, 80)]
                        if c[1] - c[0] > 100 and c[2] - c[1] > 3 * (c[1] - c[0]):
                            return (U, pre + " " + unit, c)
            return None

        def judge(it, inp, p):
            if p.kind == "raise" or p.value is None:
                return []
            U, text, c = p.value
            return [Bad("scan", T, "the terminal %s is tried and fails over the rest of the text before every %s: %r repeated 20, 40 and 80 times makes the lexer read %d, %d and %d characters in vain" % ((T, U, text) + tuple(c)))]

        return Ob("%s before %s" % (T, ", ".join(us)[:60]), (), run, judge, max_paths=1)

    obs = []
    for T in sorted({t for t, u in cand}):
        us = sorted(u for t, u in cand if t == T)
        obs.extend(scan_ob(T, us[k:k + 2]) for k in range(0, len(us), 2))
    chk.add(obs, "scan")


def run(chk):
    thorough = chk.tier == "thorough"
    rng = random.Random(11)
    g = G()
    lr = g.lr
    chk.cov["automaton"] = {"states": len(lr.prefix), "terminals": len(lr.used), "productions": len(lr.rules)}
    # the 19 block types as roots
    items = []
    roots = list(DD.vocab().S.blocks()) + ["metadata", "validation", "connectionoptions"]
    obs = []
    for t in roots:
        fs = DD.first_simple(t, n=1) if t in DD.vocab().S.blocks() else []
        for text in ("%s END" % t.upper(), "%s\nEND" % t, "%s END %s end" % (t.title(), t), " \n\t%s\r\nEND\r\n" % t.upper(), "# c\n%s # d\nEND # e" % t):
            for kw in ({}, BOOK, dict(expand_includes=False)):
                def run_(it, inp, text=text, kw=kw):
                    return load(it, text, **kw)

                def judge(it, inp, p, t=t, text=text):
                    if p.kind == "raise":
                        return [Bad("root", t.upper(), "loads(%r) raises %s" % (text, p.value.cls.name))]
                    v = p.value.items[0] if isinstance(p.value, ListV) and len(p.value.items) == 2 else p.value
                    if not isinstance(v, DictV) or v.d.get("__type__") != t:
                        return [Bad("root", t.upper(), "loads(%r) returns %s" % (text, show(p.value)[:80]))]
                    return []

                obs.append(Ob("root %s %r %s" % (t, text, kw), (), run_, judge))
    chk.add(obs, "root")
    pairs = pair_items(g)
    chk.cov["state/terminal pairs"] = len({c for c, t, k, s in pairs})
    chk.add(chunked("next token", pairs, "next token", 90), "next token")
    seqs = sorted(lr.nestings(5 if thorough else 4))
    items = []
    for i, s in enumerate(seqs):
        items.append(("production chain %s" % lr_label(s), " ".join(g.texts(s, i)), {}, None))
        items.append(("production chain %s" % lr_label(s), "\n".join(g.texts(s, i + 1)), BOOK, None))
    chk.add(chunked("production chain", items, "production chain"), "production chain")
    lists = doc_lexemes()
    chk.add(chunked("mutation", mutation_items(lists, rng, 1), "mutation"), "token mutation")
    ch = char_items()
    chk.add(chunked("character", ch if thorough else ch, "character"), "character")
    chk.add(chunked("soup", soup_items(g, rng, 60000 if thorough else 12000), "soup"), "token soup")
    obs = []
    for i, r in enumerate(repeated(g, 4 if thorough else 3)):
        for j, (kw, same) in enumerate((({}, False), ({}, True), (BOOK, False))):
            obs.append(growth_ob(g, r, kw, same))
    chk.add(obs, "growth")
    terminal_regexes(chk, g)
    literal_regexes(chk)
    scans(chk, g)
    chk.assumptions.append("lark's own lexer, parser and tree visitors work in time proportional to their input, apart from the regular expressions of the grammar, which are analysed here")
    return ("The LR automaton of the grammar is built; for every automaton state and every terminal that may come next (accepted or not) a shortest text "
            "reaching that pair is pushed through the parse loop and the transformer by the interpreter, and the outcome must be a dictionary or a LarkError, "
            "with line and column for syntax errors. The same holds for chains of productions, token- and character-level mutations, unterminated "
            "constructs and token soups. For every production the grammar lets repeat, abstract operations are counted at 12, 24 and 48 repetitions and must "
            "grow proportionally without deeper calls; every regular expression of grammar and program is checked for ambiguous repetition, and every terminal for "
            "scans over the rest of the text that fail token after token.")


def lr_label(s):
    return " ".join(s[:8])
