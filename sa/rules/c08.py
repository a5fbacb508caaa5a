"""C08: recorded positions and the positions of validation messages."""
import re
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from ..surface import *
from ..larkmodel import positions
from .c02 import DocIn, load, show_exc
from .c05 import styles
from .c07 import to_py, faults, contexts, base, at, pool, val, names, texts
from .c09 import versioned, entries, bounds, around, copyv
from .c13 import loaders
from .c19 import lower_json, pyval, member


def where(prefix):
    """(line, column), 1-based, of the character behind the prefix: lines end with a line feed"""
    ps = prefix.parts if isinstance(prefix, AStr) else [prefix]
    return positions(list(ps), len(ps), 0)[:2]


class Layout:
    """the text of a document and where everything starts in it"""

    def __init__(self, doc, st):
        self.doc = doc
        self.marks = []
        self.text = surface(doc, st, self.marks)
        self.open = {}
        self.vals = {}
        for (role, n, i), kind, pre, lexeme in self.marks:
            if role == "open":
                self.open[id(n)] = where(pre)
            elif role == "val":
                a, b = where(pre), where(cat(pre, lexeme))
                ps = lexeme.parts if isinstance(lexeme, AStr) else [lexeme]
                # the places inside the literal start of a value of several tokens, e.g. the name in [name]
                near = [where(cat(pre, ps[0][:j])) for j in range(1, len(ps[0]) + 1)] if len(ps) > 1 and isinstance(ps[0], str) and not (a[0] == b[0] and isinstance(b[1], int)) else []
                self.vals.setdefault(id(n), []).append((a, b, near))


def objects(doc):
    """{path: node} of every object of a document, paths as in the loaded dictionary"""
    out = {}

    def go(n, path):
        out[path] = n
        if not isinstance(n, Block):
            return
        cnt = {}
        for x in n.items:
            if isinstance(x, KVB):
                out[path + (x.kind,)] = x
            elif isinstance(x, Block):
                if x.type in SINGLETONS:
                    # a repeated singleton replaces the former one
                    for p in [p for p in out if p[: len(path) + 1] == path + (x.type,)]:
                        del out[p]
                    go(x, path + (x.type,))
                else:
                    k = plural(x.type)
                    go(x, path + (k, cnt.get(k, 0)))
                    cnt[k] = cnt.get(k, 0) + 1

    if isinstance(doc, list):
        if len(doc) == 1:
            go(doc[0], ())
        else:
            for i, n in enumerate(doc):
                go(n, (i,))
    else:
        go(doc, ())
    return out


def keyed(n):
    """{key: [nodes in source order]} of the keywords of one block"""
    out = {}
    for x in n.items if isinstance(n, Block) else ():
        if isinstance(x, Attr):
            out.setdefault(x.key.lower(), []).append(x)
        elif isinstance(x, Config):
            out.setdefault("config", []).append(x)
        elif isinstance(x, Pairs):
            out.setdefault(x.kind, []).append(x)
        elif isinstance(x, Proj):
            out.setdefault("projection", []).append(x)
    return out


def pget(d, k):
    return d.d.get(k) if isinstance(d, DictV) else None


def check_pos(it, lay, n, pos, construct, what):
    """one {"line", "column"[, "values"]} record against the place where the keyword of n starts"""
    out = []
    if not isinstance(pos, DictV):
        return [Bad("position", construct, "%s: no position is recorded (%s)" % (what, show(pos)))]
    l, c = lay.open[id(n)]
    for nm, e in (("line", l), ("column", c)):
        g = pget(pos, nm)
        s = same(it, e, g)
        if g is None or s is False or (s is None and not isinstance(g, Top)):
            out.append(Bad("position", construct, "%s: %s %s is recorded, the keyword starts at %s" % (what, nm, show(g), show(e)), g is None or s is False))
    vs = pget(pos, "values")
    if vs is None or not hasattr(vs, "items"):
        return out
    mine = lay.vals.get(id(n), [])
    last = -1
    seen = []
    for v in vs.items:
        if not isinstance(v, tuple) or len(v) != 2:
            return out + [Bad("values", construct, "%s: a value position is %s" % (what, show(v)))]
        hit = None
        for i, (a, b, near) in enumerate(mine):
            if same(it, a, v) is True or inside(a, v, b) or any(same(it, x, v) is True for x in near):
                hit = i
                if i > last:
                    break
        if hit is None:
            conc = all(isinstance(x, int) for x in v) and all(isinstance(x, int) for a, b, z in mine for x in a + b)
            out.append(Bad("values", construct, "%s: value position %s is not where a value of the keyword starts (%s)" % (what, show(v), show([a for a, b, z in mine])), conc))
            return out
        if hit <= last:
            out.append(Bad("values", construct, "%s: value positions %s are not in source order" % (what, show(vs))))
            return out
        last = hit
        seen.append(hit)
    if mine and (not seen or seen[0] != 0):
        out.append(Bad("values", construct, "%s: value positions %s do not begin with the first value (%s)" % (what, show(vs), show(mine[0][0]))))
    if isinstance(n, Attr) and isinstance(n.shape.value, ListV) and len(mine) == len(n.shape.value.items) and len(seen) != len(mine):
        out.append(Bad("values", construct, "%s: %d value positions for %d values" % (what, len(seen), len(mine))))
    return out


def inside(a, v, b):
    """within a value of several tokens"""
    return all(isinstance(x, int) for x in a + v + b) and a < v < b


def check_doc(it, lay, value, construct):
    out = []
    objs = objects(lay.doc)
    for path, n in objs.items():
        try:
            d = at(value, path)
        except Exception:
            return [Bad("structure", construct, "no object at %s" % (path,), False)]
        kind = n.type if isinstance(n, Block) else n.kind
        nm = "/".join(map(str, path)) or "root"
        pos = pget(d, "__position__")
        cons = "%s/%s" % (construct, kind.upper())
        out += check_pos(it, lay, n, pos, cons, "%s (%s)" % (nm, kind.upper()))
        if not isinstance(pos, DictV):
            continue
        for k, ns in keyed(n).items():
            c = "%s.%s" % (kind.upper(), k.upper())
            p = pget(pos, k)
            w = "%s %s" % (nm, k.upper())
            if k == "config":
                last = {}
                for x in ns:
                    last[lower_str(x.key.val)] = x
                for sub, x in last.items():
                    q = [v for kk, v in p.d.items() if same(it, kk, sub) is True] if isinstance(p, DictV) else []
                    out += check_pos(it, lay, x, q[0] if q else None, c, "%s %s" % (w, show(sub)))
            elif k in REPEATED or (k == "points" and len(ns) > 1):
                if not isinstance(p, ListV) or len(p.items) != len(ns):
                    out.append(Bad("position", c, "%s: %d occurrences, positions %s" % (w, len(ns), show(p))))
                else:
                    for x, q in zip(ns, p.items):
                        out += check_pos(it, lay, x, q, c, w)
            else:
                out += check_pos(it, lay, ns[-1], p, c, w)
    return out


def pos_ob(name, doc, construct, st, kind="loads", kw=None, concrete=False):
    inputs = DocIn(doc, Opts())
    if concrete:
        inputs = member(inputs)
    kw = dict(kw or {})

    def run(it, inp):
        lay = Layout(inp.doc, st)
        it.lay = lay
        return loaders(it, kind, lay.text, include_position=True, **kw)

    def judge(it, inp, p):
        if p.kind == "raise":
            return []
        return check_doc(it, it.lay, p.value, construct)[:4]

    return Ob("%s [%s, %s%s%s]" % (name, st.name, kind, ", concrete" if concrete else "", "".join(", %s" % k for k in kw)), inputs, run, judge, max_paths=1024)


# ------------------------------------------------------------------ messages
def allowed(S, lay, objs, py, rt, fault):
    """[(line, column)] a message about one violation may carry"""
    path, kind, name = fault
    n = objs[path]
    if kind == "object":
        return [lay.open[id(n)]]
    ks = keyed(n)
    if name in ks:
        ns = ks[name]
        if name in REPEATED:
            o = py
            for st in path:
                o = o[st]
            node = S.deref(S.files[n.type]["properties"][name])
            items = node.get("items")
            if isinstance(items, dict) and S.valid({k: v for k, v in node.items() if k != "items"}, o[name]):
                bad = [x for x, v in zip(ns, o[name]) if not S.valid(items, lower_json(v))]
                if bad:
                    ns = bad
        elif name not in ("points", "config"):
            ns = ns[-1:]
        return [lay.open[id(x)] for x in ns]
    kids = [x for p, x in objs.items() if len(p) > len(path) and p[: len(path)] == path and p[len(path)] == name and len(p) <= len(path) + 2]
    return [lay.open[id(x)] for x in kids + [n]]


def ptext(m):
    return m.d.get("message")


def judge_messages(it, S, lay, rt, py, msgs, construct, what):
    objs = objects(lay.doc)
    fs = faults(S, rt, lower_json(py))
    out = []
    exp = []
    for f in fs:
        if f[0] not in objs:
            continue
        exp.append((f, allowed(S, lay, objs, py, rt, f)))
    got = []
    for m in msgs.items:
        l, c = m.d.get("line"), m.d.get("column")
        if l is None or c is None:
            out.append(Bad("message", construct, "%s: the message %r carries line %s and column %s" % (what, ptext(m), show(l), show(c))))
        got.append((ptext(m) or "", (l, c), m))
    for t, pos, m in got:
        fits = [(f, al) for f, al in exp if isinstance(t, str) and re.search(r"(?<![A-Za-z_])%s(?![A-Za-z_])" % re.escape(f[2].upper()), t)]
        if not fits:
            continue  # the verdict itself is C07's
        if not any(same(it, a, pos) is True for f, al in fits for a in al):
            out.append(Bad("message", construct, "%s: %r is reported at line %s column %s; the violations so named are at %s" % (what, t, show(pos[0]), show(pos[1]), show(sorted({a for f, al in fits for a in al}, key=str))),
                           all(isinstance(x, int) for x in pos)))
    for f, al in exp:
        if not any(isinstance(t, str) and re.search(r"(?<![A-Za-z_])%s(?![A-Za-z_])" % re.escape(f[2].upper()), t) and any(same(it, a, pos) is not False for a in al) for t, pos, m in got):
            out.append(Bad("message", construct, "%s: no message about %s at %s: %s" % (what, f[2].upper(), show(al), [(t, show(pos)) for t, pos, m in got][:5])))
    return out


def msg_ob(name, doc, construct, sts, version=None, kw=None, kind="loads"):
    S = versioned(version)
    roots = doc if isinstance(doc, list) else [doc]

    def run(it, inp):
        res = []
        for st in sts:
            lay = Layout(doc, st)
            it.stage, it.text = "load", lay.text
            try:
                d = loaders(it, kind, lay.text, include_position=True, **(kw or {}))
            except PyRaise:
                res.append((lay, None, None))
                continue
            it.stage = "validate"
            py = to_py(d)
            res.append((lay, py, val(it, d, version)))
        return res

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad("raises", construct, "%s raised %s%s; text: %s" % (it.stage, p.value.cls.name, show_exc(p), show(it.text)[:300]))]
        out = []
        for lay, py, msgs in p.value:
            if py is None:
                continue
            what = "%s%s; text: %s" % (name, ", version %s" % version if version else "", show(lay.text)[:300])
            if isinstance(doc, list) and len(doc) > 1:
                for i, r in enumerate(roots):
                    pass
                out += judge_list(it, S, lay, py, msgs, construct, what)
            else:
                out += judge_messages(it, S, lay, py["__type__"], py, msgs, construct, what)
        return out[:4]

    return Ob("%s%s" % (name, " version %s" % version if version else ""), (), run, judge, max_paths=16)


def judge_list(it, S, lay, pys, msgs, construct, what):
    """messages about a list of roots: each root's violations at its own place"""
    objs = objects(lay.doc)
    out, exp = [], []
    for i, py in enumerate(pys):
        own = {p[1:]: n for p, n in objs.items() if p[0] == i}
        for f in faults(S, py["__type__"], lower_json(py)):
            if f[0] in own:
                exp.append((f, allowed(S, lay, own, py, py["__type__"], f)))
    got = [(ptext(m) or "", (m.d.get("line"), m.d.get("column"))) for m in msgs.items]
    for t, pos in got:
        if not any(f[2].upper() in t and any(same(it, a, pos) is True for a in al) for f, al in exp):
            out.append(Bad("message", construct, "%s: %r is reported at %s" % (what, t, show(pos))))
    for f, al in exp:
        if not any(f[2].upper() in t and any(same(it, a, pos) is True for a in al) for t, pos in got):
            out.append(Bad("message", construct, "%s: no message about %s at %s: %s" % (what, f[2].upper(), show(al), show(got))))
    return out


def lex_of(v):
    """the lexemes that write a value in a Mapfile, or None"""
    if isinstance(v, bool):
        return [raw_("TRUE" if v else "FALSE")]
    if isinstance(v, (int, float)):
        return [raw_(repr(v))]
    if isinstance(v, str):
        if re.match(r"^\(.*\)$|^\[\w+\]$|^/.*/$", v):
            return [raw_(v)]
        return None if '"' in v else [str_(v)]
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    if isinstance(v, list) and (len(v) in (2, 4) and all(num(x) for x in v) or len(v) == 3 and all(isinstance(x, int) and 0 <= x for x in v) or len(v) == 2 and any(isinstance(x, str) and re.match(r"^\[\w+\]$", x) for x in v) and all(num(x) or re.match(r"^\[\w+\]$", x) for x in v)):
        out = [lex_of(x) for x in v]
        if any(x is None for x in out):
            return None
        return [x for y in out for x in y]
    return None


def bad_attrs(S, t):
    """[(key, Attr with a refused value, valid)]"""
    out = []
    for k, node in S.slots(t):
        if S.child_ref(node) or k in ("projection", "config", "points", "pattern", "values", "include", "symbol", "style"):
            continue
        item = S.deref(S.deref(node).get("items", {})) if k in REPEATED else node
        for v in pool(S, node if k not in REPEATED else item):
            lx = lex_of(v)
            if lx is None:
                continue
            stored = [v] if k in REPEATED else v
            if not S.valid(node, lower_json(stored)):
                out.append((k, Attr(k, Shape(repr(v), lx, None, [], "raw"))))
    return out


def put(root, path, items, front):
    """a copy of a document with items added to the object at path"""
    import copy

    r = copy.deepcopy(root)
    n = r
    steps = list(path)
    while steps:
        s = steps.pop(0)
        if steps and isinstance(steps[0], int):
            i = steps.pop(0)
            n = [x for x in n.items if isinstance(x, Block) and plural(x.type) == s][i]
        else:
            n = [x for x in n.items if isinstance(x, (Block, KVB)) and (x.type if isinstance(x, Block) else x.kind) == s][0]
    keys = {x.key for x in items if isinstance(x, Attr) and x.key not in REPEATED}
    n.items = [x for x in n.items if not (isinstance(x, Attr) and x.key in keys)]
    n.items = items + n.items if front else n.items + items
    return r


MESSY = [Style("one line", sep=[" "]), Style("tabs", sep=["\t", " \t"], case="each"), Style("CRLF", sep=["\r\n", "\r\n  ", " "]), Style("messy", sep=list(BLANKS), case="each", quote="mixed", seed=3),
         Style("values over lines", sep=["\n", "\n    ", "\n\n"], seed=5), Style("long comments", sep=[" # x\n", " /* a\n b */ ", "\n# y\n\n", " "], case="each", seed=9)]


def cm_styles():
    return [Style("comments %d" % i, sep=[c for c in comments() if not isinstance(c, AStr)], case="each", quote="mixed", seed=i) for i in range(2)]


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    V = DD.vocab()
    S = V.S
    sts = styles(15, 0)
    obs = []
    n = 0
    modes = [{}, {"include_comments": True}, {"expand_includes": True}]
    allst = MESSY + cm_styles()
    for name, doc in DD.structure():
        big = name == "many layers"
        k = 1 if big else len(sts) if thorough else 1
        for j in range(k):
            obs.append(pos_ob(name, doc, name, sts[(n + j) % len(sts)] if not big else MESSY[3], kw=modes[0]))
        for j in range(1 if big else len(allst) if thorough else 2):
            obs.append(pos_ob(name, doc, name, allst[(n + j * 3) % len(allst)], kind=("loads", "open", "load")[(n // 2 + j) % 3], kw=modes[(n + j) % 3], concrete=True))
        n += 1
    for t, k, i, nd, m, s in DD.slot_list(abstract=True, rich=True):
        where_ = "%s.%s" % (t.upper(), k.upper())
        doc = DD.slot_doc(t, k, s, ("first", "middle", "last")[n % 3])
        obs.append(pos_ob("%s/%s" % (where_, s.name), doc, where_, sts[n % len(sts)], kw=modes[n % 2]))
        obs.append(pos_ob("%s/%s" % (where_, s.name), doc, where_, allst[n % len(allst)], kind=("loads", "open", "load")[n // 3 % 3], kw=modes[n % 3], concrete=True))
        n += 1
    chk.add(obs, "positions")
    # messages
    obs = []
    ctx = contexts()
    cst = MESSY + cm_styles()
    nf = 0
    for t in S.blocks():
        bads = bad_attrs(S, t)
        perkey = {}
        for k, a in bads:
            perkey.setdefault(k, []).append(a)
        places = ctx.get(t, [])
        for q, (root, path) in enumerate(places):
            label = "/".join(map(str, [root.type] + path))
            # all keywords at fault at once, several rounds
            rounds = max([len(x) for x in perkey.values()] or [0])
            for r in range(rounds if thorough else min(rounds, 3 if path else 6)):
                items = [a[(r * 5 + q) % len(a)] for k, a in perkey.items()]
                items = items[r % max(1, len(items)):] + items[: r % max(1, len(items))]
                obs.append(msg_ob("%s with every keyword at fault, %d" % (label, r), put(root, path, items, r % 2 == 0), t.upper(), [cst[(nf + j) % len(cst)] for j in range(2)], kw=modes[nf % 3], kind=("loads", "open", "load")[nf // 3 % 3]))
                nf += 1
            # object-level
            for it_ in ([Attr("zzz", shape_int("1"))], [Attr("colour", shape_str("red")), Attr("nam", shape_str("x"))]):
                obs.append(msg_ob("%s with an unknown keyword" % label, put(root, path, ([Attr("name", shape_str("x"))] if t == "symbol" else []) + it_, nf % 2 == 0), t.upper(), [cst[(nf + j) % len(cst)] for j in range(2)], kw=modes[nf % 3]))
                nf += 1
        # single faults, at the root and in one chain of parents
        for k, xs in perkey.items():
            for j, a in enumerate(xs if thorough else xs[nf % 2:: max(1, len(xs) // 3)]):
                root, path = places[(nf + j) % len(places)]
                extra = [Attr(k, shape_of(S, t, k))] if k in REPEATED and shape_of(S, t, k) else []
                obs.append(msg_ob("%s.%s = %s" % (t.upper(), k.upper(), a.shape.name), put(root, path, extra + [a] + extra if nf % 2 else [a], nf % 3 == 0), "%s.%s" % (t.upper(), k.upper()), [cst[(nf + j) % len(cst)]], kw=modes[nf % 3]))
                nf += 1
    # keywords given twice: the last one counts
    for t in S.blocks():
        for k, a in bad_attrs(S, t)[::7 if not thorough else 1]:
            if k not in REPEATED and shape_of(S, t, k):
                root, path = ctx[t][-1]
                g = Attr(k, shape_of(S, t, k))
                obs.append(msg_ob("%s.%s twice" % (t.upper(), k.upper()), put(root, path, [g, Attr("zzz", shape_int("1")), a], True), "%s.%s" % (t.upper(), k.upper()), [cst[nf % len(cst)]]))
                nf += 1
    chk.cov["fault_texts"] = len(obs)
    chk.add(obs, "messages")
    chk.add(special_obs(cst, S, thorough), "special faults")
    obs = []
    es = entries()
    for t in S.blocks():
        own = [e for e in es if e[0] == t]
        for q, (root, path) in enumerate(ctx[t]):
            vs = around(bounds([e[3] for e in own]))
            for j, v in enumerate(vs):
                if not thorough and (j + q) % 4:
                    continue
                items = []
                for k in sorted({e[1] for e in own}):
                    sh = [x[3] for x in V.shapes(t, k, abstract=False)] if not S.child_ref(S.props(t)[k]) else []
                    if sh and k not in ("symbol", "style"):
                        items.append(Attr(k, sh[(j + q) % len(sh)]))
                obs.append(msg_ob("%s" % "/".join(map(str, [root.type] + path)), member(DocIn(put(root, path, items, j % 2 == 0), Opts())).doc, t.upper(), [cst[(j + q) % len(cst)]], version=v))
    chk.add(obs, "messages with a version")
    chk.assumptions += ["Lark's line and column counting is modelled (lines end with a line feed, columns count characters), compared with the library by dev/diff_models.py"]
    return ("Every keyword form and block structure of the vocabulary is rendered with many layouts; the position records of the interpreted loads are compared with the places where the renderer put the keywords and values (symbolic where texts are unknown). "
            "Texts with one or many violations in every block type and chain of parents are validated and every message is compared with the place of its keyword or block.")


def shape_of(S, t, k):
    for i, n, m, s in DD.vocab().shapes(t, k, abstract=False):
        v = s.value
        if isinstance(v, (str, int, float)) and S.valid(S.props(t)[k], lower_json([v] if k in REPEATED else v)):
            return s
    return None


def special_obs(cst, S, thorough):
    """CONFIG, POINTS, PATTERN, PROJECTION, child lists, missing keywords, lists of roots, several objects with the same fault"""
    I = lambda x: shape_int(str(x))
    docs = []
    A = lambda k, x: Attr(k, Shape(repr(x), lex_of(x), None, [], "raw"))
    docs.append(("a layer without a type", Block("map", Block("layer", Attr("name", shape_str("a"))), Block("layer", Attr("type", shape_enum("point"))), Block("layer"))))
    docs.append(("root layer without a type", Block("layer", Attr("name", shape_str("a")))))
    docs.append(("faults at five levels", Block("map", A("angle", "zz"), Block("layer", A("type", "pointx"), Block("class", A("zzz", 1), Block("label", A("size", [5, 6]), Block("style", A("opacity", 101)), Block("style", A("opacity", 102), A("width", "w"))), A("name", 5)), A("tolerance", "x")), A("size", [10.5, 20]))))
    docs.append(("the same fault in several objects", Block("map", *[Block("layer", A("type", "point"), A("name", 7), Block("class", A("name", 8)), Block("class"), Block("class", A("name", 9))) for i in range(3)])))
    docs.append(("two labels of a legend", Block("map", Block("legend", Block("label", Attr("size", I(7))), Block("label", Attr("size", I(8)))))))
    docs.append(("processing items", Block("map", Block("layer", A("type", "raster"), A("processing", "BANDS=1"), A("processing", 5), A("processing", "X=2"), A("processing", 6)))))
    docs.append(("metadata where none is allowed", Block("map", Block("layer", A("type", "point"), Block("class", Block("style", KVB("metadata", [(str_("a"), str_("b"))])))))))
    docs.append(("validation where none is allowed", Block("map", Block("legend", KVB("validation", [(str_("a"), str_("b"))])))))
    docs.append(("config values", Block("map", Config(raw_("MS_ERRORFILE"), str_("stderr")), A("angle", "zz"), Config(raw_("zzz"), str_("1")), Config(raw_("PROJ_LIB"), raw_("x")))))
    docs.append(("points in a block without points", Block("map", Block("layer", A("type", "point"), Pairs("points", [(I(1), I(2)), (I(3), I(4))]), A("name", 3)))))
    docs.append(("pattern in a block without a pattern", Block("map", Block("layer", A("type", "point"), Block("class", Pairs("pattern", [(I(1), I(2))]), A("name", 3))))))
    docs.append(("projection in a block without one", Block("map", Block("legend", Proj([str_("init=epsg:4326")]), A("keysize", [1, 2])))))
    docs.append(("unknown children", Block("map", Block("style", A("width", 1)), Block("layer", A("type", "point"), Block("web"), Block("map")))))
    docs.append(("singleton twice", Block("map", Block("web", A("zzz", 1)), Block("web", A("template", 5)))))
    docs.append(("colours", Block("map", A("imagecolor", [0, 0, 256]), Block("layer", A("type", "point"), Block("class", Block("style", A("color", [1, 2, 300]), A("outlinecolor", "#ff00f"), A("angle", "zz"), A("offset", [1, 2, 3])))))))
    docs.append(("extent", Block("map", A("extent", [1, 2]), Block("reference", A("extent", [1, 2, 3]), A("size", ["[x]", 1])))))
    docs.append(("multi-line strings before a fault", Block("map", A("name", "a\nb\n\nc"), A("angle", "zz"), Block("layer", A("type", "point"), A("data", "select\n  1\n from x"), A("tolerance", "x"), Block("class", A("expression", "a\n# b\n\"c".replace('"', "'")), A("zzz", "\n"), A("debug", "x"))))))
    docs.append(("faults on the first token", Block("zzzz") if False else Block("style", A("width", "w"))))
    docs.append(("no fault", Block("map", A("name", "x"), Block("layer", A("type", "point")))))
    for t in ("layer", "class", "style", "label", "web", "legend", "scalebar", "querymap", "reference", "outputformat", "symbol", "feature", "cluster", "grid", "join", "leader", "composite", "scaletoken"):
        if t in S.blocks():
            docs.append(("roots %s, each at fault" % t, [Block(t, *([A("type", "ellipse")] if t == "symbol" else []), A("zzz", 1)), base(t), Block(t, A("name", [1, 2]), A("yyy", 1))]))
    docs.append(("roots of several kinds at fault", [Block("class", A("name", 5)), Block("layer", A("name", "x")), Block("style", A("width", "w")), KVB("metadata", [(str_("a"), str_("b"))]), Block("map", A("angle", "zz"), Block("layer"))]))
    obs = []
    for i, (name, doc) in enumerate(docs):
        for j in range(len(cst) if thorough else 4):
            st = cst[(i + j * 3) % len(cst)]
            obs.append(msg_ob("%s [%s]" % (name, st.name), doc, name, [st], kw=[{}, {"include_comments": True}, {"expand_includes": True}][(i + j) % 3], kind=("loads", "open", "load")[j % 3]))
    return obs
