"""Model of the parsing library used by the program.

The grammar file of the program is compiled with lark's own front end (terminals, contextual lexer, LALR tables).
Abstract texts are tokenised by checking that every way of filling the text's character blocks produces the same token
boundaries; tokens with character blocks are then checked character class by character class (`lemma`)."""
from __future__ import annotations
import os
from .values import *
from . import strings as S
from .ops import raw

import lark as _L
import lark.lexer as _LX
from lark.exceptions import UnexpectedCharacters as _UC, UnexpectedToken as _UT
from lark.parsers.lalr_interactive_parser import InteractiveParser as _IP

VARIANTS = 4
_lark_cache = {}
_lemma_cache = {}
lemma_stats = {"lemmas": 0, "probes": 0}


class RTok(_LX.Token):
    """real token carrying its abstract counterpart"""

    av = None


def lin(const, terms):
    """const + sum of terms (non-negative unknowns)"""
    terms = tuple(terms)
    if not terms:
        return const
    return App("lin", (const,) + tuple(sorted(terms, key=repr)), "int")


def lin_parts(v):
    if isinstance(v, bool) or isinstance(v, int):
        return int(v), ()
    if isinstance(v, App) and v.op == "lin":
        return v.args[0], v.args[1:]
    return None


def positions(parts, upto, off):
    """(line, column, offset) of position (part upto, char off) of the abstract text"""
    lc, lt = 1, []
    cc, ct = 1, []
    pc, pt = 0, []
    for i, p in enumerate(parts):
        if i > upto:
            break
        if isinstance(p, str):
            seg = p if i < upto else p[:off]
            n = seg.count("\n")
            lc += n
            pc += len(seg)
            if n:
                cc, ct = len(seg) - seg.rindex("\n"), []
            else:
                cc += len(seg)
        else:
            if i == upto and off == 0:
                break
            fixed = p.hi is not None and p.lo == p.hi
            if fixed:
                pc += p.lo
            else:
                pt.append(("len", p))
            if "\n" in p.cs:
                lt.append(("nl", p))
                ct = ct + [("tail", p)]
            elif fixed:
                cc += p.lo
            else:
                ct.append(("len", p))
    return lin(lc, lt), lin(cc, ct), lin(pc, pt)


def slice_parts(parts, a, b):
    """abstract text between positions a=(i,off) and b=(j,off)"""
    out = []
    for i, p in enumerate(parts):
        lo = 0
        hi = len(p) if isinstance(p, str) else 1
        if i < a[0] or i > b[0]:
            continue
        if i == a[0]:
            lo = a[1]
        if i == b[0]:
            hi = min(hi, b[1])
        if lo >= hi:
            continue
        out.append(p[lo:hi] if isinstance(p, str) else p)
    return mkstr(out)


def absub(spans, parts, s, e):
    """abstract positions of the concrete range [s,e); None when a boundary falls inside a block"""

    def start(pos):
        for i, (lo, hi) in enumerate(spans):
            if isinstance(parts[i], str):
                if lo <= pos < hi:
                    return (i, pos - lo)
            else:
                if pos == lo:
                    return (i, 0)
                if lo < pos < hi:
                    return None
        return (len(parts), 0)

    def end(pos):
        for i, (lo, hi) in enumerate(spans):
            if lo < pos <= hi:
                if isinstance(parts[i], str):
                    return (i, pos - lo)
                return (i, 1) if pos == hi else None
        return (0, 0)

    return start(s), end(e)


class LarkData:
    def __init__(self, real, text, opts, callbacks):
        self.real = real
        self.text = text
        self.opts = opts
        self.callbacks = callbacks


class _Rec:
    """recorder used as a lexer callback on the concrete texts"""

    def __init__(self):
        self.sink = None

    def __call__(self, t):
        if self.sink is not None:
            self.sink.append(t)
        return t


def build(text, opts, cbnames):
    key = (text, tuple(sorted((k, repr(v)) for k, v in opts.items())), tuple(sorted(cbnames)))
    r = _lark_cache.get(key)
    if r is None:
        rec = _Rec()
        o = dict(opts)
        if cbnames:
            o["lexer_callbacks"] = {n: rec for n in cbnames}
        try:
            r = (_L.Lark(text, **o), rec)
        except Exception as ex:  # the grammar does not compile
            r = (ex, None)
        _lark_cache[key] = r
    return r


class Session:
    """one parse of one abstract text"""

    def __init__(self, it, L, text):
        self.it = it
        self.L = L
        self.text = text
        self.parts = sparts(text) if text != "" else ()
        self.real, self.rec = L.real
        n = 1 if isinstance(text, str) else VARIANTS
        if not isinstance(text, str):
            for p in self.parts:
                if not isinstance(p, str) and p.wit:
                    n = max(n, len(p.wit))
        self.wits = [S.witness(text, k) for k in range(n)]
        self.ip = self.real.parse_interactive("")
        self.ps = self.ip.parser_state
        self.lexer = self.real.parser.lexer
        self.states = []
        for w, _ in self.wits:
            self.states.append(_LX.LexerState(_LX.TextSlice.cast_from(w)))
        self.last = None  # last abstract token
        self.trees = {}
        self.iter_done = False

    # ---------------------------------------------------------------- lexing
    def lexers(self):
        lx = self.lexer
        if hasattr(lx, "lexers"):
            return lx.lexers[self.ps.position], lx.root_lexer
        return lx, lx

    def next(self):
        """next abstract token, None at the end; raises the program-level exceptions"""
        lexer, root = self.lexers()
        res = []
        cbs = []
        for k, st in enumerate(self.states):
            sink = []
            self.rec.sink = sink if self.rec else None
            try:
                res.append(("tok", lexer.next_token(st, self.ps)))
            except EOFError:
                res.append(("eof", None))
            except _UC as e:
                try:
                    t = root.next_token(st, self.ps) if root is not lexer else None
                    if t is None:
                        raise e
                    res.append(("ut", t))
                except (_UC, EOFError):
                    res.append(("uc", e))
            finally:
                if self.rec:
                    self.rec.sink = None
            cbs.append(sink)
        kinds = {r[0] for r in res}
        if len(kinds) > 1:
            raise Unsupported("texts of one class tokenise differently (%s) near %r" % (sorted(kinds), self.near(res)))
        kind = res[0][0]
        # callbacks on ignored (and other) tokens
        self.run_callbacks(cbs)
        if kind == "eof":
            return None
        if kind == "uc":
            pos = {self.abspos(k, r[1].pos_in_stream) for k, r in enumerate(res)}
            p = pos.pop()
            if pos or p is None:
                # the offending character lies inside a block
                line = col = Sym("errpos", "int")
            else:
                line, col, _ = positions(self.parts, *p)
            self.it.raise_lark("UnexpectedCharacters", line, col)
        toks = [r[1] for r in res]
        t = self.abstract(toks)
        if kind == "ut":
            self.it.raise_lark("UnexpectedToken", t.attrs["line"], t.attrs["column"], token=t)
        self.lemma(lexer, toks, t)
        self.last = t
        return t

    def near(self, res):
        for r in res:
            if r[0] in ("tok", "ut"):
                return str(r[1])[:20]
            if r[0] == "uc":
                return r[1].pos_in_stream
        return ""

    def abspos(self, k, pos):
        spans = self.wits[k][1]
        a, _ = absub(spans, self.parts, pos, pos)
        return a

    def abstract(self, toks):
        rng = set()
        types = set()
        for k, t in enumerate(toks):
            spans = self.wits[k][1]
            a, b = absub(spans, self.parts, t.start_pos, t.end_pos)
            if a is None or b is None:
                raise Unsupported("a token boundary falls inside a character block (%s %r)" % (t.type, str(t)[:30]))
            # skip blocks that are empty in this variant at the start
            a, b = self.norm(a, b, spans)
            rng.add((a, b))
            types.add(t.type)
        if len(types) > 1:
            raise Unsupported("texts of one class give different token types %s" % sorted(types))
        if len(rng) > 1:
            a = min(r[0] for r in rng)
            b = max(r[1] for r in rng)
            ok = True
            for k, t in enumerate(toks):
                spans = self.wits[k][1]
                if not self.only_empty(spans, a, (absub(spans, self.parts, t.start_pos, t.end_pos)[0])) or not self.only_empty(spans, absub(spans, self.parts, t.start_pos, t.end_pos)[1], b):
                    ok = False
            if not ok:
                raise Unsupported("texts of one class give different token boundaries for %s: %s" % (types.pop(), sorted(rng)))
            rng = {(a, b)}
        (a, b), ty = rng.pop(), types.pop()
        val = slice_parts(self.parts, a, b)
        line, col, pos = positions(self.parts, *a)
        el, ec, ep = positions(self.parts, b[0], b[1]) if not (b[0] < len(self.parts) and not isinstance(self.parts[b[0]], str)) else positions(self.parts, b[0] + 1, 0)
        t = self.it.mktoken(ty, val, line, col, el, ec, pos, ep)
        t.data = dict(t.data or {})
        t.data["span"] = (a, b)
        return t

    def norm(self, a, b, spans):
        i, off = b
        if i < len(self.parts) and isinstance(self.parts[i], str) and off == len(self.parts[i]):
            pass
        return a, b

    def only_empty(self, spans, a, b):
        """every part between positions a and b is empty in this variant"""
        if a == b:
            return True
        if a > b:
            a, b = b, a
        i, off = a
        # normalise the end of a part to the start of the following one
        def st(p):
            i, off = p
            if i < len(self.parts):
                L = len(self.parts[i]) if isinstance(self.parts[i], str) else 1
                if off == L:
                    return (i + 1, 0)
            return p

        a, b = st(a), st(b)
        while a < b:
            i, off = a
            if off != 0 or i >= len(spans):
                return False
            if spans[i][0] != spans[i][1]:
                return False
            a = (i + 1, 0)
        return a == b

    def lemma(self, lexer, toks, t):
        """check the token for every character of every block it contains"""
        a, b = t.data["span"]
        v = t.attrs["value"]
        if isinstance(v, str):
            atoms = []
        else:
            atoms = [i for i, p in enumerate(v.parts) if isinstance(p, Atom) and not p.wit]
        if not atoms:
            return
        # following text: the literal directly after the token (or a break)
        fol = ""
        i, off = b
        if i < len(self.parts) and isinstance(self.parts[i], str):
            fol = self.parts[i][off:off + 24]
            i += 1
            off = 0
        elif i < len(self.parts):
            i += 1
        if len(fol) < 2 and i < len(self.parts):
            fol += S.witness(mkstr(self.parts[i:i + 2]), 0)[0][:8]
        key = (id(lexer), tuple((p if isinstance(p, str) else (p.cs, p.lo, p.hi)) for p in v.parts), fol, t.attrs["type"])
        r = _lemma_cache.get(key)
        if r is None:
            r = _lemma_cache[key] = self.prove(lexer, v, atoms, fol, t.attrs["type"])
            lemma_stats["lemmas"] += 1
        if r:
            raise Unsupported("texts of one class tokenise differently: %s for characters %r" % (t.attrs["type"], "".join(sorted(r))[:40]))

    def prove(self, lexer, v, atoms, fol, ty):
        bad = set()
        for ai in atoms:
            at = v.parts[ai]
            base = S.atom_witness(at, 0) or "x"
            x = base[0]
            for c in sorted(at.cs):
                for form in (c, x + c, c + x, x + c + x, c + c, x + c + c):
                    if len(form) < at.lo:
                        form = form + x * (at.lo - len(form))
                    if at.hi is not None and len(form) > at.hi:
                        continue
                    body = "".join(p if isinstance(p, str) else (form if i == ai else S.atom_witness(p, 0)) for i, p in enumerate(v.parts))
                    lemma_stats["probes"] += 1
                    try:
                        st = _LX.LexerState(_LX.TextSlice.cast_from(body + fol))
                        tk = lexer.next_token(st, self.ps)
                        if tk.type != ty or tk.start_pos != 0 or tk.end_pos != len(body):
                            bad.add(c)
                    except Exception:
                        bad.add(c)
        return bad

    def run_callbacks(self, cbs):
        if not self.L.callbacks or not any(cbs):
            return
        n = {len(c) for c in cbs}
        if len(n) > 1:
            raise Unsupported("texts of one class contain different numbers of comments")
        for i in range(n.pop()):
            t = self.abstract([c[i] for c in cbs])
            f = None
            for k, fn in self.L.callbacks:
                if k == t.attrs["type"]:
                    f = fn
            if f is not None:
                self.it.call(f, [t], {})

    # ---------------------------------------------------------------- parsing
    def feed(self, t, end=False):
        it = self.it
        if not isinstance(t, ObjV) or "type" not in t.attrs:
            raise Unsupported("feeding %r" % (t,))
        v = t.attrs["value"]
        rt = RTok(t.attrs["type"], v if isinstance(v, str) else "", start_pos=t.attrs["start_pos"], line=t.attrs["line"], column=t.attrs["column"],
                  end_line=t.attrs["end_line"], end_column=t.attrs["end_column"], end_pos=t.attrs["end_pos"])
        rt.av = t
        try:
            return self.ps.feed_token(rt, end)
        except _UT:
            it.raise_lark("UnexpectedToken", t.attrs["line"], t.attrs["column"], token=t)

    def drain(self):
        while True:
            t = self.next()
            if t is None:
                return
            self.feed(t)

    def finish(self, last=None):
        it = self.it
        last = self.last if last is None else last
        if last is not None:
            a = last.attrs
            e = it.mktoken("$END", "", a["line"], a["column"], a["end_line"], a["end_column"], a["start_pos"], a["end_pos"])
        else:
            e = it.mktoken("$END", "", 1, 1, None, None, 0, None)
        r = self.feed(e, True)
        return self.conv(r)

    def conv(self, r):
        it = self.it
        if isinstance(r, RTok):
            return r.av
        if isinstance(r, _L.Tree):
            x = self.trees.get(id(r))
            if x is not None:
                return x[0]
            m = it.mkmeta()
            rm = getattr(r, "_meta", None)
            if rm is not None and not rm.empty:
                m.attrs["empty"] = False
                for k in ("line", "column", "start_pos", "end_line", "end_column", "end_pos"):
                    if hasattr(rm, k):
                        m.attrs[k] = getattr(rm, k)
            t = it.mktree(str(r.data), ListV([self.conv(c) for c in r.children]), m)
            self.trees[id(r)] = (t, r)
            return t
        if r is None or isinstance(r, (str, int)):
            return r
        if isinstance(r, list):
            return ListV([self.conv(c) for c in r])
        raise Unsupported("parse value %r" % (r,))


# ==================================================================== installation
def install(it, M, mod):
    B = it.builtins
    N = lambda name, fn: NativeV(name, fn)
    exc = {}

    def mkexc(name, bases, methods=None):
        c = BuiltinClass(name, [exc.get(b) or B[b] for b in bases], methods or {}, pyexc=Exception)
        exc[name] = c
        return c

    mkexc("LarkError", ["Exception"])
    mkexc("ConfigurationError", ["LarkError", "ValueError"])
    mkexc("GrammarError", ["LarkError"])
    mkexc("ParseError", ["LarkError"])
    mkexc("LexError", ["LarkError"])
    mkexc("UnexpectedInput", ["LarkError"], {"get_context": lambda it, a, k: it.top("get_context"), "match_examples": lambda it, a, k: None})
    mkexc("UnexpectedEOF", ["ParseError", "UnexpectedInput"])
    mkexc("UnexpectedCharacters", ["LexError", "UnexpectedInput"])
    mkexc("UnexpectedToken", ["ParseError", "UnexpectedInput"])
    mkexc("VisitError", ["LarkError"])
    mkexc("MissingVariableError", ["LarkError"])

    def raise_lark(name, line=None, column=None, **kw):
        e = ObjV(exc[name], {"args": (), "line": line, "column": column, "pos_in_stream": None, "interactive_parser": None, "state": None, "expected": None, "accepts": None})
        e.attrs.update(kw)
        e.data = {"where": it.where(), "stack": it.callstack(), "lark": True}
        raise PyRaise(e, it.where())

    it.raise_lark = raise_lark
    it.lark_exc = exc

    # ------------------------------------------------------------ tokens
    FIELDS = ("start_pos", "line", "column", "end_line", "end_column", "end_pos")

    def tok_new(cls, ty, val, pos, strval=None):
        o = ObjV(cls, {"type": ty, "value": val})
        o.attrs.update(pos)
        o.data = {}
        if cls is LT:
            o.data["strval"] = strval
        return o

    def ctor(cls):
        def f(it, c, a, k):
            names = ("type", "value", "start_pos", "line", "column", "end_line", "end_column", "end_pos")
            if "type_" in k:
                k = dict(k)
                k["type"] = k.pop("type_")
            d = dict(zip(names, a))
            d.update(k)
            if "type" not in d or "value" not in d:
                it.raise_("TypeError", "Token() missing arguments")
            v = d["value"]
            return tok_new(cls, d["type"], v, {f: d.get(f) for f in FIELDS}, it.str_of(v) if cls is LT else None)

        return f

    def borrow(it, a, k):
        cls = a[0] if isinstance(a[0], (BuiltinClass, ClassV)) else LT
        args = list(a[1:]) if isinstance(a[0], (BuiltinClass, ClassV)) else list(a)
        names = ("type_", "value", "borrow_t")
        d = dict(zip(names, args))
        d.update(k)
        b = d["borrow_t"]
        if not (isinstance(b, ObjV) and "start_pos" in b.attrs):
            return it.top("Token.new_borrow_pos(%r)" % (b,))
        return tok_new(cls if isinstance(cls, BuiltinClass) else LT, d["type_"], d["value"], {f: b.attrs[f] for f in FIELDS}, it.str_of(d["value"]) if cls is LT else None)

    def lt_eq(it, a, k):
        x, y = a[0], a[1]
        if isinstance(y, ObjV) and y.cls is LT and it.eq(x.attrs["type"], y.attrs["type"]) is False:
            return False
        y = raw(y)
        if isinstance(y, ObjV):
            return NotImplemented
        return it.eq(x.data["strval"], y)

    def ct_eq(it, a, k):
        x, y = a[0], a[1]
        if isinstance(y, ObjV) and y.cls is CT:
            if it.eq(x.attrs["type"], y.attrs["type"]) is False:
                return False
            return it.eq(x.attrs["value"], y.attrs["value"])
        return it.eq(x.attrs["value"], raw(y))

    def t_update(it, a, k):
        o = a[0]
        d = dict(zip(("type", "value"), a[1:]))
        d.update(k)
        ty = d.get("type")
        v = d.get("value")
        return tok_new(o.cls, o.attrs["type"] if ty is None else ty, o.attrs["value"] if v is None else v, {f: o.attrs[f] for f in FIELDS}, it.str_of(o.attrs["value"] if v is None else v) if o.cls is LT else None)

    LT = BuiltinClass("Token", [B["str"]], {"__eq__": lt_eq, "update": t_update, "__str__": lambda it, a, k: a[0].data["strval"], "__repr__": lambda it, a, k: "Token(...)"})
    LT.construct = ctor(LT)
    LT.methods["new_borrow_pos"] = ClassMethodV(N("Token.new_borrow_pos", borrow))

    def ct_set(it, a, k):
        o, name, v = a
        if name not in o.attrs:
            it.raise_("AttributeError", "'lark_cython.lark_cython.Token' object has no attribute '%s'" % name)
        if name in ("type", "value") and v is not None and not isinstance(v, (str, AStr, Top)):
            if not (isinstance(v, (Sym, App)) and v.ty in ("str", "any")):
                it.raise_("TypeError", "Expected unicode, got %s" % it.typename(v))
        if name in FIELDS and isinstance(v, (str, AStr, type(None))):
            it.raise_("TypeError", "an integer is required")
        o.attrs[name] = v

    CT = BuiltinClass("Token", [B["object"]], {"__eq__": ct_eq, "update": t_update, "__str__": lambda it, a, k: a[0].attrs["value"], "__repr__": lambda it, a, k: "Token(...)", "__setattr__": ct_set})
    CT.construct = ctor(CT)
    CT.methods["new_borrow_pos"] = ClassMethodV(N("Token.new_borrow_pos", borrow))
    it.LT, it.CT = LT, CT

    def mktoken(ty, val, line, col, el, ec, pos, ep):
        cls = CT if it.cython and it.lark_plugins else LT
        return tok_new(cls, ty, val, {"start_pos": pos, "line": line, "column": col, "end_line": el, "end_column": ec, "end_pos": ep}, val if cls is LT else None)

    it.mktoken = mktoken
    it.lark_plugins = False

    # ------------------------------------------------------------ trees
    META = BuiltinClass("Meta", [B["object"]])
    it.mkmeta = lambda: ObjV(META, {"empty": True})

    def tree_init(it, a, k):
        d = dict(zip(("self", "data", "children", "meta"), a))
        d.update(k)
        o = d["self"]
        o.attrs["data"] = d["data"]
        o.attrs["children"] = d["children"]
        o.attrs["_meta"] = d.get("meta")
        return None

    def get_meta(it, a, k):
        o = a[0]
        if o.attrs.get("_meta") is None:
            o.attrs["_meta"] = it.mkmeta()
        return o.attrs["_meta"]

    def is_tree(x):
        return isinstance(x, ObjV) and TREE in it.mro(x.cls)

    def children(t):
        return it.to_list(t.attrs["children"])

    def subtrees(t):
        q = [t]
        seen = {}
        i = 0
        while i < len(q):
            s = q[i]
            i += 1
            if id(s) in seen:
                continue
            seen[id(s)] = s
            q += [c for c in reversed(children(s)) if is_tree(c) and id(c) not in seen]
        return list(reversed(list(seen.values())))

    def pre(t):
        out = [t]
        for c in children(t):
            if is_tree(c):
                out += pre(c)
        return out

    def find_pred(it, a, k):
        return GenV(iter([s for s in subtrees(a[0]) if it.truth(it.call(a[1], [s], {}))]))

    def scan(it, a, k):
        def go(t):
            for c in children(t):
                if is_tree(c):
                    yield from go(c)
                elif it.truth(it.call(a[1], [c], {})):
                    yield c

        return GenV(go(a[0]))

    TREE = BuiltinClass("Tree", [B["object"]], {
        "__init__": tree_init,
        "iter_subtrees": lambda it, a, k: GenV(iter(subtrees(a[0]))),
        "iter_subtrees_topdown": lambda it, a, k: GenV(iter(pre(a[0]))),
        "find_data": lambda it, a, k: GenV(iter([s for s in subtrees(a[0]) if it.eq(s.attrs["data"], a[1])])),
        "find_pred": find_pred,
        "scan_values": scan,
        "set": lambda it, a, k: a[0].attrs.update(data=a[1], children=a[2]),
        "copy": lambda it, a, k: mktree(a[0].attrs["data"], a[0].attrs["children"]),
        "pretty": lambda it, a, k: it.top("Tree.pretty"),
        "__eq__": lambda it, a, k: a[0] is a[1] or (is_tree(a[1]) and it.eq(a[0].attrs["data"], a[1].attrs["data"]) is not False and it.eq(a[0].attrs["children"], a[1].attrs["children"])),
    })
    TREE.methods["meta"] = PropertyV(N("meta", get_meta), N("meta=", lambda it, a, k: a[0].attrs.__setitem__("_meta", a[1])))

    def mktree(data, ch, meta=None):
        return ObjV(TREE, {"data": data, "children": ch, "_meta": meta})

    it.mktree = mktree
    it.TREE = TREE
    DISC = ObjV(BuiltinClass("_DiscardType", [B["object"]]), {})

    # ------------------------------------------------------------ transformers
    def visit_kind(f):
        for _ in range(4):
            at = getattr(f, "attrs", None)
            if at and "visit_wrapper" in at:
                return at["visit_wrapper"]
            if isinstance(f, BoundV):
                f = f.func
                continue
            break
        return None

    def callback(it, self, data, ch, meta, tree=None):
        f = it.getattr(self, data if isinstance(data, str) else it.str_of(data), None)
        if f is None:
            d = it.class_lookup(self.cls, "__default__")
            if isinstance(d, FuncV):
                return guarded(it, self, d, [data, ch, meta], data, tree)
            return mktree(data, ch, meta)
        kind = visit_kind(f)
        if kind == "tree":
            args = [mktree(data, ch, meta)]
        elif kind == "inline":
            args = it.to_list(ch)
        elif kind == "meta":
            args = [meta, ch]
        elif kind == "meta_inline":
            args = [meta] + it.to_list(ch)
        else:
            args = [ch]
        return guarded(it, None, f, args, data, tree)

    def guarded(it, self, f, args, data, tree):
        if self is not None:
            f = BoundV(self, f)
        try:
            return it.call(f, args, {})
        except PyRaise as ex:
            cls = ex.exc.cls
            if it.mro(cls) and exc["GrammarError"] in it.mro(cls):
                raise
            if B["Exception"] not in it.mro(cls):
                raise
            e = ObjV(exc["VisitError"], {"args": (), "rule": data, "obj": tree, "orig_exc": ex.exc})
            e.data = {"where": ex.loc, "stack": ex.exc.data.get("stack") if isinstance(ex.exc.data, dict) else None, "lark": True}
            raise PyRaise(e, ex.loc)

    def kids(it, self, ch):
        out = []
        for c in it.to_list(ch):
            if is_tree(c):
                r = it.call(it.getattr(self, "_transform_tree"), [c], {})
            elif self.attrs.get("__visit_tokens__", True) and isinstance(c, ObjV) and c.cls is LT and isinstance(c.attrs.get("type"), str):
                f = it.getattr(self, c.attrs["type"], None)
                r = c if f is None else guarded(it, None, f, [c], c.attrs["type"], c)
            else:
                r = c
            if r is not DISC:
                out.append(r)
        return out

    def tr_tree(it, a, k):
        self, tree = a
        ch = ListV(kids(it, self, tree.attrs["children"]))
        return callback(it, self, tree.attrs["data"], ch, get_meta(it, [tree], {}), tree)

    def tr_transform(it, a, k):
        self, tree = a
        if not is_tree(tree):
            if isinstance(tree, (Top,)):
                return tree
        r = kids(it, self, [tree])
        return r[0] if r else None

    def ip_tree(it, a, k):
        self, tree = a
        return callback(it, self, tree.attrs["data"], tree.attrs["children"], get_meta(it, [tree], {}), tree)

    def ip_transform(it, a, k):
        self, tree = a
        if not is_tree(tree):
            it.raise_("AttributeError", "'%s' object has no attribute 'iter_subtrees'" % it.typename(tree))
        for s in subtrees(tree):
            s.attrs["children"] = ListV(kids(it, self, s.attrs["children"]))
        return it.call(it.getattr(self, "_transform_tree"), [tree], {})

    def tr_init(it, a, k):
        v = a[1] if len(a) > 1 else k.get("visit_tokens", True)
        a[0].attrs["__visit_tokens__"] = v

    def tr_default(it, a, k):
        return mktree(a[1], a[2], a[3])

    TR = BuiltinClass("Transformer", [B["object"]], {"__init__": tr_init, "transform": tr_transform, "_transform_tree": tr_tree, "__default__": tr_default, "__default_token__": lambda it, a, k: a[1],
                                                     "_transform_children": lambda it, a, k: GenV(iter(kids(it, a[0], a[1]))), "_call_userfunc": lambda it, a, k: callback(it, a[0], a[1].attrs["data"], a[2] if len(a) > 2 and a[2] is not None else a[1].attrs["children"], get_meta(it, [a[1]], {}), a[1])})
    TRI = BuiltinClass("Transformer_InPlace", [TR], {"transform": ip_transform, "_transform_tree": ip_tree})

    def trn_transform(it, a, k):
        return tr_transform(it, a, k)

    TRN = BuiltinClass("Transformer_NonRecursive", [TR], {"transform": trn_transform})

    def v_visit(it, a, k, topdown=False):
        for s in (pre(a[1]) if topdown else subtrees(a[1])):
            f = it.getattr(a[0], s.attrs["data"], None)
            if f is not None:
                it.call(f, [s], {})
        return a[1]

    VIS = BuiltinClass("Visitor", [B["object"]], {"visit": v_visit, "visit_topdown": lambda it, a, k: v_visit(it, a, k, True), "__default__": lambda it, a, k: a[1]})

    def vr_visit(it, a, k):
        self, t = a[0], a[1]
        for c in children(t):
            if is_tree(c):
                it.call(it.getattr(self, "visit"), [c], {})
        f = it.getattr(self, t.attrs["data"], None)
        if f is not None:
            it.call(f, [t], {})
        return t

    VISR = BuiltinClass("Visitor_Recursive", [VIS], {"visit": vr_visit})

    def in_visit(it, a, k):
        self, t = a[0], a[1]
        f = it.getattr(self, t.attrs["data"], None)
        if f is None:
            return in_children(it, [self, t], {})
        kind = visit_kind(f)
        if kind == "inline":
            return it.call(f, children(t), {})
        return it.call(f, [t], {})

    def in_children(it, a, k):
        return ListV([in_visit(it, [a[0], c], {}) if is_tree(c) else c for c in children(a[1])])

    INT = BuiltinClass("Interpreter", [B["object"]], {"visit": in_visit, "visit_children": in_children, "__default__": in_children})

    def v_args(it, a, k):
        inline, meta, tree = (list(a) + [False] * 3)[:3]
        inline, meta, tree = k.get("inline", inline), k.get("meta", meta), k.get("tree", tree)
        kind = "tree" if tree else ("meta_inline" if meta and inline else "inline" if inline else "meta" if meta else None)
        if k.get("wrapper") is not None:
            return NativeV("v_args", lambda it, b, kk: it.top("v_args wrapper"))

        def deco(it, b, kk):
            f = b[0]
            if isinstance(f, ClassV):
                for n, v in list(f.ns.items()):
                    if not n.startswith("_") and isinstance(v, FuncV) and visit_kind(v) is None:
                        v.attrs["visit_wrapper"] = kind
                return f
            if isinstance(f, (FuncV, NativeV)):
                if isinstance(f, NativeV) and not hasattr(f, "attrs"):
                    f.attrs = {}
                g = f
                if visit_kind(f) is not None or f.attrs.get("__wrapped_by_v_args__"):
                    pass
                g.attrs["visit_wrapper"] = kind
                return g
            return it.top("v_args on %r" % (f,))

        return NativeV("v_args(...)", deco)

    # ------------------------------------------------------------ Lark
    def new_lark(it, text, opts):
        real_opts = {}
        cbs = []
        plugins = False
        for n, v in opts.items():
            if n == "lexer_callbacks":
                if v is None:
                    continue
                for kk, vv in it.mapping_items(v):
                    cbs.append((kk, vv))
            elif n == "_plugins":
                plugins = v is not None and it.truth(v)
            elif n in ("parser", "start", "lexer", "propagate_positions", "maybe_placeholders", "keep_all_tokens", "ambiguity", "g_regex_flags", "strict", "regex", "priority"):
                real_opts[n] = list(v.items) if isinstance(v, ListV) else v
            elif n in ("cache", "debug", "import_paths", "source_path", "rel_to"):
                pass
            elif n == "transformer" and v is None:
                pass
            else:
                it.add_taint("Lark option %s" % n)
        if real_opts.get("parser", "earley") != "lalr":
            raise Unsupported("parser engine %r" % (real_opts.get("parser"),))
        real = build(text, real_opts, [k for k, _ in cbs])
        if isinstance(real[0], Exception):
            raise_lark("GrammarError")
        it.lark_plugins = plugins
        if plugins:
            it.models["plugins"] = True
        o = ObjV(LARK, {"options": it.top("Lark.options") if False else None})
        o.data = LarkData(real, text, real_opts, cbs)
        return o

    def lark_open(it, a, k):
        args = list(a)
        if args and isinstance(args[0], BuiltinClass):
            args = args[1:]
        fn = args[0] if args else k.get("grammar_filename")
        rel = args[1] if len(args) > 1 else k.get("rel_to")
        opts = {n: v for n, v in k.items() if n not in ("grammar_filename", "rel_to")}
        if not isinstance(fn, str) or not (rel is None or isinstance(rel, str)):
            return it.top("Lark.open(%r)" % (fn,))
        p = os.path.join(os.path.dirname(rel), fn) if rel else fn
        if not os.path.isfile(p) or not os.path.realpath(p).startswith(os.path.realpath(it.project.root)):
            it.raise_("FileNotFoundError", 2, "No such file or directory", p)
        return new_lark(it, open(p, encoding="utf8").read(), opts)

    def lark_new(it, c, a, k):
        if isinstance(a[0], str):
            return new_lark(it, a[0], dict(k))
        g = a[0]
        return it.top("Lark(%r)" % (g,))

    def session(it, a, k):
        L = a[0].data
        text = a[1] if len(a) > 1 else k.get("text", "")
        if text is None:
            text = ""
        text = raw(text)
        if isinstance(text, Top):
            raise Unsupported("parsing an unknown text")
        if not isinstance(text, (str, AStr)):
            it.raise_("TypeError", "parse() argument must be str, not %s" % it.typename(text))
        it.models.setdefault("parsed_texts", []).append(text)
        return Session(it, L, text)

    def parse(it, a, k):
        s = session(it, a, k)
        s.drain()
        return s.finish()

    def parse_interactive(it, a, k):
        s = session(it, a, k)
        o = ObjV(IPC, {"result": None})
        o.data = s
        o.attrs["parser_state"] = ObjV(PSC, {})
        o.attrs["parser_state"].data = s
        o.attrs["lexer_thread"] = ObjV(LTC, {})
        o.attrs["lexer_thread"].data = s
        return o

    def lark_lex(it, a, k):
        s = session(it, a, k)

        def g():
            while True:
                t = s.next()
                if t is None:
                    return
                yield t

        return it.top("Lark.lex")

    def iter_parse(it, a, k):
        s = a[0].data

        def g():
            while True:
                t = s.next()
                if t is None:
                    return
                yield t
                a[0].attrs["result"] = s.conv(s.feed(t))

        return GenV(g())

    def resume(it, a, k):
        s = a[0].data
        s.drain()
        return s.finish()

    def feed_token(it, a, k):
        s = a[0].data
        return s.conv(s.feed(a[1], a[1].attrs.get("type") == "$END"))

    def feed_eof(it, a, k):
        s = a[0].data
        return s.finish(a[1] if len(a) > 1 else k.get("last_token"))

    def exhaust(it, a, k):
        out = []
        s = a[0].data
        while True:
            t = s.next()
            if t is None:
                return ListV(out)
            s.feed(t)
            out.append(t)

    def accepts(it, a, k):
        s = a[0].data
        return SetV(sorted(s.ip.accepts()))

    def choices(it, a, k):
        s = a[0].data
        d = DictV(it.builtins["dict"])
        for n in s.ip.choices():
            it.dict_set_raw(d, n, Sym("action", "any"))
        return d

    def vstack(it, a, k):
        s = a[0].data
        return ListV([s.conv(x) for x in s.ps.value_stack])

    def thread_lex(it, a, k):
        s = a[0].data

        def g():
            while True:
                t = s.next()
                if t is None:
                    return
                yield t

        return GenV(g())

    LARK = BuiltinClass("Lark", [B["object"]], {"parse": parse, "parse_interactive": parse_interactive, "lex": lark_lex}, construct=lark_new)
    LARK.methods["open"] = ClassMethodV(N("Lark.open", lark_open))
    IPC = BuiltinClass("InteractiveParser", [B["object"]], {"iter_parse": iter_parse, "resume_parse": resume, "feed_token": feed_token, "feed_eof": feed_eof, "exhaust_lexer": exhaust, "accepts": accepts, "choices": choices})
    PSC = BuiltinClass("ParserState", [B["object"]], {"feed_token": lambda it, a, k: a[0].data.conv(a[0].data.feed(a[1], bool(a[2]) if len(a) > 2 else False))})
    PSC.methods["value_stack"] = PropertyV(N("value_stack", vstack))
    PSC.methods["state_stack"] = PropertyV(N("state_stack", lambda it, a, k: ListV([repr(x) for x in a[0].data.ps.state_stack])))
    PSC.methods["position"] = PropertyV(N("position", lambda it, a, k: repr(a[0].data.ps.position)))
    LTC = BuiltinClass("LexerThread", [B["object"]], {"lex": thread_lex})
    LTC.methods["state"] = PropertyV(N("state", lambda it, a, k: ObjV(BuiltinClass("LexerState", [B["object"]]), {"last_token": a[0].data.last, "text": a[0].data.text})))

    E = {n: c for n, c in exc.items()}
    vis = mod("lark.visitors", Transformer=TR, Transformer_InPlace=TRI, Transformer_NonRecursive=TRN, Transformer_InPlaceRecursive=TRI, Visitor=VIS, Visitor_Recursive=VISR, Interpreter=INT,
              v_args=N("v_args", v_args), Discard=DISC, VisitError=exc["VisitError"], Tree=TREE)
    lx = mod("lark.lexer", Token=LT)
    ex = mod("lark.exceptions", **E)
    tr = mod("lark.tree", Tree=TREE, Meta=META)
    top = dict(E)
    for n in ("ConfigurationError",):
        top[n] = exc[n]
    mod("lark", Lark=LARK, Tree=TREE, Token=LT, Transformer=TR, Transformer_NonRecursive=TRN, Visitor=VIS, Discard=DISC, v_args=vis.ns["v_args"], visitors=vis, lexer=lx, exceptions=ex, tree=tr,
        ParseTree=TREE, **top)
    mod("lark.lark", Lark=LARK)
    if it.cython:
        mod("lark_cython", Token=CT, plugins=DictV(B["dict"], {"plugins": True}), lark_cython=None)
