"""C12: calls are pure, history-independent and safe to run concurrently.

Four rules.  `arguments`: the value of every argument is the same before and after a call, on every path, exceptional ones
included.  `history`: a worker object (or the module-level API) taken through a sequence of documents gives, at every step,
the value a fresh object of a freshly imported package gives; results are edited deeply in between (an alias to an internal
object shows) or kept and compared again at the end.  `threads`: an effect analysis finds the writes of a call to what other
calls can reach (module globals, class attributes, defaults, closures, caches, process state, shared arguments); two calls
with no such write commute; with one, every schedule that runs one call at a switching point of the other is evaluated."""
import ast
import time
from ..values import *
from ..harness import *
from ..interp import Interp
from ..models import Blocked
from .. import docs as DD
from .. import optsets
from ..vocab import *
from .c02 import DocIn


# ------------------------------------------------------------------ values as nested tuples
def freeze(v, memo=None):
    """the content of a value, independent of the objects that hold it"""
    memo = {} if memo is None else memo
    if isinstance(v, (DictV, ListV, SetV, ObjV)):
        if id(v) in memo:
            return ("again", memo[id(v)])
        memo[id(v)] = len(memo)
        f = lambda x: freeze(x, memo)
        if isinstance(v, DictV):
            return ("dict", v.cls.name, tuple((f(k), f(x)) for k, x in v.d.items()), tuple((k, f(x)) for k, x in v.attrs.items()))
        if isinstance(v, ListV):
            return ("list", v.kind, tuple(f(x) for x in v.items), ())
        if isinstance(v, SetV):
            return ("set", "", tuple(f(x) for x in sorted(v.items, key=repr)), ())
        if isinstance(v.data, dict) and "strval" in v.data:
            return ("token", v.cls.name, (f(v.data["strval"]),), tuple((k, f(x)) for k, x in v.attrs.items() if k in ("type", "line", "column")))
        skip = ("interactive_parser", "considered_rules", "considered_tokens", "state", "_terminals_by_name", "token_history", "__traceback__", "__context__", "__cause__")
        return ("obj", v.cls.name, (), tuple((k, f(x)) for k, x in v.attrs.items() if k not in skip))
    if isinstance(v, Leaf):
        return v
    if isinstance(v, tuple):
        return ("tuple", "", tuple(freeze(x, memo) for x in v), ())
    if isinstance(v, (ClassV, BuiltinClass, NativeV, ModuleV, ExternV)):
        return ("name", v.name, (), ())
    if isinstance(v, FuncV):
        return ("name", v.qualname, (), ())
    if isinstance(v, BoundV):
        return ("bound", "", (freeze(v.func, memo),), ())
    if isinstance(v, GenV):
        return ("generator", "", (), ())
    return Leaf(v)


class Leaf:
    def __init__(self, v):
        self.v = v


def txt(a):
    if isinstance(a, Leaf):
        return show(a.v)[:160]
    if a[0] == "dict":
        return "{%s}" % ", ".join("%s: .." % txt(k) for k, x in a[2])[:160]
    return "%s %s of %d" % (a[0], a[1], len(a[2]))


def differ(it, a, b, path=""):
    """None or (message, sure) for two frozen values; a is the expected one"""
    if isinstance(a, Leaf) or isinstance(b, Leaf):
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            if a.v is b.v:
                return None
            r = same(it, a.v, b.v)
            if r is True:
                return None
            return "%s is %s, not %s" % (path or "it", txt(b), txt(a)), r is False
        return "%s is %s, not %s" % (path or "it", txt(b), txt(a)), True
    if a[0] == "again" or b[0] == "again":
        return None if a == b else ("%s: objects are shared differently" % (path or "it"), False)
    if a[:2] != b[:2]:
        return "%s is a %s %s, not a %s %s" % (path or "it", b[0], b[1], a[0], a[1]), True
    if len(a[2]) != len(b[2]):
        return "%s has %d entries instead of %d: %s, not %s" % (path or "it", len(b[2]), len(a[2]), txt(b), txt(a)), True
    unsure = None
    if a[0] == "dict":
        for (k, x), (l, y) in zip(a[2], b[2]):
            r = differ(it, k, l, path + " key") or differ(it, x, y, "%s[%s]" % (path, txt(k)))
            if r and r[1]:
                return r
            unsure = unsure or r
    else:
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            r = differ(it, x, y, "%s[%d]" % (path, i))
            if r and r[1]:
                return r
            unsure = unsure or r
    da, db = dict(a[3]), dict(b[3])
    if set(da) != set(db):
        return "%s has the attributes %s, not %s" % (path or "it", sorted(map(str, db)), sorted(map(str, da))), True
    for k in da:
        r = differ(it, da[k], db[k], "%s.%s" % (path, k))
        if r and r[1]:
            return r
        unsure = unsure or r
    return unsure


def scramble(it, v, seen=None):
    """a caller edits everything it was given"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    if isinstance(v, DictV):
        seen.add(id(v))
        for x in list(v.d.values()):
            scramble(it, x, seen)
        ks = list(v.d)
        if ks:
            it.mutated(v, "edited by the caller")
            v.d.pop(ks[0])
            for k in ks[1:]:
                v.d[k] = "EDITED"
        v.d["edited"] = "EDITED"
    elif isinstance(v, (ListV, SetV)):
        seen.add(id(v))
        for x in list(v.items):
            scramble(it, x, seen)
        if not isinstance(v, SetV) or not v.frozen:
            it.mutated(v, "edited by the caller")
            v.items[:] = ["EDITED"]
    elif isinstance(v, tuple):
        for x in v:
            scramble(it, x, seen)
    elif isinstance(v, ObjV) and v.cls.name == "Tree":
        seen.add(id(v))
        for x in list(v.attrs.values()):
            scramble(it, x, seen)


# ------------------------------------------------------------------ instances of the package
class World:
    """a freshly imported package"""

    def __init__(self, it, tagged=False):
        self.mods = {}
        self.it = it
        with self:
            n = len(it.effects)
            for name in sorted(it.project.trees):
                if not name.endswith("__main__"):
                    it.import_module(name)
            if tagged:
                it.tag_globals()
            del it.effects[n:]

    def __enter__(self):
        it = self.it
        names = it.project.trees
        self.saved = {n: it.modules.pop(n) for n in list(it.modules) if n in names}
        it.modules.update(self.mods)
        self.env = dict(it.env)
        return self

    def __exit__(self, *a):
        it = self.it
        names = it.project.trees
        self.mods = {n: it.modules.pop(n) for n in list(it.modules) if n in names}
        it.modules.update(self.saved)
        it.env.clear()
        it.env.update(self.env)


SHARED = ("global:", "class:", "default:", "closure:", "cache:", "func:", "argument")


def shared(kind, owner):
    return kind in ("process-state", "nonlocal-write") or (kind in ("mutate", "global-write", "cache-hit") and str(owner).startswith(SHARED))


def outcome(it, f):
    """the frozen outcome of a call"""
    st = (list(it.frames), list(it.cur_exc), it.node)
    try:
        return freeze(("value", f()))
    except PyRaise as ex:
        it.frames[:] = st[0]
        it.cur_exc[:] = st[1]
        it.node = st[2]
        e = ex.exc
        keep = {k: x for k, x in e.attrs.items() if k in ("args", "line", "column", "token", "filename", "orig_exc", "char")}
        return freeze(("raise", e.cls.name, DictV(it.builtins["dict"], keep)))


def pristine(it, f):
    """the outcome in a package nobody has used: the sequential result of a fresh process"""
    w = getattr(it, "pristine_world", None)
    if w is None:
        w = it.pristine_world = World(it, tagged=True)
    n = len(it.effects)
    with w:
        r = outcome(it, f)
    if any(shared(k, o) for k, o, d, x in it.effects[n:]):
        it.pristine_world = None  # it has been used now
    del it.effects[n:]
    return r


def api(it, name, *a, **k):
    return it.call(it.import_module("mappyfile").ns[name], list(a), k)


def cls(it, mod, name):
    return it.import_module("mappyfile." + mod).ns[name]


def meth(it, o, name, *a, **k):
    return it.call(it.getattr(o, name), list(a), k)


def isval(fr):
    return isinstance(fr, tuple) and fr[0] == "tuple" and fr[2][0].v == "value"


# ------------------------------------------------------------------ documents that leave traces
FILES = {
    "/w/a.map": "# in a\nLAYER\n  NAME 'inc' # of inc\n  TYPE POINT\nEND\n",
    "/w/b.map": "NAME 'b'\nINCLUDE 'a.map'\n",
    "/w/self.map": "NAME 'b'\nINCLUDE 'self.map'\n",
    "/w/good.map": "# first\nMAP # m\n  NAME 'good' # n\n  INCLUDE 'a.map'\n  EXTENT 0 0 1 1\nEND # e\n",
    "/w/bad.map": "MAP\n  # before\n  NAME 'bad' # x\n  INCLUDE 'b.map'\n  LAYER )\nEND\n",
}
ENV = {"cwd": "/w"}

# texts: good ones with comments, positions, includes; ones that fail in every stage
TRACES = [
    ("commented", "# head\nMAP # m\n  NAME 'c' # n\n  # before layer\n  LAYER # l\n    TYPE POINT # t\n    METADATA # md\n      # before pair\n      'a' 'b' # pair\n    END\n    PROJECTION # p\n      'init=epsg:4326' # x\n    END\n  END\nEND # tail\n"),
    ("c comments", "/* one\n two */ MAP /* three */ NAME 'c'\n /* four */ STATUS ON END"),
    ("syntax error after comments", "# c1\nMAP # c2\n NAME 'a' # c3\n LAYER )\nEND"),
    ("unterminated string", "# u\nMAP\n NAME 'abc\nEND"),
    ("missing END", "# me\nMAP\n  # inner\n  LAYER\n    NAME 'x' # nx\n  END\n"),
    ("missing file", "MAP # mf\n  INCLUDE 'nowhere.map'\nEND"),
    ("endless includes", "MAP # ei\n  INCLUDE 'self.map'\nEND"),
    ("includes", "MAP # i\n  INCLUDE 'b.map'\n  STATUS ON\nEND"),
    ("empty", ""),
    ("only a comment", "# nothing\n"),
    ("fails in the transformer", "# ft\nSTYLE\n  WIDTH 2 # w\n  PATTERN END\nEND"),
    ("duplicates", "MAP NAME 'a' NAME 'b' LAYER END LAYER NAME 'z' END CONFIG 'A' 'b' CONFIG 'a' 'c' END"),
    ("symbolset", "SYMBOLSET # s\n SYMBOL NAME 'x' # y\n TYPE ELLIPSE POINTS 1 1 END END END"),
    ("two roots", "CLASS # c\n NAME 'x' END\nLAYER # l\n NAME 'y' END"),
    ("expressions", "CLASS EXPRESSION ([a] = 1 AND '[b]' ~* 'c') TEXT ('[x]' + '[y]') END"),
]

# dictionaries as a caller may build them, good and bad: they are printed, validated and searched
DICTS = r'''
def get(i):
    return [
        {"__type__": "map", "name": "a", "layers": [{"__type__": "layer", "name": "l1", "type": "point", "classes": [{"__type__": "class", "name": "c"}]}, {"__type__": "layer", "type": "line"}]},
        {"__type__": "layer", "name": "l", "metadata": {"__type__": "metadata", "wms_title": "x", "Wms_SRS": "y"}, "status": "on", "type": "point"},
        {"__type__": "MAP", "Name": "a", "LAYERS": [{"__type__": "Layer", "NAME": "l1"}]},
        {"name": "no type", "layers": []},
        {"__type__": "map", "layers": [{"name": "no type"}]},
        {"__type__": "map", "layers": [{"__type__": "layer", "name": "one"}, None]},
        {"__type__": "map", "layers": {"__type__": "layer"}},
        {"__type__": "map", "name": None, "extent": [0, 0, 1, 1], "__comments__": {"name": "# c", "extent": ["# d", "# e"]}},
        {"__type__": "layer", "points": [[1, 2], 3]},
        {"__type__": "style", "pattern": [[5, 5]], "color": [255, 0, 0], "width": "x", "size": 1000},
        {"__type__": "map", "config": {"__type__": "config", "MS_ERRORFILE": "x"}, "projection": ["init=epsg:4326", "b"], "include": ["a.map", "b.map"], "status": "WRONG", "size": [1, 2, 3]},
        {"__type__": "nonsense", "name": "x"},
        {"__type__": "class", "styles": [{"__type__": "style", "color": "#ff"}, {"__type__": "style", "width": 2, "opacity": 400}], "labels": [{"__type__": "label", "size": "bitmap"}], "__position__": {"line": 1, "column": 1}},
        {"__type__": "map", "layers": [{"__type__": "layer", "classes": [{"__type__": "class", "styles": [{"__type__": "style", "bogus": True}]}], "validation": {"__type__": "validation", "a": "b"}}, {"__type__": "layer", "processing": ["A=1", "B=2"], "composites": [{"__type__": "composite", "opacity": 5}]}]},
        [{"__type__": "layer", "name": "x"}, {"__type__": "class", "name": "y"}],
        {},
    ][i]
'''
NDICTS = 16


def dict_value(it, i):
    return it.call(it.load_source("dicts", DICTS).ns["get"], [i], {})


class Texts:
    """the documents of a scenario: structure documents (with unknown leaves) and fixed texts"""

    def __init__(self, items):
        self.items = items

    def text(self, i):
        x = self.items[i]
        return x if isinstance(x, str) else render(x.doc, x.o)

    def __abs_fields__(self):
        return [y for x in self.items if not isinstance(x, str) for y in x.__abs_fields__()]

    def __abs_subst__(self, f):
        return Texts([x if isinstance(x, str) else x.__abs_subst__(f) for x in self.items])

    def show(self):
        return " | ".join(show(self.text(i)) for i in range(len(self.items)))


# ------------------------------------------------------------------ rule: arguments
FINDS = [
    ("find", ("name", "l1")), ("find", ("NAME", "zz")), ("find", ("group", "x")), ("find", ("layers", "x")), ("find", ("__type__", "layer")), ("find", ("metadata", None)),
    ("findall", ("name", "l1")), ("findall", ("Group", "x")), ("findall", ("classes", "x")), ("findall", ("status", ["on", "off"])), ("findall", ("validation", "v")),
    ("findunique", ("name",)), ("findunique", ("GROUP",)), ("findunique", ("styles",)), ("findunique", ("metadata",)),
]
FINDKEYS = [("name",), ("layers", 0), ("layers", 0, "classes"), ("LAYERS", 0, "classes", 0, "styles"), ("group",), ("metadata", "x"), ("layers", 7), ("extent", 0), ("layers", 0, "metadata", "wms_title"), ("missing", "deeper")]


def touched(it, f, args, construct, what):
    """run f; the arguments keep their value and are not written to"""
    before = [freeze(a) for a in args]
    n = len(it.effects)

    def tag(o):
        if isinstance(o, (DictV, ListV, SetV)) and o.owner is None:
            o.owner = "argument"
            for x in list(o.d.values()) if isinstance(o, DictV) else o.items:
                tag(x)

    for a in args:
        tag(a)
    r = outcome(it, f)
    bad = []
    for a, b in zip(args, before):
        d = differ(it, b, freeze(a))
        if d:
            w = [e for e in it.effects[n:] if e[1] == "argument"]
            bad.append(Bad("arguments", construct, "%s changes its argument: afterwards %s%s" % (what, d[0], " (written at %s)" % w[0][3] if w else ""), d[1]))
    return r, bad


def arg_ob(name, inputs, make, calls, construct, **kw):
    """make(it, inputs) -> value; calls: (what, function of (it, value), extra arguments)"""

    def run(it, inp):
        out = []
        for what, f, group in calls:
            try:
                v = make(it, inp)
            except PyRaise:
                return out
            extra = ()
            call = lambda: f(it, v)
            r, bad = touched(it, call, [v], construct, what)
            out += bad
            if bad:
                break
        return out

    def judge(it, inp, p):
        if p.kind == "raise":
            return []
        return p.value

    kw.setdefault("files", FILES)
    kw.setdefault("env", ENV)
    return Ob(name, inputs, run, judge, **kw)


def lists_in(v, acc=None):
    """the lists of dictionaries a document holds"""
    acc = [] if acc is None else acc
    if isinstance(v, DictV):
        for x in v.d.values():
            lists_in(x, acc)
    elif isinstance(v, ListV):
        if any(isinstance(x, DictV) for x in v.items):
            acc.append(v)
        for x in v.items:
            lists_in(x, acc)
    return acc


def do_finds(it, v):
    """every query helper on every list of the document; the results are frozen together"""
    out = []
    ls = lists_in(v)[:4]
    if isinstance(v, DictV):
        ls.append(ListV([v]))
    for l in ls:
        for fn, args in FINDS:
            out.append(outcome(it, lambda: api(it, fn, l, args[0], *[ListV(list(x)) if isinstance(x, list) else x for x in args[1:]])))
    for keys in FINDKEYS:
        out.append(outcome(it, lambda: api(it, "findkey", v, *keys)))
    return tuple(fz for fz in out)


def dumps_calls(opts):
    out = []
    for o in opts:
        o = {k: x for k, x in o.items() if k != "separate_complex_types"}
        out.append(("dumps(%s)" % ", ".join("%s=%r" % kv for kv in o.items()), lambda it, v, o=o: api(it, "dumps", v, **o), None))
    return out


def to_file(it, v, how):
    if how == "save":
        return api(it, "save", v, "/w/out.map")
    f = it.call(it.builtins["open"], ["/w/out2.map", "w"], {"encoding": "utf-8"})
    return api(it, "dump", v, f)


# ------------------------------------------------------------------ rule: history
class Worker:
    """a kind of reusable object: make(it) -> object, variants: use(it, object, text) -> result"""

    def __init__(self, name, make, uses):
        self.name = name
        self.make = make
        self.uses = uses


def parser_worker(inc, com):
    def mk(it):
        return it.call(cls(it, "parser", "Parser"), [], {"expand_includes": inc, "include_comments": com})

    def by_file(it, w, text):
        it.files["/w/text.map"] = text
        return meth(it, w, "parse_file", "/w/text.map")

    def by_fp(it, w, text):
        it.files["/w/text.map"] = text
        return meth(it, w, "load", it.call(it.builtins["open"], ["/w/text.map", "r"], {"encoding": "utf-8"}))

    return Worker("Parser(expand_includes=%s, include_comments=%s)" % (inc, com), mk, [("parse", lambda it, w, t: meth(it, w, "parse", t)), ("parse_file", by_file), ("load", by_fp), ("parse with a name", lambda it, w, t: meth(it, w, "parse", t, "/w/some.map"))])


def transformer_worker(pos, com):
    def mk(it):
        return it.call(cls(it, "transformer", "MapfileToDict"), [], {"include_position": pos, "include_comments": com})

    def use(it, w, t):
        p = it.call(cls(it, "parser", "Parser"), [], {"expand_includes": True, "include_comments": com})
        return meth(it, w, "transform", meth(it, p, "parse", t))

    return Worker("MapfileToDict(include_position=%s, include_comments=%s)" % (pos, com), mk, [("transform", use)])


def printer_worker(o):
    def mk(it):
        return it.call(cls(it, "pprint", "PrettyPrinter"), [], dict(o))

    def use(com):
        def f(it, w, t):
            return meth(it, w, "pprint", given(it, t, com))

        return f

    return Worker("PrettyPrinter(%s)" % ", ".join("%s=%r" % kv for kv in o.items()), mk, [("pprint", use(False)), ("pprint of comments", use(True))])


def given(it, t, com=False):
    """the dictionary a step is about: a text that is loaded, or one of the prepared dictionaries"""
    if isinstance(t, str) and t.startswith("@"):
        return dict_value(it, int(t[1:]))
    return api(it, "loads", t, include_comments=com)


def validator_worker():
    def mk(it):
        return it.call(cls(it, "validator", "Validator"), [], {})

    def use(version, add):
        def f(it, w, t):
            d = given(it, t)
            k = {"add_comments": add}
            if version is not None:
                k["version"] = version
            r = meth(it, w, "validate", d, **k)
            return (r, d) if add else r

        return f

    return Worker("Validator()", mk, [("validate", use(None, False)), ("validate for 7.6", use(7.6, False)), ("validate for 6.0", use(6.0, False)), ("validate with comments", use(None, True)), ("validate for 8.4 with comments", use(8.4, True))])


def api_worker():
    def opened(it, w, t):
        it.files["/w/text.map"] = t
        return api(it, "open", "/w/text.map", include_comments=True)

    def loaded(it, w, t):
        it.files["/w/text.map"] = t
        return api(it, "load", it.call(it.builtins["open"], ["/w/text.map", "r"], {"encoding": "utf-8"}), include_position=True)

    def loads(**k):
        return lambda it, w, t: api(it, "loads", t, **k)

    def dumps(com, **k):
        return lambda it, w, t: api(it, "dumps", given(it, t, com), **k)

    def saved(it, w, t):
        api(it, "save", given(it, t), "/w/out.map")
        return (it.writes[-1] if it.writes else None,)

    def val(v):
        return lambda it, w, t: api(it, "validate", given(it, t), **({"version": v} if v else {}))

    return Worker("the module-level functions", lambda it: None, [
        ("loads", loads()), ("loads with comments", loads(include_comments=True)), ("loads with positions", loads(include_position=True)), ("loads without includes", loads(expand_includes=False)),
        ("dumps", dumps(False)), ("dumps with comments", dumps(True)), ("dumps with options", dumps(True, indent=2, spacer="\t", quote="'", newlinechar="\r\n", end_comment=True, align_values=True)),
        ("dumps with separate_complex_types", dumps(True, separate_complex_types=True)), ("open", opened), ("load", loaded), ("save", saved),
        ("validate", val(None)), ("validate for 7.6", val(7.6)), ("validate for 8.0", val(8.0)), ("find", lambda it, w, t: do_finds(it, given(it, t))),
    ])


def history_ob(name, worker, texts, seq, construct, edit, **kw):
    """seq: list of (use index, text index)"""

    def run(it, inp):
        refs = []
        for u, i in seq:
            t = inp.text(i)
            refs.append(pristine(it, lambda: worker.uses[u][1](it, worker.make(it), t)))
        w = worker.make(it)
        kept, bad = [], []
        done = []
        for (u, i), ref in zip(seq, refs):
            t = inp.text(i)
            box = []

            def go():
                box.append(worker.uses[u][1](it, w, t))
                return box[0]

            n = len(it.frames)
            out = outcome(it, go)
            d = differ(it, ref, out)
            done.append(worker.uses[u][0])
            if d:
                bad.append(Bad("history", construct, "%s after %s on one %s: the result differs from the one of a fresh object: %s; text: %s" % (worker.uses[u][0], ", ".join("%s(%s)" % (worker.uses[a][0], show(inp.text(b))[:120]) for a, b in seq[: len(done) - 1]) or "nothing", worker.name, d[0], show(t)[:300]), d[1]))
                break
            if box:
                if edit:
                    scramble(it, box[0])
                else:
                    kept.append((box[0], out, worker.uses[u][0]))
        for v, out, what in kept:
            d = differ(it, out, freeze(("value", v)))
            if d:
                bad.append(Bad("history", construct, "the result of %s is changed by later calls on one %s (%s): %s" % (what, worker.name, ", ".join(done), d[0]), d[1]))
                break
        return bad

    def judge(it, inp, p):
        if p.kind == "raise":
            raise Unsupported("the scenario fails: %s" % p.value.cls.name)
        return p.value

    kw.setdefault("files", FILES)
    kw.setdefault("env", ENV)
    return Ob(name, Texts(texts), run, judge, **kw)


# ------------------------------------------------------------------ rule: threads
class Watch:
    """switching points of a call; at the chosen one the other call runs from start to end"""

    def __init__(self, hot, target, other, args):
        self.hot = hot  # (file, line) of statements that count as switching points; None: only count effects
        self.target = target
        self.other = other
        self.n = 0
        self.dirty = False
        self.args = args
        self.shared = []
        self.where = None

    def effect(self, it, kind, owner, detail):
        if it.thread == 0 and shared(kind, owner):
            self.shared.append((kind, owner, detail, it.where()))
            self.dirty = True
            self.point(it)
        elif shared(kind, owner):
            self.dirty = True

    def stmt(self, it, st):
        if self.dirty:
            self.dirty = False
            w = it.watch
            it.watch = None
            it.tag_globals()
            it.watch = w
        if it.thread == 0 and self.hot is not None and it.frames and (it.frames[-1][1], st.lineno) in self.hot:
            self.point(it)

    def point(self, it):
        self.n += 1
        if self.n == self.target:
            self.where = it.where()
            frames, exc, node = list(it.frames), list(it.cur_exc), it.node
            it.thread = 1
            it.frames[:] = []
            it.cur_exc[:] = []
            try:
                self.result = outcome(it, self.other)
            finally:
                it.thread = 0
                it.frames[:] = frames
                it.cur_exc[:] = exc
                it.node = node


_funcs = None


def statements(project):
    """function -> (file, lines of its statements, names it uses), of every function of the package"""
    global _funcs
    if _funcs is None:
        _funcs = []
        for name, (tree, rel, ispkg, path) in project.trees.items():
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    body = n.body if isinstance(n.body, list) else []
                    lines = {s.lineno for b in body for s in ast.walk(b) if isinstance(s, ast.stmt)}
                    names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)}
                    first = body[0].lineno if body else None
                    _funcs.append((rel, lines, names, first, getattr(n, "name", "<lambda>")))
    return _funcs


def hot_lines(it, effects):
    names, at = set(), set()
    for kind, owner, detail, where in effects:
        f, q, l = where.rsplit(":", 2)
        at.add((f, int(l) if l.isdigit() else 0))
        s = str(owner)
        head, _, rest = s.partition(":")
        for w in rest.replace("[", ".").replace("]", ".").replace("{", ".").replace("}", ".").split("."):
            if w.isidentifier() and w not in ("mappyfile", "utils", "parser", "pprint", "transformer", "validator", "dictutils", "ordereddict", "quoter", "tokens"):
                names.add(w)
        if detail.startswith(".") and detail[1:].isidentifier():
            names.add(detail[1:])
    hot = set()
    for rel, lines, used, first, fname in statements(it.project):
        if used & names or fname in names or any(rel == f and l in lines for f, l in at):
            hot |= {(rel, l) for l in lines}
        elif first is not None:
            hot.add((rel, first))
    return hot


class Call:
    """one call of a thread: f(it, shared arguments) -> value"""

    def __init__(self, name, f):
        self.name = name
        self.f = f


def deep(it, v):
    return it.deepcopy(v, {})


def tag_args(v, seen=None):
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, (DictV, ListV, SetV)):
        v.owner = "argument"
        for x in list(v.d.values()) if isinstance(v, DictV) else v.items:
            tag_args(x, seen)
    elif isinstance(v, tuple):
        for x in v:
            tag_args(x, seen)


LIMIT = 100  # switching points tried per ordered pair


def threads_ob(name, inputs, prepare, a, b, construct, budget=80, **kw):
    """prepare(it, inputs) -> shared arguments; a, b: Call"""

    def run(it, inp):
        t0 = time.time()
        base = prepare(it, inp)

        def fresh_args():
            v = deep(it, base)
            tag_args(v)
            return v

        refs = {}
        for c in (a, b):
            v = fresh_args()
            refs[c] = pristine(it, lambda: c.f(it, v))

        def sequence(first, second, hot, target, warm):
            """first with second at its switching point number target -> (watch, outcomes)"""
            w = World(it, tagged=True)
            v = fresh_args()
            with w:
                if warm:
                    for c in (first, second):
                        u = fresh_args()
                        outcome(it, lambda: c.f(it, u))
                    it.tag_globals()
                watch = Watch(hot, target, lambda: second.f(it, v), v)
                it.watch = watch
                try:
                    r = outcome(it, lambda: first.f(it, v))
                finally:
                    it.watch = None
                    it.thread = 0
            return watch, r

        n0 = len(it.effects)
        # effects of each call alone, and of the second of two
        seen = []
        for first, second, warm in ((a, b, False), (b, a, False), (a, b, True), (b, a, True)):
            watch, r = sequence(first, second, None, None, warm)
            seen += watch.shared
            if not seen and warm is False and first is b:
                break  # nothing is written: the state cannot be warm
        it.shared_seen = len(seen)
        bad = []
        if seen:
            hot = hot_lines(it, seen)
            for first, second in ((a, b), (b, a)):
                for warm in (False, True):
                    watch, r = sequence(first, second, hot, None, warm)
                    total = watch.n
                    step = max(1, total // LIMIT)
                    for k in range(1, total + 1, step):
                        if time.time() - t0 > budget:
                            break
                        try:
                            watch, r = sequence(first, second, hot, k, warm)
                        except Blocked:
                            it.watch = None
                            continue
                        if not hasattr(watch, "result"):
                            continue
                        for c, out in ((first, r), (second, watch.result)):
                            d = differ(it, refs[c], out)
                            if d:
                                bad.append(Bad("threads", construct, "%s and %s at the same time: when %s runs at %s of %s, %s gives another result than alone: %s (shared: %s)" % (a.name, b.name, second.name, watch.where, first.name, c.name, d[0], "; ".join(sorted({"%s %s at %s" % (o, dt, wh) for kd, o, dt, wh in seen})[:3])), d[1]))
                                del it.effects[n0:]
                                return bad
                    if a is b:
                        break
                if a is b:
                    break
        del it.effects[n0:]
        return bad

    def judge(it, inp, p):
        if p.kind == "raise":
            raise Unsupported("the scenario fails: %s" % p.value.cls.name)
        return p.value

    kw.setdefault("files", FILES)
    kw.setdefault("env", ENV)
    return Ob(name, inputs, run, judge, witnesses=4, max_paths=64, **kw)


MAPTEXT = "MAP # m\n  NAME 'one' # n\n  LAYER\n    NAME 'l1'\n    TYPE POINT\n    METADATA 'wms_title' 'x' END\n    CLASS NAME 'c' STYLE COLOR 1 2 3 WIDTH 2 END END\n  END\n  LAYER NAME 'l2' GROUP 'g' TYPE LINE # t\n  END\nEND"
OTHER = "LAYER\n  # other\n  NAME \"two\" # o\n  STATUS ON\n  PROJECTION 'init=epsg:4326' END\n  VALIDATION 'a' '^b$' END\n  FEATURE POINTS 1 1 2 2 END END\nEND"


def thread_calls():
    """(name, call): inputs of their own, and on the dictionary all threads share"""
    L = lambda text, **k: lambda it, v: api(it, "loads", text, **k)
    D = lambda i, **k: lambda it, v: api(it, "dumps", v[i], **k)
    V = lambda i, **k: lambda it, v: api(it, "validate", v[i], **k)
    out = [
        Call("loads", L(MAPTEXT)), Call("loads of another text", L(OTHER)), Call("loads with comments", L(MAPTEXT, include_comments=True)), Call("loads of another text with comments", L(OTHER, include_comments=True)),
        Call("loads with positions", L(OTHER, include_position=True)), Call("failing loads", L("# x\nMAP # y\n  NAME 'a' # z\n  LAYER )", include_comments=True)), Call("failing include", L(dict(TRACES)["missing file"], include_comments=True)),
        Call("open", lambda it, v: api(it, "open", "/w/good.map", include_comments=True)),
        Call("dumps", D(0)), Call("dumps with options", D(0, indent=2, spacer="\t", quote="'", newlinechar="\r\n", end_comment=True, align_values=True)), Call("dumps of another", D(1)), Call("dumps of comments", D(2)), Call("failing dumps", D(3)),
        Call("save", lambda it, v: (api(it, "save", v[0], "/w/one.map"), it.writes[-1] if it.writes else None)),
        Call("validate", V(4)), Call("validate of another", V(5)), Call("validate for 7.6", V(4, version=7.6)), Call("validate for 6.0", V(5, version=6.0)),
        Call("find helpers", lambda it, v: do_finds(it, v[0])), Call("create", lambda it, v: api(it, "create", "style")),
    ]
    return out


def prepare(it, inp):
    return (
        api(it, "loads", MAPTEXT), api(it, "loads", OTHER), api(it, "loads", MAPTEXT, include_comments=True), dict_value(it, 4),
        api(it, "loads", "CLASS NAME 'c' STYLE WIDTH 2 OPACITY 400 BOGUS 1 END END"), api(it, "loads", "STYLE COLOR 1 2 3 SIZE 'x' END"),
    )


def concrete_text(doc, o):
    d = DocIn(doc, o)
    return render(subst(d, candidates(d)[0]).doc, o)


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    o = Opts()
    docs = DD.structure()
    # ---- arguments
    obs = []
    sets = optsets.spread(24)
    for i, (name, doc) in enumerate(docs):
        n = 3 if thorough else 1
        picks = [sets[(i * n + j) % len(sets)] for j in range(n)]
        com = i % 2 == 1
        mk = lambda it, inp, com=com, pos=(i % 3 == 1): api(it, "loads", inp.text(0), include_comments=com, include_position=pos)
        calls = dumps_calls(picks) + [("a query helper", do_finds, None)]
        if thorough or i % 5 == 0:
            calls += [("save", lambda it, v: to_file(it, v, "save"), None), ("dump", lambda it, v: to_file(it, v, "dump"), None)]
        obs.append(arg_ob("arguments: " + name, Texts([DocIn(doc, o)]), mk, calls, "dumps/find " + name))
    for i in range(NDICTS):
        calls = dumps_calls(sets if thorough else sets[i % 2::2]) + [("save", lambda it, v: to_file(it, v, "save"), None), ("dump", lambda it, v: to_file(it, v, "dump"), None), ("a query helper", do_finds, None)]
        obs.append(arg_ob("arguments: dictionary %d" % i, Texts([]), lambda it, inp, i=i: dict_value(it, i), calls, "dictionary %d" % i))
        for v in (None, 6.0, 7.6) if not thorough else (None, 4.6, 5.0, 6.0, 6.4, 7.0, 7.6, 8.0, 8.2, 8.4):
            obs.append(arg_ob("arguments: validate dictionary %d for %s" % (i, v), Texts([]), lambda it, inp, i=i: dict_value(it, i), [("validate(version=%s)" % v, lambda it, d, v=v: api(it, "validate", d, **({"version": v} if v else {})), None)], "validate dictionary %d" % i))
    for j, (tn, t) in enumerate(TRACES):
        calls = dumps_calls(sets if thorough else sets[j % 3::3]) + [("a query helper", do_finds, None), ("validate", lambda it, d: api(it, "validate", d), None), ("validate(version=8.0)", lambda it, d: api(it, "validate", d, version=8.0), None)]
        obs.append(arg_ob("arguments: " + tn, Texts([t]), lambda it, inp: api(it, "loads", inp.text(0), include_comments=True, include_position=True), calls, "document " + tn))
    nv = 1 if thorough else 6
    for i, (name, doc) in enumerate(docs):
        if i % nv == 0:
            v = (None, 7.6, 8.2)[i // nv % 3]
            obs.append(arg_ob("arguments: validate " + name, Texts([concrete_text(doc, o)]), lambda it, inp: api(it, "loads", inp.text(0), include_comments=True), [("validate(version=%s)" % v, lambda it, d, v=v: api(it, "validate", d, **({"version": v} if v else {})), None)], "validate " + name))
    chk.add(obs, "arguments")
    # ---- histories
    obs = []
    workers = [parser_worker(True, True), parser_worker(False, False), parser_worker(True, False), transformer_worker(False, True), transformer_worker(True, False), transformer_worker(True, True)]
    printers = [printer_worker(x) for x in [{}, {"indent": 2, "spacer": "\t", "quote": "'", "newlinechar": "\r\n", "end_comment": True, "align_values": True}, {"separate_complex_types": True, "align_values": True}]]
    val, ap = validator_worker(), api_worker()
    light = workers + printers
    bad = [t for n, t in TRACES]
    dicts = ["@%d" % i for i in range(NDICTS)]
    # every trace before every other
    for wi, w in enumerate(light + [ap]):
        pool = bad + (dicts if w in printers else [])
        us = [u for u in range(len(w.uses)) if thorough or "validate" not in w.uses[u][0]]
        for i in range(len(pool)):
            ts, seq = [pool[i]], []
            rest = [pool[(i + 1 + 3 * j) % len(pool)] for j in range(len(pool))] if thorough else [pool[(i + d) % len(pool)] for d in (1, 4, 7, 10, 12)]
            for j, x in enumerate(rest):
                seq.append((us[(i + j) % len(us)], 0))
                ts.append(x)
                seq.append((us[(i + j + 1) % len(us)], len(ts) - 1))
            seq.append((us[i % len(us)], 0))
            for edit in (False, True):
                obs.append(history_ob("history of %s, from trace %d%s" % (w.name, i, ", results edited" if edit else ""), w, ts, seq, w.name.partition("(")[0], edit))
    # every structure document between traces and other documents
    for i, (name, doc) in enumerate(docs):
        other = docs[(i * 7 + 3) % len(docs)][1]
        ws = [workers[i % len(workers)], printers[i % len(printers)], ap] if not thorough else workers + printers + [ap]
        for w in ws:
            us = [u for u in range(len(w.uses)) if "validate" not in w.uses[u][0]]
            u = lambda k: us[(i + k) % len(us)]
            abstract = thorough or w in workers
            ts = [DocIn(doc, o) if abstract else concrete_text(doc, o), bad[i % len(bad)], concrete_text(other, o)]
            seq = [(u(0), 0), (u(1), 1), (u(2), 0), (u(1), 2), (u(3), 0)]
            obs.append(history_ob("history of %s: %s" % (w.name, name), w, ts, seq, w.name.partition("(")[0], i // 2 % 2 == 0, max_paths=128))
    chk.add(obs, "history")
    obs = []
    vpool = dicts + ["CLASS NAME 'c' STYLE WIDTH 2 OPACITY 400 BOGUS 1 END END", "STYLE COLOR 1 2 3 SIZE 'x' END", OTHER, MAPTEXT, "SYMBOL NAME 'x' TYPE WRONG END", "WEB METADATA 'a' 'b' END TEMPLATE 5 END"]
    for i in range(len(vpool)):
        for w in (val, ap):
            us = [u for u in range(len(w.uses)) if "validate" in w.uses[u][0]]
            ts = [vpool[i]] + [vpool[(i + d) % len(vpool)] for d in (1, 3, 8)]
            u = lambda k: us[(i + k) % len(us)]
            seq = [(u(0), 0), (u(1), 1), (u(2), 2), (u(1), 0), (u(3), 3), (u(0), 0), (u(4), 1)] + ([(u(a), b) for a in range(len(us)) for b in range(4)] if thorough else [])
            obs.append(history_ob("validations by %s, from %d" % (w.name, i), w, ts, seq, w.name.partition("(")[0] + " validate", i % 2 == 0))
    chk.add(obs, "history of validations")
    # ---- threads
    obs = []
    cs = thread_calls()
    for i, a in enumerate(cs):
        for j in range(i, len(cs)):
            b = cs[j]
            heavy = "validate" in a.name and "validate" in b.name
            obs.append(threads_ob("threads: %s, %s" % (a.name, b.name), Texts([]), prepare, a, b, "%s and %s" % (a.name, b.name)))
    rs = chk.add(obs, "threads")
    chk.assumptions.append("schedules: one call is interrupted once, by the whole of another call; several interruptions and more than two threads only where nothing shared is written")
    chk.assumptions.append("lark's parser object and jsonschema's validator objects are taken to be safe to use from several threads when they are not shared")
    return ("For each obligation the package is evaluated abstractly. arguments: the frozen argument before and after the call. history: a reused object (and the module-level functions) against fresh objects of a freshly imported package, step by step. threads: an effect analysis of the writes to state other calls reach; two calls that write none commute, otherwise the schedules with one interruption are evaluated.")
