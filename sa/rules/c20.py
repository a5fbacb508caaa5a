"""C20: file, stream and command-line front ends agree with the string API."""
import posixpath, json as _json
from ..values import *
from ..harness import *
from .. import docs as DD
from .. import optsets as OS
from ..vocab import *
from ..surface import Style, surface, BLANKS
from .c01 import dump
from .c02 import DocIn, show_exc
from .c07 import to_py

PATHS = ["/cwd/q.map", "q.map", "/maps/with blank/caf\u00e9 \U0001f30d.map", "sub/q.map", "./q.inc"]
# everything a string between double quotes may hold
ANY = frozenset(UNIVERSE) - frozenset("\"\\")
# what survives printing and reading (see C03): no quotes
FREE = frozenset(UNIVERSE) - frozenset("\"'\\`")


def api(it):
    return it.import_module("mappyfile").ns


def absolute(it, p):
    return posixpath.normpath(posixpath.join(it.env.get("cwd", "/cwd"), p))


def text_of(parts):
    return cat(*parts) if parts else ""


UTF8 = ("utf-8", "utf8", "u8")


class NotText(Exception):
    pass


def disk(it, path):
    """(text on disk as UTF-8 | None when never written, problem)"""
    out, bad = None, None
    for f in it.writes:
        p = f.data["path"]
        if not isinstance(p, str):
            if p is not path:
                raise Unsupported("write to an unknown path")
        elif absolute(it, p) != absolute(it, path):
            continue
        mode, enc, nl = f.data["mode"], f.data["encoding"], f.data["newline"]
        buf = f.data["buf"]
        for b in buf:
            if not isinstance(b, (str, AStr)):
                raise Unsupported("write of %s" % type(b).__name__)
        t = text_of(buf)
        e = "locale" if enc is None else str(enc).lower().replace("_", "-")
        if "b" in mode:
            raise Unsupported("binary file")
        if e not in UTF8:
            bad = "written with the encoding %s, not as UTF-8" % (enc or "of the locale")
        if f.data["errors"] not in (None, "strict"):
            pass
        if f.data["via"] == "open" and nl not in ("", "\n", None):
            bad = "line feeds are written as %r" % nl
        if "a" in mode and out is None:
            st = it.files.get(path)
            out = cat(st, t) if isinstance(st, (str, AStr)) else t
        elif "a" in mode:
            out = cat(out, t)
        else:
            out = t
    return out, bad


def strays(it, paths):
    """files written other than the expected ones"""
    want = {absolute(it, p) for p in paths}
    return sorted({str(f.data["path"]) for f in it.writes if not (isinstance(f.data["path"], str) and absolute(it, f.data["path"]) in want)})


# ------------------------------------------------------------------ loaders
def by(it, how, text, path, **kw):
    m = api(it)
    if how == "loads":
        return it.call(m["loads"], [text], kw)
    if how == "stringio":
        f = it.call(it.getattr(it.import_module("io"), "StringIO"), [text], {})
        return it.call(m["load"], [f], kw)
    it.files[absolute(it, path)] = text
    if how == "open":
        return it.call(m["open"], [path], kw)
    f = it.call(it.builtins["open"], [path], {"encoding": "utf-8", "newline": ""})
    return it.call(m["load"], [f], kw)


LOADERS = ("open", "load", "stringio")


def load_ob(name, construct, inputs, text_for, how, path, kw):
    def run(it, inp):
        text = text_for(inp)
        it.text = text
        it.stage = "loads"
        try:
            want = by(it, "loads", text, path, **kw)
        except PyRaise as ex:
            want = ex
        it.stage = how
        try:
            got = by(it, how, text, path, **kw)
        except PyRaise as ex:
            got = ex
        return want, got

    def judge(it, inp, p):
        if p.kind == "raise":
            return []
        want, got = p.value
        if isinstance(want, PyRaise) and isinstance(got, PyRaise):
            return []
        if isinstance(want, PyRaise) or isinstance(got, PyRaise):
            x = want if isinstance(want, PyRaise) else got
            return [Bad("loaders agree", construct, "%s of %s raises %s, %s does not; text: %s" % ("loads" if x is want else how, path, x.exc.cls.name, how if x is want else "loads", show(it.text)[:400]))]
        s = same(it, want, got)
        return [] if s is True else [Bad("loaders agree", construct, "%s(%r, %s) differs from loads: %s; text: %s" % (how, path, kw, diff(want, got), show(it.text)[:400]), s is False)]

    return Ob(name, inputs, run, judge, max_paths=200)


class TextIn:
    def __init__(self, text):
        self.text = text

    def __abs_fields__(self):
        return [self.text]

    def __abs_subst__(self, f):
        return TextIn(f(self.text))

    def show(self):
        return show(self.text)[:600]


def any_body(cs=ANY, pfx="u"):
    return AStr([Atom(fresh(pfx), cs, 0)])


def text_docs():
    """texts in which a part is any Unicode text"""
    a = lambda: any_body()
    nl = lambda: AStr([Atom(fresh("c"), frozenset(UNIVERSE) - frozenset("\n"), 0)])
    sq = lambda: any_body(frozenset(UNIVERSE) - frozenset("'\\"))
    bq = lambda: any_body(frozenset(UNIVERSE) - frozenset("`\\\n"))
    fs = frozenset(UNIVERSE)
    return [
        ("double-quoted string", cat('MAP NAME "', a(), '" END')),
        ("single-quoted string", cat("MAP NAME '", sq(), "' END")),
        ("two strings", cat('LAYER\nNAME "', a(), '"\nMETADATA\n"', a(), '" "', a(), '"\nEND\nEND')),
        ("comment", cat("MAP # ", nl(), "\nNAME 'x' END")),
        ("block comment", cat("MAP /* ", AStr([Atom(fresh("c"), fs - frozenset("*"), 0)]), " */ NAME 'x' END")),
        ("template value", cat("LAYER TEMPLATE `", bq(), "` END")),
        ("unquoted value", cat("LAYER NAME q", AStr([Atom(fresh("w"), frozenset(c for c in UNIVERSE if c.isalpha() and ord(c) < 0x300), 0)]), "\nEND")),
        ("expression", cat("CLASS EXPRESSION ('[a]' = '", sq(), "') END")),
        ("regular expression", cat("CLASS EXPRESSION /x", AStr([Atom(fresh("r"), fs - frozenset("/\\\n"), 0)]), "/ END")),
        ("CONFIG and SYMBOL", cat('MAP CONFIG "K" "', a(), '" SYMBOL NAME "', a(), '" CHARACTER "', a(), '" END END')),
    ]


FIXED = [
    ("byte order mark", "\ufeffMAP NAME 'x' END"),
    ("CR LF lines", "MAP\r\nNAME 'x'\r\nLAYER\r\nNAME \"a\r\nb\"\r\nEND\r\nEND\r\n"),
    ("CR lines", "MAP\rNAME 'x'\rLAYER\rNAME \"a\rb\"\rEND\rEND\r"),
    ("mixed line ends", "MAP\n\rNAME 'x'\r\r\nLAYER # c\r\n/* a\r\nb */NAME \"a\n\rb\"\nEND\rEND"),
    ("unusual line separators", "MAP\nNAME 'a\u2028b\u2029c\x85d\x0be\x0cf\x1cg\x1dh\x1ei'\nEND"),
    ("NUL and controls", "MAP NAME '\x00\x01\x1b\x7f\x9f' END"),
    ("astral characters", "MAP NAME '\U0001f30d\U00010348\U0010ffff' END"),
    ("combining characters", "MAP NAME 'e\u0301\u00e9\u1e9b\u0323' END"),
    ("private use and noncharacters", "MAP NAME '\ue000\ufdd0\ufffe\uffff\ufffd' END"),
    ("right to left", "LAYER METADATA 'wms_title' '\u05d0\u05d1\u202e\u200f' END END"),
    ("no final line end", "MAP NAME 'x' END # \u00fc"),
    ("several roots", "LAYER NAME '\u00e4' END\r\nCLASS NAME '\u00f6' END"),
    ("empty", ""),
    ("blank", " \t\r\n "),
    ("unparseable", "MAP NAME 'x'"),
    ("unparseable with CR", "MAP\r\nNAME 'x\r\n"),
    ("Control-Z", "MAP NAME 'x\x1ay' END"),
]


def load_obs(thorough):
    obs = []
    FLAGS = [{}, {"expand_includes": False}, {"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True, "expand_includes": False}]
    k = 0
    for n, t in text_docs():
        for how in LOADERS:
            for path in PATHS if thorough else PATHS[k % 5:k % 5 + 1]:
                # line splitting of unknown text needs the includes to be off; see the concrete members below
                for kw in ({"expand_includes": False}, {"expand_includes": False, "include_position": False, "include_comments": True}):
                    obs.append(load_ob("%s, %s(%r) %s" % (n, how, path, sorted(kw)), n, TextIn(t), lambda inp: inp.text, how, path, kw))
                k += 1
    for n, t in FIXED:
        for how in LOADERS:
            for kw in FLAGS:
                path = PATHS[k % 5]
                k += 1
                obs.append(load_ob("%s, %s(%r) %s" % (n, how, path, sorted(kw.items())), n, TextIn(t), lambda inp: inp.text, how, path, kw))
    for name, doc in DD.structure():
        for j, how in enumerate(LOADERS):
            for r in range(3 if thorough else 1):
                kw = FLAGS[(k + r) % 5]
                st = Style("crlf", sep=["\r\n"]) if k % 3 == 0 else Style("mixed", sep=list(BLANKS) + ["\r\n", "\r"], quote="mixed", seed=k) if k % 3 == 1 else Style("plain", sep=["\n"])
                obs.append(load_ob("%s [%s], %s %s" % (name, st.name, how, sorted(kw.items())), name, no_breaks(DocIn(doc, Opts())), lambda inp, st=st: surface(inp.doc, st), how, PATHS[k % 5], kw))
                k += 1
    return obs


def no_breaks(d):
    from .c15 import no_newline

    return d.__abs_subst__(no_newline)


# ------------------------------------------------------------------ writers
def outs(it, d, o, path, existing):
    """{writer: (text, problem)}; d: function giving a fresh dictionary"""
    m = api(it)
    r = {}
    it.stage = "dumps"
    r["dumps"] = (it.call(m["dumps"], [d()], dict(o)), None)
    it.stage = "dump to a StringIO"
    f = it.call(it.getattr(it.import_module("io"), "StringIO"), [], {})
    it.call(m["dump"], [d(), f], dict(o))
    r["dump to a StringIO"] = (it.call(it.getattr(f, "getvalue"), [], {}), None)
    it.stage = "dump to a file"
    f = it.call(it.builtins["open"], ["/cwd/dump.map", "w"], {"encoding": "utf-8", "newline": ""})
    it.call(m["dump"], [d(), f], dict(o))
    r["dump to a file"] = disk(it, "/cwd/dump.map")
    it.stage = "save"
    if existing is not None:
        it.files[absolute(it, path)] = existing
    ret = it.call(m["save"], [d(), path], dict(o))
    r["save"] = disk(it, path)
    if ret != path:
        r["save"] = (r["save"][0], "save returns %s" % show(ret))
    s = strays(it, [path, "/cwd/dump.map"])
    if s:
        r["save"] = (r["save"][0], "other files are written: %s" % s)
    return r


class DictIn:
    """a dictionary given by a document and changes of its leaves"""

    def __init__(self, doc):
        self.doc = doc

    def __abs_fields__(self):
        return self.doc.__abs_fields__()

    def __abs_subst__(self, f):
        return DictIn(self.doc.__abs_subst__(f))

    def show(self):
        return self.doc.show()


def write_ob(name, construct, inputs, make, o, path, existing=None, again=True):
    def run(it, inp):
        it.stage = "load"
        r = outs(it, lambda: make(it, inp), o, path, existing)
        rd = None
        if again and r["save"][0] is not None and r["save"][1] is None:
            it.stage = "loads"
            try:
                a = it.call(api(it)["loads"], [r["dumps"][0]], {"expand_includes": False})
            except PyRaise as ex:
                a = ex
            it.files[absolute(it, path)] = r["save"][0]
            try:
                b = it.call(api(it)["open"], [path], {"expand_includes": False})
            except PyRaise as ex:
                b = ex
            rd = (a, b)
        return r, rd

    def judge(it, inp, p):
        if p.kind == "raise":
            if it.stage in ("load", "dumps"):
                return []
            return [Bad("writers agree", construct, "dumps succeeds, %s raises %s%s" % (it.stage, p.value.cls.name, show_exc(p)))]
        r, rd = p.value
        out = []
        w = r["dumps"][0]
        for k, (t, prob) in r.items():
            if prob:
                out.append(Bad("writers agree", "%s/%s" % (construct, k), "%s: %s" % (k, prob)))
            elif t is None:
                out.append(Bad("writers agree", "%s/%s" % (construct, k), "%s writes nothing" % k))
            else:
                s = same(it, w, t)
                if s is not True:
                    out.append(Bad("writers agree", "%s/%s" % (construct, k), "%s with %s writes %s instead of %s" % (k, OS.name(o) if "indent" in o else o, show(t)[:400], show(w)[:400]), s is False))
        if rd:
            a, b = rd
            if isinstance(a, PyRaise) != isinstance(b, PyRaise):
                out.append(Bad("writers agree", construct + "/read again", "the saved file and the printed text: only one of them loads"))
            elif not isinstance(a, PyRaise):
                s = same(it, a, b)
                if s is not True:
                    out.append(Bad("writers agree", construct + "/read again", "open(saved) differs from loads(dumps): %s" % diff(a, b), s is False))
        return out

    return Ob(name, inputs, run, judge, max_paths=200)


SETTERS = r'''
import mappyfile

def layer(v):
    d = mappyfile.loads("LAYER NAME 'x' END", expand_includes=False)
    d["name"] = v
    return d

def web(k, v, w):
    d = mappyfile.loads("MAP WEB METADATA 'a' 'b' END END LAYER NAME 'x' END END", expand_includes=False)
    d["web"]["metadata"][k] = v
    d["layers"][0]["classes"] = [{"__type__": "class", "name": w}]
    return d

def cycle(v, fn, kw):
    d = layer(v)
    mappyfile.save(d, fn, **kw)
    return d

def again(fn):
    return mappyfile.open(fn)["name"]

def again_plain(fn):
    return mappyfile.open(fn, expand_includes=False)["name"]
'''


class ValIn:
    def __init__(self, *vs):
        self.vs = vs

    def __abs_fields__(self):
        return list(self.vs)

    def __abs_subst__(self, f):
        return ValIn(*[f(v) for v in self.vs])

    def show(self):
        return ", ".join(show(v) for v in self.vs)[:600]


def cycle_ob(name, construct, v, o, path, expand=False):
    """a string value written by save and read by open is the same string"""

    def run(it, inp):
        ns = it.load_source("setters", SETTERS).ns
        it.call(ns["cycle"], [inp.vs[0], path, DictV(it.builtins["dict"], dict(o))], {})
        t, bad = disk(it, path)
        it.text = t
        if bad or t is None:
            return bad or "nothing written"
        it.files[absolute(it, path)] = t
        return (it.call(ns["again" if expand else "again_plain"], [path], {}),)

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad("save/open cycle", construct, "raises %s%s; value %s" % (p.value.cls.name, show_exc(p), show(inp.vs[0])))]
        if isinstance(p.value, str):
            return [Bad("save/open cycle", construct, p.value)]
        s = same(it, inp.vs[0], p.value[0])
        return [] if s is True else [Bad("save/open cycle", construct, "the value %s is %s after save and open; text: %s" % (show(inp.vs[0]), show(p.value[0]), show(getattr(it, "text", ""))[:300]), s is False)]

    return Ob(name, ValIn(v), run, judge, max_paths=100)


def write_obs(thorough):
    obs = []
    k = 0
    opts = list(OS.all_options())

    def loaded(kw):
        return lambda it, inp: it.call(api(it)["loads"], [render(inp.doc.doc, inp.doc.o)], dict(kw, expand_includes=False))

    for name, doc in DD.structure():
        for o in OS.spread(6 if thorough else 1, k * 5):
            kw = ({}, {"include_comments": True}, {"include_position": True})[k % 3]
            obs.append(write_ob("%s, %s" % (name, OS.name(o)), name, DictIn(DocIn(doc, Opts())), loaded(kw), o, PATHS[k % 5], (None, "longer than what is written " * 200)[k % 2], again=k % 2 == 0))
            k += 1
    one = DocIn(Block("map", Attr("name", shape_str()), Block("layer", Attr("name", shape_str()), Attr("status", shape_enum("on")), KVB("metadata", [(str_("k"), str_(text_body()))]))), Opts())
    for o in (opts if thorough else opts[::4]) + [{}]:
        obs.append(write_ob("every option set, %s" % (OS.name(o) if o else "defaults"), "option sets", DictIn(one), loaded({}), o, PATHS[k % 5], None, again=False))
        k += 1
    setter = lambda f: lambda it, inp: it.call(it.load_source("setters", SETTERS).ns[f], list(inp.vs), {})
    anyv = lambda cs=frozenset(UNIVERSE): AStr([Atom(fresh("v"), cs, 0)])
    for o in OS.spread(48 if thorough else 16, 7) + [{}]:
        obs.append(write_ob("any value, %s" % (OS.name(o) if o else "defaults"), "any string value", ValIn(anyv()), setter("layer"), o, PATHS[k % 5], None, again=False))
        obs.append(write_ob("any values, %s" % (OS.name(o) if o else "defaults"), "any string values", ValIn(anyv(FREE), anyv(), anyv()), setter("web"), o, PATHS[k % 5], None, again=False))
        k += 1
    # text that is safe to be read again: begins and ends with a letter
    def word(cs=FREE):
        n = fresh("v")
        return AStr(["q", Atom(n, cs, 0), "q"])

    for o in OS.spread(36 if thorough else 12, 3) + [{}, {"quote": "'"}]:
        if o.get("newlinechar") == " ":
            o = dict(o, newlinechar="\n")
        obs.append(cycle_ob("cycle of any value, %s" % (OS.name(o) if len(o) > 1 else o), "any string value", word(), o, PATHS[k % 5]))
        k += 1
    import itertools

    brk = [("line breaks", "q" + "".join(x) + "q") for r in (1, 2, 3) for x in itertools.product("\r\nz", repeat=r) if "z" not in x or thorough]
    for n, v in brk + SPECIAL:
        for o in ({}, {"newlinechar": "\r\n"}, {"quote": "'", "indent": 1, "spacer": "\t"}):
            for x in (False, True):
                obs.append(cycle_ob("cycle of %s, %s%s" % (n, o, " with includes" if x else ""), n, v, o, PATHS[k % 5], x))
                k += 1
    return obs


SPECIAL = [("CR", "a\rb"), ("CR LF", "a\r\nb"), ("LF", "a\nb"), ("LF CR", "a\n\rb"), ("NEL and separators", "a\u2028b\u2029c\x85d\x0be\x0cf\x1cg"), ("byte order mark", "\ufeffa\ufeff"), ("NUL", "a\x00b"), ("Control-Z", "a\x1ab"), ("astral", "\U0001f30d \U0010ffff"),
           ("Latin", "\u00e9\u00fc\u00df\u0178\u20ac"), ("CJK", "\u5730\u56fe"), ("noncharacters", "\ufffe\uffff\ufdd0"), ("combining", "e\u0301"), ("bidi", "\u202e\u05d0"), ("private use", "\ue000\U000f0000"), ("soft hyphen and blanks", "a\u00ad\u00a0\u3000b"), ("looks like UTF-8", "\u00c3\u00a9"), ("hash and percent", "# 100% {x}")]


# ------------------------------------------------------------------ command line
class Usage(Exception):
    pass


def ptype(kind, args, kw):
    """how the text of a parameter is converted"""
    t = kw.get("type")
    if t is None:
        d = kw.get("default")
        if isinstance(d, bool):
            return "BOOL"
        if isinstance(d, int):
            return "INT"
        if isinstance(d, float):
            return "FLOAT"
        return "STRING"
    if isinstance(t, ObjV):
        n = t.attrs.get("name")
        return t if n == "Path" or n == "Choice" or n == "IntRange" or n == "FloatRange" else n
    n = getattr(t, "name", None)
    return {"int": "INT", "float": "FLOAT", "str": "STRING", "bool": "BOOL"}.get(n) or n


def convert(it, ty, s):
    if isinstance(ty, ObjV):
        if ty.attrs["name"] == "Path":
            if ty.attrs["kw"].get("exists") and absolute(it, s) not in it.files and s not in it.env.get("dirs", ()):
                raise Usage("%s does not exist" % s)
            return s
        raise Unsupported("parameter type %s" % ty.attrs["name"])
    if ty == "INT":
        try:
            return int(s)
        except ValueError:
            raise Usage("not an integer")
    if ty == "FLOAT":
        try:
            return float(s)
        except ValueError:
            raise Usage("not a float")
    if ty == "BOOL":
        raise Unsupported("boolean value")
    if ty in ("STRING", None):
        return s
    raise Unsupported("parameter type %s" % ty)


def pname(args, option):
    if not option:
        return args[0].lower().replace("-", "_")
    for a in args:
        if a.isidentifier():
            return a
    first = [a.split("/")[0] for a in args]
    best = sorted(first, key=lambda a: a.startswith("--"), reverse=True)[0]
    return best.lstrip("-").replace("-", "_").lower()


def parse(it, params, argv):
    """(keyword arguments, rest of the line)"""
    opts, pos, names = {}, [], {}
    vals = {}
    for kind, args, kw in params:
        if kind == "option":
            n = pname(args, True)
            names[n] = kw
            multiple = kw.get("multiple")
            for a in args:
                if a.isidentifier():
                    continue
                on, slash, off = a.partition("/")
                opts[on.strip()] = (n, args, kw, True)
                if slash:
                    opts[off.strip()] = (n, args, kw, False)
            if kw.get("count"):
                vals[n] = 0
            elif multiple:
                vals[n] = ListV([])
            else:
                vals[n] = kw.get("default")
                if vals[n] is None and (kw.get("is_flag") or any("/" in a for a in args)):
                    vals[n] = False
        elif kind == "argument":
            pos.append((pname(args, False), kw, ptype(kind, args, kw)))
        elif kind in ("version_option", "help_option"):
            opts["--version" if kind == "version_option" else "--help"] = (None, args, kw, kind)
    rest, i, stop = [], 0, False
    nested = not pos
    while i < len(argv):
        a = argv[i]
        if stop or not a.startswith("-") or a == "-":
            if nested:
                rest = argv[i:]
                break
            rest.append(a)
            i += 1
            continue
        if a == "--":
            stop = True
            i += 1
            continue
        key, eq, v = a.partition("=") if a.startswith("--") else (a[:2], "", a[2:])
        if key not in opts:
            raise Usage("no such option: %s" % key)
        n, args, kw, on = opts[key]
        if n is None:
            raise Usage("informational option")
        flag = kw.get("is_flag") or any("/" in x for x in args)
        if kw.get("count"):
            vals[n] += 1
            i += 1
            continue
        if flag:
            vals[n] = on if kw.get("flag_value") is None else kw["flag_value"]
            i += 1
            continue
        if not (eq or v):
            if i + 1 >= len(argv):
                raise Usage("%s needs a value" % key)
            v = argv[i + 1]
            i += 1
        x = convert(it, ptype("option", args, kw), v)
        if kw.get("multiple"):
            vals[n].items.append(x)
        else:
            vals[n] = x
        i += 1
    if not nested:
        free = list(rest)
        rest = []
        tail = sum(1 for _, kw, _ in pos if kw.get("nargs", 1) != -1)
        seen = False
        for j, (n, kw, ty) in enumerate(pos):
            if kw.get("nargs", 1) == -1:
                after = sum(kw2.get("nargs", 1) for _, kw2, _ in pos[j + 1:])
                take = free[:len(free) - after]
                free = free[len(take):]
                if kw.get("required") and not take:
                    raise Usage("missing argument")
                vals[n] = tuple(convert(it, ty, x) for x in take)
            elif kw.get("nargs", 1) == 1:
                if not free:
                    if kw.get("required", True) and "default" not in kw:
                        raise Usage("missing argument %s" % n)
                    vals[n] = kw.get("default")
                    continue
                vals[n] = convert(it, ty, free.pop(0))
            else:
                raise Unsupported("nargs")
        if free:
            raise Usage("unexpected arguments")
    for kind, args, kw in params:
        if kind == "option" and kw.get("callback") is not None or kind == "argument" and kw.get("callback") is not None:
            raise Unsupported("parameter callback")
        if kind == "option" and kw.get("expose_value") is False:
            vals.pop(pname(args, True), None)
        if kind == "option" and kw.get("required") and vals.get(pname(args, True)) is None:
            raise Usage("missing option")
    return vals, rest


def invoke(it, argv):
    """(exit status, lines on stdout) of the command line"""
    it.import_module("mappyfile.cli")
    cmds = it.models.get("click_commands") or {}
    if "main" not in cmds:
        raise Unsupported("no command group")
    mark = len(it.out)

    def lines():
        out = []
        for e in it.out[mark:]:
            if e[0] == "echo" and not e[2]:
                out.append(e[1])
            elif e[0] in ("print", "stdout"):
                out.append(mkstr(list(e[1:2])) if isinstance(e[1], (str, AStr)) else e[1])
        return out

    def ctx():
        def exit_(it, a, k):
            it.call(it.getattr(it.import_module("sys"), "exit"), [a[0] if a else k.get("code", 0)], {})

        return ObjV(it.builtins["object"], {"obj": None, "params": DictV(it.builtins["dict"]), "exit": NativeV("ctx.exit", exit_), "invoked_subcommand": argv[0] if argv else None, "color": None})

    def run(cmd, args):
        vals, rest = parse(it, cmd.attrs["__params__"], args)
        cb = cmd.attrs["callback"]
        a = [ctx()] if getattr(cb, "attrs", {}).get("__pass_ctx__") else []
        it.call(cb, a, vals)
        return rest

    try:
        g = cmds["main"]
        rest = run(g, list(argv))
        name = rest[0]
        if name not in cmds or name == "main":
            raise Usage("no such command %s" % name)
        more = run(cmds[name], rest[1:])
        return 0, lines()
    except Usage as ex:
        return 2, lines()
    except PyRaise as ex:
        n = ex.exc.cls.name
        if n == "SystemExit":
            c = ex.exc.attrs.get("code")
            if c is None or c is False:
                return 0, lines()
            if isinstance(c, (int, bool)):
                return int(c) & 0xFF, lines()
            if isinstance(c, str):
                return 1, lines()
            raise Unsupported("exit status %s" % show(c))
        if n in ("Exit",):
            raise Unsupported("click exit")
        it.crash = n
        return 1, lines()


# ------------------------------------------------------------------ format
def esc(s):
    """how an option value is typed with escapes"""
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t").replace('"', '\\"')


def fmt_argv(o, style=0):
    argv = []
    for k, v in o.items():
        if k in ("indent",):
            argv += ["--indent=%d" % v] if style % 2 else ["--indent", str(v)]
        elif k in ("spacer", "quote", "newlinechar"):
            t = esc(v) if style % 3 else v
            argv += ["--%s=%s" % (k, t)] if style % 2 else ["--%s" % k, t]
        elif k == "expand":
            argv += ["--expand" if v else "--no-expand"]
        elif k == "comments":
            argv += ["--comments" if v else "--no-comments"]
    return argv


def fmt_ob(name, construct, inputs, text_for, o, style, src="/cwd/in.map", dst="/cwd/out.map", verbose=(), files=None, existing=None):
    """style: how the options are typed"""
    saves = {k: v for k, v in o.items() if k in ("indent", "spacer", "quote", "newlinechar")}

    def run(it, inp):
        it.files.update(files or {})
        it.files[absolute(it, src)] = text_for(inp)
        if existing is not None and absolute(it, dst) != absolute(it, src):
            it.files[absolute(it, dst)] = existing
        m = api(it)
        it.stage = "api"
        want = err = None
        try:
            d = it.call(m["open"], [src], {"expand_includes": o.get("expand", True), "include_comments": o.get("comments", False)})
            it.call(m["save"], [d, "/cwd/expected by save.map"], dict(saves))
            want, bad = disk(it, "/cwd/expected by save.map")
        except PyRaise as ex:
            if ex.exc.cls.name in ("SystemExit",):
                raise
            err = ex
        it.writes[:] = []
        it.stage = "command"
        argv = list(verbose) + ["format"] + ([src, dst] + fmt_argv(o, style) if style % 5 < 3 else fmt_argv(o, style) + [src, dst])
        it.argv = argv
        it.crash = None
        status, lines = invoke(it, argv)
        got, bad = disk(it, dst)
        return want, err, status, got, bad, strays(it, [dst])

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad("format", construct, "%s raises %s%s" % (it.stage, p.value.cls.name, show_exc(p)))]
        want, err, status, got, bad, more = p.value
        cl = "mappyfile " + " ".join(repr(a) for a in it.argv)
        if err is not None:
            return [Bad("format", construct, "%s exits with 0 although the document does not load (%s)" % (cl, err.exc.cls.name))] if status == 0 and got is not None else []
        out = []
        if status != 0:
            out.append(Bad("format", construct, "%s exits with %s%s" % (cl, status, " (%s)" % it.crash if it.crash else "")))
        elif bad:
            out.append(Bad("format", construct, "%s: %s" % (cl, bad)))
        elif got is None:
            out.append(Bad("format", construct, "%s writes nothing" % cl))
        else:
            s = same(it, want, got)
            if s is not True:
                out.append(Bad("format", construct, "%s writes %s, save(open()) writes %s" % (cl, show(got)[:500], show(want)[:500]), s is False))
        if more:
            out.append(Bad("format", construct, "%s writes other files: %s" % (cl, more)))
        return out

    return Ob(name, inputs, run, judge, max_paths=200)


SAMPLE = ("MAP # top\nNAME 'caf\u00e9 \U0001f30d' # name\n/* block */\nLAYER\n# above metadata\nMETADATA\n'wms_title' \"t's\"\nEND\nTYPE POINT\nDATA \"it's\"\nCLASS\nEXPRESSION ('[a]' = 'b')\nSTYLE\nCOLOR 1 2 3\nWIDTH 1.50\nEND\nEND\nEND\n"
          "INCLUDE \"more.map\"\nPROJECTION\n\"init=epsg:4326\"\nEND\nEND # done")
MORE = {"/cwd/more.map": "LAYER\r\nNAME 'inc' # inc\r\nTYPE LINE\r\nEND\r\n"}


def fmt_obs(thorough):
    obs = []
    k = 0
    flags = [{}, {"comments": True}, {"expand": False}, {"comments": True, "expand": False}, {"comments": False, "expand": True}]
    for i in (0, 1, 2, 4, 7):
        for sp in (" ", "\t", "--"):
            for q in ('"', "'"):
                for nl in ("\n", "\r\n", " "):
                    for fl in flags if thorough else (flags[k % 5], flags[(k + 2) % 5]):
                        o = {"indent": i, "spacer": sp, "quote": q, "newlinechar": nl}
                        o.update(fl)
                        obs.append(fmt_ob("sample %s [%d]" % (o, k), "options", TextIn(SAMPLE), lambda inp: inp.text, o, k, files=MORE, existing=(None, "old content\n" * 500)[k % 2], verbose=((), ("-v",), ("-q", "-q"), ("--verbose",))[k % 4]))
                        k += 1
    for o in ({}, {"indent": 2}, {"spacer": "\t"}, {"quote": "'"}, {"newlinechar": "\r\n"}, {"expand": False}, {"comments": True}):
        for st in range(6):
            obs.append(fmt_ob("one option %s [%d]" % (o, st), "one option", TextIn(SAMPLE), lambda inp: inp.text, o, st, files=MORE, src=("/cwd/in.map", "in.map", "./in.map")[st % 3], dst=("/cwd/out.map", "out.map", "sub/out.map")[st % 3]))
    for n, t in FIXED:
        for o in ({}, {"comments": True}, {"expand": False, "quote": "'"}):
            obs.append(fmt_ob("%s %s" % (n, o), n, TextIn(t), lambda inp: inp.text, o, k))
            k += 1
    obs.append(fmt_ob("input is output", "input is output", TextIn(SAMPLE), lambda inp: inp.text, {}, 0, dst="/cwd/in.map", files=MORE))
    n = 0
    for name, doc in DD.structure():
        if n % (1 if thorough else 4) == 0:
            o = dict(spacer=(" ", "\t")[k % 2], indent=k % 6, quote=('"', "'")[k // 2 % 2], newlinechar=("\n", "\r\n")[k // 3 % 2], **flags[k % 5])
            obs.append(fmt_ob("%s, %s" % (name, o), name, no_breaks(DocIn(doc, Opts())), lambda inp: render(inp.doc, inp.o), o, k))
            k += 1
        n += 1
    return obs


# ------------------------------------------------------------------ validate
def doc_with(errors, where="layers"):
    """a document with a number of violations"""
    if where == "layers":
        return "MAP\nNAME \"e\"\n" + "LAYER\nTYPE POINT\nSTATUS wrong\nEND\n" * errors + "END"
    if where == "colors":
        return "LAYER\nTYPE POINT\n" + "CLASS\nMINSCALEDENOM 'x'\nEND\n" * errors + "END"
    if where == "roots":
        return "STYLE\nWIDTH 'x'\nEND\n" * errors if errors else "STYLE\nWIDTH 1\nEND\nSTYLE\nWIDTH 2\nEND"
    if where == "pairs":
        return "MAP\n" + "LAYER\nTYPE wrong\nSTATUS wrong\nEND\n" * (errors // 2) + ("LAYER TYPE POINT UNITS wrong END\n" if errors % 2 else "") + "END"
    if where == "version":
        return "MAP\n" + "LAYER\nTYPE POINT\nTRANSPARENCY 50\nEND\n" * errors + "END"
    raise KeyError(where)


PARSEFAIL = ["MAP NAME 'x'", "LAYER TYPE POINT END END", "", "MAP\nNAME \"open\nEND", "MAP\nINCLUDE \"missing.map\"\nEND", ("undecodable", "latin-1"), "MAP\nINCLUDE \"cycle.map\"\nEND", "MAP [ END", ("error", "PermissionError", 13, "Permission denied")]


def val_ob(name, construct, files, argv, version=8.2, expand=True, patterns=None, dirs=(), verbose=()):
    """files: [(path, content)] in the order in which they are matched"""

    def run(it, inp):
        m = api(it)
        it.files["/cwd/cycle.map"] = 'INCLUDE "cycle.map"'
        it.files["/cwd/names.map"] = "NAME 'included'\n"
        for p, c in files:
            it.files[absolute(it, p)] = c
        it.env["dirs"] = tuple(dirs)
        pat = patterns or {p: [p] for p, c in files}
        it.env["glob"] = lambda g: list(pat.get(g, ()))
        want = []
        for p, c in files:
            it.stage = p
            try:
                d = it.call(m["open"], [p], {"expand_includes": expand, "include_position": True})
            except PyRaise as ex:
                if ex.exc.cls.name in ("SystemExit", "KeyboardInterrupt"):
                    raise
                want.append((p, None))
                continue
            msgs = it.call(m["validate"], [d] + ([] if version is None else [version]), {})
            want.append((p, [(x.d["message"], x.d["error"]) for x in msgs.items]))
        it.stage = "command"
        it.crash = None
        status, lines = invoke(it, list(verbose) + ["validate"] + argv)
        return want, status, lines

    def judge(it, inp, p):
        cl = "mappyfile validate " + " ".join(argv)
        if p.kind == "raise":
            return [Bad("validate", construct, "%s: %s raises %s%s" % (cl, it.stage, p.value.cls.name, show_exc(p)))]
        want, status, lines = p.value
        if any(not isinstance(l, str) for l in lines):
            raise Unsupported("unknown output")
        problems = sum(1 if m is None else len(m) for f, m in want)
        what = ", ".join("%s %s" % (f, "does not parse" if m is None else "%d messages" % len(m)) for f, m in want)[:300]
        out = []
        if it.crash:
            out.append(Bad("validate", construct + "/crash", "%s (%s) ends with %s" % (cl, what, it.crash)))
        elif (status == 0) != (problems == 0):
            out.append(Bad("validate", construct + "/status", "%s exits with %d for %d problems: %s" % (cl, status, problems, what)))
        elif problems <= 255 and status != problems:
            out.append(Bad("validate", construct + "/status", "%s exits with %d for %d problems: %s" % (cl, status, problems, what)))
        ls = [x for l in lines for x in l.split("\n")]
        left = list(ls)
        lost = 0
        first = None
        for f, ms in want:
            for msg, err in ms or []:
                hit = None
                for i, l in enumerate(left):
                    if l is not None and f in l and str(msg) in l and str(err) in l:
                        hit = i
                        break
                if hit is None:
                    lost += 1
                    first = first or (f, msg, err)
                else:
                    left[hit] = None
        if lost and not it.crash:
            out.append(Bad("validate", construct + "/lines", "%s prints no line for %d of the messages, such as %s; printed: %s" % (cl, lost, first, ls[:4])))
        errs = {(f, str(m), str(e)) for f, ms in want for m, e in ms or []}
        extra = [l for l in left if l is not None and any(f in l and m in l and e in l for f, m, e in errs)]
        if extra:
            out.append(Bad("validate", construct + "/lines", "%s prints more than one line for a message: %s" % (cl, extra[:2])))
        return out

    return Ob(name, (), run, judge, max_paths=8)


def val_obs(thorough):
    obs = []
    ok = ["MAP NAME 'x' END", "LAYER TYPE POINT END", "LAYER TYPE POINT END CLASS NAME 'x' END", "SYMBOLSET SYMBOL NAME 'x' TYPE ELLIPSE POINTS 1 1 END END END", "METADATA 'a' 'b' END", "MAP\nINCLUDE \"names.map\"\nEND"]
    # numbers of errors in one file
    for w in ("layers", "colors", "roots", "pairs"):
        for n in ((0, 1, 2, 3, 100, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 768) if thorough else (0, 1, 2, 7, 255, 256, 257) + ((300, 512) if w == "layers" else ())):
            if w == "colors" and n > 300:
                continue
            obs.append(val_ob("%d errors in %s" % (n, w), "%d errors in one file" % n, [("/cwd/a.map", doc_with(n, w))], ["/cwd/a.map"]))
    # sets of files
    V, P = "valid", "unparseable"

    def text(kind, i):
        if kind == V:
            return ok[i % len(ok)]
        if kind == P:
            return PARSEFAIL[i % len(PARSEFAIL)]
        return doc_with(kind, ("layers", "pairs", "roots")[i % 3])

    sets = [[V], [P], [1], [V, V], [V, P], [P, V], [P, P], [1, V], [V, 1], [1, P], [P, 1], [1, 1], [2, 3, V], [V, P, 2], [P, 2, V], [2, V, P], [V, V, V], [P, P, P], [5, P, V, 1, P, V, 2], [128, 128], [255, 1], [255, P], [P, 255], [254, 1], [254, P], [256, V], [V, 256], [200, 100, P], [256, P], [P, 256], [128, 127, P], [128, 127, V], [100, 100, 56], [85, 85, 86, V]]
    for r, s in enumerate(sets):
        for j in range(len(PARSEFAIL) if P in s and len(s) < 4 else 3 if thorough else 1):
            fs = [("/cwd/f%d %s.map" % (i, "bx"[i % 2]), text(k, i + j + r)) for i, k in enumerate(s)]
            names = [p for p, c in fs]
            style = (r + j) % 3
            if style == 0:
                obs.append(val_ob("files %s (%d)" % (s, j), "files %s" % s, fs, names))
            elif style == 1:
                obs.append(val_ob("files %s (%d), pattern" % (s, j), "files %s" % s, fs, ["/cwd/*.map"], patterns={"/cwd/*.map": names}, verbose=("-v",)))
            else:
                h = len(names) // 2
                obs.append(val_ob("files %s (%d), two patterns" % (s, j), "files %s" % s, fs, ["/cwd/a*", "/cwd/none*", "/cwd/b*"], patterns={"/cwd/a*": names[:h] + ["/cwd/dir"], "/cwd/b*": ["/cwd/dir"] + names[h:]}, dirs=("/cwd/dir",), verbose=("-q",)))
    for i, t in enumerate(PARSEFAIL):
        obs.append(val_ob("alone: %r" % (t,), "a file that does not parse", [("/cwd/a.map", t)], ["/cwd/a.map"]))
        obs.append(val_ob("alone: %r, not expanded" % (t,), "a file that does not parse", [("/cwd/a.map", t)], ["--no-expand", "/cwd/a.map"], expand=False))
    for i, t in enumerate(ok):
        obs.append(val_ob("valid: %r" % t, "a valid file", [("/cwd/a.map", t)], ["/cwd/a.map"]))
        obs.append(val_ob("valid: %r, not expanded" % t, "a valid file", [("/cwd/a.map", t)], ["/cwd/a.map", "--no-expand"], expand=False))
        obs.append(val_ob("valid: %r, expanded" % t, "a valid file", [("/cwd/a.map", t)], ["--expand", "/cwd/a.map"]))
    obs.append(val_ob("nothing matched", "nothing matched", [], ["/cwd/none.map"]))
    obs.append(val_ob("nothing given", "nothing matched", [], []))
    obs.append(val_ob("only a directory", "nothing matched", [], ["/cwd/dir"], patterns={"/cwd/dir": ["/cwd/dir"]}, dirs=("/cwd/dir",)))
    from .c19 import all_versions

    vs = sorted({v for x in all_versions() for v in (round(x - 0.2, 1), x, round(x + 0.2, 1))})
    docs = {"old and new keywords": "MAP\nLAYER\nTYPE POINT\nTRANSPARENCY 50\nCONNECTIONOPTIONS\n'a' 'b'\nEND\nCOMPOSITE\nOPACITY 50\nEND\nMASK 'x'\nCLASS\nSTYLE\nANTIALIAS TRUE\nPOLAROFFSET 1 2\nEND\nLABEL\nANTIALIAS TRUE\nENCODING 'x'\nEND\nEND\nEND\nWEB\nLOG 'x'\nEND\nEND", "old errors": doc_with(3, "version"), "valid": "MAP NAME 'x' END", "several roots": "LAYER TYPE POINT TRANSPARENCY 5 END\nSTYLE ANTIALIAS TRUE END"}
    for n, t in docs.items():
        for v in vs if thorough else vs[::2]:
            for st in range(2):
                obs.append(val_ob("%s, version %s (%d)" % (n, v, st), "version %s" % v, [("/cwd/a.map", t), ("/cwd/b.map", "MAP NAME 'x' END")], ["--version=%s" % v, "/cwd/a.map", "/cwd/b.map"] if st else ["/cwd/a.map", "/cwd/b.map", "--version", str(v)], version=v))
    # braces and percent signs in the texts that are printed
    for i, t in enumerate(("LAYER\nTYPE '{x}'\nEND", "LAYER\nTYPE '%s {0} {fn}'\nEND", "LAYER\nTYPE 'caf\u00e9 \U0001f30d'\nEND", "LAYER\nTYPE 'a\nb'\nEND")):
        for fn in ("/cwd/a.map", "/cwd/{fn} %s.map", "/cwd/caf\u00e9.map"):
            obs.append(val_ob("text %r in %s" % (t, fn), "texts with special characters", [(fn, t)], [fn]))
    return obs


# ------------------------------------------------------------------ schema
def schema_ob(name, v, argv, dst="/cwd/out.json", existing=None):
    def run(it, inp):
        if existing is not None:
            it.files[absolute(it, dst)] = existing
        it.stage = "api"
        val = it.call(it.import_module("mappyfile.validator").ns["Validator"], [], {})
        want = it.call(it.getattr(val, "get_versioned_schema"), [v], {})
        want = to_py(want)
        it.stage = "command"
        it.crash = None
        it.writes[:] = []
        status, lines = invoke(it, argv)
        t, bad = disk(it, dst)
        got = None
        if isinstance(t, str):
            try:
                got = _json.loads(t)
            except ValueError as ex:
                bad = "what is written is not JSON: %s" % ex
        elif t is not None:
            got = to_py(it.call(it.getattr(it.import_module("json"), "loads"), [t], {}))
        return want, status, got, bad, t is None

    def judge(it, inp, p):
        cl = "mappyfile " + " ".join(argv)
        if p.kind == "raise":
            return [Bad("schema", name, "%s: %s raises %s%s" % (cl, it.stage, p.value.cls.name, show_exc(p)))]
        want, status, got, bad, none = p.value
        if status != 0:
            return [Bad("schema", name, "%s exits with %d%s" % (cl, status, " (%s)" % it.crash if it.crash else ""))]
        if bad or none:
            return [Bad("schema", name, "%s: %s" % (cl, bad or "nothing is written"))]
        if got != want:
            return [Bad("schema", name, "%s writes another schema than get_versioned_schema(%s): %s" % (cl, v, first_diff(want, got)))]
        return []

    return Ob(name + " " + " ".join(argv), (), run, judge, max_paths=8)


def first_diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s/%s is %s" % (path, k, "missing" if k in a else "extra")
            d = first_diff(a[k], b[k], path + "/" + str(k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, "%s/%d" % (path, i))
            if d:
                return d
        return None
    return None if a == b and type(a) is type(b) else "%s is %.80r instead of %.80r" % (path, b, a)


def schema_obs(thorough):
    from .c19 import all_versions

    obs = [schema_ob("no version", None, ["schema", "/cwd/out.json"]), schema_ob("no version, old file", None, ["schema", "/cwd/out.json"], existing="x" * 100000), schema_ob("no version, relative", None, ["-v", "schema", "out.json"], "out.json")]
    vs = sorted({w for v in all_versions() for w in (v - 0.2, v, v + 0.2)} | {0.0, 4.0, 8.2, 8.4, 99.0})
    for v in vs if thorough else vs[::3] + [0.0, 8.2]:
        v = round(v, 1)
        obs.append(schema_ob("version %s" % v, v, ["schema", "/cwd/out.json", "--version=%s" % v]))
        obs.append(schema_ob("version %s" % v, v, ["schema", "--version", str(v), "/cwd/out.json"]))
        if v == int(v):
            obs.append(schema_ob("version %s" % v, v, ["schema", "--version", str(int(v)), "/cwd/out.json"]))
    return obs


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    chk.add(load_obs(thorough), "loaders")
    chk.add(write_obs(thorough), "writers")
    chk.add(fmt_obs(thorough), "format command")
    chk.add(val_obs(thorough), "validate command")
    chk.add(schema_obs(thorough), "schema command")
    return ("The three loaders are evaluated on the same text (parts of it any Unicode text, including CR and byte order marks) over a model file system and the dictionaries must be equal; the three writers over "
            "dictionaries of every structure, any string values and option sets must give equal characters, written as UTF-8 without newline translation, and save/open must give the value back. The command line "
            "functions are evaluated through a model of click (the decorators give the options): format must write what save(open()) writes, validate must print one line per message of the API and exit with the stated status, schema must write the API's schema.")
