"""C07: the verdict of validate equals the verdict of the published schema."""
import re
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from ..schema import KV as KVT
from .c02 import DocIn, load, show_exc
from .c19 import member, lower_json, pyval

HID = re.compile(r"^__[a-z]+__$")


def to_py(v):
    """a concrete abstract value as JSON data"""
    if isinstance(v, DictV):
        return {k: to_py(x) for k, x in v.d.items()}
    if isinstance(v, ListV):
        return [to_py(x) for x in v.items]
    if isinstance(v, tuple):
        return [to_py(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    raise Unsupported("not concrete: %r" % (v,))


# ------------------------------------------------------------------ an independent localiser
def faults(S, t, d, path=()):
    """[(path of the object, 'keyword'|'object', name)] for a lower-cased JSON object of block type t"""
    sch = S.files[t]
    out = []
    props = sch.get("properties", {})
    if any(r not in d for r in sch.get("required", ())):
        out.append((path, "object", t))
    for k, x in d.items():
        if k not in props:
            if sch.get("additionalProperties") is False and not HID.match(k):
                out.append((path, "object", t))
            continue
        out += slot_faults(S, k, props[k], x, path)
    return out


def slot_faults(S, k, node, x, path):
    c = S.child_ref(node)
    if c and c[0] == "one" and isinstance(x, dict) and not ("oneOf" in node or "anyOf" in node):
        return faults(S, c[1], x, path + (k,))
    if c and c[0] == "many" and isinstance(x, list):
        out = []
        n = {a: b for a, b in S.deref(node).items() if a != "items"}
        if not S.valid(n, x):
            out.append((path, "keyword", k))
        for i, y in enumerate(x):
            if isinstance(y, dict):
                out += faults(S, c[1], y, path + (k, i))
            else:
                out.append((path, "keyword", k))
        return out
    return [] if S.valid(node, x) else [(path, "keyword", k)]


def names(fs):
    return sorted({n.upper() for p, kind, n in fs})


def texts(msgs):
    return [m.d.get("message") for m in msgs.items]


def named(msgs, name):
    return any(isinstance(m, str) and re.search(r"(?<![A-Za-z_])%s(?![A-Za-z_])" % re.escape(name), m) for m in texts(msgs))


def verdict(construct, t, py, msgs, S, what):
    """compare the messages with the schema's own verdict"""
    low = lower_json(py)
    fs = faults(S, t, low)
    ok = S.valid(S.files[t], low)
    out = []
    if ok and msgs.items:
        out.append(Bad("verdict", construct, "%s: the schema accepts the dictionary, validate reports %s" % (what, texts(msgs)[:3])))
    if not ok and not msgs.items:
        out.append(Bad("verdict", construct, "%s: the schema refuses the dictionary (%s), validate reports nothing" % (what, names(fs))))
    if not ok and msgs.items:
        for n in names(fs):
            if not named(msgs, n):
                out.append(Bad("naming", construct, "%s: no message names %s: %s" % (what, n, texts(msgs)[:4])))
        legal = {n for n in names(fs)}
        for m in texts(msgs):
            if not any(isinstance(m, str) and re.search(r"(?<![A-Za-z_])%s(?![A-Za-z_])" % re.escape(n), m) for n in legal):
                out.append(Bad("naming", construct, "%s: the message %r names neither a keyword nor an object at fault (%s)" % (what, m, sorted(legal))))
    return out


# ------------------------------------------------------------------ values to store
def pool(S, node):
    vals = ["zzz", "", -7, 0, 1, 7, 10.5, -0.5, 100000, True, False, [], [1], [1, 2], [10.5, 20], [1, 2, 3], [1, 2, 300], [-1, 2, 3, 4], [1, 2, 3, 4, 5], ["a"], ["a", "b"], ["[a]", "[b]"], [1, "b"], [[1, 2], [3, 4]], [[1, 2]], [[1, 2, 3]],
            [[[1, 2], [3, 4]], [[5, 6]]], [["a", 1]], "#ff0000", "#ff00", "[attr]", "(1 = 1)", "/re/", "'q'", "q" * 20]
    seen = set()

    def go(n):
        n = S.deref(n)
        for e in n.get("enum", ()):
            if e not in seen and isinstance(e, str):
                seen.add(e)
                if len(seen) <= 4:
                    vals.extend([e, e.upper(), e + "x"])
        for a, d in (("minimum", -1), ("maximum", 1)):
            if a in n:
                vals.extend([n[a], n[a] + d, n[a] + d * 0.5])
        for c in ("oneOf", "anyOf", "allOf"):
            for o in n.get(c, ()):
                go(o)
        if isinstance(n.get("items"), dict):
            go(n["items"])
            m = n.get("minItems", 2)
            x = S.deref(n["items"])
            lo, hi = x.get("minimum", 0), x.get("maximum", 50)
            good = [lo if isinstance(lo, int) else 1] * max(m, 1)
            vals.append(good)
            for i in range(len(good)):
                for bad in (lo - 1, hi + 1, 10.5, "zz"):
                    b = list(good)
                    b[i] = bad
                    vals.append(b)

    go(node)
    out = []
    for v in vals:
        if not any(type(v) is type(w) and v == w for w in out):
            out.append(v)
    return out


def base(t, skip=()):
    """a schema-valid object of block type t (concrete)"""
    b = Block(t, *DD.first_simple(t, skip=skip))
    if t == "layer" and "type" not in skip and not any(isinstance(n, Attr) and n.key == "type" for n in b.items):
        b.items.append(Attr("type", shape_enum("point")))
    return b


def contexts():
    """type -> [(root document, path to an object of that type)]"""
    V = DD.vocab()
    par = V.S.parents()
    out = {}

    def up(t, depth=0):
        ps = [(p, k, c) for p, k, c in par.get(t, []) if p != "symbolset" and not (k == t and c == "one" and t not in SINGLETONS) and p != t]
        if depth > 5 or not ps:
            return [[(t, None, None)]]
        res = [[(t, None, None)]] if depth == 0 else []
        for p, k, c in ps:
            for ch in up(p, depth + 1):
                res.append(ch + [(t, k, c)])
        return res

    for t in V.S.blocks():
        for ch in up(t):
            node = base(ch[-1][0])
            path = []
            for i in range(len(ch) - 1, 0, -1):
                ty, k, c = ch[i]
                p = base(ch[i - 1][0])
                if c == "many":
                    if i % 2 and not (ty == "label" and ch[i - 1][0] in ("legend", "scalebar")):
                        p.items.append(base(ty))
                        path = [k, 1] + path
                    else:
                        path = [k, 0] + path
                else:
                    path = [k] + path
                p.items.append(node)
                if c == "many" and not (ty == "label" and ch[i - 1][0] in ("legend", "scalebar")):
                    p.items.append(base(ty))
                node = p
            out.setdefault(t, []).append((node, path))
    return out


def at(d, path):
    for p in path:
        d = d.items[p] if isinstance(p, int) else d.d[p]
    return d


def val(it, d, version=None):
    f = it.import_module("mappyfile").ns["validate"]
    return it.call(f, [d] + ([version] if version is not None else []), {})


def setting_ob(t, k, root, path, values, label):
    V = DD.vocab()
    S = V.S
    rt = root.type
    construct = "%s.%s" % (t.upper(), k.upper())

    def run(it, inp):
        it.stage = "load"
        d = load(it, render(root, Opts()))
        o = at(d, path)
        out = []
        for v in values:
            if v is DELETE:
                o.d.pop(k, None)
            else:
                o.d[k] = pyval(it, v)
            it.stage = "validate"
            it.value = v
            before = to_py(d)
            m = val(it, d)
            out.append((v, before, m))
        return out

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad("raises", construct, "%s of %s = %r raised %s%s" % (it.stage, construct, getattr(it, "value", None), p.value.cls.name, show_exc(p)))]
        out = []
        for v, py, m in p.value:
            out += verdict(construct, rt, py, m, S, "%s%s = %r" % ("/".join(map(str, [rt] + path)) + " " if path else "", k, v if v is not DELETE else "(absent)"))
        return out[:6]

    return Ob("%s in %s" % (construct, label), (), run, judge, max_paths=16)


DELETE = object()


def doc_ob(name, doc, up=False):
    S = DD.vocab().S
    inp = member(DocIn(doc, Opts()))

    def run(it, inp):
        it.stage = "load"
        d = load(it, tuple(inp)[1])
        it.stage = "validate"
        d2 = upper(it, d) if up else d
        return d, val(it, d2)

    def judge(it, inp, p):
        if p.kind == "raise":
            return [] if it.stage == "load" else [Bad("raises", name, "validate raised %s%s; text: %s" % (p.value.cls.name, show_exc(p), show(tuple(inp)[1])[:200]))]
        d, m = p.value
        if isinstance(d, ListV):
            out, n = [], 0
            fs = [faults(S, x.d["__type__"], lower_json(to_py(x))) for x in d.items]
            if not any(fs) and m.items:
                out.append(Bad("verdict", name, "the schema accepts every root, validate reports %s" % texts(m)[:3]))
            for f in fs:
                for nm in names(f):
                    if not named(m, nm):
                        out.append(Bad("naming", name, "no message names %s: %s" % (nm, texts(m)[:3])))
            return out
        return verdict(name, d.d["__type__"], to_py(d), m, S, "text %s" % show(tuple(inp)[1])[:200])

    return Ob(name, inp, run, judge, max_paths=16)


def upper(it, v):
    """the same content as plain dictionaries with other letter case"""
    if isinstance(v, DictV):
        return DictV(it.builtins["dict"], {(k if HID.match(k) else alt(k)): (x if k == "__type__" else upper(it, x)) for k, x in v.d.items()})
    if isinstance(v, ListV):
        return ListV([upper(it, x) for x in v.items])
    if isinstance(v, str):
        return v.upper()
    return v


def alt(k):
    return "".join(c.upper() if i % 2 == 0 else c for i, c in enumerate(k))


def scenarios():
    """several faults at once, hidden keys, letter case, lists of roots, bookkeeping, comments"""
    V = DD.vocab()
    S = V.S
    big = Block("map", Attr("name", shape_str("q")), Attr("angle", shape_int("30")),
                Block("web", Attr("template", shape_str("t.html")), KVB("metadata", [(str_("a"), str_("b"))]), KVB("validation", [(str_("a"), str_("b"))])),
                Block("legend", Block("label", Attr("size", shape_int("7")))),
                Block("layer", Attr("name", shape_str("l0")), Attr("type", shape_enum("point")), Attr("processing", shape_str("BANDS=1")), Attr("processing", shape_str("X=2")), KVB("metadata", [(str_("k"), str_("v"))]),
                      Block("class", Attr("name", shape_str("c0")), Block("style", Attr("width", shape_int("2"))), Block("style", Attr("width", shape_int("3")), Pairs("pattern", [(shape_int("1"), shape_int("2")), (shape_int("3"), shape_int("4"))]))),
                      Block("class", Attr("name", shape_str("c1")), Block("label", Attr("size", shape_int("7")), Block("style", Attr("width", shape_int("1")))))),
                Block("layer", Attr("name", shape_str("l1")), Attr("type", shape_enum("line")), Block("feature", Pairs("points", [(shape_int("1"), shape_int("2"))]), Pairs("points", [(shape_int("3"), shape_int("4")), (shape_int("5"), shape_int("6"))])),
                      Block("cluster", Attr("maxdistance", shape_int("5"))), Block("scaletoken", Attr("name", shape_str("n")), KVB("values", [(str_("0"), str_("b"))]))),
                Block("layer", Attr("type", shape_enum("raster"))))
    edits = [
        (("angle",), "zz"), (("size",), [10.5, 20]), (("web", "zzz"), 1), (("web", "template"), [1, 2]), (("legend", "keysize"), [1, 10]), (("legend", "labels", 0, "color"), [1, 2, 300]),
        (("layers", 0, "type"), DELETE), (("layers", 1, "type"), "pointx"), (("layers", 2, "zzz"), "x"), (("layers", 0, "processing"), ["a", 5]), (("layers", 0, "classes", 0, "styles", 1, "width"), [1, 2]),
        (("layers", 0, "classes", 0, "styles", 0, "colour"), "red"), (("layers", 0, "classes", 0, "styles", 1, "pattern"), [["a", 1]]), (("layers", 0, "classes", 1, "labels", 0, "styles", 0, "opacity"), 101),
        (("layers", 0, "classes", 1, "labels", 0, "size"), [5, 6]), (("layers", 1, "features", 0, "points"), [["x", 1]]), (("layers", 1, "cluster", "maxdistance"), "far"), (("layers", 1, "cluster", "foo"), 1),
        (("layers", 0, "classes", 1, "zzz"), 1), (("extent",), [1, 2, 3]), (("imagecolor",), [0, 0, 256]), (("status",), "onn"), (("name",), 5), (("layers", 0, "metadata"), "x"), (("layers",), "x"), (("legend", "labels"), [{"__type__": "label"}, {"__type__": "label"}]),
        (("web",), "x"), (("layers", 1, "scaletokens", 0, "zz"), 1), (("layers", 0, "classes", 0, "styles"), 7), (("__foo__",), 1), (("layers", 0, "__comments__"), {"a": 1}), (("layers", 0, "classes", 0, "__bar__"), [1]),
    ]
    return big, edits


def edit_ob(big, chosen, label, **mode):
    S = DD.vocab().S

    def run(it, inp):
        it.stage = "load"
        d = load(it, render(big, Opts()), include_position=mode.get("pos", False))
        for path, v in chosen:
            o = at(d, path[:-1])
            if v is DELETE:
                o.d.pop(path[-1], None)
            else:
                o.d[path[-1]] = pyval(it, v)
        py = to_py(d)
        if mode.get("up"):
            d = upper(it, d)
        it.stage = "validate"
        return py, val(it, d)

    what = ", ".join("%s=%r" % ("/".join(map(str, p)), v if v is not DELETE else "(absent)") for p, v in chosen) or "no edit"

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad("raises", what, "%s raised %s%s after %s (%s)" % (it.stage, p.value.cls.name, show_exc(p), what, label))]
        py, m = p.value
        return verdict(what, "map", py, m, S, "%s (%s)" % (what, label))

    return Ob("%s (%s)" % (what, label), (), run, judge, max_paths=16)


def prefix(a, b):
    return a == b[: len(a)] or b == a[: len(b)]


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    V = DD.vocab()
    S = V.S
    obs = []
    n = 0
    for name, doc in DD.structure():
        obs.append(doc_ob(name, doc))
        if n % 4 == 0 or thorough:
            obs.append(doc_ob(name + ", other letter case", doc, up=True))
        n += 1
    for t, k, i, nd, m, s in DD.slot_list(abstract=False, rich=thorough):
        where = "%s.%s/%s" % (t.upper(), k.upper(), s.name)
        obs.append(doc_ob(where, DD.slot_doc(t, k, s, "middle"), up=n % 4 == 0))
        n += 1
    chk.add(obs, "documents")
    obs = []
    ctx = contexts()
    for t in S.blocks():
        for k, node in S.slots(t):
            ps = pool(S, node)
            ok = [v for v in ps if S.valid(node, lower_json(v))]
            bad = [v for v in ps if not S.valid(node, lower_json(v))]
            if S.child_ref(node) and S.child_ref(node)[1] in S.files:
                bad = [v for v in bad if not isinstance(v, dict)]
            obs.append(setting_ob(t, k, base(t), [], ps + [DELETE], t))
            deep = [(r, p) for r, p in ctx.get(t, []) if p]
            for j, (r, p) in enumerate(deep):
                if thorough:
                    vs = ok[:4] + bad
                else:
                    h = n + j
                    vs = ([ok[h % len(ok)]] if ok else []) + [b for q, b in enumerate(bad) if q % max(1, len(bad) // 3) == h % max(1, len(bad) // 3)][:3] + [b for b in bad if isinstance(b, list)][h % 3: h % 3 + 1]
                obs.append(setting_ob(t, k, r, p, vs, "/".join(map(str, [r.type] + p))))
            n += 1
        for r, p in ctx.get(t, []):
            for k, v in (("zzz", 1), ("nam", "x"), ("__zzz__", 3)):
                obs.append(setting_ob(t, k, r, p, [v], "/".join(map(str, [r.type] + p))))
            for k in S.files[t].get("required", ()):
                obs.append(setting_ob(t, k, r, p, [DELETE, "zz", "point", "POINT"], "/".join(map(str, [r.type] + p))))
    chk.cov["contexts"] = sum(len(v) for v in ctx.values())
    chk.add(obs, "single fault")
    big, edits = scenarios()
    obs = [edit_ob(big, [], "plain"), edit_ob(big, [], "positions", pos=True), edit_ob(big, [], "other letter case", up=True)]
    for i, e in enumerate(edits):
        obs.append(edit_ob(big, [e], "plain"))
        obs.append(edit_ob(big, [e], "positions", pos=True))
        obs.append(edit_ob(big, [e], "other letter case", up=True))
        for f in edits[i + 1:]:
            if not prefix(e[0], f[0]):
                obs.append(edit_ob(big, [e, f], "plain" if (i + len(f[0])) % 2 else "positions", pos=not (i + len(f[0])) % 2))
    chk.add(obs, "double fault")
    chk.add(list_obs(), "lists of roots")
    chk.assumptions.append("jsonschema's evaluation of a schema on concrete data is executed as a model of that library; the expected verdict is computed by an independent Draft 4 evaluator over the same schema files")
    return ("Every (block type, keyword) is set to every member of a pool of conforming and non-conforming values, at the root and in every chain of parents, together with unknown, hidden and missing keywords and pairs of faults at different depths; "
            "the interpreted validate is compared with an independent evaluation of the schema files that also locates every violation.")


def list_obs():
    S = DD.vocab().S
    out = []
    docs = [base("map"), base("layer"), base("class"), base("style"), base("web"), KVB("metadata", [(str_("a"), str_("b"))]), base("grid"), base("symbol"), Block("symbolset", base("symbol"))]
    for i, a in enumerate(docs):
        for b in docs[:4]:
            for bad in ((), (0,), (1,), (0, 1)):
                def run(it, inp, a=a, b=b, bad=bad):
                    it.stage = "load"
                    ds = [load(it, render(x, Opts())) for x in (a, b)]
                    for j in bad:
                        ds[j].d["zzz"] = 1
                    it.stage = "validate"
                    both = val(it, ListV(list(ds)))
                    one = [val(it, x) for x in ds]
                    return [to_py(x) for x in ds], both, one

                def judge(it, inp, p, a=a, b=b, bad=bad):
                    what = "validate([%s, %s])" % tuple(getattr(x, "type", getattr(x, "kind", "")) for x in (a, b))
                    if p.kind == "raise":
                        return [Bad("raises", what, "%s raised %s%s" % (what, p.value.cls.name, show_exc(p)))]
                    py, both, one = p.value
                    r = []
                    if [show(x) for x in both.items] != [show(x) for o in one for x in o.items]:
                        r.append(Bad("list", what, "%s is %s, one by one %s" % (what, texts(both), [texts(o) for o in one])))
                    for x, o in zip(py, one):
                        r += verdict(what, x["__type__"], x, o, S, what)
                    return r

                out.append(Ob("list of %s, %s, faults %s" % (getattr(a, "type", "metadata"), b.type, bad), (), run, judge, max_paths=16))
    return out
