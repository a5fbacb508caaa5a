"""C03: the printed text says exactly what the dictionary says."""
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from ..reader import printed, read
from .c02 import DocIn, load, show_exc


def dumps(it, d, **kw):
    if isinstance(d, DictV) and d.cls is None or isinstance(d, ListV):
        d = concretise(it, d)
    return it.call(it.import_module("mappyfile").ns["dumps"], [d], kw)


def judge_text(rule, construct, lex, same_quote=None):
    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad(rule, construct, "printing raises %s%s" % (p.value.cls.name, show_exc(p)))]
        lx = lex(inp) if callable(lex) else lex
        r, msg = read(it, p.value, lx, same_quote)
        if r is True:
            return []
        return [Bad(rule, construct, msg + "; text: " + show(p.value)[:260], r is False)]

    return judge


def ob(name, doc, rule, construct, o=None, kw=None, hidden=False):
    o = o or Opts()

    def run(it, inp):
        d = expected(inp.doc, o)
        if hidden:
            for x in blocks(d):
                x.d["__position__"] = mkdict([("__line__", 1), ("name", 7)])
                x.d["__note__"] = "hidden note"
                x.d["____"] = "hidden"
        return dumps(it, d, **(kw or {}))

    return Ob(name, DocIn(doc, o), run, judge_text(rule, construct, lambda inp: printed(inp.doc), (kw or {}).get("quote", '"')), max_paths=256)


def ob_loaded(name, doc, rule, construct, o=None):
    o = o or Opts()

    def run(it, inp):
        return dumps(it, load(it, tuple(inp)[1]))

    return Ob(name, DocIn(doc, o), run, judge_text(rule, construct, lambda inp: printed(inp.doc), '"'), max_paths=256)


def blocks(d):
    out = []
    if isinstance(d, DictV):
        if "__type__" in d.d or not d.d or True:
            out.append(d)
        for v in list(d.d.values()):
            out += blocks(v)
    elif isinstance(d, ListV):
        for v in d.items:
            out += blocks(v)
    return out


def refused(rule, construct):
    def judge(it, inp, p):
        if p.kind == "raise":
            return []
        return [Bad(rule, construct, "no error; text written: %s" % show(p.value)[:200])]

    return judge


def refusal_obs():
    """values without a Mapfile representation, under every keyword of every block type"""
    V = DD.vocab()
    out = []
    for t in V.S.blocks():
        for k, node in V.S.slots(t):
            if k in KV or k in ("config", "values", "metadata"):
                continue
            where = "%s.%s" % (t.upper(), k.upper())
            for label, mk in (("empty dict", lambda: mkdict([])), ("None", lambda: None), ("untyped dict", lambda: mkdict([("a", "b")]))):
                def run(it, inp, t=t, k=k, mk=mk):
                    return dumps(it, mkdict([("__type__", t), (k, mk())]))

                out.append(Ob("%s = %s" % (where, label), (), run, refused("refused", "%s/%s" % (where, label))))
            fs = DD.first_simple(t, skip=(k,))

            def run2(it, inp, t=t, k=k):
                ns = it.import_module("mappyfile").ns
                d = load(it, "%s END" % t.upper())
                it.getitem(d, k)
                return (d.d.get(k), dumps(it, d))

            def judge2(it, inp, p, where=where):
                if p.kind == "raise":
                    return []
                v, text = p.value
                if isinstance(v, ListV) and not v.items:
                    return []  # an empty list of objects prints nothing
                return [Bad("refused", where + "/read of a missing key", "no error after reading a missing key; text written: %s" % show(text)[:200])]

            out.append(Ob("%s read while missing" % where, (), run2, judge2))
    for kind in KV:
        for label, mk in (("empty dict", lambda: mkdict([])), ("None", lambda: None)):
            def run(it, inp, kind=kind, mk=mk):
                return dumps(it, mkdict([("__type__", kind), ("a", mk())]))

            out.append(Ob("%s entry = %s" % (kind, label), (), run, refused("refused", "%s entry/%s" % (kind.upper(), label))))
    for label, mk in (("empty dict", lambda: mkdict([])), ("None", lambda: None)):
        out.append(Ob("config entry = %s" % label, (), lambda it, inp, mk=mk: dumps(it, mkdict([("__type__", "map"), ("config", mkdict([("a", mk())]))])), refused("refused", "CONFIG entry/%s" % label)))
        for k in REPEATED:
            t = {"processing": "layer", "formatoption": "outputformat", "include": "map", "compfilter": "composite"}[k]
            out.append(Ob("%s item = %s" % (k, label), (), lambda it, inp, t=t, k=k, mk=mk: dumps(it, mkdict([("__type__", t), (k, ListV(["a", mk()]))])), refused("refused", "%s item/%s" % (k.upper(), label))))
    return out


EDITS = r'''
import mappyfile
from mappyfile import loads, dumps, update, find, findall, create

BASE = """
MAP
  NAME "base"
  EXTENT 0 0 10 10
  CONFIG "PROJ_LIB" "/p"
  PROJECTION "init=epsg:4326" END
  WEB METADATA "wms_title" "t" "ows_srs" "EPSG:4326" END END
  LAYER NAME "l1" TYPE POINT STATUS ON
    PROCESSING "BANDS=1"
    CLASS NAME "c1" STYLE COLOR 0 0 0 END END
    CLASS NAME "c2" END
  END
  LAYER NAME "l2" TYPE LINE DATA "d2" END
END
"""

def base():
    return loads(BASE)

def set_value(x):
    d = base()
    d["name"] = x
    return dumps(d)

def set_upper(x):
    d = base()
    d["NAME"] = x
    d["Angle"] = 45
    return dumps(d)

def delete(x):
    d = base()
    del d["extent"]
    d["layers"][0].pop("STATUS")
    d["name"] = x
    return dumps(d)

def insert_layer(x):
    d = base()
    d["layers"].insert(0, loads("LAYER NAME 'new' TYPE POLYGON END"))
    d["layers"][0]["data"] = x
    return dumps(d)

def append_plain(x):
    d = base()
    d["layers"].append({"__type__": "layer", "name": x, "type": "raster", "classes": [{"__type__": "class", "name": "k"}]})
    return dumps(d)

def remove_layer(x):
    d = base()
    d["layers"].pop(0)
    d["layers"][0]["name"] = x
    return dumps(d)

def reorder(x):
    d = base()
    d["layers"].reverse()
    d["layers"][1]["classes"] = list(reversed(d["layers"][1]["classes"]))
    d["name"] = x
    return dumps(d)

def do_update(x):
    d = base()
    update(d, {"name": x, "layers": [{"name": "first"}, {"data": "q", "__delete__": False}], "web": {"metadata": {"wms_title": "new", "k2": "v2"}}})
    return dumps(d)

def do_update_delete(x):
    d = base()
    update(d, {"extent": "__delete__", "layers": [{"__delete__": True}, {"name": x}]})
    return dumps(d)

def assign_snippet(x):
    d = base()
    d["layers"][0]["classes"][0]["styles"] = loads("STYLE WIDTH 2 END STYLE SYMBOL 'circle' END")
    d["layers"][1]["metadata"] = loads("METADATA 'gml_include_items' 'all' END")
    d["legend"] = loads("LEGEND LABEL SIZE 8 END END")
    d["name"] = x
    return dumps(d)

def metadata_edit(x):
    d = base()
    d["web"]["metadata"]["WMS_Title"] = x
    d["web"]["metadata"]["added"] = "1"
    del d["web"]["metadata"]["ows_srs"]
    d["config"]["ms_errorfile"] = "stderr"
    return dumps(d)

def children_of_missing(x):
    d = loads("MAP NAME 'm' END")
    d["layers"].append(loads("LAYER NAME 'a' END"))
    d["layers"][0]["classes"].append({"__type__": "class", "name": x})
    d["layers"][0]["metadata"]["k"] = "v"
    d["layers"][0]["metadata"]["__type__"] = "metadata"
    return dumps(d)

def projection_string(x):
    d = base()
    d["projection"] = "epsg:" + x
    d["layers"][0]["projection"] = ["AUTO"]
    return dumps(d)

def replace_lists(x):
    d = base()
    d["extent"] = [-1.5, 2, 3, 4]
    d["layers"][0]["processing"] = ["BANDS=2", x]
    d["layers"][0]["processing"].append("SCALE=AUTO")
    d["layers"][0]["classes"][0]["styles"][0]["color"] = "#ff0000"
    d["layers"][0]["classes"][1]["expression"] = "([a] > 5)"
    return dumps(d)

def copied(x):
    import copy
    d = base()
    e = copy.deepcopy(d)
    e["name"] = x
    e["layers"][0]["name"] = "copied"
    return dumps(e)

def findone(x):
    d = base()
    lyr = find(d["layers"], "name", "l2")
    lyr["type"] = "polygon"
    lyr["group"] = x
    return dumps(d)

def bools(x):
    d = base()
    d["layers"][0]["template"] = x
    d["layers"][0]["opacity"] = 50
    d["layers"][0]["transform"] = False
    d["layers"][0]["labelcache"] = "off"
    d["layers"][0]["debug"] = 5
    d["web"]["metadata"]["n"] = 7
    return dumps(d)

def lists_of_maps(x):
    a = loads("LAYER NAME 'a' END")
    b = loads("CLASS NAME 'b' END")
    b["name"] = x
    return dumps([a, b])
'''


def W(w):
    return ("word", w)


def kw(k, *vals):
    return [W(k)] + list(vals)


def Q(v):
    return ("str", v)


def N(v):
    return ("num", v)


def E(v):
    return ("enum", v)


def blk(t, *items):
    return [W(t)] + [x for i in items for x in i] + [W("end")]


def base_lex(name=None, extent=True, l1=None, l2=None, layers=None, web=None, config=None, proj=None, tail=()):
    l1 = l1 if l1 is not None else L1()
    l2 = l2 if l2 is not None else L2()
    return blk("map", kw("name", Q(name)), kw("extent", N(0), N(0), N(10), N(10)) if extent is True else extent or [],
               config or kw("config", Q("PROJ_LIB"), Q("/p")), proj or blk("projection", [Q("init=epsg:4326")]),
               web or blk("web", blk("metadata", [Q("wms_title"), Q("t")], [Q("ows_srs"), Q("EPSG:4326")])), *(layers if layers is not None else [l1, l2]), *tail)


def L1(name="l1", status=True, classes=None, proc=None, tail=()):
    return blk("layer", kw("name", Q(name)), kw("type", E("POINT")), kw("status", E("ON")) if status else [], proc or kw("processing", Q("BANDS=1")),
               *(classes if classes is not None else [C1(), C2()]), *tail)


def C1(style=None):
    return blk("class", kw("name", Q("c1")), style or blk("style", kw("color", N(0), N(0), N(0))))


def C2(*more):
    return blk("class", kw("name", Q("c2")), *more)


def L2(name="l2", data=Q("d2"), tail=()):
    return blk("layer", kw("name", Q(name)), kw("type", E("LINE")), kw("data", data), *tail)


def edit_obs():
    x = text_body("x")
    cases = {
        "set_value": base_lex(x),
        "set_upper": base_lex(x, tail=[kw("angle", N(45))]),
        "delete": base_lex(x, extent=False, l1=L1(status=False)),
        "insert_layer": base_lex("base", layers=[blk("layer", kw("name", Q("new")), kw("type", E("POLYGON")), kw("data", Q(x))), L1(), L2()]),
        "append_plain": base_lex("base", layers=[L1(), L2(), blk("layer", kw("name", Q(x)), kw("type", E("RASTER")), blk("class", kw("name", Q("k"))))]),
        "remove_layer": base_lex("base", layers=[L2(x)]),
        "reorder": base_lex(x, layers=[L2(), L1(classes=[C2(), C1()])]),
        "do_update": base_lex(x, l1=L1("first"), l2=L2(data=Q("q")), web=blk("web", blk("metadata", [Q("wms_title"), Q("new")], [Q("ows_srs"), Q("EPSG:4326")], [Q("k2"), Q("v2")]))),
        "do_update_delete": base_lex("base", extent=False, layers=[L2(x)]),
        "assign_snippet": base_lex(x, l1=L1(classes=[C1(blk("style", kw("width", N(2))) + blk("style", kw("symbol", Q("circle")))), C2()]), l2=L2(tail=[blk("metadata", [Q("gml_include_items"), Q("all")])]), tail=[blk("legend", blk("label", kw("size", N(8))))]),
        "metadata_edit": base_lex("base", web=blk("web", blk("metadata", [Q("wms_title"), Q(x)], [Q("added"), Q("1")])), config=kw("config", ("strci", "PROJ_LIB"), Q("/p")) + kw("config", ("strci", "ms_errorfile"), Q("stderr"))),
        "children_of_missing": blk("map", kw("name", Q("m")), blk("layer", kw("name", Q("a")), blk("class", kw("name", Q(x))), blk("metadata", [Q("k"), Q("v")]))),
        "projection_string": base_lex("base", proj=blk("projection", [Q(cat("epsg:", x))]), l1=L1(tail=[blk("projection", [E("AUTO")])])),
        "replace_lists": base_lex("base", extent=kw("extent", N(-1.5), N(2), N(3), N(4)), l1=L1(proc=kw("processing", Q("BANDS=2")) + kw("processing", Q(x)) + kw("processing", Q("SCALE=AUTO")), classes=[C1(blk("style", kw("color", Q("#ff0000")))), C2(kw("expression", ("bare", "([a] > 5)")))])),
        "copied": base_lex(x, l1=L1("copied")),
        "findone": base_lex("base", l2=blk("layer", kw("name", Q("l2")), kw("type", E("POLYGON")), kw("data", Q("d2")), kw("group", Q(x)))),
        "bools": base_lex("base", l1=L1(tail=[kw("template", Q(x)), kw("opacity", N(50)), kw("transform", E("FALSE")), kw("labelcache", E("OFF")), kw("debug", N(5))]), web=blk("web", blk("metadata", [Q("wms_title"), Q("t")], [Q("ows_srs"), Q("EPSG:4326")], [Q("n"), Q("7")]))),
        "lists_of_maps": blk("layer", kw("name", Q("a"))) + blk("class", kw("name", Q(x))),
    }
    out = []
    for name, lex in cases.items():
        def run(it, inp, name=name):
            return it.call(it.load_source("edits_scenario", EDITS).ns[name], [inp[0]], {})

        def judge(it, inp, p, name=name, lex=lex):
            m = inp[0]
            lx = [(k, m if v is x else subst(v, {a: b for a, b in zip([q.name for q in x.parts], [])}) if False else v) for k, v in lex]
            if isinstance(m, str):
                lx = [(k, swap(v, x, m)) for k, v in lex]
            return judge_text("edit", name, lx, '"')(it, inp, p)

        out.append(Ob("edit: " + name, (x,), run, judge))
    return out


def swap(v, x, m):
    if isinstance(v, AStr):
        if v == x:
            return m
        if v == cat("epsg:", x):
            return "epsg:" + m
    return v


def run(chk):
    thorough = chk.tier == "thorough"
    obs = []
    for t, k, i, n, m, s in DD.slot_list(abstract=True, rich=True):
        where = "%s.%s/%s" % (t.upper(), k.upper(), s.name)
        doc = DD.slot_doc(t, k, s, "middle")
        obs.append(ob(where, doc, "keyword", where))
        if thorough:
            obs.append(ob(where + " (lower-case words, single quotes)", doc, "keyword", where, Opts(case="lower"), {"quote": "'"}))
            obs.append(ob(where + " (hidden keys)", doc, "keyword", where, hidden=True))
            obs.append(ob_loaded(where + " (loaded)", doc, "keyword", where))
    chk.add(obs, "keyword value")
    obs = []
    for name, doc in DD.structure():
        obs.append(ob(name, doc, "structure", name))
        obs.append(ob(name + " (hidden keys)", doc, "hidden keys", name, hidden=True))
        obs.append(ob_loaded(name + " (loaded)", doc, "structure", name))
        if thorough:
            obs.append(ob(name + " (single quotes)", doc, "structure", name, Opts(case="lower"), {"quote": "'"}))
    chk.add(obs, "structure")
    chk.add(refusal_obs(), "refused values")
    chk.add(edit_obs(), "edited dictionaries")
    return ("Dictionaries for every (block type, keyword, value shape), for every structural family, for dictionaries edited through the API and for values with no Mapfile representation "
            "are pushed through dumps by abstract interpretation; the abstract text is read by an independent reader that demands exactly the dictionary's lexemes, in order, each in its lexical class.")
