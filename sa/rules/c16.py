"""C16: the layout contract of the printer."""
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from .. import optsets as OS
from ..layout import lines_of, match
from .c02 import DocIn, load, show_exc
from .c01 import dump
from .c03 import dumps


def judge_for(rule, construct, o, sep):
    def judge(it, inp, p):
        if p.kind == "raise":
            if it.stage == 0:
                return []
            return [Bad(rule, construct, "printing with %s raises %s%s" % (OS.name(o), p.value.cls.name, show_exc(p)))]
        res = None
        for s in (True, False) if sep else (False,):
            r, what, msg = match(it, p.value, lines_of(inp.doc, 0, s), o)
            if r is True:
                return []
            if res is None:
                res = (r, what, msg)
        r, what, msg = res
        return [Bad(rule, "%s (%s)" % (construct, what), "%s: %s; text: %s" % (OS.name(o), msg, show(p.value)[:260]), r is False)]

    return judge


def ob(name, doc, construct, o, rule="layout"):
    def run(it, inp):
        if o["separate_complex_types"]:  # the printer reorders the dictionary in place: ordered dictionaries as loads builds them
            it.stage = 0
            d = load(it, tuple(inp)[1])
            it.stage = 1
            return dump(it, d, **o)
        it.stage = 1
        return dumps(it, expected(inp.doc, Opts()), **o)

    return Ob("%s [%s]" % (name, OS.name(o)), DocIn(doc, Opts()), run, judge_for(rule, construct, o, o["separate_complex_types"]), max_paths=256)


def deep_docs():
    """documents that hold every kind of line at several depths"""
    q = lambda: str_(text_body())
    n = lambda k=0: [shape_int(), shape_float("2.5"), shape_float("-40.5"), shape_float("-0.25")][k % 4]
    inner = Block("label", Attr("size", n()), Block("style", Attr("width", n()), Pairs("pattern", [(n(), n()), (n(1), n())]), Attr("color", tuple_shape([shape_int(), shape_int(), shape_int()], "rgb"))), Attr("text", shape_str()))
    cls = Block("class", Attr("name", shape_str()), inner, Block("style", Attr("outlinewidth", n(1)), Attr("symbol", shape_str())), Attr("expression", shape_expr()), KVB("validation", [(str_("q"), q())]), Block("leader", Attr("gridstep", n()), Block("style", Attr("width", n()))))
    layer = Block("layer", Attr("name", shape_str()), Block("feature", Pairs("points", [(n(), n()), (n(2), n())]), Attr("text", shape_str()), Pairs("points", [(n(), n(1))])), Attr("type", shape_enum("point")), Attr("processing", shape_str()), KVB("metadata", [(str_("wms_title"), q()), (str_("k"), q())]),
                  Attr("processing", shape_str()), cls, Proj([q(), q()]), Attr("maxscaledenom", n(1)), Block("composite", Attr("opacity", n()), Attr("compfilter", shape_str()), Attr("compfilter", shape_str())), KVB("connectionoptions", [(str_("q"), q())]), Block("scaletoken", Attr("name", shape_str()), KVB("values", [(str_("0"), q())])), Attr("status", shape_enum("on")))
    whole = Block("map", Attr("name", shape_str()), Config(str_("PROJ_LIB"), q()), Block("web", Attr("imagepath", shape_str()), KVB("metadata", [])), Attr("include", shape_str()), Proj(None), layer, Attr("extent", tuple_shape([n(), n(1), n(2), n(3)], "extent")), Block("legend", Block("label", Attr("font", shape_str()))),
                  Block("layer"), Attr("defresolution", n()), Block("symbol", Attr("name", shape_str()), Pairs("points", [(n(), n())]), Attr("type", shape_enum("ellipse"))), Block("querymap", Attr("style", shape_enum("normal")), Attr("size", tuple_shape([n(), n()], "size"))), Config(str_("ON_MISSING_DATA"), q()), Attr("angle", n()))
    return [("every kind of line", whole), ("root class", cls), ("root layer and class", [layer, Block("class", Attr("template", shape_str())), KVB("metadata", [(str_("q"), q())])]), ("root key-value block", KVB("validation", [(str_("q"), q()), (str_("longer_key"), q())])),
            ("root style", Block("style", Attr("symbol", shape_str()), Attr("width", n()), Pairs("pattern", [(n(), n())]), Attr("maxscaledenom", n()))), ("keyword lengths", Block("label", Attr("size", n()), Attr("shadowcolor", tuple_shape([shape_int(), shape_int(), shape_int()], "rgb")), Attr("maxoverlapangle", n()))),
            ("symbolset", Block("symbolset", Block("symbol", Attr("name", shape_str()), Pairs("points", [(n(), n())]))))]


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    obs = []
    opts = list(OS.all_options())
    for name, doc in deep_docs():
        os_ = opts if thorough else OS.spread(len(opts) // 2 if name == "every kind of line" else len(opts) // 8, len(name))
        for o in os_:
            obs.append(ob(name, doc, name, o))
    chk.add(obs, "every option set")
    obs = []
    k = 0
    for name, doc in DD.structure():
        for o in OS.spread(12 if thorough else 3, k * 3):
            obs.append(ob(name, doc, name, o))
        k += 1
    chk.add(obs, "structure")
    obs = []
    for t, kk, i, n, m, s in DD.slot_list(abstract=True, rich=True):
        where = "%s.%s/%s" % (t.upper(), kk.upper(), s.name)
        for o in OS.spread(4 if thorough else 1, k):
            obs.append(ob(where, DD.slot_doc(t, kk, s, "middle"), where, o))
        k += 1
    chk.add(obs, "keyword value")
    chk.cov["option_sets"] = len(opts)
    return ("The abstract text printed for documents with unknown leaves is matched line by line against an independently written layout (indentation, line breaks, opener/END pairing, END comments, value columns): "
            "representative documents under every option set, every structural family and every keyword value under option sets that walk through the whole space.")
