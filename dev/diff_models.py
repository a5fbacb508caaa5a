"""Compare the analyser (concrete inputs) with the real library, to validate the library models."""
import sys, json, multiprocessing
sys.path.insert(0, "/verif")
from sa.interp import *
P = Project("/repo", "mappyfile")
def plain(v):
    if isinstance(v, DictV): return {"__cls__": v.cls.name, "items": [[k, plain(x)] for k, x in v.d.items()]}
    if isinstance(v, ListV): return [plain(x) for x in v.items]
    if isinstance(v, tuple): return {"t": [plain(x) for x in v]}
    if isinstance(v, ObjV) and v.data and "strval" in v.data: return v.data["strval"]
    if isinstance(v, (str, int, float, bool, type(None))): return v
    return repr(v)
def one(t):
    r = {}
    for key, kw in (("plain", {}), ("pos", {"include_position": True}), ("com", {"include_comments": True}), ("both", {"include_position": True, "include_comments": True})):
        def f(it):
            m = it.import_module("mappyfile").ns
            d = it.call(m["loads"], [t], dict(expand_includes=False, **kw))
            res = {key: plain(d)}
            if key in ("plain", "com"):
                for oi, o in enumerate(({}, {"indent": 2, "quote": "'", "end_comment": True, "align_values": True, "newlinechar": "\r\n"}, {"separate_complex_types": True, "spacer": "\t", "indent": 1})):
                    try: res[key + "_dump%d" % oi] = it.call(m["dumps"], [d], dict(o))
                    except PyRaise as e: res[key + "_dump%d" % oi] = "EXC " + e.exc.cls.name
            return res
        ps, c = explore(P, f)
        p = ps[0]
        if len(ps) > 1: r["paths"] = [x.trace for x in ps]
        if p.taint: r.setdefault("taint", []).extend(p.taint)
        if p.kind == "value": r.update(p.value)
        elif p.kind == "raise":
            e = p.value
            r[key] = "EXC " + e.cls.name + ("" if "line" not in e.attrs else " %s %s" % (e.attrs["line"], e.attrs["column"]))
        else: r[key] = "UNSUPPORTED " + str(p.value)
    return r
if __name__ == "__main__":
    texts = json.load(open(sys.argv[1])); real = json.load(open(sys.argv[2]))
    with multiprocessing.Pool(8) as pool: mine = pool.map(one, texts, 4)
    bad = 0
    for t, a, b in zip(texts, real, mine):
        b = json.loads(json.dumps(b))
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                bad += 1
                if bad < int(sys.argv[3]) if len(sys.argv) > 3 else 8:
                    print("-----", k, repr(t[:300])); print("  real", json.dumps(a.get(k))[:700]); print("  mine", json.dumps(b.get(k))[:700])
    print(len(texts), "texts;", bad, "differences")
