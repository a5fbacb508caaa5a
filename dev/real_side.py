"""Ad-hoc validation of the analyser's library models: run the real library (never used by the checks)."""
import sys, json, io, re, ast, os, logging, warnings
logging.disable(logging.CRITICAL)
sys.path.insert(0, "/repo")
import mappyfile
texts = json.load(open(sys.argv[1]))
def plain(v):
    if isinstance(v, dict): return {"__cls__": type(v).__name__, "items": [[k, plain(x)] for k, x in v.items()]}
    if isinstance(v, (list,)): return [plain(x) for x in v]
    if isinstance(v, tuple): return {"t": [plain(x) for x in v]}
    return v
out = []
for t in texts:
    r = {}
    for key, kw in (("plain", {}), ("pos", {"include_position": True}), ("com", {"include_comments": True}), ("both", {"include_position": True, "include_comments": True})):
        try:
            d = mappyfile.loads(t, expand_includes=False, **kw)
            r[key] = plain(d)
            if key in ("plain", "com"):
                for oi, o in enumerate(({}, {"indent": 2, "quote": "'", "end_comment": True, "align_values": True, "newlinechar": "\r\n"}, {"separate_complex_types": True, "spacer": "\t", "indent": 1})):
                    try: r[key + "_dump%d" % oi] = mappyfile.dumps(d, **o)
                    except Exception as e: r[key + "_dump%d" % oi] = "EXC " + type(e).__name__
        except Exception as e:
            r[key] = "EXC " + type(e).__name__ + ("" if not hasattr(e, "line") else " %s %s" % (getattr(e,"line",None), getattr(e,"column",None)))
    out.append(r)
json.dump(out, open(sys.argv[2], "w"))
