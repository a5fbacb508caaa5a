"""validate the analyser against CPython on scenario snippets with concrete inputs (random operation sequences)"""
import sys, json, random, subprocess
sys.path.insert(0, "/verif")
GEN = r'''
import random, json, copy, pickle
from mappyfile.ordereddict import CaseInsensitiveOrderedDict, DefaultOrderedDict
from mappyfile import dictutils as U
import mappyfile
def j(v):
    if isinstance(v, dict): return [type(v).__name__, repr(getattr(v, "default_factory", 0))[:20] if 0 else 0, [[k, j(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)): return [type(v).__name__] + [j(x) for x in v]
    return v
def step(d, op, k, k2, v):
    if op == 0: return d[k]
    if op == 1: d[k] = v; return None
    if op == 2: del d[k]; return None
    if op == 3: return k in d
    if op == 4: return d.get(k, v)
    if op == 5: return d.pop(k, v)
    if op == 6: return d.pop(k)
    if op == 7: return d.setdefault(k, v)
    if op == 8: return d.update({k: v, k2: 1})
    if op == 9: return d.update([(k, v), (k2, 3)], Zed=4)
    if op == 10: return d.copy()
    if op == 11: return copy.deepcopy(d)
    if op == 12: return pickle.loads(pickle.dumps(d))
    if op == 13: return sorted(d.items(), key=str)
    if op == 14: return U.update(d, {k: v, k2: {"a": 1}})
    if op == 15: return U.update(d, {k: "__delete__"}, True)
    if op == 16: return U.update(d, {k: [None, {"x": 1}], k2: {"__delete__": True}}, False)
    if op == 17: d.move_to_end(k); return list(d)
    if op == 18: return d == copy.copy(d)
    if op == 19: return repr(d)
    if op == 20: return json.dumps(d, indent=2)
    if op == 21: return list(reversed(d))
    if op == 22: return d.popitem()
    if op == 23: return {**d}
    if op == 24: return mappyfile.find([d, {"name": v, k.lower(): v}], k, v)
    if op == 25: return mappyfile.findall([d, {"name": v, k.lower(): v}], k, v)
    if op == 26: return mappyfile.findunique([d, {"name": "q", k.lower(): "z"}], k)
    if op == 27: return mappyfile.findkey(d, k)
def run(ops, kind):
    d = CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict) if kind == 0 else CaseInsensitiveOrderedDict() if kind == 1 else DefaultOrderedDict(DefaultOrderedDict) if kind == 2 else mappyfile.loads("LAYER NAME 'A' CLASS NAME 'b' END END")
    out = []
    for op, k, k2, v in ops:
        try:
            out.append(j(step(d, op, k, k2, v)))
        except Exception as ex:
            out.append("EXC " + type(ex).__name__)
        out.append(j(d))
    return out
'''
R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
K = ["a", "B", "b", "Layers", "NAME", "classes", "z"]
V = [1, "x", None, {"q": 1}, [], [1, {"w": 2}], [{"n": 1}, None], True, "roads", 2.5, {"__delete__": True}, ""]
seqs = [([(R.randrange(28), R.choice(K), R.choice(K), R.choice(V)) for _ in range(10)], R.randrange(4)) for _ in range(int(sys.argv[2]) if len(sys.argv) > 2 else 300)]
json.dump(seqs, open("/tmp/w/seqs.json", "w"))
open("/tmp/w/real_snip.py", "w").write(GEN + '\nimport sys\nsys.path.insert(0,"/repo")\njson.dump([run(*x) for x in json.load(open("/tmp/w/seqs.json"))], open("/tmp/w/real_snip.json","w"))\n')
subprocess.run(["/opt/venv/bin/python", "/tmp/w/real_snip.py"], check=True, cwd="/repo")
real = json.load(open("/tmp/w/real_snip.json"))
from sa.interp import *
from sa.harness import *
P = Project("/repo", "mappyfile")
def conv(v):
    if isinstance(v, list): return ListV([conv(x) for x in v])
    if isinstance(v, dict):
        d = DictV(None); d.d = {k: conv(x) for k, x in v.items()}; return d
    return v
def un(v):
    if isinstance(v, ListV): return [un(x) for x in v.items]
    if isinstance(v, (str, int, float, type(None), bool)): return v
    return repr(v)
bad = 0
for s, r in zip(json.load(open("/tmp/w/seqs.json")), real):
    def f(it):
        B = it.builtins["dict"]
        def fix(v):
            if isinstance(v, DictV):
                v.cls = B
                for x in v.d.values(): fix(x)
            elif isinstance(v, ListV):
                for x in v.items: fix(x)
        a = conv(s[0]); fix(a)
        m = it.load_source("snip", GEN)
        return un(it.call(m.ns["run"], [a, s[1]]))
    ps, c = explore(P, f)
    p = ps[0]
    if len(ps) > 1 or p.taint or p.kind != "value" or p.value != r:
        bad += 1
        if bad < 6:
            print(p.kind, p.taint, p.kind == "unsupported" and (p.value, getattr(p, "tb", "")), len(ps), [t[0] for t in p.trace])
            if p.kind == "raise": print(p.value.cls.name, p.value.attrs, p.loc)
            if p.kind == "value":
                for i, (x, y) in enumerate(zip(r, p.value)):
                    if x != y: print(s[0][i // 2], s[1]); print("  real", x); print("  mine", y); break
print(len(seqs), "sequences", bad, "differences")
