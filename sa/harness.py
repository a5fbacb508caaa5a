"""Obligations: evaluate a piece of the program abstractly, judge the outcome, confirm alarms, collect the evidence."""
from __future__ import annotations
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
from .values import *
from .ops import OrdSym
from . import strings as S
from . import interp as I
from .interp import Interp, Path, Project

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGE = "mappyfile"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_project = None


def project():
    global _project
    if _project is None:
        _project = Project(REPO, PACKAGE)
    return _project


# ------------------------------------------------------------------ concretisation of abstract values
def atoms_of(v, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(v, AStr):
        for p in v.parts:
            if isinstance(p, Atom):
                n = p.name
                if isinstance(n, tuple) and n and n[0] == "strnum":
                    atoms_of(n[1], acc, seen)
                else:
                    acc.setdefault(n, p if not p.xf else Atom(n, p.cs, p.lo, p.hi, (), None, p.generic))
                    if not p.xf:
                        acc[n] = p
    elif isinstance(v, (Sym,)):
        acc.setdefault(v, v)
    elif isinstance(v, App):
        for a in v.args:
            atoms_of(a, acc, seen)
    elif isinstance(v, (tuple, list)):
        for a in v:
            atoms_of(a, acc, seen)
    elif isinstance(v, dict):
        for k, a in v.items():
            atoms_of(k, acc, seen)
            atoms_of(a, acc, seen)
    elif isinstance(v, (ListV, SetV)):
        if id(v) not in seen:
            seen.add(id(v))
            for a in v.items:
                atoms_of(a, acc, seen)
    elif isinstance(v, DictV):
        if id(v) not in seen:
            seen.add(id(v))
            for k, a in v.d.items():
                atoms_of(k, acc, seen)
                atoms_of(a, acc, seen)
    elif hasattr(v, "__abs_fields__"):
        for a in v.__abs_fields__():
            atoms_of(a, acc, seen)
    return acc


def subst(v, m):
    """replace atoms / symbols by concrete values"""
    if isinstance(v, AStr):
        out = []
        for p in v.parts:
            if isinstance(p, Atom):
                n = p.name
                if isinstance(n, tuple) and n and n[0] == "strnum":
                    x = subst(n[1], m)
                    s = str(x) if isinstance(x, (int, float)) else None
                    if s is None:
                        out.append(p)
                        continue
                elif n in m:
                    s = m[n]
                else:
                    out.append(p)
                    continue
                for f in p.xf:
                    if f in ("lower", "upper", "strip", "lstrip", "rstrip"):
                        s = getattr(s, f)()
                    else:
                        return v
                out.append(s)
            else:
                out.append(p)
        return mkstr(out)
    if isinstance(v, Sym):
        return m.get(v, v)
    if isinstance(v, App):
        a = tuple(subst(x, m) for x in v.args)
        if v.op in ("int", "float") and len(a) == 1 and isinstance(a[0], str):
            try:
                return int(a[0]) if v.op == "int" else float(a[0])
            except ValueError:
                return v
        return App(v.op, a, v.ty)
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    if isinstance(v, list):
        return [subst(x, m) for x in v]
    if isinstance(v, dict):
        return {subst(k, m): subst(x, m) for k, x in v.items()}
    if isinstance(v, ListV):
        return ListV([subst(x, m) for x in v.items], v.kind, v.cls)
    if isinstance(v, DictV):
        d = DictV(v.cls)
        d.d = {subst(k, m): subst(x, m) for k, x in v.d.items()}
        d.attrs = dict(v.attrs)
        return d
    if hasattr(v, "__abs_subst__"):
        return v.__abs_subst__(lambda x: subst(x, m))
    return v


SYMVALS = {"int": (7, -40, 0, 123, 305), "float": (2.5, -0.25, 1e-05, 1e16, 10.0), "num": (7, 2.5, -40, 0.5, 1e16), "bool": (True, False)}


def lits_of(trace, consts=()):
    out = set()

    def go(x):
        if isinstance(x, str):
            if 0 < len(x) <= 12:
                out.add(x)
        elif isinstance(x, AStr):
            for p in x.parts:
                if isinstance(p, str):
                    go(p)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)

    for t in trace:
        key = t[0]
        if isinstance(key, tuple):
            go(key[1:])
    return sorted(out, key=lambda s: (len(s), s))


def candidates(inputs, trace=(), limit=60):
    """concrete choices for the unknowns of the inputs"""
    atoms = atoms_of(inputs)
    names = list(atoms)
    strs = [n for n in names if isinstance(atoms[n], Atom)]
    syms = [n for n in names if isinstance(atoms[n], Sym)]
    base = []
    for k in range(3):
        m = {}
        for i, n in enumerate(strs):
            w = S.atom_witness(atoms[n], k + i)
            # different blocks get different texts, unless the block is too narrow
            if not atoms[n].wit and atoms[n].hi is None and len(w) >= 1:
                tag = "".join(c for c in "abcdefghijklmnoprstuy"[(i * 5) % 17:][:2] if c in atoms[n].cs)
                w = w + tag
            m[n] = w
        for i, n in enumerate(syms):
            vals = [n.rep] if isinstance(n, OrdSym) else (n.data if isinstance(n.data, tuple) else SYMVALS.get(n.ty, (7,)))
            m[n] = vals[(k + i) % len(vals)]
        base.append(m)
    out = list(base)
    for n in strs:
        a = atoms[n]
        if a.wit:
            for w in a.wit[1:6]:
                out.append(dict(base[0], **{n: w}) if isinstance(n, str) else {**base[0], n: w})
    lits = lits_of(trace)
    for lit in lits[:30]:
        for n in strs:
            a = atoms[n]
            if a.wit or not set(lit) <= a.cs:
                continue
            x = (S.atom_witness(a, 0) or "")[:1]
            for form in (lit, lit + x, x + lit, x + lit + x, lit + lit):
                if len(form) >= a.lo and (a.hi is None or len(form) <= a.hi):
                    out.append({**base[0], n: form})
            if len(out) > limit:
                return out[:limit]
    return out[:limit]


def concretise(it, v):
    """an expected value (built outside an interpreter) as a value of the analysed program: fresh plain dicts and lists"""
    if isinstance(v, DictV):
        return DictV(it.builtins["dict"], {concretise(it, k): concretise(it, x) for k, x in v.d.items()})
    if isinstance(v, ListV):
        return ListV([concretise(it, x) for x in v.items], v.kind, v.cls)
    if isinstance(v, tuple):
        return tuple(concretise(it, x) for x in v)
    return v


# ------------------------------------------------------------------ judging
def same(it, a, b):
    """True / False / None (undecided): do the two abstract values denote the same value (types included)?"""
    if a is b:
        return True
    if isinstance(a, Top) or isinstance(b, Top):
        return None
    if isinstance(a, ObjV) and isinstance(a.data, dict) and "strval" in a.data:
        return same(it, a.data["strval"], b)
    if isinstance(b, ObjV) and isinstance(b.data, dict) and "strval" in b.data:
        return same(it, a, b.data["strval"])
    if isinstance(a, DictV) and isinstance(b, DictV):
        ka, kb = list(a.d), list(b.d)
        if len(ka) != len(kb):
            return False
        r = True
        for x, y in zip(ka, kb):
            k = same(it, x, y)
            if k is False:
                return False
            v = same(it, a.d[x], b.d[y])
            if v is False:
                return False
            if k is None or v is None:
                r = None
        return r
    if isinstance(a, ListV) and isinstance(b, ListV) or isinstance(a, tuple) and isinstance(b, tuple):
        xs = a.items if isinstance(a, ListV) else a
        ys = b.items if isinstance(b, ListV) else b
        if len(xs) != len(ys):
            return False
        r = True
        for x, y in zip(xs, ys):
            v = same(it, x, y)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        if a == b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return False
        if not S.may_intersect(a, b):
            return False
        return None
    sa, sb = isinstance(a, (Sym, App)), isinstance(b, (Sym, App))
    if sa or sb:
        if sa and sb:
            try:
                return True if a == b else None
            except Exception:
                return None
        o = b if sa else a
        s = a if sa else b
        if isinstance(o, (DictV, ListV, tuple)) and s.ty in ("int", "float", "num", "bool"):
            return False
        if isinstance(o, (str, AStr)) and s.ty in ("int", "float", "num", "bool"):
            return False
        if o is None and s.ty in ("int", "float", "num", "bool"):
            return False
        return None
    if type(a) is not type(b):
        return False
    try:
        return a == b
    except Exception:
        return None


def show(v, depth=0):
    if isinstance(v, DictV):
        return "{" + ", ".join("%s: %s" % (show(k), show(x)) for k, x in v.d.items()) + "}"
    if isinstance(v, ListV):
        return "[" + ", ".join(show(x) for x in v.items) + "]"
    if isinstance(v, ObjV):
        if isinstance(v.data, dict) and "strval" in v.data:
            return show(v.data["strval"])
        return "<%s %s>" % (v.cls.name, ", ".join("%s=%s" % (k, show(x)) for k, x in list(v.attrs.items())[:3]) if depth < 2 else "")
    return repr(v)


def diff(a, b, path=""):
    """first difference between an expected and an observed value"""
    if isinstance(a, DictV) and isinstance(b, DictV):
        ka, kb = list(a.d), list(b.d)
        for k in ka:
            if not any(k == x for x in kb):
                return "%s: key %s missing" % (path or "result", show(k))
        for k in kb:
            if not any(k == x for x in ka):
                return "%s: unexpected key %s" % (path or "result", show(k))
        for k in ka:
            if show(a.d[k]) != show(b.d[k]):
                return diff(a.d[k], b.d[k], path + "[%s]" % show(k))
        if ka != kb:
            return "%s: key order %s, expected %s" % (path or "result", kb, ka)
        return "%s: same content" % path
    if isinstance(a, ListV) and isinstance(b, ListV):
        if len(a.items) != len(b.items):
            return "%s: %d items, expected %d" % (path or "result", len(b.items), len(a.items))
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            if show(x) != show(y):
                return diff(x, y, path + "[%d]" % i)
    return "%s is %s, expected %s" % (path or "result", show(b)[:400], show(a)[:400])


class Bad:
    """one mismatch: rule, construct (stable key), message; sure=False when it depends on undecided facts"""

    def __init__(self, rule, construct, msg, sure=True):
        self.rule = rule
        self.construct = construct
        self.msg = msg
        self.sure = sure


class Ob:
    """One obligation.

    run(it, inputs) -> observed (abstract evaluation of the program)
    judge(it, inputs, path) -> list of Bad (path.kind: value | raise)"""

    def __init__(self, name, inputs, run, judge, **opt):
        self.name = name
        self.inputs = inputs
        self.run = run
        self.judge = judge
        self.opt = opt


def eval_paths(fn, opt, max_paths=48):
    return I.explore(project(), fn, max_paths=max_paths, cython=opt.get("cython", True), hooks=opt.get("hooks"), env=opt.get("env"), files=opt.get("files"), set_rev=opt.get("set_rev", False))


def functions_of(it):
    """functions of the analysed program on this path, in order of first entry"""
    return list(it.called)


def decide(ob):
    """-> dict(status=ok|violation|undecided, ...)"""
    t0 = time.time()
    res = {"name": ob.name, "status": "ok", "paths": 0, "bads": [], "why": [], "functions": set(), "notes": []}
    try:
        paths, complete = eval_paths(lambda it: ob.run(it, ob.inputs), ob.opt, ob.opt.get("max_paths", 256))
    except Exception as ex:
        res["status"] = "undecided"
        res["why"].append("analysis error: %s" % (traceback.format_exc().strip().splitlines()[-1],))
        res["tb"] = traceback.format_exc()
        return res
    res["paths"] = len(paths)
    sus = []
    for p in paths:
        res["functions"].update(functions_of(p.interp))
        if p.kind == "unsupported":
            sus.append((p, None))
            res["why"].append(str(p.value))
            continue
        try:
            bads = ob.judge(p.interp, ob.inputs, p) or []
        except Unsupported as ex:
            sus.append((p, None))
            res["why"].append("judge: %s" % ex)
            continue
        except PyRaise as ex:
            sus.append((p, None))
            res["why"].append("judge raised %s" % ex)
            continue
        except Exception:
            sus.append((p, None))
            res["why"].append("judge error: " + traceback.format_exc().strip().splitlines()[-1])
            res["tb"] = traceback.format_exc()
            continue
        if bads:
            definite = not p.taint and len(p.trace) == 0 and all(b.sure for b in bads)
            if definite:
                for b in bads:
                    res["bads"].append(mkbad(b, p, None))
            else:
                sus.append((p, bads))
                res["why"].append("; ".join(b.msg for b in bads)[:300] + (" (precision lost: %s)" % p.taint[0] if p.taint else ""))
    if not complete:
        sus.append((None, None))
        res["why"].append("more than %d partitions" % len(paths))
    if sus and not res["bads"]:
        # confirm the alarm (or the unanalysable partition) on members of the input class, with the same analysis
        trace = []
        for p, _ in sus:
            if p is not None:
                trace += p.trace
        if not atoms_of(ob.inputs) and complete and all(p is not None and p.kind != "unsupported" and not p.taint for p, b in sus) and not any(p.trace for p, _ in sus):
            for p, b in sus:
                for x in b or []:
                    if x.sure:
                        res["bads"].append(mkbad(x, p, None))
        tried = 0
        for m in candidates(ob.inputs, trace, ob.opt.get("witnesses", 40)):
            inp = subst(ob.inputs, m)
            flt = ob.opt.get("filter")
            if flt is not None and not flt(inp):
                continue
            tried += 1
            try:
                ps, comp = eval_paths(lambda it: ob.run(it, inp), ob.opt, 8)
            except Exception:
                continue
            for p in ps:
                if p.kind == "unsupported" or p.taint:
                    continue
                if p.trace:
                    continue  # still undecided for concrete members
                try:
                    bads = ob.judge(p.interp, inp, p) or []
                except Exception:
                    continue
                for b in bads:
                    if b.sure:
                        res["bads"].append(mkbad(b, p, inp))
            if res["bads"]:
                break
        res["tried"] = tried
        if not res["bads"]:
            res["status"] = "undecided"
    if res["bads"]:
        res["status"] = "violation"
    res["functions"] = sorted(res["functions"])
    res["t"] = time.time() - t0
    return res


def mkbad(b, p, inp):
    fs = functions_of(p.interp)
    return {"rule": b.rule, "construct": b.construct, "msg": b.msg, "loc": getattr(p, "loc", None), "functions": fs[-12:] if fs else [],
            "witness": show(inp) if inp is not None and not hasattr(inp, "__abs_fields__") else (inp.show() if inp is not None and hasattr(inp, "show") else None)}


# ------------------------------------------------------------------ parallel running
_OBS = None
_T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "0")) or (780 if os.environ.get("VERIF_TIER", "quick") == "quick" else 0)
ONE = 120  # seconds for one obligation


class Late(BaseException):
    pass


def _late(*a):
    raise Late()


def _work(i):
    if BUDGET and time.time() - _T0 > BUDGET:
        return i, {"name": _OBS[i].name, "status": "undecided", "paths": 0, "bads": [], "why": ["time budget of the check used up"], "functions": []}
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(ONE)
    try:
        return i, decide(_OBS[i])
    except Late:
        return i, {"name": _OBS[i].name, "status": "undecided", "paths": 0, "bads": [], "why": ["more than %d s" % ONE], "functions": []}
    except Exception:
        return i, {"name": _OBS[i].name, "status": "undecided", "paths": 0, "bads": [], "why": ["analysis error: " + traceback.format_exc().strip().splitlines()[-1]], "functions": [], "tb": traceback.format_exc()}
    finally:
        signal.alarm(0)


def run_all(obs, procs=None):
    global _OBS
    obs = list(obs)
    _OBS = obs
    procs = procs or int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
    out = [None] * len(obs)
    if procs == 1 or len(obs) < 4:
        for i in range(len(obs)):
            out[i] = _work(i)[1]
        return out
    project()
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as pool:
        for i, r in pool.imap_unordered(_work, range(len(obs)), chunksize=max(1, min(8, len(obs) // (procs * 4)))):
            out[i] = r
    return out


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.results = []
        self.violations = {}  # key -> dict
        self.undecided = []
        self.cov = {}
        self.assumptions = []
        self.rules = {}
        self.known = {}
        kf = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf, encoding="utf-8"):
                line = line.rstrip("\n")
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(" key=", 1)[1]
                    key, _, text = rest.partition(" :: ")
                    self.known[key.strip()] = text

    def add(self, obs, label):
        """run the obligations of one rule"""
        t0 = time.time()
        rs = run_all(obs)
        if os.environ.get("VERIF_TIME"):
            sys.stderr.write("%s: %d obligations, %.1f s\n" % (label, len(obs), time.time() - t0))
        d = self.rules.setdefault(label, {"obligations": 0, "discharged": 0, "violated": 0, "undecided": 0, "partitions": 0})
        for r in rs:
            d["obligations"] += 1
            d["partitions"] += r["paths"]
            if r["status"] == "ok":
                d["discharged"] += 1
            elif r["status"] == "undecided":
                d["undecided"] += 1
                self.undecided.append((label, r["name"], r["why"][:3], r.get("tb")))
            else:
                d["violated"] += 1
                for b in r["bads"]:
                    key = "%s/%s" % (b["rule"], b["construct"])
                    if key not in self.violations:
                        self.violations[key] = dict(b, name=r["name"], label=label)
            self.results.append(r)
        return rs

    def fact(self, label, name, ok, construct=None, msg="", undecided=False, witness=None):
        """an obligation decided directly by a table/graph computation"""
        d = self.rules.setdefault(label, {"obligations": 0, "discharged": 0, "violated": 0, "undecided": 0, "partitions": 0})
        d["obligations"] += 1
        if ok:
            d["discharged"] += 1
        elif undecided:
            d["undecided"] += 1
            self.undecided.append((label, name, [msg], None))
        else:
            d["violated"] += 1
            key = "%s/%s" % (label, construct or name)
            self.violations.setdefault(key, {"rule": label, "construct": construct or name, "msg": msg, "loc": None, "functions": [], "witness": witness, "name": name, "label": label})

    def finish(self, explanation):
        ev = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")
        os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
        new, seen = [], []
        for key, b in self.violations.items():
            if key in self.known:
                seen.append(key)
            else:
                new.append(key)
        for key in seen:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, self.known[key], key))
        fns = set()
        for r in self.results:
            fns.update(r["functions"])
        tot = {k: sum(d[k] for d in self.rules.values()) for k in ("obligations", "discharged", "violated", "undecided", "partitions")}
        cov = {
            "explanation": explanation,
            "rules": self.rules,
            "obligations": tot["obligations"],
            "discharged": tot["discharged"],
            "undecided": tot["undecided"],
            "partitions": tot["partitions"],
            "functions_analysed": sorted(fns),
            "undecided_list": ["%s: %s: %s" % (a, b, "; ".join(map(str, c))[:400]) for a, b, c, _ in self.undecided[:60]],
            "known_findings_seen": seen,
        }
        cov.update(self.cov)
        rec = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(ev, self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(rec, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d undecided, %d violating constructs (%d known), %.1f s" % (self.pid, tot["obligations"], tot["discharged"], tot["undecided"], len(self.violations), len(seen), time.time() - self.t0))
        for a, b, c, tb in self.undecided[: int(os.environ.get("VERIF_SHOW", "8"))]:
            print("  UNDECIDED %s: %s: %s" % (a, b, "; ".join(map(str, c))[:300]))
            if tb and os.environ.get("VERIF_TB"):
                print(tb)
        for i, key in enumerate(new):
            b = self.violations[key]
            rp = os.path.join(ev, "replay", "%s-%d.txt" % (self.pid, i))
            with open(rp, "w", encoding="utf-8") as f:
                f.write("property: %s\nrule: %s\nconstruct: %s\nobligation: %s\n\n%s\n\nraised at: %s\nfunctions on the path: %s\nmember of the input class: %s\n" % (
                    self.pid, b["rule"], b["construct"], b["name"], b["msg"], b["loc"], " > ".join(b["functions"]), b["witness"]))
            if i < int(os.environ.get("VERIF_SHOW", "8")) * 3:
                print("  %s: %s%s" % (key, b["msg"][:600], " [raised at %s]" % b["loc"] if b["loc"] else ""))
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        if new:
            if len(new) > int(os.environ.get("VERIF_SHOW", "8")) * 3:
                print("  ... %d further violating constructs" % (len(new) - int(os.environ.get("VERIF_SHOW", "8")) * 3))
            return 1
        return 0
