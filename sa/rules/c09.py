"""C09: validation for a MapServer version follows minVersion / maxVersion."""
import copy
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from ..schema import Schemas, KV as KVT
from .c02 import load, show_exc
from .c19 import lower_json, pyval, all_versions
from .c07 import to_py, faults, names, texts, named, verdict, contexts, base, at, pool, val

_vs = {}


def in_range(md, v):
    return not isinstance(md, dict) or md.get("minVersion", 0.0) <= v <= md.get("maxVersion", 1000.0)


def versioned(v):
    """the published schema files with everything outside its version range taken away (independent of the program)"""
    if v is None:
        return DD.vocab().S
    if v in _vs:
        return _vs[v]
    S = DD.vocab().S
    vs = copy.copy(S)
    gone = {f for f, d in S.files.items() if not in_range(d.get("metadata") if not isinstance(d.get("properties", {}).get("metadata"), str) else None, v)}

    def out(node):
        if not isinstance(node, dict):
            return False
        r = S.refname(node)
        if r is not None:
            return r in gone
        return not in_range(node.get("metadata"), v)

    def prune(node):
        if not isinstance(node, dict) or "$ref" in node:
            return node
        o = {}
        for k, x in node.items():
            if k == "properties":
                o[k] = {p: prune(y) for p, y in x.items() if not out(y)}
            elif k in ("oneOf", "anyOf", "allOf"):
                o[k] = [prune(y) for y in x if not out(y)]
            elif k == "items" and isinstance(x, dict):
                o[k] = {"not": {}} if out(x) else prune(x)
            else:
                o[k] = x
        if node.get("allOf") and not o["allOf"]:
            o["not"] = {}
        return o

    vs.files = {f: prune(d) for f, d in S.files.items()}
    for f in gone:
        vs.files[f] = dict(vs.files[f], **{"not": {}})
    _vs[v] = vs
    return vs


def entries():
    """[(type, keyword, alternative index path or None, metadata)] annotated with a version range"""
    S = DD.vocab().S
    out = []
    for t in S.blocks():
        for k, node in S.slots(t):
            md = node.get("metadata")
            if isinstance(md, dict) and ("minVersion" in md or "maxVersion" in md):
                out.append((t, k, None, md))
            for c in ("oneOf", "anyOf", "allOf"):
                for i, o in enumerate(node.get(c, ())):
                    m = o.get("metadata") if isinstance(o, dict) else None
                    if isinstance(m, dict) and ("minVersion" in m or "maxVersion" in m):
                        out.append((t, k, (c, i), m))
            r = S.child_ref(node)
            if r and isinstance(S.files.get(r[1], {}).get("metadata"), dict) and set(S.files[r[1]]["metadata"]) & {"minVersion", "maxVersion"}:
                out.append((t, k, "object", S.files[r[1]]["metadata"]))
    return out


def values_for(S, k, node):
    """members of every alternative of a keyword (child objects for block keywords), and of none"""
    c = S.child_ref(node)
    out = []
    if c:
        o = {"__type__": c[1]}
        if c[1] == "layer":
            o["type"] = "point"
        if c[1] in S.blocks():
            for kk, n in S.slots(c[1]):
                if kk in ("name", "size", "width", "maxscaledenom") and S.valid(n, "x"):
                    o[kk] = "x"
                    break
        out.append(o if c[0] == "one" else [o])
        if c[0] == "one" and "oneOf" in node:
            out.append("zzz")
        return out
    ps = pool(S, node)
    # one value for every pattern of alternatives it satisfies
    seen = set()
    alts = S.alts(node)
    for v in ps:
        sig = tuple(S.valid(n, lower_json(v)) for n, p, m in alts)
        if sig not in seen:
            seen.add(sig)
            out.append(v)
    return out


def bounds(mds):
    b = set()
    for md in mds:
        for k in ("minVersion", "maxVersion"):
            if k in md:
                b.add(float(md[k]))
    return sorted(b)


def around(bs):
    out = []
    for b in bs:
        for v in (round(b - 0.01, 4), b, round(b + 0.01, 4)):
            if v not in out:
                out.append(v)
    return sorted(out)


def judge_one(construct, rt, py, msgs, v, what):
    S = versioned(v)
    low = lower_json(py)
    fs = faults(S, rt, low)
    if "not" in S.files[rt]:
        fs = fs + [((), "object", rt)]
    ok = not fs
    out = []
    if ok and msgs.items:
        out.append(Bad("version", construct, "%s: accepted by the schema for version %s, validate reports %s" % (what, v, texts(msgs)[:3])))
    if not ok and not msgs.items:
        out.append(Bad("version", construct, "%s: not available in version %s (%s), validate reports nothing" % (what, v, names(fs))))
    if not ok and msgs.items:
        for n in names(fs):
            if not named(msgs, n):
                out.append(Bad("naming", construct, "%s: version %s: no message names %s: %s" % (what, v, n, texts(msgs)[:4])))
    return out


def validator(it):
    return it.call(it.import_module("mappyfile.validator").ns["Validator"], [], {})


def ask(it, V, d, v):
    return it.call(it.getattr(V, "validate"), [d], {} if v is None else {"version": v})


def quoted(text):
    import re
    return re.findall(r"'((?:[a-z_0-9]|-)+)'", text) if isinstance(text, str) else []


def observed(m):
    """what one message complains about: a keyword, or the unknown keywords it lists"""
    name, err = m.d.get("message"), m.d.get("error")
    if isinstance(err, str) and "match any of the regexes" in err:
        return [(name, q) for q in quoted(err.split(" do not match any")[0].split(" does not match any")[0])]
    if isinstance(err, str) and "unexpected" in err:
        return [(name, q) for q in quoted(err)]
    return [(name, None)]


def tally(S, rt, pys, prefix="ERROR: Invalid value in "):
    out = []
    for py in pys:
        seen = set()
        for path, kind, n in faults(S, rt, lower_json(py)):
            o = py
            for st in path:
                o = o[st]
            if kind == "object" and path not in seen:
                seen.add(path)
                props = S.files[n].get("properties", {})
                out += [(prefix + n.upper(), k) for k in o if k not in props and not k.startswith("__")]
        for path, kind, n in faults(S, rt, lower_json(py)):
            if kind == "keyword":
                o = lower_json(py)
                for st in path:
                    o = o[st]
                out += [(prefix + n.upper(), None)] * failing(S, S.files[otype(S, rt, path)]["properties"][n], o[n])
    return out


def otype(S, rt, path):
    t = rt
    for st in path:
        if isinstance(st, str):
            t = S.child_ref(S.files[t]["properties"][st])[1]
    return t


def failing(S, node, x):
    """how many schema keywords of one node refuse the value (each makes one message)"""
    if "$ref" in node:
        node = S.deref(node)
    n = 0
    for k in node:
        part = {k: node[k]}
        if k in ("exclusiveMinimum", "exclusiveMaximum"):
            continue
        if k in ("minimum", "maximum") and "exclusiveM" + k[1:] in node:
            part["exclusiveM" + k[1:]] = node["exclusiveM" + k[1:]]
        if isinstance(node[k], (dict, list, str, int, float)) and k not in ("metadata", "default", "description", "title") and not S.valid(part, x):
            n += 1
    return max(n, 1)


def context_ob(t, root, path, v, keys, label):
    """every value of every keyword, first all at once (the messages listed for them must be exactly the expected ones), one by one where that differs"""
    S = DD.vocab().S
    rt = root.type
    VS = versioned(v)

    def run(it, inp):
        it.stage = "load"
        d = load(it, render(root, Opts()))
        V = validator(it)
        it.value = None
        vals = {k: values_for(S, k, S.props(t)[k]) for k in keys}
        singles = [(k, x) for k in keys for x in vals[k]]
        out = []

        def made(sets):
            c = copyv(d)
            for k, x in sets:
                at(c, path).d[k] = pyval(it, x)
            return c

        it.stage = "validate"
        rounds = [made([])]
        for i in range(max([len(x) for x in vals.values()] or [0])):
            rounds.append(made([(k, vals[k][i]) for k in keys if i < len(vals[k])]))
        pys = [to_py(r) for r in rounds]
        ms = ask(it, V, ListV(rounds), v)
        got = [o for m in ms.items for o in observed(m)]
        want = tally(VS, rt, pys)
        if sorted(map(str, got)) == sorted(map(str, want)):
            out.append((None, None, pys[0], val(it, d, v)))
            return out
        it.single = (sorted(map(str, got)), sorted(map(str, want)))
        left = []
        for i, (rd, py) in enumerate(zip(rounds, pys)):
            g = {o for m in ask(it, V, rd, v).items for o in observed(m)}
            if g != set(tally(VS, rt, [py])):
                left += [(None, None)] if i == 0 else [(k, vals[k][i - 1]) for k in keys if i - 1 < len(vals[k])]
        for k, x in left:
            it.value = "%s = %r" % (k, x)
            c = made([(k, x)] if k else [])
            out.append((k, x, to_py(c), ask(it, V, c, v)))
        return out

    def judge(it, inp, p):
        where = "/".join(map(str, [rt] + path))
        if p.kind == "raise":
            return [Bad("raises", "%s" % t.upper(), "%s: %s with %s, version %s raised %s%s" % (where, it.stage, it.value, v, p.value.cls.name, show_exc(p)))]
        r = []
        for k, x, py, m in p.value:
            r += judge_one("%s%s" % (t.upper(), "." + k.upper() if k else ""), rt, py, m, v, "%s %s" % (where, "%s = %r" % (k, x) if k else "as loaded"))
        return r[:8]

    return Ob("%s version %s" % (label, v), (), run, judge, max_paths=16)


def copyv(v):
    if isinstance(v, DictV):
        o = DictV(v.cls, {k: copyv(x) for k, x in v.d.items()})
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, ListV):
        return ListV([copyv(x) for x in v.items], v.kind, v.cls)
    return v


def history_obs(thorough):
    """sequences of questions on one Validator and through the public functions"""
    S = DD.vocab().S
    probes = [
        ("STYLE.SIZE expression", "style", "size", "(1 = 1)"), ("LABEL.FORCE group", "label", "force", "group"), ("STYLE.ANTIALIAS", "style", "antialias", True), ("STYLE.GAP", "style", "gap", 2),
        ("LAYER.COMPOSITES", "layer", "composites", [{"__type__": "composite", "opacity": 7}]), ("LAYER.CONNECTIONOPTIONS", "layer", "connectionoptions", {"__type__": "connectionoptions", "a": "b"}), ("MAP.ANGLE", "map", "angle", 7),
        ("CLASS.LEADER", "class", "leader", {"__type__": "leader", "styles": [{"__type__": "style", "size": "(1 = 1)"}]}),
    ]
    probes = [p for p in probes if p[2] in S.props(p[1])]
    ctx = contexts()
    vs = [None, 4.0, 5.0, 6.0, 6.2, 7.0, 7.6, 8.0, 8.2, 7, 100.5]
    seqs = []
    for a in vs:
        for b in vs:
            seqs.append((a, b, a))
    seqs += [tuple(vs), tuple(reversed(vs)), (8.2, None, 6.0, None, 7.6, 8.2), (6.0, 6.0, 6, None)]
    obs = []
    for n, seq in enumerate(seqs):
        for j, (nm, t, k, x) in enumerate(probes):
            if not thorough and (n + j) % 8:
                continue
            cs = ctx[t]
            root, path = cs[-1 - (n // 4) % len(cs)] if (n + j) % 3 else cs[0]

            def run(it, inp, seq=seq, t=t, k=k, x=x, root=root, path=path, n=n):
                it.stage = "load"
                d = load(it, render(root, Opts()))
                at(d, path).d[k] = pyval(it, x)
                it.stage = "validate"
                V = validator(it)
                out = []
                for i, v in enumerate(seq):
                    it.value = v
                    if n % 3 == 1:
                        it.call(it.getattr(V, "get_versioned_schema"), [v], {})
                    if n % 3 == 2 and i:
                        it.call(it.getattr(V, "get_versioned_schema"), [seq[i - 1]], {"schema_name": root.type})
                        it.call(it.getattr(V, "get_expanded_schema"), [root.type], {})
                    out.append((v, to_py(d), ask(it, V, d, v)))
                    out.append((v, to_py(d), val(it, d, v)))
                return out

            def judge(it, inp, p, seq=seq, nm=nm, root=root, path=path):
                where = "%s, questions %s" % ("/".join(map(str, [root.type] + path)), list(seq))
                if p.kind == "raise":
                    return [Bad("history", nm, "%s: version %s raised %s%s" % (where, it.value, p.value.cls.name, show_exc(p)))]
                r = []
                for v, py, m in p.value:
                    r += judge_one(nm, root.type, py, m, v, where)
                for b in r:
                    b.rule = "history"
                return r[:3]

            obs.append(Ob("%s in %s after %s" % (nm, "/".join(map(str, [root.type] + path)), list(seq)), (), run, judge, max_paths=16))
    return obs


def export_obs():
    """the exported schema does not depend on earlier questions"""
    obs = []
    vs = [None, 4.0, 6.0, 7.6, 8.2]
    for a in vs:
        for b in vs:
            for name in ("map", "layer", "style"):
                def run(it, inp, a=a, b=b, name=name):
                    d = load(it, "MAP NAME 'x' LAYER TYPE POINT CLASS STYLE SIZE (1 = 1) ANTIALIAS TRUE END END END END")
                    it.stage = "fresh"
                    ref = it.call(it.getattr(validator(it), "get_versioned_schema"), [b], {"schema_name": name})
                    ref = to_py(ref)
                    it.stage = "after"
                    V = validator(it)
                    it.call(it.getattr(V, "get_versioned_schema"), [a], {"schema_name": name})
                    ask(it, V, d, a)
                    ask(it, V, d, None)
                    x = to_py(it.call(it.getattr(V, "get_versioned_schema"), [b], {"schema_name": name}))
                    y = to_py(it.call(it.getattr(V, "get_versioned_schema"), [b], {"schema_name": name}))
                    return ref, x, y

                def judge(it, inp, p, a=a, b=b, name=name):
                    what = "get_versioned_schema(%s, %r) after questions about %s" % (b, name, a)
                    if p.kind == "raise":
                        return [Bad("export", name, "%s raised %s%s" % (what, p.value.cls.name, show_exc(p)))]
                    ref, x, y = p.value
                    if x != ref or y != ref:
                        return [Bad("export", name, "%s differs from the answer of a new Validator" % what)]
                    return []

                obs.append(Ob("export %s for %s after %s" % (name, b, a), (), run, judge, max_paths=16))
    return obs


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    S = DD.vocab().S
    es = entries()
    chk.cov["annotated_entries"] = len(es)
    chk.cov["versions"] = around(all_versions())
    ctx = contexts()
    obs = []
    for t in S.blocks():
        own = [e for e in es if e[0] == t]
        keys = sorted({e[1] for e in own})
        free = [k for k, n in S.slots(t) if k not in keys]
        kids = [k for k, n in S.slots(t) if S.child_ref(n)]
        bs = bounds([e[3] for e in own])
        for n, (root, path) in enumerate(ctx[t]):
            label = "/".join(map(str, [root.type] + path))
            allb = bounds([e[3] for e in es])
            vs = around(allb) if thorough else around(bs)
            extra = [round(b, 4) for b in allb if b not in vs]
            for i, v in enumerate(vs + extra + [1.5, 99.0, 999.0, 8]):
                ks = list(keys) if v in vs else []
                # keywords without a range are judged as they are without a version
                m = max(1, len(free) // 4)
                ks += [k for q, k in enumerate(free) if thorough or q % m == (n + i) % m]
                obs.append(context_ob(t, root, path, v, ks, label))
    chk.add(obs, "entry in context")
    # root objects that carry a range themselves
    obs = []
    for kind in ("metadata", "validation", "connectionoptions"):
        md = S.files[kind].get("metadata", {})
        for v in around(bounds([md])) + [4.0, 8.2]:
            node = KVB(kind, [(str_("a"), str_("b"))])
            node.type = kind

            def run1(it, inp, node=node, v=v):
                it.stage = "load"
                it.value = None
                d = load(it, render(node, Opts()))
                it.stage = "validate"
                return to_py(d), val(it, d, v)

            def judge1(it, inp, p, kind=kind, v=v):
                if p.kind == "raise":
                    return [Bad("raises", kind.upper(), "root %s, version %s raised %s%s" % (kind, v, p.value.cls.name, show_exc(p)))]
                return judge_one(kind.upper(), kind, p.value[0], p.value[1], v, "root %s" % kind)

            obs.append(Ob("root %s version %s" % (kind, v), (), run1, judge1, max_paths=8))
    chk.add(obs, "root object")
    chk.add(history_obs(thorough), "history")
    chk.add(export_obs(), "export")
    chk.assumptions += ["jsonschema and jsonref are modelled (references to one file share one expanded object, as in jsonref 1.1)"]
    return ("Every annotated schema entry in every chain of parents it can appear in, at versions at, just below and just above every bound, with a member of every value alternative, is validated by the interpreted program and by an independent evaluator over independently pruned schema files; "
            "sequences of questions with differing versions and schema exports on one Validator are compared the same way.")
