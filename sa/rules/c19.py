"""C19: the grammar, the keyword tables and the schemas describe one vocabulary."""
import re
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from .c02 import DocIn, load, show_exc
from .c01 import dump, relax


def validate_as(it, d, schema=None, version=None):
    v = it.call(it.import_module("mappyfile.validator").ns["Validator"], [], {})
    kw = {}
    if schema:
        kw["schema_name"] = schema
    if version is not None:
        kw["version"] = version
    return it.call(it.getattr(v, "validate"), [d], kw)


def complaints(msgs):
    """messages other than missing required keywords"""
    out = []
    for m in msgs.items:
        e = m.d.get("error")
        if isinstance(e, str) and e.endswith("is a required property"):
            continue
        out.append("%s / %s" % (m.d.get("message"), str(e)[:160]))
    return out


def lookup(it, t, k):
    pp = it.call(it.import_module("mappyfile.pprint").ns["PrettyPrinter"], [], {})
    return it.call(it.getattr(pp, "get_attribute_properties"), [t, k], {})


def chain(t, doc):
    """the document inside each of its direct parents"""
    V = DD.vocab()
    out = []
    for parent, key, card in V.S.parents().get(t, []):
        if parent == "symbolset":
            continue
        if key == t and card == "one" and t not in SINGLETONS:
            continue
        out.append((parent, key, card))
    return out


def member(inp):
    """a fixed member of the input class"""
    return subst(inp, candidates(inp)[0])


def slot_ob(t, k, s, pos, where, parent=None):
    V = DD.vocab()
    doc = DD.slot_doc(t, k, s, pos)
    root, rt = doc, t
    if parent:
        root, rt = Block(parent, doc), parent

    def run(it, inp):
        it.stage = "load"
        text = tuple(inp)[1]
        d = load(it, text)
        o = d
        if parent:
            o = d.d.get(t)
            if o is None:
                o = d.d.get(plural(t))
                o = o.items[0] if isinstance(o, ListV) and o.items else None
        keys = list(o.d) if isinstance(o, DictV) else []
        it.stage = "lookup"
        props = lookup(it, t, k)
        it.stage = "validate"
        msgs = validate_as(it, d, rt)
        it.stage = "print"
        out = dump(it, d)
        it.stage = "reload"
        d2 = load(it, out)
        return (d, keys, props, complaints(msgs), out, d2)

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad("keyword", "%s/%s" % (where, it.stage), "%s: %s raises %s%s; text: %s" % (where, it.stage, p.value.cls.name, show_exc(p), show(tuple(inp)[1])[:200]))]
        d, keys, props, msgs, out, d2 = p.value
        r = []
        if k not in keys:
            r.append(Bad("keyword", where + "/stored", "the keyword %s of %s is not stored under its schema key (keys: %s)" % (k, t, keys)))
        if not (isinstance(props, DictV) and props.d):
            r.append(Bad("keyword", "%s.%s/lookup" % (t.upper(), k.upper()), "the printer does not find %s in the schema of %s" % (k, t)))
        if msgs:
            r.append(Bad("keyword", where + "/validates", "%s does not validate: %s; text: %s" % (where, msgs[:2], show(tuple(inp)[1])[:200])))
        e = relax(it, V, inp.doc, d, d2)
        if same(it, e, d2) is False:
            r.append(Bad("keyword", where + "/reload", diff(e, d2) + "; text written: " + show(out)[:200]))
        return r

    return Ob("%s %s%s" % (where, pos, " in " + parent if parent else ""), member(DocIn(root, Opts())), run, judge)


PLAIN = r'''
import mappyfile
from mappyfile.ordereddict import CaseInsensitiveOrderedDict, DefaultOrderedDict

def root(t):
    d = mappyfile.loads(t.upper() + " END")
    s = mappyfile.dumps(d)
    return d["__type__"], s, mappyfile.loads(s)

def auto(parent, key):
    d = mappyfile.loads(parent.upper() + " END")
    e = DefaultOrderedDict(DefaultOrderedDict)
    return d[key], e[key], CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict)[key.upper()]

def auto_use(parent, child, key, many):
    d = mappyfile.loads(parent.upper() + " END")
    c = mappyfile.loads(child.upper() + " END")
    if many:
        d[key].append(c)
    else:
        d[key]["__type__"] = child
    return mappyfile.dumps(d), mappyfile.loads(mappyfile.dumps(d)), d

def nested(parent, child):
    d = mappyfile.loads(parent.upper() + " " + child.upper() + " END END")
    s = mappyfile.dumps(d)
    return d, s, mappyfile.loads(s)

def created(t, version):
    d = mappyfile.create(t, version)
    s = mappyfile.dumps(d)
    return d, s, mappyfile.loads(s)

def created_keys(t, version):
    return mappyfile.create(t, version)
'''


def scen(it, f, *a):
    return it.call(it.load_source("vocab_scenario", PLAIN).ns[f], list(a), {})


def grammar_types():
    """the alternatives of composite_type, and the other blocks that can stand at the root, as the grammar file defines them"""
    import os
    text = open(os.path.join(REPO, PACKAGE, "mapfile.lark"), encoding="utf-8").read()
    text = "\n".join(l.split("//")[0] if l.strip().startswith("//") else l for l in text.split("\n"))
    rules = {}
    cur = None
    for line in text.split("\n"):
        m = re.match(r"^[!?]*([a-z_]+)\s*:(.*)$", line)
        if m:
            cur = m.group(1)
            rules[cur] = m.group(2)
        elif cur and line[:1] in " \t" and line.strip():
            rules[cur] += " " + line.strip()
        else:
            cur = None
    words = lambda s: [w.lower() for w in re.findall(r'"([A-Za-z]+)"i?', s)]
    types = words(rules.get("composite_type", ""))
    roots = []
    for alt in re.split(r"\|", rules.get("composite", "")):
        a = alt.strip()
        if a in rules:
            w = words(rules[a])
            roots += w[:1]
    other = words(rules.get("start", ""))[:1]
    return types, roots, other, rules


def block_facts(chk):
    V = DD.vocab()
    types, roots, other, rules = grammar_types()
    obs = []
    for t in types + roots + other:
        def run(it, inp, t=t):
            it.stage = t
            return scen(it, "root", t)

        def judge(it, inp, p, t=t):
            if t not in V.S.files or not isinstance(V.S.files[t].get("properties"), dict) and t not in KV:
                return [Bad("block", t.upper() + "/schema", "the grammar opens %s blocks but there is no schema for them" % t.upper())]
            if p.kind == "raise":
                return [Bad("block", t.upper(), "a root %s block: %s%s" % (t.upper(), p.value.cls.name, show_exc(p)))]
            ty, s, d2 = p.value
            if ty != t or not isinstance(d2, DictV) or d2.d.get("__type__") != t:
                return [Bad("block", t.upper(), "a root %s block has type %s, then %s after printing %s" % (t.upper(), show(ty), show(d2)[:100], show(s)))]
            return []

        obs.append(Ob("root block %s" % t, (), run, judge))
    for t in V.S.blocks():
        if t == "symbolset":
            continue
        chk.fact("block", "schema %s is opened by the grammar" % t, t in types, t.upper() + "/grammar", "the schema file %s.json describes a block the grammar cannot open" % t)
    chk.add(obs, "block")
    # storage
    obs = []
    par = V.S.parents()
    for t in types:
        if t not in V.S.files:
            continue
    for child, ps in par.items():
        for parent, key, card in ps:
            want = child if card == "one" else plural(child)

            def run(it, inp, parent=parent, child=child):
                return scen(it, "nested", parent, child)

            def judge(it, inp, p, parent=parent, child=child, key=key, card=card):
                where = "%s in %s" % (child.upper(), parent.upper())
                if p.kind == "raise":
                    return [Bad("storage", where, "%s: %s%s" % (where, p.value.cls.name, show_exc(p)))]
                d, s, d2 = p.value
                r = []
                v = d.d.get(key)
                ok = isinstance(v, DictV) if card == "one" else isinstance(v, ListV) and len(v.items) == 1
                if not ok:
                    r.append(Bad("storage", where, "the schema of %s keeps %s under %r (%s), the transformer gives %s" % (parent, child, key, "one object" if card == "one" else "a list", show(d)[:200])))
                if same(it, d, d2) is False:
                    r.append(Bad("storage", where + "/printed", "printed as %s; %s" % (show(s)[:150], diff(d, d2))))
                return r

            obs.append(Ob("%s in %s" % (child, parent), (), run, judge))
            if parent == "symbolset" and False:
                continue

            def run2(it, inp, parent=parent, key=key):
                return scen(it, "auto", parent, key)

            def judge2(it, inp, p, parent=parent, child=child, key=key, card=card):
                where = "%s of %s" % (key.upper(), parent.upper())
                if p.kind == "raise":
                    return [Bad("auto-creation", where, "%s%s" % (p.value.cls.name, show_exc(p)))]
                if (card, key) == ("one", "symbol"):
                    return []
                bad = [v for v in p.value if not (isinstance(v, DictV) and not v.d if card == "one" else isinstance(v, ListV) and not v.items)]
                if bad:
                    return [Bad("auto-creation", where, "reading the missing key %r of a %s gives %s, the schema keeps %s there" % (key, parent, show(bad[0]), "one object" if card == "one" else "a list of objects"))]
                return []

            obs.append(Ob("missing %s of %s" % (key, parent), (), run2, judge2))
            if child in KV or (card, key) == ("one", "symbol"):
                continue

            def run3(it, inp, parent=parent, child=child, key=key, card=card):
                return scen(it, "auto_use", parent, child, key, card == "many")

            def judge3(it, inp, p, parent=parent, child=child, key=key, card=card):
                where = "%s of %s" % (key.upper(), parent.upper())
                if p.kind == "raise":
                    return [Bad("auto-creation", where + "/used", "%s%s" % (p.value.cls.name, show_exc(p)))]
                s, d2, d = p.value
                if same(it, d, d2) is False:
                    return [Bad("auto-creation", where + "/used", "a child stored under the auto-created key is printed as %s" % show(s)[:200])]
                return []

            obs.append(Ob("auto-created %s of %s" % (key, parent), (), run3, judge3))
    chk.add(obs, "storage")


def lower_json(v):
    if isinstance(v, str):
        return v.lower()
    if isinstance(v, list):
        return [lower_json(x) for x in v]
    if isinstance(v, dict):
        return {k.lower(): lower_json(x) for k, x in v.items()}
    return v


def all_versions():
    V = DD.vocab()
    out = set()

    def go(n):
        if isinstance(n, dict):
            m = n.get("metadata")
            if isinstance(m, dict):
                for k in ("minVersion", "maxVersion"):
                    if isinstance(m.get(k), (int, float)):
                        out.add(float(m[k]))
            for x in n.values():
                go(x)
        elif isinstance(n, list):
            for x in n:
                go(x)

    for f in V.S.files.values():
        go(f)
    return sorted(out)


def default_facts(chk, thorough):
    V = DD.vocab()
    for t in V.S.files:
        for k, node in V.S.props(t).items() if isinstance(V.S.props(t), dict) else ():
            if isinstance(node, dict) and "default" in node:
                dv = node["default"]
                ok = V.S.valid(node, lower_json(dv))
                chk.fact("default", "%s.%s" % (t.upper(), k.upper()), ok, "%s.%s" % (t.upper(), k.upper()), "schemas/%s.json declares the default %r for %s, which its own schema refuses" % (t, dv, k))
    vs = all_versions()
    if not thorough:
        vs = [v for v in vs if v in (4.0, 5.0, 6.0, 7.0, 7.6, 8.0)] or vs[:3]
    obs = []
    for t in V.S.blocks():
        for v in [None] + vs:
            def run(it, inp, t=t, v=v):
                it.stage = "create"
                d, s, d2 = scen(it, "created", t, v)
                it.stage = "validate"
                return d, s, d2, validate_as(it, d2, t, v)

            def judge(it, inp, p, t=t, v=v):
                where = "create(%s)" % t
                if p.kind == "raise":
                    return [Bad("create", where, "%s, version %s: %s%s" % (where, v, p.value.cls.name, show_exc(p)))]
                d, s, d2, msgs = p.value
                r = []
                e = relax(it, V, None, d, d2)
                # order of keys is the printed one on both sides
                if same(it, e, d2) is False:
                    r.append(Bad("create", where + "/reload", "version %s: %s; text: %s" % (v, diff(e, d2), show(s)[:200])))
                for m in msgs.items:
                    er = m.d.get("error")
                    if isinstance(er, str) and er.endswith("is a required property"):
                        continue
                    r.append(Bad("create", "%s/%s" % (where, m.d.get("message")), "version %s: %s (%s)" % (v, m.d.get("message"), str(er)[:150])))
                for k, x in d.d.items():
                    if k == "__type__":
                        continue
                    node = V.S.props(t).get(k)
                    if node is None or "default" not in node:
                        r.append(Bad("create", "%s/%s" % (where, k), "the created object has %s, which has no default" % k))
                    elif same(it, x, pyval(it, node["default"])) is False:
                        r.append(Bad("create", "%s/%s" % (where, k), "the created object has %s = %s, the declared default is %r" % (k, show(x), node["default"])))
                for k, node in V.S.props(t).items():
                    if isinstance(node, dict) and "default" in node and "$ref" not in node and k not in d.d:
                        md = node.get("metadata", {})
                        if v is None or md.get("minVersion", 0.0) <= v <= md.get("maxVersion", 1000.0):
                            r.append(Bad("create", "%s/%s" % (where, k), "version %s: the default of %s is missing" % (v, k)))
                return r

            obs.append(Ob("create %s version %s" % (t, v), (), run, judge))
    chk.add(obs, "create")


def pyval(it, v):
    if isinstance(v, list):
        return ListV([pyval(it, x) for x in v])
    if isinstance(v, dict):
        return DictV(it.builtins["dict"], {k: pyval(it, x) for k, x in v.items()})
    return v


def run(chk):
    thorough = chk.tier == "thorough"
    block_facts(chk)
    V = DD.vocab()
    obs = []
    seen = set()
    for t, k, i, n, m, s in DD.slot_list(abstract=False, rich=False):
        node = V.S.props(t)[k]
        if isinstance(s.value, (int, float)) and ("minimum" in node or "maximum" in node) and n is not node and not V.S.valid({x: node[x] for x in ("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum") if x in node}, s.value):
            continue  # outside the range declared around the alternatives
        where = "%s.%s/%s" % (t.upper(), k.upper(), s.name)
        for pos in ("first", "middle", "last"):
            obs.append(slot_ob(t, k, s, pos, where))
        ps = chain(t, None)
        for parent, key, card in ps if thorough else [p for p in ps if (t, k, p[0]) not in seen]:
            seen.add((t, k, parent))
            obs.append(slot_ob(t, k, s, "middle", where, parent))
    chk.add(obs, "keyword")
    shaped = {(t, k) for t, k, i, n, m, s in DD.slot_list(abstract=False)}
    miss = []
    for t in V.S.blocks():
        for k, node in V.S.slots(t):
            c = V.S.child_ref(node)
            if (t, k) in shaped or c or k in ("projection", "points", "pattern", "values", "config", "metadata", "validation", "connectionoptions"):
                continue
            miss.append("%s.%s" % (t, k))
    chk.cov["slots_without_representative"] = miss
    chk.cov["slots"] = len(shaped)
    obs = []
    for name, doc in DD.special_docs() + DD.kv_docs():
        if isinstance(doc, list):
            continue
        if "root" in name or not isinstance(doc, Block):
            continue
        if " times in " in name or " twice " in name:
            # several values for one keyword: C02; several POINTS belong to FEATURE only
            k = name.split()[0]
            if not (k in REPEATED or name.startswith("points") and doc.type == "feature" or k in ("projection", "pattern")):
                continue
        obs.append(struct_ob(name, member(DocIn(doc, Opts()))))
    chk.add(obs, "block keyword")
    default_facts(chk, thorough)
    chk.assumptions += ["numbers, strings and words are represented by fixed members of each schema alternative here; C01-C03 treat them as unknown",
                        "jsonschema's own evaluation of a schema file on concrete data is taken as the meaning of the schema"]
    return ("Every block type of the grammar, every (parent, child) pair of the schemas and every (block type, keyword, representative of each value alternative, position) is parsed, looked up, validated, printed "
            "and re-parsed by interpretation of the source over concrete representatives; every declared default is evaluated against its own keyword's schema, and create() is evaluated for every type and version.")


def struct_ob(name, inp):
    t = inp.doc.type

    def run(it, inp):
        it.stage = "load"
        d = load(it, tuple(inp)[1])
        it.stage = "validate"
        m = validate_as(it, d, t)
        it.stage = "print"
        s = dump(it, d)
        it.stage = "reload"
        return d, complaints(m), s, load(it, s)

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad("block keyword", "%s/%s" % (name, it.stage), "%s raises %s%s; text: %s" % (it.stage, p.value.cls.name, show_exc(p), show(tuple(inp)[1])[:200]))]
        d, m, s, d2 = p.value
        r = []
        if m:
            r.append(Bad("block keyword", name + "/validates", "%s; text: %s" % (m[:2], show(tuple(inp)[1])[:200])))
        if same(it, d, d2) is False:
            r.append(Bad("block keyword", name + "/reload", diff(d, d2)))
        return r

    return Ob("block keyword: " + name, inp, run, judge)
