"""C13: position and comment bookkeeping only adds hidden keys and changes nothing that is printed."""
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from ..surface import *
from .c01 import dump
from .c02 import DocIn, load, show_exc

HIDDEN = ("__position__", "__comments__")
MODES = [(p, c) for p in (False, True) for c in (False, True)][1:]


def hidden_free(v, user=()):
    """a copy without the hidden keys"""
    if isinstance(v, DictV):
        o = DictV(v.cls, {k: hidden_free(x) for k, x in v.d.items() if not (isinstance(k, str) and k in HIDDEN)})
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, ListV):
        return ListV([hidden_free(x) for x in v.items], v.kind, v.cls)
    if isinstance(v, tuple):
        return tuple(hidden_free(x) for x in v)
    return v


def uncomment(text):
    """printed text without comments: list of lines (abstract strings), comment-only lines dropped"""
    out, line, quote, mode, only = [], [], None, None, False
    chars = []
    for p in text.parts if isinstance(text, AStr) else [text]:
        chars.extend(p if isinstance(p, str) else [p])
    i = 0
    had = False

    def flush():
        nonlocal line, had
        while line and isinstance(line[-1], str) and line[-1] in " \t":
            line.pop()
        if line or not had:
            out.append(mkstr(list(line)))
        line = []
        had = False

    while i < len(chars):
        c = chars[i]
        nxt = chars[i + 1] if i + 1 < len(chars) else None
        if mode == "#":
            if c == "\n":
                mode = None
                flush()
        elif mode == "*":
            if c == "*" and nxt == "/":
                i += 1
                mode = None
        elif quote:
            line.append(c)
            if c == quote:
                quote = None
        elif isinstance(c, str) and c in "\"'`":
            quote = c
            line.append(c)
        elif c == "#":
            mode = "#"
            had = True
        elif c == "/" and nxt == "*":
            mode = "*"
            had = True
            i += 1
        elif c == "\n":
            flush()
        else:
            line.append(c)
        i += 1
    flush()
    return out


def lines_text(ls):
    return cat(*[x for l in ls for x in (l, "\n")])


def loaders(it, kind, text, **kw):
    m = it.import_module("mappyfile").ns
    kw.setdefault("expand_includes", False)
    if kind == "loads":
        return it.call(m["loads"], [text], kw)
    it.files["/cwd/q.map"] = text
    if kind == "open":
        return it.call(m["open"], ["/cwd/q.map"], kw)
    f = it.call(it.builtins["open"], ["/cwd/q.map"], {"encoding": "utf-8"})
    return it.call(m["load"], [f], kw)


def bk_ob(name, doc, construct, st, kind="loads", opts=None, **kw):
    inputs = DocIn(doc, Opts())

    def run(it, inp):
        text = surface(inp.doc, st)
        it.text = text
        it.stage = "plain"
        a = loaders(it, kind, text)
        outs = []
        for p, c in MODES:
            it.stage = (p, c)
            outs.append(loaders(it, kind, text, include_position=p, include_comments=c))
        keep = [hidden_free(o) for o in outs]
        plain, a = a, hidden_free(a)  # printing may reorder the keys (separate_complex_types)
        it.stage = "dumps"
        try:
            ta = dump(it, plain, **(opts or {}))
        except PyRaise:
            return a, keep, None, []
        ts = []
        for (p, c), o in zip(MODES, outs):
            it.stage = ("dumps", p, c)
            ts.append(dump(it, o, **(opts or {})))
        return a, keep, ta, ts

    def judge(it, inp, p):
        where = lambda m: "include_position=%s, include_comments=%s" % m
        if p.kind == "raise":
            if it.stage == "plain":
                return []
            return [Bad("transparent", construct, "%s raised with %s, not without; text: %s" % (p.value.cls.name + show_exc(p), it.stage, show(it.text)[:300]))]
        a, keep, ta, ts = p.value
        out = []
        for m, o in zip(MODES, keep):
            r = same(it, a, o)
            if r is not True:
                out.append(Bad("transparent", construct, "%s: %s; text: %s" % (where(m), diff(a, o), show(it.text)[:300]), r is False))
        if ta is None:
            return out
        for m, t in zip(MODES, ts):
            if not m[1]:
                r = same(it, ta, t)
                msg = "printed %s instead of %s" % (show(t)[:300], show(ta)[:300])
            else:
                x, y = lines_text(uncomment(ta)), lines_text(uncomment(t))
                r = same(it, x, y)
                msg = "printed (without comments) %s instead of %s" % (show(y)[:300], show(x)[:300])
            if r is not True:
                out.append(Bad("printed", construct, "%s: %s" % (where(m), msg), r is False))
        return out

    return Ob("%s [%s%s]" % (name, st.name, "" if kind == "loads" else ", " + kind), inputs, run, judge, max_paths=128, **kw)


def styles(n, seed):
    cm = comments()
    own = ["\n# q%d\n" % k for k in range(5)] + [" # a %d\n" % k for k in range(3)] + [" /* c */\n"]
    out = []
    for k in range(n):
        j = (k + seed) % 4
        if j == 0:
            out.append(Style("comments", sep=cm, seed=k + seed))
        elif j == 1:
            out.append(Style("line comments", sep=own + ["\n"], seed=k + seed))
        elif j == 2:
            out.append(Style("everything", sep=list(BLANKS) + cm, case="each", quote="mixed", seed=k + seed))
        else:
            out.append(Style("few comments", sep=["\n"] * 6 + own, seed=k + seed))
    return out


OPTS = [{}, {"indent": 2, "align_values": True}, {"quote": "'"}, {"separate_complex_types": True}, {"end_comment": True, "spacer": "\t", "indent": 1}]


def run(chk):
    thorough = chk.tier == "thorough"
    DD.reset_names()
    n = 0
    obs = []
    for name, doc in DD.structure():
        for st in styles(8 if thorough else 2, n):
            obs.append(bk_ob(name, doc, name, st, opts=OPTS[n % 5 if n % 3 == 0 else 0], cython=n % 4 != 1))
        if n % (4 if thorough else 20) == 0:
            for kind in ("open", "load"):
                obs.append(bk_ob(name, doc, name, styles(1, 1 + 2 * (n % 40 // 20))[0], kind=kind))
        n += 1
    chk.add(obs, "structure")
    obs = []
    for t, k, i, nd, m, s in DD.slot_list(abstract=True, rich=thorough):
        where = "%s.%s/%s" % (t.upper(), k.upper(), s.name)
        for st in styles(4 if thorough else 1, n):
            obs.append(bk_ob(where, DD.slot_doc(t, k, s, ("middle", "first", "last")[n % 3]), where, st, cython=n % 4 != 1))
        n += 1
    chk.add(obs, "keyword value")
    obs = []
    from .c16 import deep_docs

    for name, doc in deep_docs():
        for x in comments():
            obs.append(bk_ob(name, doc, "%s between all tokens of %s" % (show(x)[:40], name), Style("separator %s" % show(x)[:20], sep=[x])))
        obs.append(bk_ob(name, doc, name, Style("plain")))
    chk.add(obs, "comments everywhere")
    return ("For every structural family and every keyword value, in renderings with comments at arbitrary places, the dictionaries loaded with every combination of include_position and include_comments are compared with the plain one after removing the hidden keys, and the printed texts are compared after removing comments.")
