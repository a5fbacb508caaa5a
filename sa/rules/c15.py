"""C15: INCLUDE expansion equals textual substitution, bounded at five levels."""
import random
from ..values import *
from ..harness import *
from .. import docs as DD
from ..vocab import *
from .c01 import dump
from .c02 import DocIn, show_exc
from .c16 import deep_docs

ROOT = "/maps/proj"
# ways of writing the directive; Q: the name is in quotes and may hold blanks and #
QUOTED = ['INCLUDE "%s"', "include '%s'", '  Include   "%s"   ', '\tINCLUDE\t"%s"\t# note', 'INCLUDE "%s" # with "quotes"', "INCLUDE '%s' # it's here", 'INCLUDE "%s"#tight', 'INCLUDE"%s"',
          'INCLUDE "%s" # INCLUDE "other.map"', "INCLUDE '%s' # 100% \\ done", "iNCLUDE \t '%s' ##", 'INCLUDE "%s" # a # b']
BARE = ["INCLUDE %s", "include\t%s # c", " InClUdE   %s   ", "INCLUDE %s#c", "INCLUDE %s # 'x' \"y\"", "\tinclude %s\t"]
NAMES = ["a.map", "b.inc", "sub/c.map", "sub/deep/d.map", "./e.map", "../shared/f.map", "%(abs)s/g.map", "/other/h.map", "i", "J.MAP", "sub/../k.map", "l-1_2.x.map", "include.map", "INCLUDE", "map/layer.map"]
SPACED = ["with space.map", "sub dir/x y.map", "hash#1.map", "caf\u00e9 \U0001f30d.map", "(paren) [b] 100%.map", "semi;colon,comma.map", "trailing .map"]
DQ_ONLY = ["it's.map"]


def lines_of(doc, o=None):
    """[line] as abstract strings"""
    o = o or Opts()
    return [cat(o.indent * d, *[y for i, x in enumerate(lex) for y in ((o.sep, x) if i else (x,))]) for d, lex in tokens(doc, o)]


def no_newline(v):
    if isinstance(v, AStr):
        return mkstr([p if isinstance(p, str) else Atom(p.name, p.cs - frozenset("\n\r"), p.lo, p.hi, p.xf, p.wit, p.generic) for p in v.parts])
    return v


class Inc:
    """an INCLUDE line: how it is written, the name in it, and the file"""

    def __init__(self, line, path, node):
        self.line, self.path, self.node = line, path, node


class File:
    """content: line numbers of the document, literal lines, and Inc"""

    def __init__(self, items, nl="\n", last=True):
        self.items, self.nl, self.last = items, nl, last


def name_for(rng, used, quoted):
    """(name as written, absolute path)"""
    for _ in range(60):
        pool = NAMES + (SPACED if quoted else [])
        n = rng.choice(pool).replace("%(abs)s", ROOT)
        i = len(used)
        if rng.random() < 0.7:
            h, dot, e = n.rpartition(".")
            n = ("%s%d.%s" % (h, i, e)) if dot and "/" not in e else n + str(i)
        p = posix(n)
        if p not in used and p != ROOT + "/root.map":
            return n, p
    n = "file%d.map" % len(used)
    return n, posix(n)


def posix(n):
    import posixpath

    return posixpath.normpath(posixpath.join(ROOT, n))


def cut(rng, lo, hi, depth, used, fan, style):
    """a File for the lines lo..hi, with up to `fan` ranges moved into files of their own"""
    items = []
    n = hi - lo
    ranges = []
    if depth > 0 and n > 0:
        k = rng.randint(1, fan)
        pts = sorted(rng.randint(lo, hi) for _ in range(2 * k))
        ranges = [(pts[2 * j], pts[2 * j + 1]) for j in range(k)]
        if rng.random() < 0.15:
            ranges = [(lo, hi)]
    at = lo
    for a, b in ranges:
        if a < at:
            continue
        items.extend(range(at, a))
        quoted = rng.random() < 0.65
        name, path = name_for(rng, used, quoted)
        used.add(path)
        pat = rng.choice(QUOTED if quoted else BARE)
        line = pat.replace("%s", name, 1)
        items.append(Inc(line, path, cut(rng, a, b, depth - 1 if rng.random() < 0.8 else 0, used, fan, style)))
        at = b
    items.extend(range(at, hi))
    nl = "\r\n" if style == "crlf" or style == "mixed" and rng.random() < 0.5 else "\n"
    return File(items, nl, rng.random() < 0.7)


def content(f, lines):
    """text of a file with its directives"""
    ls = [x.line if isinstance(x, Inc) else x if isinstance(x, str) else lines[x] for x in f.items]
    out = []
    for i, l in enumerate(ls):
        out.append(l)
        if i < len(ls) - 1 or f.last:
            out.append(f.nl)
    return cat(*out) if out else ""


def flat(f, lines):
    """the text with every directive replaced by the content of its file"""
    out = []
    for i, x in enumerate(f.items):
        out.append(flat(x.node, lines) if isinstance(x, Inc) else x if isinstance(x, str) else lines[x])
        if i < len(f.items) - 1 or f.last:
            out.append(f.nl)
    return cat(*out) if out else ""


def files_of(f, lines, out):
    for x in f.items:
        if isinstance(x, Inc):
            out[x.path] = content(x.node, lines)
            files_of(x.node, lines, out)
    return out


class TreeIn:
    """a document and the way it is spread over files"""

    def __init__(self, d, root):
        self.d = d
        self.root = root

    def __abs_fields__(self):
        return self.d.__abs_fields__()

    def __abs_subst__(self, f):
        return TreeIn(self.d.__abs_subst__(f), self.root)

    def lines(self):
        return lines_of(self.d.doc, self.d.o)

    def show(self):
        ls = self.lines()
        out = {"root": show(content(self.root, ls))[:500]}
        for k, v in files_of(self.root, ls, {}).items():
            out[k] = show(v)[:300]
        return "; ".join("%s: %s" % x for x in out.items())[:1800]


# (front end, path given, working directory)
FRONTS = [("open", ROOT + "/root.map", "/work"), ("open", "proj/root.map", "/maps"), ("open", "root.map", ROOT), ("open", "./root.map", ROOT), ("open", "../proj/root.map", "/maps/other"), ("open", ROOT + "/root.map", "/"),
          ("load", ROOT + "/root.map", "/work"), ("load", "proj/root.map", "/maps"), ("load", "root.map", ROOT), ("load", "../../maps/proj/root.map", "/maps/other"), ("stream", None, ROOT), ("loads", None, ROOT), ("loads", None, ROOT + "/")]


def through(it, front, text, **kw):
    """load the root text by way of a front end"""
    how, path, cwd = front
    it.env["cwd"] = cwd if cwd == "/" else cwd.rstrip("/")
    m = it.import_module("mappyfile").ns
    if how == "loads":
        return it.call(m["loads"], [text], kw)
    if how == "stream":
        f = it.call(it.getattr(it.import_module("io"), "StringIO"), [text], {})
        return it.call(m["load"], [f], kw)
    it.files[ROOT + "/root.map"] = text
    if how == "open":
        return it.call(m["open"], [path], kw)
    f = it.call(it.builtins["open"], [path], {"encoding": "utf-8"})
    return it.call(m["load"], [f], kw)


def decoys(files, cwd):
    """files of the same names in other directories: reading one of them gives a different document"""
    import posixpath

    out = {}
    dirs = {cwd, "/", "/maps", "/work"} | {posixpath.dirname(p) for p in files}
    for p in list(files):
        if not p.startswith(ROOT + "/"):
            continue
        rel = p[len(ROOT) + 1:]
        for d in dirs:
            for r in {rel, posixpath.basename(p)}:
                q = posixpath.normpath(posixpath.join(d, r))
                if q not in files and q != ROOT + "/root.map":
                    out[q] = "NAME \"wrong file\"\n"
    return out


def tree_ob(name, construct, inp, front, kw=None):
    kw = kw or {}

    def run(it, inp):
        ls = inp.lines()
        files = files_of(inp.root, ls, {})
        it.files.update(decoys(files, front[2]))
        it.files.update(files)
        it.stage = "flat"
        one = flat(inp.root, ls)
        want = it.call(it.import_module("mappyfile").ns["loads"], [one], dict(kw, expand_includes=False))
        it.stage = "files"
        return want, through(it, front, content(inp.root, ls), **kw)

    def judge(it, inp, p):
        if p.kind == "raise":
            if it.stage == "flat":
                return []  # the text is not a Mapfile
            return [Bad("include", construct, "%s: the text loads, the same text spread over files raises %s%s" % (front[0], p.value.cls.name, show_exc(p)))]
        want, got = p.value
        s = same(it, want, got)
        return [] if s is True else [Bad("include", construct, "%s %s in %s: %s" % (front[0], front[1], front[2], diff(want, got)), s is False)]

    return Ob(name, inp, run, judge, max_paths=600)


def fixed_ob(name, construct, files, front, want, kw=None):
    """files: {path: text}; "root" is the root text. want: text with the same meaning | 'error' | 'oserror'"""
    kw = kw or {}

    def run(it, inp):
        it.files.update({k: v for k, v in files.items() if k != "root"})
        w = None
        if want not in ("error", "oserror"):
            w = it.call(it.import_module("mappyfile").ns["loads"], [want], dict(kw, expand_includes=False))
        return w, through(it, front, files["root"], **kw)

    def judge(it, inp, p):
        if p.kind == "raise":
            c, names = p.value.cls, set()
            while c is not None and c.name not in names:
                names.add(c.name)
                c = (c.bases or [None])[0] if getattr(c, "bases", None) else None
            if want == "error" and not names & {"RecursionError", "MemoryError", "SystemExit", "KeyboardInterrupt"}:
                return []
            if want == "oserror" and "OSError" in names:
                return []
            return [Bad("include", construct, "%s: raises %s%s" % (front[0], p.value.cls.name, show_exc(p)))]
        if want in ("error", "oserror"):
            return [Bad("include", construct, "%s: no %s: the result is %s" % (front[0], "error" if want == "error" else "I/O error", show(p.value[1])[:200]))]
        s = same(it, *p.value)
        return [] if s is True else [Bad("include", construct, "%s %s in %s: %s" % (front[0], front[1], front[2], diff(*p.value)), s is False)]

    return Ob(name, (), run, judge, max_paths=8)


def chain(depth, spread=0, nl="\n", where="map"):
    """root includes f1, f1 includes f2, ... (spread: plain includes in front of the deep one on every level)"""
    files, want = {}, []

    def level(i):
        t, w = [], []
        if where == "map":
            t.append("LAYER" if i else "MAP")
            t.append('NAME "level %d"' % i)
        w.extend(t)
        for k in range(spread if i < 5 else 0):
            files["%s/s%d_%d.map" % (ROOT, i, k)] = 'CLASS NAME "c%d_%d" END' % (i, k) if i else 'LAYER NAME "c%d_%d" END%s' % (i, k, nl)
            t.append('INCLUDE "s%d_%d.map"' % (i, k))
            w.append(files["%s/s%d_%d.map" % (ROOT, i, k)])
        return t, w

    def build(i):
        t, w = level(i)
        tail = ["END"] if i else []
        if i < depth:
            if i:  # the next level starts behind this block
                t.append("END")
                w.append("END")
                tail = []
            t.append('INCLUDE "f%d.map" # down' % (i + 1))
            w.extend(build(i + 1))
        t.extend(tail or ([] if i else ["END"]))
        w.extend(tail or ([] if i else ["END"]))
        text = nl.join(t) + nl
        files["root" if i == 0 else "%s/f%d.map" % (ROOT, i)] = text
        return w

    want = build(0)
    return files, "\n".join(want) + "\n"


def chains(thorough):
    obs = []
    for d in range(0, 8):
        for spread in (0, 1, 3):
            for f in FRONTS if spread == 0 or thorough else FRONTS[::4] + FRONTS[-1:]:
                files, want = chain(d, spread, "\r\n" if d % 2 else "\n")
                if f[0] in ("loads", "stream"):
                    files = dict(files)
                obs.append(fixed_ob("chain of %d files, %d more per level, %s %s" % (d, spread, f[0], f[1]), "%d levels%s" % (d, " with siblings" if spread else ""), files, f, want if d <= 5 else "error"))
    return obs


def errors():
    obs = []
    R = ROOT + "/"
    cyc = {
        "a file that includes itself": {"root": 'MAP\nINCLUDE "a.map"\nEND', R + "a.map": 'NAME "x"\nINCLUDE "a.map"\n'},
        "the root included again": {"root": 'MAP\nINCLUDE "root.map"\nEND', R + "root.map": 'MAP\nINCLUDE "root.map"\nEND'},
        "two files in a cycle": {"root": 'MAP\nINCLUDE "a.map"\nEND', R + "a.map": 'INCLUDE "b.map"\n', R + "b.map": "INCLUDE a.map"},
        "three files in a cycle, other spellings": {"root": "MAP\nINCLUDE 'a.map'\nEND", R + "a.map": 'INCLUDE "./b.map"\n', R + "b.map": 'INCLUDE "sub/../c.map"', R + "c.map": 'INCLUDE "%sa.map" # back' % R},
        "a file that includes itself four times": {"root": 'MAP\nINCLUDE "a.map"\nEND', R + "a.map": 'INCLUDE "a.map"\n' * 4},
        "a cycle below other files": {"root": 'MAP\nINCLUDE "x.map"\nEND', R + "x.map": 'NAME "x"\nINCLUDE "y.map"', R + "y.map": 'LAYER\nINCLUDE "z.map"\nEND', R + "z.map": 'INCLUDE "y.map"'},
        "a file of nothing but itself": {"root": 'INCLUDE "a.map"', R + "a.map": 'INCLUDE "a.map"'},
    }
    for n, files in cyc.items():
        for f in FRONTS:
            obs.append(fixed_ob("%s, %s %s in %s" % (n, f[0], f[1], f[2]), n, files, f, "error"))
    miss = {
        "a missing file": {"root": 'MAP\nINCLUDE "nope.map"\nEND'},
        "a missing file, unquoted": {"root": "MAP\nINCLUDE sub/nope.map # c\nEND"},
        "a missing file with an absolute name": {"root": "MAP\nINCLUDE '/nowhere/x.map'\nEND"},
        "a missing file behind one that is there": {"root": 'MAP\nINCLUDE "a.map"\nINCLUDE "nope.map"\nEND', R + "a.map": 'NAME "x"\n'},
        "a missing file below another": {"root": 'MAP\nINCLUDE "a.map"\nEND', R + "a.map": 'LAYER\nINCLUDE "sub/b.map"\nEND\n', R + "sub/b.map": "INCLUDE gone.map"},
        "a missing file on the fifth level": {"root": 'MAP\nINCLUDE "a.map"\nEND', R + "a.map": 'INCLUDE "b.map"', R + "b.map": 'INCLUDE "c.map"', R + "c.map": 'INCLUDE "d.map"', R + "d.map": 'INCLUDE "e.map"'},
        "a file that is only there beside the including file": {"root": 'MAP\nINCLUDE "sub/a.map"\nEND', R + "sub/a.map": 'INCLUDE "b.map"', R + "sub/b.map": 'NAME "x"'},
        "a file that is only there under the parent directory": {"root": 'MAP\nINCLUDE "a.map"\nEND', "/maps/a.map": 'NAME "x"', "/a.map": 'NAME "y"', "/work/a.map": 'NAME "z"'},
    }
    for n, files in miss.items():
        for f in FRONTS:
            obs.append(fixed_ob("%s, %s %s in %s" % (n, f[0], f[1], f[2]), n, files, f, "oserror"))
    for n, f in (("missing root", ("open", "/maps/gone.map", "/work")), ("missing root, relative", ("open", "gone.map", "/maps"))):
        obs.append(fixed_ob(n, n, {"root": "MAP END"}, f, "oserror"))
    # a file that cannot be read
    for err in (("error", "PermissionError", 13, "Permission denied"), ("error", "IsADirectoryError", 21, "Is a directory")):
        for f in FRONTS[:1] + FRONTS[-1:]:
            obs.append(fixed_ob("%s %s" % (err[1], f[0]), err[1], {"root": 'MAP\nINCLUDE "a.map"\nEND', R + "a.map": err}, f, "oserror"))
    return obs


def placements():
    """named situations with the text they stand for"""
    R = ROOT + "/"
    L = 'NAME "x"\n'
    out = {
        "the whole document": ({"root": 'INCLUDE "a.map"', R + "a.map": "MAP\n" + L + "END\n"}, "MAP\n" + L + "END"),
        "several root blocks": ({"root": 'INCLUDE "a.map"\nINCLUDE "b.map"\n', R + "a.map": "LAYER\n" + L + "END", R + "b.map": "CLASS\nEND\nSTYLE\nEND"}, "LAYER\n" + L + "END\nCLASS\nEND\nSTYLE\nEND"),
        "an empty file": ({"root": 'MAP\nINCLUDE "a.map"\n' + L + "END", R + "a.map": ""}, "MAP\n" + L + "END"),
        "a file of blank lines": ({"root": 'MAP\nINCLUDE "a.map"\n' + L + "END", R + "a.map": "\n\n \t\n\r\n"}, "MAP\n" + L + "END"),
        "a file of comments": ({"root": 'MAP\nINCLUDE "a.map"\n' + L + "END", R + "a.map": "# one\n/* two */\n# INCLUDE 'none.map'"}, "MAP\n" + L + "END"),
        "the same file twice": ({"root": 'MAP\nINCLUDE "a.map"\nINCLUDE "a.map"\nEND', R + "a.map": 'LAYER NAME "x" END'}, 'MAP\nLAYER NAME "x" END\nLAYER NAME "x" END\nEND'),
        "the same file in two blocks": ({"root": 'MAP\nLAYER\nINCLUDE "p.map"\nEND\nLAYER\nINCLUDE "p.map"\nEND\nEND', R + "p.map": 'PROJECTION\n"init=epsg:4326"\nEND'}, 'MAP\nLAYER\nPROJECTION\n"init=epsg:4326"\nEND\nEND\nLAYER\nPROJECTION\n"init=epsg:4326"\nEND\nEND\nEND'),
        "the same file on two levels": ({"root": 'MAP\nINCLUDE "a.map"\nINCLUDE "b.map"\nEND', R + "a.map": 'LAYER\nINCLUDE "b.map"\nEND', R + "b.map": 'METADATA\n"a" "b"\nEND'}, 'MAP\nLAYER\nMETADATA\n"a" "b"\nEND\nEND\n METADATA\n"a" "b"\nEND\nEND'),
        "two paths to one file": ({"root": 'MAP\nINCLUDE "a.map"\nINCLUDE "b.map"\nEND', R + "a.map": 'INCLUDE "c.map"', R + "b.map": 'INCLUDE "c.map"', R + "c.map": 'INCLUDE "d.map"', R + "d.map": "LAYER\nEND"}, "MAP\nLAYER\nEND\nLAYER\nEND\nEND"),
        "pairs of METADATA": ({"root": 'LAYER\nMETADATA\n"a" "b"\nINCLUDE "m.inc"\n"z" "y"\nEND\nEND', R + "m.inc": '"c" "d"\n"e" "f"'}, 'LAYER\nMETADATA\n"a" "b"\n"c" "d"\n"e" "f"\n"z" "y"\nEND\nEND'),
        "lines of PROJECTION": ({"root": 'LAYER\nPROJECTION\nINCLUDE "m.inc"\nEND\nEND', R + "m.inc": '"proj=utm"\n"zone=15"\n'}, 'LAYER\nPROJECTION\n"proj=utm"\n"zone=15"\nEND\nEND'),
        "lines of POINTS": ({"root": 'FEATURE\nPOINTS\nINCLUDE "m.inc"\nEND\nEND', R + "m.inc": "1 2\n3 4"}, "FEATURE\nPOINTS\n1 2\n3 4\nEND\nEND"),
        "the opening keyword only": ({"root": 'INCLUDE "m.inc"\n' + L + "END", R + "m.inc": "MAP"}, "MAP\n" + L + "END"),
        "the closing END only": ({"root": 'MAP\n' + L + "INCLUDE 'm.inc'", R + "m.inc": "END"}, "MAP\n" + L + "END"),
        "a keyword and its value": ({"root": 'MAP\nNAME\nINCLUDE "m.inc"\nEND', R + "m.inc": '"x"'}, 'MAP\nNAME\n"x"\nEND'),
        "a SYMBOLSET": ({"root": 'SYMBOLSET\nINCLUDE "m.inc"\nEND', R + "m.inc": 'SYMBOL\nNAME "s"\nTYPE ELLIPSE\nPOINTS\n1 1\nEND\nEND'}, 'SYMBOLSET\nSYMBOL\nNAME "s"\nTYPE ELLIPSE\nPOINTS\n1 1\nEND\nEND\nEND'),
        "directives in comments": ({"root": 'MAP\n# INCLUDE "none.map"\n' + L + '  #INCLUDE none.map\nSIZE 1 1 # INCLUDE "none.map"\n// INCLUDE\nEND'.replace("// INCLUDE\n", "")}, "MAP\n" + L + "SIZE 1 1\nEND"),
        "the word in strings and keys": ({"root": 'LAYER\nNAME "INCLUDE x.map"\nMETADATA\n"wms_include_items" "all"\n"include" "a.map"\ngml_include_items "all"\ninclude_items "all"\nincludes "b"\nEND\nEND'}, 'LAYER\nNAME "INCLUDE x.map"\nMETADATA\n"wms_include_items" "all"\n"include" "a.map"\n"gml_include_items" "all"\n"include_items" "all"\n"includes" "b"\nEND\nEND'),
        "a list item": ({"root": 'LAYER\nPROCESSING "a=1"\nINCLUDE "m.inc"\nPROCESSING "c=3"\nEND', R + "m.inc": 'PROCESSING "b=2"'}, 'LAYER\nPROCESSING "a=1"\nPROCESSING "b=2"\nPROCESSING "c=3"\nEND'),
        "many files": ({**{"root": "MAP\n" + "".join('INCLUDE "n%d.map"\n' % i for i in range(12)) + "END"}, **{R + "n%d.map" % i: 'LAYER NAME "n%d" END' % i for i in range(12)}}, "MAP\n" + "".join('LAYER NAME "n%d" END\n' % i for i in range(12)) + "END"),
        "files of several lines one after another": ({"root": 'MAP\nINCLUDE "a.map"\nINCLUDE "b.map"\nSIZE 1 2\nINCLUDE "c.map"\nEND', R + "a.map": 'NAME "x"\nLAYER\nEND\nANGLE 5\n', R + "b.map": "\nLAYER\nNAME 'q'\nEND\n\n", R + "c.map": "UNITS FEET\n\n\n"}, 'MAP\nNAME "x"\nLAYER\nEND\nANGLE 5\nLAYER\nNAME \'q\'\nEND\nSIZE 1 2\nUNITS FEET\nEND'),
        "byte order and odd blanks": ({"root": 'MAP\n\x0cINCLUDE "a.map"\nEND', R + "a.map": 'NAME "x"'}, 'MAP\nNAME "x"\nEND'),
        "non-ASCII content": ({"root": 'MAP\nINCLUDE "a.map"\nEND', R + "a.map": 'NAME "\u00fc\u4e2d\U0001f600"'}, 'MAP\nNAME "\u00fc\u4e2d\U0001f600"\nEND'),
    }
    for n in NAMES + SPACED + DQ_ONLY:
        n = n.replace("%(abs)s", ROOT)
        for pat in QUOTED + (BARE if n not in SPACED + DQ_ONLY else []):
            if n in DQ_ONLY and '"%s"' not in pat:
                continue
            out["directive %r" % pat.replace("%s", n, 1)] = ({"root": "MAP\n" + pat.replace("%s", n, 1) + "\nSIZE 1 2\nEND", posix(n): 'NAME "x"\n'}, 'MAP\nNAME "x"\nSIZE 1 2\nEND')
    return out


def situations(thorough):
    obs = []
    for i, (n, (files, want)) in enumerate(placements().items()):
        named = n.startswith("directive")
        for j, f in enumerate(FRONTS):
            if named and not thorough and (i + j) % 6 != 0:
                continue
            for nl in ("\n", "\r\n"):
                fs = {k: v.replace("\r\n", "\n").replace("\n", nl) for k, v in files.items()}
                obs.append(fixed_ob("%s, %s %s in %s%s" % (n, f[0], f[1], f[2], " CRLF" if nl != "\n" else ""), n, fs, f, want))
            if j % 5 == 0:
                # positions and comments count lines of the substituted text; the file's final line break is part of it
                obs.append(fixed_ob("%s, %s, cython off" % (n, f[0]), n, files, f, want))
    return obs


# ------------------------------------------------------------- not expanded
def kept_ob(name, construct, text, where, names, front, opts=None):
    """where: keys leading to the block; names: file names in order"""

    def run(it, inp):
        it.reads = []
        it.stage = "load"
        d = through(it, front, text, expand_includes=False)
        reads = [r[0] for r in it.reads]
        got = d
        for k in where:
            got = it.getitem(got, k)
        inc = got.d.get("include") if isinstance(got, DictV) else None
        it.stage = "dumps"
        t = dump(it, d, **(opts or {}))
        it.stage = "again"
        d2 = it.call(it.import_module("mappyfile").ns["loads"], [t], {"expand_includes": False})
        return d, inc, reads, t, d2

    def judge(it, inp, p):
        if p.kind == "raise":
            return [Bad("directive kept", construct, "%r: %s raises %s%s" % (text if isinstance(text, str) else show(text), it.stage, p.value.cls.name, show_exc(p)))]
        d, inc, reads, t, d2 = p.value
        s = same(it, ListV(list(names)), inc) if isinstance(inc, ListV) else False
        if s is not True:
            return [Bad("directive kept", construct, "%r: the block holds include = %s" % (text if isinstance(text, str) else show(text), show(inc)), s is False)]
        extra = [r for r in reads if not (isinstance(r, str) and r.endswith("root.map"))]
        if extra:
            return [Bad("directive kept", construct, "%s is read although includes are not expanded" % show(extra[0]))]
        q = (opts or {}).get("quote", '"')
        lines = split_lines(t)
        wrote = [l for l in lines if starts_include(l)]
        want = [cat("INCLUDE ", q, n, q) for n in names]
        if len(wrote) < len(want):
            return [Bad("directive kept", construct, "%s is written for the directives %s" % (show(wrote), show(ListV(list(names)))))]
        k = 0
        for l in wrote:
            if k < len(want) and same(it, want[k], squeeze(l)) is True:
                k += 1
        if k < len(want):
            return [Bad("directive kept", construct, "the directives %s are written as %s" % (show(ListV(list(names))), "; ".join(show(x) for x in wrote)))]
        s = same(it, d, d2)
        return [] if s is True else [Bad("directive kept", construct, "written and loaded again: %s" % diff(d, d2), s is False)]

    return Ob(name, (), run, judge, max_paths=16)


def split_lines(t):
    out, cur = [], []
    for p in t.parts if isinstance(t, AStr) else [t]:
        if isinstance(p, str):
            ls = p.split("\n")
            cur.append(ls[0])
            for l in ls[1:]:
                out.append(cat(*cur) if cur else "")
                cur = [l]
        else:
            cur.append(p)
    out.append(cat(*cur))
    return out


def starts_include(l):
    h = l if isinstance(l, str) else l.parts[0] if isinstance(l.parts[0], str) else ""
    return h.strip().upper().startswith("INCLUDE")


def squeeze(l):
    """a line without indentation and with one blank behind the keyword"""
    parts = [l] if isinstance(l, str) else list(l.parts)
    h = parts[0].lstrip()
    k, _, rest = h.partition(" ")
    parts[0] = k + " " + rest.lstrip()
    if isinstance(parts[-1], str):
        parts[-1] = parts[-1].rstrip()
    return cat(*parts)


def kept(thorough):
    obs = []
    S = DD.vocab().S
    sym = lambda p: AStr([Atom(fresh(p), frozenset(c for c in UNIVERSE if c not in "\"'\n\r\\#`"), 1)])
    for t in S.blocks():
        for n, (body, names) in {
            "one": ('INCLUDE "a.map"', ["a.map"]),
            "three": ("INCLUDE \"a.map\"\nINCLUDE 'sub/b.map' # c\n  include \"c d.map\"", ["a.map", "sub/b.map", "c d.map"]),
            "equal": ('INCLUDE "a.map"\nINCLUDE "a.map"', ["a.map", "a.map"]),
        }.items():
            fs = DD.first_simple(t, n=1)
            other = "\n".join(x if isinstance(x, str) else show(x) for x in ())
            text = "%s\n%s\nEND" % (t.upper(), body)
            for f in (FRONTS[0], FRONTS[6], FRONTS[-2]):
                obs.append(kept_ob("%s in %s, %s" % (n, t, f[0]), "%s in %s" % (n, t.upper()), text, [], names, f))
        a, b = sym("inc"), sym("inc")
        text = cat(t.upper(), '\nINCLUDE "', a, '"\nINCLUDE \'', b, "'\nEND")
        for o in ({}, {"quote": "'"}, {"align_values": True}, {"end_comment": True, "indent": 1}):
            obs.append(kept_ob("any name in %s, %s" % (t, o), "any name in %s" % t.upper(), text, [], [a, b], FRONTS[-2], o))
    for pat in QUOTED + BARE:
        for n in NAMES + (SPACED if pat in QUOTED else []):
            n = n.replace("%(abs)s", ROOT)
            l = pat.replace("%s", n, 1)
            obs.append(kept_ob("kept %r" % l, "directive %r" % l, 'LAYER\nNAME "x"\n%s\nSTATUS ON\nEND' % l, [], [n], FRONTS[-2]))
    obs.append(kept_ob("in a nested block", "nested blocks", 'MAP\nINCLUDE "m.map"\nLAYER\nINCLUDE "l.map"\nEND\nINCLUDE "n.map"\nEND', [], ["m.map", "n.map"], FRONTS[0]))
    obs.append(kept_ob("in a nested block (inner)", "nested blocks", 'MAP\nLAYER\nINCLUDE "l.map"\nCLASS\nEND\nINCLUDE "k.map"\nEND\nEND', ["layers", 0], ["l.map", "k.map"], FRONTS[0]))
    obs.append(kept_ob("in a SYMBOLSET", "SYMBOLSET", 'SYMBOLSET\nINCLUDE "l.map"\nSYMBOL\nEND\nEND', [], ["l.map"], FRONTS[0]))
    return obs


def doc_includes(n):
    if isinstance(n, list):
        return any(doc_includes(x) for x in n)
    return isinstance(n, Attr) and n.key.lower() == "include" or isinstance(n, Block) and any(doc_includes(x) for x in n.items)


def trees(thorough):
    obs = []
    docs = DD.structure() + [("deep document %d" % i, x[1] if isinstance(x, tuple) else x) for i, x in enumerate(deep_docs())]
    per = 20 if thorough else 4
    k = 0
    for i, (name, doc) in enumerate(docs):
        if doc_includes(doc):
            continue
        d = DocIn(doc, Opts(nl="\n")).__abs_subst__(no_newline)
        n = len(lines_of(d.doc, d.o))
        for j in range(per):
            rng = random.Random("%s/%d" % (name, j))
            depth = rng.choice((1, 2, 3, 5)) if j else rng.choice((1, 1, 2))
            root = cut(rng, 0, n, depth, set(), 4 if depth < 3 else 2, rng.choice(("lf", "crlf", "mixed")))
            f = FRONTS[k % len(FRONTS)]
            kw = ({}, {}, {"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True})[k % 5]
            k += 1
            obs.append(tree_ob("tree %d of %s, %s %s in %s %s" % (j, name, f[0], f[1], f[2], kw), name, TreeIn(d, root), f, kw))
    return obs


def run(chk):
    thorough = chk.tier == "thorough"
    chk.add(chains(thorough), "nesting depth")
    chk.add(errors(), "errors")
    chk.add(situations(thorough), "situation")
    chk.add(kept(thorough), "not expanded")
    chk.add(trees(thorough), "tree")
    return ("Documents of every structure (leaf strings unknown, without line breaks) are spread over trees of files cut at line boundaries, up to five levels deep and with up to four "
            "includes per file, in all spellings of the directive, relative and absolute names, LF and CRLF, with files of the same names in other directories; the "
            "parser's include expansion is evaluated by abstract interpretation over a model file system through open, load and loads from several working directories "
            "and the dictionary must equal the one of the substituted text loaded without expansion. Chains of 0 to 7 files, cycles and missing files must be expanded or rejected as "
            "stated; without expansion no file is read, the directives are kept in order and written back.")
