"""every dictionary built by loads (outside the hidden bookkeeping keys) is the case-insensitive class with its factory"""
from ..values import *
from ..harness import *

DOC = """MAP
 NAME "m"
 METADATA
  "ows_title" "t"
 END
 CONFIG "PROJ_LIB" "x"
 CONFIG MS_ERRORFILE "stderr"
 PROJECTION
  "init=epsg:4326"
 END
 WEB
  VALIDATION
   "k" "v"
  END
  METADATA
   "a" "b"
  END
 END
 OUTPUTFORMAT
  NAME "p"
  FORMATOPTION "A=B"
 END
 SYMBOL
  NAME "s"
  POINTS 1 1 2 2 END
 END
 REFERENCE
  IMAGE "i"
 END
 LEGEND
  LABEL
   SIZE 3
  END
 END
 LAYER
  NAME "l"
  CONNECTIONOPTIONS
   "a" "b"
  END
  SCALETOKEN
   NAME "%t%"
   VALUES
    "0" "a"
   END
  END
  JOIN
   NAME "j"
  END
  COMPOSITE
   OPACITY 5
  END
  CLUSTER
   REGION "r"
  END
  GRID
   LABELFORMAT "d"
  END
  FEATURE
   POINTS 1 1 END
   POINTS 2 2 END
  END
  CLASS
   LEADER
    GRIDSTEP 5
   END
   STYLE
    COLOR 1 2 3
    PATTERN 1 2 END
   END
   LABEL
    SIZE 4
   END
  END
 END
END
"""
SYMSET = 'SYMBOLSET\n SYMBOL\n NAME "a"\n END\nEND\n'


def walk(v, path=(), out=None):
    out = [] if out is None else out
    if isinstance(v, DictV):
        out.append((path, v))
        for k, x in v.d.items():
            if isinstance(k, str) and k.startswith("__") and k.endswith("__"):
                continue
            walk(x, path + (k,), out)
    elif isinstance(v, ListV):
        for i, x in enumerate(v.items):
            walk(x, path + (i,), out)
    return out


def add(chk):
    obs = []
    for name, text in (("MAP", DOC), ("SYMBOLSET", SYMSET), ("two roots", 'LAYER\n NAME "a"\nEND\nLAYER\n NAME "b"\nEND\n'), ("metadata root", 'METADATA\n "a" "b"\nEND')):
        for kw in ({}, {"include_position": True}, {"include_comments": True}):
            def run(it, inp, kw=kw):
                return it.call(it.import_module("mappyfile").ns["loads"], [inp], dict(kw, expand_includes=False))

            def judge(it, inp, p):
                if p.kind == "raise":
                    return []  # C01/C05 report documents that do not load
                out = []
                ci = it.import_module("mappyfile.ordereddict").ns["CaseInsensitiveOrderedDict"]
                for path, d in walk(p.value):
                    key = [x for x in path if isinstance(x, str)]
                    where = key[-1] if key else "root"
                    if d.cls is not ci:
                        out.append(Bad("class of parsed dictionaries", "%s dictionary is %s" % (where, d.cls.name), "loads builds a %s for %s" % (d.cls.name, "/".join(map(str, path)) or "the root")))
                        continue
                    f = d.attrs.get("default_factory")
                    extra = sorted(k for k in d.attrs if k != "default_factory")
                    if extra:
                        out.append(Bad("class of parsed dictionaries", "%s has extra state" % where, "instance state %s beside the items" % extra))
                    if f is not ci:
                        out.append(Bad("class of parsed dictionaries", "%s factory" % where, "the dictionary at %s has default_factory %s" % ("/".join(map(str, path)) or "the root", show(f) if not isinstance(f, ClassV) else f.name)))
                    for k in d.d:
                        if isinstance(k, str) and k != k.lower():
                            out.append(Bad("class of parsed dictionaries", "%s keys" % where, "stored key %s is not lower case" % k))
                return out

            obs.append(Ob("dictionaries of %s %s" % (name, sorted(kw)), text, run, judge))
    chk.add(obs, "class of parsed dictionaries")
