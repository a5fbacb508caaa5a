"""Abstract interpreter for the Python sources under analysis.

The program is never imported or executed: its syntax trees are interpreted over the abstract values of values.py.
Branches the abstract state does not decide are taken both ways by replaying the evaluation with the other choice
(trace partitioning); `explore` enumerates the partitions."""
from __future__ import annotations
import ast
import os
import re
import traceback
import threading
from .values import *
from . import strings as S

MAXSTEPS = 6_000_000


class Scope:
    __slots__ = ("vars", "parent", "names", "globals", "nonlocals", "module", "kind")

    def __init__(self, parent, module, names=(), globals_=(), nonlocals=(), kind="func"):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.names = names
        self.globals = globals_
        self.nonlocals = nonlocals
        self.kind = kind


class _Names(ast.NodeVisitor):
    """names bound in a function body (not in nested functions)"""

    def __init__(self):
        self.bound = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.bound.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # only the first iterable is evaluated in the enclosing scope; walrus targets leak
        self.visit(n.generators[0].iter)
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.bound.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.bound.add(a.asname or a.name)

    def visit_MatchAs(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.bound.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.bound.add(n.rest)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.is_gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield


_fn_info = {}


def fn_info(node):
    r = _fn_info.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    v = _Names()
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        v.visit(s)
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        v.bound.add(p.arg)
    if a.vararg:
        v.bound.add(a.vararg.arg)
    if a.kwarg:
        v.bound.add(a.kwarg.arg)
    v.bound -= v.globals
    v.bound -= v.nonlocals
    _fn_info[id(node)] = (node, v)
    return v


_src_cache = {}


class Project:
    """The parsed sources of one package."""

    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.trees = {}
        self.sources = {}
        pk = os.path.join(root, package)
        for dp, dn, fns in os.walk(pk):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fns):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    ispkg = rel.endswith(".__init__")
                    if ispkg:
                        rel = rel[: -len(".__init__")]
                    src = open(p, encoding="utf-8").read()
                    self.sources[rel] = src
                    self.trees[rel] = (ast.parse(src, p), os.path.relpath(p, root), ispkg, p)


# native operations that take constant time (or whose result is an iterator, paid for by the loop over it)
CHEAP = frozenset("""len isinstance issubclass getattr setattr hasattr delattr iter next type id callable enumerate zip map filter reversed super property range print
append appendleft popleft get setdefault keys items values popitem move_to_end __getitem__ __setitem__ __delitem__ __contains__ __len__ __iter__ __next__ __missing__ __init__ __new__
debug info warning error exception log isEnabledFor getLogger cast hash repr bool int float startswith endswith add discard parse_interactive iter_parse resume_parse accepts feed_token
compile dirname join_path isabs""".split())


class Interp:
    def __init__(self, project, prefix=(), cython=True, hooks=None, env=None):
        self.project = project
        self.prefix = list(prefix)
        self.trace = []  # decisions taken: (key, choice, n)
        self.facts = {}
        self.effects = []
        self.watch = None  # observer of statements and effects (schedules)
        self.thread = 0
        self.taint = []  # reasons why the result of this partition is not exact
        self.seen_consts = set()
        self.modules = {}
        self.steps = 0
        self.cost = 0  # elements that native operations went through
        self.frames = []  # (qualname, module path)
        self.maxdepth = 0
        self.node = None
        self.hooks = hooks or {}
        self.cython = cython
        self.env = env or {}
        self.out = []  # stdout/err/log records
        self.files = {}  # virtual files: path -> content
        self.writes = []
        self.covered = set()
        self.set_rev = False
        self.nondet = []
        self.cur_exc = []
        self.counter = 0
        self.models = {}
        self.called = {}  # functions of the analysed package entered on this path
        from . import models

        models.install(self)
        self._nsd = {}

    # ------------------------------------------------------------ diagnostics
    def where(self):
        n = self.node
        q, path = self.frames[-1] if self.frames else ("?", "?")
        return "%s:%s:%s" % (path, q, getattr(n, "lineno", "?"))

    def callstack(self):
        return [q for q, p in self.frames]

    def add_taint(self, why):
        self.taint.append("%s at %s" % (why, self.where()))

    def top(self, why):
        t = Top(why)
        self.add_taint(why)
        return t

    def effect(self, kind, owner, detail=""):
        self.effects.append((kind, owner, detail, self.where()))
        if self.watch is not None:
            self.watch.effect(self, kind, owner, detail)

    def mutated(self, o, how):
        if o.owner is not None:
            self.effect("mutate", o.owner, how)

    # ------------------------------------------------------------ decisions
    def decide(self, key, n=2):
        if key in self.facts:
            return self.facts[key]
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((key, c, n, self.where()))
        self.facts[key] = c
        return c

    def dbool(self, key):
        return self.decide(key) == 0

    # ------------------------------------------------------------ exceptions
    def raise_(self, name, *args):
        cls = self.builtins[name] if isinstance(name, str) else name
        e = ObjV(cls, {"args": tuple(args)})
        e.data = {"where": self.where(), "stack": self.callstack()}
        raise PyRaise(e, self.where())

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.project.trees:
            tree, rel, ispkg, path = self.project.trees[name]
            m = ModuleV(name, {}, path)
            self.modules[name] = m
            m.ns["__name__"] = name
            m.ns["__file__"] = path
            m.ns["__doc__"] = ast.get_docstring(tree, clean=False)
            m.ns["__package__"] = name if ispkg else name.rpartition(".")[0]
            sc = Scope(None, m, kind="module")
            sc.vars = m.ns
            self.frames.append(("<module %s>" % name, rel))
            try:
                self.exec_block(tree.body, sc)
            finally:
                self.frames.pop()
            par, _, leaf = name.rpartition(".")
            if par and par in self.modules:
                self.modules[par].ns.setdefault(leaf, m)
            return m
        m = self.model_module(name)
        self.modules[name] = m
        return m

    def load_source(self, name, src):
        """evaluate a module given as text (scenario code of a rule)"""
        tree = _src_cache.get(src)
        if tree is None:
            tree = _src_cache[src] = ast.parse(src, name)
        m = ModuleV(name, {}, name)
        m.ns["__name__"] = name
        sc = Scope(None, m, kind="module")
        sc.vars = m.ns
        self.frames.append(("<scenario %s>" % name, name))
        try:
            self.exec_block(tree.body, sc)
        finally:
            self.frames.pop()
        return m

    def load_package(self):
        """evaluate every module of the package (abstractly); tag module-level state"""
        for name in sorted(self.project.trees):
            if name.endswith("__main__"):
                continue
            self.import_module(name)
        self.tag_globals()
        self.effects.clear()

    def tag_globals(self):
        seen = set()

        def tag(o, owner):
            if id(o) in seen:
                return
            if isinstance(o, (ListV, DictV, SetV, ObjV)):
                seen.add(id(o))
                if o.owner is None:
                    o.owner = owner
                if isinstance(o, (ListV, SetV)):
                    for x in o.items:
                        tag(x, owner + "[]")
                elif isinstance(o, DictV):
                    for x in o.d.values():
                        tag(x, owner + "{}")
                else:
                    for k, x in o.attrs.items():
                        tag(x, owner + "." + k)
            elif isinstance(o, tuple):
                for x in o:
                    tag(x, owner)
            elif isinstance(o, ClassV):
                if id(o) in seen:
                    return
                seen.add(id(o))
                o.owner = "class:" + o.name
                for k, x in o.ns.items():
                    tag(x, "class:%s.%s" % (o.name, k))
            elif isinstance(o, NativeV):
                if id(o) in seen:
                    return
                seen.add(id(o))
                for k, x in list(getattr(o, "attrs", {}).items()):
                    tag(x, "func:%s.%s" % (o.name, k))
            elif isinstance(o, FuncV):
                if id(o) in seen:
                    return
                seen.add(id(o))
                for k, x in o.attrs.items():
                    tag(x, "func:%s.%s" % (o.qualname, k))
                for x in list(o.defaults) + list(o.kwdefaults.values()):
                    tag(x, "default:" + o.qualname)
                sc = o.closure
                while sc is not None and sc.kind != "module":
                    for k, x in sc.vars.items():
                        tag(x, "closure:%s.%s" % (o.qualname, k))
                    sc = sc.parent
            elif isinstance(o, (StaticV, ClassMethodV)):
                tag(o.f, owner)
            elif isinstance(o, PropertyV):
                tag(o.fget, owner)
                tag(o.fset, owner)

        for name in self.project.trees:
            m = self.modules.get(name)
            if m:
                for k, v in list(m.ns.items()):
                    if not k.startswith("__"):
                        tag(v, "global:%s.%s" % (name, k))

    # ------------------------------------------------------------ statements
    def exec_block(self, body, sc):
        for st in body:
            self.exec(st, sc)

    def exec(self, st, sc):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported("step limit")
        self.node = st
        if self.watch is not None:
            self.watch.stmt(self, st)
        self.covered.add((self.frames[-1][1] if self.frames else "?", st.lineno))
        getattr(self, "x_" + type(st).__name__)(st, sc)

    def x_Expr(self, st, sc):
        self.eval(st.value, sc)

    def x_Pass(self, st, sc):
        pass

    def x_Assign(self, st, sc):
        v = self.eval(st.value, sc)
        for t in st.targets:
            self.assign(t, v, sc)

    def x_AnnAssign(self, st, sc):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, sc), sc)
        elif sc.kind == "class" and isinstance(st.target, ast.Name):
            sc.vars.setdefault("__annotations__", DictV(self.builtins["dict"])).d[st.target.id] = st.annotation
        if sc.kind == "class" and isinstance(st.target, ast.Name):
            sc.vars.setdefault("__annotations__", DictV(self.builtins["dict"])).d[st.target.id] = st.annotation

    def x_AugAssign(self, st, sc):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, sc)
            self.assign(t, self.augop(st.op, cur, self.eval(st.value, sc)), sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(st.op, cur, self.eval(st.value, sc)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            i = self.eval_index(t.slice, sc)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.augop(st.op, cur, self.eval(st.value, sc)))
        else:
            raise Unsupported("augassign")

    def augop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, ListV):
            items = self.to_list(b)
            self.mutated(a, "+=")
            a.items.extend(items)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, SetV) and not a.frozen:
            for x in self.to_list(b):
                self.set_add(a, x)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, DictV):
            self.call(self.getattr(a, "update"), [b], {})
            return a
        return self.binop(op, a, b)

    def x_Delete(self, st, sc):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id in sc.vars:
                    del sc.vars[t.id]
                else:
                    self.raise_("NameError", "name '%s' is not defined" % t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, sc), self.eval_index(t.slice, sc))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, sc), t.attr)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    self.x_Delete(ast.Delete(targets=[e]), sc)
            else:
                raise Unsupported("del")

    def x_Return(self, st, sc):
        raise ReturnEx(self.eval(st.value, sc) if st.value is not None else None)

    def x_If(self, st, sc):
        if self.truth(self.eval(st.test, sc)):
            self.exec_block(st.body, sc)
        else:
            self.exec_block(st.orelse, sc)

    def x_For(self, st, sc):
        it = self.iter(self.eval(st.iter, sc))
        for v in it:
            self.node = st
            self.assign(st.target, v, sc)
            try:
                self.exec_block(st.body, sc)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(st.orelse, sc)

    def x_While(self, st, sc):
        n = 0
        while self.truth(self.eval(st.test, sc)):
            n += 1
            if n > 20000:
                raise Unsupported("loop bound")
            try:
                self.exec_block(st.body, sc)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(st.orelse, sc)

    def x_Break(self, st, sc):
        raise BreakEx()

    def x_Continue(self, st, sc):
        raise ContinueEx()

    def x_Raise(self, st, sc):
        if st.exc is None:
            if self.cur_exc:
                raise PyRaise(self.cur_exc[-1], self.where())
            self.raise_("RuntimeError", "No active exception to reraise")
        e = self.eval(st.exc, sc)
        cause = self.eval(st.cause, sc) if st.cause is not None else None
        if isinstance(e, (ClassV, BuiltinClass)):
            e = self.call(e, [], {})
        if isinstance(e, ObjV) and self.is_exc(e):
            if not isinstance(e.data, dict) or "where" not in e.data:
                if e.data is None:
                    e.data = {}
                if isinstance(e.data, dict):
                    e.data.setdefault("where", self.where())
                    e.data.setdefault("stack", self.callstack())
            if st.cause is not None:
                e.attrs["__cause__"] = cause
            if self.cur_exc and self.cur_exc[-1] is not e:
                e.attrs.setdefault("__context__", self.cur_exc[-1])
            raise PyRaise(e, self.where())
        if isinstance(e, (Top, Sym)):
            raise Unsupported("raise of unknown")
        self.raise_("TypeError", "exceptions must derive from BaseException")

    def is_exc(self, o):
        return isinstance(o, ObjV) and any(isinstance(c, BuiltinClass) and c.pyexc is not None for c in self.mro(o.cls))

    def exc_matches(self, e, spec):
        if isinstance(spec, tuple):
            return any(self.exc_matches(e, s) for s in spec)
        if isinstance(spec, (Top, ExternV)):
            self.add_taint("except %r" % (spec,))
            return False
        return spec in self.mro(e.cls)

    def x_Try(self, st, sc):
        try:
            try:
                self.exec_block(st.body, sc)
            except PyRaise as pr:
                e = pr.exc
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.eval(h.type, sc)):
                        if h.name:
                            sc.vars[h.name] = e
                        self.cur_exc.append(e)
                        try:
                            self.exec_block(h.body, sc)
                        finally:
                            self.cur_exc.pop()
                            if h.name:
                                sc.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, sc)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            if st.finalbody:
                self.exec_block(st.finalbody, sc)
            raise
        else:
            self.exec_block(st.finalbody, sc)

    def x_Assert(self, st, sc):
        if not self.truth(self.eval(st.test, sc)):
            self.node = st
            a = () if st.msg is None else (self.eval(st.msg, sc),)
            self.raise_("AssertionError", *a)

    def x_Global(self, st, sc):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, st, sc):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, sc)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.import_module(top), sc)

    def x_ImportFrom(self, st, sc):
        name = st.module or ""
        if st.level:
            pkg = sc.module.ns.get("__package__") or ""
            base = pkg.split(".")
            if st.level > 1:
                base = base[: -(st.level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in st.names:
            if a.name == "*":
                allv = m.ns.get("__all__")
                keys = self.to_list(allv) if allv is not None else [k for k in m.ns if not k.startswith("_")]
                for k in keys:
                    self.store_name(k, m.ns[k], sc)
                continue
            full = name + "." + a.name
            if a.name in m.ns:
                v = m.ns[a.name]
            elif full in self.project.trees:
                v = self.import_module(full)
            elif name in self.project.trees:
                self.raise_("ImportError", "cannot import name '%s' from '%s'" % (a.name, name))
            else:
                v = self.getattr(m, a.name)
            self.store_name(a.asname or a.name, v, sc)

    def x_FunctionDef(self, st, sc):
        f = self.make_func(st, sc)
        for d in reversed(st.decorator_list):
            f = self.call(self.eval(d, sc), [f], {})
        self.store_name(st.name, f, sc)

    def make_func(self, node, sc, name=None):
        a = node.args
        defaults = [self.eval(d, sc) for d in a.defaults]
        kwd = {p.arg: self.eval(d, sc) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        q = name or getattr(node, "name", "<lambda>")
        if sc.kind == "class":
            q = "%s.%s" % (sc.vars.get("__qualname__", ""), q)
        cl = sc
        while cl is not None and cl.kind == "class":
            cl = cl.parent
        return FuncV(node, sc.module, cl, defaults, kwd, q)

    def x_ClassDef(self, st, sc):
        bases = []
        for b in st.bases:
            v = self.eval(b, sc)
            if isinstance(v, NativeV) and v.name == "typing.NamedTuple":
                v = self.builtins["object"]
            bases.append(v)
        kw = {k.arg: self.eval(k.value, sc) for k in st.keywords}
        bases = [b for b in bases if isinstance(b, (ClassV, BuiltinClass))] or [self.builtins["object"]]
        csc = Scope(sc, sc.module, kind="class")
        csc.vars["__qualname__"] = st.name
        csc.vars["__module__"] = sc.module.name
        cls = ClassV(st.name, bases, csc.vars, sc.module, st)
        # __class__ cell for zero-argument super()
        cell = Scope(sc, sc.module, names=("__class__",), kind="func")
        cell.vars["__class__"] = cls
        csc.parent = cell
        self.exec_block(st.body, csc)
        for k, v in list(csc.vars.items()):
            if isinstance(v, FuncV) and v.cls is None:
                v.cls = cls
            elif isinstance(v, (StaticV, ClassMethodV)) and isinstance(v.f, FuncV):
                v.f.cls = v.f.cls or cls
            elif isinstance(v, PropertyV):
                for f in (v.fget, v.fset):
                    if isinstance(f, FuncV):
                        f.cls = f.cls or cls
        v = cls
        for b in self.mro(cls)[1:]:
            if isinstance(b, ClassV) and "__init_subclass__" in b.ns:
                self.call(b.ns["__init_subclass__"], [cls], kw)
                break
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, sc), [v], {})
        self.store_name(st.name, v, sc)

    def x_With(self, st, sc):
        self._with(st.items, st.body, sc)

    def _with(self, items, body, sc):
        if not items:
            self.exec_block(body, sc)
            return
        it = items[0]
        cm = self.eval(it.context_expr, sc)
        v = self.call(self.getattr(cm, "__enter__"), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, sc)
        try:
            self._with(items[1:], body, sc)
        except PyRaise as pr:
            r = self.call(self.getattr(cm, "__exit__"), [pr.exc.cls, pr.exc, None], {})
            if not self.truth(r):
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
            raise
        else:
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})

    def x_Match(self, st, sc):
        v = self.eval(st.subject, sc)
        for c in st.cases:
            if self.pmatch(c.pattern, v, sc) and (c.guard is None or self.truth(self.eval(c.guard, sc))):
                self.exec_block(c.body, sc)
                return

    def pmatch(self, p, v, sc):
        t = type(p).__name__
        if t == "MatchValue":
            return self.truth(self.eq(v, self.eval(p.value, sc)))
        if t == "MatchSingleton":
            return v is p.value
        if t == "MatchAs":
            if p.pattern is not None and not self.pmatch(p.pattern, v, sc):
                return False
            if p.name:
                self.store_name(p.name, v, sc)
            return True
        if t == "MatchOr":
            return any(self.pmatch(q, v, sc) for q in p.patterns)
        if t == "MatchSequence":
            if not (isinstance(v, (tuple, ListV))):
                return False
            items = self.to_list(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i = star[0]
                n = len(p.patterns) - 1
                if len(items) < n:
                    return False
                k = len(items) - n
                parts = items[:i] + [ListV(items[i : i + k])] + items[i + k :]
                for q, x in zip(p.patterns, parts):
                    if isinstance(q, ast.MatchStar):
                        if q.name:
                            self.store_name(q.name, x, sc)
                    elif not self.pmatch(q, x, sc):
                        return False
                return True
            return len(items) == len(p.patterns) and all(self.pmatch(q, x, sc) for q, x in zip(p.patterns, items))
        if t == "MatchMapping":
            if not isinstance(v, DictV):
                return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                kk = self.eval(k, sc)
                if not self.truth(self.contains(v, kk)):
                    return False
                used.append(kk)
                if not self.pmatch(q, self.getitem(v, kk), sc):
                    return False
            if p.rest:
                r = DictV(self.builtins["dict"], {k: x for k, x in v.d.items() if k not in used})
                self.store_name(p.rest, r, sc)
            return True
        if t == "MatchClass":
            c = self.eval(p.cls, sc)
            if not self.truth(self.isinstance_(v, c)):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(c, BuiltinClass):
                    if not self.pmatch(p.patterns[0], v, sc):
                        return False
                else:
                    ma = self.to_list(self.getattr(c, "__match_args__"))
                    for n, q in zip(ma, p.patterns):
                        if not self.pmatch(q, self.getattr(v, n), sc):
                            return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    x = self.getattr(v, n)
                except PyRaise:
                    return False
                if not self.pmatch(q, x, sc):
                    return False
            return True
        raise Unsupported("pattern " + t)

    def __getattr__(self, name):
        if name.startswith("x_") or name.startswith("e_"):
            raise Unsupported("syntax " + name[2:])
        raise AttributeError(name)

    # ------------------------------------------------------------ names
    def load_name(self, name, sc):
        s = sc
        first = True
        if name in sc.globals:
            s = None
        while s is not None:
            if s.kind == "class" and not first:
                s = s.parent
                continue
            if name in s.vars:
                return s.vars[name]
            if name in s.names and s.kind == "func":
                self.raise_("UnboundLocalError", "cannot access local variable '%s' where it is not associated with a value" % name)
            if name in s.globals:
                break
            first = first and s.kind == "comp"
            s = s.parent
        ns = sc.module.ns
        if name in ns:
            return ns[name]
        if name in self.builtins:
            return self.builtins[name]
        self.raise_("NameError", "name '%s' is not defined" % name)

    def store_name(self, name, v, sc):
        if name in sc.globals:
            self.effect("global-write", "global:%s.%s" % (sc.module.name, name))
            sc.module.ns[name] = v
            return
        if name in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if s.kind == "func" and (name in s.vars or name in s.names):
                    self.effect("nonlocal-write", "closure:%s" % name)
                    if getattr(s, "module", None) is not None and s.kind == "func":
                        s.vars[name] = v
                    return
                s = s.parent
            raise Unsupported("nonlocal")
        sc.vars[name] = v

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, sc), self.eval_index(t.slice, sc), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.to_list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(items) < n:
                    self.raise_("ValueError", "not enough values to unpack")
                k = len(items) - n
                items = items[:i] + [ListV(items[i : i + k])] + items[i + k :]
            elif len(items) != len(t.elts):
                self.raise_("ValueError", "wrong number of values to unpack (expected %d, got %d)" % (len(t.elts), len(items)))
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise Unsupported("assign target")

    # ------------------------------------------------------------ expressions
    def eval(self, e, sc):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported("step limit")
        return getattr(self, "e_" + e.__class__.__name__)(e, sc)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.load_name(e.id, sc)

    def e_Tuple(self, e, sc):
        return tuple(self._elts(e.elts, sc))

    def e_List(self, e, sc):
        return ListV(self._elts(e.elts, sc))

    def e_Set(self, e, sc):
        s = SetV()
        for x in self._elts(e.elts, sc):
            self.set_add(s, x)
        return s

    def _elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_list(self.eval(x.value, sc)))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = DictV(self.builtins["dict"])
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, sc)
                for kk, vv in self.mapping_items(m):
                    self.dict_set_raw(d, kk, vv)
            else:
                kk = self.eval(k, sc)
                self.dict_set_raw(d, kk, self.eval(v, sc))
        return d

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        return self.binop(e.op, a, b)

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.eval(x, sc)
            if self.truth(v) != isand:
                return v
        return self.eval(e.values[-1], sc)

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (Sym, App)):
            return App(type(e.op).__name__, (v,), getattr(v, "ty", "num"))
        if isinstance(v, Top):
            return v
        if isinstance(v, (int, float)):
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            if isinstance(e.op, ast.Invert) and isinstance(v, int):
                return ~v
        self.raise_("TypeError", "bad operand type for unary op")

    def e_IfExp(self, e, sc):
        return self.eval(e.body if self.truth(self.eval(e.test, sc)) else e.orelse, sc)

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        s = sc
        while s.kind == "comp":
            s = s.parent
        self.store_name(e.target.id, v, s)
        return v

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc)

    def e_Await(self, e, sc):
        raise Unsupported("await")

    def e_Compare(self, e, sc):
        a = self.eval(e.left, sc)
        n = len(e.ops)
        r = True
        for i, (op, rhs) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(rhs, sc)
            r = self.compare(op, a, b)
            if i < n - 1 and not self.truth(r):
                return r
            a = b
        return r

    def e_Attribute(self, e, sc):
        return self.getattr(self.eval(e.value, sc), e.attr)

    def e_Subscript(self, e, sc):
        o = self.eval(e.value, sc)
        return self.getitem(o, self.eval_index(e.slice, sc))

    def eval_index(self, s, sc):
        if isinstance(s, ast.Slice):
            return slice(*(None if x is None else self.eval(x, sc) for x in (s.lower, s.upper, s.step)))
        return self.eval(s, sc)

    def e_Slice(self, e, sc):
        return self.eval_index(e, sc)

    def e_Starred(self, e, sc):
        raise Unsupported("starred")

    def e_JoinedStr(self, e, sc):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, sc))
        return self.concat(parts)

    def concat(self, parts):
        for p in parts:
            if isinstance(p, Top):
                return p
        out = []
        for p in parts:
            if isinstance(p, (str, AStr)):
                out.append(p)
            else:
                out.append(self.str_of(p))
        for p in out:
            if isinstance(p, Top):
                return p
        return mkstr(out)

    def e_FormattedValue(self, e, sc):
        v = self.eval(e.value, sc)
        spec = ""
        if e.format_spec is not None:
            spec = self.e_JoinedStr(e.format_spec, sc)
        conv = {-1: None, 115: "s", 114: "r", 97: "a"}[e.conversion]
        return self.format_value(v, spec, conv)

    def e_ListComp(self, e, sc):
        return ListV(self.comp(e, sc, lambda s: self.eval(e.elt, s)))

    def e_SetComp(self, e, sc):
        r = SetV()
        for x in self.comp(e, sc, lambda s: self.eval(e.elt, s)):
            self.set_add(r, x)
        return r

    def e_DictComp(self, e, sc):
        d = DictV(self.builtins["dict"])

        def kv(s):
            k = self.eval(e.key, s)
            return (k, self.eval(e.value, s))

        for k, v in self.comp(e, sc, kv):
            self.dict_set_raw(d, k, v)
        return d

    def e_GeneratorExp(self, e, sc):
        first = self.iter(self.eval(e.generators[0].iter, sc))
        return GenV(self._comp(e.generators, 0, Scope(sc, sc.module, kind="comp"), lambda s: self.eval(e.elt, s), first))

    def comp(self, e, sc, f):
        s = Scope(sc, sc.module, kind="comp")
        first = self.iter(self.eval(e.generators[0].iter, sc))
        return list(self._comp(e.generators, 0, s, f, first))

    def _comp(self, gens, i, s, f, it):
        g = gens[i]
        for v in it:
            self.assign(g.target, v, s)
            if all(self.truth(self.eval(c, s)) for c in g.ifs):
                if i + 1 < len(gens):
                    yield from self._comp(gens, i + 1, s, f, self.iter(self.eval(gens[i + 1].iter, s)))
                else:
                    yield f(s)

    def e_Yield(self, e, sc):
        s = sc
        while s is not None and "__yield__" not in s.vars:
            s = s.parent
        if s is None:
            raise Unsupported("yield outside generator")
        return s.vars["__yield__"](self.eval(e.value, sc) if e.value is not None else None)

    def e_YieldFrom(self, e, sc):
        s = sc
        while s is not None and "__yield__" not in s.vars:
            s = s.parent
        for v in self.iter(self.eval(e.value, sc)):
            s.vars["__yield__"](v)
        return None

    def e_Call(self, e, sc):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fs = sc
            while fs is not None and fs.kind != "func":
                fs = fs.parent
            cls = self.load_name("__class__", sc)
            s = sc
            while s is not None:
                if "__self__" in s.vars:
                    return SuperV(cls, s.vars["__self__"])
                s = s.parent
            raise Unsupported("super()")
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars", "eval", "exec") and e.func.id not in sc.vars:
            if e.func.id == "globals":
                d = DictV(self.builtins["dict"], sc.module.ns)
                d.d = sc.module.ns
                return d
            if e.func.id == "locals":
                return DictV(self.builtins["dict"], {k: v for k, v in sc.vars.items() if not k.startswith("__")})
        f = self.eval(e.func, sc)
        args = self._elts(e.args, sc) if e.args else []
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, sc)
            if k.arg is None:
                for kk, vv in self.mapping_items(v):
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        self.node = e
        self.scope_for_native = sc
        return self.call(f, args, kw)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, NativeV):
            n = f.name.rpartition(".")[2]
            if n not in CHEAP and not (n == "pop" and args and (len(args) < 2 or args[1] == -1 or not isinstance(args[0], ListV))):
                for a in args[1:] if n in ("extend", "update") else args:
                    if isinstance(a, str):
                        self.cost += len(a) >> 3
                    elif isinstance(a, (ListV, SetV)):
                        self.cost += len(a.items)
                    elif isinstance(a, DictV):
                        self.cost += len(a.d)
                    elif isinstance(a, tuple):
                        self.cost += len(a)
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, BuiltinClass):
            return self.construct_builtin(f, f, args, kw)
        if isinstance(f, Top):
            return self.top("call of unknown: %s" % f.why)
        if isinstance(f, ExternV):
            return self.top("external call %s" % f.name)
        if isinstance(f, ObjV):
            m = self.class_lookup(f.cls, "__call__")
            if m is not None:
                return self.call(self.bind(m, f, f.cls), args, kw)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kw)
        if isinstance(f, (Sym, App)):
            return self.top("call of symbolic value")
        self.raise_("TypeError", "'%s' object is not callable" % self.typename(f))

    def bind_args(self, f, args, kw):
        a = f.node.args
        vars_ = {}
        pos = a.posonlyargs + a.args
        args = list(args)
        kw = dict(kw)
        nd = len(f.defaults)
        name = f.qualname
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kw and p not in a.posonlyargs:
                    self.raise_("TypeError", "%s() got multiple values for argument '%s'" % (name, p.arg))
                vars_[p.arg] = args[i]
            elif p.arg in kw and p not in a.posonlyargs:
                vars_[p.arg] = kw.pop(p.arg)
            elif i >= len(pos) - nd:
                vars_[p.arg] = f.defaults[i - (len(pos) - nd)]
            else:
                self.raise_("TypeError", "%s() missing required positional argument: '%s'" % (name, p.arg))
        rest = args[len(pos) :]
        if a.vararg:
            vars_[a.vararg.arg] = tuple(rest)
        elif rest:
            self.raise_("TypeError", "%s() takes %d positional arguments but %d were given" % (name, len(pos), len(args)))
        for p in a.kwonlyargs:
            if p.arg in kw:
                vars_[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                vars_[p.arg] = f.kwdefaults[p.arg]
            else:
                self.raise_("TypeError", "%s() missing required keyword-only argument: '%s'" % (name, p.arg))
        if a.kwarg:
            vars_[a.kwarg.arg] = DictV(self.builtins["dict"], kw)
        elif kw:
            self.raise_("TypeError", "%s() got an unexpected keyword argument '%s'" % (name, sorted(map(str, kw))[0]))
        return vars_

    def call_func(self, f, args, kw):
        info = fn_info(f.node)
        if f.module.name in self.project.trees:
            self.called[f.qualname] = self.called.get(f.qualname, 0) + 1
        h = self.hooks.get("call")
        if h is not None:
            r = h(self, f, args, kw)
            if r is not None:
                return r[0]
        if len(self.frames) > 2500:
            self.raise_("RecursionError", "maximum recursion depth exceeded")
        vars_ = self.bind_args(f, args, kw)
        sc = Scope(f.closure, f.module, info.bound, info.globals, info.nonlocals)
        sc.vars = vars_
        if f.cls is not None and args:
            sc.vars["__self__"] = args[0]
        rel = self.project.trees[f.module.name][1] if f.module.name in self.project.trees else f.module.name
        if isinstance(f.node, ast.Lambda):
            self.frames.append((f.qualname, rel))
            if len(self.frames) > self.maxdepth:
                self.maxdepth = len(self.frames)
            try:
                return self.eval(f.node.body, sc)
            finally:
                self.frames.pop()
        if info.is_gen:
            return GenV(self._run_gen(f, sc, rel))
        saved = self.node
        self.frames.append((f.qualname, rel))
        if len(self.frames) > self.maxdepth:
            self.maxdepth = len(self.frames)
        try:
            self.exec_block(f.node.body, sc)
        except ReturnEx as r:
            return r.value
        finally:
            self.frames.pop()
            self.node = saved
        return None

    def _run_gen(self, f, sc, rel):
        """generator function: the body runs in its own thread, handing over at every yield"""
        import queue

        q_in, q_out = queue.Queue(), queue.Queue()
        state = {"frames": None}

        class _Kill(BaseException):
            pass

        def do_yield(v):
            q_out.put(("y", v))
            m = q_in.get()
            if m == "kill":
                raise _Kill()
            return None

        sc.vars["__yield__"] = do_yield

        def body():
            try:
                m = q_in.get()
                if m == "kill":
                    return
                try:
                    self.exec_block(f.node.body, sc)
                except ReturnEx:
                    pass
                q_out.put(("end", None))
            except _Kill:
                q_out.put(("end", None))
            except BaseException as ex:  # propagate to the consumer
                q_out.put(("ex", ex))

        old = threading.stack_size()
        th = threading.Thread(target=body, daemon=True)
        th.start()
        done = False
        inner = [(f.qualname, rel)]
        try:
            while True:
                outer = list(self.frames)
                self.frames.extend(inner)
                q_in.put("go")
                k, v = q_out.get()
                inner = self.frames[len(outer) :]
                self.frames[:] = outer
                if k == "y":
                    yield v
                elif k == "end":
                    done = True
                    return
                else:
                    done = True
                    raise v
        finally:
            if not done:
                q_in.put("kill")

    # ------------------------------------------------------------ classes and attributes
    def mro(self, cls):
        if isinstance(cls, ClassV):
            if cls.mro is None:
                cls.mro = self._c3(cls)
            return cls.mro
        if isinstance(cls, BuiltinClass):
            m = getattr(cls, "_mro", None)
            if m is None:
                m = cls._mro = self._c3(cls)
            return m
        return [cls]

    def _c3(self, cls):
        bases = list(cls.bases)
        if isinstance(cls, BuiltinClass) and cls.name == "object":
            return [cls]
        if not bases:
            bases = [self.builtins["object"]]
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("MRO conflict")
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def class_of(self, v):
        b = self.builtins
        if v is None:
            return b["NoneType"]
        if isinstance(v, bool):
            return b["bool"]
        if isinstance(v, int):
            return b["int"]
        if isinstance(v, float):
            return b["float"]
        if isinstance(v, (str, AStr)):
            return b["str"]
        if isinstance(v, bytes):
            return b["bytes"]
        if isinstance(v, tuple):
            return b["tuple"]
        if isinstance(v, ListV):
            return v.cls or b["list"]
        if isinstance(v, SetV):
            return b["frozenset" if v.frozen else "set"]
        if isinstance(v, frozenset):
            return b["frozenset"]
        if isinstance(v, (DictV, ObjV)):
            return v.cls
        if isinstance(v, (ClassV, BuiltinClass)):
            return b["type"]
        if isinstance(v, (Sym, App)):
            return b.get(v.ty)
        if isinstance(v, (FuncV, BoundV, NativeV)):
            return b["function"]
        if isinstance(v, ModuleV):
            return b["module"]
        if isinstance(v, GenV):
            return b["generator"]
        if isinstance(v, range):
            return b["range"]
        if isinstance(v, slice):
            return b["slice"]
        return None

    def typename(self, v):
        c = self.class_of(v)
        return c.name if c is not None else type(v).__name__

    def class_lookup(self, cls, name, after=None):
        for c in self.mro(cls):
            if after is not None:
                if c is after:
                    after = None
                continue
            if isinstance(c, ClassV):
                if name in c.ns:
                    return c.ns[name]
            elif isinstance(c, BuiltinClass) and name in c.methods:
                m = c.methods[name]
                if isinstance(m, (NativeV, StaticV, ClassMethodV, PropertyV, FuncV)) or not callable(m):
                    return m
                n = NativeV("%s.%s" % (c.name, name), m)
                c.methods[name] = n
                return n
        return None

    def user_method(self, o, name):
        """a method defined by the analysed program on the class of o, or None"""
        cls = o.cls if isinstance(o, (DictV, ObjV, ListV)) else None
        if not isinstance(cls, ClassV):
            return None
        for c in self.mro(cls):
            if isinstance(c, ClassV):
                if name in c.ns:
                    return self.bind(c.ns[name], o, cls)
            elif name in c.methods:
                return None
        return None

    def bind(self, m, o, cls):
        if isinstance(m, (FuncV, NativeV)):
            return BoundV(o, m)
        if isinstance(m, StaticV):
            return m.f
        if isinstance(m, ClassMethodV):
            return BoundV(cls, m.f)
        if isinstance(m, PropertyV):
            return self.call(m.fget, [o], {})
        if isinstance(m, ObjV):
            g = self.class_lookup(m.cls, "__get__")
            if g is not None:
                return self.call(self.bind(g, m, m.cls), [o, cls], {})
        return m

    def getattr(self, o, name, default=Ellipsis):
        h = self.hooks.get("getattr")
        if h is not None:
            r = h(self, o, name)
            if r is not None:
                return r[0]
        if isinstance(o, (Top,)):
            return o
        if isinstance(o, ExternV):
            return ExternV(o.name + "." + name)
        if isinstance(o, ModuleV):
            if name in o.ns:
                return o.ns[name]
            if o.name + "." + name in self.project.trees:
                return self.import_module(o.name + "." + name)
            sub = self.model_attr(o, name)
            if sub is not None:
                return sub
        elif isinstance(o, (ObjV, DictV, ListV)) :
            cls = self.class_of(o)
            m = self.class_lookup(cls, name)
            if isinstance(m, PropertyV):
                return self.call(m.fget, [o], {})
            attrs = getattr(o, "attrs", None)
            if attrs is not None and name in attrs:
                return attrs[name]
            if m is not None:
                return self.bind(m, o, cls)
            if name == "__class__":
                return cls
            if name == "__dict__" and attrs is not None:
                d = DictV(self.builtins["dict"])
                d.d = attrs
                d.owner = o.owner
                return d
            ga = self.class_lookup(cls, "__getattr__")
            if ga is not None:
                return self.call(self.bind(ga, o, cls), [name], {})
        elif isinstance(o, ClassV) or isinstance(o, BuiltinClass):
            m = self.class_lookup(o, name)
            if m is not None:
                if isinstance(m, StaticV):
                    return m.f
                if isinstance(m, ClassMethodV):
                    return BoundV(o, m.f)
                if isinstance(m, NativeV) and m.name.endswith(".__new__"):
                    return m
                return m
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(self.mro(o))
            if name == "__module__":
                return o.module.name if isinstance(o, ClassV) else "builtins"
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__dict__" and isinstance(o, ClassV):
                d = DictV(self.builtins["dict"])
                d.d = o.ns
                return d
            if name == "mro":
                return NativeV("mro", lambda it, a, k: ListV(self.mro(o)))
            if name == "__doc__":
                return None
        elif isinstance(o, SuperV):
            obj = o.obj
            cls = obj if isinstance(obj, (ClassV, BuiltinClass)) else self.class_of(obj)
            m = self.class_lookup(cls, name, after=o.cls)
            if m is not None:
                if isinstance(obj, (ClassV, BuiltinClass)) and isinstance(m, FuncV):
                    return m if name == "__new__" else BoundV(obj, m)
                return self.bind(m, obj, cls)
        elif isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return getattr(o.node, "name", "<lambda>")
            if name == "__qualname__":
                return o.qualname
            if name == "__doc__":
                return ast.get_docstring(o.node, clean=False) if not isinstance(o.node, ast.Lambda) else None
            if name == "__module__":
                return o.module.name
            if name == "__dict__":
                d = DictV(self.builtins["dict"])
                d.d = o.attrs
                return d
            if name == "__defaults__":
                return tuple(o.defaults)
            if name == "__call__":
                return o
        elif isinstance(o, BoundV):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name, default)
        elif isinstance(o, NativeV):
            if name in ("__name__", "__qualname__"):
                return o.name.rpartition(".")[2]
            if name == "__doc__":
                return None
            if getattr(o, "attrs", None) and name in o.attrs:
                return o.attrs[name]
            if name.startswith("cache_"):
                return NativeV(name, lambda it, a, k: None)
        elif isinstance(o, PropertyV):
            if name == "setter":
                return NativeV("setter", lambda it, a, k: PropertyV(o.fget, a[0]))
            if name == "getter":
                return NativeV("getter", lambda it, a, k: PropertyV(a[0], o.fset))
        else:
            cls = self.class_of(o)
            if cls is not None:
                m = self.class_lookup(cls, name)
                if m is not None:
                    return self.bind(m, o, cls)
                if name == "__class__":
                    return cls
            if isinstance(o, (Sym, App)) and cls is None:
                return self.top("attribute %s of %r" % (name, o))
        if default is not Ellipsis:
            return default
        self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (self.typename(o), name))

    def setattr(self, o, name, v):
        if isinstance(o, (ObjV, DictV)):
            cls = o.cls
            m = self.class_lookup(cls, name)
            if isinstance(m, PropertyV):
                if m.fset is None:
                    self.raise_("AttributeError", "can't set attribute '%s'" % name)
                self.call(m.fset, [o, v], {})
                return
            sa = self.class_lookup(cls, "__setattr__")
            if isinstance(sa, FuncV) or isinstance(sa, NativeV):
                self.call(self.bind(sa, o, cls), [name, v], {})
                return
            if o.owner is not None:
                self.effect("mutate", o.owner, "." + name)
            o.attrs[name] = v
            return
        if isinstance(o, ClassV):
            if o.owner is not None:
                self.effect("mutate", o.owner, "class attribute " + name)
            o.ns[name] = v
            return
        if isinstance(o, ModuleV):
            if o.name in self.project.trees and self.frames and not self.frames[0][0].startswith("<module"):
                self.effect("global-write", "global:%s.%s" % (o.name, name))
            o.ns[name] = v
            return
        if isinstance(o, FuncV):
            if self.frames and not any(q.startswith("<module") for q, p in self.frames):
                self.effect("mutate", "func:" + o.qualname, "." + name)
            o.attrs[name] = v
            return
        if isinstance(o, (Top, ExternV)):
            return
        if isinstance(o, NativeV):
            if not hasattr(o, "attrs"):
                o.attrs = {}
            if self.frames and not any(q.startswith("<module") for q, p in self.frames):
                self.effect("mutate", "func:" + o.name, "." + name)
            o.attrs[name] = v
            return
        self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (self.typename(o), name))

    def delattr(self, o, name):
        if isinstance(o, (ObjV, DictV)):
            if name in o.attrs:
                if o.owner is not None:
                    self.effect("mutate", o.owner, "del ." + name)
                del o.attrs[name]
                return
            self.raise_("AttributeError", name)
        if isinstance(o, ModuleV):
            if o.name in self.project.trees:
                self.effect("global-write", "global:%s.%s" % (o.name, name), "del")
            o.ns.pop(name, None)
            return
        if isinstance(o, ClassV):
            if o.owner is not None:
                self.effect("mutate", o.owner, "del class attribute " + name)
            o.ns.pop(name, None)
            return
        raise Unsupported("delattr")

    def instantiate(self, cls, args, kw):
        new = self.class_lookup(cls, "__new__")
        base = next((c for c in self.mro(cls) if isinstance(c, BuiltinClass)), self.builtins["object"])
        if isinstance(new, (FuncV, StaticV)):
            o = self.call(new.f if isinstance(new, StaticV) else new, [cls] + list(args), kw)
            if not (isinstance(o, (ObjV, DictV, ListV)) and cls in self.mro(self.class_of(o))):
                return o
        else:
            o = self.alloc(cls, base, args, kw)
        init = self.class_lookup(cls, "__init__")
        if init is not None:
            self.call(self.bind(init, o, cls), args, kw)
        return o

    def alloc(self, cls, base, args, kw):
        names = {c.name for c in self.mro(base) if isinstance(c, BuiltinClass)}
        if "dict" in names:
            return DictV(cls)
        if "list" in names:
            return ListV((), cls=cls)
        if base.name in ("str", "int", "float", "tuple"):
            raise Unsupported("subclass of %s" % base.name)
        o = ObjV(cls)
        if "BaseException" in names:
            o.attrs["args"] = tuple(args)
        return o

    # ------------------------------------------------------------ explore
    def run(self, fn):
        return fn(self)


class Path:
    """outcome of one partition"""

    def __init__(self, interp, kind, value):
        self.interp = interp
        self.kind = kind  # value | raise | unsupported
        self.value = value
        self.trace = interp.trace
        self.taint = interp.taint

    def __repr__(self):
        return "<%s %r%s>" % (self.kind, self.value, " TAINT %s" % self.taint[:2] if self.taint else "")


def explore(project, fn, max_paths=64, cython=True, hooks=None, setup=None, env=None, files=None, set_rev=False):
    """all partitions of fn(interp) (depth-first over the undecided branches)"""
    out = []
    prefix = []
    complete = True
    while True:
        it = Interp(project, prefix, cython=cython, hooks=hooks, env=env)
        it.set_rev = set_rev
        if files:
            it.files.update(files)
        try:
            it.load_package()
            it.trace_base = len(it.trace)
            v = fn(it)
            p = Path(it, "value", v)
        except PyRaise as ex:
            p = Path(it, "raise", ex.exc)
            p.loc = ex.loc
        except Unsupported as ex:
            p = Path(it, "unsupported", "%s at %s" % (ex, it.where()))
        except Infeasible:
            p = None
        except RecursionError:
            p = Path(it, "unsupported", "analysis recursion limit")
        except MemoryError:
            p = Path(it, "unsupported", "analysis out of memory")
        except (AttributeError, TypeError, ValueError, KeyError, IndexError, AssertionError, NotImplementedError, OverflowError, ZeroDivisionError, re.error) as ex:
            # an operation the abstract operations do not cover: nothing is decided on this path
            p = Path(it, "unsupported", "no abstract operation: %s: %s at %s" % (type(ex).__name__, ex, it.where()))
            p.tb = traceback.format_exc()
        if p is not None:
            out.append(p)
        tr = it.trace
        # next prefix
        i = len(tr) - 1
        while i >= 0 and tr[i][1] + 1 >= tr[i][2]:
            i -= 1
        if i < 0:
            break
        prefix = [t[1] for t in tr[:i]] + [tr[i][1] + 1]
        if len(out) >= max_paths:
            complete = False
            break
    return out, complete


from . import ops  # noqa: E402

ops.attach(Interp)
