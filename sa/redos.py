"""Static analysis of regular expressions: ambiguous repetition (super-linear backtracking) and unbounded scans that fail.

A pattern becomes a Thompson automaton over classes of characters; nothing is matched at run time."""
from __future__ import annotations
import itertools
import re
try:
    from re import _parser as sre_parse, _constants as C
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as C

UNI = [chr(i) for i in range(0, 0x180)] + ["\u0416", "\u2028", "\u6f22", "\U0001f600"]


class Unsup(Exception):
    pass


def cat_pred(c):
    return {C.CATEGORY_DIGIT: str.isdigit, C.CATEGORY_NOT_DIGIT: lambda x: not x.isdigit(), C.CATEGORY_SPACE: str.isspace, C.CATEGORY_NOT_SPACE: lambda x: not x.isspace(),
            C.CATEGORY_WORD: lambda x: x.isalnum() or x == "_", C.CATEGORY_NOT_WORD: lambda x: not (x.isalnum() or x == "_")}[c]


class NFA:
    """states 0..n-1; char[s] = [(frozenset of characters, target)], eps[s] = [(target, guard)] with guard = set of
    characters that may follow (None: any, or the end)"""

    def __init__(self, pattern, flags=0):
        self.char, self.eps = [], []
        tree = sre_parse.parse(pattern, flags)
        self.start = self.new()
        self.acc = self.new()
        fl = tree.state.flags | flags
        self.fix = {}
        refs = sorted(self.backrefs(tree))
        if not refs:
            self.build(tree, self.start, self.acc, fl)
        else:  # back references to groups of one character: one alternative per character
            groups = {}
            self.groups(tree, groups)
            sets = []
            for r in refs:
                t = groups.get(r)
                cs = self.cset(t[0][0], t[0][1], fl) if t is not None and len(t) == 1 else None
                if cs is None or len(cs) > 4:
                    raise Unsup("GROUPREF")
                sets.append(sorted(cs))
            for combo in itertools.product(*sets):
                self.fix = dict(zip(refs, combo))
                m = self.new()
                self.eps[self.start].append((m, None))
                self.build(tree, m, self.acc, fl)
        self.closures = {}

    def sub(self, op, av):
        if op is C.SUBPATTERN:
            return [av[3]]
        if op is C.BRANCH:
            return av[1]
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)):
            return [av[2]]
        if op in (C.ASSERT, C.ASSERT_NOT):
            return [av[1]]
        if op is getattr(C, "ATOMIC_GROUP", None):
            return [av]
        return []

    def backrefs(self, tree):
        out = set()
        for op, av in tree:
            if op is C.GROUPREF:
                out.add(av)
            for t in self.sub(op, av):
                out |= self.backrefs(t)
        return out

    def groups(self, tree, out):
        for op, av in tree:
            if op is C.SUBPATTERN and av[0] is not None:
                out[av[0]] = av[3]
            for t in self.sub(op, av):
                self.groups(t, out)

    def new(self):
        self.char.append([])
        self.eps.append([])
        return len(self.char) - 1

    def cset(self, op, av, flags):
        ic = flags & re.I

        def one(code):
            c = chr(code)
            s = {c}
            if ic:
                s |= {x for x in (c.lower(), c.upper()) if len(x) == 1}
            return s

        if op is C.LITERAL:
            return frozenset(one(av))
        if op is C.NOT_LITERAL:
            return frozenset(UNI) - one(av)
        if op is C.ANY:
            return frozenset(UNI) if flags & re.S else frozenset(c for c in UNI if c != "\n")
        if op is C.IN:
            neg = False
            s = set()
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    s |= one(a)
                elif o is C.RANGE:
                    lo, hi = a
                    for c in UNI:
                        if lo <= ord(c) <= hi or (ic and any(lo <= ord(x) <= hi for x in (c.lower(), c.upper()) if len(x) == 1)):
                            s.add(c)
                elif o is C.CATEGORY:
                    p = cat_pred(a)
                    s |= {c for c in UNI if p(c)}
                else:
                    raise Unsup(str(o))
            return frozenset(UNI) - s if neg else frozenset(s)
        return None

    def build(self, tree, a, b, flags):
        cur = a
        items = list(tree)
        for i, (op, av) in enumerate(items):
            nxt = b if i == len(items) - 1 else self.new()
            self.node(op, av, cur, nxt, flags)
            cur = nxt
        if not items:
            self.eps[a].append((b, None))

    def node(self, op, av, a, b, flags):
        cs = self.cset(op, av, flags)
        if cs is not None:
            self.char[a].append((cs, b))
        elif op is C.GROUPREF or op is C.SUBPATTERN and av[0] in self.fix:
            self.char[a].append((frozenset(self.fix[av if op is C.GROUPREF else av[0]]), b))
        elif op is C.SUBPATTERN:
            self.build(av[3], a, b, (flags | av[1]) & ~av[2])
        elif op is C.BRANCH:
            for t in av[1]:
                m = self.new()
                self.eps[a].append((m, None))
                self.build(t, m, b, flags)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)):
            lo, hi, t = av
            cur = a
            n = min(lo, 3)
            for _ in range(n):
                m = self.new()
                self.build(t, cur, m, flags)
                cur = m
            if hi is C.MAXREPEAT:
                h, e = self.new(), self.new()
                self.eps[cur].append((h, None))
                self.eps[h].append((b, None))
                self.build(t, h, e, flags)
                self.eps[e].append((h, None))
            else:
                self.eps[cur].append((b, None))
                for _ in range(min(hi - lo, 4)):
                    m = self.new()
                    self.build(t, cur, m, flags)
                    self.eps[m].append((b, None))
                    cur = m
        elif op is C.AT:
            self.eps[a].append((b, None))
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, t = av
            cs = None
            if d == 1 and len(t) == 1:
                cs = self.cset(t[0][0], t[0][1], flags)
            g = None
            if cs is not None:
                g = cs if op is C.ASSERT else frozenset(UNI) - cs
            self.eps[a].append((b, g))
        elif op is getattr(C, "ATOMIC_GROUP", None):
            self.build(av, a, b, flags)
        else:
            raise Unsup(str(op))

    def closure(self, s):
        """{(state with characters or accepting, guard): number of ways (at most 2)} reachable without a character"""
        r = self.closures.get(s)
        if r is None:
            r = {}

            def go(x, g, path):
                if self.char[x] or x == self.acc:
                    k = (x, g)
                    r[k] = min(2, r.get(k, 0) + 1)
                for y, h in self.eps[x]:
                    if y in path:
                        continue
                    ng = g if h is None else h if g is None else g & h
                    go(y, ng, path | {y})

            go(s, None, frozenset([s]))
            self.closures[s] = r
        return r

    def edges(self):
        """[(state, set, state, ways)] between states that stand before a character"""
        out = []
        live = set()
        work = [x for (x, g) in self.closure(self.start)]
        while work:
            x = work.pop()
            if x in live:
                continue
            live.add(x)
            for cs, y in self.char[x]:
                for (z, g), n in self.closure(y).items():
                    # the guard restricts the next character: the edges of z are then restricted copies
                    out.append((x, cs, z, n))
                    if z != self.acc and z not in live:
                        work.append(z)
        return out


def classes(sets):
    """representative characters of the partition the sets induce"""
    sig = {}
    for c in UNI:
        k = tuple(c in s for s in sets)
        sig.setdefault(k, c)
    return list(sig.values())


def has_anchor(tree):
    """does the pattern look at what follows its match?"""
    for op, av in tree:
        if op is C.AT and av in (C.AT_END, C.AT_END_STRING, C.AT_END_LINE, C.AT_BOUNDARY, C.AT_NON_BOUNDARY) or op in (C.ASSERT, C.ASSERT_NOT):
            return True
        if op is C.SUBPATTERN and has_anchor(av[3]) or op is C.BRANCH and any(has_anchor(t) for t in av[1]) or op in (C.MAX_REPEAT, C.MIN_REPEAT) and has_anchor(av[2]):
            return True
    return False


def ambiguity(pattern, flags=0, full=False):
    """None | 'exponential' | 'polynomial': can one match attempt backtrack super-linearly?

    full: the match has to end where the text ends (otherwise a state in which the pattern may end is never backtracked over)"""
    n = NFA(pattern, flags)
    tree = sre_parse.parse(pattern, flags)
    if nested_empty(tree):
        return "exponential"
    es = n.edges()
    safe = set()
    if not full and not has_anchor(tree):
        ends = {}
        for x, cs, y, w in es:
            if y == n.acc:
                ends.setdefault(x, []).append(cs)
        first = {x for x, g in n.closure(n.start)}
        for q in {e[2] for e in es} - {n.acc}:
            if all(any(cs <= e for e in ends.get(x, ())) for x, cs, y, w in es if y == q) and (q not in first or n.acc in first):
                safe.add(q)
    es = [e for e in es if e[2] != n.acc]
    st = sorted({e[0] for e in es} | {e[2] for e in es})
    reps = classes([e[1] for e in es]) if es else []
    step = {s: {} for s in st}
    for x, cs, y, w in es:
        for c in reps:
            if c in cs:
                d = step[x].setdefault(c, {})
                d[y] = min(2, d.get(y, 0) + w)
    # trim: states from which acceptance can fail is not needed; any loop can be followed by a failing tail
    # exponential: two different paths q -w-> q
    for q in st:
        if q in safe:
            continue
        seen = {(q, q, False)}
        work = [(q, q, False)]
        while work:
            a, b, diff = work.pop()
            for c in reps:
                for x, wx in step[a].get(c, {}).items():
                    for y, wy in step[b].get(c, {}).items():
                        d = diff or x != y or wx > 1
                        if d and x == q and y == q:
                            return "exponential"
                        k = (x, y, d)
                        if k not in seen:
                            seen.add(k)
                            work.append(k)
    # polynomial: p -w-> p, p -w-> q, q -w-> q with p != q
    reach = {}
    for s in st:
        r = set()
        w = [s]
        while w:
            a = w.pop()
            for c in reps:
                for y in step[a].get(c, {}):
                    if y not in r:
                        r.add(y)
                        w.append(y)
        reach[s] = r
    loops = [s for s in st if s in reach[s]]
    for p in loops:
        for q in loops:
            if p == q or q not in reach[p] or q in safe:
                continue
            seen = {(p, p, q)}
            work = [(p, p, q)]
            while work:
                a, b, c_ = work.pop()
                for c in reps:
                    for x in step[a].get(c, {}):
                        if p not in reach[x] and x != p:
                            continue
                        for y in step[b].get(c, {}):
                            if q not in reach[y] and y != q:
                                continue
                            for z in step[c_].get(c, {}):
                                if x == p and y == q and z == q:
                                    return "polynomial"
                                k = (x, y, z)
                                if k not in seen:
                                    seen.add(k)
                                    work.append(k)
    return None


class DFA:
    """lazily determinised; a state is a frozenset of (nfa state, guard)"""

    def __init__(self, pattern, flags=0):
        self.n = NFA(pattern, flags)
        self.start = frozenset(self.n.closure(self.n.start))
        self.memo = {}

    def accepting(self, s):
        return any(x == self.n.acc for x, g in s)

    def step(self, s, c):
        k = (s, c)
        r = self.memo.get(k)
        if r is None:
            out = set()
            for x, g in s:
                if g is not None and c not in g:
                    continue
                for cs, y in self.n.char[x]:
                    if c in cs:
                        out.update(self.n.closure(y))
            r = self.memo[k] = frozenset(out)
        return r

    def sets(self):
        return [cs for l in self.n.char for cs, y in l] + [g for l in self.n.eps for y, g in l if g is not None]

    def scan(self, text, pos=0):
        """number of characters read from pos before the pattern cannot match any more"""
        s = self.start
        i = pos
        while i < len(text) and s:
            c = text[i]
            s = self.step(s, c if c in _UNISET else "\U0001f600")
            i += 1
            if not s:
                break
        return i - pos


_UNISET = frozenset(UNI)


def failing_scan(T, U):
    """a lexeme u of U that T can read on and on, lexeme after lexeme, without ever matching; None when there is none"""
    reps = classes(T.sets() + U.sets())
    # states T reaches without having accepted
    if T.accepting(T.start):
        return None
    ok = {T.start}
    work = [T.start]
    while work:
        s = work.pop()
        for c in reps:
            t = T.step(s, c)
            if t and not T.accepting(t) and t not in ok:
                ok.add(t)
                work.append(t)
        if len(ok) > 300:
            return None
    for q in ok:
        if q == T.start:
            continue
        first = (T.start, q, U.start)
        seen = {first: ""}
        work = [first]
        while work:
            k = work.pop(0)
            a, b, u = k
            if U.accepting(u) and seen[k]:
                # b must be able to come back to q
                r = {b}
                w = [b]
                while w:
                    x = w.pop()
                    for c in reps:
                        y = T.step(x, c)
                        if y in ok and y not in r:
                            r.add(y)
                            w.append(y)
                if q in r or b == q:
                    # q must be reachable from a as well
                    r = {a}
                    w = [a]
                    while w:
                        x = w.pop()
                        for c in reps:
                            y = T.step(x, c)
                            if y in ok and y not in r:
                                r.add(y)
                                w.append(y)
                    if q in r:
                        return seen[k]
            if len(seen[k]) > 12:
                continue
            for c in sorted(reps, key=lambda c: (not c.isalnum(), c)):
                x, y, z = T.step(a, c), T.step(b, c), U.step(u, c)
                if x in ok and y in ok and z:
                    n = (x, y, z)
                    if n not in seen:
                        seen[n] = seen[k] + c
                        work.append(n)
    return None


def _nullable(tree):
    return tree.getwidth()[0] == 0


def nested_empty(tree):
    """an unbounded repetition of something that may be empty and repeats without bound itself, e.g. (a*)*"""
    for op, av in tree:
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, t = av
            if hi is C.MAXREPEAT and _nullable(t) and has_loop(t):
                return True
            if nested_empty(t):
                return True
        elif op is C.SUBPATTERN:
            if nested_empty(av[3]):
                return True
        elif op is C.BRANCH:
            if any(nested_empty(t) for t in av[1]):
                return True
    return False


def has_loop(tree):
    for op, av in tree:
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            if av[1] is C.MAXREPEAT and av[2].getwidth()[1] > 0 or has_loop(av[2]):
                return True
        elif op is C.SUBPATTERN and has_loop(av[3]) or op is C.BRANCH and any(has_loop(t) for t in av[1]):
            return True
    return False


def sample(d, k=0, rng=None, limit=14):
    """a member of the language of a DFA: the shortest for k = 0, then longer ones"""
    import random
    rng = rng or random.Random(k * 7919 + 13)
    reps = classes(d.sets())
    printable = sorted((c for c in reps if c.isprintable() or c in " \n"), key=lambda c: (not c.isalnum(), c))
    # shortest distances to acceptance by breadth-first search over the states reached
    dist = {}
    seen = {d.start: ""}
    work = [d.start]
    back = {}
    while work and len(seen) < 400:
        s = work.pop(0)
        for c in printable:
            t = d.step(s, c)
            if t:
                back.setdefault(t, []).append((s, c))
                if t not in seen:
                    seen[t] = seen[s] + c
                    work.append(t)
    acc = [s for s in seen if d.accepting(s)]
    q = list(acc)
    dist = {s: 0 for s in acc}
    while q:
        t = q.pop(0)
        for s, c in back.get(t, ()):
            if s not in dist:
                dist[s] = dist[t] + 1
                q.append(s)
    if d.start not in dist:
        return None
    s, out = d.start, ""
    want = k * 2
    while True:
        if d.accepting(s) and (len(out) >= want or not any(d.step(s, c) in dist for c in printable)):
            return out
        opts = [(c, d.step(s, c)) for c in printable]
        opts = [(c, t) for c, t in opts if t in dist]
        if len(out) >= want:
            m = min(dist[t] for c, t in opts)
            opts = [o for o in opts if dist[o[1]] == m]
            c, s = opts[0] if k == 0 else rng.choice(opts)
        else:
            c, s = rng.choice(opts)
        out += c
        if len(out) > limit + want:
            return out if d.accepting(s) else None
