"""The LR(0) automaton of the program's grammar, shortest viable prefixes, completions and nested derivations.

Used to enumerate token sequences: every (automaton state, next terminal) pair and every nesting of productions."""
from __future__ import annotations
import heapq
import lark as _L


class LR:
    def __init__(self, text, opts=None):
        o = dict(parser="lalr", lexer="contextual", propagate_positions=True)
        o.update(opts or {})
        self.L = _L.Lark(text, **o)
        self.rules = []
        self.by = {}
        self.nts = {r.origin.name for r in self.L.rules}
        for r in self.L.rules:
            n = len(self.rules)
            self.rules.append((r.origin.name, tuple(s.name for s in r.expansion), r.alias or r.origin.name))
            self.by.setdefault(r.origin.name, []).append(n)
        self.terms = {t.name: t for t in self.L.terminals}
        ignored = set(self.L.ignore_tokens)
        used = {s for l, rhs, a in self.rules for s in rhs if s not in self.nts}
        self.used = sorted(used - ignored)
        self.ignored = sorted(ignored)
        self.minlen()
        self.automaton()

    # shortest terminal yield of each symbol
    def minlen(self):
        self.y = {t: (t,) for l, rhs, a in self.rules for t in rhs if t not in self.nts}
        ch = True
        while ch:
            ch = False
            for l, rhs, a in self.rules:
                if all(s in self.y for s in rhs):
                    y = tuple(t for s in rhs for t in self.y[s])
                    if l not in self.y or len(y) < len(self.y[l]):
                        self.y[l] = y
                        ch = True

    def closure(self, kernel):
        out = dict.fromkeys(kernel)
        work = list(kernel)
        while work:
            r, d = work.pop()
            rhs = self.rules[r][1] if r >= 0 else ("start",)
            if d < len(rhs) and rhs[d] in self.nts:
                for n in self.by[rhs[d]]:
                    if (n, 0) not in out:
                        out[(n, 0)] = None
                        work.append((n, 0))
        return list(out)

    def automaton(self):
        self.kernels = [((-1, 0),)]
        idx = {self.kernels[0]: 0}
        self.goto = [{}]
        work = [0]
        while work:
            s = work.pop(0)
            nxt = {}
            for r, d in self.closure(self.kernels[s]):
                rhs = self.rules[r][1] if r >= 0 else ("start",)
                if d < len(rhs):
                    nxt.setdefault(rhs[d], []).append((r, d + 1))
            for sym, k in nxt.items():
                k = tuple(sorted(k))
                if k not in idx:
                    idx[k] = len(self.kernels)
                    self.kernels.append(k)
                    self.goto.append({})
                    work.append(idx[k])
                self.goto[s][sym] = idx[k]
        # shortest viable prefix (by yield length) of every state
        best = {0: (0, ())}
        pq = [(0, 0, ())]
        while pq:
            c, s, path = heapq.heappop(pq)
            if best[s][0] < c:
                continue
            for sym, t in self.goto[s].items():
                n = c + len(self.y[sym])
                if t not in best or n < best[t][0]:
                    best[t] = (n, path + (sym,))
                    heapq.heappush(pq, (n, t, path + (sym,)))
        self.prefix = {s: p for s, (c, p) in best.items()}

    def yields(self, syms):
        return [t for s in syms for t in self.y[s]]

    def states_of(self, syms):
        st = [0]
        for s in syms:
            st.append(self.goto[st[-1]][s])
        return st

    def completion(self, syms, limit=400):
        """shortest terminals that complete a viable prefix of symbols to a sentence, or None"""
        start = tuple(self.states_of(syms))
        seen = {start: 0}
        pq = [(0, 0, start, ())]
        n = 0
        while pq and n < limit:
            c, _, st, out = heapq.heappop(pq)
            n += 1
            for r, d in self.kernels[st[-1]]:
                if r < 0:
                    if d == 1:
                        return list(out)
                    continue
                l, rhs, a = self.rules[r]
                rest = self.yields(rhs[d:])
                base = st[: len(st) - d]
                if l not in self.goto[base[-1]]:
                    continue
                ns = base + (self.goto[base[-1]][l],)
                nc = c + len(rest)
                if ns not in seen or nc < seen[ns] :
                    seen[ns] = nc
                    heapq.heappush(pq, (nc, len(seen), ns, out + tuple(rest)))
            # an empty production (composite_body) may come first
            for r, d in self.closure(self.kernels[st[-1]]):
                if r >= 0 and not self.rules[r][1]:
                    l = self.rules[r][0]
                    ns = st + (self.goto[st[-1]][l],)
                    if ns not in seen or c < seen[ns]:
                        seen[ns] = c
                        heapq.heappush(pq, (c, len(seen), ns, out))
        return None

    def reductions(self, p):
        """viable prefixes reachable from p by completed productions, p first"""
        out, work = [], [tuple(p)]
        while work and len(out) < 200:
            p = work.pop(0)
            if p in out:
                continue
            out.append(p)
            st = self.states_of(p)
            for r, d in self.closure(self.kernels[st[-1]]):
                if r >= 0:
                    l, rhs, a = self.rules[r]
                    if d == len(rhs) and l in self.goto[st[len(st) - 1 - d]]:
                        work.append(p[: len(p) - d] + (l,))
        return out

    def shift(self, p, term):
        """the viable prefix behind the terminal, completed productions are followed; None when it cannot come next"""
        for q in self.reductions(p):
            if term in self.goto[self.states_of(q)[-1]]:
                return q + (term,)
        return None

    def after(self, s, term):
        return self.shift(self.prefix[s], term)

    # ------------------------------------------------------------- derivations
    def contexts(self):
        """{nonterminal: (terminals before, terminals after)} of a shortest sentence holding it"""
        best = {"start": ((), ())}
        pq = [(0, "start")]
        cost = {"start": 0}
        while pq:
            c, nt = heapq.heappop(pq)
            if cost[nt] < c:
                continue
            b, a = best[nt]
            for r in self.by[nt]:
                rhs = self.rules[r][1]
                for i, s in enumerate(rhs):
                    if s in self.nts:
                        nb = b + tuple(self.yields(rhs[:i]))
                        na = tuple(self.yields(rhs[i + 1:])) + a
                        n = len(nb) + len(na)
                        if s not in cost or n < cost[s]:
                            cost[s] = n
                            best[s] = (nb, na)
                            heapq.heappush(pq, (n, s))
        return best

    def nestings(self, depth):
        """terminal sequences: every chain of `depth` productions nested in each other, in a shortest sentence"""
        ctx = self.contexts()
        out = {}

        def expand(r, d):
            """[(terminals, label)] of production r with one nested chain of d further productions"""
            rhs = self.rules[r][1]
            if d == 0:
                return [(tuple(self.yields(rhs)), "%d" % r)]
            res = []
            for i, s in enumerate(rhs):
                if s in self.nts:
                    pre, post = tuple(self.yields(rhs[:i])), tuple(self.yields(rhs[i + 1:]))
                    for q in self.by[s]:
                        for t, l in expand(q, d - 1):
                            res.append((pre + t + post, "%d.%d>%s" % (r, i, l)))
            return res or [(tuple(self.yields(rhs)), "%d" % r)]

        for nt in ctx:
            b, a = ctx[nt]
            for r in self.by[nt]:
                for t, l in expand(r, depth - 1):
                    out.setdefault(b + t + a, l)
        return out
