"""Decision procedures and transfer functions on abstract strings.

Three-valued: True (for every string denoted), False (for none), None (undecided)."""
from __future__ import annotations
from .values import *


def min_len(s):
    return len(s) if isinstance(s, str) else sum(len(p) if isinstance(p, str) else p.lo for p in s.parts)


def max_len(s):
    if isinstance(s, str):
        return len(s)
    t = 0
    for p in s.parts:
        if isinstance(p, str):
            t += len(p)
        elif p.hi is None:
            return None
        else:
            t += p.hi
    return t


def chars_of(s):
    out = set()
    for p in sparts(s):
        out |= set(p) if isinstance(p, str) else p.cs
    return out


def _pm(parts, i, off, lit):
    """does parts[i][off:] start with lit?"""
    while True:
        if lit == "":
            return True
        if i >= len(parts):
            return False
        p = parts[i]
        if isinstance(p, str):
            seg = p[off:]
            n = min(len(seg), len(lit))
            if seg[:n] != lit[:n]:
                return False
            lit = lit[n:]
            i, off = i + 1, 0
            continue
        res = set()
        if p.lo == 0:
            res.add(_pm(parts, i + 1, 0, lit))
        # consume k chars from the atom
        hi = p.hi if p.hi is not None else len(lit)
        k = 0
        while k < len(lit) and k < hi:
            if lit[k] not in p.cs:
                break
            k += 1
        if k < max(1, p.lo) and k < len(lit):
            # cannot supply the mandatory characters
            if p.lo > 0:
                return False
            return list(res)[0] if len(res) == 1 else None
        # some prefix lengths 1..k possible
        exact = len(p.cs) == 1
        if exact and p.lo >= len(lit):
            return True
        poss = False
        for n in range(max(1, p.lo), k + 1):
            if n >= len(lit):
                poss = True
                break
            if p.hi is not None and n > p.hi:
                break
            if _pm(parts, i + 1, 0, lit[n:]) is not False:
                poss = True
                break
        if k >= len(lit):
            poss = True
        res.add(None if poss else False)
        return list(res)[0] if len(res) == 1 else None


def starts(s, lit):
    if isinstance(s, str):
        return s.startswith(lit)
    return _pm(s.parts, 0, 0, lit)


def rev(s):
    if isinstance(s, str):
        return s[::-1]
    return AStr([p[::-1] if isinstance(p, str) else p for p in reversed(s.parts)])


def ends(s, lit):
    if isinstance(s, str):
        return s.endswith(lit)
    return starts(rev(s), lit[::-1])


def may_equal(s, lit):
    """can the string equal lit?  (NFA simulation)"""
    toks = expand(s)
    # states: (tok index, count in atom capped)
    states = {(0, 0)}

    def closure(st):
        out = set(st)
        work = list(st)
        while work:
            i, n = work.pop()
            if i < len(toks) and toks[i][0] == "a" and n >= toks[i][1].lo:
                q = (i + 1, 0)
                if q not in out:
                    out.add(q)
                    work.append(q)
        return out

    states = closure(states)
    for ch in lit:
        nxt = set()
        for i, n in states:
            if i >= len(toks):
                continue
            k, v = toks[i]
            if k == "c":
                if v == ch:
                    nxt.add((i + 1, 0))
            else:
                c2 = ch if ch in UNIVERSE else "\u6f22"
                if c2 in v.cs and (v.hi is None or n < v.hi):
                    nxt.add((i, min(n + 1, v.lo + 1) if v.hi is None else n + 1))
        states = closure(nxt)
        if not states:
            return False
    return any(i == len(toks) for i, n in states)


def may_intersect(a, b):
    """can two abstract strings denote a common string?"""
    if isinstance(a, str):
        return may_equal(b, a)
    if isinstance(b, str):
        return may_equal(a, b)
    ta, tb = expand(a), expand(b)

    def clos(toks, st):
        out = {st}
        work = [st]
        while work:
            i, n = work.pop()
            if i < len(toks) and toks[i][0] == "a" and n >= toks[i][1].lo:
                q = (i + 1, 0)
                if q not in out:
                    out.add(q)
                    work.append(q)
        return out

    def step(toks, st):
        for i, n in clos(toks, st):
            if i >= len(toks):
                continue
            k, v = toks[i]
            if k == "c":
                yield frozenset([v]), (i + 1, 0)
            elif v.hi is None or n < v.hi:
                yield v.cs, (i, min(n + 1, v.lo) if v.hi is None else n + 1)

    seen = {((0, 0), (0, 0))}
    work = list(seen)
    while work:
        sa, sb = work.pop()
        if any(i == len(ta) for i, n in clos(ta, sa)) and any(i == len(tb) for i, n in clos(tb, sb)):
            return True
        for ca, na in step(ta, sa):
            for cb, nb in step(tb, sb):
                if ca & cb:
                    q = (na, nb)
                    if q not in seen:
                        seen.add(q)
                        work.append(q)
    return False


def contains(s, lit):
    """lit in s"""
    if isinstance(s, str):
        return lit in s
    if lit == "":
        return True
    for p in s.parts:
        if isinstance(p, str) and lit in p:
            return True
    for p in s.parts:
        if not isinstance(p, str) and len(p.cs) == 1 and lit in (list(p.cs)[0] * p.lo):
            return True
    # possible at all?
    anyc = Atom("__any", UNIVERSE, 0, None)
    pat = mkstr([anyc, lit, anyc])
    return None if may_intersect(s, pat) else False


def isdigit_like(s, cs):
    """are all characters in cs (and non-empty)?"""
    if isinstance(s, str):
        return bool(s) and all(c in cs for c in s)
    res = True
    for p in s.parts:
        if isinstance(p, str):
            if not all(c in cs for c in p):
                return False
        else:
            if p.cs <= cs:
                continue
            if p.lo > 0 and not (p.cs & cs):
                return False
            res = None
    if res and min_len(s) == 0:
        return None
    return res


def lower(s):
    return s.lower() if isinstance(s, str) else mkstr([p.lower() if isinstance(p, str) else p.transform("lower") for p in s.parts])


def upper(s):
    return s.upper() if isinstance(s, str) else mkstr([p.upper() if isinstance(p, str) else p.transform("upper") for p in s.parts])


def lstrip(s, chars=None):
    """returns the stripped string or None when undecided"""
    cset = PYSPACE if chars is None else frozenset(chars)
    parts = list(sparts(s))
    while parts:
        p = parts[0]
        if isinstance(p, str):
            q = p.lstrip(chars) if chars is not None else p.lstrip()
            if q:
                parts[0] = q
                return mkstr(parts)
            parts.pop(0)
        else:
            if not (p.cs & cset):
                if p.lo > 0:
                    return mkstr(parts)
                # may be empty: then the following part would be stripped
                rest = mkstr(parts[1:])
                r2 = lstrip(rest, chars)
                if r2 is not None and r2 == rest:
                    return mkstr(parts)
                return None
            if p.cs <= cset:
                parts.pop(0)
                continue
            return None
    return ""


def rstrip(s, chars=None):
    r = lstrip(rev(s) if not isinstance(s, str) else s[::-1], chars)
    if r is None:
        return None
    return rev(r) if not isinstance(r, str) else r[::-1]


def strip(s, chars=None):
    r = lstrip(s, chars)
    return None if r is None else rstrip(r, chars)


def split_lit(s, sep, maxsplit=-1):
    """split on a literal separator; None when undecided (a block may contain the separator)."""
    if isinstance(s, str):
        return s.split(sep, maxsplit)
    for p in s.parts:
        if not isinstance(p, str) and (set(sep) & p.cs):
            # an atom may contribute to a separator
            if len(sep) == 1 or contains(mkstr([p]), sep) is not False:
                return None
            return None
    out = [[]]
    n = 0
    for p in s.parts:
        if isinstance(p, str):
            if maxsplit < 0:
                segs = p.split(sep)
            else:
                segs = p.split(sep, maxsplit - n)
            n += len(segs) - 1
            out[-1].append(segs[0])
            for x in segs[1:]:
                out.append([x])
        else:
            out[-1].append(p)
    return [mkstr(x) for x in out]


def split_ws(s, maxsplit=-1):
    if isinstance(s, str):
        return s.split(None, maxsplit)
    if maxsplit >= 0:
        r = lstrip(s)
        if r is None:
            return None
    for p in s.parts:
        if not isinstance(p, str) and (p.cs & PYSPACE):
            return None
    out = []
    cur = []
    have = False
    parts = list(s.parts)
    if maxsplit < 0:
        for p in parts:
            if isinstance(p, str):
                for ch in p:
                    if ch.isspace():
                        if have:
                            out.append(mkstr(cur))
                        cur, have = [], False
                    else:
                        cur.append(ch)
                        have = True
            else:
                cur.append(p)
                if p.lo > 0:
                    have = True
                elif not have:
                    # a possibly-empty block alone between separators
                    nonempty = None
                    have = True
                    if nonempty is None and p.lo == 0:
                        cur_only = True
                        # undecided unless a neighbour literal makes the word non-empty
                        idx = parts.index(p)
                        nb = parts[idx + 1] if idx + 1 < len(parts) else None
                        if not (isinstance(nb, str) and nb and not nb[0].isspace()):
                            return None
        if have:
            out.append(mkstr(cur))
        return out
    # maxsplit: leading fields, the rest keeps its spaces
    rest = lstrip(s)
    while maxsplit > 0:
        if rest == "":
            return out
        word, tail, found = [], [], False
        for p in sparts(rest):
            if found:
                tail.append(p)
            elif isinstance(p, str):
                k = next((i for i, ch in enumerate(p) if ch.isspace()), None)
                if k is None:
                    word.append(p)
                else:
                    word.append(p[:k])
                    tail.append(p[k:])
                    found = True
            else:
                word.append(p)
        out.append(mkstr(word))
        rest = lstrip(mkstr(tail))
        if rest is None:
            return None
        maxsplit -= 1
    if rest != "":
        r = rstrip(rest) if False else rest
        out.append(r)
    return out


def replace_lit(s, a, b, count=-1):
    """s.replace(a, b); None when undecided"""
    if isinstance(s, str):
        if isinstance(b, str):
            return s.replace(a, b, count)
        pieces = s.split(a, count)
        out = []
        for i, p in enumerate(pieces):
            if i:
                out.append(b)
            out.append(p)
        return mkstr(out)
    if contains(s, a) is False:
        return s
    if count >= 0:
        return None
    # every occurrence must lie inside one literal part
    for p in s.parts:
        if not isinstance(p, str) and (p.cs & set(a)):
            return None
    return mkstr([q for p in s.parts for q in ([replace_lit(p, a, b)] if isinstance(p, str) else [p])])


def slice_(s, lo, hi):
    """s[lo:hi] with int/None bounds; None when undecided."""
    toks = expand(s)
    fixed = all(k == "c" or v.lo == v.hi == 1 for k, v in toks)
    if fixed:
        sl = toks[lo:hi]
        return mkstr([v for k, v in sl])

    def cut_front(toks, n):
        toks = list(toks)
        while n > 0:
            if not toks:
                return toks
            k, v = toks[0]
            if k == "c":
                toks.pop(0)
                n -= 1
            elif v.lo == v.hi:
                if v.lo <= n:
                    toks.pop(0)
                    n -= v.lo
                else:
                    return None
            else:
                return None
        return toks

    def cut_back(toks, n):
        r = cut_front(list(reversed(toks)), n)
        return None if r is None else list(reversed(r))

    if lo is None:
        lo = 0
    res = toks
    if lo >= 0:
        res = cut_front(res, lo)
        if res is None:
            return None
        if hi is None:
            return mkstr([v for k, v in res])
        if hi < 0:
            # need total length >= lo - hi
            if min_len(s) < lo - hi:
                return None
            res = cut_back(res, -hi)
            return None if res is None else mkstr([v for k, v in res])
        n = hi - lo
        out = []
        for k, v in res:
            if n <= 0:
                break
            if k == "c":
                out.append(v)
                n -= 1
            elif v.lo == v.hi and v.lo <= n:
                out.append(v)
                n -= v.lo
            else:
                return None
        return mkstr(out)
    else:
        # s[-k:...]: keep the last k characters
        k = -lo
        if hi is not None and hi >= 0:
            return None
        if min_len(s) < k:
            return None
        out = []
        n = k
        for kk, v in reversed(toks):
            if n <= 0:
                break
            if kk == "c":
                out.append(v)
                n -= 1
            elif v.lo == v.hi and v.lo <= n:
                out.append(v)
                n -= v.lo
            else:
                return None
        out.reverse()
        r = mkstr(out)
        if hi is not None:
            return slice_(r, 0, hi)
        return r


def index_(s, i):
    """single character s[i]; returns string/AStr, 'IndexError' sentinel False, or None."""
    if isinstance(s, str):
        return s[i] if -len(s) <= i < len(s) else False
    if i >= 0:
        toks = expand(s)
    else:
        toks = list(reversed(expand(s)))
        i = -i - 1
    ml = max_len(s)
    if ml is not None and i >= ml:
        return False
    for k, v in toks:
        if k == "c":
            if i == 0:
                return v
            i -= 1
        else:
            if v.lo == v.hi:
                if i < v.lo:
                    return AStr([Atom(v.name + "[%d]" % i, v.cs, 1, 1, v.xf)])
                i -= v.lo
            elif i == 0 and v.lo >= 1:
                return AStr([Atom(v.name + "[0]", v.cs, 1, 1, v.xf)])
            else:
                return None
    return False


def count_char(s, ch):
    """number of occurrences when decided"""
    n = 0
    for p in sparts(s):
        if isinstance(p, str):
            n += p.count(ch)
        elif ch in p.cs:
            return None
    return n


def witness(s, k=0):
    """a concrete member of the abstract string; k selects the variant. Returns (text, spans) with spans giving for
    every position of `parts` the character range."""
    out = []
    spans = []
    pos = 0
    for p in sparts(s):
        if isinstance(p, str):
            w = p
        else:
            w = atom_witness(p, k)
        spans.append((pos, pos + len(w)))
        pos += len(w)
        out.append(w)
    return "".join(out), spans


_PREF = "qzjkxvwQZJKX7539_-:.,;=&|<>!%*+@$?~^#/\\'\"`()[]{} \t"


def atom_witness(a, k=0):
    if a.wit:
        w = a.wit[k % len(a.wit)]
        return w
    cs = a.cs
    order = [c for c in _PREF if c in cs] + sorted(cs - set(_PREF))
    lo = max(a.lo, 1)
    n = lo if a.hi is not None and a.hi == lo else max(lo, 3)
    if a.hi is not None:
        n = min(n, a.hi)
    if k % 3 == 1 and a.lo <= 1:
        n = a.lo if a.lo else (1 if a.hi is None or a.hi >= 1 else 0)
    k0 = (k * 7) % max(1, len(order))
    return "".join(order[(k0 + i) % len(order)] for i in range(n))
