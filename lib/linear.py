"""Small exact reasoning over linear integer facts (Fourier-Motzkin with gcd tightening).

A constraint is (terms, c): sum coef*id + c >= 0, terms a sorted tuple of (id, coef)."""
from math import gcd
from functools import lru_cache

MAXC = 400


def mk(d, c):
    return (tuple(sorted((k, v) for k, v in d.items() if v)), c)


def add(a, b, k=1):
    d = dict(a[0])
    for i, v in b[0]:
        d[i] = d.get(i, 0) + k * v
    return mk(d, a[1] + k * b[1])


def neg(a):
    return (tuple((i, -v) for i, v in a[0]), -a[1])


def scale(a, k):
    if k == 0:
        return ((), 0)
    return (tuple((i, v * k) for i, v in a[0]), a[1] * k)


def shift(a, c):
    return (a[0], a[1] + c)


def norm(a):
    if not a[0]:
        return a
    g = 0
    for _, v in a[0]:
        g = gcd(g, v)
    if g > 1:
        return (tuple((i, v // g) for i, v in a[0]), a[1] // g)  # floor division: integer tightening
    return a


@lru_cache(maxsize=200000)
def infeasible(cs):
    """True if the conjunction of constraints (a frozenset) has no integer solution (sound, incomplete)."""
    cur = {}
    for t, c in cs:
        t, c = norm((t, c))
        if not t:
            if c < 0:
                return True
            continue
        if t not in cur or c < cur[t]:
            cur[t] = c
    while cur:
        # pick the variable with the smallest fan
        pos, ng = {}, {}
        for t in cur:
            for i, v in t:
                if v > 0:
                    pos.setdefault(i, []).append(t)
                else:
                    ng.setdefault(i, []).append(t)
        vs = set(pos) | set(ng)
        best = min(vs, key=lambda i: (len(pos.get(i, ())) * len(ng.get(i, ())), i))
        P, N = pos.get(best, []), ng.get(best, [])
        new = {t: c for t, c in cur.items() if not any(i == best for i, _ in t)}
        for p in P:
            pv = dict(p)[best]
            for n in N:
                nv = -dict(n)[best]
                d = {}
                for i, v in p:
                    d[i] = d.get(i, 0) + v * nv
                for i, v in n:
                    d[i] = d.get(i, 0) + v * pv
                t, c = norm(mk(d, cur[p] * nv + cur[n] * pv))
                if not t:
                    if c < 0:
                        return True
                    continue
                if t not in new or c < new[t]:
                    new[t] = c
        if len(new) > MAXC:
            return False
        cur = new
    return False


def relevant(facts, ids):
    """facts connected with ids through shared variables"""
    ids = set(ids)
    rest = list(facts)
    out = []
    changed = True
    while changed:
        changed = False
        nrest = []
        for f in rest:
            if any(i in ids for i, _ in f[0]):
                out.append(f)
                for i, _ in f[0]:
                    ids.add(i)
                changed = True
            else:
                nrest.append(f)
        rest = nrest
    return out, ids
