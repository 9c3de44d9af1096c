"""Does a set of linear facts (each a polynomial known to be >= 0, every monomial taken as a variable)
imply another?  Exact: a non-negative combination of the facts plus a non-negative constant is sought."""
from fractions import Fraction as Fr
from math import gcd

_memo = {}


def feasible(cols, rhs):
    """is there x >= 0 with sum_j x_j cols[j] = rhs?  (dictionary columns; phase-one simplex with
    integer pivots and Bland's rule)"""
    ix = {}
    for c in cols:
        for r in c:
            ix.setdefault(r, len(ix))
    for r in rhs:
        ix.setdefault(r, len(ix))
    m, n = len(ix), len(cols)
    t = [[0] * (n + 1) for _ in range(m)]
    for j, c in enumerate(cols + [rhs]):
        for r, v in c.items():
            t[ix[r]][j] = v
    for i in range(m):
        k = 1
        for v in t[i]:
            if v:
                q = v.denominator
                k = k * q // gcd(k, q)
        if t[i][n] < 0:
            k = -k
        t[i] = [int(v * k) if v else 0 for v in t[i]]
    basis = [n + 1 + i for i in range(m)]
    z = [sum(c) for c in zip(*t)] if m else [0] * (n + 1)
    d = 1
    while z[n]:
        for e in range(n):
            if z[e] > 0:
                break
        else:
            return False
        best = None
        for i in range(m):
            p = t[i][e]
            if p > 0:
                if best is None:
                    best = i
                else:
                    x = t[i][n] * t[best][e] - t[best][n] * p
                    if x < 0 or x == 0 and basis[i] < basis[best]:
                        best = i
        if best is None:
            return False
        row = t[best]
        p = row[e]
        for i in range(m):
            if i != best:
                k = t[i][e]
                t[i] = [(a * p - k * b) // d for a, b in zip(t[i], row)] if k else [a * p // d for a in t[i]]
        k = z[e]
        # an artificial that leaves takes its own cost with it
        z = [(a * p - k * b) // d for a, b in zip(z, row)]
        basis[best] = e
        d = p
    return True


def implied(facts, g):
    """facts, g: lists of (monomial, coefficient); facts >= 0 imply g >= 0?"""
    cols = [{m: c for m, c in f} for f in facts]
    rhs = {m: c for m, c in g}
    # only facts about monomials that can matter
    need = {m for m in rhs if m != ()}
    while True:
        n = len(need)
        for c in cols:
            ms = {m for m in c if m != ()}
            if ms & need:
                need |= ms
        if len(need) == n:
            break
    cols = [c for c in cols if any(m in need for m in c)]
    cols.append({(): Fr(1)})
    rhs.setdefault((), Fr(0))
    return feasible(cols, rhs)
