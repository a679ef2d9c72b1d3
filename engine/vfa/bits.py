"""Exact bit-level and table reasoning for values built from named bits.

A value whose only unknowns are bits (0/1 symbols introduced by vf_bit) is a
sum of distinct powers of two; shifts, masks, truncations and recombinations of
such values are exact and need no case distinction.  A constant table read at
an unknown index is a value number of its own (the slice of the table that can
be addressed, and the index); looking such a value up in the same table gives
the index back.
"""
from .terms import *
from . import terms as T

USED = [False]


def new_bit():
    USED[0] = True
    return poly(T.sym('bit', True, 0, 1))


def is_bit(a):
    return a.op == 'sym' and a.lo == 0 and a.hi == 1 and a.is_int


def slots(p, n, facts=None):
    """the n low bits of p (two's complement) as a list of 0, 1 or polynomials; None = not known"""
    if facts is not None:
        p = facts.norm(p)
    out = [0] * n
    k = 0
    for m, c in p.t.items():
        if c != int(c):
            return None
        c = int(c) % (1 << n)
        if not m:
            k = c
            continue
        if len(m) != 1 or m[0][1] != 1 or not is_bit(m[0][0]):
            return None
        i = 0
        while c:
            if c & 1:
                if out[i] != 0:
                    return None
                out[i] = poly(m[0][0])
            c >>= 1
            i += 1
    i = 0
    while k:
        if k & 1:
            if out[i] != 0:
                return None
            out[i] = 1
        k >>= 1
        i += 1
    return out


def join_bits(s, signed=False):
    r = ZERO
    for i, b in enumerate(s):
        w = 1 << i
        if signed and i == len(s) - 1:
            w = -w
        r = r + (P(b * w) if isinstance(b, int) else b.scale(w))
    return r


def has_bit(p):
    return any(is_bit(a) for m in p.t for a, e in m)


def bitwise(op, x, y, n, facts):
    x, y = facts.norm(x), facts.norm(y)
    if not has_bit(x) and not has_bit(y):
        return None
    a, b = slots(x, n), slots(y, n)
    if a is None or b is None:
        return None
    out = []
    for u, v in zip(a, b):
        if isinstance(u, Poly) and isinstance(v, Poly):
            if u != v:
                return None
            out.append(u if op in ('and', 'or') else 0)
            continue
        if isinstance(u, Poly):
            u, v = v, u
        # u is 0 or 1
        if op == 'and':
            out.append(v if u else 0)
        elif op == 'or':
            out.append(1 if u else v)
        elif u == 0:
            out.append(v)
        elif isinstance(v, int):
            out.append(1 - v)
        else:
            return None
    return join_bits(out, True)


# ------------------------------------------------------------ tables
def runs(vals, lo):
    """maximal affine pieces [(first, last, difference)] of consecutive entries"""
    out = []
    for j, v in enumerate(vals):
        i = lo + j
        if out and v - i == out[-1][2]:
            out[-1] = (out[-1][0], i, v - i)
        else:
            out.append((i, i, v - i))
    return out


def tab_at(st, vals, i, is_int=True):
    """vals[i] for an unknown index i, already known to be inside"""
    f = st.facts
    i = f.norm(i)
    lo, hi = 0, len(vals) - 1
    a, b = f.bounds(i)
    if a is not None:
        lo = max(lo, int(a))
    if b is not None:
        hi = min(hi, int(b))
    if lo > hi:
        return None
    for x, y, d in runs(vals[lo:hi + 1], lo):
        if is_int and f.ge(i, P(x)) and f.ge(P(y), i):
            return i + d
    # narrow by what the path knows
    while lo < hi and f.ge(i, P(lo + 1)):
        lo += 1
    while lo < hi and f.ge(P(hi - 1), i):
        hi -= 1
    s = tuple(vals[lo:hi + 1])
    return poly(app('tab', (lo, s, i), is_int, min(s), max(s)))


def tabs_in(p):
    return {a for m in p.t for a, e in m if a.op == 'tab'}


def resolve(st, p, Split):
    """split the index of a table entry until the entry is affine in the index"""
    p = st.facts.norm(p)
    for a in sorted(tabs_in(p), key=repr):
        lo, vals, i = a.args
        i = st.facts.norm(i)
        rs = runs(vals, lo)
        for x, y, d in rs:
            if st.facts.ge(i, P(x)) and st.facts.ge(P(y), i):
                fs = st.facts.assume(mk_eq(poly(a) - i - d))
                if fs:
                    st.facts = fs[0]
                break
        else:
            cand = [r for r in rs if not st.facts.gt(P(r[0]), i) and not st.facts.gt(i, P(r[1]))]
            if len(cand) < 2:
                continue
            x, y, d = cand[0]
            if len(cand) > 3:
                x, y, d = cand[len(cand) // 2 - 1]
            raise Split(mk_ge(P(y) - i))
    return st.facts.norm(p)


def decide(st, pred, d, Split):
    """truth of d <pred> 0 when d is a table entry plus a constant; None = unknown"""
    d = st.facts.norm(d)
    ts = tabs_in(d)
    if not ts:
        return None
    if len(ts) == 1 and len([m for m in d.t if m]) == 1:
        a = next(iter(ts))
        m = next(m for m in d.t if m)
        if len(m) == 1 and m[0][1] == 1:
            c, k = d.t[m], d.c0()
            vs = {v * c + k for v in a.args[1]}
            res = {{'eq': v == 0, 'ne': v != 0, 'slt': v < 0, 'sle': v <= 0, 'sgt': v > 0, 'sge': v >= 0}[pred] for v in vs}
            if len(res) == 1:
                return res.pop()
    elif pred in ('eq', 'ne') and len(ts) == 2 and len([m for m in d.t if m]) == 2 and d.c0() == 0:
        # two entries of tables without repetition: equal exactly at equal indices
        a, b = sorted(ts, key=repr)
        if sorted(d.t.values()) == [-1, 1] and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(set(a.args[1])) == len(a.args[1]):
            e = mk_eq(a.args[2] - b.args[2])
            return e if pred == 'eq' else neg(e)
    resolve(st, d, Split)
    return None
