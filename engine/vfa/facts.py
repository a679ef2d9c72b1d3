"""The relational numeric domain: conjunctions of linear constraints over
monomials (a constraint-based polyhedra domain) + disequalities + boolean atom
values.  Emptiness/entailment use Fourier-Motzkin projection with integer
tightening; anything too large answers "don't know" (over-approximation)."""
from fractions import Fraction
from math import gcd, floor
from .terms import *
from . import terms as T

AX = {}          # atom -> list of Cmp universally valid for the atom
STATS = {'entail': 0, 'fm': 0, 'giveup': 0}
_cache = {}
FM_CAP = 900


def add_axiom(atom, cond):
    if cond is True:
        return
    AX.setdefault(atom, []).append(cond)


def _rows_of(c):
    """Cmp ge/gt/eq -> rows (coef dict, const, strict)"""
    d = {m: v for m, v in c.p.t.items() if m}
    k = c.p.c0()
    if c.op == 'ge':
        return [(d, k, False)]
    if c.op == 'gt':
        return [(d, k, True)]
    if c.op == 'eq':
        return [(d, k, False), ({m: -v for m, v in d.items()}, -k, False)]
    return []


def mono_bounds(m):
    """(lo, hi) of a monomial from its atoms' static bounds"""
    lo, hi = 1, 1
    for a, e in m:
        al, ah = a.lo, a.hi
        if e < 0:
            if al is not None and al > 0:
                lo_, hi_ = 0, None
            else:
                lo_, hi_ = None, None
        elif e % 2 == 0:
            lo_ = 0
            hi_ = None
            if al is not None and ah is not None:
                hi_ = max(al * al, ah * ah) ** (e // 2)
                if al >= 0:
                    lo_ = al ** e
        else:
            lo_ = None if al is None else al ** e
            hi_ = None if ah is None else ah ** e
        # interval product
        if (lo, hi) == (1, 1):
            lo, hi = lo_, hi_
        else:
            vals = []
            unk = False
            for x in (lo, hi):
                for y in (lo_, hi_):
                    if x is None or y is None:
                        unk = True
                    else:
                        vals.append(x * y)
            if not unk:
                lo, hi = min(vals), max(vals)
            elif lo is not None and lo >= 0 and lo_ is not None and lo_ >= 0:
                lo, hi = lo * lo_, None
            else:
                lo, hi = None, None
    return lo, hi


def mono_int(m):
    return all(a.is_int and e > 0 for a, e in m)


def _normrow(d, k, strict):
    g = 0
    isint = True
    for m, v in d.items():
        if isinstance(v, Fraction):
            if v.denominator != 1:
                isint = None
                break
            v = int(v)
    if isint is None or (isinstance(k, Fraction) and k.denominator != 1):
        L = 1
        for v in list(d.values()) + [k]:
            den = Fraction(v).denominator
            L = L * den // gcd(L, den)
        d = {m: int(v * L) for m, v in d.items()}
        k = int(k * L)
    else:
        d = {m: int(v) for m, v in d.items()}
        k = int(k)
    for v in d.values():
        g = gcd(g, v)
    if g == 0:
        return d, k, strict
    if all(mono_int(m) for m in d):
        if strict:
            k -= 1
            strict = False
        if g > 1:
            d = {m: v // g for m, v in d.items()}
            k = k // g      # floor: tightening
    elif g > 1:
        h = gcd(g, k)
        if h > 1:
            d = {m: v // h for m, v in d.items()}
            k //= h
    return d, k, strict


def int_bounds_empty(rows):
    """bounds of the single unknowns, rounded to whole numbers as they propagate, contradict each other"""
    if len(rows) > 60 or not any(len(d) > 1 and any(v not in (1, -1) for v in d.values()) for d, _, _ in rows):
        return False
    lo, hi, ints = {}, {}, {}
    todo = []
    for d, k, s in rows:
        for m in d:
            if m not in ints:
                ints[m] = mono_int(m)
        todo.append((list(d.items()), k))
    todo.sort(key=lambda r: len(r[0]))
    for _ in range(8):
        moved = False
        for d, k in todo:
            # sum v*m + k >= 0: the greatest value of each term bounds the others
            tops, missing = 0, None
            for m, v in d:
                b = hi.get(m) if v > 0 else lo.get(m)
                if b is None:
                    if missing is not None:
                        break
                    missing = m
                else:
                    tops += v * b
            else:
                for m, v in d:
                    if missing is not None and m != missing:
                        continue
                    b = hi.get(m) if v > 0 else lo.get(m)
                    rest = tops + k - (v * b if missing is None else 0)
                    # v*m >= -rest
                    if ints[m]:
                        x = -(rest // v) if v > 0 else rest // -v
                    else:
                        x = Fraction(-rest) / v
                    if v > 0:
                        if m not in lo or x > lo[m]:
                            lo[m] = x
                            moved = True
                    elif m not in hi or x < hi[m]:
                        hi[m] = x
                        moved = True
                    if m in lo and m in hi and lo[m] > hi[m]:
                        return True
        if not moved:
            return False
    return False


def fm_infeasible(rows):
    STATS['fm'] += 1
    tab = {}

    def put(tab, d, k, s):
        if not d:
            return k < 0 or (s and k <= 0)
        key = frozenset(d.items())
        o = tab.get(key)
        if o is None or k < o[1] or (k == o[1] and s and not o[2]):
            tab[key] = (d, k, s)
        return False

    for d, k, s in rows:
        d, k, s = _normrow(d, k, s)
        if put(tab, d, k, s):
            return True
    if len(tab) > 12:
        # opposite pairs first: the elimination may give up
        for d, k, s in tab.values():
            o = tab.get(frozenset((m, -v) for m, v in d.items()))
            if o is not None and (k + o[1] < 0 or (k + o[1] == 0 and (s or o[2]))):
                return True
    first = list(tab.values())
    while True:
        cnt = {}
        for d, k, s in tab.values():
            for m, v in d.items():
                c = cnt.setdefault(m, [0, 0])
                c[0 if v > 0 else 1] += 1
        if not cnt:
            return int_bounds_empty(first)
        best = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1])
        p, n = cnt[best]
        if p * n > 4000 or len(tab) > FM_CAP:
            STATS['giveup'] += 1
            return False
        pos, ng, rest = [], [], {}
        for key, (d, k, s) in tab.items():
            v = d.get(best)
            if v is None:
                rest[key] = (d, k, s)
            elif v > 0:
                pos.append((d, k, s))
            else:
                ng.append((d, k, s))
        tab = rest
        for d1, k1, s1 in pos:
            a = d1[best]
            for d2, k2, s2 in ng:
                b = -d2[best]
                d = {}
                for m, v in d1.items():
                    if m != best:
                        d[m] = v * b
                for m, v in d2.items():
                    if m != best:
                        x = d.get(m, 0) + v * a
                        if x:
                            d[m] = x
                        else:
                            d.pop(m, None)
                d, k, s = _normrow(d, k1 * b + k2 * a, s1 or s2)
                if put(tab, d, k, s):
                    return True


class Facts:
    __slots__ = ('cons', 'nes', 'b', 'sub', '_key', 'rawb')

    def __init__(self, cons=(), nes=(), b=None, sub=None, rawb=()):
        self.cons, self.nes = cons, nes
        self.b = b or {}
        self.sub = sub or {}
        self._key = None
        self.rawb = rawb   # disjunctions kept verbatim

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.cons), frozenset(self.nes), frozenset(self.b.items()))
        return self._key

    def norm(self, p):
        if not self.sub:
            return p
        for _ in range(6):
            q = subst(p, self.sub)
            if q is p:
                return p
            p = q
        return p

    def norm_any(self, v):
        if not self.sub:
            return v
        for _ in range(6):
            q = subst_any(v, self.sub)
            if q is v or q == v:
                return q
            v = q
        return v

    def noabs(self, p):
        """|w| replaced by w or -w where the sign is known"""
        for a in list(p.atoms()):
            if a.op == 'iabs':
                w = a.args[0]
                if self.ge(w):
                    p = subst(p, {a: w})
                elif self.ge(-w):
                    p = subst(p, {a: -w})
        return p

    def csub(self, c):
        if not self.sub:
            return c
        for _ in range(6):
            d = cond_subst(c, self.sub)
            if d is c or d is True or d is False or d == c:
                return d
            c = d
        return c

    # ---- entailment
    def infeasible_with(self, cmps):
        cmps = [c for c in cmps]
        key = (self.key(), tuple(cmps))
        r = _cache.get(key)
        if r is not None:
            return r
        rows = gather(self, [c.p for c in cmps])
        for c in cmps:
            rows.extend(_rows_of(c))
        r = fm_infeasible(rows)
        if len(_cache) > 200000:
            _cache.clear()
        _cache[key] = r
        return r

    def implies(self, c):
        STATS['entail'] += 1
        return self._imp(c, 0)

    def _imp(self, c, depth):
        if c is True:
            return True
        if c is False:
            return False
        if isinstance(c, And):
            return all(self._imp(x, depth) for x in c.cs)
        if isinstance(c, Or):
            for x in c.cs:
                if self._imp(x, depth):
                    return True
            if depth < 3:
                # assume all but one false, check the last
                fs = self.assume(neg(conj([True])) if False else conj([neg(x) for x in c.cs[1:]]))
                return all(f._imp(c.cs[0], depth + 1) for f in fs)
            return False
        if isinstance(c, BAtom):
            a = self._nb(c)
            if a is True or a is False:
                return a
            v = self.b.get(a.a)
            if v is None:
                return False
            return v == a.pos
        c = self.csub(c)
        if c is True or c is False:
            return c
        p = c.p
        if c.op == 'ge':
            return self._inf1(mk_gt(-p))
        if c.op == 'gt':
            if self._inf1(mk_ge(-p)):
                return True
            return len(p.t) == 1 and not _isint(p) and depth < 2 and self._imp(mk_ne(p), depth + 1) and self._inf1(mk_gt(-p))
        if c.op == 'eq':
            if not _isint(p) and real_eq(p, ZERO):
                return True
            q = self.same_powers(p)
            if q is not None and q != p:
                if not q.t:
                    return True
                p = q
            return self._inf1(mk_gt(p)) and self._inf1(mk_gt(-p))
        if c.op == 'ne':
            for q in self.nes:
                if q == p or q == -p:
                    return True
            if len(p.t) == 1 and depth < 3:
                # a product is not 0 when no factor is
                (m, k), = p.t.items()
                if _nonlin(m) and all(self._imp(mk_ne(poly(a)), depth + 1) for a, e in m if e > 0):
                    return True
            return self._inf1(c2) if (c2 := mk_eq(p)) is not True and isinstance(c2, Cmp) else (c2 is False)
        return False

    def same_powers(self, p):
        """powers of one base whose exponents are equal here are one term"""
        ps = [a for a in p.atoms() if a.op == 'ipow']
        if len(ps) < 2:
            return None
        ps.sort(key=lambda a: a.id)
        mp = {}
        for i, a in enumerate(ps):
            for b in ps[:i]:
                if b not in mp and a.args[0] == b.args[0] and self.eq(a.args[1], b.args[1]):
                    mp[a] = poly(b)
                    break
        return subst(p, mp) if mp else None

    def _inf1(self, c):
        if c is True:
            return False
        if c is False:
            return True
        r = self.infeasible_with([c])
        if not r and any(_nonlin(m) for m in c.p.t):
            r = self.infeasible_prod(c)
        if not r and self.nes:
            # integrate disequalities: p != 0 with constraint p >= 0 gives p >= 1 (ints)
            extra = []
            for q in self.nes:
                g = mk_gt(q)
                l = mk_gt(-q)
                if isinstance(g, Cmp) and isinstance(l, Cmp):
                    if self.infeasible_with([c, l]):
                        extra.append(g)
                    elif self.infeasible_with([c, g]):
                        extra.append(l)
            if extra:
                r = self.infeasible_with([c] + extra)
        if not r and self.rawb:
            for o in self.rawb[-4:]:
                # case split over a stored disjunction
                ok = True
                for x in o.cs:
                    if not isinstance(x, Cmp) or x.op == 'ne':
                        ok = False
                        break
                    x = cond_subst(x, self.sub)
                    if x is False:
                        continue
                    if x is True or not self.infeasible_with([c, x]):
                        ok = False
                        break
                if ok:
                    return True
        return r

    def infeasible_prod(self, c):
        """refutation with products of pairs of constraints (for nonlinear monomials)"""
        key = (self.key(), 'prod', c)
        r = _cache.get(key)
        if r is not None:
            return r
        _cache[key] = False
        rows = gather(self, [c.p])
        rows.extend(_rows_of(c))
        extra = prod_rows(self, c)
        r = bool(extra) and fm_infeasible(rows + extra)
        _cache[key] = r
        return r

    def _nb(self, c):
        if self.sub and c.a.args:
            return self.csub(c)
        return c

    def eq(self, p, q):
        d = p - q
        if not d.t:
            return True
        return self.implies(mk_eq(d))

    def ne(self, p, q):
        return self.implies(mk_ne(p - q))

    def ge(self, p, q=ZERO):
        return self.implies(mk_ge(p - P(q)))

    def gt(self, p, q=ZERO):
        return self.implies(mk_gt(p - P(q)))

    # ---- assumption
    def assume(self, c):
        """list of feasible Facts (a disjunction)"""
        if c is True:
            return [self]
        if c is False:
            return []
        if isinstance(c, And):
            fs = [self]
            for x in c.cs:
                fs = [g for f in fs for g in f.assume(x)]
            return fs
        if isinstance(c, Or):
            out = []
            f = self
            # disjoint split
            for i, x in enumerate(c.cs):
                out.extend(f.assume(x))
                nf = f.assume(neg(x))
                if not nf:
                    break
                if len(nf) > 1:
                    rest = [g for h in nf for g in h.assume(disj(c.cs[i + 1:]))]
                    out.extend(rest)
                    break
                f = nf[0]
            return out
        if isinstance(c, BAtom):
            a = self._nb(c)
            if a is True:
                return [self]
            if a is False:
                return []
            if not isinstance(a, BAtom):
                return self.assume(a)
            v = self.b.get(a.a)
            if v is not None:
                return [self] if v == a.pos else []
            b = dict(self.b)
            b[a.a] = a.pos
            return [Facts(self.cons, self.nes, b, self.sub, self.rawb)]
        c = self.csub(c)
        if c is True:
            return [self]
        if c is False:
            return []
        if c.op == 'ne':
            if self._imp(c, 0):
                return [self]
            e = mk_eq(c.p)
            if self._imp(e, 0):
                return []
            # sharpen to one side when the other is impossible
            g, l = mk_gt(c.p), mk_gt(-c.p)
            if self._inf1(g):
                return self.assume(l)
            if self._inf1(l):
                return self.assume(g)
            return [Facts(self.cons, self.nes + (c.p,), self.b, self.sub, self.rawb)]
        if self._imp(c, 0) and c.op != 'eq':
            return [self]
        r = self._factored(c)
        if r is not None:
            out = []
            for f in r:
                c2 = f.csub(c)
                if c2 is not False and not (isinstance(c2, Cmp) and f.infeasible_with([c2])):
                    out.append(f if c2 is True or f._imp(c2, 0) else Facts(f.cons + (c2,), f.nes, f.b, f.sub, f.rawb))
            return out
        if c.op == 'eq':
            if self._inf1(c):
                return []
            if not self._imp_ne_free(c.p):
                return []
            if len(c.p.t) == 1:
                (m, k), = c.p.t.items()
                if _nonlin(m):
                    z = [a for a, e in m if e > 0 and not self._imp(mk_ne(poly(a)), 1)]
                    if not z:
                        return []
                    if len(z) == 1:
                        return self.assume(mk_eq(poly(z[0])))
            return self._assume_eq(c)
        if self._inf1(c):
            return []
        f = Facts(self.cons + (c,), self.nes, self.b, self.sub, self.rawb)
        # ge + matching ne -> strict;  ge both ways -> eq
        q = -c.p
        if c.op == 'ge' and f._imp(mk_ge(q), 0):
            return f._assume_eq(mk_eq(c.p))
        return f._resharpen()

    def _factored(self, c):
        """a constraint on a product with a factor of known sign is one on the cofactor"""
        if not any(_nonlin(m) for m in c.p.t):
            return None
        mk = {'ge': mk_ge, 'gt': mk_gt, 'eq': mk_eq}[c.op]
        for pa, q in factors(self, c.p):
            if self.infeasible_with([mk_ge(-pa)]):
                return self.assume(mk(q))
            if self.infeasible_with([mk_ge(pa)]):
                return self.assume(mk(-q))
            if c.op == 'eq':
                continue
            for sg in (1, -1):
                if self.infeasible_with([mk_gt(-pa.scale(sg))]):
                    if c.op == 'gt':
                        return self.assume(conj([mk_gt(pa.scale(sg)), mk_gt(q.scale(sg))]))
                    g = mk_ge(q.scale(sg))
                    if g is False or isinstance(g, Cmp) and self._inf1(g):
                        return self.assume(mk_eq(pa))
        return None

    def _resharpen(self):
        """turn disequalities that became one-sided into inequalities"""
        f = self
        for q in f.nes:
            if not _isint(q):
                continue
            g, l = mk_gt(q), mk_gt(-q)
            if not isinstance(g, Cmp) or not isinstance(l, Cmp):
                continue
            gi = f.infeasible_with([g])
            li = f.infeasible_with([l])
            if gi and li:
                return []
            if gi or li:
                nn = tuple(x for x in f.nes if x is not q)
                f = Facts(f.cons + ((l if gi else g),), nn, f.b, f.sub, f.rawb)
        return [f]

    def _imp_ne_free(self, p):
        for q in self.nes:
            if q == p or q == -p:
                return False
        return True

    def _assume_eq(self, c):
        if c is True:
            return [self]
        if c is False:
            return []
        p = c.p
        # choose an atom to solve for: unit coefficient, linear, not nested in the rest
        best = None
        for m, v in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.is_int and v not in (1, -1):
                    continue
                rest = p - Poly({m: v})
                if a.is_int and not _isint(rest.scale(Fraction(-1) / v)):
                    continue
                if a in rest.all_atoms():
                    continue
                # prefer eliminating application atoms last, newest first
                pr = (0 if a.op == 'sym' else -1, a.id)
                if a.op == 'gcd':
                    pr = (-1, max([x.id for g in a.args for x in g.atoms()] or [0]))
                elif a.op == 'iabs':
                    pr = (-0.5, a.id)
                if best is None or pr > best[0]:
                    best = (pr, a, rest.scale(Fraction(-1) / v) if v not in (1, -1) else (rest if v == -1 else -rest))
        if best is None:
            return [Facts(self.cons + (c,), self.nes, self.b, self.sub, self.rawb)]
        _, a, e = best
        mp = {a: e}
        sub = {k: subst(v, mp) for k, v in self.sub.items()}
        sub[a] = e
        cons = []
        # keep the static bounds of the eliminated atom
        extra = []
        if a.lo is not None:
            extra.append(mk_ge(e - a.lo))
        if a.hi is not None:
            extra.append(mk_ge(P(a.hi) - e))
        for x in AX.get(a, ()):
            extra.append(cond_subst(x, mp))
        out = Facts((), (), {}, sub, self.rawb)
        for x in list(self.cons) + extra:
            x = cond_subst(x, mp)
            if x is True:
                continue
            if x is False:
                return []
            if isinstance(x, Cmp) and x.op != 'ne' and x not in cons:
                cons.append(x)
        nes = []
        for q in self.nes:
            q2 = subst(q, mp)
            if q2.const is not None:
                if q2.const == 0:
                    return []
                continue
            nes.append(q2)
        b = {}
        f = Facts(tuple(cons), tuple(nes), {}, sub, self.rawb)
        fs = [f]
        for at, v in self.b.items():
            c2 = cond_subst(BAtom(at, v), mp) if at.args else BAtom(at, v)
            if c2 is True:
                continue
            if c2 is False:
                return []
            if isinstance(c2, BAtom):
                o = b.get(c2.a)
                if o is not None and o != c2.pos:
                    return []
                b[c2.a] = c2.pos
            else:
                fs = [g for f in fs for g in f.assume(c2)]
        fs = [Facts(f.cons, f.nes, {**f.b, **b}, f.sub, f.rawb) for f in fs]
        out = []
        for f in fs:
            if f.cons and f.infeasible_all():
                continue
            out.extend(f._resharpen() if f.nes else [f])
        eqs = []
        for k, v in self.sub.items():
            if k.op == 'gcd':
                k2 = subst(poly(k), mp)
                if k2 != poly(k):
                    eqs.append((k2, v))
        if a.op in ('gmod', 'srem') and not e.t:
            eqs.append((abs_term(a.args[1]), gcd_term(*a.args)))
        for x, y in eqs:
            nxt = []
            for f in out:
                nxt.extend(f.assume(mk_eq(f.noabs(f.norm(x) - f.norm(y)))))
            out = nxt
        return out

    def infeasible_all(self):
        key = (self.key(), 'all')
        r = _cache.get(key)
        if r is None:
            rows = gather(self, [c.p for c in self.cons])
            r = fm_infeasible(rows)
            _cache[key] = r
        return r

    def bounds(self, p):
        """constant integer bounds (lo, hi) derivable cheaply; None = unknown"""
        p = self.norm(p)
        k = p.const
        if k is not None:
            return k, k
        lo = hi = k0 = p.c0()
        for m, c in p.t.items():
            if not m:
                continue
            a, b = mono_bounds(m)
            x, y = (a, b) if c > 0 else (b, a)
            lo = None if lo is None or x is None else lo + c * x
            hi = None if hi is None or y is None else hi + c * y
        return lo, hi

    def in_range(self, p, lo, hi):
        a, b = self.bounds(p)
        if (a is not None and a >= lo) or self.ge(p, P(lo)):
            return (b is not None and b <= hi) or self.ge(P(hi), p)
        return False


def _isint(p):
    return all(a.is_int and e > 0 for m in p.t for a, e in m)


def _nonlin(m):
    return len(m) > 1 or (len(m) == 1 and m[0][1] != 1)


def factors(f, p):
    """pairs (g, q) with p = g * q, g an atom or a linear form some constraint speaks about"""
    ms = list(p.t)
    if () not in p.t:
        for a, e in ms[0]:
            if e < 1 or any(not any(b is a and g > 0 for b, g in m) for m in ms):
                continue
            yield poly(a), Poly({tuple((b, g - 1 if b is a else g) for b, g in m if b is not a or g > 1): k for m, k in p.t.items()})
        for a, e in ms[0]:
            if e > -1 or any(not any(b is a and g < 0 for b, g in m) for m in ms):
                continue
            pa = poly(a)
            q = Poly({tuple((b, g + 1 if b is a else g) for b, g in m if b is not a or g < -1): k for m, k in p.t.items()})
            if f.infeasible_with([mk_ge(-pa)]) or f.infeasible_with([mk_ge(pa)]):
                yield pa, q      # the reciprocal has the sign of the quantity
    if len(ms) < 4:
        return
    for c in f.cons:
        g = c.p
        lin = [m for m in g.t if m]
        if c.op == 'eq' or len(lin) != 2 or len(g.t) > 3 or any(_nonlin(m) for m in lin):
            continue
        x = lin[0][0][0]
        k = g.t[lin[0]]
        A, B = {}, {}
        for m, v in p.t.items():
            e = [n for b, n in m if b is x]
            if not e:
                B[m] = v
            elif e[0] == 1:
                A[tuple((b, n) for b, n in m if b is not x)] = v
            else:
                A = None
                break
        if not A:
            continue
        q = Poly(A).scale(Fraction(1) / k)
        if (g * q - p).t:
            continue
        yield g, q


def prod_rows(f, c):
    """rows p*q >= 0 for constraints p, q >= 0 whose product meets the query's nonlinear monomials"""
    goal = set(m for m in c.p.t if _nonlin(m))
    atoms = set()
    for m in goal:
        for a, e in m:
            atoms.add(a)
    muls = []
    seen = set()

    def add(p, strict):
        if p.const is None and p not in seen and len(muls) < 40:
            seen.add(p)
            muls.append((p, strict))
    for a in list(atoms):
        pa = poly(a)
        if a.lo is not None:
            add(pa - a.lo, False)
        if a.hi is not None:
            add(P(a.hi) - pa, False)
        if a.op == 'polyatom':
            q = a.args[0]
            for b in q.all_atoms():
                atoms.add(b)
    cons = list(f.cons)
    for a in atoms:
        for x in AX.get(a, ()):
            x = cond_subst(x, f.sub) if f.sub else x
            if isinstance(x, Cmp):
                cons.append(x)
    for x in cons + ([c] if isinstance(c, Cmp) else []):
        if x.op in ('ge', 'gt') and any(a in atoms for m in x.p.t for a, e in m):
            add(x.p, x.op == 'gt')
        elif x.op == 'eq' and any(a in atoms for m in x.p.t for a, e in m):
            add(x.p, False)
            add(-x.p, False)
    # reciprocals of quantities of known sign
    for a in atoms:
        if not any((b, e) for m in goal for b, e in m if b is a and e < 0):
            continue
        q = a.args[0] if a.op == 'polyatom' else poly(a)
        r = Poly({((a, -1),): 1})
        if a.op == 'polyatom':
            pos = f.infeasible_with([mk_ge(-q)]) if isinstance(mk_ge(-q), Cmp) else False
            ng = not pos and isinstance(mk_ge(q), Cmp) and f.infeasible_with([mk_ge(q)])
        else:
            pos = f.infeasible_with([mk_ge(-q)]) if isinstance(mk_ge(-q), Cmp) else False
            ng = not pos and isinstance(mk_ge(q), Cmp) and f.infeasible_with([mk_ge(q)])
        if pos:
            muls.insert(0, (r, True))
        elif ng:
            muls.insert(0, (-r, True))
    rows = []
    for p, s in muls:
        if any(m in goal for m in p.t):
            rows.extend(_rows_of(Cmp(p, 'gt' if s else 'ge')))
    for i in range(len(muls)):
        for j in range(i, len(muls)):
            p, s1 = muls[i]
            q, s2 = muls[j]
            if len(p.t) * len(q.t) > 60:
                continue
            pq = p * q
            if not any(m in goal for m in pq.t):
                continue
            rows.extend(_rows_of(Cmp(pq, 'gt' if s1 and s2 else 'ge')))
            if len(rows) > 160:
                return rows
    return rows


def gather(f, polys):
    """constraints connected to the query's monomials"""
    monos = set()
    rows = []
    atoms = set()
    queue = []
    ax_pending = []

    def addmono(m):
        if m in monos:
            return
        monos.add(m)
        lo, hi = mono_bounds(m)
        if lo is not None:
            rows.append(({m: 1}, -lo, False))
        if hi is not None:
            rows.append(({m: -1}, hi, False))
        for a, e in m:
            if a not in atoms:
                atoms.add(a)
                for c in AX.get(a, ()):
                    c2 = cond_subst(c, f.sub) if f.sub else c
                    if isinstance(c2, Cmp) and c2.op != 'ne':
                        ax_pending.append(c2)

    for p in polys:
        for m in p.t:
            if m:
                addmono(m)
    pend = list(f.cons)
    for c in f.cons:
        for m in c.p.t:
            for a, e in m:
                if a.op == 'fdiv' and a not in atoms:
                    # a quotient is tied to its dividend by its axioms alone
                    for x in AX.get(a, ()):
                        c2 = cond_subst(x, f.sub) if f.sub else x
                        if isinstance(c2, Cmp) and c2.op != 'ne':
                            pend.append(c2)
    changed = True
    while changed:
        changed = False
        if ax_pending:
            pend = pend + ax_pending
            ax_pending = []
        rest = []
        for c in pend:
            if any(m and m in monos for m in c.p.t):
                rows.extend(_rows_of(c))
                for m in c.p.t:
                    if m:
                        addmono(m)
                changed = True
            else:
                rest.append(c)
        pend = rest
        if ax_pending:
            changed = True
    return rows


def sign(f, p, depth=0):
    """1: p >= 0, -1: p <= 0, None: unknown; by the signs of the factors of each monomial"""
    p = f.norm(p)
    k = p.const
    if k is not None:
        return 1 if k >= 0 else -1
    s = None
    for m, c in p.t.items():
        ms = 1 if c > 0 else -1
        for a, e in m:
            if e % 2 == 0:
                continue
            x = _asign(f, a, depth)
            if x is None:
                ms = None
                break
            ms *= x
        if ms is None or (s is not None and ms != s):
            s = None
            break
        s = ms
    if s is not None:
        return s
    if f.ge(p):
        return 1
    if f.ge(-p):
        return -1
    # separable squares: sum a x^2 + b x + c
    q, mn = {}, p.c0()
    for m, c in p.t.items():
        if not m:
            continue
        if len(m) != 1 or m[0][1] not in (1, 2):
            return None
        q.setdefault(m[0][0], [0, 0])[m[0][1] - 1] = c
    for lin, sq in q.values():
        if sq <= 0:
            return None
        mn -= Fraction(lin) * lin / (4 * sq)
    return 1 if mn >= 0 else None


def _asign(f, a, depth):
    if a.lo is not None and a.lo >= 0:
        return 1
    if a.hi is not None and a.hi <= 0:
        return -1
    if a.op == 'polyatom':
        return sign(f, a.args[0], depth + 1) if depth < 4 else None
    if a.op in ('ftrunc', 'pow', 'sqrt', 'fabs') and a.args and isinstance(a.args[0], Poly):
        return sign(f, a.args[0], depth + 1) if depth < 4 and (a.op == 'ftrunc' or sign(f, a.args[0], depth + 1) == 1) else None
    if f.ge(poly(a)):
        return 1
    if f.ge(-poly(a)):
        return -1
    return None


EMPTY = Facts()
