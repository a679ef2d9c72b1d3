"""Hash-consed value-number terms.

Every scalar the analyser tracks is a polynomial (rational coefficients,
integer exponents) over interned atoms.  An atom is either a free symbol ("any
value of this type") or the application of an uninterpreted operation to
terms; equal applications are the same atom, so equality of two values is
decided by comparing normal forms (global value numbering), never by
evaluating the program.
"""
from fractions import Fraction
from math import gcd

_ids = [0]
_intern = {}


class Atom:
    __slots__ = ('id', 'op', 'args', 'is_int', 'lo', 'hi', 'name', 'widen')

    def __init__(self, op, args, is_int, lo, hi, name, widen=False):
        _ids[0] += 1
        self.id = _ids[0]
        self.op, self.args, self.is_int = op, args, is_int
        self.lo, self.hi, self.name, self.widen = lo, hi, name, widen

    def __repr__(self):
        if self.name:
            return self.name
        return '%s(%s)' % (self.op, ','.join(map(repr, self.args)))

    def __lt__(self, o):
        return self.id < o.id


def sym(name, is_int=True, lo=None, hi=None, widen=False):
    return Atom('sym', (), is_int, lo, hi, '%s#%d' % (name, _ids[0] + 1), widen)


def app(op, args, is_int=True, lo=None, hi=None):
    key = (op, tuple(args), is_int)
    a = _intern.get(key)
    if a is None:
        a = Atom(op, tuple(args), is_int, lo, hi, None)
        _intern[key] = a
    else:
        if lo is not None and (a.lo is None or lo > a.lo):
            a.lo = lo
        if hi is not None and (a.hi is None or hi < a.hi):
            a.hi = hi
    return a


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def key(self):
        return self

    @property
    def const(self):
        """the constant if the polynomial is constant, else None"""
        t = self.t
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def c0(self):
        return self.t.get((), 0)

    def monos(self):
        return [m for m in self.t if m]

    def is_int(self):
        for m, c in self.t.items():
            if isinstance(c, Fraction) and c.denominator != 1:
                return False
            for a, e in m:
                if not a.is_int or e < 0:
                    return False
        return True

    def is_intval(self):
        """integer-valued as a whole: quotients by a gcd count"""
        for m, c in self.t.items():
            if isinstance(c, Fraction) and c.denominator != 1:
                return False
            for a, e in m:
                if not a.is_int or e < 0 and a.op != 'gcd':
                    return False
        return True

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _red(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        k = o.const
        if k is not None:
            return self.scale(k)
        k = self.const
        if k is not None:
            return o.scale(k)
        if len(self.t) * len(o.t) > 4000:
            return poly(app('mul', (self, o) if hash(self) < hash(o) else (o, self), self.is_int() and o.is_int()))
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                mm, rest = mono_mul(m1, m2)
                if rest is not None:
                    term = Poly({mm: _red(c1 * c2)}) * rest
                    extra = term if extra is None else extra + term
                    continue
                v = r.get(mm, 0) + c1 * c2
                if v == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = _red(v)
        p = Poly(r)
        return p if extra is None else p + extra

    __rmul__ = __mul__

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def all_atoms(self, acc=None):
        """atoms including those nested in applications"""
        if acc is None:
            acc = set()
        for m in self.t:
            for a, e in m:
                if a not in acc:
                    acc.add(a)
                    for x in a.args:
                        nested_atoms(x, acc)
        return acc

    def single(self):
        """the atom if this is exactly one atom with coefficient 1"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: [(a.id, e) for a, e in x[0]]):
            ms = '*'.join(repr(a) if e == 1 else '%r^%d' % (a, e) for a, e in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%s*%s' % (c, ms))
        return ' + '.join(out).replace('+ -', '- ')


def nested_atoms(x, acc):
    if isinstance(x, Poly):
        x.all_atoms(acc)
    elif isinstance(x, Atom):
        if x not in acc:
            acc.add(x)
            for y in x.args:
                nested_atoms(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            nested_atoms(y, acc)
    elif hasattr(x, 'term_children'):
        for y in x.term_children():
            nested_atoms(y, acc)


def _red(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def mono_mul(m1, m2):
    """product of two monomials; second result is a polynomial factor when a
    square root squared collapses to its radicand"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    rest = None
    for a in list(d):
        if a.op == 'sqrt' and d[a] >= 2:
            k = d[a] // 2
            d[a] -= 2 * k
            if d[a] == 0:
                del d[a]
            q = a.args[0]
            for _ in range(k):
                rest = q if rest is None else rest * q
        elif a.op == 'polyatom' and a in d and d[a] > 0:
            # (p)^k with positive power expands again
            k = d.pop(a)
            q = a.args[0]
            for _ in range(k):
                rest = q if rest is None else rest * q
        elif a.op == 'ipow' and a in d and d[a] > 0:
            # powers of one base are collected
            k = d[a]
            b = a.args[0].single()
            n = a.args[1].scale(k)
            more = d.get(b, 0) if b is not None else 0
            others = [x for x in d if x is not a and x.op == 'ipow' and x.args[0] == a.args[0] and d[x] > 0]
            if k > 1 or more > 0 or others:
                del d[a]
                if more > 0:
                    n = n + d.pop(b)
                for x in others:
                    n = n + x.args[1].scale(d.pop(x))
                q = ipow_term(a.args[0], n)
                rest = q if rest is None else rest * q
    return tuple(sorted(d.items(), key=lambda x: x[0].id)), rest


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return poly(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, float):
        x = Fraction(x)
    x = _red(x)
    if x == 0:
        return ZERO
    return Poly({(): x})


def poly(atom):
    return Poly({((atom, 1),): 1})


def recip(p):
    """1/p as a polynomial with negative exponents"""
    if not p.t:
        return poly(app('recip0', (), False))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        q = Poly({(): Fraction(1) / c if c not in (1, -1) else c})
        out = {}
        rest = ONE
        d = []
        for a, e in m:
            if a.op == 'polyatom' and e < 0:
                rest = rest * Poly({((a, -e),): 1}) if False else rest * _pw(a.args[0], -e)
            elif a.op == 'sqrt' and e > 0:
                # 1/sqrt(q) = sqrt(q)/q
                rest = rest * poly(a) * recip(a.args[0]) if e == 1 else rest * Poly({((a, -e),): 1})
            else:
                d.append((a, -e))
        q = q * Poly({tuple(sorted(d, key=lambda x: x[0].id)): 1}) if d else q
        return q * rest
    # primitive part
    k = None
    for c in p.t.values():
        c = Fraction(c)
        k = c if k is None else Fraction(gcd(k.numerator * c.denominator, c.numerator * k.denominator),
                                         k.denominator * c.denominator)
    lead = min(p.t.items(), key=lambda x: [(a.id, e) for a, e in x[0]])[1]
    if lead < 0:
        k = -k
    pp = p.scale(Fraction(1) / k)
    a = app('polyatom', (pp,), False)
    return Poly({((a, -1),): _red(Fraction(1) / k)})


def _pw(p, n):
    r = ONE
    for _ in range(n):
        r = r * p
    return r


def real_eq(p, q):
    """equality of rational functions by clearing denominators"""
    d = p - q
    for _ in range(12):
        if not d.t:
            return True
        neg = {}
        for m in d.t:
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if not neg:
            return False
        for a, e in neg.items():
            out = ZERO
            for m, c in d.t.items():
                dm = dict(m)
                cur = dm.pop(a, 0)
                rem = e + cur
                base = Poly({tuple(sorted(dm.items(), key=lambda x: x[0].id)): c})
                if a.op == 'polyatom':
                    base = base * _pw(a.args[0], rem)
                elif rem:
                    base = base * Poly({((a, rem),): 1})
                out = out + base
            d = out
    return not d.t


def subst(p, mp):
    """substitute atoms (dict atom -> Poly) at top level and inside applications"""
    if not mp:
        return p
    out = None
    changed = False
    for m, c in p.t.items():
        term = None
        keep = []
        for a, e in m:
            r = _subst_atom(a, mp)
            if r is not None:
                changed = True
                if e < 0:
                    f = recip(_pw(r, -e))
                else:
                    f = _pw(r, e)
                term = f if term is None else term * f
            else:
                keep.append((a, e))
        t = Poly({tuple(keep): c})
        if term is not None:
            t = t * term
        out = t if out is None else out + t
    if not changed:
        return p
    return out


_smemo = {}
_smp = [None, 0]


def _subst_atom(a, mp):
    """memoised per top-level substitution: terms are shared DAGs"""
    if a in mp:
        return mp[a]
    if not a.args:
        return None
    top = _smp[0] is not mp or _smp[1] == 0
    if top:
        save = (_smp[0], _smp[1], dict(_smemo) if _smp[1] else None)
        _smemo.clear()
        _smp[0], _smp[1] = mp, 1
        try:
            return _subst_app(a, mp)
        finally:
            _smemo.clear()
            _smp[0], _smp[1] = save[0], save[1]
            if save[2]:
                _smemo.update(save[2])
    if a in _smemo:
        return _smemo[a]
    r = _smemo[a] = _subst_app(a, mp)
    return r


def _subst_app(a, mp):
    ch = False
    na = []
    for x in a.args:
        y = subst_any(x, mp)
        if y is not x:
            ch = True
        na.append(y)
    if not ch:
        return None
    if a.op == 'cmp3':
        x, y = na
        if x == y:
            return ZERO
        if repr(y) < repr(x):
            return -poly(app('cmp3', (y, x), True, -1, 1))
    if a.op == 'gcd':
        return gcd_term(*na)
    if a.op in ('gmod', 'srem', 'sdiv', 'gdiv') and isinstance(na[0], Poly) and not na[0].t:
        return ZERO
    if a.op == 'iabs':
        return abs_term(*na)
    if a.op in REBUILD:
        return REBUILD[a.op](na)
    return poly(app(a.op, na, a.is_int, a.lo, a.hi))


def ipow_term(b, n):
    """b^n for an integer n >= 0"""
    k = n.const
    if k is not None and 0 <= k <= 64 and (len(b.t) <= 1 or k <= 6):
        r = ONE
        for _ in range(int(k)):
            r = r * b
        return r
    c = b.const
    if c == 1:
        return ONE
    if c is not None and c not in (0, -1):
        # a power of a constant: constant parts of the exponent are factors
        if isinstance(c, int) and c > 1:
            for root in (2, 3, 5, 7, 10):
                e, x = 0, c
                while x % root == 0:
                    x //= root
                    e += 1
                if x == 1 and e > 1:
                    return ipow_term(P(root), n.scale(e))
        n0 = n.t.get((), 0)
        if n0 and isinstance(n0, int) and abs(n0) <= 64:
            f = Fraction(c) ** n0
            lo = hi = None
            return poly(app('ipow', (b, n - n0), b.is_int(), 1 if isinstance(c, int) and c > 1 else None, None)).scale(_red(f))
        return poly(app('ipow', (b, n), b.is_int(), 1 if isinstance(c, int) and c > 1 else None, None))
    if len(b.t) == 1:
        (m, co), = b.t.items()
        if co == 1 and all(e > 0 for a, e in m) and (len(m) > 1 or m[0][1] > 1):
            r = ONE
            for a, e in m:
                r = r * ipow_term(poly(a), n.scale(e))
            return r
    return poly(app('ipow', (b, n), b.is_int(), None, None))


REBUILD = {'ipow': lambda a: ipow_term(*a)}


def sign_norm(p):
    """p or -p, whichever has the positive leading coefficient"""
    if not p.t:
        return p
    m = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))
    return p if p.t[m] > 0 else -p


def abs_term(v):
    c = v.const
    if c is not None:
        return P(abs(c))
    v = sign_norm(v)
    s = v.single()
    if s is not None and s.lo is not None and s.lo >= 0:
        return v
    return poly(app('iabs', (v,), True, 0, None))


def mono_div(p, m):
    """p / m for a monomial m (tuple of (atom, exponent)), None if not exact"""
    out = {}
    for mm, c in p.t.items():
        d = dict(mm)
        for a, e in m:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if d[a] == 0:
                del d[a]
        out[tuple(sorted(d.items(), key=lambda z: z[0].id))] = c
    return Poly(out)


def gcd_term(u, v):
    """the non-negative greatest common divisor of two integer polynomials"""
    u, v = sign_norm(u), sign_norm(v)
    cu, cv = u.const, v.const
    if cu is not None and cv is not None:
        if cu == int(cu) and cv == int(cv):
            return P(gcd(int(cu), int(cv)))
    if cu == 0 or u == v:
        return abs_term(v)
    if cv == 0:
        return abs_term(u)
    if cu == 1 or cv == 1:
        return P(1)
    for x, y in ((u, v), (v, u)):
        s = x.single()
        if s is not None and s.op in ('gmod', 'srem') and sign_norm(s.args[1]) == y:
            return gcd_term(s.args[0], y)
    # cofactors of a gcd are coprime
    for m in u.t:
        for a, e in m:
            if e == -1 and a.op == 'gcd':
                g = poly(a)
                x, y = sign_norm(u * g), sign_norm(v * g)
                if {x, y} == set(a.args) or (x, y) == a.args:
                    return P(1)
    # common monomial factor
    if u.is_int() and v.is_int() and u.t and v.t:
        com = None
        for p in (u, v):
            for m in p.t:
                d = dict(m)
                com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
        if com:
            m = tuple(sorted(com.items(), key=lambda z: z[0].id))
            r = gcd_term(mono_div(u, m), mono_div(v, m))
            for a, e in m:
                r = r * _pw(abs_term(poly(a)), e)
            return r
    if repr(v) < repr(u):
        u, v = v, u
    return poly(app('gcd', (u, v), True, 0, None))


def subst_any(x, mp):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        y = tuple(subst_any(z, mp) for z in x)
        return y if any(p is not q for p, q in zip(x, y)) else x
    if hasattr(x, 'subst'):
        return x.subst(mp)
    return x


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ()


class Cmp(Cond):
    """p op 0, op in ge gt eq ne"""
    __slots__ = ('p', 'op')

    def __init__(self, p, op):
        self.p, self.op = p, op

    def __eq__(self, o):
        return isinstance(o, Cmp) and self.op == o.op and self.p == o.p

    def __hash__(self):
        return hash((self.op, self.p))

    def __repr__(self):
        return '(%r %s 0)' % (self.p, {'ge': '>=', 'gt': '>', 'eq': '==', 'ne': '!='}[self.op])


class BAtom(Cond):
    __slots__ = ('a', 'pos')

    def __init__(self, a, pos=True):
        self.a, self.pos = a, pos

    def __eq__(self, o):
        return isinstance(o, BAtom) and self.a is o.a and self.pos == o.pos

    def __hash__(self):
        return hash((self.a.id, self.pos))

    def __repr__(self):
        return ('' if self.pos else '!') + repr(self.a)


class And(Cond):
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __eq__(self, o):
        return isinstance(o, And) and self.cs == o.cs

    def __hash__(self):
        return hash(('and', self.cs))

    def __repr__(self):
        return '(' + ' && '.join(map(repr, self.cs)) + ')'


class Or(Cond):
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __eq__(self, o):
        return isinstance(o, Or) and self.cs == o.cs

    def __hash__(self):
        return hash(('or', self.cs))

    def __repr__(self):
        return '(' + ' || '.join(map(repr, self.cs)) + ')'


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    if isinstance(c, Cmp):
        if c.op == 'ge':
            return mk_gt(-c.p)
        if c.op == 'gt':
            return mk_ge(-c.p)
        return Cmp(c.p, 'ne' if c.op == 'eq' else 'eq')
    if isinstance(c, BAtom):
        return BAtom(c.a, not c.pos)
    if isinstance(c, And):
        return disj([neg(x) for x in c.cs])
    if isinstance(c, Or):
        return conj([neg(x) for x in c.cs])
    raise TypeError(c)


def conj(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if isinstance(c, And):
            out.extend(c.cs)
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else And(out)


def disj(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if isinstance(c, Or):
            out.extend(c.cs)
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else Or(out)


def _norm(p):
    """scale to coprime integer coefficients (positive factor)"""
    if not p.t:
        return p
    n, d = 0, 1
    for c in p.t.values():
        c = Fraction(c)
        d = d * c.denominator // gcd(d, c.denominator)
    for c in p.t.values():
        n = gcd(n, int(c * d))
    if n == 1 and d == 1:
        return p
    return p.scale(Fraction(d, n))


def _tight(p):
    """integer tightening of p>=0"""
    g = 0
    c0 = p.c0()
    for m, c in p.t.items():
        if m:
            g = gcd(g, int(c))
    if g > 1:
        r = {m: int(c) // g for m, c in p.t.items() if m}
        k = int(c0) // g
        if k:
            r[()] = k
        return Poly(r)
    return p


def mk_ge(p):
    k = p.const
    if k is not None:
        return k >= 0
    isint = all(a.is_int and e > 0 for m in p.t for a, e in m)
    if isint:
        d = 1
        for c in p.t.values():
            if isinstance(c, Fraction):
                d = d * c.denominator // gcd(d, c.denominator)
        if d != 1:
            p = p.scale(d)
        return Cmp(_tight(p), 'ge')
    return Cmp(_norm(p), 'ge')


def mk_gt(p):
    k = p.const
    if k is not None:
        return k > 0
    isint = all(a.is_int and e > 0 for m in p.t for a, e in m)
    if isint:
        d = 1
        for c in p.t.values():
            if isinstance(c, Fraction):
                d = d * c.denominator // gcd(d, c.denominator)
        if d != 1:
            p = p.scale(d)
        return mk_ge(p - 1)
    return Cmp(_norm(p), 'gt')


def mk_eq(p):
    k = p.const
    if k is not None:
        return k == 0
    p = _norm(p)
    lead = min((m for m in p.t if m), key=lambda m: [(a.id, e) for a, e in m])
    if p.t[lead] < 0:
        p = -p
    if all(a.is_int and e > 0 for m in p.t for a, e in m):
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, int(c))
        if g > 1 and int(p.c0()) % g:
            return False
    return Cmp(p, 'eq')


def mk_ne(p):
    return neg(mk_eq(p))


def cond_polys(c):
    if isinstance(c, Cmp):
        yield c.p
    elif isinstance(c, (And, Or)):
        for x in c.cs:
            yield from cond_polys(x)


def cond_subst(c, mp):
    if c is True or c is False:
        return c
    if isinstance(c, Cmp):
        q = subst(c.p, mp)
        if q is c.p:
            return c
        return {'ge': mk_ge, 'gt': mk_gt, 'eq': mk_eq, 'ne': mk_ne}[c.op](q)
    if isinstance(c, BAtom):
        if c.a in mp:
            v = mp[c.a]
            # substituted by a condition
            return v if c.pos else neg(v)
        if c.a.args:
            na = [subst_any(x, mp) for x in c.a.args]
            if any(x is not y for x, y in zip(na, c.a.args)):
                return BAtom(app(c.a.op, na, c.a.is_int), c.pos)
        return c
    if isinstance(c, And):
        return conj([cond_subst(x, mp) for x in c.cs])
    return disj([cond_subst(x, mp) for x in c.cs])


def cond_atoms(c, acc):
    if isinstance(c, Cmp):
        c.p.all_atoms(acc)
    elif isinstance(c, BAtom):
        nested_atoms(c.a, acc)
    elif isinstance(c, (And, Or)):
        for x in c.cs:
            cond_atoms(x, acc)
    return acc
