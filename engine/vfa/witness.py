"""Alarm filter: an alarm's abstract state is reported only when its
concretisation is shown to be non-empty.

The state is a conjunction of constraints over value numbers; a point of its
concretisation is an assignment of the free symbols (arguments, elements,
lengths, keys) under which every constraint holds and the required relation
does not.  Candidate points are proposed by a bounded local search over the
constraints' own constants; every derived value number (comparison, sort,
lookup, quotient, wrap-around ...) is evaluated by its definition, so an alarm
that exists only because the abstract domain does not know such a definition
is never reported.  No program instruction is evaluated here.
"""
import math, random, time
from fractions import Fraction
from bisect import bisect_left, bisect_right
from .terms import *
from . import terms as T
from .values import Base, Seg, El, Rep, SeqVal, MapVal, Rec, Ptr, Opaque
from .facts import AX

CAP = 3000
VTYPE = {}     # multimap contents -> value type seen
LEAFSYM_BAD = ('unk', 'ptr', 'memcmp', 'phi')


class NoEval(Exception):
    pass


class Fail(Exception):
    """this point does not define the value"""


def wrap(v, b):
    if not isinstance(v, int):
        if Fraction(v).denominator != 1:
            raise Fail()
        v = int(v)
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


def as_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isinstance(v, float) and v == int(v):
        return int(v)
    raise Fail()


def red(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


SEQ_LEAF = ('cont', 'mem', 'cstr', 'sym', 'mval', 'el', 'mmvals', 'rdseq', 'out')
SCALAR_LEAF = ('sym', 'rdf', 'rdb', 'el', 'mval', 'draw', 'addr', 'isnull', 'guard', 'alias', 'extract', 'extract_none')


class Point:
    def __init__(self, rnd, consts, kinds):
        self.rnd, self.consts, self.kinds = rnd, consts, kinds
        self.leaf = {}      # key -> value
        self.info = {}      # key -> (is_int, lo, hi)
        self.maps = {}      # key -> {k: True/count/values}
        self.touched = None
        self.memo = {}

    # ---- leaves
    def get(self, key, is_int, lo, hi):
        if self.touched is not None:
            self.touched.add(key)
        if key not in self.leaf:
            self.info[key] = (is_int, lo, hi)
            self.leaf[key] = self.pick(key)
        return self.leaf[key]

    def clampv(self, key, v):
        is_int, lo, hi = self.info[key]
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        if is_int:
            v = math.floor(v)
            if lo is not None and v < lo:
                v = math.ceil(lo)
        return red(v)

    def pick(self, key):
        is_int, lo, hi = self.info[key]
        r = self.rnd
        if is_int == 'bool':
            return bool(r.getrandbits(1))
        x = r.random()
        if str(key[0]).startswith('len_') or (key[0] == 'symlen'):
            v = r.choice((0, 1, 1, 2, 2, 3, 3, 4)) if x < 0.8 else r.choice(self.consts) + r.choice((-1, 0, 1))
        elif x < 0.45:
            v = r.choice((0, 1, -1, 2, 3, -2, 4, 5, 7))
        elif x < 0.6 and self.leaf:
            v = r.choice([z for z in self.leaf.values() if not isinstance(z, (bool, tuple))] or [0])
        elif x < 0.9 or is_int:
            v = r.choice(self.consts) + (r.choice((-1, 0, 0, 1)) if is_int else r.choice((0, 0, Fraction(1, 2), 1, -1, Fraction(1, 10))))
            if r.random() < 0.05:
                v = r.choice([z for z in (lo, hi) if z is not None] or [v])
        else:
            v = r.choice((Fraction(1, 2), Fraction(3, 10), Fraction(9, 10), 2, -1, 10, Fraction(-5, 2)))
        return self.clampv(key, Fraction(v) if not isinstance(v, float) else v)

    def setleaf(self, key, v):
        self.leaf[key] = self.clampv(key, v)
        self.memo.clear()

    def mutate(self, key):
        if key in self.maps:
            self.mutmap(key)
        elif key in self.leaf:
            self.leaf[key] = self.pick(key)
        self.memo.clear()

    # ---- keys
    def freeze(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Base):
            return ('base',) + self.bkey(x)
        if isinstance(x, SeqVal):
            return ('seq', self.seq(x))
        if isinstance(x, MapVal):
            return ('map', tuple(self.mapval(x)))
        if isinstance(x, Rec):
            return self.rec(x)
        if isinstance(x, tuple):
            return tuple(self.freeze(y) for y in x)
        if isinstance(x, Ptr):
            return ('ptr', x.obj, self.poly(x.off))
        if isinstance(x, Opaque):
            return ('opq', x.tag) + tuple(self.freeze(y) for y in x.args)
        if isinstance(x, Atom):
            return self.atom(x)
        if isinstance(x, (str, int, type(None), Fraction, bool)):
            return x
        if isinstance(x, Cond):
            return self.cond(x)
        raise NoEval(type(x).__name__)

    def bkey(self, b):
        if b.op == 'sym':
            return ('sym', b.id)
        return (b.op,) + tuple(self.freeze(y) for y in b.args)

    # ---- scalars
    def poly(self, p):
        s = 0
        for m, c in p.t.items():
            v = c
            for a, e in m:
                x = self.atom(a)
                if isinstance(x, (tuple, bool)):
                    x = int(x) if isinstance(x, bool) else self.bad()
                if e < 0:
                    if x == 0:
                        raise Fail()
                    v = v * (Fraction(x) ** e if not isinstance(x, float) else x ** e)
                else:
                    if e > 1 and isinstance(x, float) and abs(x) > 1e100:
                        raise Fail()
                    v = v * x ** e
            s = s + v
        return red(s)

    def bad(self):
        raise NoEval('type')

    def num(self, x):
        return self.poly(x) if isinstance(x, Poly) else x

    def atom(self, a):
        m = self.memo.get(a.id)
        if m is not None and self.touched is None:
            return m[0]
        v = self.atom1(a)
        if self.touched is None:
            self.memo[a.id] = (v,)
        return v

    def atom1(self, a):
        op, g = a.op, a.args
        if op == 'sym':
            if a.name.startswith(LEAFSYM_BAD) or a.widen:
                raise NoEval(a.name)
            key = ('symlen' if a.name.startswith('len_') else 'sym', a.id, a.name)
            return self.get(key, 'bool' if not a.lo and not a.hi and a.name.startswith('b') and a.is_int else a.is_int, a.lo, a.hi)
        if op in ('el',):
            base, k = g
            i = as_int(self.num(k))
            if base.op in SEQ_LEAF:
                return self.get(('el', self.bkey(base), i), a.is_int, a.lo, a.hi)
            s = self.base(base)
            if not 0 <= i < len(s):
                raise Fail()
            return s[i]
        if op in ('mhas',):
            return self.key(g[1]) in self.bmap(g[0])
        if op == 'mval':
            return self.get(('mval', self.bkey(g[0]), self.key(g[1])), a.is_int, a.lo, a.hi)
        if op == 'mcnt':
            return self.bmap(g[0]).get(self.key(g[1]), 0)
        if op in ('mpos', 'mkat', 'mlow', 'mupp', 'mmat'):
            es = self.mapval(g[0])
            ks = [e[0] for e in es]
            if op == 'mpos':
                k = self.key(g[1])
                if k not in ks:
                    raise Fail()
                return ks.index(k)
            if op == 'mlow':
                return bisect_left(ks, self.key(g[1]))
            if op == 'mupp':
                return bisect_right(ks, self.key(g[1]))
            i = as_int(self.num(g[1]))
            if not 0 <= i < len(es):
                raise Fail()
            if op == 'mkat':
                return es[i][0]
            v = es[i][1]
            if isinstance(v, tuple) and v and v[0] in ('mval', 'mmv'):
                if v[0] == 'mmv':
                    v = self.mmkey(v)
                return self.get(v, a.is_int, a.lo, a.hi)
            return v
        if op.startswith('len_'):
            if op == 'len_mapb':
                return sum(self.entries_of(v) for v in self.bmap_k(('mapb',) + tuple(self.freeze(y) for y in g)).values())
            if op in ('len_ts', 'len_text'):
                return len(self.text(g[0], self.num(g[1])))
            n = op[4:]
            if n == 'mmvals' and g[0].op == 'mapb':
                return self.bmap(g[0]).get(self.key(g[1]), 0)
            if n in SEQ_LEAF:
                return self.get((op,) + tuple(self.freeze(y) for y in g), True, 0, a.hi)
            raise NoEval(op)
        if op == 'cmp3':
            x, y = self.val(g[0]), self.val(g[1])
            if x == y:
                return 0
            try:
                return -1 if x < y else 1
            except TypeError:
                raise NoEval('order')
        if op == 'find':
            return self.find(g)
        if op.startswith('rd') or op in SCALAR_LEAF:
            b = op in ('rdb', 'isnull', 'guard', 'alias', 'extract_none')
            if op == 'alias':
                return False
            return self.get((op,) + tuple(self.freeze(y) for y in g), 'bool' if b else a.is_int, a.lo, a.hi)
        if op == 'udraw':
            return self.get(('draw',) + tuple(self.freeze(y) for y in g), True, -(1 << 63), (1 << 63) - 1) % (1 << 64)
        if op.startswith('wrap'):
            return wrap(self.num(g[0]), int(op[4:]))
        if op == 'tab':
            i = as_int(self.num(g[2])) - g[0]
            if not 0 <= i < len(g[1]):
                raise Fail()
            return g[1][i]
        xs = [self.num(y) for y in g if isinstance(y, (Poly, int, Fraction, float))]
        if op == 'mul':
            return xs[0] * xs[1]
        if op == 'polyatom':
            return xs[0]
        if op in ('fdiv', 'gdiv'):
            if xs[1] == 0:
                raise Fail()
            return xs[0] // xs[1]
        if op == 'gmod':
            if xs[1] == 0:
                raise Fail()
            return xs[0] % xs[1]
        if op == 'gcd':
            return math.gcd(int(xs[0]), int(xs[1]))
        if op == 'iabs':
            return abs(xs[0])
        if op == 'sdiv':
            if xs[1] == 0:
                raise Fail()
            q = abs(xs[0]) // abs(xs[1])
            return q if (xs[0] >= 0) == (xs[1] >= 0) else -q
        if op == 'srem':
            if xs[1] == 0:
                raise Fail()
            r = abs(xs[0]) % abs(xs[1])
            return r if xs[0] >= 0 else -r
        if op == 'frem':
            return math.fmod(xs[0], xs[1])
        if op == 'pow2':
            if not 0 <= xs[0] < 200:
                raise Fail()
            return 1 << as_int(xs[0])
        if op in ('and', 'or', 'xor'):
            x, y = as_int(xs[0]), as_int(xs[1])
            return x & y if op == 'and' else x | y if op == 'or' else x ^ y
        for nm in ('shl', 'lshr', 'ashr'):
            if op.startswith(nm):
                b = int(op[len(nm):])
                x, y = as_int(xs[0]), as_int(xs[1])
                if not 0 <= y < b:
                    raise Fail()
                if nm == 'shl':
                    return wrap(x << y, b)
                if nm == 'lshr':
                    return wrap((x & ((1 << b) - 1)) >> y, b)
                return x >> y
        if op in ('ftrunc', 'ftruncs'):
            return math.trunc(xs[0])
        if op == 'ffloor':
            return math.floor(xs[0])
        if op == 'fceil':
            return math.ceil(xs[0])
        if op in ('fround',):
            return math.floor(xs[0] + Fraction(1, 2))
        try:
            if op == 'sqrt':
                if xs[0] < 0:
                    raise Fail()
                f = Fraction(xs[0])
                x, y = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if x * x == f.numerator and y * y == f.denominator:
                    return red(Fraction(x, y))
                return math.sqrt(xs[0])
            if op == 'exp':
                return math.exp(xs[0])
            if op in ('log', 'log2', 'log10'):
                if xs[0] <= 0:
                    raise Fail()
                return {'log': math.log, 'log2': math.log2, 'log10': math.log10}[op](xs[0])
            if op == 'pow':
                if isinstance(xs[1], int) and -64 <= xs[1] <= 64 and not isinstance(xs[0], float):
                    if xs[0] == 0 and xs[1] < 0:
                        raise Fail()
                    return red(Fraction(xs[0]) ** xs[1])
                v = math.pow(xs[0], xs[1])
                return v
            if op == 'nextafter':
                return Fraction(math.nextafter(float(xs[0]), float(xs[1])))
            if op in ('sin', 'cos', 'tan', 'lgamma', 'tgamma'):
                return {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'lgamma': math.lgamma, 'tgamma': math.gamma}[op](xs[0])
        except (OverflowError, ValueError):
            raise Fail()
        raise NoEval(op)

    def find(self, g):
        kind, v, w, pos = g
        s = self.val(v)
        p = as_int(self.num(pos))
        if isinstance(w, (SeqVal,)):
            x = self.val(w)
        elif isinstance(w, Poly):
            x = (self.num(w),)
        else:
            raise NoEval('find')
        n, m = len(s), len(x)
        if kind == 'find':
            for i in range(max(p, 0), n - m + 1):
                if s[i:i + m] == x:
                    return i
            return -1
        if kind == 'rfind':
            for i in range(min(n - m, p if p >= 0 else n), -1, -1):
                if s[i:i + m] == x:
                    return i
            return -1
        if kind == 'find_first_of':
            for i in range(max(p, 0), n):
                if s[i] in x:
                    return i
            return -1
        if kind == 'find_first_not_of':
            for i in range(max(p, 0), n):
                if s[i] not in x:
                    return i
            return -1
        raise NoEval('find')

    def text(self, t, x):
        if isinstance(x, (int, bool)) and not isinstance(x, float):
            return str(int(x))
        raise NoEval('text')

    # ---- structured values
    def val(self, v):
        if isinstance(v, Poly):
            return self.poly(v)
        if isinstance(v, SeqVal):
            return self.seq(v)
        if isinstance(v, MapVal):
            return tuple(self.mapval(v))
        if isinstance(v, Rec):
            return self.rec(v)
        if v is None:
            return None
        raise NoEval(type(v).__name__)

    def rec(self, r):
        if r.src is None and len(r.cells) == 1 and r.cells[0][0] == 0:
            return self.val(r.cells[0][2])
        if r.src and r.src[0] == 'mkat':
            return self.atom1(_A('mkat', r.src[1:]))
        if r.src is not None:
            return ('rec', self.freeze(r.src)) + tuple((c[0], self.val(c[2])) for c in r.cells)
        return tuple(self.val(c[2]) for c in sorted(r.cells, key=lambda c: c[0]))

    def seq(self, s):
        out = []
        for p in s.parts:
            if isinstance(p, El):
                out.append(self.val(p.v))
            elif isinstance(p, Rep):
                n = as_int(self.poly(p.len))
                if n < 0:
                    raise Fail()
                if n > CAP:
                    raise Fail()
                out.extend([self.val(p.v)] * n)
            else:
                i, n = as_int(self.poly(p.start)), as_int(self.poly(p.len))
                if n < 0 or i < 0 or n > CAP:
                    raise Fail()
                if p.base.op in SEQ_LEAF:
                    out.extend(self.leafel(p.base, j) for j in range(i, i + n))
                else:
                    b = self.base(p.base)
                    if i + n > len(b):
                        raise Fail()
                    out.extend(b[i:i + n])
            if len(out) > CAP:
                raise Fail()
        return tuple(out)

    def leafel(self, b, j):
        et = b.et
        k = self.bkey(b)
        if et is None:
            return self.get(('el', k, j), True, None, None)
        if et.ty == 'cls':
            n = self.get(('len_el', k, j), True, 0, 3)
            return tuple(self.get(('el', ('el', ('base',) + k, j), i), True, 1, 127) for i in range(n))
        if et.ty == 'p':
            raise NoEval('pointers')
        if et.ty[0] == 'f':
            lo, hi = b.lohi or (None, None)
            return self.get(('el', k, j), False, lo, hi)
        w = 8 * et.size
        lo, hi = b.lohi or (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if b.op == 'cstr':
            v = self.get(('el', k, j), True, lo, hi)
            return v if v else 1
        return self.get(('el', k, j), True, lo, hi)

    def base(self, b):
        op = b.op
        if op in SEQ_LEAF:
            n = as_int(self.poly(b.n))
            if not 0 <= n <= CAP:
                raise Fail()
            return tuple(self.leafel(b, j) for j in range(n))
        if op == 'sorted':
            return tuple(sorted(self.val(b.args[0])))
        if op == 'sorted>':
            return tuple(sorted(self.val(b.args[0]), reverse=True))
        if op == 'rev':
            return tuple(reversed(self.val(b.args[0])))
        if op == 'merged':
            x, y = list(self.val(b.args[0])), list(self.val(b.args[1]))
            out = []
            while x and y:
                out.append(y.pop(0) if y[0] < x[0] else x.pop(0))
            return tuple(out + x + y)
        if op in ('to_string', 'text'):
            return tuple(ord(ch) for ch in self.text(b.args[0], self.num(b.args[1])))
        if op == 'mkat':
            return self.atom1(_A('mkat', b.args))
        if op == 'mmat':
            return self.atom1(_A('mmat', b.args))
        raise NoEval('sequence ' + op)

    # ---- maps
    def key(self, k):
        return self.val(k)

    def entries_of(self, v):
        if v is True:
            return 1
        if isinstance(v, tuple):
            return len(v)
        return v

    def randkey(self, stringy):
        r = self.rnd
        if stringy:
            return tuple(r.choice((1, 2, 97, 98)) for _ in range(r.choice((0, 1, 1, 2))))
        if r.random() < 0.3 and self.leaf:
            z = r.choice([z for z in self.leaf.values() if isinstance(z, int) and not isinstance(z, bool)] or [0])
            return z
        return r.choice((0, 1, -1, 2, 3, -2, 4, 5))

    def bmap(self, b):
        return self.bmap_k(self.bkey(b))

    def bmap_k(self, k):
        if self.touched is not None:
            self.touched.add(k)
        if k not in self.maps:
            kind, stringy = self.kinds.get(k[1:], self.kinds.get('*', ('u', False)))
            self.maps[k] = {}
            for _ in range(self.rnd.choice((0, 1, 1, 2, 2, 3))):
                self.maps[k][self.randkey(stringy)] = self.mval0(k, kind)
        return self.maps[k]

    def mval0(self, k, kind):
        if kind == 'u':
            return True
        if kind == 'c':
            return self.rnd.choice((1, 1, 2, 3))
        return self.rnd.choice((1, 1, 2))

    def mutmap(self, k):
        kind, stringy = self.kinds.get(k[1:], self.kinds.get('*', ('u', False)))
        m = self.maps[k]
        if m and self.rnd.random() < 0.5:
            del m[self.rnd.choice(sorted(m))]
        else:
            cand = self.randkey(stringy)
            ks = [z for z in self.pool() if isinstance(z, tuple) == stringy]
            if ks and self.rnd.random() < 0.7:
                cand = self.rnd.choice(ks)
            m[cand] = self.mval0(k, kind)

    def pool(self):
        out = [z for z in self.leaf.values() if isinstance(z, int) and not isinstance(z, bool)]
        return out + list(self.qkeys)

    qkeys = ()

    def mapval(self, mv):
        """sorted entries [(key, value)]"""
        d = {}
        bk = None
        if mv.base is not None:
            bk = self.bkey(mv.base)
            for k, v in self.bmap_k(bk).items():
                if v is True:
                    d[k] = [('b', k)]
                else:
                    d[k] = [('b', k, i) for i in range(v)]
        kind = None
        for key, pres, val in mv.ov:
            k = self.key(key)
            if isinstance(val, SeqVal):      # multimap values
                d[k] = list(self.seq(val))
                if not d[k]:
                    del d[k]
            elif isinstance(val, Poly) and self.kind_of(mv, bk) == 'c':
                n = as_int(self.poly(val))
                if n > 50 or n < 0:
                    raise Fail()
                d[k] = [None] * n
                if not n:
                    del d[k]
            elif not pres:
                d.pop(k, None)
            else:
                d[k] = [None if val is None else self.val(val)]
        out = []
        for k in sorted(d):
            for v in d[k]:
                if isinstance(v, tuple) and v and v[0] == 'b':
                    if len(v) == 2:
                        v = ('mval', bk, k)
                        v = self.leaf.get(v, v)
                    elif self.kind_of(mv, bk) == 'c':
                        v = None
                    else:
                        v = ('mmv', bk, k, v[2])
                        vt = VTYPE.get(mv.base)
                        v = self.get(self.mmkey(v), *vt) if vt else self.leaf.get(self.mmkey(v), v)
                out.append((k, v))
        return out

    def mmkey(self, v):
        """leaf of the i-th value stored under a key of a multimap"""
        return ('el', ('mmvals', ('base',) + v[1], ('seq', v[2]) if isinstance(v[2], tuple) else v[2]), v[3])

    def kind_of(self, mv, bk):
        if bk is not None:
            return self.kinds.get(bk[1:], self.kinds.get('*', ('u', False)))[0]
        return self.kinds.get('*', ('u', False))[0]

    # ---- conditions: (holds, violation measure)
    def cond(self, c, strict=False):
        if c is True or c is False:
            return c
        if isinstance(c, And):
            return all(self.cond(x, strict) for x in c.cs)
        if isinstance(c, Or):
            return any(self.cond(x, strict) for x in c.cs)
        if isinstance(c, BAtom):
            v = self.atom(c.a)
            return bool(v) == c.pos
        v = self.poly(c.p)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Fail()
            eps = 1e-9
            # margins: a float comparison counts only when it is decided clearly
            return {'ge': v >= eps, 'gt': v > eps, 'eq': abs(v) < 1e-12 and not strict, 'ne': abs(v) > 1e-6}[c.op]
        return {'ge': v >= 0, 'gt': v > 0, 'eq': v == 0, 'ne': v != 0}[c.op]


class _A:
    __slots__ = ('op', 'args', 'is_int', 'lo', 'hi', 'id', 'name', 'widen')

    def __init__(self, op, args):
        self.op, self.args, self.is_int, self.lo, self.hi, self.id = op, tuple(args), True, None, None, None


def collect(x, acc, maps, seen):
    if id(x) in seen:
        return
    if isinstance(x, Atom):
        if x in acc:
            return
        acc.add(x)
        for a in AX.get(x, ()):
            collect(a, acc, maps, seen)
        for y in x.args:
            collect(y, acc, maps, seen)
        if x.op in ('mhas', 'mval', 'mcnt'):
            maps.append((x.args[0], 'c' if x.op == 'mcnt' else 'u', x.args[1]))
        return
    seen.add(id(x))
    if isinstance(x, Poly):
        for m in x.t:
            for a, e in m:
                collect(a, acc, maps, seen)
    elif isinstance(x, Cmp):
        collect(x.p, acc, maps, seen)
    elif isinstance(x, BAtom):
        collect(x.a, acc, maps, seen)
    elif isinstance(x, (And, Or)):
        for y in x.cs:
            collect(y, acc, maps, seen)
    elif isinstance(x, Base):
        for y in x.args:
            collect(y, acc, maps, seen)
        collect(x.n, acc, maps, seen)
        if x.op == 'mmvals':
            maps.append((x.args[0], 'm', x.args[1]))
            if x.et is not None and x.et.ty[0] in 'if':
                w = 8 * x.et.size
                VTYPE[x.args[0]] = (True, -(1 << (w - 1)), (1 << (w - 1)) - 1) if x.et.ty[0] == 'i' else (False, None, None)
        elif x.op == 'mval':
            maps.append((x.args[0], 'u', x.args[1]))
    elif isinstance(x, MapVal):
        if x.base is not None:
            collect(x.base, acc, maps, seen)
        for k, p, v in x.ov:
            collect(k, acc, maps, seen)
            maps.append((x.base, 'm' if isinstance(v, SeqVal) else None, k))
            if v is not None:
                collect(v, acc, maps, seen)
    elif hasattr(x, 'term_children'):
        for y in x.term_children():
            collect(y, acc, maps, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            collect(y, acc, maps, seen)


def constraints(f, neg_c):
    cs = list(f.cons) + [Cmp(p, 'ne') for p in f.nes] + [BAtom(a, v) for a, v in f.b.items()]
    cs += [x for x in f.rawb]
    for a, p in f.sub.items():
        if isinstance(a, Atom):
            cs.append(Cmp(poly(a) - p, 'eq'))
    if neg_c is not True:
        if isinstance(neg_c, And):
            cs += list(neg_c.cs)
        else:
            cs.append(neg_c)
    return cs


def find(facts, neg_c=True, seed=1, tmax=1.5, restarts=40, steps=300):
    """(assignment text) or None"""
    if neg_c is False:
        return None
    cs = constraints(facts, neg_c)
    atoms, maps = set(), []
    for c in cs:
        collect(c, atoms, maps, set())
    consts = {0, 1, -1, 2, 10}
    for c in cs:
        for p in cond_polys(c) if isinstance(c, (Cmp, And, Or)) else ():
            for m, v in p.t.items():
                if abs(v) < 10 ** 13:
                    consts.add(v)
                    consts.add(-v)
                if m and p.c0() and len(p.t) == 2:
                    q = -Fraction(p.c0()) / v
                    consts.add(red(q))
    for a in atoms:
        for y in a.args:
            if isinstance(y, Poly):
                for v in y.t.values():
                    if abs(v) < 10 ** 13:
                        consts.add(v)
                        consts.add(-v)
    for a in atoms:
        if a.op == 'wrap8':
            consts |= {127, 128, 255, 256, -128, -129}
        if a.op == 'wrap16':
            consts |= {32767, 32768, 65535, 65536}
        if a.op == 'wrap32' and not (a.args and isinstance(a.args[0], Poly) and len(a.args[0].t) > 6):
            consts |= {2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 30}
    consts = sorted(consts, key=lambda v: (abs(v), v))
    t0 = time.time()
    for r in range(restarts):
        rnd = random.Random(seed * 1000 + r)
        pt = Point(rnd, consts, {})
        try:
            kinds = {}
            for b, k, q in maps:
                stringy = not isinstance(q, Poly)
                if b is not None:
                    kk = pt.bkey(b)[1:]
                    old = kinds.get(kk)
                    kinds[kk] = (k or (old[0] if old else 'u'), stringy)
                if '*' not in kinds or k in ('c', 'm'):
                    kinds['*'] = (k or 'u', stringy)
            pt.kinds = kinds
        except Fail:
            continue
        if climb(pt, cs, rnd, steps, t0 + tmax):
            return describe(pt)
        if time.time() - t0 > tmax:
            return None
    return None


def climb(pt, cs, rnd, steps, tend):
    for st in range(steps):
        if st % 20 == 0 and time.time() > tend:
            return False
        badc = []
        pt.touched = None
        pt.memo.clear()
        for c in cs:
            try:
                if not pt.cond(c):
                    badc.append(c)
            except Fail:
                badc.append(c)
        if not badc:
            return True
        c = rnd.choice(badc)
        repair(pt, c, rnd)
    return False


def repair(pt, c, rnd):
    if isinstance(c, Or):
        return repair(pt, rnd.choice(c.cs), rnd)
    if isinstance(c, And):
        return repair(pt, rnd.choice(c.cs), rnd)
    if c is True or c is False:
        return
    # dependencies
    pt.touched = set()
    try:
        pt.cond(c)
    except Fail:
        pass
    deps = sorted(pt.touched, key=repr)
    pt.touched = None
    if isinstance(c, Cmp) and rnd.random() < 0.85:
        lin = []
        for m in c.p.t:
            if len(m) == 1 and m[0][1] == 1:
                lin.append(m[0][0])
        rnd.shuffle(lin)
        for a in lin:
            key = leafkey(pt, a)
            if key is None:
                continue
            try:
                cur = pt.leaf[key]
                tot = pt.poly(c.p)
                if isinstance(cur, (bool, tuple)):
                    continue
                # coefficient by difference (exact for linear occurrences)
                co = c.p.t[((a, 1),)]
                for m in c.p.t:
                    if any(x is a for x, e in m) and m != ((a, 1),):
                        raise Fail()
                rest = tot - co * cur
                if isinstance(rest, float):
                    want = -rest / float(co)
                else:
                    want = -Fraction(rest) / co
                isint = pt.info[key][0]
                up = co > 0
                if c.op in ('ge', 'gt'):
                    sl = rnd.choice((0, 0, 1, 2)) if c.op == 'ge' else rnd.choice((1, 1, 2) if isint else (Fraction(1, 100), 1, Fraction(1, 2)))
                    if isint and not isinstance(want, float):
                        want = math.ceil(want) if up else math.floor(want)
                    want = want + sl if up else want - sl
                elif c.op == 'ne':
                    want = cur + rnd.choice((1, -1, 2))
                if isinstance(want, float):
                    want = Fraction(want).limit_denominator(10 ** 6)
                pt.setleaf(key, want)
                return
            except Fail:
                continue
    if isinstance(c, BAtom) and c.a.op in ('mhas',):
        try:
            k = pt.key(c.a.args[1])
            m = pt.bmap(c.a.args[0])
            bk = pt.bkey(c.a.args[0])
            if rnd.random() < 0.7:
                if c.pos:
                    m[k] = pt.mval0(bk, 'u')
                else:
                    m.pop(k, None)
                pt.memo.clear()
                return
        except Fail:
            pass
    if deps:
        pt.mutate(rnd.choice(deps))


def leafkey(pt, a):
    pt.touched = set()
    try:
        v = pt.atom1(a)
    except (Fail, NoEval):
        v = None
    t = pt.touched
    pt.touched = None
    # a leaf atom touches its own key last; accept when some touched key holds exactly this value and the op is a leaf
    if v is None:
        return None
    if a.op in ('sym', 'el', 'mval') or a.op in SCALAR_LEAF or a.op.startswith('rd') or a.op.startswith('len_'):
        for k in t:
            if k in pt.leaf and pt.leaf[k] == v and (k[0] == a.op or k[0] == 'symlen'):
                return k
    return None


def show(k):
    if k[0] in ('sym', 'symlen'):
        return k[2]
    return '%s%r' % (k[0], tuple(k[1:]))


def describe(pt):
    out = []
    for k, v in sorted(pt.leaf.items(), key=lambda kv: repr(kv[0])):
        out.append('%s=%s' % (show(k), v))
    for k, m in pt.maps.items():
        out.append('%s keys=%s' % (show(k), sorted(m)))
    return '; '.join(out)[:600] or 'any state'
