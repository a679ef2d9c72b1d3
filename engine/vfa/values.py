"""Abstract values other than polynomials."""
from .terms import *
from . import terms as T


class Ptr:
    """pointer to byte `off` of abstract object `obj` (obj None = null)"""
    __slots__ = ('obj', 'off', 'gen')

    def __init__(self, obj, off, gen=0):
        self.obj, self.off, self.gen = obj, off, gen

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash(('ptr', self.obj, self.off))

    def __repr__(self):
        return 'null' if self.obj is None else '&%s+%r' % (self.obj, self.off)

    def term_children(self):
        return (self.off,)

    def subst(self, mp):
        o = subst(self.off, mp)
        return self if o is self.off else Ptr(self.obj, o, self.gen)


NULLP = Ptr(None, ZERO)


class FnP:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnP) and o.name == self.name

    def __hash__(self):
        return hash(('fn', self.name))

    def __repr__(self):
        return 'fn:' + self.name


class ZB:
    """integer 0/1 of a condition"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, ZB) and self.c == o.c

    def __hash__(self):
        return hash(('zb', self.c))

    def __repr__(self):
        return 'b2i(%r)' % (self.c,)

    def term_children(self):
        acc = set()
        cond_atoms(self.c, acc)
        return tuple(acc)

    def subst(self, mp):
        return ZB(cond_subst(self.c, mp))


class Unk:
    """any value; `why` says what was not tracked"""
    __slots__ = ('why', 'id')
    n = 0

    def __init__(self, why):
        self.why = why
        Unk.n += 1
        self.id = Unk.n

    def __repr__(self):
        return 'unk(%s)' % self.why


class Uninit:
    def __repr__(self):
        return 'uninit'


UNINIT = Uninit()


class Pack:
    """several cells read as one integer (a small struct passed by value)"""
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = tuple(fs)    # (offset, size, value)

    def __eq__(self, o):
        return isinstance(o, Pack) and self.fs == o.fs

    def __hash__(self):
        return hash(self.fs)

    def subst(self, mp):
        fs = tuple((a, b, subst_any(v, mp)) for a, b, v in self.fs)
        return self if all(x[2] is y[2] for x, y in zip(fs, self.fs)) else Pack(fs)


class Agg:
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = tuple(vs)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.vs == o.vs

    def __hash__(self):
        return hash(('agg', self.vs))

    def __repr__(self):
        return '{%s}' % ','.join(map(repr, self.vs))


class Rec:
    """value of a class-typed element: cells (off,size,val)"""
    __slots__ = ('cells', '_h', 'src')

    def __init__(self, cells, src=None):
        self.cells = tuple(sorted(cells, key=lambda c: c[0]))
        self._h = None
        self.src = src      # (tag, offset) lazily symbolic background

    def __eq__(self, o):
        return isinstance(o, Rec) and self.cells == o.cells and self.src == o.src

    def __hash__(self):
        if self._h is None:
            self._h = hash(('rec', self.cells, self.src))
        return self._h

    def __repr__(self):
        return 'rec%r%s' % (self.cells, '' if self.src is None else '@%r' % (self.src,))

    def term_children(self):
        return tuple(c[2] for c in self.cells) + ((self.src,) if self.src else ())

    def subst(self, mp):
        cs = tuple((o, s, subst_any(v, mp)) for o, s, v in self.cells)
        src = subst_any(self.src, mp) if self.src else None
        return Rec(cs, src)


# ---------------------------------------------------------------- sequences
class Base:
    """opaque sequence symbol; interned applications share identity"""
    _n = 0
    _int = {}
    __slots__ = ('id', 'op', 'args', 'n', 'name', 'et', 'lohi', 'mono')

    def __init__(self, op, args, n, name, et=None):
        Base._n += 1
        self.id = Base._n
        self.op, self.args, self.n, self.name, self.et = op, args, n, name, et
        self.lohi = None

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.id < o.id

    def term_children(self):
        return (self.n,) + tuple(self.args)


SIZE_MAX = 2 ** 31 - 1


def base_sym(name, et=None, hi=SIZE_MAX):
    n = poly(T.sym('len_' + name, True, 0, hi))
    return Base('sym', (), n, '%s%d' % (name, Base._n + 1), et)


def base_app(op, args, n=None, et=None):
    key = (op, tuple(args))
    b = Base._int.get(key)
    if b is None:
        if n is None:
            n = poly(app('len_' + op, tuple(args), True, 0, SIZE_MAX))
        b = Base(op, tuple(args), n, '%s%r' % (op, tuple(args)), et)
        Base._int[key] = b
    return b


class Seg:
    __slots__ = ('base', 'start', 'len')

    def __init__(self, base, start, ln):
        self.base, self.start, self.len = base, start, ln

    def __eq__(self, o):
        return isinstance(o, Seg) and self.base is o.base and self.start == o.start and self.len == o.len

    def __hash__(self):
        return hash((self.base.id, self.start, self.len))

    def __repr__(self):
        return '%r[%r:+%r]' % (self.base, self.start, self.len)

    def term_children(self):
        return (self.base, self.start, self.len)

    def subst(self, mp):
        b = self.base
        if b.args:
            na = [subst_any(x, mp) for x in b.args]
            if any(x is not y for x, y in zip(na, b.args)):
                b = base_app(b.op, na, subst(b.n, mp), b.et)
        s, l = subst(self.start, mp), subst(self.len, mp)
        if b is self.base and s is self.start and l is self.len:
            return self
        return Seg(b, s, l)


class El:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, El) and self.v == o.v

    def __hash__(self):
        return hash(('el', self.v))

    def __repr__(self):
        c = self.v.const if isinstance(self.v, Poly) else None
        if c is not None and 32 < c < 127:
            return "'%c'" % c
        return '<%r>' % (self.v,)

    def term_children(self):
        return (self.v,)

    def subst(self, mp):
        v = subst_any(self.v, mp)
        return self if v is self.v else El(v)


class Rep:
    """n copies of one value"""
    __slots__ = ('v', 'len')

    def __init__(self, v, ln):
        self.v, self.len = v, ln

    def __eq__(self, o):
        return isinstance(o, Rep) and self.v == o.v and self.len == o.len

    def __hash__(self):
        return hash(('rep', self.v, self.len))

    def __repr__(self):
        return '<%r>*%r' % (self.v, self.len)

    def term_children(self):
        return (self.v, self.len)

    def subst(self, mp):
        return Rep(subst_any(self.v, mp), subst(self.len, mp))


class SeqVal:
    __slots__ = ('parts', '_h')

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._h = None

    def __eq__(self, o):
        return isinstance(o, SeqVal) and self.parts == o.parts

    def __hash__(self):
        if self._h is None:
            self._h = hash(('seq', self.parts))
        return self._h

    def __repr__(self):
        return '[' + ' '.join(map(repr, self.parts)) + ']'

    def term_children(self):
        return self.parts

    def subst(self, mp):
        ps = tuple(p.subst(mp) for p in self.parts)
        return self if all(x is y for x, y in zip(ps, self.parts)) else SeqVal(ps)

    def length(self):
        n = ZERO
        for p in self.parts:
            n = n + plen(p)
        return n

    def const_str(self):
        out = []
        for p in self.parts:
            if isinstance(p, El) and isinstance(p.v, Poly) and p.v.const is not None:
                out.append(p.v.const & 255)
            else:
                return None
        return bytes(out)


def plen(p):
    return ONE if isinstance(p, El) else p.len


def seq_sym(name, et=None, hi=SIZE_MAX):
    b = base_sym(name, et, hi)
    return SeqVal([Seg(b, ZERO, b.n)])


def seq_app(op, args, n=None, et=None):
    b = base_app(op, args, n, et)
    return SeqVal([Seg(b, ZERO, b.n)])


EMPTYSEQ = SeqVal(())


def bytes_seq(bs):
    return SeqVal([El(P(b - 256 if b > 127 else b)) for b in bs])


class MapVal:
    """ordered associative container: opaque base + ordered overlay of updates.
    overlay: tuple of (key, present:bool, val or None)"""
    __slots__ = ('base', 'ov', 'n')

    def __init__(self, base, ov, n):
        self.base, self.ov, self.n = base, tuple(ov), n

    def __eq__(self, o):
        return isinstance(o, MapVal) and self.base is o.base and self.ov == o.ov

    def __hash__(self):
        return hash(('map', None if self.base is None else self.base.id, self.ov))

    def __repr__(self):
        return 'map(%r;%r)' % (self.base, self.ov)

    def term_children(self):
        return tuple(x for o in self.ov for x in (o[0], o[2]) if x is not None) + (self.n,)

    def subst(self, mp):
        return MapVal(self.base, tuple((subst_any(k, mp), p, subst_any(v, mp) if v is not None else None) for k, p, v in self.ov), subst(self.n, mp))


class Opaque:
    """opaque model state (generators, streams...): tag + term args"""
    __slots__ = ('tag', 'args')

    def __init__(self, tag, args=()):
        self.tag, self.args = tag, tuple(args)

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.tag == o.tag and self.args == o.args

    def __hash__(self):
        return hash((self.tag, self.args))

    def __repr__(self):
        return '%s%r' % (self.tag, self.args)

    def term_children(self):
        return self.args

    def subst(self, mp):
        return Opaque(self.tag, tuple(subst_any(a, mp) for a in self.args))


class Split(Exception):
    """an operation needs to know the truth of cond: analyse both cases"""

    def __init__(self, cond):
        self.cond = cond


class Kill(Exception):
    """this abstract state cannot continue (already reported)"""


class Unmodelled(Exception):
    def __init__(self, why):
        self.why = why
