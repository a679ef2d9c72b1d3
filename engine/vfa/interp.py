"""Abstract interpreter over LLVM IR (see DESIGN.md, "Engine").

Flow-, context- and partition-sensitive: every call to a function with a body
is analysed in its calling context, states at a program point form a bounded
disjunction (joined beyond the bound), loops are solved by fixpoint with
template invariants (candidates weakened until inductive).  No path is
enumerated past a join bound, no solver is called and nothing is executed.
"""
import os
import re, heapq, struct, time
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from . import witness, bits as BITS
from .facts import EMPTY, Facts, add_axiom
from .state import State, Obj
from .ir import parse_name, split_top

I64 = 2 ** 63


REPO = os.environ.get('VF_REPO', '/repo').rstrip('/') + '/'


class Report:
    __slots__ = ('kind', 'label', 'loc', 'fn', 'msg', 'inexact', 'spec', 'trail', 'witness', 'atoms')

    def __init__(self, kind, label, loc, fn, msg, inexact, spec, trail=()):
        self.kind, self.label, self.loc, self.fn, self.msg = kind, label, loc, fn, msg
        self.inexact, self.spec, self.trail = inexact, spec, trail
        self.witness = None
        self.atoms = ()

    def key(self):
        return (self.kind, self.label, self.loc, self.msg)

    def __repr__(self):
        return '%s:%s [%s] %s in %s: %s%s' % (self.loc[0], self.loc[1], self.kind, self.label, self.fn, self.msg,
                                             (' (inexact: %s)' % ', '.join(self.inexact)) if self.inexact else '')


class Budget(Exception):
    pass


class Throw(Exception):
    """model raises a C++ exception in this state"""

    def __init__(self, what):
        self.what = what


class Ctx:
    __slots__ = ('fn', 'rets', 'throws', 'allocas')

    def __init__(self, fn):
        self.fn = fn
        self.rets, self.throws = [], []


def bits_of(ty):
    return int(ty[1:]) if ty[0] == 'i' else (64 if ty == 'p' else 0)


SZ = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'p': 8, 'f64': 8, 'f32': 4, 'f80': 16, 'i128': 16}


def ty_size(ty):
    if ty in SZ:
        return SZ[ty]
    if ty.startswith('{'):
        fs = struct_fields(ty)
        if not fs:
            return 0
        o, t = fs[-1]
        return o + ty_size(t)
    if ty.startswith('['):
        m = re.match(r'\[(\d+)x(\d+):', ty)
        return int(m.group(1)) * int(m.group(2))
    if ty[0] == 'i':
        return (int(ty[1:]) + 7) // 8
    return 8


_sf = {}


def struct_fields(ty):
    r = _sf.get(ty)
    if r is None:
        inner = ty[1:-1]
        r = []
        if inner:
            for p in split_top(inner, ','):
                o, t = p.split(':', 1)
                r.append((int(o), t))
        _sf[ty] = r
    return r


class Interp:
    MAXD = 40
    UNROLL = 700

    def __init__(self, mod, models, max_time=200, max_steps=600000):
        self.mod = mod
        self.models = models
        self.max_time, self.max_steps = max_time, max_steps
        self.reset()

    def reset(self):
        self.reports = []
        self.obls = {}
        self.effects = set()
        self.steps = 0
        self.cnt = 0
        self.stack = []
        self.fnstack = []
        self.cmp_log = []
        self.loopstack = []
        self.curloc = ('?', 0)
        self.curfn = '?'
        self.t0 = time.time()
        self.analysed = {}
        self.wtries, self.wtime = {}, 0
        self.spec = None
        self.calls = 0
        self.sites = set()
        self.loops_seen = set()
        self.opts = {}
        self.unmod = {}
        self.hit = set()
        self.quiet = 0
        self.interesting = []
        self.reached = set()
        self.refutes = set()
        self.exits = 0
        self.peel = 0
        self.dropped = 0

    # ------------------------------------------------------------ reporting
    def fresh(self):
        self.cnt += 1
        return self.cnt

    def where(self):
        """nearest location in the analysed repository"""
        for loc in [self.curloc] + [f[1] for f in reversed(self.fnstack)]:
            if loc and self.is_repo(loc[0]):
                return loc
        return self.curloc

    def is_repo(self, f):
        return f.startswith(REPO) or f.startswith('src/')

    def repo_fn(self):
        for name, loc, dem, file in reversed(self.fnstack):
            if file and self.is_repo(file):
                return dem
        return self.fnstack[-1][2] if self.fnstack else '?'

    def report(self, kind, label, st, msg, cond=False):
        r = Report(kind, label, self.where(), self.repo_fn(), msg, tuple(st.flags.get('inexact', ())), self.spec,
                   tuple(f[2] for f in self.fnstack))
        if not self.peel:
            r.atoms = sorted({a for c in st.facts.cons for a in c.p.all_atoms()}, key=lambda a: a.id)
        if self.peel and not r.inexact:
            k = (kind, label, r.loc)
            n = self.wtries.get(k, 0)
            if n < 6 and self.wtime < 60:
                self.wtries[k] = n + 1
                t0 = time.time()
                try:
                    r.witness = witness.find(st.facts, neg(cond) if not isinstance(cond, bool) else not cond)
                    if r.witness:
                        self.wtries[k] = 99
                    else:
                        r.inexact = ('no point of the alarm state was found',)
                except witness.NoEval as e:
                    r.inexact = ('value number without a definition: %s' % e,)
                self.wtime += time.time() - t0
            else:
                r.inexact = ('not examined',)
        self.reports.append(r)

    def oblige(self, kind, label, ok):
        k = (kind, label, self.where())
        o = self.obls.setdefault(k, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1

    def check(self, st, cond, kind, label, msg):
        """obligation: cond holds in st.  Returns the facts to continue with."""
        ok = st.facts.implies(cond)
        self.oblige(kind, label, ok)
        if not ok:
            self.report(kind, label, st, msg + ' [not established: %s]' % (pretty(cond, st),), cond)
            fs = st.facts.assume(cond)
            if not fs:
                raise Kill()
            st.facts = fs[0] if len(fs) == 1 else st.facts
        return st

    # ------------------------------------------------------------ memory
    def new_obj(self, st, kind, size, name, lazy=None):
        oid = '%s%d' % (kind[0], self.fresh())
        o = Obj(oid, kind, size, name, lazy)
        o.loc = self.where()
        st.objs[oid] = o
        st.owned.add(oid)
        return oid

    def gobj(self, st, name):
        oid = '@' + name
        if oid not in st.objs:
            g = self.mod.globals.get(name)
            o = Obj(oid, 'global', None, name)
            if g:
                o.size = P(g['size']) if g['size'] >= 0 else None
                if g['const'] and 'init' in g:
                    o.kind = 'const'
                    init_cells(g['init'], g['ty'], 0, o.cells)
                    o.lazy = ('zero',)
                elif 'init' in g:
                    init_cells(g['init'], g['ty'], 0, o.cells)
                    o.lazy = ('zero',)
                else:
                    o.lazy = ('G', name)
            else:
                o.lazy = ('G', name)
            st.objs[oid] = o
        return oid

    def deref(self, st, p, size, write):
        """validate an access of `size` bytes; returns (obj, off)"""
        if isinstance(p, Unk):
            st.inexact('access through untracked pointer (%s)' % p.why)
            return None, None
        if p is UNINIT:
            self.oblige('uninit', 'pointer', False)
            self.report('uninit', 'pointer', st, 'access through an uninitialised pointer')
            raise Kill()
        if isinstance(p, FnP):
            return None, None
        if isinstance(p, (Opaque, SeqVal, MapVal)) or isinstance(p, Pack) and all(isinstance(x[2], (Poly, ZB)) or x[2] is UNINIT for x in p.fs):
            # the pointer's storage holds a value of another type
            self.oblige('badptr', 'access', False)
            self.report('badptr', 'access', st, 'a value of another type is used as a pointer')
            raise Kill()
        if isinstance(p, Poly):
            if p.const == 0:
                p = NULLP
            else:
                st.inexact('access through integer-valued pointer')
                return None, None
        if not isinstance(p, Ptr):
            st.inexact('access through odd pointer %r' % (p,))
            return None, None
        if p.obj is None:
            self.oblige('null', 'access', False)
            self.report('null', 'access', st, 'null pointer dereference')
            raise Kill()
        if p.obj not in st.objs and p.obj[0] == '@':
            self.gobj(st, p.obj[1:])
        o = st.objs.get(p.obj)
        if o is None:
            self.oblige('uaf', 'scope', False)
            self.report('uaf', 'scope', st, 'access to an object whose lifetime ended (%s)' % st.dead.get(p.obj, p.obj))
            raise Kill()
        if o.alive is not True:
            self.oblige('uaf', 'freed', False)
            self.report('uaf', 'freed', st, 'access to freed memory (%s)' % o.name)
            raise Kill()
        if o.maynull is not None:
            c = BAtom(o.maynull, False)
            ok = st.facts.implies(c)
            self.oblige('null', 'access', ok)
            if not ok:
                self.report('null', 'access', st, 'dereference of %s, which may be null here' % o.name, c)
                fs = st.facts.assume(c)
                if not fs:
                    raise Kill()
                st.facts = fs[0]
        if write:
            if o.ro:
                self.oblige('effect', o.ro, False)
                self.report('effect', o.ro, st, 'writes to %s, which must not be modified' % o.name)
            if o.kind == 'const':
                st.inexact('write to constant')
            if o.kind == 'global':
                self.effects.add(('gwrite', o.name, self.where()))
        elif o.kind == 'global':
            self.effects.add(('gread', o.name, self.where()))
            if 'functional' in self.opts and o.name not in ('_ZSt4cerr', '_ZSt4cout'):
                self.oblige('functional', 'draw', False)
                s = st.copy()
                s.inexact('whether the result depends on it is decided elsewhere')
                self.report('functional', 'draw', s, 'the draw reads the global variable %s' % o.name)
        if o.kind not in ('buf', 'node') and o.size is not None and size is not None:
            off = p.off
            k, sz = off.const, o.size.const if isinstance(o.size, Poly) else o.size
            if k is not None and sz is not None:
                ok = 0 <= k and k + size <= sz
                if not ok:
                    self.oblige('oob', 'object', False)
                    self.report('oob', 'object', st, 'access at byte %s..%s of %s (%s bytes)' % (k, k + size, o.name, sz))
                    raise Kill()
            else:
                S = P(o.size)
                c = conj([mk_ge(off), mk_ge(S - off - size)])
                ok = st.facts.implies(c)
                self.oblige('oob', 'object', ok)
                if not ok:
                    self.report('oob', 'object', st, 'access at byte offset %r not within the %r bytes of %s' % (
                        st.facts.norm(off), st.facts.norm(S), o.name), c)
                    fs = st.facts.assume(c)
                    if not fs:
                        raise Kill()
                    st.facts = fs[0] if len(fs) == 1 else st.facts
        return o, p.off

    def load(self, st, p, ty, size=None):
        if size is None:
            size = ty_size(ty)
        o, off = self.deref(st, p, size, False)
        if o is None:
            return self.unk(ty, 'load')
        return self.load_obj(st, o, off, ty, size)

    def load_obj(self, st, o, off, ty, size):
        if ty.startswith('{'):
            return Agg([self.load_obj(st, o, off + fo, ft, ty_size(ft)) for fo, ft in struct_fields(ty)])
        if ty.startswith('['):
            m = re.match(r'\[(\d+)x(\d+):(.*)\]$', ty)
            n, es, et = int(m.group(1)), int(m.group(2)), m.group(3)
            return Agg([self.load_obj(st, o, off + i * es, et, es) for i in range(n)])
        if o.kind in ('buf', 'node'):
            v = self.models.elem_load(self, st, o, off, ty, size)
        else:
            v = self.raw_load(st, o, off, size, ty)
        return self.coerce(st, v, ty)

    def raw_load(self, st, o, off, size, ty):
        k = off.const
        if k is None:
            off = st.facts.norm(off)
            k = off.const
        for wo, ws, wv in reversed(o.log):
            if wo == off and ws == size:
                return wv
            d = st.facts.norm(off - wo)
            dk = d.const
            if dk is not None:
                if dk == 0 and ws == size:
                    return wv
                if dk >= ws or dk <= -size:
                    continue
                return self.unk(ty, 'partial overlap')
            if st.facts.ge(d, P(ws)) or st.facts.ge(-d, P(size)):
                continue
            if ws == size:
                if st.facts.eq(off, wo):
                    return wv
                if st.facts.ne(off, wo):
                    # same-size, same-alignment elements
                    continue
                raise Split(mk_eq(d))
            return self.unk(ty, 'overlap')
        if k is not None:
            c = o.cells.get(k)
            if c is not None and c[0] == size:
                return c[1]
            if c is not None and c[0] is None:
                return c[1]
            for co, (cs, cv) in o.cells.items():
                if cs is None:
                    if isinstance(co, tuple) and co[0] == 'bg' and co[1] <= k and k + size <= co[1] + co[2]:
                        return self.sym_of(st, cv[0], off + cv[1], ty, None, st.objs.get(cv[2]))
                    continue
                if co < k + size and k < co + cs:
                    if isinstance(cv, Poly) and cv.const is not None and cv.is_int() and k >= co and k + size <= co + cs:
                        v = (cv.const >> (8 * (k - co))) & ((1 << (8 * size)) - 1)
                        return P(v - (1 << (8 * size)) if v >= 1 << (8 * size - 1) else v)
                    if cv is UNINIT:
                        continue
                    if isinstance(cv, Pack) and k >= co:
                        for fo, fs, fv in cv.fs:
                            if fo == k - co and fs == size:
                                return fv
                    if isinstance(cv, Poly) and k >= co and k + size <= co + cs:
                        a = cv.single()
                        if a is not None and a.op == 'rd%d' % (8 * cs):
                            return self.sym_of(st, a.args[0], a.args[1] + (k - co), ty, a.args[2] if len(a.args) > 2 else None)
                    if (ty[0] == 'i' or ty == 'p') and size == 8:
                        r = self.pack_load(st, o, k, size)
                        if r is not None:
                            return r
                    if k == co and size < cs and ty[0] == 'i' and isinstance(cv, Poly) and cv.is_int() and cs in (2, 4):
                        return self.wrap(st, cv, 8 * size)
                    if isinstance(cv, Poly) and isinstance(cv.const, Fraction) and cs == 8 and ty[0] == 'i' and k >= co and k + size <= co + cs:
                        return P(int.from_bytes(struct.pack('<d', float(cv.const))[k - co:k - co + size], 'little', signed=True))
                    return self.unk(ty, 'partial cell')
        else:
            for co, (cs, cv) in o.cells.items():
                if cs is None:
                    continue
                d = st.facts.norm(off - co)
                if st.facts.ge(d, P(cs)) or st.facts.ge(-d, P(size)):
                    continue
                if o.kind == 'const' and cs == size:
                    # table lookup: value range of the cells that may be addressed
                    return self.models.table_load(self, st, o, off, ty, size)
                if cs == size:
                    raise Split(mk_eq(d))
                return self.unk(ty, 'variable offset into cells')
        if o.lazy is None:
            if o.kind in ('stack', 'heap'):
                return UNINIT
            return self.unk(ty, 'no contents')
        if o.lazy == ('zero',):
            return NULLP if ty == 'p' else ZERO
        v = self.lazy_val(st, o, off, ty)
        return v

    def pack_load(self, st, o, k, size):
        fs = []
        at = k
        cells = sorted((co, c) for co, c in o.cells.items() if isinstance(co, int) and c[0] is not None and co < k + size and k < co + c[0])
        for co, (cs, cv) in cells:
            if co < at or co + cs > k + size:
                return None
            while at < co and o.lazy is not None and o.lazy != ('zero',) and (co - at) % 4 == 0:
                fs.append((at - k, 4, self.lazy_val(st, o, P(at), 'i32')))
                at += 4
            if at < co and o.lazy is not None:
                return None
            fs.append((co - k, cs, cv))
            at = co + cs
        while at < k + size and o.lazy is not None and o.lazy != ('zero',) and (k + size - at) % 4 == 0:
            fs.append((at - k, 4, self.lazy_val(st, o, P(at), 'i32')))
            at += 4
        return Pack(fs)

    def lazy_val(self, st, o, off, ty):
        tag = o.lazy
        return self.sym_of(st, tag, st.facts.norm(off), ty, o.erange, o)

    def sym_of(self, st, tag, off, ty, erange=None, owner=None):
        if ty[0] == 'i':
            b = bits_of(ty)
            lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
            if b == 1:
                return BAtom(app('rdb', (tag, off)))
            if erange:
                lo, hi = max(lo, erange[0]), min(hi, erange[1])
                return poly(app('rd%d' % b, (tag, off, erange), True, lo, hi))
            return poly(app('rd%d' % b, (tag, off), True, lo, hi))
        if ty in ('f64', 'f32', 'f80'):
            if erange:
                return poly(app('rdf', (tag, off, erange), False, erange[0], erange[1]))
            return poly(app('rdf', (tag, off), False))
        if ty == 'p':
            key = ('pt', tag, off)
            oid = '*' + str(hash_key(key))
            if oid not in st.objs and oid not in st.dead:
                n = Obj(oid, 'param', None, 'object pointed to by %s+%r' % (nice(tag), off), lazy=key)
                n.maynull = app('isnull', (key,))
                if owner is not None and owner.ro:
                    n.ro = owner.ro
                st.objs[oid] = n
            return Ptr(oid, ZERO)
        return self.unk(ty, 'lazy ' + ty)

    def unk(self, ty, why):
        return Unk(why)

    def coerce(self, st, v, ty):
        if ty == 'p':
            if isinstance(v, Poly):
                if v.const == 0:
                    return NULLP
                return Pack([(0, 8, v)])
            return v
        if ty == 'i1':
            if isinstance(v, Poly):
                return mk_ne(v)
            if isinstance(v, ZB):
                return v.c
            return v
        if ty[0] == 'i':
            if v is True or v is False or isinstance(v, Cond):
                return ZB(v)
            if isinstance(v, (Poly, ZB)) or v is UNINIT or isinstance(v, Unk):
                if isinstance(v, Poly) and not v.is_intval():
                    return Pack([(0, 8, v)]) if ty == 'i64' else Unk('float bits')
                return v
            if isinstance(v, Pack):
                return v
            if isinstance(v, Ptr):
                return self.ptr_int(v)
            if isinstance(v, (Opaque, SeqVal, MapVal)):
                return Unk('model state read as integer')
            return v
        if ty in ('f64', 'f32', 'f80'):
            if isinstance(v, Poly) or v is UNINIT or isinstance(v, Unk):
                return v
            if v == NULLP:
                return ZERO
            return Unk('bits as float')
        return v

    def ptr_int(self, v):
        if v.obj is None:
            return v.off
        return poly(app('addr', (v.obj,), True, 1, I64 - 1)) + v.off

    def store(self, st, p, v, size, ty=None):
        o, off = self.deref(st, p, size, True)
        if o is None:
            st.inexact('store through untracked pointer')
            return
        self.store_obj(st, o.id, off, v, size, ty)

    def store_obj(self, st, oid, off, v, size, ty=None):
        if isinstance(v, Agg) and ty and ty.startswith('{'):
            for (fo, ft), x in zip(struct_fields(ty), v.vs):
                self.store_obj(st, oid, off + fo, x, ty_size(ft), ft)
            return
        o = st.objs[oid]
        if isinstance(v, Pack) and st.facts.norm(off).const is not None:
            k = st.facts.norm(off).const
            kill_cells(st.wobj(oid), k, size)
            for fo, fs, fv in v.fs:
                self.store_obj(st, oid, P(k + fo), fv, fs)
            return
        if o.kind in ('buf', 'node'):
            self.models.elem_store(self, st, o, off, v, size)
            return
        if isinstance(v, Cond) or v is True or v is False:
            v = ZB(v)
        o = st.wobj(oid)
        o.touched = True
        k = off.const
        if k is None:
            off = st.facts.norm(off)
            k = off.const
        if k is not None and not o.log:
            kill_cells(o, k, size)
            o.cells[k] = (size, v)
            return
        log = tuple(e for e in o.log if not (e[0] == off and e[1] == size))
        o.log = log + ((off, size, v),)

    def copy_mem(self, st, dst, src, n, move=False):
        """memcpy of n (Poly) bytes"""
        k = st.facts.norm(n).const if isinstance(n, Poly) else n
        if k == 0:
            return
        so, soff = self.deref(st, src, None, False)
        do, doff = self.deref(st, dst, None, True)
        if so is None or do is None:
            st.inexact('memcpy through untracked pointer')
            return
        N = n if isinstance(n, Poly) else P(n)
        for o, off, w in ((so, soff, 'source'), (do, doff, 'destination')):
            if o.size is not None and o.kind not in ('buf', 'node'):
                c = conj([mk_ge(off), mk_ge(P(o.size) - off - N)])
                self.check(st, c, 'oob', 'memcpy', 'memory copy of %r bytes overruns its %s %s' % (N, w, o.name))
        if so.id == do.id and st.facts.eq(soff, doff):
            return
        sk, dk = st.facts.norm(soff).const, st.facts.norm(doff).const
        if k is None or sk is None or dk is None or so.kind in ('buf', 'node') or do.kind in ('buf', 'node') or so.log or do.log:
            self.models.bulk_copy(self, st, do, doff, so, soff, N)
            return
        d = st.wobj(do.id)
        kill_cells(d, dk, k)
        s = st.objs[so.id]
        covered = []
        for co, (cs, cv) in list(s.cells.items()):
            w = cs if cs is not None else 1
            if co >= sk and co + w <= sk + k:
                d.cells[co - sk + dk] = (cs, cv)
                covered.append((co, w))
        if s.lazy is not None and s.lazy != ('zero',):
            # materialise the uncovered words lazily with 8/4-byte symbols is type-unsafe: remember the source
            if not covered or sum(w for _, w in covered) < k:
                d.cells[('bg', dk, k)] = (None, (s.lazy, sk - dk, so.id))
        d.touched = True

    # ------------------------------------------------------------ operands
    def val(self, st, o):
        k = o[0]
        if k == '%':
            try:
                return st.env[o[1]]
            except KeyError:
                return Unk('undefined ssa value')
        if k == 'c':
            return P(int(o[1]))
        if k == 'f':
            if o[1] == 'nan':
                return Unk('nan')
            if o[1] in ('inf', '-inf'):
                a = poly(app('inf', (), False, Fraction(10) ** 400, None))
                return a if o[1] == 'inf' else -a
            return P(Fraction(float.fromhex(o[1])))
        if k == 'null':
            return NULLP
        if k == 'fn':
            return FnP(o[1])
        if k == '@':
            return Ptr(self.gobj(st, o[1]), P(o[2]))
        if k == 'undef':
            if o[1].startswith('{') or o[1].startswith('['):
                n = len(struct_fields(o[1])) if o[1][0] == '{' else 0
                return Agg([UNINIT] * n)
            return UNINIT
        if k == 'zero':
            if o[1].startswith('{'):
                return Agg([NULLP if t == 'p' else ZERO for _, t in struct_fields(o[1])])
            return ZERO
        if k == 'agg':
            return Agg([self.val(st, x) for x in o[2]])
        if k == 'castc':
            return Unk('constant cast')
        return Unk('operand ' + k)

    def as_cond(self, st, v):
        if v is True or v is False or isinstance(v, Cond):
            return v
        if isinstance(v, ZB):
            return v.c
        if isinstance(v, Poly):
            return mk_ne(v)
        if v is UNINIT:
            self.oblige('uninit', 'branch', False)
            self.report('uninit', 'branch', st, 'branch on an uninitialised value')
            raise Kill()
        st.inexact('branch on untracked value (%s)' % getattr(v, 'why', '?'))
        return BAtom(T.sym('unkcond', True))

    def num(self, st, v, what='arithmetic'):
        """integer/real operand as Poly (None when untracked)"""
        if isinstance(v, Poly):
            return v
        if isinstance(v, ZB):
            c = v.c
            if c is True:
                return ONE
            if c is False:
                return ZERO
            if st.facts.implies(c):
                return ONE
            if st.facts.implies(neg(c)):
                return ZERO
            raise Split(c)
        if isinstance(v, Cond) or v is True or v is False:
            return self.num(st, ZB(v))
        if v is UNINIT:
            self.oblige('uninit', 'value', False)
            self.report('uninit', 'value', st, 'uninitialised value used in %s' % what)
            raise Kill()
        if isinstance(v, Ptr):
            return self.ptr_int(v)
        return None

    # ------------------------------------------------------------ arithmetic
    def wrap(self, st, p, bits, nsw=False, nuw=False, what=''):
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        k = p.const
        if k is not None:
            if lo <= k <= hi:
                return p
            if nsw and self.opts.get('overflow') and not self.quiet:
                self.check(st, False, 'overflow', 'signed', 'signed overflow in %s' % what)
            k &= (1 << bits) - 1
            return P(k - (1 << bits) if k > hi else k)
        if BITS.USED[0] and BITS.has_bit(p):
            s = BITS.slots(p, bits, st.facts)
            if s is not None and not nsw:
                return BITS.join_bits(s, True)
        if nsw:
            if self.opts.get('overflow'):
                ok = st.facts.in_range(p, lo, hi)
                self.oblige('overflow', 'signed', ok)
                if not ok:
                    self.report('overflow', 'signed', st, 'signed integer overflow possible in %s: %r' % (what, st.facts.norm(p)), conj([mk_ge(p - lo), mk_ge(hi - p)]))
            return p
        if bits >= 64:
            a, b = st.facts.bounds(p)
            if a is not None and b is not None and a >= -2 * I64 and b <= 2 * I64:
                if a >= lo and b <= hi:
                    return p
        if st.facts.in_range(p, lo, hi):
            return p
        # one wrap-around step decided?
        M = 1 << bits
        for d in (M, -M):
            if st.facts.in_range(p + d, lo, hi):
                return p + d
        if bits == 64:
            # 64-bit quantities (sizes): assume no wrap unless relevant to a check
            a = app('wrap64', (p,), True, lo, hi)
            return poly(a)
        a, b = st.facts.bounds(p)
        if bits <= 16 and (a is None or b is None or a < lo - M or b > hi + M):
            # the variables' own types say too little: ask the constraints
            if st.facts.ge(p, P(lo)):
                a = lo
            if st.facts.ge(P(hi + M), p):
                b = hi + M
        if a is not None and b is not None and a >= lo - M and b <= hi + M:
            if b > hi and not st.facts.ge(P(hi), p):
                raise Split(mk_ge(P(hi) - p))
            if a < lo and not st.facts.ge(p, P(lo)):
                raise Split(mk_ge(p - lo))
        return poly(app('wrap%d' % bits, (p,), True, lo, hi))

    def to_unsigned(self, st, p, bits):
        """value read as unsigned"""
        k = p.const
        if k is not None:
            return P(k & ((1 << bits) - 1))
        if BITS.USED[0] and BITS.has_bit(p):
            s = BITS.slots(p, bits, st.facts)
            if s is not None:
                return BITS.join_bits(s)
        if st.facts.ge(p):
            return p
        if st.facts.gt(ZERO, p):
            return p + (1 << bits)
        a = st.facts.norm(p).single()
        if a is not None and a.op == 'draw' and bits == 64:
            # a drawn word has a name of its own as an unsigned number
            return poly(app('udraw', a.args, True, 0, (1 << 64) - 1))
        raise Split(mk_ge(p))

    def floordiv(self, st, p, c):
        """floor(p/c) for a positive constant c"""
        k = p.const
        if k is not None:
            return P(k // c)
        if c == 1:
            return p
        # exact when every coefficient divides
        p = st.facts.norm(p)
        if BITS.USED[0] and c & (c - 1) == 0 and BITS.has_bit(p):
            s = BITS.slots(p, 128)
            if s is not None:
                return BITS.join_bits(s[c.bit_length() - 1:], True)
        q = {}
        r = {}
        for m, v in p.t.items():
            if v % c == 0:
                q[m] = v // c
            else:
                r[m] = v
        if not r:
            return Poly(q)
        r = Poly(r)
        lo, hi = st.facts.bounds(r)
        if st.facts.in_range(r, 0, c - 1):
            return Poly(q)
        for k in (-1, 1):
            if (lo is None or lo < (k + 1) * c) and (hi is None or hi >= k * c) and st.facts.in_range(r, k * c, k * c + c - 1):
                return Poly(q) + k
        a = app('fdiv', (r, c), True, None if lo is None else lo // c, None if hi is None else hi // c)
        if not hasattr(a, '_x') and a not in _axdone:
            _axdone.add(a)
            add_axiom(a, mk_ge(r - poly(a) * c))
            add_axiom(a, mk_ge(poly(a) * c + (c - 1) - r))
        return Poly(q) + poly(a)

    def binop(self, st, op, a, b, ty, i):
        if ty[0] == 'f' or op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = self.num(st, a), self.num(st, b)
            if x is None or y is None:
                return Unk('float op on untracked')
            if op == 'fadd':
                return x + y
            if op == 'fsub':
                return x - y
            if op == 'fmul':
                return x * y
            if op == 'fdiv':
                if 'fpdiv' in self.opts:
                    self.check(st, mk_ne(y), 'fpdiv', 'division', 'floating-point division by zero possible')
                if y.const == 0:
                    return Unk('division by zero')
                if y.const is not None:
                    return x.scale(Fraction(1) / y.const)
                return x * recip(y)
            return poly(app('frem', (x, y), False))
        bits = bits_of(ty)
        if bits == 1:
            x, y = self.as_cond(st, a), self.as_cond(st, b)
            if op == 'and':
                return conj([x, y])
            if op == 'or':
                return disj([x, y])
            if op in ('xor', 'add', 'sub'):
                if y is True:
                    return neg(x)
                if y is False:
                    return x
                if x is True:
                    return neg(y)
                if x is False:
                    return y
                if x == y:
                    return False
                return disj([conj([x, neg(y)]), conj([neg(x), y])])
            return Unk('i1 op ' + op)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub':
            if a.obj == b.obj:
                return a.off - b.off
        x, y = self.num(st, a, op), self.num(st, b, op)
        if x is None or y is None:
            return Unk('int op on untracked')
        nsw, nuw = i.get('nsw'), i.get('nuw')
        if op == 'add':
            return self.wrap(st, x + y, bits, nsw, nuw, 'addition')
        if op == 'sub':
            if not nsw and bits == 64:
                # pointer difference?
                d = x - y
                return self.wrap(st, d, bits, nsw, nuw, 'subtraction')
            return self.wrap(st, x - y, bits, nsw, nuw, 'subtraction')
        if op == 'mul':
            return self.wrap(st, x * y, bits, nsw, nuw, 'multiplication')
        xc, yc = st.facts.norm(x).const, st.facts.norm(y).const
        M = 1 << bits
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            ok = yc is not None and yc != 0 or st.facts.ne(y, ZERO)
            if 'divzero' in self.opts or not ok:
                self.oblige('divzero', 'division', ok)
            if not ok:
                self.report('divzero', 'division', st, 'integer division by zero possible', mk_ne(y))
                fs = st.facts.assume(mk_ne(y))
                if not fs:
                    raise Kill()
                st.facts = fs[0]
            if op[0] == 'u':
                if yc is not None and yc < 0:
                    yc += M
                    y = P(yc)
                x = self.to_unsigned(st, x, bits)
                y = self.to_unsigned(st, y, bits)
                if yc is not None:
                    q = self.floordiv(st, x, yc)
                else:
                    q = self.gdiv(st, x, y)
                r = q if op == 'udiv' else x - q * y if yc is not None else self.gmod(st, x, y, q)
                return self.wrap(st, r, bits)
            if xc is not None and yc is not None:
                q = abs(xc) // abs(yc)
                if (xc < 0) != (yc < 0):
                    q = -q
                return P(q) if op == 'sdiv' else P(xc - q * yc)
            if yc is not None and abs(yc) < M:
                # exact division without remainder
                if all(c % yc == 0 for c in st.facts.norm(x).t.values()):
                    q = st.facts.norm(x).scale(Fraction(1, yc))
                    return q if op == 'sdiv' else ZERO
            if xc == 0:
                return ZERO
            if yc is None:
                xn, yn = st.facts.norm(x), st.facts.norm(y)
                if len(yn.t) == 1:
                    (m, c), = yn.t.items()
                    r = mono_div(xn, m)
                    if r is not None and all(v % c == 0 for v in r.t.values()):
                        return r.scale(Fraction(1, c)) if op == 'sdiv' else ZERO
                elif xn == yn or xn == -yn:
                    return ZERO if op == 'srem' else P(1 if xn == yn else -1)
                r = self.gcd_div(st, x, y)
                if r is not None:
                    return r if op == 'sdiv' else ZERO
            if st.facts.ge(x):
                sx = 1
            elif st.facts.gt(ZERO, x):
                sx = -1
            elif yc is None and not (self.opts.get('divsplit')):
                xn, yn = st.facts.norm(x), st.facts.norm(y)
                lo, hi = -(M >> 1), M >> 1
                if op == 'srem' and xn.is_int():
                    a_, b_ = EMPTY.bounds(xn)
                    if a_ is not None and b_ is not None:
                        lo, hi = max(lo, min(a_, 0)), min(hi, max(b_, 0))
                return poly(app(op, (xn, yn), True, lo, hi))
            else:
                raise Split(mk_ge(x))
            if yc is None:
                if st.facts.gt(y):
                    sy = 1
                elif st.facts.gt(ZERO, y):
                    sy = -1
                else:
                    raise Split(mk_ge(y))
                ax, ay = (x if sx > 0 else -x), (y if sy > 0 else -y)
                q = self.gdiv(st, ax, ay)
                if op == 'srem':
                    r = self.gmod(st, ax, ay, q)
                    return r if sx > 0 else -r
            else:
                sy = 1 if yc > 0 else -1
                q = self.floordiv(st, x if sx > 0 else -x, abs(yc))
            if sx * sy < 0:
                q = -q
            return q if op == 'sdiv' else x - q * y
        if BITS.USED[0] and op in ('and', 'or', 'xor'):
            r = BITS.bitwise(op, x, y, bits, st.facts)
            if r is not None:
                return r
        if op in ('shl', 'lshr', 'ashr') and yc is not None and not 0 <= yc < bits:
            if self.opts.get('paths') and not self.quiet:
                self.check(st, False, 'overflow', 'shift', 'a %d-bit value is shifted by %d' % (bits, yc))
            return poly(app('%s%d' % (op, bits), (x, y), True, -(M >> 1), (M >> 1) - 1))
        if op == 'shl':
            if yc is not None:
                return self.wrap(st, x.scale(1 << yc), bits, nsw, nuw, 'shift')
            if st.facts.in_range(y, 0, bits - 1):
                xc = st.facts.norm(x).const
                top = bits - 1 - abs(xc or 1).bit_length()
                fits = xc is not None and top >= 0 and st.facts.in_range(y, 0, top)
                return self.wrap(st, x * ipow_term(P(2), y), bits, nsw or fits)
            return poly(app('shl%d' % bits, (x, y), True, -(M >> 1), (M >> 1) - 1))
        if op == 'lshr':
            if yc is not None:
                if yc == 0:
                    return x
                u = self.to_unsigned(st, x, bits)
                return self.floordiv(st, u, 1 << yc)
            return poly(app('lshr%d' % bits, (x, y), True, -(M >> 1), (M >> 1) - 1))
        if op == 'ashr':
            if yc is not None:
                return self.floordiv(st, x, 1 << yc)
            return poly(app('ashr%d' % bits, (x, y), True, -(M >> 1), (M >> 1) - 1))
        if xc is not None and yc is None and op in ('and', 'or', 'xor'):
            x, y, xc, yc = y, x, yc, xc
        if xc is not None and yc is not None:
            r = {'and': xc & yc, 'or': xc | yc, 'xor': xc ^ yc}[op]
            return P(r)
        if op == 'and':
            if yc == 0:
                return ZERO
            if yc == -1:
                return x
            if yc is not None and yc > 0 and (yc & (yc + 1)) == 0:
                # low bits
                if st.facts.in_range(x, 0, yc):
                    return x
                lo, hi = st.facts.bounds(x)
                u = x
                q = self.floordiv(st, u, yc + 1)
                return u - q * (yc + 1)
            if yc is not None and yc > 0:
                # contiguous mask 2^h - 2^l
                l = (yc & -yc)
                if ((yc + l) & (yc + l - 1)) == 0:
                    h = yc + l
                    u = x
                    r = u - self.floordiv(st, u, h) * h
                    return r - (r - self.floordiv(st, r, l) * l)
                return poly(app('and', (x, yc), True, 0, yc))
            if x == y:
                return x
        if op == 'or':
            if yc == 0:
                return x
            # disjoint bits: (x << k) | y with 0 <= y < 2^k
            for p_, q_ in ((x, y), (y, x)):
                lo, hi = st.facts.bounds(q_)
                if lo is not None and lo >= 0 and hi is not None:
                    g = 0
                    for c in st.facts.norm(p_).t.values():
                        from math import gcd
                        g = gcd(g, int(c))
                    if g and hi < (g & -g):
                        return self.wrap(st, p_ + q_, bits)
            if x == y:
                return x
        if op == 'xor':
            if yc == 0:
                return x
            if yc == -1:
                return -x - 1
            if x == y:
                return ZERO
        args = (x, y) if hash(x) <= hash(y) else (y, x)
        if yc is not None:
            args = (x, y)
        lo, hi = -(M >> 1), (M >> 1) - 1
        if op in ('or', 'xor', 'and'):
            b1, b2 = st.facts.bounds(x), st.facts.bounds(y)
            if None not in b1 and None not in b2 and b1[0] >= 0 and b2[0] >= 0:
                w = max(int(b1[1]).bit_length(), int(b2[1]).bit_length())
                lo, hi = 0, (1 << w) - 1
                if op == 'and':
                    hi = min(b1[1], b2[1])
        return poly(app(op, args, True, lo, hi))

    def gdiv(self, st, x, y):
        """x div y, x>=0, y>0 non-constant"""
        xc = x.const
        # exact: x = q*y syntactically
        if len(y.t) == 1:
            (m, c), = y.t.items()
            ok = True
            q = {}
            for mm, cc in x.t.items():
                d = dict(mm)
                for a, e in m:
                    if d.get(a, 0) < e:
                        ok = False
                        break
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                if not ok or cc % c:
                    ok = False
                    break
                q[tuple(sorted(d.items(), key=lambda z: z[0].id))] = cc // c
            if ok:
                return Poly(q)
        a = app('gdiv', (x, y), True, 0, None)
        if a not in _axdone:
            _axdone.add(a)
            pa = poly(a)
            add_axiom(a, mk_ge(x - pa * y))
            add_axiom(a, mk_ge(pa * y + y - 1 - x))
            add_axiom(a, mk_ge(x - pa))
        return poly(a)

    def gmod(self, st, x, y, q):
        """x mod y, x>=0, y>0; q is x div y"""
        s = q.single()
        if s is None or s.op != 'gdiv':
            return x - q * y
        a = app('gmod', (x, y), True, 0, None)
        if a not in _axdone:
            _axdone.add(a)
            pa = poly(a)
            add_axiom(a, mk_ge(y - 1 - pa))
            add_axiom(a, mk_ge(x - pa))
            add_axiom(s, mk_eq(x - q * y - pa))
        return poly(a)

    def gcd_div(self, st, x, y):
        """x / y when y is (up to sign) a gcd that divides x, else None"""
        f = st.facts
        yn = f.norm(y)
        if len(yn.t) == 1:
            # (monomial) * gcd
            (m, c), = yn.t.items()
            gs = [(a, e) for a, e in m if a.op == 'gcd']
            if len(m) > 1 and len(gs) == 1 and gs[0][1] == 1 and abs(c) == 1:
                xr = mono_div(f.norm(x), tuple(z for z in m if z[0] is not gs[0][0]))
                if xr is not None:
                    return self.gcd_div(st, xr, poly(gs[0][0]) * c)
        g = yn.single() or (-yn).single()
        if g is None or g.op != 'gcd':
            g = f.norm(abs_term(yn)).single()
            if g is None or g.op != 'gcd':
                g = None
                ys = sign_norm(yn)
                # u mod y == 0 makes |y| the gcd of u and y
                for a, v in f.sub.items():
                    if a.op in ('gmod', 'srem') and not v.t and sign_norm(f.norm(a.args[1])) == ys:
                        g = f.norm(gcd_term(a.args[0], yn)).single()
                        if g is not None and g.op == 'gcd':
                            break
                        g = None
                if g is None:
                    return None
            if f.ge(y):
                c = mk_eq(y - poly(g))
            elif f.gt(ZERO, y):
                c = mk_eq(y + poly(g))
            else:
                raise Split(mk_ge(y))
            fs = f.assume(c)
            if not fs:
                raise Kill()
            st.facts = f = fs[0]
            yn = f.norm(y)
            g = yn.single() or (-yn).single()
            if g is None or g.op != 'gcd':
                return None
        xn = f.norm(x)
        args = list(g.args)
        for k, v in f.sub.items():
            if k.op == 'gcd' and f.norm(v).single() is g:
                args += k.args
        for arg in args:
            ok = arg == xn or arg == -xn
            if not ok and len(arg.t) == 1:
                (m, c), = arg.t.items()
                ok = abs(c) == 1 and mono_div(xn, m) is not None
            if ok:
                r = xn * recip(yn)
                if f.ne(xn, ZERO):
                    fs = f.assume(mk_ne(r))
                    if fs:
                        st.facts = fs[0]
                return r
        return None

    # ------------------------------------------------------------ comparisons
    def icmp(self, st, pred, a, b, ty):
        if a is UNINIT or b is UNINIT:
            self.oblige('uninit', 'compare', False)
            self.report('uninit', 'compare', st, 'comparison of an uninitialised value')
            raise Kill()
        if ty == 'p' or isinstance(a, (Ptr, FnP)) or isinstance(b, (Ptr, FnP)):
            return self.pcmp(st, pred, a, b)
        if ty == 'i1':
            x, y = self.as_cond(st, a), self.as_cond(st, b)
            e = self.binop(st, 'xor', x, y, 'i1', {})
            if pred == 'ne':
                return e
            if pred == 'eq':
                return neg(e)
        if isinstance(a, ZB) and isinstance(b, Poly) and b.const in (0, 1) and pred in ('eq', 'ne'):
            c = a.c if (b.const == 1) == (pred == 'eq') else neg(a.c)
            return c
        if isinstance(a, ZB) and isinstance(b, ZB) and pred in ('eq', 'ne'):
            e = self.binop(st, 'xor', a.c, b.c, 'i1', {})
            return e if pred == 'ne' else neg(e)
        x, y = self.num(st, a, 'a comparison'), self.num(st, b, 'a comparison')
        if x is None or y is None:
            st.inexact('comparison of untracked value (%s)' % getattr(a if x is None else b, 'why', '?'))
            return BAtom(T.sym('unkcmp', True))
        d = x - y
        if any(a.op == 'tab' for m in st.facts.norm(d).t for a, e in m):
            r = BITS.decide(st, pred if pred[0] != 'u' else 's' + pred[1:], d, Split) if pred[0] != 'u' or self.sign(st, x) == 1 and self.sign(st, y) == 1 else None
            if r is not None:
                return r
            d = st.facts.norm(d)
        if pred == 'eq':
            return mk_eq(d)
        if pred == 'ne':
            return mk_ne(d)
        if pred[0] == 's':
            return {'slt': lambda: mk_gt(-d), 'sle': lambda: mk_ge(-d), 'sgt': lambda: mk_gt(d), 'sge': lambda: mk_ge(d)}[pred]()
        # unsigned
        if pred in ('ugt', 'uge'):
            x, y = y, x
            pred = 'ult' if pred == 'ugt' else 'ule'
        strict = pred == 'ult'
        lt = mk_gt(y - x) if strict else mk_ge(y - x)
        xs, ys = self.sign(st, x), self.sign(st, y)
        if xs == 1 and ys == 1 or xs == -1 and ys == -1:
            return lt
        if ys == 1:
            if xs == -1:
                return False
            return conj([mk_ge(x), lt])
        if ys == -1:
            if xs == 1:
                return True
            return disj([mk_ge(x), conj([mk_gt(-x), lt])])
        if xs == 1:
            return disj([mk_gt(-y), lt])
        if xs == -1:
            return conj([mk_gt(-y), lt])
        return disj([conj([mk_ge(x), mk_gt(-y)]), conj([mk_ge(x), mk_ge(y), lt]), conj([mk_gt(-x), mk_gt(-y), lt])])

    def sign(self, st, p):
        lo, hi = st.facts.bounds(p)
        if lo is not None and lo >= 0:
            return 1
        if hi is not None and hi < 0:
            return -1
        if st.facts.ge(p):
            return 1
        if st.facts.gt(ZERO, p):
            return -1
        return 0

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Poly) and a.const == 0:
            a = NULLP
        if isinstance(b, Poly) and b.const == 0:
            b = NULLP
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                d = a.off - b.off
                return {'eq': mk_eq, 'ne': mk_ne, 'ult': lambda d: mk_gt(-d), 'ule': lambda d: mk_ge(-d), 'ugt': mk_gt, 'uge': mk_ge,
                        'slt': lambda d: mk_gt(-d), 'sgt': mk_gt, 'sle': lambda d: mk_ge(-d), 'sge': mk_ge}[pred](d)
            if pred in ('eq', 'ne'):
                if a.obj is None or b.obj is None:
                    o = b if a.obj is None else a
                    ob = st.objs.get(o.obj)
                    if ob is not None and ob.maynull is not None:
                        c = BAtom(ob.maynull, True)
                        return c if pred == 'eq' else neg(c)
                    return pred == 'ne'
                oa, ob = st.objs.get(a.obj), st.objs.get(b.obj)
                # two distinct symbolic inputs may alias only when the driver says so (both null is equality)
                if oa is not None and ob is not None and oa.maynull is not None and ob.maynull is not None:
                    c = BAtom(app('alias', tuple(sorted((a.obj, b.obj)))), True)
                    if not self.opts.get('mayalias'):
                        c = conj([BAtom(oa.maynull, True), BAtom(ob.maynull, True)])
                    return c if pred == 'eq' else neg(c)
                if oa is not None and ob is not None and (oa.kind == 'param' or ob.kind == 'param') and self.opts.get('mayalias') and \
                        oa.kind == ob.kind:
                    c = BAtom(app('alias', tuple(sorted((a.obj, b.obj)))), True)
                    return c if pred == 'eq' else neg(c)
                return pred == 'ne'
            return BAtom(T.sym('ptrcmp', True))
        if isinstance(a, FnP) or isinstance(b, FnP):
            if pred in ('eq', 'ne') and isinstance(a, (FnP, Ptr)) and isinstance(b, (FnP, Ptr)):
                return (a == b) == (pred == 'eq')
        st.inexact('comparison of untracked pointers')
        return BAtom(T.sym('unkptr', True))

    def fcmp(self, st, pred, a, b):
        x, y = self.num(st, a), self.num(st, b)
        if pred == 'ord':
            return True
        if pred == 'uno':
            return False
        if pred == 'true':
            return True
        if x is None or y is None:
            st.inexact('float comparison of untracked value')
            return BAtom(T.sym('unkf', True))
        d = x - y
        p = pred[1:]
        if p == 'eq' or p == 'ne':
            # clear denominators where their sign does not matter
            c = self.eqz(d)
            return c if p == 'eq' else neg(c)
        return {'lt': lambda: mk_gt(-d), 'le': lambda: mk_ge(-d), 'gt': lambda: mk_gt(d), 'ge': lambda: mk_ge(d)}[p]()

    def eqz(self, d):
        if d.const is None and real_eq(d, ZERO):
            return True
        return mk_eq(d)

    # ------------------------------------------------------------ casts
    def cast(self, st, op, v, sty, ty):
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return v
        if op == 'ptrtoint':
            return self.ptr_int(v) if isinstance(v, Ptr) else v
        if op == 'inttoptr':
            p = v
            if isinstance(p, Poly):
                # recover pointer from addr + off
                for m in p.t:
                    if len(m) == 1 and m[0][0].op == 'addr' and p.t[m] == 1:
                        return Ptr(m[0][0].args[0], p - Poly({m: 1}))
                if p.const == 0:
                    return NULLP
            return Unk('inttoptr')
        if v is UNINIT and op in ('trunc', 'zext', 'sext'):
            return UNINIT
        if isinstance(v, Unk):
            return v
        if sty == 'i1':
            c = self.as_cond(st, v)
            if op == 'zext':
                return ZB(c)
            if op == 'sext':
                return -self.num(st, ZB(c))
            if op in ('uitofp',):
                return self.num(st, ZB(c))
            return Unk('i1 cast')
        if ty == 'i1':
            if isinstance(v, ZB):
                return v.c
            if isinstance(v, Poly):
                k = v.const
                if k is not None:
                    return bool(k & 1)
                return mk_ne(v)
            return self.as_cond(st, v)
        if op in ('zext', 'sext', 'trunc') and isinstance(v, ZB):
            return v
        x = self.num(st, v, 'conversion')
        if x is None:
            return Unk('cast')
        if op == 'sext':
            return x
        if op == 'zext':
            return self.to_unsigned(st, x, bits_of(sty))
        if op == 'trunc':
            return self.wrap(st, x, bits_of(ty))
        if op == 'sitofp':
            return x
        if op == 'uitofp':
            return self.to_unsigned(st, x, bits_of(sty))
        if op in ('fpext', 'fptrunc'):
            return x
        if op in ('fptosi', 'fptoui'):
            if x.is_int():
                return x
            k = x.const
            if k is not None:
                return P(int(k))
            if st.facts.ge(x):
                a = app('ftrunc', (st.facts.norm(x),), True, 0, None)
                if a not in _axdone:
                    _axdone.add(a)
                    add_axiom(a, mk_ge(x - poly(a)))
                    add_axiom(a, mk_gt(poly(a) + 1 - x))
                return poly(a)
            b = bits_of(ty)
            return poly(app('ftruncs', (st.facts.norm(x),), True, -(1 << (b - 1)), (1 << (b - 1)) - 1))
        return Unk(op)

    # ------------------------------------------------------------ execution
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps or (self.steps & 255) == 0 and time.time() - self.t0 > self.max_time:
            raise Budget()

    def call_fn(self, st, name, args):
        """analyse a defined function in this context: list of (state, ret); throws as ('throw', st)"""
        fn = self.mod.fn(name)
        if len(self.fnstack) > 60:
            raise Unmodelled('call depth')
        nrec = sum(1 for f in self.fnstack if f[0] == name)
        if nrec:
            r = self.models.recursion(self, st, name, fn, args, nrec)
            if r is not None:
                return r
            if nrec > (4 if not self.opts.get('paths') else 24):
                raise Unmodelled('recursion through ' + fn.dem)
        saved = st.env
        st.env = {i: a for i, a in enumerate(args)}
        if fn.file and self.is_repo(fn.file):
            self.analysed.setdefault(fn.dem, (fn.file, fn.line))
        self.fnstack.append((name, self.curloc, fn.dem, fn.file))
        saveloc = self.curloc
        ctx = Ctx(fn)
        self.loopstack.append(None)
        try:
            left = self.run_region(ctx, None, None, [(0, None, st)])
        except Unmodelled:
            st.env = saved
            raise
        finally:
            self.fnstack.pop()
            self.loopstack.pop()
            self.curloc = saveloc
        outs = []
        for s, v in ctx.rets:
            self.leave(s, saved)
            outs.append((s, v))
        for s in ctx.throws:
            self.leave(s, saved)
            outs.append((s, THROWN))
        return outs

    def leave(self, s, saved):
        for oid in s.env.get('allocas', ()):
            o = s.objs.pop(oid, None)
            if o is not None:
                s.dead[oid] = 'local ' + o.name
        s.env = dict(saved)

    def run_region(self, ctx, header, region, entries):
        """run the blocks of `region` (None = whole function) from entries
        [(block, prev, state)]; returns [(target, prev, state)] for edges leaving
        the region or returning to `header`"""
        fn = ctx.fn
        pend = {}
        heap = []
        out = []
        first = True

        def push(b, prev, s):
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (fn.rpo[b], b))
            pend[b].append((prev, s))

        for b, prev, s in entries:
            push(b, prev, s)
        started = False
        while heap:
            _, b = heapq.heappop(heap)
            lst = pend.pop(b)
            if b in fn.loops and b != header:
                edges = self.run_loop(ctx, b, lst)
            else:
                if len(lst) > (self.MAXD if not self.opts.get('paths') else 600):
                    lst = self.merge(ctx, b, lst)
                edges = []
                for prev, s in lst:
                    for t, s2 in self.run_block(ctx, b, prev, s, region):
                        edges.append((t, b, s2))
            for t, p, s2 in edges:
                if region is not None and (t == header or t not in region):
                    out.append((t, p, s2))
                else:
                    push(t, p, s2)
        return out

    def eval_phis(self, fn, b, prev, s):
        new = {}
        for i in fn.blocks[b]['insts']:
            if i['op'] != 'phi':
                break
            for v, pb in i['in']:
                if pb == prev:
                    new[i['id']] = self.val(s, v)
                    break
        s.env.update(new)

    def run_block(self, ctx, b, prev, s, region):
        """[(target, state)]"""
        fn = ctx.fn
        nsplit = 0
        insts = fn.blocks[b]['insts']
        if prev != 'H':
            self.eval_phis(fn, b, prev, s)
        k = 0
        while k < len(insts) and insts[k]['op'] == 'phi':
            k += 1
        out = []
        work = [(s, k)]
        while work:
            s, k = work.pop()
            while True:
                i = insts[k]
                op = i['op']
                self.tick()
                loc = i.get('loc')
                if loc:
                    self.curloc = tuple(loc)
                try:
                    if op in ('call', 'invoke'):
                        res = self.do_call(s, i)
                        nxt = []
                        for s2, v in res:
                            if v is THROWN:
                                if op == 'invoke' and self.catches(fn, i['succ'][1]):
                                    self.eval_phis_to(fn, b, i['succ'][1], s2, out)
                                else:
                                    ctx.throws.append(s2)
                                continue
                            if 'id' in i:
                                s2.env[i['id']] = v
                            nxt.append(s2)
                        if op == 'invoke':
                            for s2 in nxt:
                                out.append((i['succ'][0], s2))
                            break
                        if not nxt:
                            break
                        for s2 in nxt[1:]:
                            work.append((s2, k + 1))
                        s = nxt[0]
                        k += 1
                        continue
                    if op == 'br':
                        if 'cond' not in i:
                            out.append((i['succ'][0], s))
                            break
                        c = self.as_cond(s, self.val(s, i['cond']))
                        t, f = i['succ']
                        if not isinstance(c, bool):
                            for x in cond_list(c):
                                self.cmp_log.append(x)
                            c2 = s.facts.csub(c)
                        else:
                            c2 = c
                        if c2 is True or c2 is False:
                            ls = self.loopstack[-1]
                            if ls is not None and (t not in ls['blocks'] or f not in ls['blocks']) and (t if c2 else f) in ls['blocks']:
                                ls['dec'].add(id(i))
                            out.append((t if c2 else f, s))
                            break
                        if self.loopstack[-1] is not None:
                            self.loopstack[-1]['undec'].add(id(i))
                        fts = s.facts.assume(c)
                        ffs = s.facts.assume(neg(c))
                        both = [(t, x) for x in fts] + [(f, x) for x in ffs]
                        for n_, (tt, fx) in enumerate(both):
                            s2 = s if n_ == len(both) - 1 else s.copy()
                            s2.facts = fx
                            out.append((tt, s2))
                        break
                    if op == 'switch':
                        self.do_switch(s, i, out)
                        break
                    if op == 'ret':
                        v = self.val(s, i['o'][0]) if i['o'] else None
                        ctx.rets.append((s, v))
                        break
                    if op == 'unreachable':
                        break
                    if op == 'resume':
                        ctx.throws.append(s)
                        break
                    self.exec(s, i)
                    k += 1
                except Split as sp:
                    c = sp.cond
                    if not isinstance(c, bool):
                        pos = s.facts.assume(c)
                        ngs = s.facts.assume(neg(c))
                        nsplit += 1
                        if nsplit > 300 or len(pos) == 1 and not ngs and pos[0] is s.facts or len(ngs) == 1 and not pos and ngs[0] is s.facts:
                            # no progress: the model cannot decide although the facts do not change
                            self.note_unmod(s, 'case split without progress on %r' % (c,))
                            if 'id' in i:
                                s.env[i['id']] = Unk('split')
                            if op in ('invoke',):
                                out.append((i['succ'][0], s))
                                break
                            if op in ('br', 'switch', 'ret'):
                                break
                            k += 1
                            continue
                        allf = pos + ngs
                        for fx in allf[1:]:
                            s2 = s.copy()
                            s2.facts = fx
                            work.append((s2, k))
                        if not allf:
                            break
                        s = s if len(allf) == 1 else s.copy()
                        s.facts = allf[0]
                        continue
                    raise
                except Kill:
                    break
                except Unmodelled as u:
                    self.note_unmod(s, u.why)
                    if 'id' in i:
                        s.env[i['id']] = Unk(u.why)
                    if op == 'invoke':
                        out.append((i['succ'][0], s))
                        break
                    if op in ('br', 'switch', 'ret', 'unreachable'):
                        break
                    k += 1
        return out

    def note_unmod(self, s, why):
        s.inexact(why)
        self.unmod[why] = self.unmod.get(why, 0) + 1

    def catches(self, fn, b):
        for i in fn.blocks[b]['insts']:
            if i['op'] == 'landingpad':
                return i.get('clauses', 0) > 0
        return False

    def eval_phis_to(self, fn, b, t, s, out):
        out.append((t, s))

    def do_switch(self, s, i, out):
        v = self.val(s, i['cond'])
        x = self.num(s, v, 'a switch')
        if x is None:
            s.inexact('switch on untracked value')
            tg = sorted(set([i['def']] + [c[1] for c in i['cases']]))
            for n_, t in enumerate(tg):
                out.append((t, s if n_ == len(tg) - 1 else s.copy()))
            return
        groups = {}
        nes = []
        for cv, t in i['cases']:
            groups.setdefault(t, []).append(mk_eq(x - int(cv[1])))
            nes.append(mk_ne(x - int(cv[1])))
        for t, cs in groups.items():
            if t == i['def']:
                nes = [n for n in nes if neg(n) not in cs]
                continue
            for c in cs:
                for fx in s.facts.assume(c):
                    s2 = s.copy()
                    s2.facts = fx
                    out.append((t, s2))
        for fx in s.facts.assume(conj(nes)):
            s2 = s.copy()
            s2.facts = fx
            out.append((i['def'], s2))

    def member_bound(self, s, i):
        """an index into an array of fixed length (possibly a member) that is certainly outside of it"""
        if not (self.fnstack[-1][3] and self.is_repo(self.fnstack[-1][3])):
            return
        for v, n in i['bnd']:
            x = self.num(s, self.val(s, v))
            if x is None:
                continue
            f = s.facts
            x = f.norm(x)
            if x.const is not None:
                bad = x.const < 0 or x.const > n or (x.const == n and i['acc'])
            else:
                bad = f.ge(x, P(n if i['acc'] else n + 1)) or f.gt(ZERO, x)
            self.oblige('bounds', 'member', not bad)
            if bad:
                self.report('bounds', 'member', s, 'index %s is outside of an array of %d elements' % (pretty(x, s) if x.const is None else int(x.const), n))

    def exec(self, s, i):
        op = i['op']
        if op == 'nop':
            return
        if op == 'alloca':
            n = self.val(s, i['n'])
            oid = '%s.%d' % ('a', self.fresh())
            o = Obj(oid, 'stack', n.scale(i['size']) if isinstance(n, Poly) else None, 'local in ' + self.fnstack[-1][2])
            o.loc = self.where()
            s.objs[oid] = o
            s.owned.add(oid)
            s.env['allocas'] = s.env.get('allocas', ()) + (oid,)
            s.env[i['id']] = Ptr(oid, ZERO)
            return
        if op == 'load':
            s.env[i['id']] = self.load(s, self.val(s, i['o'][0]), i['t'], i['size'])
            return
        if op == 'store':
            self.store(s, self.val(s, i['o'][1]), self.val(s, i['o'][0]), i['size'], i['vt'])
            return
        if op == 'getelementptr':
            b = self.val(s, i['base'])
            off = P(i['off'])
            for v, sc, ty in i['idx']:
                x = self.num(s, self.val(s, v), 'an index')
                if x is None:
                    s.env[i['id']] = Unk('pointer with untracked index')
                    return
                off = off + x.scale(sc)
            if isinstance(b, Ptr):
                if 'bnd' in i:
                    self.member_bound(s, i)
                s.env[i['id']] = Ptr(b.obj, b.off + off, b.gen)
            else:
                s.env[i['id']] = b if isinstance(b, Unk) or b is UNINIT else Unk('gep')
            return
        if op == 'icmp':
            s.env[i['id']] = self.icmp(s, i['pred'], self.val(s, i['o'][0]), self.val(s, i['o'][1]), i['ot'])
            return
        if op == 'fcmp':
            s.env[i['id']] = self.fcmp(s, i['pred'], self.val(s, i['o'][0]), self.val(s, i['o'][1]))
            return
        if op == 'fneg':
            x = self.num(s, self.val(s, i['o'][0]))
            s.env[i['id']] = Unk('fneg') if x is None else -x
            return
        if op == 'select':
            c = self.as_cond(s, self.val(s, i['o'][0]))
            a, b = self.val(s, i['o'][1]), self.val(s, i['o'][2])
            if c is True:
                s.env[i['id']] = a
            elif c is False:
                s.env[i['id']] = b
            elif i['t'] == 'i1':
                x, y = self.as_cond(s, a), self.as_cond(s, b)
                s.env[i['id']] = disj([conj([c, x]), conj([neg(c), y])])
            elif s.facts.implies(c):
                s.env[i['id']] = a
            elif s.facts.implies(neg(c)):
                s.env[i['id']] = b
            else:
                for x in cond_list(c):
                    self.cmp_log.append(x)
                raise Split(c)
            return
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul',
                  'fdiv', 'frem'):
            s.env[i['id']] = self.binop(s, op, self.val(s, i['o'][0]), self.val(s, i['o'][1]), i['t'], i)
            return
        if 'st' in i or op == 'freeze':
            s.env[i['id']] = self.cast(s, op, self.val(s, i['o'][0]), i.get('st', i['t']), i['t'])
            return
        if op == 'extractvalue':
            a = self.val(s, i['o'][0])
            for ix in i['ix']:
                a = a.vs[ix] if isinstance(a, Agg) else Unk('extractvalue')
            s.env[i['id']] = a
            return
        if op == 'insertvalue':
            a, v = self.val(s, i['o'][0]), self.val(s, i['o'][1])
            if isinstance(a, Agg) and len(i['ix']) == 1:
                l = list(a.vs)
                l[i['ix'][0]] = v
                s.env[i['id']] = Agg(l)
            elif a is UNINIT and len(i['ix']) == 1:
                n = len(struct_fields(i['t'])) if i['t'][0] == '{' else 8
                l = [UNINIT] * n
                l[i['ix'][0]] = v
                s.env[i['id']] = Agg(l)
            else:
                s.env[i['id']] = Unk('insertvalue')
            return
        if op == 'landingpad':
            s.env[i['id']] = Unk('exception')
            return
        if op == 'fence':
            return
        if 'id' in i:
            s.env[i['id']] = Unk('opcode ' + op)
        self.note_unmod(s, 'opcode ' + op)

    # ------------------------------------------------------------ calls
    def do_call(self, s, i):
        if 'fn' in i:
            name = i['fn']
        else:
            f = self.val(s, i['fp'])
            if isinstance(f, FnP):
                name = f.name
            else:
                r = self.models.indirect(self, s, f, [self.val(s, a) for a in i['args']], i)
                if r is not None:
                    return r
                raise Unmodelled('indirect call')
        args = [self.val(s, a) for a in i['args']]
        return self.call(s, name, args, i)

    def call(self, s, name, args, i=None):
        self.calls += 1
        dem = self.mod.names.get(name, name)
        if i is not None and any(i.get('byval', ())):
            na = []
            for a, bv in zip(args, i['byval']):
                if bv and isinstance(a, Ptr):
                    oid = self.new_obj(s, 'stack', P(bv), 'by-value argument')
                    self.copy_mem(s, Ptr(oid, ZERO), a, P(bv))
                    a = Ptr(oid, ZERO)
                na.append(a)
            args = na
        r = self.models.dispatch(self, s, name, dem, args, i)
        if r is not None:
            return r
        if name in self.mod.raw:
            return self.call_fn(s, name, args)
        raise Unmodelled('external function ' + dem)

    # ------------------------------------------------------------ loops
    def run_loop(self, ctx, h, lst):
        fn = ctx.fn
        self.loops_seen.add((fn.dem, h))
        region = fn.loops[h]
        exits = []
        lst = self.dedupe(lst)
        if len(lst) > (12 if not self.opts.get('paths') else 600):
            lst = self.merge(ctx, h, lst)
        for prev, s in lst:
            exits.extend(self.loop_one(ctx, h, region, prev, s))
        return exits

    def loop_one(self, ctx, h, region, prev, s):
        fn = ctx.fn
        if prev != 'H':
            self.eval_phis(fn, h, prev, s)
        entry = s
        exits = []
        cur = [entry.copy()]
        ls = {'blocks': region, 'dec': set(), 'undec': set()}
        if self.peel:
            return self.loop_peel(ctx, h, region, cur, ls)
        # phase 1: unroll while an exit test of the loop is decided by constants
        n = free = 0
        while cur and n < self.UNROLL:
            ls['dec'], ls['undec'] = set(), set()
            nr, nt, nrep, nobl = len(ctx.rets), len(ctx.throws), len(self.reports), dict((k, list(v)) for k, v in self.obls.items())
            snap = [c.copy() for c in cur] if n else None
            logn = len(self.cmp_log)
            self.loopstack.append(ls)
            try:
                ed = self.run_region(ctx, h, region, [(h, 'H', c) for c in cur])
            finally:
                self.loopstack.pop()
            backs = []
            ex = []
            for t, p, s2 in ed:
                if t == h:
                    self.eval_phis(fn, h, p, s2)
                    backs.append(s2)
                else:
                    ex.append((t, p, s2))
            if not backs:
                return exits + ex
            if not ls['dec'] - ls['undec']:
                free += 1
            if free > (0 if not self.opts.get('paths') else 60) or len(backs) > (24 if not self.opts.get('paths') else 600):
                # not a counted loop: discard this pass and solve by fixpoint
                del ctx.rets[nr:]
                del ctx.throws[nt:]
                del self.reports[nrep:]
                self.obls = nobl
                start = snap if n else [entry]
                for st0 in (start if len(start) <= 6 else [x[1] for x in self.merge(ctx, h, [('H', x) for x in start])]):
                    exits.extend(self.loop_fix(ctx, h, region, st0))
                return exits
            exits.extend(ex)
            cur = backs
            n += 1
            cur = self.ends(fn, h, n, cur)
        for st0 in cur:
            exits.extend(self.loop_fix(ctx, h, region, st0))
        return exits

    ENDS = 500
    valid_seen = False
    returned = True

    def ends(self, fn, h, n, cur):
        """specifications over small data ask (vf_opt "ends") that every loop of the library ends"""
        if n != self.ENDS or not self.opts.get('ends') or not (fn.file and self.is_repo(fn.file)):
            return cur
        for s in cur:
            self.oblige('hang', 'every loop ends', False)
            self.report('hang', 'every loop ends', s, 'a loop of %s still runs after %d rounds' % (fn.dem, n))
        return []

    def loop_peel(self, ctx, h, region, cur, ls):
        """only the first iterations, without widening (see DESIGN.md, alarm triage)"""
        fn = ctx.fn
        exits = []
        n = free = 0
        while cur and n < self.UNROLL and free < (self.peel if not self.opts.get('paths') else 60):
            ls['dec'], ls['undec'] = set(), set()
            self.loopstack.append(ls)
            try:
                ed = self.run_region(ctx, h, region, [(h, 'H', c) for c in cur])
            finally:
                self.loopstack.pop()
            cur = []
            for t, p, s2 in ed:
                if t == h:
                    self.eval_phis(fn, h, p, s2)
                    cur.append(s2)
                else:
                    exits.append((t, p, s2))
            lim = 16 if not self.opts.get('paths') else 600
            if len(cur) > lim:
                self.dropped += len(cur) - lim
                cur = cur[:lim]
            n += 1
            cur = self.ends(fn, h, n, cur)
            if not ls['dec'] - ls['undec']:
                free += 1
        self.dropped += len(cur)
        return exits

    def loop_fix(self, ctx, h, region, entry):
        if self.entry_split:
            c = self.entry_guard(ctx, h, region, entry)
            if c is not None:
                out = []
                for x in (c, neg(c)):
                    for fx in entry.facts.assume(x):
                        e2 = entry.copy()
                        e2.facts = fx
                        out.extend(self.loop_fix1(ctx, h, region, e2))
                return out
        return self.loop_fix1(ctx, h, region, entry)

    entry_split = False

    def entry_guard(self, ctx, h, region, entry):
        """the exit test of the loop on its entry state, when that does not decide it"""
        fn = ctx.fn
        t = fn.blocks[h]['insts'][-1]
        if t['op'] != 'br' or 'cond' not in t or all(x in region for x in t['succ']):
            return None
        s = entry.copy()
        try:
            for i in fn.blocks[h]['insts'][:-1]:
                if i['op'] == 'phi':
                    continue
                if i['op'] in ('call', 'invoke', 'store'):
                    return None
                self.exec(s, i)
            c = self.as_cond(s, self.val(s, t['cond']))
        except (Split, Kill, Unmodelled):
            return None
        if isinstance(c, bool) or entry.facts.implies(c) or entry.facts.implies(neg(c)):
            return None
        return c

    def loop_fix1(self, ctx, h, region, entry):
        from .join import LoopJoin
        fn = ctx.fn
        kid = 'K%d' % h
        entry.env[kid] = ZERO
        lj = LoopJoin(self, fn, h, entry, kid)
        entry.flags['widened'] = True
        for rnd in range(40):
            H = lj.head()
            nr, nt, nrep = len(ctx.rets), len(ctx.throws), len(self.reports)
            nobl = dict((k, list(v)) for k, v in self.obls.items())
            logn = len(self.cmp_log)
            self.loopstack.append({'blocks': region, 'dec': set(), 'undec': set()})
            try:
                ed = self.run_region(ctx, h, region, [(h, 'H', H.copy())])
            finally:
                self.loopstack.pop()
            backs = []
            ex = []
            for t, p, s2 in ed:
                if t == h:
                    self.eval_phis(fn, h, p, s2)
                    s2.env[kid] = s2.env[kid] + 1
                    backs.append(s2)
                else:
                    ex.append((t, p, s2))
            lj.conds(self.cmp_log[logn:])
            if lj.update(backs):
                for t, p, s2 in ex:
                    s2.env.pop(kid, None)
                return ex
            del ctx.rets[nr:]
            del ctx.throws[nt:]
            del self.reports[nrep:]
            self.obls = nobl
        raise Unmodelled('loop fixpoint did not stabilise')

    def dedupe(self, lst):
        return lst

    def merge(self, ctx, b, lst):
        from .join import join_states
        fn = ctx.fn
        if self.peel:
            self.dropped += max(0, len(lst) - (60 if not self.opts.get('paths') else 600))
            return lst[:60 if not self.opts.get('paths') else 600]
        ss = []
        for prev, s in lst:
            if prev != 'H':
                self.eval_phis(fn, b, prev, s)
            ss.append(s)
        out = join_states(self, ss)
        return [('H', s) for s in out]


class _Thrown:
    pass


THROWN = _Thrown()
_axdone = set()
_hk = {}


def hash_key(k):
    r = _hk.get(k)
    if r is None:
        r = len(_hk) + 1
        _hk[k] = r
    return r


def kill_cells(o, k, size):
    for co in list(o.cells):
        if isinstance(co, tuple):
            continue
        cs = o.cells[co][0]
        w = cs if cs is not None else 1
        if co < k + size and k < co + w:
            v = o.cells.pop(co)[1]
            if v == ZERO and w > 1 and isinstance(v, Poly):
                # what is left of a zero word is still zero
                if co < k:
                    o.cells[co] = (k - co, ZERO)
                if k + size < co + w:
                    o.cells[k + size] = (co + w - k - size, ZERO)


def cond_list(c):
    if isinstance(c, (And, Or)):
        for x in c.cs:
            yield from cond_list(x)
    else:
        yield c


def nice(tag):
    if isinstance(tag, tuple):
        if tag and tag[0] == 'arg':
            return str(tag[1])
        return '(' + ' '.join(nice(x) for x in tag) + ')'
    return str(tag)


def pretty(c, st):
    if c is False:
        return 'false'
    try:
        c2 = cond_subst(c, st.facts.sub)
    except Exception:
        c2 = c
    return repr(c2)[:200]


def init_cells(init, ty, off, cells):
    k = init[0]
    if k == 'c':
        sz = ty_size(ty)
        cells[off] = (sz, P(int(init[1])))
    elif k == 'f':
        cells[off] = (ty_size(ty), P(Fraction(float.fromhex(init[1]))) if init[1] not in ('nan', 'inf', '-inf') else Unk('inf'))
    elif k == 'null':
        cells[off] = (8, NULLP)
    elif k == 'fn':
        cells[off] = (8, FnP(init[1]))
    elif k == '@':
        cells[off] = (8, ('@', init[1], init[2]))
        cells[off] = (8, Ptr('@' + init[1], P(init[2])))
    elif k == 'bytes':
        for j, b in enumerate(init[1]):
            cells[off + j] = (1, P(b))
    elif k == 'agg':
        t = init[1]
        if t.startswith('{'):
            for (fo, ft), x in zip(struct_fields(t), init[2]):
                init_cells(x, ft, off + fo, cells)
        elif t.startswith('['):
            m = re.match(r'\[(\d+)x(\d+):(.*)\]$', t)
            es, et = int(m.group(2)), m.group(3)
            for j, x in enumerate(init[2]):
                init_cells(x, et, off + j * es, cells)
    # zero / undef: background
