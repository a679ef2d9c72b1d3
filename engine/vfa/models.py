"""Library semantics: what the analyser assumes about the C++ standard library
and the C runtime (the trusted base).  Dispatch is on resolved callees
(demangled symbol + class), never on source text."""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .state import State, Obj
from .interp import THROWN, struct_fields, ty_size, I64, hash_key, Unmodelled, _axdone
from .ir import parse_name, split_top
from . import witness, bits as BITS
from .facts import add_axiom, sign

SCALAR = {'int': 'i32', 'unsigned int': 'i32', 'long': 'i64', 'unsigned long': 'i64', 'long long': 'i64', 'unsigned long long': 'i64',
          'char': 'i8', 'signed char': 'i8', 'unsigned char': 'i8', 'short': 'i16', 'unsigned short': 'i16', 'bool': 'i8',
          'double': 'f64', 'float': 'f32', 'long double': 'f80', 'wchar_t': 'i32', 'char16_t': 'i16', 'char32_t': 'i32'}
SEQ = {'std::vector', 'std::list', 'std::deque', 'std::basic_string'}
ASSOC = {'std::map', 'std::set', 'std::multimap', 'std::multiset', 'std::unordered_map', 'std::unordered_set'}


class ET:
    """element type"""
    __slots__ = ('ty', 'size', 'name')

    def __init__(self, ty, size, name):
        self.ty, self.size, self.name = ty, size, name

    def __repr__(self):
        return self.name


_et = {}
MISS = object()


def model(*keys):
    def d(f):
        for k in keys:
            Models.table[k] = f
        return f
    return d


class Models:
    table = {}
    prefix = []

    def __init__(self, mod):
        self.mod = mod

    # ------------------------------------------------------------ types
    def et(self, T_):
        T_ = T_.strip()
        if T_.endswith(' const'):
            T_ = T_[:-6]
        if T_.startswith('const '):
            T_ = T_[6:]
        k = (id(self.mod), T_)
        r = _et.get(k)
        if r is None:
            if T_ in SCALAR:
                ty = SCALAR[T_]
                r = ET(ty, ty_size(ty), T_)
            elif T_.endswith('*'):
                r = ET('p', 8, T_)
            else:
                t = self.mod.types.get(T_) or self.mod.types.get(T_.replace('std::', 'std::__cxx11::')) or \
                    self.mod.types.get({'std::string': 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'}.get(T_, T_))
                if T_.startswith('std::__cxx11::basic_string<') or T_ == 'std::string':
                    r = ET('cls', 32, T_)
                elif t is not None:
                    r = ET('cls', t['size'], T_)
                else:
                    raise Unmodelled('unknown element type ' + T_)
            _et[k] = r
        return r

    def members(self, tname):
        return self.mod.types.get(tname)

    # ------------------------------------------------------------ containers in memory
    def locate(self, it, st, p, write=False):
        o, off = it.deref(st, p, None, write)
        if o is None:
            raise Unmodelled('container reached through an untracked pointer')
        return o, off

    def cget(self, it, st, p, mk):
        """container value stored at p; mk(tag) builds the symbolic initial one"""
        o, off = self.locate(it, st, p)
        if o.kind in ('buf', 'node'):
            v = self.elem_cell(it, st, o, off, mk)
            return v
        k = st.facts.norm(off).const
        if k is None:
            for wo, ws, wv in reversed(o.log):
                if st.facts.eq(wo, off):
                    return wv
                if not st.facts.ne(wo, off):
                    raise Split(mk_eq(wo - off))
            if o.lazy is not None:
                return mk(('at', o.lazy, st.facts.norm(off)))
            raise Unmodelled('container at a variable offset')
        c = o.cells.get(k)
        if c is not None and isinstance(c[1], (SeqVal, MapVal, Opaque)):
            return c[1]
        if c is not None and isinstance(c[1], Unk):
            raise Unmodelled('container value lost (%s)' % c[1].why)
        for co, (cs, cv) in o.cells.items():
            if isinstance(co, tuple) and co[0] == 'bg' and co[1] <= k < co[1] + co[2]:
                v = mk(('at', cv[0], P(k + cv[1])))
                st.wobj(o.id).cells[k] = (None, v)
                return v
        if o.lazy is not None and o.lazy != ('zero',):
            v = mk(('at', o.lazy, P(k)))
            # materialising is not a write of the program
            o2 = st.wobj(o.id)
            o2.cells[k] = (None, v)
            return v
        it.oblige('uninit', 'container', False)
        it.report('uninit', 'container', st, 'container used before it was constructed (%s)' % o.name)
        raise Kill()

    def cset(self, it, st, p, v):
        o, off = self.locate(it, st, p, True)
        if o.kind in ('buf', 'node'):
            self.elem_store(it, st, o, off, v, None)
            return
        k = st.facts.norm(off).const
        if k is None:
            o = st.wobj(o.id)
            o.log = o.log + ((off, 8, v),)
            return
        o = st.wobj(o.id)
        o.touched = True
        old = o.cells.get(k)
        o.cells[k] = (None, v)

    def buf(self, it, st, p, et, strk=False):
        """object standing for the elements of the container at p"""
        off = st.facts.norm(p.off)
        oid = 'b:%s:%s' % (p.obj, hash_key(('off', off)))
        if oid not in st.objs:
            o = Obj(oid, 'buf', None, 'elements of ' + st.objs[p.obj].name)
            o.owner = (p.obj, off)
            o.esz, o.et = et.size, et
            o.key = 'str' if strk else None
            st.objs[oid] = o
        return oid

    # sequence values
    def sget(self, it, st, p, et):
        def mk(tag):
            b = base_app('cont', (tag,), None, et)
            return SeqVal([Seg(b, ZERO, b.n)])
        v = self.cget(it, st, p, mk)
        if not isinstance(v, SeqVal):
            raise Unmodelled('not a sequence value: %r' % (v,))
        return v

    def sset(self, it, st, p, v):
        self.cset(it, st, p, self.norm(st, v))

    def norm(self, st, v):
        out = []
        for p in v.parts:
            if isinstance(p, (Seg, Rep)):
                l = st.facts.norm(p.len)
                if l.const == 0 or (l.const is None and st.facts.eq(l, ZERO)):
                    continue
                if isinstance(p, Seg):
                    p = Seg(p.base, st.facts.norm(p.start), l)
                    if len(p.base.args) and l == ONE and False:
                        pass
                else:
                    if l.const is not None and l.const <= 64:
                        out.extend([El(p.v)] * int(l.const))
                        continue
                    p = Rep(p.v, l)
            else:
                a = p.v.single() if isinstance(p.v, Poly) else None
                if a is not None and a.op == 'el':
                    p = Seg(a.args[0], st.facts.norm(a.args[1]), ONE)
                elif isinstance(p.v, Rec) and not p.v.cells and p.v.src and p.v.src[0] == 'el':
                    p = Seg(p.v.src[1], st.facts.norm(p.v.src[2]), ONE)
            if isinstance(p, Seg) and out and isinstance(out[-1], Seg) and out[-1].base is p.base and \
                    st.facts.eq(out[-1].start + out[-1].len, p.start):
                q = out.pop()
                p = Seg(q.base, q.start, st.facts.norm(q.len + p.len))
            out.append(p)
        return SeqVal(out)

    def cut(self, it, st, parts, i):
        """split parts at position i (0 <= i <= length already established)"""
        f = st.facts
        pos = ZERO
        parts = list(parts)
        for n, p in enumerate(parts):
            if f.eq(i, pos):
                return parts[:n], parts[n:]
            L = plen(p)
            end = pos + L
            if f.ge(i, end):
                pos = end
                continue
            last = n == len(parts) - 1
            inside = f.gt(end, i) and f.ge(i, pos)
            if not inside:
                if last and f.ge(end, i) and f.ge(i, pos):
                    pass
                elif f.ge(i, pos) and f.ge(end, i) and isinstance(p, (Seg, Rep)):
                    pass
                else:
                    raise Split(mk_ge(i - end))
            if isinstance(p, Seg):
                k = i - pos
                return parts[:n] + [Seg(p.base, p.start, k)], [Seg(p.base, p.start + k, L - k)] + parts[n + 1:]
            if isinstance(p, Rep):
                k = i - pos
                return parts[:n] + [Rep(p.v, k)], [Rep(p.v, L - k)] + parts[n + 1:]
            # El: i strictly inside impossible
            raise Split(mk_eq(i - pos))
        return parts, []

    def at(self, it, st, v, i, et):
        f = st.facts
        pos = ZERO
        for p in v.parts:
            end = pos + plen(p)
            if f.ge(i, end):
                pos = end
                continue
            if not f.gt(end, i):
                raise Split(mk_gt(end - i))
            if isinstance(p, El) or isinstance(p, Rep):
                return p.v
            return self.el(st, p.base, f.norm(p.start + i - pos), et)
        return Unk('element beyond the end')

    def el(self, st, base, k, et):
        if base.op == 'fill' and False:
            pass
        if et.ty == 'cls':
            return Rec((), ('el', base, k))
        if et.ty == 'p':
            return ('lazyptr', base, k)
        if et.ty[0] == 'f':
            r = base.lohi or (None, None)
            return poly(app('el', (base, k), False, r[0], r[1]))
        b = 8 * et.size
        lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
        if et.name == 'bool':
            lo, hi = 0, 1
        if base.lohi:
            lo, hi = max(lo, base.lohi[0]), min(hi, base.lohi[1])
        return poly(app('el', (base, k), True, lo, hi))

    def upd(self, it, st, v, i, x):
        l, r = self.cut(it, st, v.parts, i)
        _, r2 = self.cut(it, st, r, ONE)
        return SeqVal(list(l) + [El(x)] + list(r2))

    def idx_of(self, st, o, off):
        """byte offset -> (index, inner)"""
        off = st.facts.norm(off)
        q, inner = {}, 0
        for m, c in off.t.items():
            if m == ():
                i = c // o.esz
                inner = c - i * o.esz
                if i:
                    q[()] = i
            elif c % o.esz == 0:
                q[m] = c // o.esz
            else:
                raise Unmodelled('unaligned element offset')
        return Poly(q), inner

    def owner_ptr(self, o):
        return Ptr(o.owner[0], o.owner[1])

    def elem_rec(self, it, st, o, off, write):
        op = self.owner_ptr(o)
        it.deref(st, op, None, write)
        v = self.sget(it, st, op, o.et)
        i, inner = self.idx_of(st, o, off)
        n = v.length()
        it.interesting.append(i)
        it.interesting.append(n)
        lim = n + 1 if (o.key == 'str' and not write) else n
        c = conj([mk_ge(i), mk_gt(lim - i)])
        it.check(st, c, 'oob', 'element', 'element %r of a container of %r elements is accessed' % (st.facts.norm(i), st.facts.norm(n)))
        return v, i, inner, n

    def elem_load(self, it, st, o, off, ty, size):
        if o.kind == 'node':
            return self.node_load(it, st, o, off, ty, size)
        v, i, inner, n = self.elem_rec(it, st, o, off, False)
        if o.key == 'str' and not st.facts.gt(n, i):
            if st.facts.eq(i, n):
                return ZERO
            raise Split(mk_eq(i - n))
        if ty[0] == 'i' and inner == 0 and len(v.parts) > 4 and i.const is None and st.facts.norm(i).const is None and \
                all(isinstance(e, El) and isinstance(e.v, Poly) and e.v.const is not None for e in v.parts):
            r = BITS.tab_at(st, [e.v.const for e in v.parts], i)
            if r is not None:
                return r
        x = self.at(it, st, v, i, o.et)
        return self.from_elem(it, st, x, o, inner, ty, size)

    def from_elem(self, it, st, x, o, inner, ty, size):
        if isinstance(x, tuple) and x and x[0] == 'lazyptr':
            return it.sym_of(st, x, ZERO, 'p')
        if isinstance(x, Rec):
            for co, cs, cv in x.cells:
                if co == inner and (cs == size or cs is None):
                    return cv
            if x.src:
                return it.sym_of(st, x.src, P(inner), ty)
            return UNINIT
        if inner == 0:
            return x
        return Unk('inside element')

    def elem_cell(self, it, st, o, off, mk):
        """container nested inside an element"""
        if o.kind == 'node':
            return self.node_cell(it, st, o, off, mk)
        v, i, inner, n = self.elem_rec(it, st, o, off, False)
        x = self.at(it, st, v, i, o.et)
        if isinstance(x, Rec):
            for co, cs, cv in x.cells:
                if co == inner and isinstance(cv, (SeqVal, MapVal, Opaque)):
                    return cv
            if x.src:
                return mk(('at', x.src, P(inner)))
        raise Unmodelled('nested container')

    def elem_store(self, it, st, o, off, x, size):
        if o.kind == 'node':
            return self.node_store(it, st, o, off, x, size)
        v, i, inner, n = self.elem_rec(it, st, o, off, True)
        if o.et.ty == 'cls':
            old = self.at(it, st, v, i, o.et)
            x = rec_set(old, inner, size, x)
        v2 = self.upd(it, st, v, i, x)
        self.cset(it, st, self.owner_ptr(o), self.norm(st, v2))

    # ------------------------------------------------------------ values of a type in memory
    def read_val(self, it, st, p, et):
        """value of an object of type et at p (for copying into a container)"""
        if et.ty != 'cls':
            return it.load(st, p, et.ty, et.size)
        return self.read_rec(it, st, p, et)

    def read_rec(self, it, st, p, et):
        n = et.name
        if is_string(n):
            return Rec([(0, None, self.sget(it, st, p, self.et('char')))])
        pn = parse_name(n + '::x()')
        if pn.cls in SEQ or pn.cls in ASSOC:
            cv = self.cget(it, st, p, self.mk_for(n))
            return Rec([(0, None, cv)])
        o, off = it.deref(st, p, None, False)
        if o is None:
            raise Unmodelled('class value through untracked pointer')
        if o.kind in ('buf', 'node'):
            if o.kind == 'buf':
                v, i, inner, _ = self.elem_rec(it, st, o, off, False)
                x = self.at(it, st, v, i, o.et)
                if inner == 0 and isinstance(x, Rec):
                    return x
                if isinstance(x, Rec):
                    cells = [(co - inner, cs, cv) for co, cs, cv in x.cells if inner <= co < inner + et.size]
                    return Rec(cells, ('at', x.src, P(inner)) if x.src else None)
            else:
                return self.node_rec(it, st, o, off)
            raise Unmodelled('class value inside element')
        k = st.facts.norm(off).const
        if k is None:
            raise Unmodelled('class value at variable offset')
        cells = []
        for co, (cs, cv) in o.cells.items():
            if isinstance(co, tuple):
                continue
            if k <= co < k + et.size:
                cells.append((co - k, cs, cv))
        src = None
        if o.lazy is not None and o.lazy != ('zero',):
            src = ('at', o.lazy, P(k)) if k else o.lazy
            t = self.members(n)
        for co, cv in o.cells.items():
            if isinstance(co, tuple) and co[0] == 'bg' and co[1] <= k and k + et.size <= co[1] + co[2]:
                src = ('at', cv[1][0], P(k + cv[1][1]))
        return Rec(cells, src)

    def write_val(self, it, st, p, et, v):
        if isinstance(v, Rec):
            o, off = it.deref(st, p, None, True)
            if o is None:
                raise Unmodelled('store class value')
            if o.kind in ('buf', 'node'):
                for co, cs, cv in v.cells:
                    self.elem_store(it, st, o, off + co, cv, cs)
                return
            k = off.const
            o = st.wobj(o.id)
            for co in list(o.cells):
                if not isinstance(co, tuple) and k <= co < k + et.size:
                    del o.cells[co]
            for co, cs, cv in v.cells:
                o.cells[k + co] = (cs, cv)
            if v.src:
                o.cells[('bg', k, et.size)] = (None, (v.src, -k, o.id))
            return
        if isinstance(v, tuple) and v and v[0] == 'lazyptr':
            v = it.sym_of(st, v, ZERO, 'p')
        it.store(st, p, v, et.size, et.ty)

    def mk_for(self, tname):
        pn = parse_name(tname + '::x()')
        if pn.cls in ASSOC:
            return lambda tag: self.mk_map(tag)
        e = self.et('char') if is_string(tname) else self.et(pn.ctargs[0])

        def mk(tag):
            b = base_app('cont', (tag,), None, e)
            return SeqVal([Seg(b, ZERO, b.n)])
        return mk

    def mk_map(self, tag):
        b = base_app('mapb', (tag,))
        return MapVal(b, (), b.n)

    def mem_seq(self, it, st, p, n, et):
        """the n elements stored from p on, as a sequence value"""
        n = st.facts.norm(n)
        if n.const == 0:
            return EMPTYSEQ
        if not isinstance(p, Ptr) or p.obj is None:
            if isinstance(p, Ptr):
                it.deref(st, p, None, False)
            raise Unmodelled('range from an untracked pointer')
        o, off = it.deref(st, p, None, False)
        if o.kind == 'buf':
            v = self.sget(it, st, self.owner_ptr(o), o.et)
            i, inner = self.idx_of(st, o, off)
            it.check(st, conj([mk_ge(i), mk_ge(n), mk_ge(v.length() - i - n)]), 'oob', 'range', 'range of %r elements from %r exceeds the container' % (n, i))
            _, r = self.cut(it, st, v.parts, i)
            m, _ = self.cut(it, st, r, n)
            return SeqVal(m)
        if o.size is not None:
            it.check(st, conj([mk_ge(off), mk_ge(P(o.size) - off - n.scale(et.size))]), 'oob', 'range',
                     'range of %r elements exceeds %s' % (n, o.name))
        if n.const is not None and n.const <= 256:
            return SeqVal([El(self.read_val(it, st, Ptr(p.obj, off + et.size * j), et)) for j in range(int(n.const))])
        if o.log or any(True for _ in o.cells):
            raise Unmodelled('range over a partly written array')
        b = base_app('mem', (o.lazy, st.facts.norm(off), n), n, et)
        return SeqVal([Seg(b, ZERO, n)])

    def cstr(self, it, st, p):
        """sequence value of a NUL-terminated string"""
        if not isinstance(p, Ptr):
            raise Unmodelled('C string')
        o, off = it.deref(st, p, 1, False)
        if o is None:
            raise Unmodelled('C string')
        if o.kind == 'buf':
            v = self.sget(it, st, self.owner_ptr(o), o.et)
            i, inner = self.idx_of(st, o, off)
            if o.key == 'str':
                _, r = self.cut(it, st, v.parts, i)
                return SeqVal(self.upto_nul(st, r))
            raise Unmodelled('C string in a buffer')
        k = off.const
        if k is not None and o.kind == 'const':
            out = []
            while True:
                c = o.cells.get(k)
                x = 0 if c is None else c[1].const
                if x == 0:
                    break
                out.append(x & 255)
                k += 1
            return bytes_seq(out)
        if k is not None and o.lazy is None:
            out = []
            while len(out) < 4096:
                x = it.num(st, it.load(st, Ptr(p.obj, P(k)), 'i8'), 'character')
                if x is None:
                    raise Unmodelled('C string of untracked characters')
                if self.is_nul(st, x):
                    return SeqVal(out)
                out.append(El(x))
                k += 1
            raise Unmodelled('long C string')
        if o.lazy is None:
            raise Unmodelled('C string')
        b = base_app('cstr', (o.lazy, st.facts.norm(off)), None, self.et('char'))
        return SeqVal([Seg(b, ZERO, b.n)])

    def is_nul(self, st, x):
        x = st.facts.norm(x)
        if x.const is not None:
            return x.const == 0
        if st.facts.implies(mk_ne(x)):
            return False
        if st.facts.implies(mk_eq(x)):
            return True
        raise Split(mk_eq(x))

    def upto_nul(self, st, parts):
        """the part of a string read through a C string; opaque text is taken to hold no zero byte"""
        out = []
        for e in parts:
            if isinstance(e, El) and isinstance(e.v, Poly) and self.is_nul(st, e.v):
                break
            if isinstance(e, Rep) and isinstance(e.v, Poly) and e.v.const == 0:
                if st.facts.gt(e.len, ZERO):
                    break
                raise Unmodelled('C string with zero bytes')
            out.append(e)
        return out

    # ------------------------------------------------------------ fallbacks used by the interpreter
    def table_load(self, it, st, o, off, ty, size):
        """read of a constant table at a variable index: a finite relation"""
        vals = {}
        n = o.size.const // size
        lo, hi = st.facts.bounds(off)
        i0 = max(0, (lo // size) if lo is not None else 0)
        i1 = min(n - 1, (hi // size) if hi is not None else n - 1)
        for i in range(int(i0), int(i1) + 1):
            c = o.cells.get(i * size)
            v = ZERO if c is None else c[1]
            if isinstance(v, Poly) and v.const is not None:
                vals[i] = v.const
            else:
                return Unk('table')
        if not vals:
            return Unk('table')
        i = it.floordiv(st, off, size)
        if not st.facts.eq(i * size, off):
            return Unk('table')
        full = [vals.get(j, 0) for j in range(max(vals) + 1)]
        r = BITS.tab_at(st, full, i, ty[0] == 'i')
        return Unk('table') if r is None else r

    def bulk_copy(self, it, st, do, doff, so, soff, n):
        kind = [o for o in (do, so) if o.kind == 'buf']
        if kind and all(o.kind != 'node' for o in (do, so)) and kind[0].et.ty == 'cls' and st.facts.norm(n).const == kind[0].et.size:
            # one element: memberwise
            et = kind[0].et
            x = self.read_rec(it, st, Ptr(so.id, soff), et)
            if isinstance(x, Rec) and (do.kind != 'buf' or x.src is None):
                self.write_val(it, st, Ptr(do.id, doff), et, x)
                return
        d = st.wobj(do.id) if do.kind not in ('buf', 'node') else None
        if d is None or so.kind in ('buf', 'node'):
            raise Unmodelled('memory copy between containers')
        k0 = st.facts.norm(doff).const
        if so.lazy is not None and not so.log and not so.cells and k0 == 0 and st.facts.norm(soff).const == 0 and \
                d.size is not None and st.facts.eq(P(d.size), n):
            # whole-object copy of a symbolic source
            d.cells, d.log, d.lazy, d.erange = {}, (), so.lazy, so.erange
            return
        d.cells, d.log, d.lazy, d.erange = {}, (), ('W', do.id, it.fresh()), None
        st.inexact('bulk memory copy')

    def recursion(self, it, st, name, fn, args, nrec):
        return None

    def indirect(self, it, st, f, args, i):
        return None

    # ------------------------------------------------------------ dispatch
    def dispatch(self, it, st, name, dem, args, i):
        if name.startswith('vf_'):
            return self.intrinsic(it, st, name, args, i)
        if name.startswith('llvm.'):
            return self.llvm(it, st, name, args, i)
        r = CLIB.get(name)
        if r is not None:
            return wrapv(st, r(self, it, st, args, i))
        if not (name.startswith('_ZNSt') or name.startswith('_ZNKSt') or name.startswith('_ZSt') or name.startswith('_ZN9__gnu_cxx') or
                name.startswith('_ZNK9__gnu_cxx') or name.startswith('_ZNSa') or name.startswith('_ZNKSa')
                or name.startswith('_ZN9__gnu') or name.startswith('_ZNSs') or name.startswith('_ZNSo') or name.startswith('_ZNSi')
                or name.startswith('_ZNSd') or name.startswith('_ZNKSs') or name.startswith('_ZNKSo') or name.startswith('_ZNKSi')):
            return None
        n = parse_name(dem, name)
        a = args
        sret = None
        if i is not None and i.get('sret'):
            sret, a = args[0], args[1:]
        call = Call(self, it, st, n, a, sret, i, name)
        h = self.table.get((n.cls, n.fn))
        if h is None:
            for pat, fun in self.prefix:
                if pat(n):
                    h = fun
                    break
        if h is None:
            return None
        r = h(call)
        if r is MISS:
            return None
        return wrapv(st, r)

    # ------------------------------------------------------------ driver intrinsics
    def intrinsic(self, it, st, name, args, i):
        if name == 'vf_assume':
            c = it.as_cond(st, args[0])
            out = []
            for f in st.facts.assume(c):
                s = st.copy()
                s.facts = f
                out.append((s, None))
            return out
        if name == 'vf_assert':
            it.hit.add(id(i))
            c = it.as_cond(st, args[0])
            lab = self.text(it, st, args[1])
            ok = st.facts.implies(c)
            it.oblige('assert', lab, ok)
            if not ok:
                it.report('assert', lab, st, 'required relation does not follow: %s' % (short(c, st),), c)
                return []
            return [(st, None)]
        if name == 'vf_refute':
            # a consequence of what other specifications establish: looked at only on the exact passes
            lab = self.text(it, st, args[1])
            it.refutes.add(lab)
            c = it.as_cond(st, args[0])
            if not st.facts.implies(c):
                it.report('assert', lab, st, 'required relation does not hold: %s' % (short(c, st),), c)
                return []
            return [(st, None)]
        if name == 'vf_noleak':
            lab = self.text(it, st, args[0])
            self.noleak(it, st, lab)
            return [(st, None)]
        if name == 'vf_int':
            return [(st, poly(T.sym('arg_int', True, -2 ** 31, 2 ** 31 - 1)))]
        if name == 'vf_bit':
            return [(st, BITS.new_bit())]
        if name == 'vf_double':
            return [(st, poly(T.sym('arg_double', False)))]
        if name == 'vf_unreachable':
            lab = self.text(it, st, args[0])
            it.oblige('reach', lab, False)
            it.report('reach', lab, st, 'execution continues past a call that must stop with a diagnostic')
            return []
        if name == 'vf_reached':
            lab = self.text(it, st, args[0])
            it.reached.add(lab)
            return [(st, None)]
        if name == 'vf_forbid_error':
            it.valid_seen = True
            st.flags['err'] = 'forbid'
            st.flags['errlabel'] = self.text(it, st, args[0])
            return [(st, None)]
        if name == 'vf_expect_error':
            st.flags['err'] = 'expect'
            st.flags['errlabel'] = self.text(it, st, args[0])
            st.flags['noaccess'] = True
            return [(st, None)]
        if name == 'vf_allow_error':
            st.flags['err'] = 'ok'
            return [(st, None)]
        if name == 'vf_readonly':
            p = args[0]
            lab = self.text(it, st, args[1])
            self.mark_ro(it, st, p, lab)
            return [(st, None)]
        if name == 'vf_extent':
            p = args[0]
            if isinstance(p, Ptr) and p.obj in st.objs:
                o = st.wobj(p.obj)
                o.size = it.num(st, args[1]) + p.off
                o.maynull = None
            return [(st, None)]
        if name == 'vf_nonnull':
            p = args[0]
            if isinstance(p, Ptr) and p.obj in st.objs:
                st.wobj(p.obj).maynull = None
            return [(st, None)]
        if name == 'vf_opt':
            it.opts[self.text(it, st, args[0])] = True
            return [(st, None)]
        if name == 'vf_same':
            lab = self.text(it, st, args[3])
            self.same_mem(it, st, args[0], args[1], it.num(st, args[2]).const, lab)
            return [(st, None)]
        if name == 'vf_dump':
            print('DUMP', [short_val(a) for a in args], st.facts.cons, st.facts.sub, st.facts.b)
            for a in args:
                if isinstance(a, Ptr) and a.obj in st.objs:
                    o = st.objs[a.obj]
                    print('   ', o, o.cells, o.log, o.lazy)
            return [(st, None)]
        if name == 'vf_sink':
            return [(st, None)]
        ext = getattr(self, 'i_' + name, None)
        if ext:
            return ext(it, st, args, i)
        raise Unmodelled('unknown intrinsic ' + name)

    def same_mem(self, it, st, a, b, n, lab):
        pass

    def noleak(self, it, st, lab):
        """every live allocation is reachable from the arguments or from globals"""
        seen, todo = set(), [oid for oid, o in st.objs.items() if o.kind in ('param', 'global', 'const')]
        vague = False
        while todo:
            oid = todo.pop()
            if oid in seen or oid not in st.objs:
                continue
            seen.add(oid)
            for v in pointers_in(st.objs[oid]):
                if v is None:
                    vague = True
                elif v not in seen:
                    todo.append(v)
        for oid, o in sorted(st.objs.items()):
            if o.kind == 'heap' and o.alive is True:
                ok = oid in seen
                it.oblige('leak', lab, ok)
                if not ok:
                    s = st
                    if vague:
                        s = st.copy()
                        s.inexact('a container of pointers')
                    it.report('leak', lab, s, '%s is never released' % o.name)
        it.oblige('leak', lab, True)

    def mark_ro(self, it, st, p, lab):
        seen = set()

        def go(oid):
            if oid in seen or oid not in st.objs:
                return
            seen.add(oid)
            o = st.wobj(oid)
            o.ro = lab or None
            for co, (cs, cv) in list(o.cells.items()):
                if isinstance(cv, Ptr) and cv.obj is not None and cv.obj[0] != '@':
                    go(cv.obj)
        if isinstance(p, Ptr) and p.obj is not None:
            go(p.obj)

    def text(self, it, st, p):
        try:
            s = self.cstr(it, st, p).const_str()
            return s.decode() if s is not None else '?'
        except Exception:
            return '?'

    def llvm(self, it, st, name, args, i):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = it.num(st, args[2])
            if n is None:
                raise Unmodelled('memcpy of untracked length')
            it.copy_mem(st, args[0], args[1], n)
            return [(st, None)]
        if name.startswith('llvm.memset'):
            self.memset(it, st, args[0], args[1], it.num(st, args[2]))
            return [(st, None)]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') or name.startswith('llvm.var.') \
                or name.startswith('llvm.experimental.noalias'):
            return [(st, None)]
        if name.startswith('llvm.stacksave'):
            return [(st, NULLP)]
        if name.startswith('llvm.stackrestore'):
            return [(st, None)]
        if name.startswith('llvm.eh.typeid'):
            return [(st, Unk('typeid'))]
        if name.startswith('llvm.trap'):
            return []
        m = re.match(r'llvm\.(s|u)(max|min)\.i(\d+)', name)
        if m:
            x, y = it.num(st, args[0]), it.num(st, args[1])
            if x is None or y is None:
                return [(st, Unk('minmax'))]
            c = it.icmp(st, m.group(1) + ('gt' if m.group(2) == 'max' else 'lt'), x, y, 'i' + m.group(3))
            return [(st, self.pick(it, st, c, x, y))]
        if name.startswith('llvm.abs.'):
            x = it.num(st, args[0])
            if x is None:
                return [(st, Unk('abs'))]
            return [(st, self.pick(it, st, mk_ge(x), x, -x))]
        m = re.match(r'llvm\.(fabs|sqrt|floor|ceil|round|trunc|fma|fmuladd|pow|exp|log|sin|cos|maxnum|minnum|copysign|powi|log2|log10|rint|nearbyint)\.', name)
        if m:
            k = m.group(1)
            if k in ('fma', 'fmuladd'):
                x, y, z = [it.num(st, a) for a in args]
                if None in (x, y, z):
                    return [(st, Unk('fma'))]
                return [(st, x * y + z)]
            return [(st, self.mathfn(it, st, k, args))]
        if name.startswith('llvm.is.constant'):
            return [(st, False)]
        if name.startswith('llvm.expect'):
            return [(st, args[0])]
        if name.startswith('llvm.umul.with.overflow') or name.startswith('llvm.uadd.with.overflow') or name.startswith('llvm.smul.with.overflow'):
            x, y = it.num(st, args[0]), it.num(st, args[1])
            if x is None or y is None:
                return [(st, Agg([Unk('ovf'), False]))]
            p = x * y if 'mul' in name else x + y
            # new T[n]: a negative or huge count overflows; treat the overflow flag exactly when decidable
            lim = (1 << 64) - 1
            xs = it.to_unsigned(st, x, 64) if not st.facts.ge(x) else x
            p = xs * y if 'mul' in name else xs + y
            over = mk_gt(p - lim)
            return [(st, Agg([p, over]))]
        raise Unmodelled('intrinsic ' + name)

    def pick(self, it, st, c, x, y):
        if c is True or st.facts.implies(c):
            return x
        if c is False or st.facts.implies(neg(c)):
            return y
        raise Split(c)

    def memset(self, it, st, p, v, n):
        if n is None:
            raise Unmodelled('memset of untracked length')
        if n.const == 0:
            return
        o, off = it.deref(st, p, None, True)
        if o is None:
            raise Unmodelled('memset through untracked pointer')
        if o.size is not None and o.kind not in ('buf', 'node'):
            it.check(st, conj([mk_ge(off), mk_ge(P(o.size) - off - n)]), 'oob', 'memset', 'memory fill of %r bytes overruns %s' % (n, o.name))
        c = v.const if isinstance(v, Poly) else None
        k, kn = st.facts.norm(off).const, st.facts.norm(n).const
        if o.kind in ('buf', 'node'):
            raise Unmodelled('memset in container')
        ob = st.wobj(o.id)
        if c == 0 and k == 0 and o.size is not None and st.facts.eq(P(o.size), n):
            ob.cells, ob.log, ob.lazy, ob.erange = {}, (), ('zero',), None
            return
        if c is not None and k is not None and kn is not None and kn <= 4096:
            from .interp import kill_cells
            kill_cells(ob, k, kn)
            if c == 0:
                j = 0
                # zero words; partial reads of a zero cell are zero
                while j < kn:
                    w = 8 if kn - j >= 8 else 4 if kn - j >= 4 else 1
                    ob.cells[k + j] = (w, ZERO)
                    j += w
                return
            for j in range(kn):
                ob.cells[k + j] = (1, P(c - 256 if c > 127 else c))
            return
        ob.cells, ob.log, ob.lazy, ob.erange = {}, (), ('W', o.id, it.fresh()), None

    def mathfn(self, it, st, k, args):
        xs = [it.num(st, a) for a in args]
        if any(x is None for x in xs):
            return Unk('math')
        x = st.facts.norm(xs[0])
        c = x.const
        if k == 'fabs':
            if st.facts.ge(x):
                return x
            if st.facts.ge(-x):
                return -x
            raise Split(mk_ge(x))
        if k == 'sqrt':
            if c is not None and c >= 0:
                from math import isqrt
                f = Fraction(c)
                a, b = isqrt(f.numerator), isqrt(f.denominator)
                if a * a == f.numerator and b * b == f.denominator:
                    return P(Fraction(a, b))
            if 'sqrtdom' in it.opts:
                it.check(st, True if sign(st.facts, x) == 1 else mk_ge(x), 'domain', 'sqrt', 'square root of a possibly negative value')
            # sqrt(y*y) = |y|
            return poly(app('sqrt', (x,), False, 0, None))
        if k in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
            if x.is_int():
                return x
            if c is not None:
                import math
                f = Fraction(c)
                return P({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(k, lambda v: math.floor(v + Fraction(1, 2)))(f))
            if k == 'floor':
                a = app('ffloor', (x,), True)
                if a not in _axdone:
                    _axdone.add(a)
                    add_axiom(a, mk_ge(x - poly(a)))
                    add_axiom(a, mk_gt(poly(a) + 1 - x))
                return poly(a)
            if k == 'ceil':
                a = app('fceil', (x,), True)
                if a not in _axdone:
                    _axdone.add(a)
                    add_axiom(a, mk_ge(poly(a) - x))
                    add_axiom(a, mk_gt(x + 1 - poly(a)))
                return poly(a)
            return poly(app('f' + k, (x,), True))
        if k == 'pow':
            y = st.facts.norm(xs[1])
            yc = y.const
            if yc is not None and yc == int(yc) and 0 <= yc <= 8:
                r = ONE
                for _ in range(int(yc)):
                    r = r * x
                return r
            if yc is not None and yc == int(yc) and abs(yc) < 400 and x.const is not None and x.const:
                return P(Fraction(x.const) ** int(yc))
            if yc == Fraction(1, 2):
                return poly(app('sqrt', (x,), False, 0, None))
            lo = 0 if st.facts.ge(x) else None
            hi = None
            if st.facts.ge(x) and st.facts.ge(ONE, x) and st.facts.ge(y):
                hi = 1
            return poly(app('pow', (x, y), False, lo, hi))
        if k == 'exp':
            return poly(app('exp', (x,), False, 0, None))
        if k in ('log', 'log2', 'log10'):
            hi = 0 if st.facts.ge(ONE, x) else None
            lo = 0 if st.facts.ge(x, ONE) else None
            if c == 1:
                return ZERO
            # the bound depends on the state's facts: keep separate atoms
            return poly(app(k, (x, lo, hi), False, lo, hi))
        if k in ('sin', 'cos'):
            return poly(app(k, (x,), False, -1, 1))
        if k == 'nextafter':
            d = xs[0] - xs[1]
            if st.facts.eq(d, ZERO):
                return xs[1]
            up = st.facts.gt(-d)
            if not up and not st.facts.gt(d):
                raise Split(mk_eq(d) if not st.facts.ge(d) and not st.facts.ge(-d) else mk_gt(d) if st.facts.ge(d) else mk_gt(-d))
            a = poly(app('nextafter', (x, st.facts.norm(xs[1])), False))
            for cnd in ((mk_gt(a - x), mk_ge(xs[1] - a)) if up else (mk_gt(x - a), mk_ge(a - xs[1]))):
                fs = st.facts.assume(cnd)
                st.facts = fs[0] if fs else st.facts
            return a
        if k == 'maxnum':
            return self.pick(it, st, mk_ge(xs[0] - xs[1]), xs[0], xs[1])
        if k == 'minnum':
            return self.pick(it, st, mk_ge(xs[1] - xs[0]), xs[0], xs[1])
        return poly(app(k, tuple(xs), False))


class Call:
    __slots__ = ('m', 'it', 'st', 'n', 'a', 'sret', 'i', 'name')

    def __init__(self, m, it, st, n, a, sret, i, name):
        self.m, self.it, self.st, self.n, self.a, self.sret, self.i, self.name = m, it, st, n, a, sret, i, name

    def num(self, k):
        v = self.it.num(self.st, self.a[k])
        if v is None:
            raise Unmodelled('untracked number passed to ' + self.n.full)
        return v


def is_string(n):
    return n == 'std::string' or n.startswith('std::__cxx11::basic_string<') or n.startswith('std::basic_string<')


def wrapv(st, r):
    if isinstance(r, list):
        return r
    return [(st, r)]


def rec_set(old, inner, size, x):
    if not isinstance(old, Rec):
        old = Rec(())
    cells = [c for c in old.cells if not (c[0] == inner)]
    cells.append((inner, size, x))
    return Rec(cells, old.src)


def short(c, st):
    try:
        c = cond_subst(c, st.facts.sub)
    except Exception:
        pass
    return repr(c)[:300]


def short_val(v):
    return repr(v)[:300]


CLIB = {}


def clib(*names):
    def d(f):
        for n in names:
            CLIB[n] = f
        return f
    return d


# ---------------------------------------------------------------- C runtime
@clib('exit', '_exit', 'abort', '_Exit', 'quick_exit')
def c_exit(m, it, st, a, i):
    name = i.get('fn', 'exit')
    code = it.num(st, a[0]) if a else P(134)
    mode = st.flags.get('err', 'ok')
    lab = st.flags.get('errlabel', 'error exit')
    it.exits += 1
    if mode == 'forbid':
        it.oblige('reject', lab, False)
        it.report('reject', lab, st, 'a valid call is stopped by an error exit')
        return []
    ok = code is not None and name == 'exit' and st.facts.ne(code, ZERO) and (code.const is None or (code.const & 255) != 0)
    it.oblige('exitcode', lab, ok)
    if not ok:
        it.report('exitcode', lab, st, 'the program is stopped without a failing exit status (%s %r)' % (name, code))
    d = bool(st.flags.get('diag'))
    it.oblige('diagnostic', lab, d)
    if not d:
        it.report('diagnostic', lab, st, 'the program is stopped without a message on standard error')
    return []


@clib('__assert_fail')
def c_assert_fail(m, it, st, a, i):
    lab = st.flags.get('errlabel', 'error exit')
    it.exits += 1
    forbid = st.flags.get('err', 'ok') == 'forbid'
    it.oblige('reject' if forbid else 'exitcode', lab, not forbid)
    if forbid:
        it.report('reject', lab, st, 'a valid call is stopped by a failed assertion')
    return []       # a message on standard error, then SIGABRT


@clib('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t')
def c_new(m, it, st, a, i):
    n = it.num(st, a[0])
    fn = i.get('fn', '')
    oid = it.new_obj(st, 'heap', n, 'memory allocated at %s:%s' % it.where())
    st.objs[oid].key = {'_Znwm': 'new', '_Znam': 'new[]'}.get(fn, 'malloc')
    return Ptr(oid, ZERO)


@clib('calloc')
def c_calloc(m, it, st, a, i):
    x, y = it.num(st, a[0]), it.num(st, a[1])
    oid = it.new_obj(st, 'heap', x * y, 'memory allocated at %s:%s' % it.where())
    st.objs[oid].key = 'malloc'
    st.objs[oid].lazy = ('zero',)
    return Ptr(oid, ZERO)


@clib('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm')
def c_del(m, it, st, a, i):
    p = a[0]
    fn = i.get('fn', '')
    if isinstance(p, Unk):
        st.inexact('delete of untracked pointer')
        return None
    if p is UNINIT:
        it.oblige('badfree', 'uninit', False)
        it.report('badfree', 'uninit', st, 'delete of an uninitialised pointer')
        raise Kill()
    if not isinstance(p, Ptr) or p.obj is None:
        return None
    o = st.objs.get(p.obj)
    if o is None:
        it.oblige('badfree', 'dangling', False)
        it.report('badfree', 'dangling', st, 'delete of a dangling pointer')
        raise Kill()
    if o.maynull is not None and not st.facts.implies(BAtom(o.maynull, False)):
        if st.facts.implies(BAtom(o.maynull, True)):
            return None
        raise Split(BAtom(o.maynull, True))
    ok = o.alive is True
    it.oblige('doublefree', 'free', ok)
    if not ok:
        it.report('doublefree', 'free', st, 'memory is released twice (%s)' % o.name)
        raise Kill()
    if o.kind not in ('heap', 'param') or not st.facts.eq(p.off, ZERO):
        it.oblige('badfree', 'nonheap', False)
        it.report('badfree', 'nonheap', st, 'delete of memory that was not allocated with new (%s)' % o.name)
        raise Kill()
    want = {'_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', 'free': 'malloc'}[fn]
    if o.key is not None and o.key != want:
        it.oblige('badfree', 'mismatch', False)
        it.report('badfree', 'mismatch', st, 'memory from %s is released with the wrong operator' % o.key)
    if o.ro:
        it.oblige('effect', o.ro, False)
        it.report('effect', o.ro, st, 'releases %s, which must not be modified' % o.name)
    o = st.wobj(p.obj)
    o.alive = False
    return None


@clib('memcmp', 'strcmp', 'bcmp', 'strncmp')
def c_memcmp(m, it, st, a, i):
    return poly(T.sym('memcmp', True, -2 ** 31, 2 ** 31 - 1))


@clib('strlen')
def c_strlen(m, it, st, a, i):
    return m.cstr(it, st, a[0]).length()


@clib('memchr')
def c_memchr(m, it, st, a, i):
    return Unk('memchr')


@clib('memmove', 'memcpy')
def c_memcpy(m, it, st, a, i):
    it.copy_mem(st, a[0], a[1], it.num(st, a[2]))
    return a[0]


@clib('memset')
def c_memset(m, it, st, a, i):
    m.memset(it, st, a[0], a[1], it.num(st, a[2]))
    return a[0]


def _math1(k):
    def f(m, it, st, a, i):
        return m.mathfn(it, st, k, a)
    return f


for _n in ('sqrt', 'floor', 'ceil', 'round', 'trunc', 'pow', 'exp', 'log', 'sin', 'cos', 'fabs', 'log2', 'log10', 'tan', 'atan2', 'acos', 'asin', 'atan',
           'fmod', 'hypot', 'cbrt', 'tgamma', 'lgamma', 'expm1', 'log1p', 'sqrtl', 'powl', 'sqrtf', 'logl', 'expl', 'nearbyint', 'rint', 'nextafter'):
    CLIB[_n] = _math1({'sqrtl': 'sqrt', 'powl': 'pow', 'sqrtf': 'sqrt', 'logl': 'log', 'expl': 'exp'}.get(_n, _n))


@clib('abs', 'labs', 'llabs')
def c_abs(m, it, st, a, i):
    x = it.num(st, a[0])
    if x is None:
        return Unk('abs')
    return m.pick(it, st, mk_ge(x), x, -x)


@clib('isalnum', 'isalpha', 'isdigit', 'isspace', 'isxdigit', 'isupper', 'islower', 'ispunct', 'isprint', 'iscntrl', 'toupper', 'tolower')
def c_ctype(m, it, st, a, i):
    k = i.get('fn')
    x = it.num(st, a[0])
    if x is None:
        return Unk(k)
    inr = {'isdigit': [(48, 57)], 'isupper': [(65, 90)], 'islower': [(97, 122)], 'isalpha': [(65, 90), (97, 122)],
           'isalnum': [(48, 57), (65, 90), (97, 122)], 'isspace': [(9, 13), (32, 32)], 'isxdigit': [(48, 57), (65, 70), (97, 102)],
           'isprint': [(32, 126)], 'iscntrl': [(0, 31), (127, 127)], 'ispunct': [(33, 47), (58, 64), (91, 96), (123, 126)]}
    if 'ctype' in it.opts:
        it.check(st, conj([mk_ge(x + 1), mk_ge(P(255) - x)]), 'domain', 'ctype', 'character function called with a value outside unsigned char')
    if k in inr:
        return ZB(disj([conj([mk_ge(x - lo), mk_ge(P(hi) - x)]) for lo, hi in inr[k]]))
    if k == 'toupper':
        return m.pick(it, st, conj([mk_ge(x - 97), mk_ge(P(122) - x)]), x - 32, x)
    return m.pick(it, st, conj([mk_ge(x - 65), mk_ge(P(90) - x)]), x + 32, x)


@clib('time', 'clock', 'rand', 'random', 'getpid', '_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv',
      '_ZNSt13random_device9_M_getvalEv', 'gettimeofday', 'clock_gettime', 'getenv', 'pthread_self', 'drand48', 'lrand48', 'rand_r',
      '_ZNSt6chrono3_V221high_resolution_clock3nowEv')
def c_entropy(m, it, st, a, i):
    it.effects.add(('entropy', i.get('fn'), it.where()))
    if 'functional' in it.opts:
        it.oblige('functional', 'draw', False)
        s = st.copy()
        s.inexact('whether the result depends on it is decided elsewhere')
        it.report('functional', 'draw', s, 'the draw calls %s, which differs between runs' % i.get('fn'))
    if i.get('fn') in ('rand', 'random', 'rand_r', 'lrand48'):
        return poly(T.sym('entropy', True, 0, 2 ** 31 - 1))
    if i.get('fn') == 'drand48':
        return poly(T.sym('entropy', False, 0, 1))
    return poly(T.sym('entropy', True, -2 ** 63, 2 ** 63 - 1))


@clib('srand')
def c_srand(m, it, st, a, i):
    it.effects.add(('gwrite', 'rand() state', it.where()))
    return None


@clib('__cxa_guard_acquire')
def c_guard(m, it, st, a, i):
    v = it.num(st, it.load(st, a[0], 'i8', 1))
    if v is None:
        raise Unmodelled('static guard')
    return m.pick(it, st, mk_eq(v), ONE, ZERO)


@clib('__cxa_guard_release')
def c_guard_rel(m, it, st, a, i):
    it.store(st, a[0], ONE, 1, 'i8')
    return None


@clib('__cxa_atexit', '__cxa_end_catch', '__cxa_free_exception', '__cxa_guard_abort',
      *['_ZNSt%d%s%s' % (len(n), n, k) for n in ('out_of_range', 'logic_error', 'length_error', 'invalid_argument', 'runtime_error', 'domain_error',
                                                 'range_error', 'overflow_error')
        for k in ('C1EPKc', 'C2EPKc', 'C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'D1Ev', 'D2Ev')])
def c_nop(m, it, st, a, i):
    return ZERO


@clib('__cxa_begin_catch', '__cxa_allocate_exception')
def c_exc(m, it, st, a, i):
    oid = it.new_obj(st, 'exc', None, 'exception object', lazy=('exc', it.fresh()))
    return Ptr(oid, ZERO)


@clib('__cxa_throw', '__cxa_rethrow')
def c_throw(m, it, st, a, i):
    return thrown(it, st, 'exception')


@clib('__clang_call_terminate', '_ZSt9terminatev')
def c_term(m, it, st, a, i):
    return thrown(it, st, 'terminate')


def pointers_in(o):
    """ids of the objects an object's cells point to; None for contents that are not enumerated"""
    out = []

    def go(v, d):
        if isinstance(v, Ptr):
            if v.obj is not None:
                out.append(v.obj)
        elif isinstance(v, Unk):
            out.append(None)
        elif isinstance(v, (tuple, list)):
            for y in v:
                go(y, d)
        elif d < 6 and hasattr(v, 'term_children'):
            for y in v.term_children():
                go(y, d + 1)
        elif isinstance(v, Agg):
            for y in v.vs:
                go(y, d)
    for c in o.cells.values():
        go(c[1] if isinstance(c, tuple) and len(c) == 2 else c, 0)
    for l in o.log:
        go(l, 0)
    if o.owner:
        out.append(o.owner[0])
    return out


def thrown(it, st, what):
    mode = st.flags.get('err', 'ok')
    lab = st.flags.get('errlabel', 'call')
    st.flags['thrown'] = (what, it.where())
    return [(st, THROWN)]


for _n in ('_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '__cxa_throw_bad_array_new_length', '_ZSt20__throw_length_errorPKc',
           '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt25__throw_bad_function_callv',
           '_ZSt24__throw_invalid_argumentPKc', '_ZSt20__throw_out_of_range'):
    CLIB[_n] = (lambda nm: lambda m, it, st, a, i: thrown(it, st, nm))(_n)

from . import stl  # noqa: E402,F401  (registers the library models)
