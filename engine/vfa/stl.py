"""Models of the C++ standard library used by the analysed code.

Sequence containers are values in a normal form (concatenation of segments of
opaque sequences, single elements, repetitions); associative containers are an
opaque base plus an overlay of keyed updates; iterators are (container,
position) pairs.  Anything not listed here is either analysed from its own
body or makes the state inexact.
"""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .state import State, Obj
from .models import Models, model, MISS, ASSOC, SEQ, SCALAR, is_string, Call, clib, thrown, ET, rec_set
from . import bits as BITS
from .interp import THROWN, Unmodelled, hash_key, I64
from .ir import parse_name

ES = 1 << 20


# ---------------------------------------------------------------- parameters
def pars(c):
    """[(type, [ir args])] for the explicit parameters of a method call"""
    a = list(c.a[1:])
    out = []
    for t in c.n.params:
        if t.startswith('std::initializer_list<'):
            out.append((t, a[:2]))
            a = a[2:]
        else:
            out.append((t, a[:1]))
            a = a[1:]
    return out


def etof(c):
    if c.n.cls == 'std::basic_string':
        return c.m.et('char')
    return c.m.et(c.n.ctargs[0])


def strk(c):
    return c.n.cls == 'std::basic_string'


def seq(c, p, et=None):
    return c.m.sget(c.it, c.st, p, et or etof(c))


def bufp(c, p, i, et=None):
    et = et or etof(c)
    seq(c, p, et)
    b = c.m.buf(c.it, c.st, p, et, strk(c))
    return Ptr(b, i.scale(et.size))


def elem_val(c, p, et):
    """value of *p as stored in a container (copying an element)"""
    if et.ty == 'cls' and not plain(c.m, et):
        raise Unmodelled('container of %s' % et.name)
    return c.m.read_val(c.it, c.st, p, et)


def plain(m, et):
    """class whose copy is a memberwise copy the analyser tracks itself"""
    n = et.name
    if is_string(n):
        return True
    p = parse_name(n + '::x()')
    if p.cls in SEQ or p.cls in ASSOC or p.cls in ('std::pair', 'std::tuple'):
        return True
    base = re.sub(r'<.*', '', n).rsplit('::', 1)[-1]
    return not any(d.startswith(n + '::' + base + '(' + n + ' const&') or d.startswith(n + '::operator=(' + n) for d in m.mod.bydem)


def range_val(c, first, last, et):
    """sequence value denoted by an iterator range of raw/normal/list pointers"""
    it, st = c.it, c.st
    if not isinstance(first, Ptr) or not isinstance(last, Ptr):
        raise Unmodelled('iterator range')
    if first.obj != last.obj:
        raise Unmodelled('range over two objects')
    if first.obj is None:
        return EMPTYSEQ
    n = last.off - first.off
    o = st.objs.get(first.obj)
    if o is not None and o.kind == 'node':
        raise Unmodelled('range over an associative container')
    nn = it.floordiv(st, n, et.size)
    return c.m.mem_seq(it, st, first, nn, et)


def itval(c, a):
    """iterator argument: raw pointer, or pointer to an iterator object"""
    if isinstance(a, Ptr) and a.obj in c.st.objs:
        o = c.st.objs[a.obj]
        if o.kind in ('stack', 'param') and o.kind != 'buf':
            cell = o.cells.get(a.off.const if a.off.const is not None else -1)
            if cell is not None and isinstance(cell[1], Ptr):
                return cell[1]
    return a


def is_iter(t):
    return '_iterator<' in t or t.endswith('*') or 'normal_iterator' in t


def pos_arg(c, t, a):
    # list / tree / normal iterators are passed as one pointer; deque iterators by reference to a temporary
    if '_Deque_iterator' in t:
        return itval(c, a[0])
    return a[0]


def src_range(c, t, x, y, et):
    if '_Deque_iterator' in t:
        x, y = itval(c, x), itval(c, y)
    if 'istreambuf' in t or 'move_iterator' in t or 'reverse' in t:
        raise Unmodelled('range of ' + t)
    return range_val(c, x, y, et)


def store_seq(c, p, v):
    c.m.sset(c.it, c.st, p, v)


# ---------------------------------------------------------------- construction / assignment
def seq_from(c, args, et):
    """value built from constructor/assign arguments"""
    m, it, st = c.m, c.it, c.st
    args = [x for x in args if not x[0].startswith('std::allocator<') and not x[0].startswith('std::_Ios')]
    cls = c.n.cls
    s = strk(c)
    if not args:
        return EMPTYSEQ
    t, a = args[0]
    if t.startswith('std::initializer_list<'):
        return m.mem_seq(it, st, a[0], it.num(st, a[1]), et)
    bare = t.replace(' const&', '').replace('&&', '').replace('&', '')
    if parse_name(bare + '::x()').cls == cls:
        v = seq(c, a[0], et)
        if t.endswith('&&'):
            src = a[0]
            store_seq(c, src, EMPTYSEQ)
        if s and len(args) >= 2:   # substring constructor
            pos = it.num(st, args[1][1][0])
            n = it.num(st, args[2][1][0]) if len(args) > 2 else None
            return substr(c, v, pos, n)
        return v
    if s and t == 'char const*':
        if len(args) == 1:
            return m.cstr(it, st, a[0])
        if args[1][0] == 'char const*':
            return range_val(c, a[0], args[1][1][0], et)
        return m.mem_seq(it, st, a[0], it.num(st, args[1][1][0]), et)
    if len(args) == 2 and is_iter(t):
        return src_range(c, t, a[0], args[1][1][0], et)
    if t == 'unsigned long' or t == 'int' or t == 'long':
        n = it.num(st, a[0])
        if not st.facts.ge(n):
            if st.facts.gt(ZERO, n):
                return 'length_error'
            raise Split(mk_ge(n))
        if len(args) == 1:
            x = default_val(c, et)
        else:
            vt, va = args[1]
            if vt.endswith('&') or vt.endswith('&&'):
                x = elem_val(c, va[0], et)
            else:
                x = va[0] if et.ty != 'cls' else elem_val(c, va[0], et)
        return SeqVal([Rep(x, n)])
    raise Unmodelled('construct %s from %s' % (cls, [x[0] for x in args]))


def default_val(c, et):
    if et.ty == 'p':
        return NULLP
    if et.ty != 'cls':
        return ZERO
    n = et.name
    if is_string(n) or parse_name(n + '::x()').cls in SEQ:
        return Rec([(0, None, EMPTYSEQ)])
    if parse_name(n + '::x()').cls in ASSOC:
        return Rec([(0, None, MapVal(None, (), ZERO))])
    if parse_name(n + '::x()').cls == 'std::pair':
        t = c.m.members(n)
    f = c.m.mod.bydem.get('%s::%s()' % (n, n.split('<')[0].split('::')[-1]))
    if f and f in c.m.mod.raw:
        oid = c.it.new_obj(c.st, 'stack', P(et.size), 'temporary ' + n)
        outs = c.it.call_fn(c.st, f, [Ptr(oid, ZERO)])
        if len(outs) == 1 and outs[0][0] is c.st:
            return c.m.read_rec(c.it, c.st, Ptr(oid, ZERO), et)
        raise Unmodelled('default element constructor with several outcomes')
    return Rec(())


def seq_ctor(c):
    et = etof(c)
    v = seq_from(c, pars(c), et)
    if v == 'length_error':
        return thrown(c.it, c.st, 'length_error')
    store_seq(c, c.a[0], v)
    return None


def seq_assign(c):
    et = etof(c)
    ps = pars(c)
    if ps and ps[0][0].endswith('&&') and isinstance(ps[0][1][0], Ptr) and isinstance(c.a[0], Ptr) and ps[0][1][0] == c.a[0]:
        return c.a[0]
    if strk(c) and len(ps) == 1 and ps[0][0] == 'char':
        v = SeqVal([El(c.it.num(c.st, ps[0][1][0]))])
    else:
        v = seq_from(c, ps, et)
    if v == 'length_error':
        return thrown(c.it, c.st, 'length_error')
    store_seq(c, c.a[0], v)
    return c.a[0]


def seq_dtor(c):
    p = c.a[0]
    et = etof(c)
    try:
        v = seq(c, p, et)
    except Unmodelled:
        return None
    destroy_elems(c, v, et)
    return None


def destroy_elems(c, v, et):
    return None


def destroy_hook(c, et):
    return None


for _k in ('vector', 'list', 'deque', 'basic_string'):
    cls = 'std::' + _k
    Models.table[(cls, _k)] = seq_ctor
    Models.table[(cls, '~' + _k)] = seq_dtor
    Models.table[(cls, 'operator=')] = seq_assign
    Models.table[(cls, 'assign')] = seq_assign


def methods(*names, cls=('std::vector', 'std::list', 'std::deque', 'std::basic_string')):
    def d(f):
        for k in cls:
            for n in names:
                Models.table[(k, n)] = f
        return f
    return d


@methods('size', 'length')
def s_size(c):
    return seq(c, c.a[0]).length()


@methods('empty')
def s_empty(c):
    return mk_eq(seq(c, c.a[0]).length())


@methods('max_size')
def s_max(c):
    return P((1 << 62) - 1)


@methods('capacity')
def s_cap(c):
    return seq(c, c.a[0]).length()


@methods('reserve', 'shrink_to_fit', 'get_allocator', '_M_dispose')
def s_nop(c):
    return None


@methods('clear')
def s_clear(c):
    store_seq(c, c.a[0], EMPTYSEQ)
    return None


def give_iter(c, p):
    """return an iterator: directly, or through the hidden result pointer (deque)"""
    if c.sret is not None:
        c.it.store(c.st, c.sret, p, 8, 'p')
        return None
    return p


@methods('begin', 'cbegin')
def s_begin(c):
    return give_iter(c, bufp(c, c.a[0], ZERO))


@methods('end', 'cend')
def s_end(c):
    return give_iter(c, bufp(c, c.a[0], seq(c, c.a[0]).length()))


@methods('data', 'c_str')
def s_data(c):
    return bufp(c, c.a[0], ZERO)


def nonempty(c, v, what):
    c.it.check(c.st, mk_gt(v.length()), 'oob', what, '%s of a container that may be empty' % what)


@methods('front')
def s_front(c):
    v = seq(c, c.a[0])
    nonempty(c, v, 'front()')
    return bufp(c, c.a[0], ZERO)


@methods('back')
def s_back(c):
    v = seq(c, c.a[0])
    nonempty(c, v, 'back()')
    return bufp(c, c.a[0], v.length() - 1)


@methods('operator[]')
def s_index(c):
    v = seq(c, c.a[0])
    i = c.num(1)
    n = v.length()
    lim = n + 1 if strk(c) else n
    c.it.interesting.append(i)
    c.it.interesting.append(n)
    if not c.st.facts.ge(i):
        if c.st.facts.gt(ZERO, i):
            pass
    c.it.check(c.st, conj([mk_ge(i), mk_gt(lim - i)]), 'oob', 'operator[]', 'element %r of a container of %r elements' % (c.st.facts.norm(i), c.st.facts.norm(n)))
    q = bufp(c, c.a[0], i)
    if is_bits(c):
        # vector<bool>: a proxy reference, or the value itself for a const vector
        if c.n.full.endswith(' const'):
            return c.it.load(c.st, q, 'i8', 1)
        return Agg([q, ONE])
    return q


def is_bits(c):
    return c.n.cls == 'std::vector' and c.n.ctargs[0] == 'bool'


def bit_bool(c):
    q = c.it.load(c.st, c.a[0], 'p', 8)
    return c.it.load(c.st, q, 'i8', 1)


def bit_set(c):
    q = c.it.load(c.st, c.a[0], 'p', 8)
    if '_Bit_reference' in c.n.params[0]:
        v = c.it.load(c.st, c.it.load(c.st, c.a[1], 'p', 8), 'i8', 1)
    else:
        v = c.it.num(c.st, c.a[1])
    c.it.store(c.st, q, v, 1, 'i8')
    return c.a[0]


Models.table[('std::_Bit_reference', 'operator bool')] = bit_bool
Models.table[('std::_Bit_reference', 'operator=')] = bit_set


@methods('at')
def s_at(c):
    v = seq(c, c.a[0])
    i = c.num(1)
    n = v.length()
    ok = conj([mk_ge(i), mk_gt(n - i)])
    if c.st.facts.implies(ok):
        return bufp(c, c.a[0], i)
    if c.st.facts.implies(neg(ok)):
        return thrown(c.it, c.st, 'out_of_range')
    raise Split(ok)


def val_arg(c, t, a, et):
    if t.endswith('&') or t.endswith('&&'):
        return elem_val(c, a[0], et)
    if et.ty == 'cls':
        return elem_val(c, a[0], et)
    return c.it.num(c.st, a[0]) if et.ty != 'p' else a[0]


@methods('push_back')
def s_push(c):
    et = etof(c)
    v = seq(c, c.a[0])
    t, a = pars(c)[0]
    x = val_arg(c, t, a, et)
    store_seq(c, c.a[0], SeqVal(v.parts + (El(x),)))
    return None


@methods('emplace_back')
def s_emplace(c):
    et = etof(c)
    ps = pars(c)
    if len(ps) != 1 or et.ty == 'cls' and et.name not in ps[0][0]:
        raise Unmodelled('emplace_back')
    v = seq(c, c.a[0])
    t, a = ps[0]
    x = elem_conv(c, t, a, et)
    n = v.length()
    store_seq(c, c.a[0], SeqVal(v.parts + (El(x),)))
    return bufp(c, c.a[0], n)


def elem_conv(c, t, a, et):
    b = t.replace('&&', '').replace(' const&', '').replace('&', '').strip()
    if et.ty != 'cls':
        try:
            e2 = c.m.et(b)
        except Unmodelled:
            raise Unmodelled('emplace conversion')
        x = c.m.read_val(c.it, c.st, a[0], e2)
        if e2.ty == et.ty:
            return x
        raise Unmodelled('emplace conversion')
    return elem_val(c, a[0], et)


@methods('push_front', 'emplace_front', cls=('std::list', 'std::deque'))
def s_pushf(c):
    et = etof(c)
    v = seq(c, c.a[0])
    t, a = pars(c)[0]
    x = val_arg(c, t, a, et)
    store_seq(c, c.a[0], SeqVal((El(x),) + v.parts))
    return None


@methods('pop_back')
def s_pop(c):
    v = seq(c, c.a[0])
    nonempty(c, v, 'pop_back()')
    l, _ = c.m.cut(c.it, c.st, v.parts, v.length() - 1)
    store_seq(c, c.a[0], SeqVal(l))
    return None


@methods('pop_front', cls=('std::list', 'std::deque'))
def s_popf(c):
    v = seq(c, c.a[0])
    nonempty(c, v, 'pop_front()')
    _, r = c.m.cut(c.it, c.st, v.parts, ONE)
    store_seq(c, c.a[0], SeqVal(r))
    return None


def it_index(c, p, cont, et):
    """index of iterator p into container cont"""
    b = c.m.buf(c.it, c.st, cont, et, strk(c))
    if not isinstance(p, Ptr) or p.obj != b:
        if isinstance(p, Ptr) and p.obj is not None:
            c.it.oblige('iterator', 'foreign', False)
            c.it.report('iterator', 'foreign', c.st, 'an iterator of another container is used')
            raise Kill()
        raise Unmodelled('untracked iterator')
    o = c.st.objs[b]
    i, inner = c.m.idx_of(c.st, o, p.off)
    return i


@methods('insert', 'emplace')
def s_insert(c):
    et = etof(c)
    cont = c.a[0]
    v = seq(c, cont)
    ps = pars(c)
    t, a = ps[0]
    st, it = c.st, c.it
    if strk(c) and not is_iter(t):
        i = it.num(st, a[0])
        ok = conj([mk_ge(i), mk_ge(v.length() - i)])
        if not st.facts.implies(ok):
            if st.facts.implies(neg(ok)):
                return thrown(it, st, 'out_of_range')
            raise Split(ok)
        rest = ps[1:]
        if rest[0][0] == 'unsigned long':
            x = SeqVal([Rep(it.num(st, rest[1][1][0]), it.num(st, rest[0][1][0]))])
        else:
            x = seq_from(c, rest, et)
        l, r = c.m.cut(it, st, v.parts, i)
        store_seq(c, cont, SeqVal(tuple(l) + x.parts + tuple(r)))
        return cont
    i = it_index(c, pos_arg(c, t, a), cont, et)
    it.check(st, conj([mk_ge(i), mk_ge(v.length() - i)]), 'oob', 'insert', 'insert position %r in a container of %r elements' % (st.facts.norm(i), st.facts.norm(v.length())))
    rest = ps[1:]
    if len(rest) == 1 and rest[0][0].startswith('std::initializer_list<'):
        x = seq_from(c, rest, et)
    elif len(rest) == 2:
        if is_iter(rest[0][0]):
            x = src_range(c, rest[0][0], rest[0][1][0], rest[1][1][0], et)
        else:
            n = it.num(st, rest[0][1][0])
            x = SeqVal([Rep(val_arg(c, rest[1][0], rest[1][1], et), n)])
    elif len(rest) == 1:
        x = SeqVal([El(val_arg(c, rest[0][0], rest[0][1], et))])
    else:
        raise Unmodelled('insert overload')
    l, r = c.m.cut(it, st, v.parts, i)
    store_seq(c, cont, SeqVal(tuple(l) + x.parts + tuple(r)))
    return give_iter(c, bufp(c, cont, i))


@methods('erase')
def s_erase(c):
    et = etof(c)
    cont = c.a[0]
    v = seq(c, cont)
    ps = pars(c)
    st, it = c.st, c.it
    if strk(c) and not is_iter(ps[0][0]) if ps else strk(c):
        i = it.num(st, ps[0][1][0]) if ps else ZERO
        n = it.num(st, ps[1][1][0]) if len(ps) > 1 else P(-1)
        ok = conj([mk_ge(i), mk_ge(v.length() - i)])
        if not st.facts.implies(ok):
            if st.facts.implies(neg(ok)):
                return thrown(it, st, 'out_of_range')
            raise Split(ok)
        n = clamp(c, n, v.length() - i)
        l, r = c.m.cut(it, st, v.parts, i)
        _, r2 = c.m.cut(it, st, r, n)
        store_seq(c, cont, SeqVal(tuple(l) + tuple(r2)))
        return cont
    i = it_index(c, pos_arg(c, *ps[0]), cont, et)
    if len(ps) == 1:
        n = ONE
    else:
        j = it_index(c, pos_arg(c, *ps[1]), cont, et)
        n = j - i
    it.check(st, conj([mk_ge(i), mk_ge(n), mk_ge(v.length() - i - n)]), 'oob', 'erase', 'erase of %r element(s) at %r in a container of %r' % (st.facts.norm(n), st.facts.norm(i), st.facts.norm(v.length())))
    l, r = c.m.cut(it, st, v.parts, i)
    _, r2 = c.m.cut(it, st, r, n)
    store_seq(c, cont, SeqVal(tuple(l) + tuple(r2)))
    return give_iter(c, bufp(c, cont, i))


def clamp(c, n, lim):
    """min(n, lim) where n is an unsigned 64-bit count"""
    st = c.st
    if st.facts.gt(ZERO, n):
        return lim
    if not st.facts.ge(n):
        raise Split(mk_ge(n))
    if st.facts.ge(lim, n):
        return n
    if st.facts.ge(n, lim):
        return lim
    raise Split(mk_ge(lim - n))


def substr(c, v, pos, n):
    st, it = c.st, c.it
    ok = conj([mk_ge(pos), mk_ge(v.length() - pos)])
    if not st.facts.implies(ok):
        if st.facts.implies(neg(ok)):
            return 'out_of_range'
        raise Split(ok)
    n = lim if n is None and (lim := v.length() - pos) is not None else clamp(c, n, v.length() - pos)
    _, r = c.m.cut(it, st, v.parts, pos)
    mm, _ = c.m.cut(it, st, r, n)
    return SeqVal(mm)


@methods('resize')
def s_resize(c):
    et = etof(c)
    v = seq(c, c.a[0])
    ps = pars(c)
    n = c.it.num(c.st, ps[0][1][0])
    st = c.st
    if not st.facts.ge(n):
        if st.facts.gt(ZERO, n):
            return thrown(c.it, st, 'length_error')
        raise Split(mk_ge(n))
    L = v.length()
    if st.facts.ge(L, n):
        l, _ = c.m.cut(c.it, st, v.parts, n)
        store_seq(c, c.a[0], SeqVal(l))
        return None
    if not st.facts.ge(n, L):
        raise Split(mk_ge(L - n))
    x = val_arg(c, ps[1][0], ps[1][1], et) if len(ps) > 1 else default_val(c, et)
    store_seq(c, c.a[0], SeqVal(v.parts + (Rep(x, n - L),)))
    return None


@methods('swap')
def s_swap(c):
    a, b = seq(c, c.a[0]), seq(c, c.a[1])
    store_seq(c, c.a[0], b)
    store_seq(c, c.a[1], a)
    return None


@methods('sort', cls=('std::list',))
def l_sort(c):
    if len(c.a) > 1:
        raise Unmodelled('sort with comparator')
    v = seq(c, c.a[0])
    store_seq(c, c.a[0], sorted_of(c, v, etof(c)))
    return None


def sorted_of(c, v, et):
    v = c.m.norm(c.st, v)
    if len(v.parts) == 1 and isinstance(v.parts[0], Seg) and v.parts[0].base.op == 'sorted' and v.parts[0].start == ZERO and \
            v.parts[0].len == v.parts[0].base.n:
        return v
    if c.st.facts.ge(ONE, v.length()):
        return v
    return seq_app('sorted', (v,), v.length(), et)


@methods('reverse', cls=('std::list',))
def l_rev(c):
    v = seq(c, c.a[0])
    store_seq(c, c.a[0], rev_of(c, v, etof(c)))
    return None


def rev_of(c, v, et):
    out = []
    for p in reversed(v.parts):
        if isinstance(p, Seg):
            b = p.base
            if b.op == 'rev':
                # rev(B)[s:s+l] reversed = B[n-s-l : n-s]
                src = b.args[0]
                l, r = c.m.cut(c.it, c.st, src.parts, b.n - p.start - p.len)
                mm, _ = c.m.cut(c.it, c.st, r, p.len)
                out.extend(mm)
            else:
                inner = SeqVal([p])
                nb = base_app('rev', (inner,), p.len, et)
                out.append(Seg(nb, ZERO, p.len))
        else:
            out.append(p)
    return SeqVal(out)


@methods('merge', cls=('std::list',))
def l_merge(c):
    a, b = seq(c, c.a[0]), seq(c, c.a[1])
    if isinstance(c.a[0], Ptr) and c.a[0] == c.a[1]:
        return None
    if len(c.a) > 2:
        raise Unmodelled('merge with comparator')
    et = etof(c)
    a, b = c.m.norm(c.st, a), c.m.norm(c.st, b)
    if c.st.facts.eq(b.length(), ZERO):
        return None
    store_seq(c, c.a[0], seq_app('merged', (a, b), a.length() + b.length(), et))
    store_seq(c, c.a[1], EMPTYSEQ)
    return None


@methods('unique', 'remove', 'remove_if', 'splice', cls=('std::list',))
def l_other(c):
    if c.n.fn == 'splice' and len(pars(c)) == 2:
        et = etof(c)
        v, w = seq(c, c.a[0]), seq(c, c.a[2])
        i = it_index(c, c.a[1], c.a[0], et)
        l, r = c.m.cut(c.it, c.st, v.parts, i)
        store_seq(c, c.a[0], SeqVal(tuple(l) + w.parts + tuple(r)))
        store_seq(c, c.a[2], EMPTYSEQ)
        return None
    raise Unmodelled('std::list::' + c.n.fn)


# ---------------------------------------------------------------- iterators
def iter_ptr(c, this):
    p = c.it.load(c.st, this, 'p', 8)
    if not isinstance(p, Ptr) or p.obj is None or p.obj not in c.st.objs or c.st.objs[p.obj].kind not in ('buf', 'node'):
        raise Unmodelled('untracked iterator')
    return p


def iter_limits(c, p):
    """(index, size, scale) of an iterator"""
    o = c.st.objs[p.obj]
    if o.kind == 'node':
        v = map_get(c, Ptr(*o.owner))
        i, inner = c.m.idx_of(c.st, o, p.off)
        return i, v.n, ES
    v = c.m.sget(c.it, c.st, c.m.owner_ptr(o), o.et)
    i, inner = c.m.idx_of(c.st, o, p.off)
    return i, v.length(), o.esz


def iter_move(c, this, d):
    p = iter_ptr(c, this)
    i, n, sc = iter_limits(c, p)
    c.it.interesting.append(i)
    c.it.interesting.append(n)
    j = i + d
    c.it.check(c.st, conj([mk_ge(j), mk_ge(n - j)]), 'oob', 'iterator', 'iterator moved to %r in a container of %r elements' % (c.st.facts.norm(j), c.st.facts.norm(n)))
    q = Ptr(p.obj, p.off + d.scale(sc))
    c.it.store(c.st, this, q, 8, 'p')
    return p, q


def new_iter(c, q):
    if c.sret is not None:
        c.it.store(c.st, c.sret, q, 8, 'p')
        return None
    return q


ITS = ('std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator')


@methods('operator++', cls=ITS)
def i_inc(c):
    p, q = iter_move(c, c.a[0], ONE)
    return new_iter(c, p) if c.n.params else c.a[0]


@methods('operator--', cls=ITS)
def i_dec(c):
    p, q = iter_move(c, c.a[0], P(-1))
    return new_iter(c, p) if c.n.params else c.a[0]


@methods('operator+=', cls=('std::_Deque_iterator',))
def i_add(c):
    iter_move(c, c.a[0], c.num(1))
    return c.a[0]


@methods('operator-=', cls=('std::_Deque_iterator',))
def i_sub(c):
    iter_move(c, c.a[0], -c.num(1))
    return c.a[0]


@methods('operator*', 'operator->', cls=ITS)
def i_deref(c):
    p = iter_ptr(c, c.a[0])
    i, n, sc = iter_limits(c, p)
    c.it.interesting.append(i)
    c.it.interesting.append(n)
    if not (c.st.objs[p.obj].kind == 'node' and node_key(c, c.st.objs[p.obj], p.off)[2]):
        c.it.check(c.st, conj([mk_ge(i), mk_gt(n - i)]), 'oob', 'iterator', 'iterator at %r of a container of %r elements is dereferenced' % (c.st.facts.norm(i), c.st.facts.norm(n)))
    return p


@model(('std', 'advance'))
def std_advance(c):
    t = c.n.targs[0] if c.n.targs else ''
    if not any(x.split('::')[1] in t for x in ITS):
        return MISS
    d = c.num(1)
    iter_move(c, c.a[0], d)
    return None


@model(('std', 'next'), ('std', 'prev'))
def std_next(c):
    t = c.n.targs[0] if c.n.targs else ''
    if '_List_' in t or '_Rb_tree' in t:
        p = c.a[0]
        d = c.num(1)
        if c.n.fn == 'prev':
            d = -d
        i, n, sc = iter_limits(c, p)
        j = i + d
        c.it.check(c.st, conj([mk_ge(j), mk_ge(n - j)]), 'oob', 'iterator', 'iterator moved to %r in a container of %r elements' % (c.st.facts.norm(j), c.st.facts.norm(n)))
        return Ptr(p.obj, p.off + d.scale(sc))
    return MISS


@model(('std', 'distance'))
def std_distance(c):
    t = c.n.targs[0] if c.n.targs else ''
    if '_List_' in t or '_Rb_tree' in t:
        p, q = c.a[0], c.a[1]
        if p.obj != q.obj:
            raise Unmodelled('distance')
        sc = ES if '_Rb_tree' in t else c.st.objs[p.obj].esz
        return c.it.floordiv(c.st, q.off - p.off, sc)
    return MISS


# deque iterator free operators
@model(('std', 'operator-'))
def std_minus(c):
    if c.n.params and '_Deque_iterator' in c.n.params[0]:
        p, q = itval(c, c.a[0]), itval(c, c.a[1])
        if p.obj != q.obj:
            raise Unmodelled('deque iterators of two containers')
        return c.it.floordiv(c.st, p.off - q.off, c.st.objs[p.obj].esz)
    return MISS


# ---------------------------------------------------------------- order on values
def canon(c, v):
    if isinstance(v, SeqVal):
        return c.m.norm(c.st, c.st.facts.norm_any(v))
    if isinstance(v, Poly):
        return c.st.facts.norm(v)
    if hasattr(v, 'subst'):
        return c.st.facts.norm_any(v)
    return v


def seq_diff(c, a, b):
    """True: provably equal, False: provably different, None: unknown"""
    f = c.st.facts
    if a == b:
        return True
    la, lb = a.length(), b.length()
    if f.ne(la, lb):
        return False
    ca, cb = a.const_str(), b.const_str()
    if ca is not None and cb is not None:
        return ca == cb
    if f.eq(la, ZERO) and f.eq(lb, ZERO):
        return True
    # element by element / segment by segment
    xs, ys = list(a.parts), list(b.parts)
    while xs and ys:
        x, y = xs[0], ys[0]
        if x == y:
            xs.pop(0)
            ys.pop(0)
            continue
        if isinstance(x, El) and isinstance(y, El):
            if isinstance(x.v, Poly) and isinstance(y.v, Poly):
                if f.eq(x.v, y.v):
                    xs.pop(0)
                    ys.pop(0)
                    continue
                if f.ne(x.v, y.v):
                    return False
            return None
        if isinstance(x, Seg) and isinstance(y, Seg) and x.base is y.base and f.eq(x.start, y.start):
            if f.eq(x.len, y.len):
                xs.pop(0)
                ys.pop(0)
                continue
            if f.ge(x.len, y.len):
                xs[0] = Seg(x.base, x.start + y.len, x.len - y.len)
                ys.pop(0)
                continue
            if f.ge(y.len, x.len):
                ys[0] = Seg(y.base, y.start + x.len, y.len - x.len)
                xs.pop(0)
                continue
            return None
        if isinstance(x, Rep) and isinstance(y, Rep) and val_eq(c, x.v, y.v) is True and f.eq(x.len, y.len):
            xs.pop(0)
            ys.pop(0)
            continue
        return None
    rest = xs or ys
    n = ZERO
    for p in rest:
        n = n + plen(p)
    if f.eq(n, ZERO):
        return True
    if f.gt(n):
        return False
    return None


def val_eq(c, a, b):
    if a is b or a == b:
        return True
    if not isinstance(a, Poly) and c.st.facts.sub:
        a, b = c.st.facts.norm_any(a), c.st.facts.norm_any(b)
        if a == b:
            return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        if c.st.facts.eq(a, b):
            return True
        if c.st.facts.ne(a, b):
            return False
        return None
    if isinstance(a, SeqVal) and isinstance(b, SeqVal):
        return seq_diff(c, canon(c, a), canon(c, b))
    if isinstance(a, Rec) and isinstance(b, Rec) and a.src == b.src and [x[:2] for x in a.cells] == [x[:2] for x in b.cells]:
        if all(val_eq(c, x[2], y[2]) is True for x, y in zip(a.cells, b.cells)):
            return True
    if isinstance(a, MapVal) and isinstance(b, MapVal):
        return map_same(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and c.st.facts.eq(a.off, b.off):
        return True
    return None


def walk_cmp(c, u, w, differ):
    """two sequences of known elements, element by element"""
    f = c.st.facts
    if differ:
        return ONE
    chars = strk(c) or any('basic_string' in q for q in c.n.params)
    for x, y in zip(u, w):
        if f.eq(x, y):
            continue
        if not f.ne(x, y):
            raise Split(mk_eq(x - y))
        if c.n.fn in ('operator==', 'operator!='):
            return ONE
        if chars and not (f.ge(x) and f.ge(y)):
            return None
        if f.gt(x, y):
            return ONE
        if f.gt(y, x):
            return P(-1)
        raise Split(mk_gt(x - y))
    return P((len(u) > len(w)) - (len(u) < len(w)))


def cmp3(c, a, b):
    """three-way comparison as an integer term in {-1,0,1}"""
    a, b = canon(c, a), canon(c, b)
    if isinstance(a, SeqVal) and isinstance(b, SeqVal):
        d = seq_diff(c, a, b)
        if d is True:
            return ZERO
        try:
            u, w = elems(c, a), elems(c, b)
        except Unmodelled:
            u = w = None
        if u is not None and all(isinstance(e, Poly) and e.const is not None for e in u + w):
            # two constant sequences: lexicographic, characters as unsigned
            g = (lambda e: e.const & 255) if strk(c) or any('basic_string' in q for q in c.n.params) else (lambda e: e.const)
            u, w = [g(e) for e in u], [g(e) for e in w]
            return P((u > w) - (u < w))
        if u is not None and c.it.opts.get('paths') and all(isinstance(e, Poly) for e in u + w):
            t = walk_cmp(c, u, w, d is False and c.n.fn in ('operator==', 'operator!='))
            if t is not None:
                return t
        if c.st.facts.eq(a.length(), ZERO) and c.st.facts.gt(b.length()):
            return P(-1)
        if c.st.facts.eq(b.length(), ZERO) and c.st.facts.gt(a.length()):
            return ONE
    else:
        d = val_eq(c, a, b)
        if d is True:
            return ZERO
    ka, kb = repr(a), repr(b)
    sw = kb < ka
    x, y = (b, a) if sw else (a, b)
    t = poly(app('cmp3', (x, y), True, -1, 1))
    if d is False:
        for f in c.st.facts.assume(mk_ne(t)):
            c.st.facts = f
            break
    return -t if sw else t


def rel(op, t):
    return {'operator==': lambda: mk_eq(t), 'operator!=': lambda: mk_ne(t), 'operator<': lambda: mk_gt(-t), 'operator>': lambda: mk_gt(t),
            'operator<=': lambda: mk_ge(-t), 'operator>=': lambda: mk_ge(t)}[op]()


RELS = ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=')


def std_rel(c):
    ps = c.n.params
    if len(ps) != 2:
        return MISS
    vals = []
    for t, a in zip(ps, c.a):
        b = t.replace(' const&', '').replace('&', '')
        cls = parse_name(b + '::x()').cls
        if is_string(b):
            vals.append(c.m.sget(c.it, c.st, a, c.m.et('char')))
        elif t == 'char const*':
            vals.append(c.m.cstr(c.it, c.st, a))
        elif cls in SEQ or cls in ASSOC:
            vals.append(c.m.cget(c.it, c.st, a, c.m.mk_for(b)))
        else:
            return MISS
    return rel(c.n.fn, cmp3(c, vals[0], vals[1]))


for _op in RELS:
    Models.table[('std', _op)] = std_rel


def dq_rel(c):
    """deque iterator comparisons"""
    return None


_old_rel = std_rel


def std_rel2(c):
    ps = c.n.params
    if ps and '_Deque_iterator' in ps[0] and 'reverse' not in ps[0]:
        p, q = itval(c, c.a[0]), itval(c, c.a[1])
        pr = {'operator==': 'eq', 'operator!=': 'ne', 'operator<': 'ult', 'operator>': 'ugt', 'operator<=': 'ule', 'operator>=': 'uge'}[c.n.fn]
        return c.it.pcmp(c.st, pr, p, q)
    return _old_rel(c)


for _op in RELS:
    Models.table[('std', _op)] = std_rel2


# ---------------------------------------------------------------- strings
@methods('operator+=', 'append', cls=('std::basic_string',))
def str_append(c):
    et = etof(c)
    v = seq(c, c.a[0])
    ps = pars(c)
    if ps[0][0] == 'char':
        x = SeqVal([El(c.it.num(c.st, ps[0][1][0]))])
    elif ps[0][0] == 'unsigned long':
        x = SeqVal([Rep(c.it.num(c.st, ps[1][1][0]), c.it.num(c.st, ps[0][1][0]))])
    else:
        x = seq_from(c, ps, et)
    if isinstance(x, str):
        return thrown(c.it, c.st, x)
    store_seq(c, c.a[0], SeqVal(v.parts + x.parts))
    return c.a[0]


@methods('substr', cls=('std::basic_string',))
def str_substr(c):
    v = seq(c, c.a[0])
    r = substr(c, v, c.num(1), c.num(2))
    if isinstance(r, str):
        return thrown(c.it, c.st, r)
    store_seq(c, c.sret, r)
    return None


@methods('compare', cls=('std::basic_string',))
def str_compare(c):
    ps = pars(c)
    a = seq(c, c.a[0])
    if len(ps) >= 3 and ps[0][0] == ps[1][0] == 'unsigned long':   # a part of this text
        a = substr(c, a, c.it.num(c.st, ps[0][1][0]), c.it.num(c.st, ps[1][1][0]))
        if isinstance(a, str):
            return thrown(c.it, c.st, a)
        ps = ps[2:]
    b = seq_from(c, ps, etof(c))
    if isinstance(b, str):
        return thrown(c.it, c.st, b)
    return cmp3(c, a, b)


@methods('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', cls=('std::basic_string',))
def str_find(c):
    v = canon(c, seq(c, c.a[0]))
    ps = pars(c)
    if ps[0][0] == 'char':
        x = c.st.facts.norm(c.num(1))
        w = SeqVal([El(x)])
    elif ps[0][0] == 'char const*':
        w = c.m.cstr(c.it, c.st, c.a[1])
    else:
        w = canon(c, seq(c, c.a[1]))
    pos = c.num(2)
    hi = None
    if c.n.fn == 'find' and pos.const == 0 and len(w.parts) == 1 and isinstance(w.parts[0], El) and isinstance(w.parts[0].v, Poly) and \
            v.parts and all(isinstance(e, El) and isinstance(e.v, Poly) and e.v.const is not None for e in v.parts):
        return find_const(c, [e.v.const for e in v.parts], c.st.facts.norm(w.parts[0].v))
    i = app('find', (c.n.fn, v, w, c.st.facts.norm(pos)), True, -1, None)
    pi = poly(i)
    # npos (-1) or a position inside the string
    if c.n.fn == 'find':
        g = conj([mk_ge(pi - pos), mk_ge(v.length() - w.length() - pi)])
    else:
        g = mk_ge(v.length() - pi)
    found = conj([mk_ge(pi), g])
    if c.st.facts.implies(found) or c.st.facts.implies(mk_eq(pi + 1)):
        return pi
    if c.st.facts.implies(mk_ge(pi)):
        fs = c.st.facts.assume(found)
        if not fs:
            raise Kill()
        c.st.facts = fs[0]
        return pi
    raise Split(mk_ge(pi))


def find_const(c, vals, x):
    """position of the character x in a constant text, -1 if absent"""
    f = c.st.facts
    if x.const is not None:
        return P(vals.index(x.const) if x.const in vals else -1)
    a = x.single()
    if a is not None and a.op == 'tab' and x == poly(a):
        lo, s, i = a.args
        if all(vals.index(v) == lo + j if v in vals else False for j, v in enumerate(s)):
            return i
    x = BITS.resolve(c.st, x, Split)
    f = c.st.facts
    first = {}
    for j, v in enumerate(vals):
        first.setdefault(v, j)
    ks = sorted(first)
    # maximal pieces of consecutive characters at consecutive positions, and the gaps between
    rs = []
    for k in ks:
        if rs and k == rs[-1][1] + 1 and first[k] - k == rs[-1][2]:
            rs[-1] = (rs[-1][0], k, rs[-1][2])
        else:
            rs.append((k, k, first[k] - k))
    for lo, hi, d in rs:
        if f.ge(x, P(lo)) and f.ge(P(hi), x):
            return x + d
        if not (f.gt(P(lo), x) or f.gt(x, P(hi))):
            # a gap below
            if not f.ge(x, P(lo)):
                raise Split(mk_ge(x - lo))
            raise Split(mk_ge(P(hi) - x))
    return P(-1)


def elems(c, v):
    """the elements of a sequence of known length"""
    out = []
    for e in canon(c, v).parts:
        if isinstance(e, El):
            out.append(e.v)
        elif isinstance(e, Rep) and c.st.facts.norm(e.len).const is not None:
            out += [e.v] * int(c.st.facts.norm(e.len).const)
        else:
            raise Unmodelled('sequence of unknown length')
    return out


def bitset_n(c):
    return int(re.match(r'\d+', c.n.ctargs[0]).group(0))


def bitset_ctor(c):
    if not c.n.params or 'basic_string' not in c.n.params[0]:
        return MISS
    n = bitset_n(c)
    pos = c.num(2) if len(c.a) > 2 else ZERO
    cnt = P(n)
    v = substr(c, seq(c, c.a[1], c.m.et('char')), pos, cnt)
    if isinstance(v, str):
        return thrown(c.it, c.st, v)
    xs = elems(c, v)
    r = ZERO
    for x in xs:
        if not c.st.facts.in_range(x, 48, 49):
            if c.st.facts.gt(x, P(49)) or c.st.facts.gt(P(48), x):
                return thrown(c.it, c.st, 'invalid_argument')
            raise Split(conj([mk_ge(x - 48), mk_ge(P(49) - x)]))
        r = r + r + (x - 48)
    c.it.store(c.st, c.a[0], r, 8, 'i64')
    return None


def bitset_text(c):
    n = bitset_n(c)
    x = c.it.num(c.st, c.it.load(c.st, c.a[0], 'i64', 8))
    s = BITS.slots(x, n, c.st.facts)
    if s is None:
        q = [c.it.floordiv(c.st, x, 1 << k) for k in range(n + 1)]
        s = [q[k] - q[k + 1] - q[k + 1] for k in range(n)]
    store_seq(c, c.sret, SeqVal([El(P(48) + b) for b in reversed(s)]))
    return None


Models.table[('std::bitset', 'bitset')] = bitset_ctor
Models.table[('std::bitset', 'to_string')] = bitset_text


@methods('_M_replace_aux', '_M_replace', 'replace', 'copy', cls=('std::basic_string',))
def str_un(c):
    raise Unmodelled('string::' + c.n.fn)


@model(('std', 'operator+'))
def std_plus(c):
    ps = c.n.params
    if not any('basic_string' in p for p in ps):
        return MISS
    out = ()
    for t, a in zip(ps, c.a):
        if t == 'char const*':
            out += c.m.cstr(c.it, c.st, a).parts
        elif t == 'char':
            out += (El(c.it.num(c.st, a)),)
        else:
            out += c.m.sget(c.it, c.st, a, c.m.et('char')).parts
    store_seq(c, c.sret, SeqVal(out))
    return None


def small_text(c, x):
    """decimal digits of a small integer"""
    f = c.st.facts
    pre = []
    if f.gt(ZERO, x):
        pre, x = [El(P(45))], -x
    elif not f.ge(x):
        raise Split(mk_ge(x))
    for n in (10, 100):
        if f.gt(P(n), x):
            break
        if not f.ge(x, P(n)):
            raise Split(mk_ge(x - n))
        n = 1000
    q, ds = x, []
    while n > 1:
        h = c.it.floordiv(c.st, q, 10)
        ds.append(El(P(48) + q - h.scale(10)))
        q = h
        n //= 10
    return SeqVal(pre + ds[::-1])


@model(('std', 'to_string'))
def std_to_string(c):
    t = c.n.params[0]
    x = c.st.facts.norm(c.num(0))
    if t not in ('double', 'float'):
        store_seq(c, c.sret, num_text(c, t, x))
        return None
    b = base_app('to_string', (t, x), poly(app('len_ts', (t, x), True, 1, 330)), c.m.et('char'))
    store_seq(c, c.sret, SeqVal([Seg(b, ZERO, b.n)]))
    return None


for _n in ('stoi', 'stol', 'stod', 'stoul', 'stoll', 'stoull', 'stof'):
    def _sto(c):
        v = canon(c, c.m.sget(c.it, c.st, c.a[0], c.m.et('char')))
        fl = c.n.fn in ('stod', 'stof')
        t = {'stoi': 'int', 'stol': 'long', 'stoll': 'long', 'stod': 'double', 'stof': 'float'}.get(c.n.fn)
        if t and isinstance(c.a[1], Ptr) and c.a[1].obj is None and (fl or c.num(2).const == 10):
            try:
                xs = elems(c, v)
            except Unmodelled:
                xs = None
            if xs is not None:
                x = read_number(c, xs, t, True)
                return thrown(c.it, c.st, x) if isinstance(x, str) else x
        a = app(c.n.fn, (v,), not fl, *(() if fl else ((-2 ** 31, 2 ** 31 - 1) if c.n.fn == 'stoi' else (-2 ** 63, 2 ** 63 - 1))))
        ok = BAtom(app(c.n.fn + '_ok', (v,)))
        if c.st.facts.implies(ok):
            return poly(a)
        if c.st.facts.implies(neg(ok)):
            return thrown(c.it, c.st, 'invalid_argument')
        raise Split(ok)
    Models.table[('std', _n)] = _sto


# ---------------------------------------------------------------- associative containers
def is_multi(cls):
    return 'multi' in cls


def has_val(cls):
    return cls.endswith('map')


def map_mk(m):
    def mk(tag):
        b = base_app('mapb', (tag,))
        return MapVal(b, (), b.n)
    return mk


def map_get(c, p):
    v = c.m.cget(c.it, c.st, p, map_mk(c.m))
    if not isinstance(v, MapVal):
        raise Unmodelled('not a map value')
    return v


def map_set(c, p, v):
    c.m.cset(c.it, c.st, p, v)


def ktypes(c):
    k = c.m.et(c.n.ctargs[0])
    v = c.m.et(c.n.ctargs[1]) if has_val(c.n.cls) else None
    return k, v


def as_key(c, p, et):
    v = c.m.read_val(c.it, c.st, p, et)
    return key_norm(c, v)


def key_norm(c, v):
    if isinstance(v, Rec) and len(v.cells) == 1 and v.cells[0][0] == 0 and isinstance(v.cells[0][2], SeqVal):
        return canon(c, v.cells[0][2])
    if isinstance(v, Poly):
        return c.st.facts.norm(v)
    if isinstance(v, Rec) and v.src is not None and not v.cells:
        return v
    return v


def key_val(k, et):
    """stored form of a key"""
    if isinstance(k, SeqVal) and et.ty == 'cls':
        return Rec([(0, None, k)])
    return k


def key_eq(c, a, b):
    e = val_eq(c, a, b)
    if e is not None:
        return e
    if isinstance(a, Poly) and isinstance(b, Poly):
        raise Split(mk_eq(a - b))
    t = cmp3(c, a, b)
    cond = mk_eq(t)
    if c.st.facts.implies(cond):
        return True
    if c.st.facts.implies(neg(cond)):
        return False
    raise Split(cond)


def is_kat(k):
    """position-derived key atoms"""
    if isinstance(k, Poly):
        a = k.single()
        return a if a is not None and a.op == 'mkat' else None
    if isinstance(k, SeqVal) and len(k.parts) == 1 and isinstance(k.parts[0], Seg) and k.parts[0].base.op == 'mkat':
        return k.parts[0].base
    if isinstance(k, Rec) and k.src and k.src[0] == 'mkat':
        class X:
            pass
        x = X()
        x.args = k.src[1:]
        return x
    return None


def lookup(c, mv, k, multi=False):
    """unique containers: (present, value or None); value None means ask base"""
    a = is_kat(k)
    for key, pres, val in reversed(mv.ov):
        if key_eq(c, k, key):
            return pres, val
    if mv.base is None:
        return False, None
    if a is not None and isinstance(a.args[0], MapVal) and a.args[0].base is mv.base:
        return True, None
    b = BAtom(app('mhas', (mv.base, k)))
    f = c.st.facts
    if f.implies(b):
        return True, None
    if f.implies(neg(b)):
        return False, None
    if not mv.ov and f.eq(mv.n, ZERO):
        fs = f.assume(neg(b))
        c.st.facts = fs[0]
        return False, None
    raise Split(b)


def base_val(c, base, k, et):
    return typed_sym(c, 'mval', (base, k), et)


def typed_sym(c, op, args, et):
    if et.ty == 'cls':
        if is_string(et.name) or parse_name(et.name + '::x()').cls in SEQ:
            b = base_app(op, args, None, c.m.et('char') if is_string(et.name) else c.m.et(parse_name(et.name + '::x()').ctargs[0]))
            return Rec([(0, None, SeqVal([Seg(b, ZERO, b.n)]))])
        return Rec((), (op,) + tuple(args))
    if et.ty == 'p':
        return ('lazyptr', op) + tuple(args)
    if et.ty[0] == 'f':
        return poly(app(op, args, False))
    bb = 8 * et.size
    return poly(app(op, args, True, -(1 << (bb - 1)), (1 << (bb - 1)) - 1))


def ov_set(c, mv, k, pres, val, dn):
    ov = tuple(o for o in mv.ov if not (o[0] == k or val_eq(c, o[0], k) is True))
    return MapVal(mv.base, ov + ((k, pres, val),), c.st.facts.norm(mv.n + dn))


def nonneg_n(c, mv, least):
    fs = c.st.facts.assume(mk_ge(mv.n - least))
    if not fs:
        raise Kill()
    c.st.facts = fs[0]


def node_obj(c, p):
    """object standing for the nodes of the associative container at p"""
    off = c.st.facts.norm(p.off)
    oid = 'n:%s:%s' % (p.obj, hash_key(('off', off)))
    if oid not in c.st.objs:
        k, v = ktypes(c)
        o = Obj(oid, 'node', None, 'entries of ' + c.st.objs[p.obj].name)
        o.owner = (p.obj, off)
        o.esz = ES
        voff = None
        if v is not None:
            t = c.m.members('std::pair<%s const, %s>' % (c.n.ctargs[0], c.n.ctargs[1]))
            voff = None
            if t:
                for nm, mo, ms, mt in t['m']:
                    if nm == 'second':
                        voff = mo
            if voff is None:
                al = v.size if v.ty != 'cls' else 8
                al = min(al, 8)
                voff = (k.size + al - 1) // al * al
        o.et = (k, v, voff, is_multi(c.n.cls))
        c.st.objs[oid] = o
    return oid


def mpos(c, mv, k):
    a = app('mpos', (mv, k), True, 0, None)
    fs = c.st.facts.assume(mk_ge(mv.n - poly(a) - 1))
    if not fs:
        raise Kill()
    c.st.facts = fs[0]
    return poly(a)


def map_end(c, p):
    mv = map_get(c, p)
    return Ptr(node_obj(c, p), mv.n.scale(ES))


@methods('map', 'set', 'multimap', 'multiset', cls=tuple(ASSOC))
def m_ctor(c):
    map_init(c)
    return None


def map_init(c):
    ps = [x for x in pars(c) if not x[0].startswith('std::allocator<') and not x[0].startswith('std::less<')]
    p = c.a[0]
    if not ps:
        map_set(c, p, MapVal(None, (), ZERO))
        return
    t, a = ps[0]
    if t.startswith('std::initializer_list<'):
        n = c.it.num(c.st, a[1])
        if c.st.facts.norm(n).const is None:
            raise Unmodelled('initializer list of unknown length')
        key = ('mapinit', p.obj)
        mv = MapVal(None, (), ZERO)
        for j in range(int(c.st.facts.norm(n).const)):
            mv = insert_from(c, mv, a[0], j)
        map_set(c, p, mv)
        return
    b = t.replace(' const&', '').replace('&&', '').replace('&', '')
    if parse_name(b + '::x()').cls == c.n.cls:
        mv = map_get(c, a[0])
        if t.endswith('&&') and a[0] != p:
            map_set(c, a[0], MapVal(None, (), ZERO))
        map_set(c, p, mv)
        return
    if '_Rb_tree' in t and len(ps) > 1:
        x, y = a[0], ps[1][1][0]
        o = c.st.objs.get(x.obj) if isinstance(x, Ptr) else None
        if o is not None and o.kind == 'node' and isinstance(y, Ptr) and x.obj == y.obj:
            f = c.st.facts
            mv = map_get(c, Ptr(o.owner[0], o.owner[1]))
            if f.eq(x.off, y.off):
                map_set(c, p, MapVal(None, (), ZERO))
                return
            if f.eq(x.off, ZERO) and f.eq(y.off, mv.n.scale(ES)):
                map_set(c, p, mv)
                return
    if t.endswith('*') and len(ps) > 1 and isinstance(a[0], Ptr) and isinstance(ps[1][1][0], Ptr) and a[0].obj == ps[1][1][0].obj:
        x, y = a[0], ps[1][1][0]
        k, v = ktypes(c)
        sz = k.size if v is None else c.m.members('std::pair<%s const, %s>' % (c.n.ctargs[0], c.n.ctargs[1]))['size']
        n = c.st.facts.norm(c.it.floordiv(c.st, y.off - x.off, sz)).const
        if n is not None and 0 <= n <= 8:
            mv = MapVal(None, (), ZERO)
            for j in range(int(n)):
                mv = insert_from(c, mv, x, j)
            map_set(c, p, mv)
            return
    raise Unmodelled('construct %s from %s' % (c.n.cls, t))


def insert_from(c, mv, arr, j):
    k, v = ktypes(c)
    if v is None:
        p = Ptr(arr.obj, arr.off + j * k.size)
        return map_insert(c, mv, as_key(c, p, k), None)[0]
    pt = c.m.members('std::pair<%s const, %s>' % (c.n.ctargs[0], c.n.ctargs[1]))
    if not pt:
        raise Unmodelled('pair layout')
    voff = [x for x in pt['m'] if x[0] == 'second'][0][1]
    p = Ptr(arr.obj, arr.off + j * pt['size'])
    return map_insert(c, mv, as_key(c, p, k), elem_val(c, Ptr(p.obj, p.off + voff), v))[0]


def multi_get(c, mv, k, hv=None, vt=None):
    """multi containers: count (multiset) or sequence of values (multimap)"""
    for key, pres, val in reversed(mv.ov):
        if key_eq(c, k, key):
            return val
    if hv is None:
        hv = has_val(c.n.cls)
    if mv.base is None:
        return EMPTYSEQ if hv else ZERO
    if hv:
        b = base_app('mmvals', (mv.base, k), None, vt or ktypes(c)[1])
        v = SeqVal([Seg(b, ZERO, b.n)])
        cnt = b.n
    else:
        cnt = v = poly(app('mcnt', (mv.base, k), True, 0, SIZE_MAX))
    if not mv.ov:
        a = is_kat(k)
        fs = c.st.facts.assume(mk_ge(mv.n - cnt))
        if fs and a is not None and a.args[0] == mv:
            fs = fs[0].assume(mk_ge(cnt - 1))     # the key of an entry of this very map
        if fs:
            c.st.facts = fs[0]
    return v


def map_insert(c, mv, k, val):
    """(new map, inserted)"""
    if is_multi(c.n.cls):
        old = multi_get(c, mv, k)
        if has_val(c.n.cls):
            return ov_set(c, mv, k, True, SeqVal(old.parts + (El(val),)), 1), True
        return ov_set(c, mv, k, True, old + 1, 1), True
    has, _ = lookup(c, mv, k)
    if has:
        nonneg_n(c, mv, 1)
        return mv, False
    return ov_set(c, mv, k, True, val if val is not None else None, 1), True


@methods('operator=', cls=tuple(ASSOC))
def m_assign(c):
    if c.a[0] == c.a[1]:
        return c.a[0]
    map_init(c)
    return c.a[0]


@methods('~map', '~set', '~multimap', '~multiset', cls=tuple(ASSOC))
def m_dtor(c):
    return None


@methods('size', cls=tuple(ASSOC))
def m_size(c):
    return map_get(c, c.a[0]).n


@methods('empty', cls=tuple(ASSOC))
def m_empty(c):
    return mk_eq(map_get(c, c.a[0]).n)


@methods('clear', cls=tuple(ASSOC))
def m_clear(c):
    map_set(c, c.a[0], MapVal(None, (), ZERO))
    return None


@methods('begin', 'cbegin', cls=tuple(ASSOC))
def m_begin(c):
    map_get(c, c.a[0])
    return Ptr(node_obj(c, c.a[0]), ZERO)


@methods('end', 'cend', cls=tuple(ASSOC))
def m_end(c):
    return map_end(c, c.a[0])


def present(c, mv, k):
    if is_multi(c.n.cls):
        v = multi_get(c, mv, k)
        n = v.length() if isinstance(v, SeqVal) else v
        if c.st.facts.gt(n):
            return True
        if c.st.facts.eq(n, ZERO):
            return False
        raise Split(mk_gt(n))
    return lookup(c, mv, k)[0]


@methods('find', cls=tuple(ASSOC))
def m_find(c):
    mv = map_get(c, c.a[0])
    k = as_key(c, c.a[1], ktypes(c)[0])
    if not present(c, mv, k):
        return map_end(c, c.a[0])
    return Ptr(node_obj(c, c.a[0]), mpos(c, mv, k).scale(ES))


@methods('count', cls=tuple(ASSOC))
def m_count(c):
    mv = map_get(c, c.a[0])
    k = as_key(c, c.a[1], ktypes(c)[0])
    if is_multi(c.n.cls):
        v = multi_get(c, mv, k)
        return v.length() if isinstance(v, SeqVal) else v
    return ONE if lookup(c, mv, k)[0] else ZERO


@methods('operator[]', cls=('std::map', 'std::unordered_map'))
def m_index(c):
    p = c.a[0]
    mv = map_get(c, p)
    kt, vt = ktypes(c)
    k = as_key(c, c.a[1], kt)
    has, _ = lookup(c, mv, k)
    if not has:
        mv = ov_set(c, mv, k, True, default_val(c, vt), 1)
        map_set(c, p, mv)
    o = node_obj(c, p)
    return Ptr(o, mpos(c, mv, k).scale(ES) + c.st.objs[o].et[2])


@methods('at', cls=('std::map', 'std::unordered_map'))
def m_at(c):
    p = c.a[0]
    mv = map_get(c, p)
    kt, vt = ktypes(c)
    k = as_key(c, c.a[1], kt)
    has, _ = lookup(c, mv, k)
    if not has:
        return thrown(c.it, c.st, 'out_of_range')
    o = node_obj(c, p)
    return Ptr(o, mpos(c, mv, k).scale(ES) + c.st.objs[o].et[2])


def ins_ret(c, p, mv, k, ins):
    q = Ptr(node_obj(c, p), mpos(c, mv, k).scale(ES))
    if is_multi(c.n.cls):
        return q
    return Agg([q, ZB(ins)])


@methods('insert', 'emplace', cls=tuple(ASSOC))
def m_insert(c):
    p = c.a[0]
    mv = map_get(c, p)
    kt, vt = ktypes(c)
    ps = pars(c)
    if len(ps) == 1 and ps[0][0].startswith('std::initializer_list<'):
        n = c.st.facts.norm(c.it.num(c.st, ps[0][1][1]))
        if n.const is None:
            raise Unmodelled('insert of a list of unknown length')
        for j in range(int(n.const)):
            mv = insert_from(c, mv, ps[0][1][0], j)
        map_set(c, p, mv)
        return None
    if len(ps) == 2 and is_iter(ps[0][0]) and not ps[1][0].endswith('&') or len(ps) == 2 and is_iter(ps[0][0]) and is_iter(ps[1][0]):
        raise Unmodelled('range insert')
    hint = False
    if len(ps) == 2 and is_iter(ps[0][0]):
        ps = ps[1:]
        hint = True
    if len(ps) == 1:
        t, a = ps[0]
        if vt is None:
            k, val = as_key(c, a[0], kt), None
        else:
            b = t.replace(' const&', '').replace('&&', '').replace('&', '')
            tm = c.m.members(b)
            if not tm or not b.startswith('std::pair<'):
                raise Unmodelled('insert of ' + t)
            fo = {x[0]: x for x in tm['m']}
            ta = parse_name(b + '::x()').ctargs
            k = as_key(c, Ptr(a[0].obj, a[0].off + fo['first'][1]), c.m.et(ta[0].replace('&', '').strip())) if not ta[0].endswith('&') else \
                as_key(c, c.it.load(c.st, Ptr(a[0].obj, a[0].off + fo['first'][1]), 'p', 8), kt)
            vp = Ptr(a[0].obj, a[0].off + fo['second'][1])
            if ta[1].endswith('&'):
                vp = c.it.load(c.st, vp, 'p', 8)
                e2 = vt
            else:
                e2 = c.m.et(ta[1])
            val = conv_val(c, c.m.read_val(c.it, c.st, vp, e2), e2, vt)
    elif len(ps) == 2 and c.n.fn == 'emplace' and vt is not None:
        k = as_key(c, ps[0][1][0], kt)
        val = elem_val(c, ps[1][1][0], vt)
    else:
        raise Unmodelled('insert overload')
    mv2, ins = map_insert(c, mv, k, val)
    if ins:
        map_set(c, p, mv2)
    if hint:
        return Ptr(node_obj(c, p), mpos(c, mv2, k).scale(ES))
    return ins_ret(c, p, mv2, k, ins)


def conv_val(c, v, e1, e2):
    if e1.ty == e2.ty:
        return v
    if e2.ty[0] == 'f' and e1.ty[0] == 'i' and isinstance(v, Poly):
        return v
    raise Unmodelled('conversion of a mapped value')


def node_key(c, o, off):
    """(key, MapVal, present?) for a node pointer"""
    mv = map_get(c, Ptr(*o.owner))
    i, inner = c.m.idx_of(c.st, o, off)
    a = i.single()
    if a is not None and a.op == 'mpos':
        return a.args[1], mv, True
    e = equal_entry(c, o, mv, i)
    if e is not None:
        return e[0], mv, True
    kt = o.et[0]
    k = key_norm(c, typed_sym(c, 'mkat', (mv, i), kt))
    if a is not None and a.op == 'mlow' and a.args[0] == mv and not o.et[3]:
        # first entry not before an absent key: strictly after it
        q = a.args[1]
        if isinstance(k, Poly) and isinstance(q, Poly):
            cond = mk_gt(k - q)
        else:
            cond = mk_gt(cmp3(c, k, q))
        if not c.st.facts.implies(cond):
            fs = c.st.facts.assume(cond)
            if not fs:
                raise Kill()
            c.st.facts = fs[0]
    return k, mv, False


def equal_entry(c, o, mv, i):
    """(key, values of the key, offset) of entry i of a multi container, when i lies in the range of one key"""
    if not o.et[3]:
        return None
    ks = [m[0][0].args[1] for m in i.monos() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'mlow' and m[0][0].args[0] == mv]
    for k in ks or [x[0] for x in mv.ov]:
        j = c.st.facts.norm(i - poly(app('mlow', (mv, k), True, 0, None)))
        if j.const is None and not ks:
            continue
        v = multi_get(c, mv, k, o.et[1] is not None, o.et[1])
        n = v.length() if isinstance(v, SeqVal) else v
        if c.st.facts.ge(j, ZERO) and c.st.facts.gt(n, j):
            return k, v, j
    return None


def erase_range(c, p, mv, f, l):
    """entries between two positions: all of one key, or all of the container"""
    pos = []
    for q in (f, l):
        if not isinstance(q, Ptr) or q.obj not in c.st.objs or c.st.objs[q.obj].kind != 'node' or Ptr(*c.st.objs[q.obj].owner) != p:
            raise Unmodelled('range erase')
        pos.append(c.st.facts.norm(c.m.idx_of(c.st, c.st.objs[q.obj], q.off)[0]))
    lo, hi = pos
    if c.st.facts.norm(hi - lo).const == 0:
        return l
    if lo.const == 0 and c.st.facts.norm(hi - mv.n).const == 0:
        map_set(c, p, MapVal(None, (), ZERO))
        return Unk('iterator after erase')
    a = lo.single()
    if a is None or a.op != 'mlow' or a.args[0] != mv:
        raise Unmodelled('range erase')
    k = a.args[1]
    if is_multi(c.n.cls):
        old = multi_get(c, mv, k)
        n = old.length() if isinstance(old, SeqVal) else old
    else:
        n = ONE if lookup(c, mv, k)[0] else ZERO
    if c.st.facts.norm(hi - lo - n).const != 0:
        raise Unmodelled('range erase')
    if is_multi(c.n.cls):
        map_set(c, p, ov_set(c, mv, k, True, EMPTYSEQ if has_val(c.n.cls) else ZERO, -n))
    elif n.const == 1:
        map_set(c, p, ov_set(c, mv, k, False, None, -1))
    return Unk('iterator after erase')


@methods('erase', cls=tuple(ASSOC))
def m_erase(c):
    p = c.a[0]
    mv = map_get(c, p)
    ps = pars(c)
    kt, vt = ktypes(c)
    t, a = ps[0]
    if '_Rb_tree' in t and '_iterator<' in t:
        if len(ps) > 1:
            return erase_range(c, p, mv, a[0], ps[1][1][0])
        q = a[0]
        if not isinstance(q, Ptr) or q.obj not in c.st.objs or c.st.objs[q.obj].kind != 'node':
            raise Unmodelled('erase of an untracked iterator')
        o = c.st.objs[q.obj]
        k, _, known = node_key(c, o, q.off)
        i, _n = c.m.idx_of(c.st, o, q.off)
        if not known:
            c.it.check(c.st, conj([mk_ge(i), mk_gt(mv.n - i)]), 'oob', 'erase', 'erase at position %r of a container of %r elements' % (c.st.facts.norm(i), mv.n))
        if is_multi(c.n.cls):
            if not known:
                raise Unmodelled('positional erase in a multi container')
            old = multi_get(c, mv, k)
            if isinstance(old, SeqVal):
                _, r = c.m.cut(c.it, c.st, old.parts, ONE)
                map_set(c, p, ov_set(c, mv, k, True, SeqVal(r), -1))
            else:
                map_set(c, p, ov_set(c, mv, k, True, old - 1, -1))
        else:
            if known and not lookup(c, mv, k)[0]:
                c.it.oblige('uaf', 'iterator', False)
                c.it.report('uaf', 'iterator', c.st, 'erase through an iterator to a removed element')
                raise Kill()
            map_set(c, p, ov_set(c, mv, k, False, None, -1))
        return Unk('iterator after erase')
    k = as_key(c, a[0], kt)
    if is_multi(c.n.cls):
        old = multi_get(c, mv, k)
        n = old.length() if isinstance(old, SeqVal) else old
        fs = c.st.facts.assume(mk_ge(mv.n - n))
        if fs:
            c.st.facts = fs[0]
        map_set(c, p, ov_set(c, mv, k, True, EMPTYSEQ if has_val(c.n.cls) else ZERO, -n))
        return n
    has, _ = lookup(c, mv, k)
    if not has:
        return ZERO
    nonneg_n(c, mv, 1)
    map_set(c, p, ov_set(c, mv, k, False, None, -1))
    return ONE


@methods('swap', cls=tuple(ASSOC))
def m_swap(c):
    a, b = map_get(c, c.a[0]), map_get(c, c.a[1])
    map_set(c, c.a[0], b)
    map_set(c, c.a[1], a)
    return None


@methods('equal_range', cls=tuple(ASSOC))
def m_eqr(c):
    mv = map_get(c, c.a[0])
    k = as_key(c, c.a[1], ktypes(c)[0])
    o = node_obj(c, c.a[0])
    if is_multi(c.n.cls):
        v = multi_get(c, mv, k)
        n = v.length() if isinstance(v, SeqVal) else v
    else:
        n = ONE if lookup(c, mv, k)[0] else ZERO
    i = poly(app('mlow', (mv, k), True, 0, None))
    fs = c.st.facts.assume(mk_ge(mv.n - i - n))
    if not fs:
        raise Kill()
    c.st.facts = fs[0]
    return Agg([Ptr(o, i.scale(ES)), Ptr(o, (i + n).scale(ES))])


@methods('lower_bound', 'upper_bound', cls=tuple(ASSOC))
def m_lb(c):
    mv = map_get(c, c.a[0])
    k = as_key(c, c.a[1], ktypes(c)[0])
    o = node_obj(c, c.a[0])
    low = c.n.fn == 'lower_bound'
    if not is_multi(c.n.cls):
        if lookup(c, mv, k)[0]:
            return Ptr(o, (mpos(c, mv, k) + (0 if low else 1)).scale(ES))
        low = True
    n = ZERO
    if is_multi(c.n.cls):
        v = multi_get(c, mv, k)
        n = v.length() if isinstance(v, SeqVal) else v
    i = poly(app('mlow', (mv, k), True, 0, None))
    fs = c.st.facts.assume(mk_ge(mv.n - i - n))
    if not fs:
        raise Kill()
    c.st.facts = fs[0]
    return Ptr(o, (i if low else i + n).scale(ES))


class _C:
    """minimal call context for helpers reached from the memory layer"""
    __slots__ = ('m', 'it', 'st', 'n', 'a', 'sret', 'i', 'name')

    def __init__(self, m, it, st):
        self.m, self.it, self.st = m, it, st


def node_field(c, o, off):
    i, inner = c.m.idx_of(c.st, o, off)
    k, mv, known = node_key(c, o, off)
    kt, vt, voff, multi = o.et
    if not known:
        c.it.check(c.st, conj([mk_ge(i), mk_gt(mv.n - i)]), 'oob', 'entry', 'entry %r of a container of %r elements is accessed' % (c.st.facts.norm(i), c.st.facts.norm(mv.n)))
    if voff is None or inner < voff:
        return ('key', key_val(k, kt), inner, k, mv)
    if multi:
        e = equal_entry(c, o, mv, i)
        if e is not None and isinstance(e[1], SeqVal):
            return ('val', c.m.at(c.it, c.st, e[1], e[2], vt), inner - voff, k, mv)
        return ('val', typed_sym(c, 'mmat', (mv, i), vt), inner - voff, k, mv)
    has, val = lookup(c, mv, k)
    if not has:
        c.it.oblige('uaf', 'entry', False)
        c.it.report('uaf', 'entry', c.st, 'access to a removed map entry')
        raise Kill()
    if val is None:
        val = base_val(c, mv.base, k, vt)
    return ('val', val, inner - voff, k, mv)


def node_load(self, it, st, o, off, ty, size):
    c = _C(self, it, st)
    w, v, inner, k, mv = node_field(c, o, off)
    return self.from_elem(it, st, v, o, inner, ty, size)


def node_cell(self, it, st, o, off, mk):
    c = _C(self, it, st)
    w, v, inner, k, mv = node_field(c, o, off)
    if isinstance(v, Rec):
        for co, cs, cv in v.cells:
            if co == inner and isinstance(cv, (SeqVal, MapVal, Opaque)):
                return cv
        if v.src:
            return mk(('at', v.src, P(inner)))
    raise Unmodelled('container nested in a map entry')


def node_store(self, it, st, o, off, x, size):
    c = _C(self, it, st)
    op = Ptr(*o.owner)
    it.deref(st, op, None, True)
    w, v, inner, k, mv = node_field(c, o, off)
    if w == 'key':
        raise Unmodelled('write to a key')
    if o.et[3]:
        raise Unmodelled('write to a multimap value')
    if o.et[1].ty == 'cls':
        x = rec_set(v, inner, size, x)
    self.cset(it, st, op, ov_set(c, mv, k, True, x, 0))


def node_rec(self, it, st, o, off):
    c = _C(self, it, st)
    w, v, inner, k, mv = node_field(c, o, off)
    if inner == 0 and isinstance(v, Rec):
        return v
    raise Unmodelled('class value inside a map entry')


Models.node_load, Models.node_cell, Models.node_store, Models.node_rec = node_load, node_cell, node_store, node_rec


def map_same(c, a, b):
    if a.base is not b.base:
        return None
    keys = []
    for k, _, _ in a.ov + b.ov:
        if not any(x == k for x in keys):
            keys.append(k)
    if not c.st.facts.eq(a.n, b.n):
        return None
    for k in keys:
        x = ov_find(c, a, k)
        y = ov_find(c, b, k)
        if x == y and x is not None:
            continue
        x = x if x is not None else base_entry(c, a, k)
        y = y if y is not None else base_entry(c, b, k)
        if x is None or y is None:
            return None
        if x[0] != y[0]:
            return None
        if x[0] and not (x[1] is None and y[1] is None):
            xv = x[1] if x[1] is not None else ('base', k)
            yv = y[1] if y[1] is not None else ('base', k)
            if xv != yv and val_eq(c, xv, yv) is not True:
                return None
    return True


def ov_find(c, mv, k):
    for key, pres, val in reversed(mv.ov):
        e = val_eq(c, key, k)
        if e is True:
            return (pres, val)
        if e is None:
            # undecided key equality: force a case split
            if key_eq(c, key, k):
                return (pres, val)
    return None


def base_entry(c, mv, k):
    if mv.base is None:
        return (False, None)
    b = BAtom(app('mhas', (mv.base, k)))
    if c.st.facts.implies(b):
        return (True, None)
    if c.st.facts.implies(neg(b)):
        return (False, None)
    return None


# ---------------------------------------------------------------- streams
CERR = {'@_ZSt4cerr', '@_ZSt4clog'}


def sname(p):
    return p.obj if isinstance(p, Ptr) else None


def stream_put(c, os, x):
    o = sname(os)
    if o in CERR:
        c.st.flags['diag'] = True
        return
    if o == '@_ZSt4cout':
        c.it.effects.add(('output', 'cout', c.it.where()))
        return
    v = sstream(c, os)
    if v is None:
        return
    if x is None:
        x = SeqVal([Seg(b, ZERO, b.n) for b in [base_sym('out')]])
        c.st.inexact('stream output of an unmodelled value')
    fl = sfmt(c, os)
    if fl is None:
        c.st.inexact('stream formatting state')
    elif fl[1]:
        n = c.st.facts.norm(x.length()).const
        if n is None:
            c.st.inexact('field width of a text of unknown length')
        elif n < fl[1]:
            pad = SeqVal([El(P(fl[2]))] * (fl[1] - int(n)))
            x = SeqVal(pad.parts + x.parts) if fl[0] & 176 != 32 else SeqVal(x.parts + pad.parts)
        sfmt_set(c, os, (fl[0], 0, fl[2]))
    sstream_set(c, os, SeqVal(v.parts + x.parts))


def sstream(c, p):
    """contents of the string stream owning (sub)object p, or None"""
    o = c.st.objs.get(p.obj)
    if o is None:
        return None
    v = o.cells.get('stream')
    return v[1] if v else None


def sstream_set(c, p, v):
    o = c.st.wobj(p.obj)
    o.cells['stream'] = (None, c.m.norm(c.st, v))


def sfmt(c, p):
    """(flags, width, fill) of a string stream; None when unknown"""
    o = c.st.objs.get(p.obj)
    v = o.cells.get('fmt') if o is not None else None
    if v is None or not isinstance(v[1], Opaque) or len(v[1].args) != 3:
        return None
    return v[1].args


def sfmt_set(c, p, v):
    o = c.st.wobj(p.obj)
    o.cells['fmt'] = (None, Opaque('fmt', v))


DECF, HEXF, OCTF, BASEF, UPPERF, SHOWBASE, LEFTF, INTERNALF = 2, 8, 64, 74, 16384, 512, 32, 16
MANIP = {'3hex': (HEXF, BASEF), '3dec': (DECF, BASEF), '3oct': (OCTF, BASEF), '9uppercase': (UPPERF, UPPERF), '11nouppercase': (0, UPPERF),
         '4left': (LEFTF, 176), '5right': (128, 176), '10noshowbase': (0, SHOWBASE)}


def manip(c, p, name):
    fl = sfmt(c, p)
    for k, (v, mask) in MANIP.items():
        if re.match(r'_ZSt%sR' % k, name):
            if fl is not None:
                sfmt_set(c, p, ((fl[0] & ~mask) | v, fl[1], fl[2]))
            return True
    return False


def manip_call(c):
    if sstream(c, c.a[0]) is not None and not manip(c, c.a[0], c.name):
        c.st.inexact('stream manipulator')
    return c.a[0]


for _k in ('hex', 'dec', 'oct', 'uppercase', 'nouppercase', 'left', 'right', 'noshowbase'):
    Models.table[('std', _k)] = manip_call


def ios_setf(c):
    fl = sfmt(c, c.a[0]) if isinstance(c.a[0], Ptr) else None
    if fl is None:
        return Unk('stream flags')
    a = [c.it.num(c.st, x) for x in c.a[1:]]
    if any(x is None or x.const is None for x in a):
        raise Unmodelled('stream flags')
    a = [int(x.const) for x in a]
    old = fl[0]
    if c.n.fn == 'setf':
        mask = a[1] if len(a) > 1 else a[0]
        new = (old & ~mask) | (a[0] & mask)
    elif c.n.fn == 'unsetf':
        new = old & ~a[0]
    else:
        new = a[0] if a else old
    sfmt_set(c, c.a[0], (new, fl[1], fl[2]))
    return P(old)


def ios_width(c):
    fl = sfmt(c, c.a[0]) if isinstance(c.a[0], Ptr) else None
    if fl is None:
        return Unk('stream width')
    old = fl[1 if c.n.fn == 'width' else 2]
    if len(c.a) > 1:
        x = c.it.num(c.st, c.a[1])
        if x is None or x.const is None:
            raise Unmodelled('stream width')
        k = int(x.const)
        sfmt_set(c, c.a[0], (fl[0], k, fl[2]) if c.n.fn == 'width' else (fl[0], fl[1], k))
    return P(old)


for _k in ('setf', 'unsetf', 'flags'):
    Models.table[('std::ios_base', _k)] = ios_setf
    Models.table[('std::basic_ios', _k)] = ios_setf
Models.table[('std::ios_base', 'width')] = ios_width
Models.table[('std::basic_ios', 'fill')] = ios_width


def hex_text(c, t, x, fl):
    """text of a non-negative integer in base 16, at least fl[1] digits wide when the fill is 0"""
    f = c.st.facts
    size = c.m.et(t).size
    if not f.ge(x):
        if not f.gt(ZERO, x):
            raise Split(mk_ge(x))
        x = x + (1 << (8 * size))
    if fl[0] & SHOWBASE:
        return None
    nd = 1
    while not f.gt(P(16 ** nd), x):
        if f.ge(x, P(16 ** nd)) or (fl[2] == 48 and nd < fl[1]):
            nd += 1
        else:
            raise Split(mk_gt(P(16 ** nd) - x))
        if nd > 2 * size:
            return None
    if fl[2] == 48:
        nd = max(nd, min(fl[1], 16))
    ds = []
    q = x
    for _ in range(nd - 1):
        q2 = c.it.floordiv(c.st, q, 16)
        ds.append(f.norm(q - q2.scale(16)))
        q = q2
    ds.append(f.norm(q))
    out = []
    for d in reversed(ds):
        if f.ge(P(9), d):
            out.append(El(d + 48))
        elif f.ge(d, P(10)):
            out.append(El(d + (55 if fl[0] & UPPERF else 87)))
        else:
            raise Split(mk_ge(P(9) - d))
    return SeqVal(out)


def num_text(c, t, x, fl=None):
    x = c.st.facts.norm(x)
    if fl is not None and fl[0] & BASEF not in (0, DECF) and t not in ('double', 'float'):
        return hex_text(c, t, x, fl) if fl[0] & BASEF == HEXF else None
    if x.const is not None and t not in ('double', 'float'):
        return bytes_seq(str(int(x.const)).encode())
    if t not in ('double', 'float') and c.it.opts.get('paths') and c.st.facts.in_range(x, -999, 999):
        return small_text(c, x)
    if t not in ('double', 'float'):
        t = 'int'   # the text of an integer does not depend on its type
    b = base_app('text', (t, x), poly(app('len_text', (t, x), True, 1, 400)), c.m.et('char'))
    return SeqVal([Seg(b, ZERO, b.n)])


fmtflags = None


@model(('std::ostream', 'operator<<'))
def os_put(c):
    t = c.n.params[0]
    if '(*)' in t:
        f = c.a[1]
        if isinstance(f, FnP) and 'endl' in f.name:
            stream_put(c, c.a[0], SeqVal([El(P(10))]))
        elif isinstance(f, FnP) and sstream(c, c.a[0]) is not None and manip(c, c.a[0], f.name):
            pass
        else:
            if sstream(c, c.a[0]) is not None:
                c.st.inexact('stream manipulator')
        return c.a[0]
    if t in SCALAR:
        x = c.it.num(c.st, c.a[1])
        if sname(c.a[0]) in CERR or x is None:
            stream_put(c, c.a[0], None if x is None else EMPTYSEQ)
        elif t == 'bool':
            stream_put(c, c.a[0], SeqVal([El(x + 48)]))
        else:
            stream_put(c, c.a[0], num_text(c, t, x, sfmt(c, c.a[0]) if sstream(c, c.a[0]) is not None else None))
        return c.a[0]
    stream_put(c, c.a[0], None)
    return c.a[0]


@model(('std', 'operator<<'))
def os_put2(c):
    t = c.n.params[1]
    os = c.a[0]
    if sname(os) in CERR:
        c.st.flags['diag'] = True
        return os
    if t == 'char const*':
        stream_put(c, os, c.m.cstr(c.it, c.st, c.a[1]))
    elif t in ('char', 'signed char', 'unsigned char'):
        stream_put(c, os, SeqVal([El(c.it.num(c.st, c.a[1]))]))
    elif 'basic_string<' in t:
        stream_put(c, os, c.m.sget(c.it, c.st, c.a[1], c.m.et('char')))
    elif t in ('std::_Setw', 'std::_Setfill<char>') and sstream(c, os) is not None:
        fl, x = sfmt(c, os), c.it.num(c.st, c.a[1])
        if fl is None or x is None or x.const is None:
            c.st.inexact('stream formatting')
        else:
            sfmt_set(c, os, (fl[0], int(x.const), fl[2]) if t == 'std::_Setw' else (fl[0], fl[1], int(x.const)))
    else:
        if sstream(c, os) is not None:
            c.st.inexact('stream formatting')
    return os


@model(('std', 'endl'), ('std', 'flush'))
def os_endl(c):
    stream_put(c, c.a[0], SeqVal([El(P(10))]) if c.n.fn == 'endl' else EMPTYSEQ)
    return c.a[0]


SS = ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream')


@methods('basic_stringstream', 'basic_ostringstream', 'basic_istringstream', cls=SS)
def ss_ctor(c):
    ps = pars(c)
    v = EMPTYSEQ
    if ps and 'basic_string<' in ps[0][0]:
        v = c.m.sget(c.it, c.st, c.a[1], c.m.et('char'))
    sstream_set(c, c.a[0], v)
    o = c.st.wobj(c.a[0].obj)
    o.cells['reads'] = (None, Opaque('reads', ()))
    o.cells['rpos'] = (None, Opaque('rpos', (0, 0)))
    o.cells['fmt'] = (None, Opaque('fmt', (DECF | 4096, 0, 32)))
    # the virtual base std::ios: its offset is read from the virtual table
    vt = '@vtable ' + c.n.cls
    if vt not in c.st.objs:
        from .state import Obj
        t = Obj(vt, 'const', P(48), 'virtual table')
        t.cells[0] = (8, P({'std::basic_ostringstream': 112, 'std::basic_istringstream': 120}.get(c.n.cls, 128)))
        c.st.objs[vt] = t
    if c.st.facts.norm(c.a[0].off).const == 0:
        o.cells[0] = (8, Ptr(vt, P(24)))
    return None


@methods('~basic_stringstream', '~basic_ostringstream', '~basic_istringstream', cls=SS)
def ss_dtor(c):
    return None


@methods('str', cls=SS)
def ss_str(c):
    if c.sret is None:
        ps = pars(c)
        sstream_set(c, c.a[0], c.m.sget(c.it, c.st, c.a[1], c.m.et('char')))
        r = rpos(c, c.a[0])
        if r is not None:
            rpos_set(c, c.a[0], 0, r[1])
        return None
    v = sstream(c, c.a[0])
    if v is None:
        raise Unmodelled('stream contents')
    store_seq(c, c.sret, v)
    return None


def char_is(c, x, lo, hi):
    f = c.st.facts
    if f.in_range(x, lo, hi):
        return True
    if f.gt(P(lo), x) or f.gt(x, P(hi)):
        return False
    raise Split(conj([mk_ge(x - lo), mk_ge(P(hi) - x)]))


def read_number(c, xs, t, strict=False):
    """formatted extraction of a number from a text of known length; None: nothing was read, the target keeps its value"""
    xs = [c.st.facts.norm(x) for x in xs]
    k = skip_space(c, xs, 0)
    if k == len(xs):
        return 'invalid_argument' if strict else None
    v, k, why = number_at(c, xs, k, t)
    return why if strict and why else v


def skip_space(c, xs, k):
    while k < len(xs) and (char_is(c, xs[k], 32, 32) or char_is(c, xs[k], 9, 13)):
        k += 1
    return k


def number_at(c, xs, k, t):
    """the number at position k: (value stored, position after it, why it failed or None)"""
    is_ = lambda ch: k < len(xs) and char_is(c, xs[k], ord(ch), ord(ch))
    minus = is_('-')
    if minus or is_('+'):
        k += 1
    v, nd = ZERO, 0
    while k < len(xs) and char_is(c, xs[k], 48, 57):
        v = v.scale(10) + (xs[k] - 48)
        nd += 1
        k += 1
    if t in ('double', 'float'):
        sc = 0
        if is_('.'):
            k += 1
            while k < len(xs) and char_is(c, xs[k], 48, 57):
                v = v.scale(10) + (xs[k] - 48)
                nd += 1
                sc += 1
                k += 1
        if not nd:
            return ZERO, k, 'invalid_argument'
        v = v.scale(Fraction(1, 10 ** sc))
        if is_('e') or is_('E'):
            k += 1
            em = is_('-')
            if em or is_('+'):
                k += 1
            e = ne = 0
            while k < len(xs) and char_is(c, xs[k], 48, 57):
                if xs[k].const is None or e > 100:
                    raise Unmodelled('exponent in formatted input')
                e = 10 * e + int(xs[k].const) - 48
                ne += 1
                k += 1
            if not ne:
                return ZERO, k, 'invalid_argument'
            if e > 300:
                raise Unmodelled('exponent in formatted input')
            v = v.scale(Fraction(10) ** (-e if em else e))
        return (-v if minus else v), k, None
    if not nd:
        return ZERO, k, 'invalid_argument'
    if minus:
        if t.startswith('unsigned'):
            raise Unmodelled('negative unsigned input')
        v = -v
    b = 8 * c.m.et(t).size
    lo, hi = (0, (1 << b) - 1) if t.startswith('unsigned') else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    if c.st.facts.ge(P(hi), v):
        if c.st.facts.ge(v, P(lo)):
            if lo == 0 and not c.st.facts.ge(P(hi >> 1), v):
                # values are kept as the signed reading of their bits
                if not c.st.facts.gt(v, P(hi >> 1)):
                    raise Split(mk_ge(P(hi >> 1) - v))
                v = v - (hi + 1)
            return v, k, None
        if c.st.facts.gt(P(lo), v):
            return P(lo), k, 'out_of_range'
        raise Split(mk_ge(v - lo))
    if c.st.facts.gt(v, P(hi)):
        return P(hi if lo else -1), k, 'out_of_range'
    raise Split(mk_ge(P(hi) - v))


EOFBIT, FAILBIT = 2, 4


def rpos(c, p):
    """(position of the next character to read, error bits) of a string stream; None when unknown"""
    o = c.st.objs.get(p.obj) if isinstance(p, Ptr) else None
    v = o.cells.get('rpos') if o is not None else None
    if v is None or not isinstance(v[1], Opaque) or len(v[1].args) != 2:
        return None
    return v[1].args


def rpos_set(c, p, pos, bits):
    c.st.wobj(p.obj).cells['rpos'] = (None, Opaque('rpos', (pos, bits)))


def rtext(c, p):
    """(characters, position, error bits) of a string stream that is read from"""
    v, r = sstream(c, p), rpos(c, p)
    if v is None or r is None:
        raise Unmodelled('stream extraction from a non-string stream')
    return [c.st.facts.norm(x) for x in elems(c, v)], r[0], r[1]


def sentry(c, xs, pos, bits, skip=True):
    """(position, error bits, may go on)"""
    if bits:
        return pos, bits | FAILBIT, False
    if skip:
        pos = skip_space(c, xs, pos)
        if pos == len(xs):
            return pos, bits | EOFBIT | FAILBIT, False
    return pos, bits, True


@model(('std', 'operator>>'))
def is_get2(c):
    t = c.n.params[1].replace('&', '').strip()
    p = c.a[0]
    if t == 'char':
        xs, pos, bits = rtext(c, p)
        pos, bits, ok = sentry(c, xs, pos, bits)
        rpos_set(c, p, pos + ok, bits)
        if ok:
            c.it.store(c.st, c.a[1], xs[pos], 1, 'i8')
        return p
    if 'basic_string<' in t:
        xs, pos, bits = rtext(c, p)
        pos, bits, ok = sentry(c, xs, pos, bits)
        out = []
        while ok and pos < len(xs) and not (char_is(c, xs[pos], 32, 32) or char_is(c, xs[pos], 9, 13)):
            out.append(El(xs[pos]))
            pos += 1
        if ok:
            if pos == len(xs):
                bits |= EOFBIT
            store_seq(c, c.a[1], SeqVal(out))
        rpos_set(c, p, pos, bits)
        return p
    raise Unmodelled('stream extraction of ' + t)


@model(('std', 'ws'))
def is_ws(c):
    xs, pos, bits = rtext(c, c.a[0])
    if not bits:
        pos = skip_space(c, xs, pos)
        if pos == len(xs):
            bits |= EOFBIT
    else:
        bits |= FAILBIT
    rpos_set(c, c.a[0], pos, bits)
    return c.a[0]


@model(('std', 'getline'))
def is_getline(c):
    p = c.a[0]
    xs, pos, bits = rtext(c, p)
    d = P(10)
    if len(c.a) > 2:
        d = c.it.num(c.st, c.a[2])
    if d is None or d.const is None:
        raise Unmodelled('getline')
    d = int(d.const)
    if bits:
        rpos_set(c, p, pos, bits | FAILBIT)
        return p
    start, out = pos, []
    found = False
    while pos < len(xs):
        if char_is(c, xs[pos], d, d):
            pos += 1
            found = True
            break
        out.append(El(xs[pos]))
        pos += 1
    if not found:
        bits |= EOFBIT
        if start == len(xs):
            bits |= FAILBIT
    store_seq(c, c.a[1], SeqVal(out))
    rpos_set(c, p, pos, bits)
    return p


def is_unget(c):
    """unget and putback"""
    p = c.a[0]
    xs, pos, bits = rtext(c, p)
    bits &= ~EOFBIT
    if bits:
        bits |= FAILBIT
    elif pos == 0:
        bits |= 1
    else:
        if c.n.fn == 'putback':
            x = c.it.num(c.st, c.a[1])
            if x is None or not c.st.facts.eq(x, xs[pos - 1]):
                raise Unmodelled('putback of another character')
        pos -= 1
    rpos_set(c, p, pos, bits)
    return p


def is_getc(c):
    """get() and get(char&)"""
    p = c.a[0]
    if len(c.a) > 2:
        raise Unmodelled('istream::get')
    xs, pos, bits = rtext(c, p)
    if bits or pos == len(xs):
        rpos_set(c, p, pos, bits | FAILBIT | (0 if bits else EOFBIT))
        return P(-1) if len(c.a) == 1 else p
    rpos_set(c, p, pos + 1, bits)
    if len(c.a) == 1:
        return as_uchar(c, xs[pos])
    c.it.store(c.st, c.a[1], xs[pos], 1, 'i8')
    return p


def as_uchar(c, x):
    if c.st.facts.ge(x):
        return x
    if c.st.facts.gt(ZERO, x):
        return x + 256
    raise Split(mk_ge(x))


def is_peek(c):
    p = c.a[0]
    xs, pos, bits = rtext(c, p)
    if bits:
        rpos_set(c, p, pos, bits | FAILBIT)
        return P(-1)
    if pos == len(xs):
        rpos_set(c, p, pos, bits | EOFBIT)
        return P(-1)
    return as_uchar(c, xs[pos])


def is_ignore(c):
    p = c.a[0]
    a = [c.it.num(c.st, x) for x in c.a[1:]]
    if any(x is None or x.const is None for x in a):
        raise Unmodelled('istream::ignore')
    n = int(a[0].const) if a else 1
    d = int(a[1].const) if len(a) > 1 else None
    xs, pos, bits = rtext(c, p)
    if bits:
        bits |= FAILBIT
    else:
        while n > 0:
            if pos == len(xs):
                bits |= EOFBIT
                break
            n -= 1
            pos += 1
            if d is not None and d >= 0 and char_is(c, xs[pos - 1], d, d):
                break
    rpos_set(c, p, pos, bits)
    return p


for _k, _f in (('unget', is_unget), ('putback', is_unget), ('get', is_getc), ('peek', is_peek), ('ignore', is_ignore)):
    Models.table[('std::istream', _k)] = _f
    Models.table[('std::basic_istream', _k)] = _f


def ios_state(c):
    r = rpos(c, c.a[0])
    k = c.n.fn
    if r is None:
        return Unk('stream state')
    if k == 'eof':
        return P(int(bool(r[1] & EOFBIT)))
    if k == 'bad':
        return P(r[1] & 1)
    if k in ('fail', 'operator!'):
        return P(int(bool(r[1] & 5)))
    if k == 'good':
        return P(int(not r[1]))
    if k == 'rdstate':
        return P(r[1])
    if k in ('operator bool', 'operator void*'):
        return P(int(not r[1] & 5))
    a = [c.it.num(c.st, x) for x in c.a[1:]]
    if any(x is None or x.const is None for x in a):
        raise Unmodelled('stream state')
    b = int(a[0].const) if a else 0
    rpos_set(c, c.a[0], r[0], b if k == 'clear' else r[1] | b)
    return None


for _k in ('eof', 'bad', 'fail', 'good', 'rdstate', 'operator!', 'operator bool', 'clear', 'setstate'):
    Models.table[('std::basic_ios', _k)] = ios_state
    Models.table[('std::ios', _k)] = ios_state


@model(('std::istream', 'operator>>'))
def is_get(c):
    t = c.n.params[0].replace('&', '').strip()
    if '(*)' in t:
        f = c.a[1]
        if isinstance(f, FnP) and re.match(r'_ZSt2ws', f.name):
            return is_ws(c)
        if isinstance(f, FnP) and sstream(c, c.a[0]) is not None and manip(c, c.a[0], f.name):
            return c.a[0]
    if t not in SCALAR:
        raise Unmodelled('stream extraction of ' + t)
    v = sstream(c, c.a[0])
    o = c.st.wobj(c.a[0].obj)
    if v is None:
        raise Unmodelled('stream extraction from a non-string stream')
    rd = o.cells['reads'][1]
    if not rd.args and t in ('int', 'long', 'double', 'float', 'unsigned int', 'unsigned long', 'short', 'long long'):
        try:
            xs = elems(c, v)
        except Unmodelled:
            xs = None
        if xs is not None:
            if rpos(c, c.a[0]) is None:
                raise Unmodelled('stream position')
            xs, pos, bits = rtext(c, c.a[0])
            pos, bits, ok = sentry(c, xs, pos, bits)
            if ok:
                x, pos, why = number_at(c, xs, pos, t)
                bits |= (EOFBIT if pos == len(xs) else 0) | (FAILBIT if why else 0)
            rpos_set(c, c.a[0], pos, bits)
            if ok:
                et = c.m.et(t)
                c.it.store(c.st, c.a[1], x, et.size, et.ty)
            return c.a[0]
    c.st.wobj(c.a[0].obj).cells.pop('rpos', None)
    key = (t, v) + rd.args
    o.cells['reads'] = (None, Opaque('reads', rd.args + (t,)))
    et = c.m.et(t)
    fl = et.ty[0] == 'f'
    lo, hi = (None, None) if fl else (-(1 << (8 * et.size - 1)), (1 << (8 * et.size - 1)) - 1)
    x = poly(app('extract', key, not fl, lo, hi))
    # since C++11 a failed extraction stores 0, except when nothing could be read (the sentry fails): the target keeps its value
    none = BAtom(app('extract_none', key))
    if c.st.facts.eq(v.length(), ZERO):
        fs = c.st.facts.assume(none)
        if fs:
            c.st.facts = fs[0]
    if c.st.facts.implies(none):
        return c.a[0]
    if c.st.facts.implies(neg(none)):
        c.it.store(c.st, c.a[1], x, et.size, et.ty)
        return c.a[0]
    o.cells['reads'] = (None, rd)
    raise Split(none)


# ---------------------------------------------------------------- random engine
def rng_state(c, p):
    def mk(tag):
        return Opaque('rng', (tag,))
    v = c.m.cget(c.it, c.st, p, mk)
    if not isinstance(v, Opaque):
        raise Unmodelled('generator state')
    return v


@methods('mersenne_twister_engine', cls=('std::mersenne_twister_engine',))
def mt_ctor(c):
    ps = pars(c)
    if not ps:
        c.m.cset(c.it, c.st, c.a[0], Opaque('rng', ('seed', P(5489))))
    elif 'mersenne_twister_engine' in ps[0][0]:
        c.m.cset(c.it, c.st, c.a[0], rng_state(c, c.a[1]))
    else:
        x = c.it.num(c.st, c.a[1])
        if x is None:
            raise Unmodelled('seed')
        c.m.cset(c.it, c.st, c.a[0], Opaque('rng', ('seed', c.st.facts.norm(x))))
    return None


@methods('seed', cls=('std::mersenne_twister_engine',))
def mt_seed(c):
    x = c.it.num(c.st, c.a[1]) if len(c.a) > 1 else P(5489)
    if x is None:
        raise Unmodelled('seed')
    c.m.cset(c.it, c.st, c.a[0], Opaque('rng', ('seed', c.st.facts.norm(x))))
    return None


@methods('operator()', cls=('std::mersenne_twister_engine',))
def mt_next(c):
    s = rng_state(c, c.a[0])
    bits = 64 if 'unsigned long, 64' in c.n.full else 32
    c.m.cset(c.it, c.st, c.a[0], Opaque('rng', ('next', s)))
    # signed representative of the drawn word
    lo, hi = (-(1 << 63), (1 << 63) - 1) if bits == 64 else (0, (1 << 32) - 1)
    return poly(app('draw', (s,), True, lo, hi))


@methods('discard', cls=('std::mersenne_twister_engine',))
def mt_discard(c):
    s = rng_state(c, c.a[0])
    c.m.cset(c.it, c.st, c.a[0], Opaque('rng', ('discard', s, c.num(1))))
    return None


# ---------------------------------------------------------------- std algorithms on sequences
@model(('std', 'reverse'))
def std_reverse(c):
    p, q = c.a[0], c.a[1]
    if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.obj != q.obj or p.obj not in c.st.objs:
        raise Unmodelled('reverse')
    o = c.st.objs[p.obj]
    if o.kind != 'buf':
        raise Unmodelled('reverse of an array')
    own = c.m.owner_ptr(o)
    v = c.m.sget(c.it, c.st, own, o.et)
    i, _ = c.m.idx_of(c.st, o, p.off)
    j, _ = c.m.idx_of(c.st, o, q.off)
    c.it.check(c.st, conj([mk_ge(i), mk_ge(j - i), mk_ge(v.length() - j)]), 'oob', 'range', 'range outside the container')
    l, r = c.m.cut(c.it, c.st, v.parts, i)
    mm, r2 = c.m.cut(c.it, c.st, r, j - i)
    store_seq(c, own, SeqVal(tuple(l) + rev_of(c, SeqVal(mm), o.et).parts + tuple(r2)))
    return None


@model(('std', 'sort'), ('std', 'stable_sort'))
def std_sort(c):
    p, q = c.a[0], c.a[1]
    if len(c.a) > 2 or not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.obj != q.obj or p.obj not in c.st.objs:
        raise Unmodelled('sort')
    o = c.st.objs[p.obj]
    if o.kind != 'buf':
        raise Unmodelled('sort of an array')
    own = c.m.owner_ptr(o)
    v = c.m.sget(c.it, c.st, own, o.et)
    i, _ = c.m.idx_of(c.st, o, p.off)
    j, _ = c.m.idx_of(c.st, o, q.off)
    l, r = c.m.cut(c.it, c.st, v.parts, i)
    mm, r2 = c.m.cut(c.it, c.st, r, j - i)
    store_seq(c, own, SeqVal(tuple(l) + sorted_of(c, SeqVal(mm), o.et).parts + tuple(r2)))
    return None


@model(('std', 'swap'))
def std_swap(c):
    t = c.n.params[0].replace('&', '').strip() if c.n.params else ''
    cls = parse_name(t + '::x()').cls
    if cls in SEQ or cls in ASSOC:
        mk = c.m.mk_for(t)
        a = c.m.cget(c.it, c.st, c.a[0], mk)
        b = c.m.cget(c.it, c.st, c.a[1], mk)
        c.m.cset(c.it, c.st, c.a[0], b)
        c.m.cset(c.it, c.st, c.a[1], a)
        return None
    return MISS


@model(('std::allocator', 'allocator'), ('std::allocator', '~allocator'), ('std::ios_base::Init', 'Init'), ('std::ios_base::Init', '~Init'))
def alloc_nop(c):
    return None
