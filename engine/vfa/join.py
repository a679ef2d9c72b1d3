"""Joins: generalisation of several abstract states to one, and loop
invariants by template weakening."""
from .terms import *
from . import terms as T
from .values import *
from .state import State, Obj
from .facts import Facts

UNKS = Unk('join')


def rng(size):
    b = 8 * (size or 8)
    return -(1 << (b - 1)), (1 << (b - 1)) - 1


class Shape:
    """generalised value with phi atoms; match(raw) gives their substitution"""
    __slots__ = ('val', 'kind', 'phis', 'pre')

    def __init__(self, val, kind, phis=(), pre=None):
        self.val, self.kind, self.phis, self.pre = val, kind, phis, pre

    def match(self, raw):
        k = self.kind
        if k == 'unk':
            return {}
        if k == 'num':
            if isinstance(raw, Poly):
                if self.phis[0].is_int and not raw.is_intval():
                    return None
                return {self.phis[0]: raw}
            return None
        if k == 'cond':
            if isinstance(raw, ZB):
                return {self.phis[0]: raw.c}
            if isinstance(raw, Cond) or raw is True or raw is False:
                return {self.phis[0]: raw}
            return None
        if k == 'ptr':
            if isinstance(raw, Ptr) and raw.obj == self.val.obj:
                return {self.phis[0]: raw.off}
            return None
        if k == 'seq':
            if not isinstance(raw, SeqVal):
                return None
            pre = self.pre
            if pre:
                if raw.parts[:len(pre)] != pre:
                    return None
            n = ZERO
            for p in raw.parts[len(pre):]:
                n = n + plen(p)
            return {self.phis[0]: n}
        if k == 'opaque':
            return {} if isinstance(raw, Opaque) and raw.tag == self.val.tag else None
        if k == 'map':
            return {self.phis[0]: raw.n} if isinstance(raw, MapVal) else None
        return None


def elem_range(it, st, parts):
    lo = hi = None
    for p in parts:
        if isinstance(p, (El, Rep)):
            if not isinstance(p.v, Poly):
                return None
            a, b = st.facts.bounds(p.v)
        else:
            r = p.base.lohi
            if r is None:
                return None
            a, b = r
        if a is None or b is None:
            return None
        lo = a if lo is None else min(lo, a)
        hi = b if hi is None else max(hi, b)
    return None if lo is None else (lo, hi)


def mkshape(it, vals, size, sts, coarse=False):
    """shape covering the given raw values"""
    if coarse:
        return Shape(Unk('join'), 'unk')
    v0 = vals[0]
    if all(isinstance(v, Poly) for v in vals):
        isint = all(v.is_intval() for v in vals)
        lo, hi = rng(size) if isint else (None, None)
        a = T.sym('phi', isint, lo, hi, True)
        return Shape(poly(a), 'num', (a,))
    if all(isinstance(v, (ZB, Cond, bool)) for v in vals):
        a = T.sym('phib', True, None, None, True)
        c = BAtom(a)
        return Shape(ZB(c) if any(isinstance(v, ZB) for v in vals) else c, 'cond', (a,))
    if all(isinstance(v, Ptr) for v in vals) and len(set(v.obj for v in vals)) == 1 and v0.obj is not None:
        a = T.sym('phio', True, -(1 << 62), 1 << 62, True)
        return Shape(Ptr(v0.obj, poly(a), v0.gen), 'ptr', (a,))
    if all(isinstance(v, SeqVal) for v in vals):
        pre = list(v0.parts)
        for v in vals[1:]:
            n = 0
            while n < len(pre) and n < len(v.parts) and pre[n] == v.parts[n]:
                n += 1
            pre = pre[:n]
        a = T.sym('philen', True, 0, SIZE_MAX, True)
        b = Base('phi', (), poly(a), 'phiseq%d' % a.id)
        rs = [elem_range(it, s, v.parts[len(pre):]) for s, v in zip(sts, vals) if len(v.parts) > len(pre)]
        if rs and all(r is not None for r in rs):
            b.lohi = (min(r[0] for r in rs), max(r[1] for r in rs))
        return Shape(SeqVal(tuple(pre) + (Seg(b, ZERO, poly(a)),)), 'seq', (a,), tuple(pre))
    if all(isinstance(v, Opaque) for v in vals) and len(set(v.tag for v in vals)) == 1:
        return Shape(Opaque(v0.tag, ('phi', it.fresh())), 'opaque')
    if all(isinstance(v, MapVal) for v in vals):
        a = T.sym('phin', True, 0, SIZE_MAX, True)
        b = Base('phi', (), poly(a), 'phimap%d' % a.id)
        return Shape(MapVal(b, (), poly(a)), 'map', (a,))
    return Shape(Unk('join'), 'unk')


# slots: ('env', id) | ('cell', obj, off) | ('log', obj) | ('alive', obj)
def get_slot(it, st, slot, like=None):
    k = slot[0]
    if k == 'env':
        return st.env.get(slot[1], UNINIT)
    o = st.objs.get(slot[1])
    if o is None:
        return UNINIT
    if k == 'cell':
        c = o.cells.get(slot[2])
        if c is None:
            if o.lazy is not None and isinstance(slot[2], int) and like is not None and isinstance(like[1], Opaque) and like[1].tag == 'rng' \
                    and o.lazy != ('zero',):
                return Opaque('rng', (('at', o.lazy, P(slot[2])),))
            if o.lazy is not None and isinstance(slot[2], int) and like is not None and like[0]:
                ty = 'p' if isinstance(like[1], Ptr) else ('i%d' % (8 * like[0]))
                if isinstance(like[1], Poly) and not like[1].is_intval():
                    ty = 'f64'
                if isinstance(like[1], (SeqVal, MapVal, Opaque)):
                    return UNINIT
                return it.load_obj(st, o, P(slot[2]), ty, like[0])
            return UNINIT
        return c[1]
    if k == 'log':
        return ('log', tuple(sorted(((kk, vv) for kk, vv in o.cells.items()), key=lambda x: str(x[0]))), o.log, o.lazy)
    if k == 'alive':
        return o.alive
    if k == 'gen':
        return o.gen


def diff(it, a, b, envids):
    """slots whose raw values differ between states a and b (objects of a)"""
    out = []
    for i in envids:
        x, y = a.env.get(i, UNINIT), b.env.get(i, UNINIT)
        if not same(x, y, b):
            out.append(('env', i))
    for oid, oa in a.objs.items():
        ob = b.objs.get(oid)
        if ob is oa:
            continue
        if ob is None:
            out.append(('alive', oid))
            continue
        if oa.alive != ob.alive:
            out.append(('alive', oid))
        if oa.log != ob.log or oa.lazy != ob.lazy:
            out.append(('log', oid))
            continue
        for k in set(oa.cells) | set(ob.cells):
            x, y = oa.cells.get(k), ob.cells.get(k)
            if x == y:
                continue
            if x is not None and y is not None and x[0] == y[0] and same(x[1], y[1], b):
                continue
            out.append(('cell', oid, k))
    return out


def same(x, y, st):
    if x is y or x == y:
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        d = x - y
        if not d.t:
            return True
        return st.facts.eq(x, y)
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
        return st.facts.eq(x.off, y.off)
    if isinstance(x, Unk) and isinstance(y, Unk):
        return True
    return False


class LoopJoin:
    def __init__(self, it, fn, h, entry, kid):
        self.it, self.fn, self.h, self.entry = it, fn, h, entry
        # kid: the iteration number, a ghost variable
        self.kid = kid
        self.phi_ids = [i['id'] for i in fn.blocks[h]['insts'] if i['op'] == 'phi'] + [kid]
        self.sizes = {i['id']: i['t'] for i in fn.blocks[h]['insts'] if i['op'] == 'phi'}
        self.sizes[kid] = 'i64'
        self.defs = []
        self.shapes = {}      # slot -> Shape
        self.cands = None
        self.log = []
        self.erange = {}
        self.fails = {}

    def slot_size(self, slot, sts):
        if slot[0] == 'env':
            t = self.sizes[slot[1]]
            from .interp import ty_size
            return ty_size(t)
        if slot[0] == 'cell':
            for s in sts:
                o = s.objs.get(slot[1])
                if o is not None and slot[2] in o.cells:
                    return o.cells[slot[2]][0]
        return 8

    def install(self, st):
        for slot, sh in self.shapes.items():
            k = slot[0]
            if k == 'env':
                st.env[slot[1]] = sh.val
                if sh.kind == 'unk':
                    pass
            elif k == 'cell':
                if slot[1] not in st.objs:
                    continue
                o = st.wobj(slot[1])
                o.cells[slot[2]] = (sh.pre2 if False else self.csz[slot], sh.val)
            elif k == 'log':
                o = st.wobj(slot[1])
                o.cells = {}
                o.log = ()
                o.lazy = ('W', slot[1], sh.val)
                o.erange = self.erange.get(slot)
            elif k == 'alive':
                o = st.objs.get(slot[1])
                if o is not None:
                    o = st.wobj(slot[1])
                    o.alive = 'maybe'

    def head(self):
        H = self.entry.copy()
        self.install(H)
        if self.cands:
            for c in self.cands:
                fs = H.facts.assume(c)
                if not fs:
                    # contradictory candidate: cannot happen when it holds at entry
                    continue
                H.facts = fs[0]
        for c in self.defs:
            fs = H.facts.assume(c)
            if fs:
                H.facts = fs[0]
        H.flags['widened'] = True
        self.H = H
        return H

    dround = 0

    def closures(self, backs):
        """phi = entry + sum of its increments, or entry * product of its factors, when these depend only on the iteration number"""
        if not backs or self.dround >= 4:
            return []
        em = self.subst_for_entry()
        maps = [self.subst_for(b) for b in backs]
        if any(m is None for m in maps):
            return []
        ksh = self.shapes.get(('env', self.kid))
        if ksh is None or ksh.kind != 'num':
            return []
        K = ksh.phis[0]
        lin = {}
        rest = []
        for slot, sh in self.shapes.items():
            if sh.kind not in ('num', 'ptr') or slot == ('env', self.kid):
                continue
            a = sh.phis[0]
            if not isinstance(em.get(a), Poly) or not all(isinstance(m.get(a), Poly) for m in maps):
                continue
            ds = set(b.facts.norm(m[a] - poly(a)).const for b, m in zip(backs, maps))
            if len(ds) == 1 and None not in ds:
                lin[a] = em[a] + poly(K).scale(next(iter(ds)))
            else:
                rest.append(a)
        out = []
        for a in sorted(rest, key=lambda a: a.id):
            body = None
            ok = True
            kind = None
            for b, m in zip(backs, maps):
                v = m[a]
                pa = poly(a)
                d = v - pa
                k2 = 'sum'
                if a in d.all_atoms():
                    # product form v = a * F
                    F = {}
                    for mm, c in v.t.items():
                        dm = dict(mm)
                        if dm.get(a) != 1:
                            F = None
                            break
                        del dm[a]
                        F[tuple(sorted(dm.items(), key=lambda z: z[0].id))] = c
                    if F is not None and a not in Poly(F).all_atoms():
                        k2 = 'prod'
                        d = Poly(F)
                    elif self.defs:
                        sub = {k: e for k, e in b.facts.sub.items() if k is not K and k not in lin}
                        d = subst(d, sub)
                        if a in d.all_atoms():
                            ok = False
                            break
                    else:
                        ok = False
                        break
                d = subst(d, lin)
                if any(x.widen and x in self.allphis and x is not K for x in d.all_atoms()):
                    ok = False
                    break
                if kind is None:
                    kind, body = k2, d
                elif kind != k2 or d != body:
                    ok = False
                    break
            if not ok or body is None:
                continue
            n = poly(K)
            if kind == 'sum':
                out.append(mk_eq(poly(a) - em[a] - bigsum(body, K, n)))
            else:
                out.append(mk_eq(poly(a) - em[a] * bigprod(body, K, n)))
        return [c for c in out if isinstance(c, Cmp)]

    @property
    def allphis(self):
        return set(a for sh in self.shapes.values() for a in sh.phis)

    def conds(self, cs):
        seen = set(self.log)
        for c in cs:
            if isinstance(c, Cmp) and c not in seen and len(self.log) < 400:
                seen.add(c)
                self.log.append(c)

    csz = None

    def update(self, backs):
        """True when the head state covers every back-edge state"""
        it = self.it
        if self.csz is None:
            self.csz = {}
        grown = False
        # 1. slots that changed
        changed = {}
        for b in backs:
            for slot in diff(it, self.H, b, self.phi_ids):
                if slot[0] == 'cell' and ('log', slot[1]) in self.shapes:
                    slot = ('log', slot[1])
                if slot in self.shapes and self.shapes[slot].kind == 'unk':
                    continue
                if slot in self.shapes and slot[0] in ('alive',):
                    continue
                if b not in changed.setdefault(slot, []):
                    changed[slot].append(b)
        for slot, bs in changed.items():
            if slot in self.shapes and slot[0] != 'log':
                sh = self.shapes[slot]
                ok = True
                for b in bs:
                    like = self.like(slot, [self.entry] + bs)
                    raw = get_slot(it, b, slot, like)
                    if sh.match(raw) is None:
                        ok = False
                    elif sh.kind == 'seq':
                        base = sh.val.parts[-1].base
                        if base.lohi is not None:
                            r = elem_range(it, b, raw.parts[len(sh.pre):])
                            if len(raw.parts) > len(sh.pre) and (r is None or r[0] < base.lohi[0] or r[1] > base.lohi[1]):
                                ok = False
                if ok:
                    continue
                f = self.fails.get(slot, 0)
                self.fails[slot] = f + 1
                vals = [get_slot(it, self.entry, slot, self.like(slot, [self.entry] + bs))] + \
                       [get_slot(it, b, slot, self.like(slot, [self.entry] + bs)) for b in bs]
                if f >= 3:
                    if sh.kind == 'seq':
                        ns = mkshape(it, [EMPTYSEQ] + [v for v in vals if isinstance(v, SeqVal)], 8, [self.entry] * 99)
                        ns.val.parts[-1].base.lohi = None
                        self.shapes[slot] = ns if f < 6 else Shape(Unk('join'), 'unk')
                    else:
                        self.shapes[slot] = Shape(Unk('join'), 'unk')
                else:
                    self.shapes[slot] = mkshape(it, vals, self.slot_size(slot, [self.entry] + bs), [self.entry] + bs)
                grown = True
                continue
            if slot[0] == 'log':
                grown |= self.log_slot(slot, bs)
                continue
            if slot[0] == 'alive':
                self.shapes[slot] = Shape('maybe', 'alive')
                grown = True
                continue
            sts = [self.entry] + bs
            like = self.like(slot, sts)
            vals = [get_slot(it, s, slot, like) for s in sts]
            self.csz[slot] = like[0] if like else 8
            self.shapes[slot] = mkshape(it, vals, self.slot_size(slot, sts), sts)
            grown = True
        if grown:
            # drop cell slots swallowed by a whole-object slot
            whole = {s[1] for s in self.shapes if s[0] == 'log'}
            for s in list(self.shapes):
                if s[0] == 'cell' and s[1] in whole:
                    del self.shapes[s]
            self.backs0 = backs
            self.candidates(backs)
            self.regen = False
            return False
        if not self.regen:
            self.regen = True
            self.backs0 = backs
            self.candidates(backs)
            return False
        # 2. recurrences solved exactly (sums and products over the iterations)
        nd = self.closures(backs)
        if nd != self.defs:
            if self.dround < 4:
                self.defs = nd
            else:
                self.defs = []
            self.dround += 1
            return False
        # 3. candidates inductive?
        keep = []
        dropped = False
        subs = [(b, self.subst_for(b)) for b in backs]
        for c in self.cands or ():
            good = True
            for b, mp in subs:
                if mp is None:
                    good = False
                    break
                if any(a in self.lost for a in cond_atoms(c, set())):
                    good = False
                    break
                if not b.facts.implies(cond_subst(c, mp)):
                    good = False
                    break
            if good:
                keep.append(c)
            else:
                dropped = True
        if dropped:
            self.cands = keep
            return False
        return True

    lost = ()
    regen = False

    def like(self, slot, sts):
        if slot[0] != 'cell':
            return None
        for s in sts:
            o = s.objs.get(slot[1])
            if o is not None and slot[2] in o.cells:
                return o.cells[slot[2]]
        return None

    def log_slot(self, slot, bs):
        it = self.it
        sts = [self.entry] + bs
        # element range of everything stored
        r = None
        bad = False
        for s in sts:
            o = s.objs.get(slot[1])
            if o is None:
                continue
            vs = [v for _, (sz, v) in o.cells.items()] + [v for _, _, v in o.log]
            for v in vs:
                if v is UNINIT:
                    continue
                if not isinstance(v, Poly):
                    bad = True
                    break
                a, b = s.facts.bounds(v)
                if a is None or b is None or not isinstance(a, int) or not isinstance(b, int):
                    bad = True
                    break
                r = (a, b) if r is None else (min(r[0], a), max(r[1], b))
            if o.lazy is not None and o.erange is None and o.lazy != ('zero',) and not (isinstance(o.lazy, tuple) and o.lazy[0] == 'W'):
                bad = True
            if o.lazy is not None and o.lazy[0] == 'W' and slot in self.shapes and self.erange.get(slot) is None:
                bad = True
        new = None if bad else r
        old = self.erange.get(slot, 'none')
        if slot in self.shapes:
            if old == new:
                return False
            f = self.fails.get(slot, 0)
            self.fails[slot] = f + 1
            if f > 2:
                new = None
            if old is None:
                return False
            if new is not None and old != 'none':
                new = (min(new[0], old[0]), max(new[1], old[1]))
                if new == old:
                    return False
        self.erange[slot] = new
        self.shapes[slot] = Shape(it.fresh(), 'log')
        return True

    def subst_for(self, st):
        """phi -> value in state st (None when some slot cannot be matched)"""
        mp = {}
        for slot, sh in self.shapes.items():
            if sh.kind in ('unk', 'log', 'alive'):
                continue
            raw = get_slot(self.it, st, slot, self.like(slot, [st, self.entry, self.H]))
            m = sh.match(raw)
            if m is None:
                return None
            mp.update(m)
        return mp

    def candidates(self, backs):
        it = self.it
        e = self.entry
        em = self.subst_for_entry()
        phis = [a for sh in self.shapes.values() for a in sh.phis if sh.kind in ('num', 'ptr', 'seq', 'map')]
        phis = [a for a in phis if em.get(a) is not None and isinstance(em[a], Poly)]
        bms = []
        for b in backs:
            m = {}
            for slot, sh in self.shapes.items():
                if sh.kind in ('unk', 'log', 'alive'):
                    continue
                raw = get_slot(it, b, slot, self.like(slot, [b, e]))
                mm = sh.match(raw)
                if mm:
                    m.update(mm)
            bms.append(m)
        cand = []

        def add(c):
            if isinstance(c, bool):
                return
            if c in seen:
                return
            seen.add(c)
            if e.facts.implies(cond_subst(c, em)):
                # must also be plausible on the sampled back states
                cand.append(c)

        seen = set()
        for a in phis:
            p = poly(a)
            v = em[a]
            add(mk_ge(p - v))
            add(mk_ge(v - p))
            if a.is_int:
                add(mk_ge(p))
                add(mk_ge(p + 1))
                add(mk_ne(p))
            else:
                add(mk_ge(p))
                add(mk_gt(p))
                add(mk_ge(P(1) - p))
        # pairs: equal strides / equal differences
        for i, a in enumerate(phis):
            for b_ in phis[i + 1:]:
                if a.is_int != b_.is_int:
                    continue
                ks = {(1, 1), (1, -1)}
                for bm in bms[:2]:
                    if a in bm and b_ in bm:
                        # per-iteration increments relative to the previous head
                        da = it_delta(bm[a], self, a, em)
                        db = it_delta(bm[b_], self, b_, em)
                        if da and db:
                            ks.add((da, db))
                for da, db in ks:
                    d = poly(a).scale(db) - poly(b_).scale(da)
                    v = em[a].scale(db) - em[b_].scale(da)
                    add(mk_ge(d - v))
                    add(mk_ge(v - d))
        # guards seen in the loop, re-expressed over the current phis
        remap = self.remap
        for c in self.log:
            c = cond_subst(c, remap) if remap else c
            if not isinstance(c, Cmp):
                continue
            ats = c.p.atoms()
            if not any(a in phis for a in ats):
                # a guard over the entry value of a variable that later became a phi
                for a in phis:
                    v = em[a].single()
                    if v is not None and v in ats:
                        c2 = cond_subst(c, {v: poly(a)})
                        if isinstance(c2, Cmp):
                            for k in (0, 1, -1):
                                add(mk_ge(c2.p + k))
                                add(mk_ge(-c2.p + k))
                continue
            for k in (0, 1, -1):
                add(mk_ge(c.p + k))
                add(mk_ge(-c.p + k))
        for c in self.extra_templates(phis, em):
            add(c)
        # exponentiation by squaring: r * b^e is kept
        sq = [a for a in phis if any(isinstance(bm.get(a), Poly) and bm[a] == poly(a) * poly(a) for bm in bms)]
        for b_ in sq:
            for e_ in phis:
                if not e_.is_int or e_ is b_ or not any(isinstance(bm.get(e_), Poly) and bm[e_] != poly(e_) for bm in bms):
                    continue
                for r_ in phis:
                    if r_ not in (b_, e_) and r_.is_int == b_.is_int:
                        add(mk_eq(poly(r_) * ipow_term(poly(b_), poly(e_)) - em[r_] * ipow_term(em[b_], em[e_])))
        # remainders: the greatest common divisor of two variables is kept
        rem = [a for a in phis if a.is_int and any(isinstance(bm.get(a), Poly) and any(x.op in ('gmod', 'srem') for x in bm[a].all_atoms()) for bm in bms)]
        if rem:
            for a in rem:
                for b_ in phis:
                    if b_ is not a and b_.is_int and (b_ not in rem or b_.id > a.id):
                        add(mk_eq(gcd_term(poly(a), poly(b_)) - gcd_term(em[a], em[b_])))
        self.cands = cand

    remap = None

    def extra_templates(self, phis, em):
        """bounds by the symbolic quantities of the entry state (sizes, parameters)"""
        e = self.entry
        terms = set()
        for c in e.facts.cons:
            for a in c.p.atoms():
                if a.is_int:
                    terms.add(a)
        for sh in self.shapes.values():
            pass
        for i in self.it.interesting[-12:]:
            terms |= {a for a in i.atoms() if a.is_int}
        for c in self.log:
            for a in c.p.atoms():
                if a.is_int and a not in phis:
                    terms.add(a)
        ts = sorted(terms, key=lambda a: -a.id)[:14]
        for a in phis:
            if not a.is_int:
                continue
            for t in ts:
                if t is a or t.widen and t in phis:
                    continue
                for k in (0, 1, -1):
                    yield mk_ge(poly(t) - poly(a) + k)
                    yield mk_ge(poly(a) - poly(t) + k)

    def subst_for_entry(self):
        mp = {}
        for slot, sh in self.shapes.items():
            if sh.kind in ('unk', 'log', 'alive'):
                continue
            raw = get_slot(self.it, self.entry, slot, self.like(slot, [self.entry] + list(getattr(self, 'backs0', ()))))
            m = sh.match(raw)
            if m is None:
                # entry does not fit: generalise to unknown
                self.shapes[slot] = Shape(Unk('join'), 'unk')
                continue
            mp.update(m)
        return mp

    def leaks(self, backs):
        pass


BV = T.sym('bv', True, 0, SIZE_MAX, True)


def forward(b, n):
    """one orientation for terms summed upwards and downwards"""
    if any(a.op in ('sum', 'prod') for a in b.all_atoms()):
        return b       # nested binders
    r = subst(b, {BV: n - 1 - poly(BV)})
    x, y = repr(b), repr(r)
    return r if (len(y), y) < (len(x), x) else b


def bigsum(body, K, n):
    """sum of body(j) for 0 <= j < n, linear in the parts that do not depend on j"""
    out = ZERO
    for m, c in body.t.items():
        dep = [(a, e) for a, e in m if a is K or K in Poly({((a, 1),): 1}).all_atoms()]
        ind = tuple((a, e) for a, e in m if (a, e) not in dep)
        co = Poly({ind: c})
        if not dep:
            out = out + co * n
        else:
            b = forward(subst(Poly({tuple(dep): 1}), {K: poly(BV)}), n)
            out = out + co * poly(app('sum', (b, n), b.is_int(), None, None))
    return out


def bigprod(body, K, n):
    # (c + j) for j < n with a constant c > 0: a quotient of factorials
    c0 = (body - poly(K)).const
    if isinstance(c0, int) and 1 < c0 < 20:
        f = 1
        for k in range(2, c0):
            f *= k
        return bigprod(poly(K) + 1, K, n + (c0 - 1)).scale(Fraction(1, f) if f > 1 else 1)
    if n.const is not None and 0 <= n.const < 8:
        r = P(1)
        for k in range(n.const):
            r = r * subst(body, {K: P(k)})
        return r
    if K not in body.all_atoms():
        return ipow_term(body, n)
    b = forward(subst(body, {K: poly(BV)}), n)
    return poly(app('prod', (b, n), b.is_int(), None, None))


def nested(b):
    return any(a.op in ('sum', 'prod') for a in b.all_atoms())


def rebuild_sum(args):
    b, n = args
    if nested(b):
        return poly(app('sum', (b, n), b.is_int(), None, None))
    k = n.const
    if k is not None and 0 <= k <= 8 and int(k) == k:
        r = ZERO
        for j in range(int(k)):
            r = r + subst(b, {BV: P(j)})
        return r
    return bigsum(b, BV, n)


def rebuild_prod(args):
    b, n = args
    if nested(b):
        return poly(app('prod', (b, n), b.is_int(), None, None))
    return bigprod(b, BV, n)


T.REBUILD['sum'] = rebuild_sum
T.REBUILD['prod'] = rebuild_prod


def it_delta(v, lj, a, em):
    """constant increment of phi a over one iteration"""
    d = v - poly(a)
    if d.const is not None:
        return d.const
    d = v - em[a]
    if d.const is not None and d.const != 0:
        return d.const
    return None


def join_states(it, ss):
    """join a list of states at one program point into few"""
    if len(ss) <= 1:
        return ss
    groups = {}
    for s in ss:
        key = (bool(s.flags.get('diag')),)
        groups.setdefault(key, []).append(s)
    out = []
    for g in groups.values():
        out.append(join_group(it, g))
    return out


def join_group(it, ss):
    base = ss[0]
    if len(ss) == 1:
        return base
    envids = [k for k in base.env if k != 'allocas' and all(k in s.env for s in ss)]
    slots = set()
    for s in ss[1:]:
        slots.update(diff(it, base, s, envids))
    whole = {s[1] for s in slots if s[0] == 'log'}
    N = base.copy()
    for k in list(N.env):
        if k != 'allocas' and k not in envids:
            del N.env[k]
    maps = [dict() for _ in ss]
    for slot in slots:
        if slot[0] == 'cell' and slot[1] in whole:
            continue
        if slot[0] == 'log':
            o = N.wobj(slot[1])
            o.cells, o.log, o.lazy, o.erange = {}, (), ('W', slot[1], it.fresh()), None
            continue
        if slot[0] == 'alive':
            if slot[1] in N.objs:
                N.wobj(slot[1]).alive = 'maybe'
            continue
        like = None
        if slot[0] == 'cell':
            for s in ss:
                o = s.objs.get(slot[1])
                if o is not None and slot[2] in o.cells:
                    like = o.cells[slot[2]]
                    break
        vals = [get_slot(it, s, slot, like) for s in ss]
        size = like[0] if like else 8
        sh = mkshape(it, vals, size or 8, ss)
        for m, v in zip(maps, vals):
            mm = sh.match(v)
            if mm:
                m.update(mm)
        if slot[0] == 'env':
            N.env[slot[1]] = sh.val
        else:
            N.wobj(slot[1]).cells[slot[2]] = (size, sh.val)
    # facts: constraints of each state that hold in all
    f = Facts()
    cands = []
    phis = sorted({a for m in maps for a in m if isinstance(m[a], Poly)}, key=lambda a: a.id)
    for s in ss:
        for a, e in s.facts.sub.items():
            cands.append(mk_eq(poly(a) - e))
        cands.extend(s.facts.cons)
        cands.extend(Cmp(q, 'ne') for q in s.facts.nes)
        cands.extend(BAtom(a, v) for a, v in s.facts.b.items())
    for a in phis:
        for m in maps:
            v = m.get(a)
            if v is not None:
                cands.append(mk_ge(poly(a) - v))
                cands.append(mk_ge(v - poly(a)))
        for b in phis:
            if b.id > a.id:
                cands.append(mk_ge(poly(a) - poly(b)))
                cands.append(mk_ge(poly(b) - poly(a)))
    seen = set()
    for c in cands:
        if isinstance(c, bool) or c in seen:
            continue
        seen.add(c)
        if all(s.facts.implies(cond_subst(c, m)) for s, m in zip(ss, maps)):
            fs = f.assume(c)
            if len(fs) == 1:
                f = fs[0]
    N.facts = f
    inx = tuple(sorted(set(w for s in ss for w in s.flags.get('inexact', ()))))
    if inx:
        N.flags['inexact'] = inx
    N.flags['joined'] = True
    return N
