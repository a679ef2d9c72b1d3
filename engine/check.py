#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--spec NAME] [-v]

Analyses every specification driver of a property against /repo's current
sources (nothing is executed) and decides the property.
exit 0: every obligation discharged (or only undecided ones left, listed in the
evidence); exit 1: VIOLATION; exit 2: the analysis itself is broken."""
import re, sys, os, signal, glob, json, time, tempfile, shutil, argparse, multiprocessing as mp, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, BuildError
sys.setrecursionlimit(20000)

T0 = time.time()
TOTAL = 600   # seconds; what is left over then is undecided
MODS = {}


def entry_state(it, fn):
    from vfa.state import State, Obj
    from vfa.terms import P, ZERO, poly
    from vfa.values import Ptr
    from vfa import terms as T
    st = State()
    args = []
    for k, a in enumerate(fn.args):
        t = a['t']
        if t == 'p':
            oid = 'arg%d' % k
            o = Obj(oid, 'param', P(a['deref']) if a.get('deref') else None, 'argument %d' % k, lazy=('arg', k))
            st.objs[oid] = o
            args.append(Ptr(oid, ZERO))
        elif t == 'i1':
            from vfa.terms import BAtom
            args.append(BAtom(T.sym('b%d' % k)))
        elif t[0] == 'i':
            b = int(t[1:])
            args.append(poly(T.sym('arg%d' % k, True, -(1 << (b - 1)), (1 << (b - 1)) - 1)))
        else:
            args.append(poly(T.sym('arg%d' % k, False)))
    return st, args


def start_states(it, st):
    """the state after the program's static initialisers"""
    cur = [st]
    for f in sorted(it.mod.raw):
        if f.startswith('_GLOBAL__sub_I'):
            cur = [s for c in cur for s, v in it.call_fn(c, f, [])]
    it.reports, it.obls, it.analysed = [], {}, {}
    return cur


def analyse(mod, spec, peel, max_time, split=False, fix=()):
    from vfa.interp import Interp, THROWN, Budget
    from vfa.models import Models
    it = Interp(mod, Models(mod), max_time=max_time, max_steps=10 ** 9)
    it.peel = peel
    it.entry_split = split
    it.spec = spec
    fn = mod.fn(spec)
    st, args = entry_state(it, fn)
    for at, v in fix:
        from vfa.terms import mk_eq, poly
        p = args[at] if isinstance(at, int) else poly(at)
        fs = st.facts.assume(mk_eq(p - v))
        if not fs:
            return it, True
        st.facts = fs[0]
    budget = False
    signal.signal(signal.SIGALRM, on_alarm)
    if T0 + TOTAL - time.time() < 1:
        return it, True
    signal.setitimer(signal.ITIMER_REAL, min(max_time, T0 + TOTAL - time.time()))
    try:
        it.returned = True
        outs = [(s, v) for s0 in start_states(it, st) for s, v in it.call_fn(s0, spec, args)]
        it.returned = bool(outs)
        for s, v in outs:
            if v is not THROWN and s.flags.get('err') == 'forbid':
                it.oblige('returns', s.flags.get('errlabel', 'call'), True)
            if v is THROWN:
                mode = s.flags.get('err', 'ok')
                lab = s.flags.get('errlabel', 'call')
                what = s.flags.get('thrown', ('exception', ('?', 0)))
                if mode in ('forbid', 'expect'):
                    it.curloc = what[1]
                    it.fnstack = []
                    it.oblige('exception', lab, False)
                    it.report('exception', lab, s, 'leaves by %s instead of %s' % (what[0], 'returning' if mode == 'forbid' else 'stopping with a message and a failing status'))
                else:
                    it.curloc, it.fnstack = what[1], []
                    it.oblige('exception', 'refused by an exception', True)
        if 'functional' in it.opts and outs and not any(r.kind == 'functional' for r in it.reports):
            it.curloc, it.fnstack = ('driver', 0), []
            it.oblige('functional', 'draw', True)
    except (Budget, Alarm):
        budget = True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return it, budget


class Alarm(BaseException):
    pass


def on_alarm(*a):
    raise Alarm()


def run_spec(job):
    js, spec, verbose, tmax = job
    t0 = time.time()
    mod = MODS[js]
    r = {'spec': spec, 'error': None}
    try:
        refute = any(i.get('fn') == 'vf_refute' for b in mod.fn(spec).blocks for i in b['insts'] if i['op'] in ('call', 'invoke'))
        if refute:
            # consequences of other specifications: only the exact pass, within a small budget
            tmax = tmax * 0.4
        it, budget = analyse(mod, spec, 1 if refute else 0, tmax)
        if refute and all(x.inexact for x in it.reports):
            it1, b1 = analyse(mod, spec, 3, tmax)
            it1.refutes |= it.refutes
            it, budget = it1, b1
        if refute:
            r.update(obl=0, sites=[], analysed=sorted(it.analysed), calls=it.calls, steps=it.steps, loops=len(it.loops_seen), reached=[], effects=[],
                     unmod=it.unmod, vacuous=[], unmod1={}, budget=False, exits=it.exits, alarms=[], refute=sorted(it.refutes), cut=budget)
            r['definite'] = [dict(fmt(x), through=['%s (%s:%s)' % (k, rel(v[0]), v[1]) for k, v in it.analysed.items()][-30:]) for x in it.reports if not x.inexact]
            r['alarms2'], r['budget2'] = [fmt(x) for x in it.reports], budget
            r['wall'] = round(time.time() - t0, 2)
            return r
        if it.reports and not budget:
            # second attempt: loops entered zero times are kept apart
            it1, b1 = analyse(mod, spec, 0, tmax, True)
            if not it1.reports and not b1:
                it, budget = it1, b1
        r['obl'] = sum(v[0] for v in it.obls.values())
        r['sites'] = [[k[0], k[1], '%s:%s' % tuple(k[2][:2]), v[0], v[1]] for k, v in it.obls.items()]
        r['analysed'] = sorted(it.analysed)
        r['calls'], r['steps'], r['loops'] = it.calls, it.steps, len(it.loops_seen)
        r['reached'] = sorted(it.reached)
        r['effects'] = sorted(str(e) for e in it.effects)
        r['unmod'] = it.unmod
        r['vacuous'] = vacuous(it, mod.fn(spec)) if not it.reports and not budget else []
        r['unmod1'] = dict(it.unmod)
        r['budget'] = budget
        r['exits'] = it.exits
        r['alarms'] = [fmt(x) for x in it.reports]
        r['definite'] = []
        if never_returns(it, mod.fn(spec)) and not budget:
            k, v = (list(it.analysed.items()) or [('?', ('?', 0))])[-1]
            r['definite'] = [{'kind': 'hang', 'label': 'the call returns', 'file': v[0], 'line': v[1], 'fn': k, 'inexact': [], 'witness': None, 'spec': spec, 'path': [],
                              'msg': 'no state reaches the end of the specification: a call does not return (last function entered: %s)' % k,
                              'through': ['%s (%s:%s)' % (k, rel(l[0]), l[1]) for k, l in it.analysed.items()][-30:]}]
        if it.reports or budget:
            it2, b2 = analyse(mod, spec, 3, tmax)
            r['definite'] = [dict(fmt(x), through=['%s (%s:%s)' % (k, rel(v[0]), v[1]) for k, v in it2.analysed.items()][-30:]) for x in it2.reports if not x.inexact]
            if not r['definite'] and it.reports:
                t1 = time.time()
                for at, v in cases(it, mod.fn(spec)):
                    if time.time() - t1 > tmax:
                        break
                    it3, b3 = analyse(mod, spec, 3, 20, fix=[(at, v)])
                    r['definite'] = [dict(fmt(x), through=['%s (%s:%s)' % (k, rel(l[0]), l[1]) for k, l in it3.analysed.items()][-30:]) for x in it3.reports if not x.inexact]
                    r['tried'] = r.get('tried', 0) + 1
                    if r['definite']:
                        break
            r['alarms2'] = [fmt(x) for x in it2.reports]
            r['budget2'] = b2
            if it2.unmod:
                r['unmod'] = dict(it.unmod, **it2.unmod)
    except Exception:
        r['error'] = traceback.format_exc()
    r['wall'] = round(time.time() - t0, 2)
    return r


def cases(it, fn):
    """sizes at which to look closer: the constants the code compares with, for every size or count among the inputs"""
    ks, ats = set(), []
    from vfa.terms import Cmp, Poly

    def add(a):
        if a.op == 'sym' and re.match(r'arg\d', a.name) and a.is_int:
            a = int(a.name[3:].split('#')[0])
        elif not a.op.startswith('len_'):
            return
        if a not in ats:
            ats.append(a)
    for r in it.reports:
        for a in r.atoms:
            add(a)
    for c in it.cmp_log:
        if isinstance(c, Cmp):
            at = c.p.all_atoms()
            for a in at:
                add(a)
            lin = [m for m in c.p.t if m]
            if len(lin) == 1 and len(lin[0]) == 1 and lin[0][0][1] == 1:
                k = c.p.t.get((), 0) / -c.p.t[lin[0]]
                k = int(k)
                ks.add(k)
    out = []
    for k in sorted(ks):
        for v in (k, k + 1, k - 1):
            if 3 <= v <= 280 and v not in out:
                out.append(v)
    out = out[:10]
    out += [v for v in (4, 5, 8, 16) if v not in out]
    return [(a, v) for v in out for a in ats[:3]][:24]


def vacuous(it, fn):
    """assertions of the specification that no state reaches"""
    calls = [i for b in fn.blocks for i in b['insts'] if i['op'] in ('call', 'invoke')]
    out = ['%s:%s' % tuple(i['loc'][:2]) for i in calls if i.get('fn') == 'vf_assert' and id(i) not in it.hit]
    names = [i.get('fn') for i in calls]
    if 'vf_forbid_error' in names and not out and not any(k[0] == 'returns' for k in it.obls):
        out.append('return')
    return out


def never_returns(it, fn):
    """the call the specification declares valid was analysed without any loss, and no state comes out of it"""
    names = [i.get('fn') for b in fn.blocks for i in b['insts'] if i['op'] in ('call', 'invoke')]
    return it.valid_seen and 'vf_expect_error' not in names and not it.reports and not it.unmod and not it.dropped and not it.exits \
        and not it.returned


def fmt(x):
    return {'kind': x.kind, 'label': x.label, 'file': x.loc[0], 'line': x.loc[1], 'fn': x.fn, 'msg': x.msg, 'inexact': list(x.inexact),
            'witness': x.witness, 'spec': x.spec, 'path': list(x.trail)}


def rel(f):
    return f[len(build.REPO) + 1:] if f.startswith(build.REPO + '/') else f


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                # KNOWN-FINDING: property=ID [specification|kind,kind] text: the specification is the failing history
                body = l.split(' ', 2)[2]
                if body.startswith('['):
                    key, text = body[1:].split(']', 1)
                    out.append((key.split('|'), text.strip(), l))
    return out


def is_known(known, d):
    for key, text, l in known:
        if len(key) == 2 and d['spec'] == key[0] and d['kind'] in key[1].split(','):
            return l
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--spec')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    pid = a.pid
    drivers = sorted(glob.glob(os.path.join(VERIF, 'drivers', pid + '*.cpp')))
    if not drivers:
        print('no drivers for', pid)
        return 2
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        return decide(a, pid, drivers, work)
    except BuildError as e:
        print('analysis broken: ' + str(e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(a, pid, drivers, work):
    from vfa.ir import Mod
    jobs = []
    tmax = 100 if a.tier == 'quick' else 400
    global TOTAL
    TOTAL = 600 if a.tier == 'quick' else 850
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        jss = list(ex.map(lambda d: build.build(d, work), drivers))
    for js in jss:
        m = Mod(js)
        MODS[js] = m
        specs = sorted(f for f in m.raw if f.startswith('spec_'))
        if a.spec:
            specs = [s for s in specs if a.spec in s]
        jobs += [(js, s, a.v, tmax) for s in specs]
    if not jobs:
        print('analysis broken: no specifications')
        return 2
    t_build = time.time() - T0
    with mp.get_context('fork').Pool(min(a.j, len(jobs)), maxtasksperchild=4) as pool:
        res = pool.map(run_spec, jobs, chunksize=1)
    bad = [r for r in res if r['error']]
    for r in bad:
        print('internal error in %s:\n%s' % (r['spec'], r['error'] if a.v else r['error'].strip().splitlines()[-1]))
    if bad and not a.v:
        # an analysis crash decides nothing for that spec
        pass
    viol, und = [], []
    known = known_findings(pid)
    hit = set()
    for r in res:
        if r['error']:
            und.append((r['spec'], 'analysis error', r['error'].strip().splitlines()[-1]))
            continue
        for d in r['definite']:
            k = is_known(known, d)
            if k:
                hit.add(k)
                continue
            viol.append(d)
        if not r['definite']:
            for d in r['alarms']:
                und.append((r['spec'], d['kind'] + ' ' + d['label'], '%s:%s %s%s' % (rel(d['file']), d['line'], d['msg'], ' [inexact: %s]' % '; '.join(d['inexact']) if d['inexact'] else '')))
            if r['budget']:
                und.append((r['spec'], 'budget', 'time limit'))
            for w in r['unmod1']:
                und.append((r['spec'], 'not modelled', w))
            for w in r['vacuous']:
                und.append((r['spec'], 'never reached', w))
            if r.get('refute') is not None:
                if not r['refute']:
                    und.append((r['spec'], 'never reached', 'the relation is not reached within the budget'))
            elif r['obl'] == 0 and r['exits'] == 0 and not r['reached']:
                und.append((r['spec'], 'vacuous', 'no obligation reached'))
    nobl = sum(r.get('obl', 0) for r in res)
    disc = sum(s[4] for r in res for s in r.get('sites', ()))
    fns = sorted(set(f for r in res for f in r.get('analysed', ())))
    sites = sorted(set((s[0], s[1], s[2]) for r in res for s in r.get('sites', ())))
    if a.v:
        for r in res:
            if r['error']:
                continue
            print('%-40s obl=%d exits=%d alarms=%d definite=%d steps=%d %.1fs %s' % (r['spec'], r['obl'], r['exits'], len(r['alarms']), len(r['definite']), r['steps'], r['wall'], 'BUDGET' if r['budget'] else ''))
            for d in r['alarms']:
                print('    alarm', rel(d['file']), d['line'], d['kind'], d['label'], d['fn'][:80], d['msg'], d['inexact'])
            for d in r['definite']:
                print('    DEFINITE', rel(d['file']), d['line'], d['kind'], d['label'], d['msg'])
            if r['unmod']:
                print('    unmod', r['unmod'])
    if a.spec is None or 1:
        ev = {
            'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
            'coverage': {
                'explanation': 'abstract interpretation of the LLVM IR of the current sources, one run per specification; each obligation is a program point (assertion, memory access, error exit) that must hold in every abstract state reaching it',
                'specifications': len(res), 'obligations': nobl, 'discharged': disc,
                'obligation_sites': len(sites), 'library_functions_analysed': len(fns),
                'call_sites_analysed': sum(r.get('calls', 0) for r in res), 'instructions_interpreted': sum(r.get('steps', 0) for r in res),
                'loops_solved': sum(r.get('loops', 0) for r in res), 'error_exits_seen': sum(r.get('exits', 0) for r in res),
                'undecided': [list(u) for u in und[:60]], 'undecided_count': len(und),
                'functions': fns[:400], 'sample_sites': [list(s) for s in sites[:40]],
                'rule': 'see DESIGN.md section ' + pid},
            'assumptions': ['standard library behaves as modelled in engine/vfa/stl.py', 'container sizes fit in int', 'floating point treated as real arithmetic, NaN excluded'],
            'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in sorted(hit):
        print(k)
    print('%s: %d specifications, %d obligations, %d discharged, %d undecided, %d library functions, %.1f s (build %.1f s)' % (
        pid, len(res), nobl, disc, len(und), len(fns), time.time() - T0, t_build))
    if not a.v:
        for u in und[:12]:
            print('  undecided: %s: %s: %s' % tuple(str(x)[:300] for x in u))
    if viol:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for d in viol:
                f.write('%s:%s: in %s\n  rule: %s (%s)\n  %s\n  specification: %s\n  for example: %s\n  call path: %s\n  library functions analysed on it: %s\n\n' % (
                    rel(d['file']), d['line'], d['fn'], d['label'], d['kind'], d['msg'], d['spec'], d['witness'], ' -> '.join(d['path']), ', '.join(d['through'])))
        seen = set()
        for d in viol:
            k = (d['file'], d['line'], d['label'])
            if k in seen:
                continue
            seen.add(k)
            print('%s:%s: %s [%s] %s' % (rel(d['file']), d['line'], d['label'], d['kind'], d['msg'][:400]))
            if d['witness']:
                print('    e.g. %s' % d['witness'][:300])
            if d['through'] and d['file'].startswith(VERIF):
                print('    through %s' % ', '.join(d['through'][-4:]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if nobl == 0 and not sum(r.get('exits', 0) for r in res):
        print('analysis broken: no obligations')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
