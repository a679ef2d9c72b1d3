import json, re


class Fn:
    __slots__ = ('name', 'dem', 'args', 'ret', 'blocks', 'file', 'line', 'rpo', 'loops', 'inloop', 'parsed', 'raw')


class Mod:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d['functions']
        self.globals = d['globals']
        self.names = d['names']
        self.types = d.get('types', {})
        self._f = {}
        self.bydem = {}
        for n, dm in self.names.items():
            self.bydem.setdefault(dm, n)

    def fn(self, name):
        f = self._f.get(name)
        if f is not None:
            return f
        r = self.raw.get(name)
        if r is None:
            return None
        f = Fn()
        f.name, f.dem, f.args, f.ret = r['name'], r['dem'], r['args'], r['ret']
        f.blocks = r['blocks']
        f.file, f.line = r.get('file'), r.get('line')
        f.raw = r
        self._prep(f)
        self._f[name] = f
        return f

    def _prep(self, f):
        n = len(f.blocks)
        succ = []
        for b in f.blocks:
            t = b['insts'][-1]
            if t['op'] in ('br', 'invoke'):
                succ.append(t['succ'])
            elif t['op'] == 'switch':
                succ.append([t['def']] + [c[1] for c in t['cases']])
            else:
                succ.append([])
        seen = set()
        order = []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        f.rpo = {b: i for i, b in enumerate(order)}
        f.loops = {}
        for i, b in enumerate(f.blocks):
            if 'loop' in b:
                f.loops[i] = frozenset(b['loop'])


# ------------------------------------------------------------ demangled names
class Name:
    __slots__ = ('scope', 'fn', 'targs', 'params', 'const', 'cls', 'ctargs', 'full')

    def __repr__(self):
        return 'Name(%s | %s | %s)' % (self.cls, self.fn, self.params)


_OPS = ['operator<<=', 'operator>>=', 'operator<=>', 'operator->*', 'operator<<', 'operator>>', 'operator<=', 'operator>=',
        'operator->', 'operator()', 'operator[]', 'operator<', 'operator>']


def split_top(s, sep):
    out, depth, cur, i = [], 0, '', 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            if not (c == '>' and i and s[i - 1] == '-'):
                depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append(cur)
            cur = ''
            i += len(sep)
            continue
        cur += c
        i += 1
    out.append(cur)
    return out


_pn = {}


_TOPS = {'lt': 'operator<', 'gt': 'operator>', 'le': 'operator<=', 'ge': 'operator>=', 'eq': 'operator==', 'ne': 'operator!=',
         'ls': 'operator<<', 'rs': 'operator>>', 'pl': 'operator+', 'mi': 'operator-', 'ml': 'operator*', 'dv': 'operator/'}


def parse_name(dem, mangled=None):
    r = _pn.get((dem, mangled))
    if r is None:
        r = None
        if mangled:
            m = re.match(r'_ZSt(lt|gt|le|ge|eq|ne|ls|rs|pl|mi|ml|dv)[A-Z]', mangled) or \
                re.match(r'_ZN(?:St|9__gnu_cxx|St7__cxx11|6cuhksz)(lt|gt|le|ge|eq|ne|ls|rs|pl|mi|ml|dv)I', mangled)
            if m:
                op = _TOPS[m.group(1)]
                mm = re.search(r'(^|[\s:])' + re.escape(op) + r'\s?(?=[<(])', dem)
                if mm:
                    d2 = dem[:mm.start()] + mm.group(1) + 'OPX' + dem[mm.end():]
                    r = _parse(d2)
                    r.fn = r.fn.replace('OPX', op)
                    r.full = dem
        if r is None:
            r = _parse(dem)
        _pn[(dem, mangled)] = r
    return r


def _parse(dem):
    n = Name()
    n.full = dem
    s = dem
    # protect operator tokens
    prot = None
    s = re.sub(r'\[abi:\w+\]', '', s)
    m = None
    for op in _OPS:
        # only when used as the function's own name: operator followed by '(' or '<'
        i = s.find('::' + op + '(')
        j = s.find('::' + op + '<')
        if j >= 0 and (i < 0 or j < i) and op not in ('operator<', 'operator<<') :
            i = j
        if op in ('operator<', 'operator<<'):
            k = s.find('::' + op + '<')
            if k >= 0 and i < 0 and not s.startswith('::operator<<', k) or (k >= 0 and i < 0 and op == 'operator<<'):
                i = k
        if i >= 0:
            # must be at depth 0
            d = 0
            ok = True
            pre = s[:i]
            for x, c in enumerate(pre):
                if c in '<(':
                    d += 1
                elif c in '>)':
                    d -= 1
            if d == 0:
                prot = op
                s = s[:i + 2] + 'OPERATOR_' + s[i + 2 + len(op):]
                break
        if s.startswith(op + '('):
            prot = op
            s = 'OPERATOR_' + s[len(op):]
            break
    # parameter list: last top-level (...)
    n.const = False
    t = s
    if t.endswith(' const'):
        t = t[:-6]
        n.const = True
    if t.endswith(' &') or t.endswith(' &&'):
        t = t.rsplit(' ', 1)[0]
    params = []
    name = t
    if t.endswith(')'):
        d = 0
        for i in range(len(t) - 1, -1, -1):
            if t[i] == ')':
                d += 1
            elif t[i] == '(':
                d -= 1
                if d == 0:
                    break
        inner = t[i + 1:-1]
        name = t[:i]
        params = [p.strip() for p in split_top(inner, ',')] if inner.strip() else []
    # drop a return type: last top-level space outside <>; keep "operator X" conversions
    parts = split_top(name, ' ')
    if len(parts) > 1:
        k = None
        for i, p in enumerate(parts):
            if p.endswith('operator'):
                k = i
        if k is not None:
            name = ' '.join(parts[k:])
        else:
            name = parts[-1]
    comps = split_top(name, '::')
    fnm = comps[-1]
    targs = []
    if fnm.endswith('>') and '<' in fnm:
        i = fnm.index('<')
        targs = [x.strip() for x in split_top(fnm[i + 1:-1], ',')]
        fnm = fnm[:i]
    if prot:
        fnm = fnm.replace('OPERATOR_', prot)
    n.fn, n.targs, n.params = fnm, targs, params
    sc = [c for c in comps[:-1] if c not in ('__cxx11', '__1')]
    n.scope = sc
    if sc:
        last = sc[-1]
        if '<' in last:
            i = last.index('<')
            n.ctargs = [x.strip() for x in split_top(last[i + 1:-1], ',')]
            last = last[:i]
        else:
            n.ctargs = []
        n.cls = '::'.join([re.sub(r'<.*', '', c) for c in sc[:-1]] + [last])
    else:
        n.cls, n.ctargs = '', []
    return n
