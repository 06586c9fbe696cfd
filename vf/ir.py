"""Loads irdump's JSON into light objects."""
import json


class Fn:
    __slots__ = ('name', 'dem', 'decl', 'nounwind', 'noreturn', 'ret', 'args', 'blocks', 'loops', 'file', 'line', 'live', 'edge',
                 'heads', 'external')

    def __init__(self, name, d):
        self.name = name
        self.dem = d['dem']
        self.decl = d['decl']
        self.nounwind = d['nounwind']
        self.noreturn = d['noreturn']
        self.ret = d['ret']
        self.args = d['args']
        self.external = d.get('external', False)
        self.blocks = d.get('blocks', [])
        self.loops = d.get('loops', [])
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.live = None
        self.heads = {}
        for l in self.loops:
            self.heads[l['h']] = frozenset(l['b'])

    def short(self):
        return self.dem.split('(')[0].replace('ReiserRT::Core::', '')

    def liveness(self):
        """live registers per block, once its phis are evaluated"""
        if self.live is not None:
            return self.live
        n = len(self.blocks)
        phis, feeds = [set() for _ in range(n)], {}
        use, dfn, succ = [set() for _ in range(n)], [set() for _ in range(n)], [[] for _ in range(n)]

        def ops(v, out):
            if isinstance(v, bool):
                return
            if isinstance(v, int):
                out.add(v)
        for bi, b in enumerate(self.blocks):
            for I in b:
                op = I['op']
                us = set()
                if op == 'br':
                    if 'c' in I:
                        ops(I['c'], us)
                    succ[bi] = list(I['s'])
                elif op == 'switch':
                    ops(I['c'], us)
                    succ[bi] = [I['d']] + [x[1] for x in I['s']]
                elif op == 'phi':
                    phis[bi].add(I['id'])
                    for pb, v in I['in']:
                        ops(v, feeds.setdefault((pb, bi), set()))
                    continue
                elif op in ('call', 'invoke'):
                    ops(I['f'], us)
                    for a in I['a']:
                        ops(a, us)
                    if op == 'invoke':
                        succ[bi] = [I['n'], I['u']]
                elif op == 'load':
                    ops(I['p'], us)
                elif op == 'store':
                    ops(I['p'], us)
                    ops(I['v'], us)
                elif op == 'getelementptr':
                    ops(I['p'], us)
                    for x in I.get('vo', []):
                        ops(x[0], us)
                elif op == 'alloca':
                    ops(I['n'], us)
                else:
                    for a in I.get('a', []):
                        ops(a, us)
                use[bi] |= (us - dfn[bi])
                if 'id' in I:
                    dfn[bi].add(I['id'])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                s = set(use[bi])
                for t in succ[bi]:
                    s |= ((live[t] - phis[t]) | feeds.get((bi, t), set())) - dfn[bi]
                if s != live[bi]:
                    live[bi] = s
                    ch = True
        self.live = live
        self.edge = {(bi, t): (live[t] - phis[t]) | feeds.get((bi, t), set()) for bi in range(n) for t in succ[bi]}
        return live


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {n: Fn(n, f) for n, f in d['funcs'].items()}
        self.globals = d['globals']
        self.types = {}
        self.types_by_id = {}
        for t in d['types']:
            if t['size']:
                self.types.setdefault(t['name'], t)
                if t['id']:
                    self.types_by_id[t['id']] = t
        self._ti = {}

    def member_at(self, tname, off):
        """(dotted member name, member record) of the innermost member at a byte offset of a record"""
        t = self.types.get(tname)
        path = []
        while t:
            best = None
            for m in t['m']:
                if m['o'] <= off and (off < m['o'] + max(m['s'], 1)):
                    if best is None or m['o'] >= best['o']:
                        best = m
            if best is None:
                for m in t['m']:
                    if m['n'] == '<base>' and m['o'] <= off:
                        best = m
            if best is None:
                return '.'.join(path), None
            if best['n'] != '<base>':
                path.append(best['n'])
            off -= best['o']
            nt = self.types_by_id.get(best['tid']) if best['tid'] else None
            if best['ptr'] or nt is None:
                return '.'.join(path), best
            t = nt
        return '.'.join(path), None

    def typeinfo_bases(self, ti):
        """names of all typeinfo objects ti derives from (itself included)"""
        if ti in self._ti:
            return self._ti[ti]
        out = {ti}
        self._ti[ti] = out
        g = self.globals.get(ti)
        if g and 'init' in g:
            def walk(v):
                if v.get('k') == 'g' and v['n'].startswith('_ZTI') and v['n'] != ti:
                    out.update(self.typeinfo_bases(v['n']))
                for e in v.get('e', []):
                    walk(e[1])
            walk(g['init'])
        else:
            # typeinfo that lives in the standard library
            std = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
                   '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
                   '_ZTISt17bad_function_call': ['_ZTISt9exception'],
                   '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
                   '_ZTISt12length_error': ['_ZTISt11logic_error'],
                   '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
                   '_ZTISt14overflow_error': ['_ZTISt13runtime_error']}
            for b in std.get(ti, []):
                out.update(self.typeinfo_bases(b))
        return out
