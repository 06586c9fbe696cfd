"""Path-sensitive abstract interpreter over the resolved program.

Every defined callee is analysed in its calling context, exceptional control flow included; loops are run to a fixpoint
(states equal up to renaming of unknowns are merged, changing values are widened to affine forms or to unknown).
Nothing is executed on concrete inputs and no solver is asked; a check plugs observers (typestate automata) in."""
import re
from .values import (Atom, Poly, Facts, atom, fresh, pa, const, mk, add, sub, scale, mul, TRUE, FALSE, form_key)
from .front import Broken


class Infeasible(Exception):
    pass


class Trace:
    __slots__ = ('prev', 'what')

    def __init__(self, prev, what):
        self.prev = prev
        self.what = what


class Loop:
    __slots__ = ('visits', 'snap', 'forks', 'wid', 't', 'hard', 'cands', 'bad', 'keys')

    def __init__(self):
        self.cands = ()             # bounds assumed of the widened state, to be shown to persist
        self.bad = frozenset()      # bounds found not to persist
        self.visits = 0
        self.snap = None
        self.forks = 0
        self.wid = None
        self.t = None
        self.hard = frozenset()
        self.keys = frozenset()     # states this path was in at the head of the loop

    def copy(self):
        l = Loop()
        l.visits, l.snap, l.forks, l.wid, l.t, l.hard = self.visits, self.snap, self.forks, self.wid, self.t, self.hard
        l.cands, l.bad, l.keys = self.cands, self.bad, self.keys
        return l


class Frame:
    __slots__ = ('fn', 'bi', 'ii', 'prev', 'regs', 'allocas', 'loops', 'call', 'args')

    def __init__(self, fn, call):
        self.fn = fn
        self.bi = 0
        self.ii = 0
        self.prev = -1
        self.regs = {}
        self.allocas = []
        self.loops = {}
        self.call = call      # the calling instruction in the caller frame
        self.args = ()

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.bi, f.ii, f.prev, f.call, f.args = self.fn, self.bi, self.ii, self.prev, self.call, self.args
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.loops = {k: v.copy() for k, v in self.loops.items()} if self.loops else {}
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.facts = Facts()
        self.locks = ()
        self.obs = {}
        self.trace = None
        self.exc = None          # exception in flight: (type, exclusions, object, label)
        self.caught = ()
        self.preset = ()
        self.pi = 0
        self.base = None         # this state as it was before the current step, which a fork starts again from
        self.nforks = 0
        self.freed = frozenset()
        self.exn = 0

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.facts = self.facts.copy()
        s.locks = self.locks
        s.obs = dict(self.obs)
        s.trace = self.trace
        s.exc, s.caught = self.exc, self.caught
        s.preset, s.pi = self.preset, self.pi
        s.base = None
        s.nforks = self.nforks
        s.freed = self.freed
        s.exn = self.exn
        return s

    def region(self, base, write=False):
        r = self.mem.get(base)
        if r is None:
            r = {}
            self.mem[base] = r
            self.own.add(base)
        elif write and base not in self.own:
            r = dict(r)
            self.mem[base] = r
            self.own.add(base)
        return r

    def note(self, what):
        self.trace = Trace(self.trace, what)


class Exit:
    __slots__ = ('kind', 'value', 'state', 'exc', 'why')

    def __init__(self, kind, value, state, exc=None, why=None):
        self.kind, self.value, self.state, self.exc, self.why = kind, value, state, exc, why


LIB_PREFIX = 'ReiserRT::Core::'
ANY = '<any>'
_demangled = {}


def width(t):
    if t == 'p':
        return 64
    if isinstance(t, int):
        return t
    if isinstance(t, dict) and 'f' in t:
        return t['f']
    return None


class Engine:
    """One analysis run over a set of entry functions."""
    MAX_STEPS = 3000000
    MAX_DEPTH = 120
    LOOP_CONCRETE = 80

    def __init__(self, M, observers=(), mutable=None, opts=None):
        self.M = M
        self.obs = list(observers)
        self.mutable = mutable if mutable is not None else set()
        self.opts = opts or {}
        self.stats = {'paths': 0, 'instructions': 0, 'functions': set(), 'calls': 0, 'merged': 0, 'widened': 0,
                      'unknown_externals': set()}
        self.stored = set()
        self.models = {}
        self.rx = []
        from . import models
        models.install(self)
        self.seen = set()
        self.tids = {}
        self.contracts = {}
        self.exits = []
        self.violations = []
        self.heapinfo = {}
        self.excobjs = set()

    # -- naming ----------------------------------------------------------------------------------------------------
    def fieldkey(self, base, off):
        """access path of a field: root label, then byte offsets separated by dereferences"""
        o = off if isinstance(off, int) else '*'
        if base.kind == 'param':
            return (base.label, o)
        if base.kind == 'fld':
            b, p, v = base.args[0], base.args[1], base.args[2]
            return self.fieldkey(b, p) + (o,)
        if base.kind in ('global', 'func'):
            return ('@' + base.label, o)
        if base.kind == 'sym' and isinstance(base.args, tuple) and base.args and base.args[0] == 'of':
            return base.args[1] + (o,)
        return ('%' + base.kind, o)

    def typename(self, base):
        """record type an address points to, where known"""
        t = self.opts.get('root_types', {})
        if base.kind == 'param':
            return t.get(base.label)
        if base.kind == 'fld' or (base.kind == 'sym' and base.args and base.args[0] == 'of'):
            k = self.fieldkey(base, 0)[:-1]
            return self.typename_of_path(k)
        return None

    def typename_of_path(self, k):
        t = self.opts.get('root_types', {}).get(k[0])
        for o in k[1:]:
            if t is None or o == '*':
                return None
            _, m = self.M.member_at(t, o)
            if m is None:
                return None
            n = self.M.types_by_id.get(m['tid'])
            t = n['name'] if n else None
        return t

    def pretty(self, k):
        """human readable access path"""
        if not isinstance(k, tuple):
            return str(k)
        t = self.opts.get('root_types', {}).get(k[0])
        out = str(k[0])
        for i, o in enumerate(k[1:]):
            nm, m = (None, None)
            if t is not None and o != '*':
                nm, m = self.M.member_at(t, o)
            out += ('->' if i or True else '') + (nm or ('[%s]' % (o,)))
            n = self.M.types_by_id.get(m['tid']) if m else None
            t = n['name'] if n else None
        return out

    def is_mut(self, k):
        return k in self.mutable or (k[:-1] + ('*',)) in self.mutable

    # -- values ----------------------------------------------------------------------------------------------------
    def tid(self, name):
        return self.tids.setdefault(name, len(self.tids) + 1)

    def tiname(self, ty):
        from subprocess import run
        if ty.startswith('_ZTI'):
            c = _demangled.get(ty)
            if c is None:
                c = _demangled[ty] = run(['c++filt', ty], capture_output=True, text=True).stdout.strip().replace('typeinfo for ', '') or ty
            return c
        return ty

    def gaddr(self, n):
        if n in self.M.fns:
            return atom('func', (n,), 64, 4096, (1 << 47), label=n, ptr=True)
        return atom('global', (n,), 64, 4096, (1 << 47), label=n, ptr=True)

    def val(self, st, v):
        if type(v) is int:
            return st.frames[-1].regs[v]
        k = v['k']
        if k == 'i':
            return const(int(v['v']), v['w'])
        if k == 'g':
            p = pa(self.gaddr(v['n']))
            return add(p, const(v['o'], 64)) if v['o'] else p
        if k == 'u':
            return self.undef(v['t'])
        if k == 'z':
            return self.zero(v['t'])
        if k == 'fp':
            return const(int(v['v']), v['w'])
        if k == 'agg':
            return tuple(self.val(st, e[1]) for e in v['e'])
        return pa(fresh('const?', 64))

    def undef(self, t):
        if isinstance(t, dict) and 'agg' in t:
            return tuple(self.undef(x[1]) for x in t['agg'])
        w = width(t) or 64
        return pa(fresh('undef', w, kind='undef'))

    def zero(self, t):
        if isinstance(t, dict) and 'agg' in t:
            return tuple(self.zero(x[1]) for x in t['agg'])
        return const(0, width(t) or 64)

    def fresh_of(self, t, label):
        if isinstance(t, dict) and 'agg' in t:
            return tuple(self.fresh_of(x[1], label) for x in t['agg'])
        return pa(fresh(label, width(t) or 64, ptr=(t == 'p')))

    def trunc(self, st, p, w):
        if p.w == w and not any(a.kind == 'mod' and a.args[0].w >= w for m, k in p.t for a in m):
            return p
        d = {}
        c = p.c
        for m, k in p.t:
            ms = [()]
            sub_ps = []
            simple = []
            for a in m:
                if a.hi < (1 << w) and not (a.kind == 'mod' and a.args[0].w >= w):
                    simple.append(a)
                else:
                    sub_ps.append(a)
            if not sub_ps:
                d[m] = d.get(m, 0) + k
                continue
            q = const(k, w)
            for a in simple:
                q = mul(q, mk(w, 0, {(a,): 1}))
            for a in sub_ps:
                q = mul(q, self.ext_atom(st, a, 0, w))
            c += q.c
            for mm, kk in q.t:
                d[mm] = d.get(mm, 0) + kk
        return mk(w, c, d)

    def ext_atom(self, st, a, lo, w):
        """bits [lo, lo+w) of an atom as a value of width w"""
        if a.hi >> lo == 0:
            return const(0, w)
        l, h = st.facts.atom_iv(a)
        if l == h:
            return const((l >> lo) & ((1 << w) - 1), w)
        if a.kind == 'mod':
            return self.extract(st, a.args[0], lo, w)
        if a.kind == 'ext':
            b, l2, w2 = a.args
            if lo + w <= w2:
                return self.ext_atom(st, b, l2 + lo, w)
        if lo == 0 and a.hi < (1 << w):
            return mk(w, 0, {(a,): 1})
        if lo == 0 and h < (1 << w):
            return mk(w, 0, {(a,): 1})
        n = min(w, a.w - lo)
        hi = min((1 << n) - 1, a.hi >> lo)
        at = atom('ext', (a, lo, n), n, 0, hi, label='%r[%d:%d]' % (a, lo, lo + n))
        if h < (1 << (lo + n)) and (l >> lo, h >> lo) != (0, hi):
            st.facts.set_form((((at,), 1),), l >> lo, h >> lo)
        return mk(w, 0, {(at,): 1})

    def rounded(self, st, p):
        """the same with a value less its own low bits written as a multiple of a power of two"""
        d = None
        for m, k in p.t:
            if len(m) == 1 and m[0].kind == 'ext' and m[0].args[1] == 0:
                a, _, n = m[0].args
                if a.w == p.w and dict(p.t).get((a,)) == -k:
                    d = dict(p.t) if d is None else d
                    if d.get((a,)) != -k:
                        continue
                    del d[m], d[(a,)]
                    h = self.ext_atom(st, a, n, a.w - n)
                    for hm, hk in h.t:
                        d[hm] = d.get(hm, 0) - k * hk * (1 << n)
                    if h.c:
                        return p
        return p if d is None else mk(p.w, p.c, d)

    def extract(self, st, p, lo, w):
        """bits [lo, lo+w) of p"""
        if lo == 0:
            return self.trunc(st, p, w) if w < p.w else p
        p = self.rounded(st, p)
        if p.is_const():
            return const(p.u >> lo, w)
        s = p.single()
        if s is not None:
            return self.ext_atom(st, s, lo, w)
        # split into a low part that cannot carry and a part divisible by 2^lo
        low, high = {}, {}
        for m, k in p.t:
            r = k % (1 << lo)
            if r:
                low[m] = r
            if k - r:
                high[m] = k - r
        cl = p.c % (1 << lo)
        ch = p.c - cl
        if high or ch:
            lp = mk(p.w + 1, cl, low)
            a, b = st.facts.int_iv(lp)
            if 0 <= a and b < (1 << lo):
                q = mk(p.w - lo, ch >> lo, {m: k >> lo for m, k in high.items()})
                if w <= q.w:
                    return self.trunc(st, q, w)
                return self.zext(st, q, w)
        k, (a, b) = st.facts.window(p)
        if k is not None and b < (1 << lo):
            return const(0, w)
        n = min(w, p.w - lo)
        at = atom('shr', (p, lo), n, label='(%r>>%d)' % (p, lo))
        if k is not None:
            st.facts.set_form((((at,), 1),), a >> lo, min(b >> lo, (1 << n) - 1))
        return mk(w, 0, {(at,): 1})

    def zext(self, st, p, w):
        if p.w == w:
            return p
        if p.is_const():
            return const(p.u, w)
        k, (lo, hi) = st.facts.window(p)
        if k is not None:
            return mk(w, p.c - (k << p.w), dict(p.t))
        return mk(w, 0, {(atom('mod', (p,), p.w, label='(%r)%%2^%d' % (p, p.w)),): 1})

    def sext(self, st, p, w):
        if p.w == w:
            return p
        if p.is_const():
            return const(p.c if p.w > 1 else -p.c, w)
        h = 1 << (p.w - 1)
        lo, hi = st.facts.int_iv(p)
        if -h <= lo and hi < h:
            return mk(w, p.c, dict(p.t))
        k, (lo, hi) = st.facts.window(p)
        if k is not None and hi < h:
            return mk(w, p.c - (k << p.w), dict(p.t))
        return mk(w, 0, {(atom('sext', (p, w), w, label='sext(%r)' % (p,)),): 1})

    def binop(self, st, op, a, b, w):
        F = st.facts
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        if w == 1 and op in ('and', 'or', 'xor'):
            if op == 'xor':
                if b is TRUE:
                    return add(a, b)
                if a is TRUE:
                    return add(b, a)
            x = self.decide(st, a)
            if op == 'and':
                return b if x else FALSE
            if op == 'or':
                return TRUE if x else b
            return add(b, TRUE) if x else b
        # evaluate over singletons
        (al, ah), (bl, bh) = F.urange(a), F.urange(b)
        ac = al if al == ah else None
        bc = bl if bl == bh else None
        M = (1 << w) - 1
        if ac is not None and bc is not None:
            r = {'udiv': lambda: ac // bc if bc else 0, 'urem': lambda: ac % bc if bc else 0, 'and': lambda: ac & bc,
                 'or': lambda: ac | bc, 'xor': lambda: ac ^ bc, 'shl': lambda: (ac << bc) & M if bc < w else 0,
                 'lshr': lambda: ac >> bc if bc < w else 0}.get(op)
            if r:
                return const(r(), w)
            sa = ac - (1 << w) if ac >> (w - 1) else ac
            sb = bc - (1 << w) if bc >> (w - 1) else bc
            if op == 'ashr':
                return const(sa >> bc, w)
            if op == 'sdiv' and sb:
                return const(int(sa / sb) if abs(sa) < 2**52 else (abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1), w)
            if op == 'srem' and sb:
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return const(sa - q * sb, w)
        if op == 'shl' and bc is not None:
            return scale(a, 1 << bc) if bc < w else const(0, w)
        if op == 'lshr' and bc is not None:
            if bc >= w:
                return const(0, w)
            if bc == 0:
                return a
            return self.zext(st, self.extract(st, a, bc, w - bc), w)
        if op == 'ashr' and bc is not None and ah < (1 << (w - 1)):
            return self.binop(st, 'lshr', a, const(bc, w), w)
        if op in ('sdiv', 'srem') and ah < (1 << (w - 1)) and bh < (1 << (w - 1)):
            return self.binop(st, 'udiv' if op == 'sdiv' else 'urem', a, b, w)
        if op in ('udiv', 'urem') and bc:
            if bc & (bc - 1) == 0:
                n = bc.bit_length() - 1
                if op == 'urem':
                    return self.lowbits(st, a, n, w)
                return self.binop(st, 'lshr', a, const(n, w), w)
            k, (lo, hi) = F.window(a)
            if k is not None:
                if hi < bc:
                    return a if op == 'urem' else const(0, w)
                c0 = a.c - (k << w)
                if all(cf % bc == 0 for _, cf in a.t):
                    r = c0 % bc
                    if op == 'urem':
                        return const(r, w)
                    return mk(w, (c0 - r) // bc, {m: cf // bc for m, cf in a.t})
                if lo // bc == hi // bc:
                    q = lo // bc
                    return const(q, w) if op == 'udiv' else sub(a, const(q * bc, w))
            if op == 'urem':
                return mk(w, 0, {(atom('urem', (a, const(bc, w)), w, 0, bc - 1, label='(%r%%%d)' % (a, bc)),): 1})
            at = atom('udiv', (a, const(bc, w)), w, 0, M // bc, label='(%r/%d)' % (a, bc))
            F.set_form((((at,), 1),), al // bc, ah // bc)
            return mk(w, 0, {(at,): 1})
        if op == 'and':
            for x, c in ((a, bc), (b, ac)):
                if c is None:
                    continue
                if c == 0:
                    return const(0, w)
                if c & (c + 1) == 0:
                    return self.lowbits(st, x, c.bit_length(), w)
                inv = (~c) & M
                if inv & (inv + 1) == 0:
                    return sub(x, self.lowbits(st, x, inv.bit_length(), w))
                lowz = (c & -c).bit_length() - 1
                cc = c >> lowz
                if cc & (cc + 1) == 0:
                    y = self.extract(st, x, lowz, w - lowz)
                    return scale(self.lowbits(st, self.zext(st, y, w), cc.bit_length(), w), 1 << lowz)
        if op == 'or':
            za, zb = self.maybe_bits(st, a), self.maybe_bits(st, b)
            if za & zb == 0:
                return add(a, b)
            oa, ob = self.known_ones(st, a), self.known_ones(st, b)
            lo = max(al, bl, oa | ob)
            hi = za | zb
            if lo == hi:
                return const(lo, w)
            x, y = sorted((a, b), key=lambda p: (p.t and tuple(q.id for q in p.t[0][0]) or (), p.c))
            at = atom('or', (x, y), w, 0, M, label='(%r|%r)' % (x, y))
            F.set_form((((at,), 1),), lo, hi)
            return mk(w, 0, {(at,): 1})
        if op in ('and', 'mul', 'xor') and id(a) > id(b):
            pass
        lo, hi = 0, M
        if op == 'and':
            hi = min(ah, bh)
        if op == 'udiv' and bl > 0:
            lo, hi = al // bh, ah // bl
        if op == 'urem':
            hi = min(ah, bh - 1 if bh else 0)
            if bl > ah:
                return a
        if op == 'lshr':
            hi = ah
        at = atom(op, (a, b), w, 0, M, label='(%r %s %r)' % (a, op, b))
        if (lo, hi) != (0, M):
            F.set_form((((at,), 1),), lo, hi)
        return mk(w, 0, {(at,): 1})

    def maybe_bits(self, st, p):
        """mask of bits that may be set"""
        k, (lo, hi) = st.facts.window(p)
        m = (1 << hi.bit_length()) - 1
        # trailing zeros from divisible coefficients
        g = 0
        p = self.rounded(st, p)
        for _, c in p.t:
            g |= c
        g |= p.c
        if g:
            tz = (g & -g).bit_length() - 1
            m &= ~((1 << tz) - 1)
        return m & ((1 << p.w) - 1)

    def known_ones(self, st, p):
        k, (lo, hi) = st.facts.window(p)
        if k is None:
            return 0
        n = hi.bit_length()
        r = 0
        for i in range(n - 1, -1, -1):
            if (lo >> i) != (hi >> i):
                break
            r |= (lo >> i & 1) << i
        s = p.single()
        if s is not None and s.kind == 'or':
            r |= self.known_ones(st, s.args[0]) | self.known_ones(st, s.args[1])
        if s is not None and s.kind in ('shr',):
            r |= self.known_ones(st, s.args[0]) >> s.args[1]
        return r

    def lowbits(self, st, x, n, w):
        if n >= w:
            return x
        if n == 0:
            return const(0, w)
        k, (lo, hi) = st.facts.window(x)
        if k is not None and hi < (1 << n):
            return x if k == 0 else mk(w, x.c - (k << w), dict(x.t))
        if x.t and all(cf % (1 << n) == 0 for _, cf in x.t):
            return const(x.c % (1 << n), w)
        y = self.trunc(st, x, n)
        return self.zext(st, y, w)

    # -- decisions -------------------------------------------------------------------------------------------------
    def choose(self, st, n):
        if st.pi < len(st.preset):
            v = st.preset[st.pi]
            st.pi += 1
            return v
        # a fork repeats the whole step, with the choices made so far and this one prescribed
        if st.base is None:
            raise Broken('a choice in a step that was not expected to make one')
        for i in range(n - 1, 0, -1):
            s = st.base.copy()
            s.preset = st.preset + (i,)
            s.pi = 0
            s.nforks = st.nforks + 1
            self.work.append(s)
        st.preset = st.preset + (0,)
        st.pi += 1
        st.nforks += 1
        return 0

    def known(self, st, c):
        """True/False/None for a width-1 value"""
        if c.is_const():
            return bool(c.u)
        neg = False
        if c.c:
            neg = True
            c = add(c, TRUE)
        s = c.single()
        if s is None:
            l, h = st.facts.urange(c)
            return (bool(l) != neg) if l == h else None
        r = None
        l, h = st.facts.atom_iv(s)
        if l == h:
            r = bool(l)
        elif s.kind == 'cmp':
            r = st.facts.compare(*s.args)
        if r is None:
            return None
        return r != neg

    def assume(self, st, c, truth):
        if c.is_const():
            return bool(c.u) == truth
        if c.c:
            return self.assume(st, add(c, TRUE), not truth)
        s = c.single()
        if s is None:
            return True
        if not st.facts.set_form((((s,), 1),), int(truth), int(truth)):
            return False
        if s.kind == 'cmp':
            return st.facts.assume_cmp(s.args[0], s.args[1], s.args[2], truth)
        return True

    def decide(self, st, c):
        k = self.known(st, c)
        if k is not None:
            return k
        v = self.choose(st, 2) == 0
        if not self.assume(st, c, v):
            raise Infeasible()
        return v

    def icmp(self, st, pred, a, b):
        r = st.facts.compare(pred, a, b)
        if r is not None:
            return TRUE if r else FALSE
        # comparing a widened boolean with a constant
        if pred in ('eq', 'ne'):
            if len(a.t) == 1 and len(b.t) == 1 and a.w == 64:
                x, y = a.t[0], b.t[0]
                if x[1] == 1 == y[1] and len(x[0]) == 1 == len(y[0]) and x[0][0] is not y[0][0]:
                    k = {x[0][0].kind, y[0][0].kind}
                    if k & {'alloca', 'heap'} and k <= {'alloca', 'heap', 'global', 'param', 'func'} and x[0][0].ptr and y[0][0].ptr:
                        return TRUE if pred == 'ne' else FALSE      # different objects
            for x, y in ((a, b), (b, a)):
                s = x.single()
                if s is not None and y.is_const() and s.hi <= 1 and s.kind == 'cmp':
                    t = pa(s, 1)
                    return t if (y.u == 1) == (pred == 'eq') else add(t, TRUE)
                if y.is_const() and len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0][0].kind == 'cmp' and len(x.t[0][0]) == 1:
                    pass
        at = atom('cmp', (pred, a, b), 1, 0, 1, label='(%r %s %r)' % (a, pred, b))
        return pa(at)

    # -- memory ----------------------------------------------------------------------------------------------------
    def split(self, st, p):
        """pointer value -> (base atom, offset: int or Poly) or (None, None)"""
        cands = [(m[0]) for m, k in p.t if len(m) == 1 and k == 1]
        if not cands:
            return None, None
        base = None
        for a in cands:
            if a.kind in ('alloca', 'heap', 'global', 'func', 'param'):
                base = a
                break
        if base is None:
            ps = [a for a in cands if a.ptr]
            if len(ps) >= 1:
                base = ps[0]
            elif len(cands) == 1 and len(p.t) == 1:
                base = cands[0]
            else:
                base = cands[0]
        if base.kind == 'mod':
            pass
        t = {m: k for m, k in p.t if m != (base,)}
        if not t:
            return base, p.c
        off = mk(64, p.c, t)
        lo, hi = st.facts.int_iv(off)
        if lo == hi:
            return base, lo
        return base, off

    def is_shared(self, base):
        return base.kind in ('param', 'fld', 'sym')

    def load(self, st, p, size, w, ptr, I, atomic=None):
        base, off = self.split(st, p)
        if base is None:
            l, h = st.facts.urange(p)
            if h < 4096:
                self.event(st, 'nullderef', ptr=p)
                raise Infeasible()
            return pa(fresh('load?', w, ptr=ptr))
        if base in st.freed:
            self.event(st, 'useafterfree', base=base, off=off)
        l, h = st.facts.atom_iv(base)
        if h == 0:
            self.event(st, 'nullderef', ptr=p)
            raise Infeasible()
        if l == 0 and base.kind not in ('alloca', 'heap'):
            if not st.facts.set_form((((base,), 1),), 1, 1 << 62):
                raise Infeasible()
        v = self.load_at(st, base, off, size, w, ptr, atomic)
        if base.kind != 'alloca' and self.obs:
            self.event(st, 'load', base=base, off=off, size=size, value=v, atomic=atomic)
        return v

    def load_at(self, st, base, off, size, w, ptr, atomic=None):
        r = st.mem.get(base)
        shared = self.is_shared(base)
        if shared and atomic is not None:
            k = self.fieldkey(base, off)
            if self.is_mut(k) or not isinstance(off, int):
                v = pa(fresh(self.pretty(k), w, ptr=ptr))
                return v
        if isinstance(off, int):
            if r is not None:
                e = r.get(off)
                if e is not None and e[0] == size:
                    v = e[1]
                    if v.w != w:
                        v = self.trunc(st, v, w) if v.w > w else self.zext(st, v, w)
                    if ptr:
                        s = v.single()
                        if s is not None:
                            s.ptr = True
                    return v
                v = self.load_overlap(st, base, r, off, size, w)
                if v is not None:
                    return v
            v = self.initial(st, base, off, size, w, ptr)
            st.region(base, True)[off] = (size, v)
            return v
        if r is not None:
            e = r.get(off)
            if e is not None and e[0] == size and e[1].w == w:
                return e[1]
        k = self.fieldkey(base, off)
        v = pa(Atom('sym', ('of', k), w, 0, (1 << 47) if ptr else (1 << w) - 1, self.pretty(k) if shared else 'elem', ptr))
        st.region(base, True)[off] = (size, v)
        return v

    def load_overlap(self, st, base, r, off, size, w):
        parts = []
        for o, e in r.items():
            if isinstance(o, int) and o < off + size and off < o + e[0]:
                parts.append((o, e[0], e[1]))
        if not parts:
            return None
        parts.sort(key=lambda x: x[0])
        pos = off
        out = []
        for o, n, v in parts:
            if o > pos:
                iv = self.initial(st, base, pos, o - pos, (o - pos) * 8, False)
                out.append((pos, o - pos, iv))
                pos = o
            end = min(o + n, off + size)
            vv = v
            if vv.w != n * 8:
                vv = self.zext(st, vv, n * 8) if vv.w < n * 8 else self.trunc(st, vv, n * 8)
            out.append((pos, end - pos, self.extract(st, vv, (pos - o) * 8, (end - pos) * 8)))
            pos = end
        if pos < off + size:
            n = off + size - pos
            out.append((pos, n, self.initial(st, base, pos, n, n * 8, False)))
        W = size * 8
        v = const(0, W)
        for o, n, x in out:
            v = add(v, scale(self.zext(st, x, W), 1 << (8 * (o - off))))
        # recombine all pieces of one atom
        src = None
        okc = True
        exp = 0
        for o, n, x in out:
            s = x.single()
            if s is None or s.kind != 'ext' or s.args[1] != exp or s.args[2] != n * 8 or (src is not None and s.args[0] is not src):
                okc = False
                break
            src = s.args[0]
            exp += n * 8
        if okc and src is not None and src.w == W:
            v = pa(src)
        if v.w != w:
            v = self.trunc(st, v, w) if v.w > w else self.zext(st, v, w)
        return v

    def initial(self, st, base, off, size, w, ptr):
        k = base.kind
        if k in ('alloca', 'heap'):
            return pa(fresh('undef', w, kind='undef', ptr=ptr))
        if k == 'global':
            g = self.M.globals.get(base.label)
            if g and 'init' in g and (g['const'] or self.opts.get('global_init')):
                v = self.global_read(st, g['init'], off, w)
                if v is not None:
                    return v
            if g and 'init' in g and base.label.startswith(('_ZGV',)):
                return pa(fresh('guard', w))
            return pa(atom('fld', (base, off, w), w, label='%s[%s]' % (base.label, off), ptr=ptr))
        if k == 'func':
            return pa(fresh('code', w))
        key = self.fieldkey(base, off)
        if self.is_mut(key):
            a = Atom('sym', ('of', key), w, 0, (1 << 47) if ptr else (1 << w) - 1, self.pretty(key), ptr)
            return pa(a)
        return pa(atom('fld', (base, off, w), w, 0, (1 << 47) if ptr else None, label=self.pretty(key), ptr=ptr))

    def global_read(self, st, v, off, w):
        k = v.get('k')
        if k == 'agg':
            best = None
            for o, e in v['e']:
                if o <= off:
                    best = (o, e)
            if best is None:
                return None
            return self.global_read(st, best[1], off - best[0], w)
        if k == 'z':
            return const(0, w)
        if off != 0:
            return None
        if k == 'i':
            return const(int(v['v']), w)
        if k == 'g':
            p = pa(self.gaddr(v['n']))
            return add(p, const(v['o'], 64)) if v['o'] else p
        return None

    def store(self, st, p, v, size, I, atomic=None):
        base, off = self.split(st, p)
        if base is None:
            l, h = st.facts.urange(p)
            if h < 4096:
                self.event(st, 'nullderef', ptr=p)
                raise Infeasible()
            self.event(st, 'wildstore', ptr=p)
            return
        if base in st.freed:
            self.event(st, 'useafterfree', base=base, off=off)
        l, h = st.facts.atom_iv(base)
        if h == 0:
            self.event(st, 'nullderef', ptr=p)
            raise Infeasible()
        if l == 0:
            if not st.facts.set_form((((base,), 1),), 1, 1 << 62):
                raise Infeasible()
        if base.kind != 'alloca':
            key = self.fieldkey(base, off)
            if self.is_shared(base):
                self.stored.add(key)
            if self.obs:
                old = None
                if isinstance(off, int) and atomic is None:
                    r = st.mem.get(base)
                    e = r.get(off) if r else None
                    old = e[1] if e and e[0] == size else None
                self.event(st, 'store', base=base, off=off, size=size, value=v, old=old, atomic=atomic)
        if self.is_shared(base) and atomic is not None:
            r = st.region(base, True)
            if isinstance(off, int):
                r.pop(off, None)
            return
        self.store_at(st, base, off, v, size)

    def store_at(self, st, base, off, v, size):
        r = st.region(base, True)
        if isinstance(off, int):
            e = r.get(off)
            if e is None or e[0] != size:
                self.clear(st, r, off, size)
            else:
                for o in [o for o in r if not isinstance(o, int)]:
                    del r[o]
            r[off] = (size, v)
        else:
            lo, hi = st.facts.int_iv(off)
            for o in list(r):
                if isinstance(o, int):
                    if o < hi + size and lo < o + r[o][0]:
                        del r[o]
                elif o is not off:
                    d = sub(o, off)
                    l2, h2 = st.facts.int_iv(d)
                    if not (l2 >= size or h2 <= -r[o][0]):
                        del r[o]
            r[off] = (size, v)

    def clear(self, st, r, off, size):
        for o in list(r):
            if not isinstance(o, int):
                lo, hi = st.facts.int_iv(o)
                if lo < off + size and off < hi + r[o][0]:
                    del r[o]
                continue
            n, v = r[o]
            if o < off + size and off < o + n:
                del r[o]
                if o < off:
                    r[o] = (off - o, self.extract(st, v, 0, (off - o) * 8))
                if o + n > off + size:
                    k = off + size
                    r[k] = (o + n - k, self.extract(st, v, (k - o) * 8, (o + n - k) * 8))

    def memfill(self, st, p, byte, ln):
        base, off = self.split(st, p)
        l, h = st.facts.urange(ln)
        if base is None:
            return
        r = st.region(base, True)
        if isinstance(off, int) and l == h and l <= 4096:
            n = l
            self.clear(st, r, off, n)
            b = byte.u if byte.is_const() else None
            o = off
            while o < off + n:
                s = min(8 - (o % 8) if o % 8 else 8, off + n - o)
                if b is not None:
                    r[o] = (s, const(int.from_bytes(bytes([b]) * s, 'little'), s * 8))
                else:
                    r[o] = (s, pa(fresh('fill', s * 8)))
                o += s
        else:
            for o in list(r):
                del r[o]

    def memcopy(self, st, d, s, ln):
        l, h = st.facts.urange(ln)
        db, do = self.split(st, d)
        sb, so = self.split(st, s)
        if db is None or sb is None:
            return
        if l != h or not isinstance(do, int) or not isinstance(so, int) or l > 4096:
            r = st.region(db, True)
            for o in list(r):
                del r[o]
            return
        n = l
        pos = so
        pieces = []
        while pos < so + n:
            r = st.mem.get(sb) or {}
            e = r.get(pos)
            if e is not None and pos + e[0] <= so + n:
                pieces.append((pos - so, e[0], e[1]))
                pos += e[0]
                continue
            nxt = min([o for o in r if isinstance(o, int) and o > pos] + [so + n])
            k = min(nxt - pos, 8 - pos % 8 if pos % 8 else 8, so + n - pos)
            while k & (k - 1):
                k &= k - 1
            v = self.load_at(st, sb, pos, k, k * 8, k == 8)
            pieces.append((pos - so, k, v))
            pos += k
        for o, k, v in pieces:
            if db.kind != 'alloca':
                self.event(st, 'store', base=db, off=do + o, size=k, value=v, old=None, atomic=None)
                if self.is_shared(db):
                    self.stored.add(self.fieldkey(db, do + o))
            self.store_at(st, db, do + o, v, k)

    def havoc_shared(self, st):
        """another thread may have run: forget every mutable field of every shared object"""
        for b in list(st.mem):
            if not self.is_shared(b):
                continue
            r = st.mem[b]
            drop = [o for o in r if (not isinstance(o, int)) or self.is_mut(self.fieldkey(b, o))]
            if drop:
                r = st.region(b, True)
                for o in drop:
                    r.pop(o, None)

    # -- events ----------------------------------------------------------------------------------------------------
    def where(self, st):
        """innermost library position and call chain"""
        out = []
        for f in reversed(st.frames):
            b = f.fn.blocks[f.bi]
            i = min(f.ii, len(b) - 1)
            l = b[i].get('l')
            if l and l[0] and ('/src/' in l[0] or l[0].startswith('src/')) and 'include/c++' not in l[0]:
                out.append('%s (%s:%d)' % (f.fn.short(), l[0].split('/')[-1], l[1]))
        return out

    def event(self, st, kind, **kw):
        for o in self.obs:
            h = getattr(o, 'on_' + kind, None)
            if h is not None:
                h(self, st, **kw)

    def path(self, st):
        out = []
        t = st.trace
        while t is not None:
            out.append(t.what)
            t = t.prev
        out.reverse()
        return out

    # -- running ---------------------------------------------------------------------------------------------------
    def start(self, fname, args=None, setup=None):
        fn = self.M.fns.get(fname)
        if fn is None or fn.decl:
            raise Broken('entry %s not found' % fname)
        st = State()
        fr = Frame(fn, None)
        st.frames.append(fr)
        args = args or []
        for i, a in enumerate(fn.args):
            if i < len(args) and args[i] is not None:
                fr.regs[a['id']] = args[i]
            else:
                w = width(a['t'])
                fr.regs[a['id']] = pa(atom('param', ('arg%d:%s' % (i, fname),), w or 64, 0, None, label='arg%d' % i, ptr=a['t'] == 'p'))
        for o in self.obs:
            if hasattr(o, 'init'):
                o.init(self, st)
        if setup:
            setup(self, st)
        return st

    def run(self, fname, args=None, setup=None, state=None):
        """analyse one entry; returns the list of exits"""
        self.entry = fname
        st = state or self.start(fname, args, setup)
        self.seen = set()
        self.work = [st]
        exits = []
        steps = 0
        self.exits = exits
        while self.work:
            st = self.work.pop()
            st.pi = 0
            try:
                while True:
                    steps += 1
                    if steps > self.MAX_STEPS:
                        raise Broken('analysis budget exceeded in %s' % fname)
                    st.base = st.copy() if self.may_choose(st) else None
                    if not self.step(st):
                        break
                    st.preset = ()
                    st.pi = 0
            except Infeasible:
                continue
        self.stats['instructions'] += steps
        self.stats['paths'] += len(exits)
        return exits

    PLAIN = {'alloca', 'load', 'store', 'getelementptr', 'icmp', 'zext', 'sext', 'trunc', 'extractvalue', 'insertvalue', 'phi', 'landingpad', 'fence',
             'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'add', 'sub', 'mul', 'ret', 'unreachable'}

    def may_choose(self, st):
        if st.exc is not None:
            return True
        f = st.frames[-1]
        return f.fn.blocks[f.bi][f.ii]['op'] not in self.PLAIN

    def finish(self, st, kind, value=None, exc=None, why=None):
        e = Exit(kind, value, st, exc, why)
        for o in self.obs:
            h = getattr(o, 'on_exit', None)
            if h is not None:
                h(self, st, e)
        self.exits.append(e)
        return False

    def pop_frame(self, st):
        f = st.frames.pop()
        for a in f.allocas:
            st.mem.pop(a, None)
            st.own.discard(a)
        return f

    def throw(self, st, ty, label, obj=None, excl=frozenset()):
        st.exn += 1
        if obj is None:
            obj = pa(fresh('exc', 64, 4096, 1 << 47, ptr=True, kind='heap'))
        st.exc = (ty, excl, obj, label, False)
        return True

    def unwind(self, st):
        """one frame of unwinding"""
        ty, excl, obj, label, _ = st.exc
        if not st.frames:
            return self.finish(st, 'throw', exc=(ty, label))
        f = st.frames[-1]
        I = f.fn.blocks[f.bi][f.ii]
        if I['op'] == 'invoke':
            lp = next(x for x in f.fn.blocks[I['u']] if x['op'] != 'phi')
            assert lp['op'] == 'landingpad', lp
            sel = None
            narrowed = (ty, excl)
            for kind, c in lp['cl']:
                if kind == 'filter':
                    continue
                if c.get('k') == 'i':      # catch (...)
                    sel = self.tid(None)
                    break
                cn = c['n']
                if ty == ANY:
                    if cn in excl:
                        continue
                    if self.choose(st, 2) == 0:
                        sel = self.tid(cn)
                        narrowed = (cn, frozenset())
                        break
                    excl = excl | {cn}
                    narrowed = (ANY, excl)
                elif cn in self.M.typeinfo_bases(ty):
                    sel = self.tid(cn)
                    break
            st.exc = (narrowed[0], narrowed[1], obj, label, False)
            if sel is None and not lp['cleanup']:
                self.event(st, 'frame_exit', fn=f.fn, exc=st.exc, value=None, args=f.args)
                self.pop_frame(st)
                return True
            selv = const(sel if sel is not None else 0, 32)
            st.caught = st.caught + (st.exc,)
            st.exc = None
            f.regs[lp['id']] = (obj, selv)
            self.goto(st, f, I['u'])
            return st.frames is not None
        self.event(st, 'frame_exit', fn=f.fn, exc=st.exc, value=None, args=f.args)
        self.pop_frame(st)
        return True

    def goto(self, st, f, b):
        prev = f.bi
        f.prev = prev
        # phis are read in parallel
        blk = f.fn.blocks[b]
        vals = []
        for I in blk:
            if I['op'] != 'phi':
                break
            for pb, v in I['in']:
                if pb == prev:
                    vals.append((I['id'], self.val(st, v)))
        for k, v in vals:
            f.regs[k] = v
        f.bi = b
        f.ii = len(vals)
        body = f.fn.heads.get(b)
        if body is not None:
            if not self.loop_head(st, f, b, prev in body):
                raise Infeasible()

    # -- loops -----------------------------------------------------------------------------------------------------
    def snapshot(self, st):
        s = {}
        n = len(st.frames)
        for i, f in enumerate(st.frames):
            lv = f.fn.liveness()[f.bi]
            for r, v in f.regs.items():
                if isinstance(v, tuple):
                    continue
                if i < n - 1 or r in lv:
                    s[('r', i, r)] = v
        for b, r in st.mem.items():
            for o, (sz, v) in r.items():
                s[('m', b, o, sz)] = v
        return s

    def put(self, st, loc, v):
        if loc[0] == 'r':
            st.frames[loc[1]].regs[loc[2]] = v
        else:
            st.region(loc[1], True)[loc[2]] = (loc[3], v)

    def loop_head(self, st, f, b, back):
        L = f.loops.get(b)
        if not back or L is None:
            L = Loop()
            f.loops[b] = L
            L.forks = st.nforks
            L.snap = None
        key = self.canon(st)
        # does the loop go on for as long as it likes: in a state it was in before, or for more turns than are told apart?
        self.event(st, 'turn', head=b, back=back, endless=key in L.keys or L.wid is not None)
        if key in self.seen:
            self.stats['merged'] += 1
            return False
        self.seen.add(key)
        L.keys = L.keys | {key}
        snap = self.snapshot(st)
        L.visits += 1
        if back and L.snap is not None and not self.opts.get('finite'):
            concrete = (st.nforks == L.forks) and L.visits < self.LOOP_CONCRETE and L.wid is None
            if not concrete and L.visits >= 6 or L.wid is not None:
                if L.wid is not None and self.covered(st, L, snap):
                    self.stats['merged'] += 1
                    return False
                self.widen(st, L, snap)
                snap = self.snapshot(st)
                if L.visits > 400:
                    raise Broken('loop does not stabilise in %s' % f.fn.dem)
        L.snap = snap
        L.forks = st.nforks
        return True

    def covered(self, st, L, snap):
        """is this state an instance of the widened one (induction step)?"""
        t1 = add(pa(L.t), const(1, 64))
        bad = {c for c in L.cands if not self.bound_holds(st, c, snap)}
        if bad:
            L.bad = L.bad | bad
            return False
        ob, locks = L.wid[1]
        back = {}
        for loc, (bv, d) in L.wid[0].items():
            v = snap.get(loc)
            if v is not None and not v.is_const():
                back.setdefault(v, bv if d is None else add(bv, mul(d, self._tw(pa(L.t), bv.w))))
        if self.obs_key(st, back) != ob or st.locks != locks:
            return False
        for loc, (bv, d) in L.wid[0].items():
            v = snap.get(loc)
            if v is None:
                continue
            if d is None:
                continue            # already unknown
            w = v.w
            want = add(bv, mul(d, self._tw(t1, w)))
            if v is not want:
                return False
        for loc, v in snap.items():
            if loc in L.wid[0]:
                continue
            o = L.wid[2].get(loc)
            if o is not None and o is not v:
                return False
        return True

    def bound_holds(self, st, c, snap):
        loc, pred, b = c
        v = snap.get(loc)
        if v is None:
            return True
        if pred == 'nonneg':
            return st.facts.int_iv(v)[0] >= 0
        return v.w == b.w and st.facts.compare(pred, v, b) is True

    def bounds(self, st, L, snap, wid):
        """bounds by loop invariant values that hold of the values being widened"""
        inv = []
        seen = set()
        for loc, v in snap.items():
            if loc in wid or v in seen:
                continue
            seen.add(v)
            if v.w not in (32, 64) or any(a.ptr or a.kind in ('alloca', 'heap', 'undef', 'func', 'global') for a in v.atoms()):
                continue
            if v.is_const() and v.u < 2:
                continue
            inv.append(v)
            parts = [v] if v.w == 32 else [self.extract(st, v, 0, 32), self.extract(st, v, 32, 32)] if v.single() is not None else []
            inv += parts[v.w == 32:] + [self.zext(st, p, 64) for p in parts]
        out = []
        done = set()
        for loc, (nv, d) in wid.items():
            if d is None or not d.is_const() or (nv, d) in done:
                continue
            done.add((nv, d))
            cur = snap[loc]
            up = d.u < (1 << (d.w - 1))
            if not up:
                if (loc, 'nonneg', None) not in L.bad and st.facts.int_iv(cur)[0] >= 0:
                    out.append((loc, 'nonneg', None))
                continue
            for b in inv:
                if b.w != cur.w:
                    continue
                for pred in ('ult', 'ule'):
                    if (loc, pred, b) not in L.bad and st.facts.compare(pred, cur, b) is True:
                        out.append((loc, pred, b))
                        break
        return out

    def _tw(self, p, w):
        return mk(w, p.c, dict(p.t))

    def widen(self, st, L, snap):
        """replace what changes from iteration to iteration by an affine form of the iteration number, or by an unknown"""
        self.stats['widened'] += 1
        prevw = L.wid
        t = fresh('iter', 64, 0, (1 << 40), kind='iter')
        prevt = L.t
        L.t = t
        wid = {}
        hard = set(L.hard)
        repl = {}
        for loc, v in snap.items():
            p = L.snap.get(loc)
            was = prevw[0].get(loc) if prevw is not None else None
            if (p is None or p is v) and was is None:
                continue
            k = (p, v, loc in hard or (was is not None and was[1] is None))
            nv = repl.get(k)
            if nv is None:
                d = sub(v, p) if p is not None and p.w == v.w else None
                ok = not k[2] and d is not None and (d.is_const() or all(a.kind in ('fld', 'param') for a in d.atoms()))
                if was is not None:
                    ok = ok and was[1] is d
                if ok and not (d.is_const() and d.c == 0):
                    b0 = v
                    if was is not None and v is add(was[0], mul(d, self._tw(add(pa(prevt), const(1, 64)), v.w))):
                        b0 = was[0]
                    nv = (add(b0, mul(d, self._tw(pa(t), v.w))), b0, d)
                else:
                    nv = (pa(self._unknown(v)), None, None)
                repl[k] = nv
            if nv[2] is None:
                hard.add(loc)
                wid[loc] = (nv[0], None)
            else:
                wid[loc] = (nv[1], nv[2])
            self.put(st, loc, nv[0])
        L.cands = tuple(self.bounds(st, L, snap, wid))
        for loc, pred, b in L.cands:
            nv, d = wid[loc]
            v = add(nv, mul(d, self._tw(pa(t), nv.w)))
            if pred == 'nonneg':
                ok = st.facts.set_form(v.t, -v.c, 1 << 70)
            else:
                ok = st.facts.assume_cmp(pred, v, b)
            if not ok:
                raise Broken('loop bound inconsistent')
        byv = {}
        for (p, v, h), nv in repl.items():
            if not v.is_const():
                byv.setdefault(v, nv[0])

        def sub_obs(x):
            if isinstance(x, Poly):
                return byv.get(x, x)
            if isinstance(x, tuple):
                return tuple(sub_obs(y) for y in x)
            return x
        for k in list(st.obs):
            st.obs[k] = sub_obs(st.obs[k])
        L.hard = frozenset(hard)
        L.wid = (wid, (self.obs_key(st), st.locks), {k: v for k, v in snap.items() if k not in wid})

    def _unknown(self, v):
        s = v.single()
        return fresh('loop?', v.w, ptr=bool(s is not None and s.ptr))

    def obs_key(self, st, m=None):
        def ren(x):
            if isinstance(x, Poly):
                return m.get(x, x)
            if isinstance(x, tuple):
                return tuple(ren(y) for y in x)
            return x
        out = []
        for k in sorted(st.obs, key=repr):
            if not (isinstance(k, str) and k[0] == '~'):
                v = st.obs[k]
                out.append((k, self._ck(ren(v) if m else v, None)))
        return tuple(out)

    def _ck(self, v, num):
        return repr(v)

    # -- canonical key ---------------------------------------------------------------------------------------------
    def canon(self, st):
        num = {}
        order = []

        def catom(a):
            if a.kind in ('sym', 'undef', 'iter', 'alloca', 'heap'):
                n = num.get(a)
                if n is None:
                    n = num[a] = len(num)
                    order.append(a)
                return (a.kind, n, a.label if a.kind == 'sym' else '')
            if a.kind in ('param', 'global', 'func'):
                if a not in num:
                    num[a] = -1
                    order.append(a)
                return (a.kind, a.label)
            if a not in num:
                num[a] = -1
                order.append(a)
            return (a.kind,) + tuple(cv(x) for x in a.args)

        def akey(m):
            return tuple((a.kind, a.label or '', a.id) for a in m)

        def cv(v):
            if isinstance(v, Poly):
                if not v.t:
                    return ('c', v.w, v.c)
                ts = sorted(v.t, key=lambda x: akey(x[0]))
                return ('p', v.w, v.c, tuple((k, tuple(catom(a) for a in m)) for m, k in ts))
            if isinstance(v, Atom):
                return catom(v)
            if isinstance(v, tuple):
                return tuple(cv(x) for x in v)
            if isinstance(v, frozenset):
                return ('fs',) + tuple(sorted((cv(x) for x in v), key=repr))
            if isinstance(v, dict):
                return ('d',) + tuple((k, cv(v[k])) for k in sorted(v, key=repr))
            return v

        out = []
        n = len(st.frames)
        for i, f in enumerate(st.frames):
            lv = f.fn.liveness()[f.bi]
            regs = []
            for r in sorted(f.regs):
                if r in lv or (i < n - 1 and self._live_after(f, r)):
                    regs.append((r, cv(f.regs[r])))
            out.append((f.fn.name, f.bi, f.ii, tuple(regs)))
        out.append(cv(st.locks))
        out.append(cv(tuple((k, st.obs[k]) for k in sorted(st.obs, key=repr) if not (isinstance(k, str) and k[0] == '~'))))
        out.append(cv(st.freed))
        out.append(cv(tuple((c[0], c[1], c[2], c[4]) for c in st.caught)))
        done = set()
        i = 0
        mem = []
        while i < len(order):
            a = order[i]
            i += 1
            if a in done:
                continue
            done.add(a)
            r = st.mem.get(a)
            if r:
                es = []
                for o in sorted(r, key=lambda x: (0, x, '') if isinstance(x, int) else (1, 0, repr(x))):
                    sz, v = r[o]
                    es.append((cv(o) if not isinstance(o, int) else o, sz, cv(v)))
                mem.append((catom(a), tuple(es)))
        out.append(tuple(mem))
        fs = []
        for form, iv in st.facts.d.items():
            if all(a in num for m, _ in form for a in m):
                fs.append((tuple(sorted((k, tuple(sorted(map(catom, m), key=repr))) for m, k in form)) if False else
                           tuple(sorted(((k, tuple(sorted((catom(a) for a in m), key=repr))) for m, k in form), key=repr)), iv))
        fs.sort(key=repr)
        out.append(tuple(fs))
        nes = []
        for form, iv in st.facts.ne.items():
            if all(a in num for m, _ in form for a in m):
                nes.append((tuple(sorted(((k, tuple(sorted((catom(a) for a in m), key=repr))) for m, k in form), key=repr)), tuple(sorted(iv))))
        nes.sort(key=repr)
        out.append(tuple(nes))
        return hash(tuple(out)), repr(out[0])[:60]

    def _live_after(self, f, r):
        # registers of a suspended caller: live-in of successors or used later in this block
        key = (f.fn.name, f.bi, f.ii)
        c = self._la.get(key)
        if c is None:
            f.fn.liveness()
            c = set()
            blk = f.fn.blocks[f.bi]

            def ops(I):
                for x in ('a', 'in', 'vo'):
                    for v in I.get(x, []):
                        if isinstance(v, list):
                            for y in v:
                                if type(y) is int:
                                    c.add(y)
                        elif type(v) is int:
                            c.add(v)
                for x in ('c', 'p', 'v', 'f', 'n'):
                    if type(I.get(x)) is int:
                        c.add(I[x])
            for I in blk[f.ii:]:
                ops(I)
            last = blk[-1]
            succ = []
            if last['op'] == 'br':
                succ = last['s']
            elif last['op'] == 'switch':
                succ = [last['d']] + [x[1] for x in last['s']]
            elif last['op'] == 'invoke':
                succ = [last['n'], last['u']]
            for s in succ:
                c |= f.fn.edge[f.bi, s]
            self._la[key] = c
        return r in c
    _la = {}

    # -- one instruction -------------------------------------------------------------------------------------------
    def step(self, st):
        if st.exc is not None:
            return self.unwind(st)
        f = st.frames[-1]
        I = f.fn.blocks[f.bi][f.ii]
        op = I['op']
        h = getattr(self, 'i_' + op, None)
        if h is None:
            return self.i_other(st, f, I)
        return h(st, f, I)

    def setv(self, f, I, v):
        f.regs[I['id']] = v
        f.ii += 1
        return True

    def i_alloca(self, st, f, I):
        a = Atom('alloca', (), 64, 4096, 1 << 47, 'stack@%s' % f.fn.short(), True)
        f.allocas.append(a)
        return self.setv(f, I, pa(a))

    def i_load(self, st, f, I):
        p = self.val(st, I['p'])
        t = I['t']
        at = I.get('atomic')
        if isinstance(t, dict) and 'agg' in t:
            v = self.load_agg(st, p, t, I, at)
        else:
            w = width(t)
            if w is None:
                return self.setv(f, I, pa(fresh('load?', 64)))
            v = self.load(st, p, (w + 7) // 8, w, t == 'p', I, at)
        return self.setv(f, I, v)

    def load_agg(self, st, p, t, I, at):
        out = []
        for o, e in t['agg']:
            q = add(p, const(o, 64))
            if isinstance(e, dict) and 'agg' in e:
                out.append(self.load_agg(st, q, e, I, at))
            else:
                w = width(e)
                out.append(self.load(st, q, (w + 7) // 8, w, e == 'p', I, at))
        return tuple(out)

    def i_store(self, st, f, I):
        p = self.val(st, I['p'])
        v = self.val(st, I['v'])
        self.store_any(st, p, v, I['vt'], I, I.get('atomic'))
        f.ii += 1
        return True

    def store_any(self, st, p, v, t, I, at=None):
        if isinstance(v, tuple):
            for (o, e), x in zip(t['agg'], v):
                self.store_any(st, add(p, const(o, 64)), x, e, I, at)
            return
        w = v.w
        self.store(st, p, v, (w + 7) // 8, I, at)

    def i_getelementptr(self, st, f, I):
        p = self.val(st, I['p'])
        if 'c' not in I:
            return self.setv(f, I, pa(fresh('gep?', 64, ptr=True)))
        if I['c']:
            p = add(p, const(I['c'], 64))
        for v, s, w in I['vo']:
            x = self.val(st, v)
            if x.w < 64:
                x = self.sext(st, x, 64)
            p = add(p, scale(x, s))
        return self.setv(f, I, p)

    def i_icmp(self, st, f, I):
        a, b = (self.val(st, x) for x in I['a'])
        return self.setv(f, I, self.icmp(st, I['pred'], a, b))

    def _bin(self, st, f, I):
        a, b = (self.val(st, x) for x in I['a'])
        w = width(I['t'])
        return self.setv(f, I, self.binop(st, I['op'], a, b, w))
    i_add = i_sub = i_mul = i_udiv = i_urem = i_sdiv = i_srem = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = _bin

    def i_zext(self, st, f, I):
        return self.setv(f, I, self.zext(st, self.val(st, I['a'][0]), I['t']))

    def i_sext(self, st, f, I):
        return self.setv(f, I, self.sext(st, self.val(st, I['a'][0]), I['t']))

    def i_trunc(self, st, f, I):
        v = self.val(st, I['a'][0])
        if I['t'] == 1 and v.w == 8 and not v.is_const():
            # how clang reads a bool: the byte is 0 or 1
            if not st.facts.set_form(v.t, -v.c, 1 - v.c):
                raise Infeasible()
        return self.setv(f, I, self.trunc(st, v, I['t']))

    def _cast(self, st, f, I):
        v = self.val(st, I['a'][0])
        w = width(I['t'])
        if isinstance(v, Poly) and v.w != w:
            v = self.zext(st, v, w) if v.w < w else self.trunc(st, v, w)
        if I['t'] == 'p':
            s = v.single()
            if s is not None:
                s.ptr = True
        return self.setv(f, I, v)
    i_ptrtoint = i_inttoptr = i_bitcast = i_freeze = i_addrspacecast = _cast

    def i_br(self, st, f, I):
        if 'c' not in I:
            self.goto(st, f, I['s'][0])
            return True
        c = self.val(st, I['c'])
        k = self.known(st, c)
        if k is None:
            k = self.decide(st, c)
            l = I.get('l')
            if l and '/src/' in l[0]:
                st.note('%s:%d: %s' % (l[0].split('/')[-1], l[1], 'true' if k else 'false'))
        self.goto(st, f, I['s'][0 if k else 1])
        return True

    def i_switch(self, st, f, I):
        c = self.val(st, I['c'])
        for v, b in I['s']:
            if self.decide(st, self.icmp(st, 'eq', c, const(int(v), c.w))):
                self.goto(st, f, b)
                return True
        self.goto(st, f, I['d'])
        return True

    def i_select(self, st, f, I):
        c, a, b = (self.val(st, x) for x in I['a'])
        return self.setv(f, I, a if self.decide(st, c) else b)

    def i_extractvalue(self, st, f, I):
        v = self.val(st, I['a'][0])
        for i in I['ix']:
            v = v[i]
        return self.setv(f, I, v)

    def i_insertvalue(self, st, f, I):
        v = self.val(st, I['a'][0])
        x = self.val(st, I['a'][1])

        def ins(a, ix):
            l = list(a)
            l[ix[0]] = x if len(ix) == 1 else ins(a[ix[0]], ix[1:])
            return tuple(l)
        return self.setv(f, I, ins(v, I['ix']))

    def i_phi(self, st, f, I):
        f.ii += 1
        return True

    def i_landingpad(self, st, f, I):
        f.ii += 1
        return True

    def i_resume(self, st, f, I):
        c = list(st.caught)
        for i in range(len(c) - 1, -1, -1):
            if not c[i][4]:
                st.exc = c.pop(i)
                break
        else:
            raise Broken('resume without exception in %s' % f.fn.dem)
        st.caught = tuple(c)
        # continue outwards: this frame has no further handler at a resume
        self.event(st, 'frame_exit', fn=f.fn, exc=st.exc, value=None, args=f.args)
        self.pop_frame(st)
        return True

    def i_unreachable(self, st, f, I):
        raise Infeasible()

    def i_fence(self, st, f, I):
        self.event(st, 'fence', order=I['order'])
        f.ii += 1
        return True

    def i_ret(self, st, f, I):
        v = self.val(st, I['a'][0]) if I['a'] else None
        self.event(st, 'frame_exit', fn=f.fn, exc=None, value=v, args=f.args)
        call = f.call
        self.pop_frame(st)
        if not st.frames:
            return self.finish(st, 'return', v)
        g = st.frames[-1]
        return self.ret_to(st, g, v)

    def ret_to(self, st, g, v):
        """continue the caller after its call instruction"""
        I = g.fn.blocks[g.bi][g.ii]
        if 'id' in I:
            g.regs[I['id']] = v
        if I['op'] == 'invoke':
            self.goto(st, g, I['n'])
        else:
            g.ii += 1
        return True

    def i_cmpxchg(self, st, f, I):
        p, exp, new = (self.val(st, x) for x in I['a'])
        base, off = self.split(st, p)
        w = exp.w
        size = (w + 7) // 8
        if base is None:
            raise Infeasible()
        if not self.is_shared(base):
            old = self.load_at(st, base, off, size, w, False)
            if self.decide(st, self.icmp(st, 'eq', old, exp)):
                self.event(st, 'store', base=base, off=off, size=size, value=new, old=old, atomic=7)
                self.store_at(st, base, off, new, size)
                return self.setv(f, I, (old, TRUE))
            return self.setv(f, I, (old, FALSE))
        key = self.fieldkey(base, off)
        if self.choose(st, 2) == 0:
            self.stored.add(key)
            self.order = I['order'][0]
            self.event(st, 'cas', base=base, off=off, size=size, expected=exp, value=new)
            st.region(base, True).pop(off, None)
            return self.setv(f, I, (exp, TRUE))
        old = pa(fresh(self.pretty(key), w))
        if not I.get('weak') and not st.facts.assume_cmp('ne', old, exp):
            raise Infeasible()
        self.order = I['order'][1]
        self.event(st, 'casfail', base=base, off=off, size=size, value=old)
        return self.setv(f, I, (old, FALSE))

    def i_atomicrmw(self, st, f, I):
        p, x = (self.val(st, y) for y in I['a'])
        base, off = self.split(st, p)
        w = x.w
        size = (w + 7) // 8
        if base is None:
            raise Infeasible()
        shared = self.is_shared(base)
        key = self.fieldkey(base, off)
        old = pa(fresh(self.pretty(key), w)) if shared else self.load_at(st, base, off, size, w, False)
        op = I['rmw']
        if op == 'xchg':
            new = x
        elif op in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(st, op, old, x, w)
        else:
            new = pa(fresh('rmw', w))
        if shared:
            self.stored.add(key)
        self.order = I['order']
        self.event(st, 'rmw', base=base, off=off, size=size, old=old, value=new, op=op)
        if shared:
            st.region(base, True).pop(off, None)
        else:
            self.store_at(st, base, off, new, size)
        return self.setv(f, I, old)

    def i_other(self, st, f, I):
        op = I['op']
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fcmp', 'fneg', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext',
                  'fptrunc', 'va_arg'):
            for x in I.get('a', []):
                self.val(st, x)
            return self.setv(f, I, self.fresh_of(I['t'], op))
        raise Broken('instruction %s not modelled (%s)' % (op, f.fn.dem))

    # -- calls -----------------------------------------------------------------------------------------------------
    def i_call(self, st, f, I):
        fv = I['f']
        args = [self.val(st, a) if not (isinstance(a, dict) and a.get('k') in ('md',)) else None for a in I['a']]
        if isinstance(fv, dict) and fv['k'] == 'asm':
            return self.external_return(st, f, I, None)
        fp = self.val(st, fv)
        s = fp.single()
        if s is None or s.kind != 'func':
            return self.unknown_call(st, f, I, fp, args)
        return self.call_named(st, f, I, s.label, args)
    i_invoke = i_call

    def call_named(self, st, f, I, name, args):
        fn = self.M.fns[name]
        m = self.models.get(name)
        if m is None:
            m = self.find_model(fn)
        c = self.contracts.get(name)
        if c is not None:
            return c(self, st, f, I, fn, args)
        if m is not None:
            return m(self, st, f, I, fn, args)
        if fn.decl:
            return self.unknown_external(st, f, I, fn, args)
        if len(st.frames) > self.MAX_DEPTH:
            raise Broken('call depth exceeded at %s' % fn.dem)
        depth = sum(1 for g in st.frames if g.fn is fn)
        if depth > 70:
            raise Broken('recursion not resolved at %s' % fn.dem)
        self.stats['calls'] += 1
        if fn.name not in self.stats['functions']:
            self.stats['functions'].add(fn.name)
        for o in self.obs:
            h = getattr(o, 'on_enter', None)
            if h is not None:
                h(self, st, fn=fn, args=args)
        nf = Frame(fn, I)
        nf.args = tuple(args)
        bv = dict(I.get('bv', []))
        for i, a in enumerate(fn.args):
            v = args[i]
            if i in bv:
                r = Atom('alloca', (), 64, 4096, 1 << 47, 'byval', True)
                nf.allocas.append(r)
                self.memcopy(st, pa(r), v, const(bv[i], 64))
                v = pa(r)
            nf.regs[a['id']] = v
        st.frames.append(nf)
        return True

    def find_model(self, fn):
        for rx, m in self.rx:
            if rx.search(fn.dem):
                self.models[fn.name] = m
                return m
        self.models[fn.name] = None
        return None

    def external_return(self, st, f, I, v):
        if 'id' in I and v is None:
            v = self.fresh_of(I['t'], 'ret')
        return self.ret_to(st, f, v)

    def may_throw(self, st, I, fn, label):
        """True when this path takes the throwing outcome"""
        if I.get('nounwind') or (fn is not None and fn.nounwind):
            return False
        if self.choose(st, 2) == 1:
            st.note('%s throws' % label)
            self.throw(st, ANY, label)
            return True
        return False

    def unknown_external(self, st, f, I, fn, args):
        if fn.name.startswith('vf_user') or fn.name.startswith('_ZN') and 'vfu' in fn.name or 'vfu::' in fn.dem:
            lab = fn.dem.split('(')[0]
            n = self.choose(st, 2) if not (I.get('nounwind') or fn.nounwind) else 0
            self.event(st, 'callback', name=lab, args=args, throws=bool(n), I=I)
            if n:
                st.note('%s throws' % lab)
                return self.throw(st, ANY, lab)
            return self.external_return(st, f, I, None)
        self.stats['unknown_externals'].add(fn.dem)
        self.event(st, 'external', fn=fn)
        if I.get('noreturn') or fn.noreturn:
            raise Infeasible()
        return self.external_return(st, f, I, None)

    def unknown_call(self, st, f, I, fp, args):
        l, h = st.facts.urange(fp)
        if h == 0:
            self.event(st, 'nullderef', ptr=fp)
            raise Infeasible()
        quiet = I.get('nounwind') or '_Function_base::~_Function_base' in f.fn.dem     # a function object letting go of its target
        n = self.choose(st, 2) if not quiet else 0
        self.event(st, 'callback', name='<indirect>', args=args, throws=bool(n), fp=fp, I=I)
        if n:
            st.note('callback throws')
            return self.throw(st, ANY, 'callback')
        v = self.fresh_of(I['t'], 'ret') if 'id' in I else None
        self.event(st, 'callback_ret', name='<indirect>', value=v)
        return self.external_return(st, f, I, v)
