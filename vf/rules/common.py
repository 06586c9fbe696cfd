"""What the checks share: loading the program, inferring which shared fields change after construction, running entry
points with observers, and collecting obligations and violations."""
import re
from .. import front, ir, engine
from ..front import Broken
from ..values import (Atom, Poly, atom, fresh, pa, const, mk, add, sub, scale, mul, TRUE, FALSE)
from ..engine import Engine, Infeasible

PTR_HI = 1 << 47


def obj(label):
    return pa(atom('param', (label,), 64, 4096, PTR_HI, label=label, ptr=True))


def scalar(label, w=64, lo=0, hi=None):
    return pa(atom('param', (label,), w, lo, hi, label=label))


# memory orders, as LLVM numbers them
ACQUIRES, RELEASES = (4, 6, 7), (5, 6, 7)


class Violation:
    def __init__(self, rule, entry, where, detail, path):
        self.rule, self.entry, self.where, self.detail, self.path = rule, entry, where, detail, path

    def ident(self):
        w = self.where[0] if self.where else ''
        return '%s|%s|%s|%s' % (self.rule, self.entry, re.sub(r':\d+\)', ')', w), re.sub(r'\d+', '#', self.detail))


class Check:
    """accumulates what one property's check looked at and what it found"""

    def __init__(self, pid):
        self.pid = pid
        self.rules = {}          # rule -> [obligations, description]
        self.viol = []
        self.seen = set()
        self.entries = {}
        self.functions = set()
        self.unknown = set()
        self.paths = 0
        self.instructions = 0
        self.notes = []
        self.scans = {}
        self.need = {}
        self.assumed = []
        self.explanation = None

    def rule(self, name, text, minimum=1):
        """declare a rule; fewer obligations than `minimum` means the analysis lost its subject"""
        self.rules.setdefault(name, [0, text])
        self.need[name] = minimum

    def ok(self, rule, n=1):
        self.rules.setdefault(rule, [0, ''])[0] += n

    def fail(self, rule, E=None, st=None, detail='', entry=None, where=None, path=None):
        self.rules.setdefault(rule, [0, ''])[0] += 1
        v = Violation(rule, entry or (E.entry if E else ''), where or (E.where(st) if st and st.frames else
                      (st.obs.get('~pos') or [] if st else [])), detail, path or (E.path(st) if E else []))
        k = v.ident()
        if k in self.seen:
            return
        self.seen.add(k)
        self.viol.append(v)

    def verdict(self, cond, rule, E=None, st=None, detail='', **kw):
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, E, st, detail, **kw)
        return cond


_module = None
_meta = None


def module():
    global _module, _meta
    if _module is None:
        p, _meta = front.program()
        _module = ir.Module(p)
    return _module


def meta():
    module()
    return _meta


_named = {}


def named(rx):
    """functions of the program whose demangled name matches"""
    if rx not in _named:
        r = re.compile(rx)
        _named[rx] = [n for n, f in module().fns.items() if r.search(f.dem)]
    return _named[rx]


class Entry:
    def __init__(self, fn, args, opts=None, setup=None, public=None):
        self.fn, self.args, self.opts, self.setup, self.public = fn, args, opts or {}, setup, public or fn


class Group:
    """entry points over one kind of shared object"""

    def __init__(self, name, entries, root_types, opts=None):
        self.name = name
        self.entries = {e.fn: e for e in entries}
        self.root_types = root_types
        self.opts = opts or {}
        self.mutable = None

    def engine(self, observers, extra=None):
        o = {'root_types': self.root_types}
        o.update(self.opts)
        o.update(extra or {})
        E = Engine(module(), observers, self.mutable if self.mutable is not None else set(), o)
        for rx, c in o.get('contracts', ()):
            for n in named(rx):
                E.contracts[n] = c
        return E

    def infer(self, entries=None):
        """fields any entry stores to: what another thread may change"""
        if self.mutable is not None:
            return
        self.mutable = set()
        for _ in range(8):
            n = set(self.mutable)
            for e in self.entries.values():
                if e.opts.get('construct'):
                    continue
                E = self.engine([], e.opts)
                E.run(e.fn, e.args, e.setup)
                n |= E.stored
            if n == self.mutable:
                return
            self.mutable = n
        raise Broken('mutable fields do not stabilise in ' + self.name)

    def run(self, chk, fn, observers, setup=None, opts=None, args=None, empty=False):
        self.infer()
        e = self.entries[fn]
        o = dict(e.opts)
        o.update(opts or {})
        pos = Pos()
        E = self.engine([pos] + list(observers), o)
        E.public = e.public

        def both(E_, st):
            if e.setup:
                e.setup(E_, st)
            if setup:
                setup(E_, st)
        ex = E.run(fn, args if args is not None else e.args, both)
        chk.paths += len(ex)
        chk.instructions += E.stats['instructions']
        chk.functions |= E.stats['functions']
        chk.unknown |= E.stats['unknown_externals']
        r = chk.entries.setdefault(fn, [0, 0])
        r[0] += 1
        r[1] += len(ex)
        if not ex and pos.null and chk.need:
            chk.fail(next(iter(chk.need)), entry=fn, where=pos.null, path=[], detail='every path ends with a null pointer dereferenced')
        elif not ex and not empty:
            raise Broken('no exit path found for %s' % fn)
        return ex


class Pos:
    """remembers the last library position, for reports at exits"""
    null = None

    def on_nullderef(self, E, st, ptr, **kw):
        self.null = self.null or E.where(st)

    def on_frame_exit(self, E, st, fn, exc, **kw):
        if '/src/' in fn.file or fn.file.startswith('src/'):
            w = E.where(st)
            if w:
                st.obs['~pos'] = tuple(w[:6])


def current(E, st, key, size, ptr=False):
    """the value a field has now, by access path from a root parameter"""
    base = atom('param', (key[0],), 64, 4096, PTR_HI, label=key[0], ptr=True)
    for o in key[1:-1]:
        v = E.load_at(st, base, o, 8, 64, True)
        base = v.single()
        if base is None:
            return None
    return E.load_at(st, base, key[-1], size, size * 8, ptr)


def known(st, pred, a, b):
    if isinstance(b, int):
        b = const(b, a.w)
    if st.facts.compare(pred, a, b) is True:
        return True
    from ..values import _atoms
    for p, x, y, want in IMPLIED[pred]:
        t = _atoms.get(('cmp', (p, a if x else b, a if y else b), 1))
        if t is not None and st.facts.atom_iv(t) == (want, want):
            return True
    return False


def _implied():
    """for each relation of a and b, the comparisons whose outcome implies it"""
    import operator as o
    ops = {'eq': o.eq, 'ne': o.ne, 'ult': o.lt, 'ule': o.le, 'ugt': o.gt, 'uge': o.ge}
    out = {}
    for p, f in ops.items():
        l = []
        for q, g in ops.items():
            for x, y in ((1, 0), (0, 1)):
                for want in (0, 1):
                    cs = [(a, b) for a in range(3) for b in range(3) if g(*((a, b) if x else (b, a))) == bool(want)]
                    if all(f(a, b) for a, b in cs):
                        l.append((q, x, y, want))
        out[p] = l
    for p in ('slt', 'sle', 'sgt', 'sge'):
        out[p] = [(p, 1, 0, 1)]
    return out


IMPLIED = _implied()


class Deltas:
    """net change of every mutable integer field since the lock was last taken, and over the whole path"""

    def __init__(self, keys):
        self.keys = keys      # key -> size

    def on_store(self, E, st, base, off, size, value, old, atomic):
        if not E.is_shared(base):
            return
        k = E.fieldkey(base, off)
        if k not in self.keys:
            return
        o = E.load_at(st, base, off, size, size * 8, False)
        d = sub(value, o)
        dv = d.c if d.is_const() else 'X'
        for what in ('sec', 'tot'):
            c = st.obs.get((what, k), 0)
            st.obs[(what, k)] = 'X' if dv == 'X' or c == 'X' or abs(c + dv) > 4 else c + dv

    def on_lock(self, E, st, m):
        self.reset(st)

    def on_woken(self, E, st, cv, m):
        self.reset(st)

    def reset(self, st):
        for k in self.keys:
            st.obs[('sec', k)] = 0


def exc_name(E, e):
    return E.tiname(e.exc[0]) if e.exc else None


def is_a(M, ti, name):
    """ti is the class called name (demangled) or derives from it"""
    if ti == engine.ANY:
        return False
    for b in M.typeinfo_bases(ti):
        if Engine.tiname(None, b).split('::')[-1] == name:
            return True
    return False


def subst(v, m):
    """replace atoms of a value"""
    if not isinstance(v, Poly) or not any(a in m for a in v.atoms()):
        return v
    out = const(v.c, v.w)
    for mono, k in v.t:
        q = const(k, v.w)
        for a in mono:
            r = m.get(a)
            x = mk(v.w, 0, {(a,): 1}) if r is None else mk(v.w, 0, {(r,): 1})
            q = engine.mul(q, x)
        out = add(out, q)
    return out


class Snap:
    """the object a constructor leaves behind, to analyse operations on: every field its constructor determined (in
    terms of the constructor's arguments), reachable through the pointers it holds"""

    def __init__(self, E, st, root, label='self'):
        self.E = E
        self.map = {}
        self.regions = {}
        self.info = {}
        self.fields = {}
        ra = obj(label).single()
        work = [(root, ra)]
        self.map[root] = ra
        order = []
        while work:
            h, a = work.pop()
            order.append((h, a))
            for off, (sz, v) in sorted(((o, e) for o, e in (st.mem.get(h) or {}).items() if isinstance(o, int)), key=lambda x: x[0]):
                s = v.single() if isinstance(v, Poly) and sz == 8 else None
                if s is None and isinstance(v, Poly) and sz == 8:
                    c = [x for x in v.atoms() if x.kind == 'heap']
                    s = c[0] if len(c) == 1 else None
                if s is not None and s.kind == 'heap' and s not in self.map and s not in st.freed:
                    na = atom('fld', (a, off, 64), 64, 4096, PTR_HI, label='%s[%d]' % (a.label, off), ptr=True)
                    self.map[s] = na
                    work.append((s, na))
        for h, a in order:
            r = {}
            for off, (sz, v) in (st.mem.get(h) or {}).items():
                if not isinstance(off, int) or not isinstance(v, Poly):
                    continue
                v = subst(v, self.map)
                if any(x.kind in ('undef', 'sym', 'alloca', 'heap') for x in v.atoms()):
                    continue
                r[off] = (sz, v)
            self.regions[a] = r
            hi = E.heapinfo.get(h)
            if hi is not None:
                self.info[a] = hi
        self.root = ra
        self.facts = {F: iv for F, iv in st.facts.d.items() if all(x.kind == 'param' for mo, _ in F for x in mo)}
        self.ne = {F: iv for F, iv in st.facts.ne.items() if all(x.kind == 'param' for mo, _ in F for x in mo)}

    def at(self, *path):
        """value of a field of the constructed object, by byte offsets"""
        a = self.root
        for o in path[:-1]:
            e = self.regions.get(a, {}).get(o)
            if e is None:
                return None
            a = e[1].single()
        e = self.regions.get(a, {}).get(path[-1])
        return e[1] if e else None

    def atom_at(self, *path):
        a = self.root
        for o in path:
            e = self.regions.get(a, {}).get(o)
            if e is None:
                return None
            a = e[1].single()
        return a

    def keyof(self, E, a, off):
        return E.fieldkey(a, off)

    def apply(self, E, st, over=None):
        """install the object; fields that change after construction stay unknown unless `over` gives them a value"""
        over = over or {}
        st.facts.d.update(self.facts)
        st.facts.ne.update(self.ne)
        for a, r in self.regions.items():
            if a.lo < 4096:
                st.facts.set_form((((a,), 1),), 4096, PTR_HI)
            R = st.region(a, True)
            for off, e in r.items():
                k = E.fieldkey(a, off)
                if k in over:
                    R[off] = (over[k].w // 8, over[k])
                elif not E.is_mut(k):
                    R[off] = e
        for a, hi in self.info.items():
            E.heapinfo[a] = hi


def constructed(g, fn, args, setup=None, opts=None):
    """run a constructor entry; [(engine state snapshot, exit)] for returning exits"""
    quiet = Check('ctor')
    out = []
    g.mutable = g.mutable if g.mutable is not None else set()
    holder = []

    class Keep:
        def on_exit(self, E, st, e):
            holder.append((E, st, e))
    e = g.entries[fn]
    o = dict(e.opts)
    o.update(opts or {})
    E = g.engine([Keep()], o)
    E.run(fn, args, setup)
    for E_, st, ex in holder:
        if ex.kind == 'return':
            s = ex.value.single()
            if s is None or s.kind != 'heap':
                raise Broken('constructed object of %s not found' % fn)
            out.append((Snap(E_, st, s), st, ex, E_))
        else:
            out.append((None, st, ex, E_))
    if not out:
        raise Broken('constructor %s has no exit' % fn)
    return out


class Ghosts:
    """counters of the analysis kept where loop widening treats them like program variables"""
    ghosts = ()

    def init(self, E, st):
        a = Atom('alloca', (), 64, 4096, PTR_HI, 'ghost', True)
        st.obs['ghost', type(self).__name__] = pa(a)
        for i in range(len(self.ghosts)):
            st.region(a, True)[8 * i] = (8, const(0, 64))

    def ghost(self, st, g):
        return st.mem[st.obs['ghost', type(self).__name__].single()][8 * self.ghosts.index(g)][1]

    def setghost(self, st, g, v):
        st.region(st.obs['ghost', type(self).__name__].single(), True)[8 * self.ghosts.index(g)] = (8, v if isinstance(v, Poly) else const(v, 64))

    def bump(self, st, g, d=1):
        self.setghost(st, g, add(self.ghost(st, g), d if isinstance(d, Poly) else const(d, 64)))


def eq(st, a, b):
    if isinstance(b, int):
        b = const(b, a.w)
    return a is b or st.facts.compare('eq', a, b) is True


def le(st, a, b):
    if isinstance(b, int):
        b = const(b, a.w)
    return a is b or st.facts.compare('ule', a, b) is True


def field(E, st, v, lo, w):
    """bits of an integer value"""
    return E.extract(st, v, lo, w)


# -- ring buffers seen from outside: what R01 and G01-G04 establish about them ---------------------------------------
UNDERFLOW = '_ZTIN8ReiserRT4Core19RingBufferUnderflowE'
STATE_ERROR = '_ZTIN8ReiserRT4Core20RingBufferStateErrorE'
ABORTED = '_ZTIN8ReiserRT4Core16SemaphoreAbortedE'


def block():
    return pa(Atom('heap', (), 64, 4096, PTR_HI, 'block', True))


def c_simple_get(E, st, f, I, fn, args):
    if E.choose(st, 2) == 0:
        b = block()
        E.event(st, 'ring', op='get', ring=args[0], value=b)
        return E.external_return(st, f, I, b)
    st.note('ring buffer empty')
    E.event(st, 'ring', op='empty', ring=args[0], value=None)
    return E.throw(st, UNDERFLOW, 'RingBufferSimple::get')


def c_simple_put(E, st, f, I, fn, args):
    E.event(st, 'ring', op='put', ring=args[0], value=args[1])
    return E.external_return(st, f, I, None)


def c_guarded_get(E, st, f, I, fn, args):
    E.event(st, 'ringwait', ring=args[0])
    E.havoc_shared(st)
    n = E.choose(st, 3)
    if n == 0:
        b = block()
        E.event(st, 'ring', op='get', ring=args[0], value=b)
        return E.external_return(st, f, I, b)
    E.event(st, 'ring', op='aborted', ring=args[0], value=None)
    return E.throw(st, ABORTED if n == 1 else STATE_ERROR, 'RingBufferGuarded::get')


def c_guarded_put(E, st, f, I, fn, args):
    E.event(st, 'ringwait', ring=args[0])
    E.havoc_shared(st)
    n = E.choose(st, 3)
    if n == 0:
        E.event(st, 'ring', op='put', ring=args[0], value=args[1])
        return E.external_return(st, f, I, TRUE)
    E.event(st, 'ring', op='refused', ring=args[0], value=args[1])
    if n == 1:
        st.note('put finds the ring buffer aborted')
        return E.external_return(st, f, I, FALSE)
    st.note('put is aborted while waiting')
    return E.throw(st, ABORTED, 'RingBufferGuarded::put')


C = r'^ReiserRT::Core::'
SIMPLE = [(C + r'RingBufferSimple(Base)?<.*>::get\(\)', c_simple_get), (C + r'RingBufferSimple(Base)?<.*>::put\(', c_simple_put)]
GUARDED = [(C + r'RingBufferGuarded(Base)?<.*>::get\(\)', c_guarded_get), (C + r'RingBufferGuarded(Base)?<.*>::put\(', c_guarded_put)]
