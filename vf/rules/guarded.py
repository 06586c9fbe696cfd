"""RingBufferGuarded (G01-G04)."""
from .common import *
from .common import C as CR
from . import sem
from .ring import size_cells, MAXBITS

TAGS = {'u32': (32, 'unsigned int'), 'void': (64, 'void *'), 'obj': (64, 'VfThing *')}


def not_empty(f):
    def callable_(E, st):
        """the caller passes a function object that is not empty"""
        v = E.load_at(st, f.single(), 16, 8, 64, True)
        if not st.facts.set_form(v.t, 4096, PTR_HI):
            raise Infeasible()
    return callable_


def group(tag):
    s, f = obj('self'), obj('op')
    n = scalar('requested')
    p = 'vf_gring_%s_' % tag
    w, t = TAGS[tag]

    callable_ = not_empty(f)
    T = 'RingBufferGuarded<%s>' % t
    return Group('guarded ' + tag, [
        Entry(p + 'new', [n, scalar('prime', 1)], {'construct': True}, public=T + '(n, willPrime)'),
        Entry(p + 'new1', [n], {'construct': True}, public=T + '(n)'),
        Entry(p + 'delete', [s], {'construct': True}, public='~' + T),
        Entry(p + 'get', [s], public=T + '::get'), Entry(p + 'put', [s, scalar('value', w)], public=T + '::put'),
        Entry(p + 'abort', [s], public=T + '::abort'), Entry(p + 'prime', [s, f], setup=callable_, public=T + '::prime'),
        Entry(p + 'flush', [s, f], setup=callable_, public=T + '::flush')],
        {'self': 'ReiserRT::Core::RingBufferGuarded<%s>' % t, 'op': None})


def wide():
    """elements of two words, more than fits beside a pointer in a function object"""
    s, v, f = obj('self'), obj('place'), obj('op')
    n = 'void (VfThing::*)()'
    T = 'RingBufferGuarded<%s>' % n
    p = 'vf_gring_mem_'
    return Group('guarded mem', [Entry(p + op, [s] + a, public=T + '::' + op, **k) for op, a, k in
                                 (('put', [v], {}), ('get', [v], {}), ('abort', [], {}), ('prime', [f], {'setup': not_empty(f)}),
                                  ('flush', [f], {'setup': not_empty(f)}))],
                 {'self': 'ReiserRT::Core::' + T, 'place': None, 'op': None})


class GRoles:
    """which field plays which part"""

    def __init__(self, tag):
        self.tag = tag
        g = self.g = group(tag)
        P = self.P = 'vf_gring_%s_' % tag
        g.infer()
        self.w = TAGS[tag][0]
        quiet = Check('roles')
        sizes, atomics = {}, {}

        class Stores:
            def on_store(s_, E, st, base, off, size, value, old, atomic):
                if not E.is_shared(base) or not isinstance(off, int):
                    return
                k = E.fieldkey(base, off)
                if k[0] != 'self':
                    return
                if atomic is not None:
                    atomics.setdefault((E.entry, k), []).append(value)
                    self.asize = size
                else:
                    sizes[k] = size

            def on_rmw(s_, E, st, base, off, size, old, value, op):
                if op == 'xchg':
                    s_.on_store(E, st, base, off, size, value, None, 7)
        # the semaphore: the object its operations are called on
        offs = set()

        class Sem:
            def on_enter(s_, E, st, fn, args):
                if args and re.match(CR + r'Semaphore::\w+\(', fn.dem):
                    b, o = E.split(st, args[0])
                    if b is not None and b.label == 'self' and isinstance(o, int):
                        offs.add(o)
        for op in ('abort', 'get', 'put'):
            g.run(quiet, P + op, [Sem()])
        if len(offs) != 1:
            raise Broken('guarded ring buffer: %d semaphores found' % len(offs))
        self.semoff = offs.pop()
        plain = {}

        class Plain:
            def on_store(s_, E, st, base, off, size, value, old, atomic):
                if E.is_shared(base) and isinstance(off, int) and atomic is None and not self.insem(E.fieldkey(base, off)) and E.fieldkey(base, off)[0] == 'self':
                    plain.setdefault((E.entry, E.fieldkey(base, off)), []).append(value)
                    self.asize = size
        g.run(quiet, P + 'abort', [Stores()])
        sizes.clear()
        if not atomics:
            g.run(quiet, P + 'abort', [Plain()])
            atomics = plain
        st_keys = {k for (en, k) in atomics}
        if len(st_keys) != 1:
            raise Broken('guarded ring buffer: abort sets %d atomic fields' % len(st_keys))
        self.state = st_keys.pop()
        vs = {v for l in atomics.values() for v in l}
        v = vs.pop()
        if vs or not v.is_const():
            raise Broken('guarded ring buffer: abort sets no fixed state')
        self.terminal = v.u
        self.init = {}
        for prime in (0, 1):
            def setup(E, st):
                st.facts.set_form(scalar('prime', 1).t, prime, prime)
                st.facts.set_form(scalar('requested').t, 4, 4)
            for snap, st, ex, E in constructed(g, P + 'new', g.entries[P + 'new'].args, setup):
                if snap is None:
                    raise Broken('guarded ring buffer: construction fails')
                v = snap.at(*self.state[1:])
                if v is None or not v.is_const():
                    raise Broken('guarded ring buffer: initial state is not fixed')
                self.init[prime] = v.u
        self.ready, self.priming = self.init[0], self.init[1]
        # ring counters: what get and put move under the lock, outside the semaphore
        self.size = {}
        for op in ('get', 'put'):
            sizes.clear()
            g.run(quiet, P + op, [Stores()])
            for k, s in sizes.items():
                if not self.insem(k) and k != self.state:
                    self.size[k] = s
        self.d = {}
        for op in ('get', 'put'):
            ex = g.run(quiet, P + op, [Deltas(self.size)])
            for k in self.size:
                ds = [e.state.obs.get(('tot', k), 0) for e in ex if e.kind == 'return']
                ds = [d for d in ds if d != 'X']
                if not ds:
                    raise Broken('guarded ring buffer: %s changes %s by no fixed amount' % (op, k))
                self.d[op, k] = max(set(ds), key=lambda d: (ds.count(d), abs(d)))
        if not self.size:
            raise Broken('guarded ring buffer keeps no position')
        # the semaphore's own parts
        sg, SR = sem.setup_roles()
        m = lambda k: ('self', self.semoff + k[1]) + k[2:]
        self.count = m(SR.count)
        self.abortflag = m(SR.abort)
        self.abortsize = SR.sizes[SR.abort]
        self.mutex = {m(k) for k in SR.mutex}
        self.givecv = {m(k) for k in SR.cv['give']}
        self.csize = SR.sizes[SR.count]
        # how wide the semaphore object is
        t = module().types.get('ReiserRT::Core::Semaphore')
        self.semsize = t['size'] if t and 'size' in t else 8

    def insem(self, k):
        return k[0] == 'self' and len(k) > 2 and k[1] == self.semoff or len(k) == 2 and k[1] != '*' and \
            self.semoff <= k[1] < self.semoff + 8

    def iselement(self, E, base, off):
        k = E.fieldkey(base, off)
        return k[0] == 'self' and len(k) == 3 and not self.insem(k)

    def isring(self, E, base, off):
        return E.is_shared(base) and (E.fieldkey(base, off) in self.size or self.iselement(E, base, off))

    def held(self, E, st):
        return any(E.fieldkey(*h) in self.mutex for h in st.locks)

    def position(self, E, st, snap, gets, present):
        """ring counters after so many gets, with so many elements present"""
        out = {}
        for f, sz in self.size.items():
            f0 = snap.at(*f[1:])
            if f0 is None or not f0.is_const():
                raise Broken('initial value of %s is not a constant' % (f,))
            W = sz * 8
            v = const(f0.u, W)
            v = add(v, scale(E.trunc(st, gets, W), self.d['get', f] + self.d['put', f]))
            v = add(v, scale(E.trunc(st, present, W), self.d['put', f]))
            out[f] = v
        return out

    def put_field(self, E, st, k, v):
        base = obj(k[0]).single()
        for o in k[1:-1]:
            base = E.load_at(st, base, o, 8, 64, True).single()
        E.store_at(st, base, k[-1], v, v.w // 8)

    def at(self, E, st, k, size):
        return current(E, st, k, size)

    def cells(self, full=True):
        """classes of (requested, willPrime) with capacity, and the number of elements promised"""
        n = scalar('requested')
        for lo, hi, k in size_cells():
            N = 1 << k
            want = const(N, 64) if lo == 0 or lo > N else n
            for prime in (0, 1):
                yield lo, hi, N, want, prime

    def build(self, lo, hi, prime, fn='new', opts=None):
        n = scalar('requested')

        def setup(E, st):
            if not st.facts.set_form(n.t, lo, hi) or not st.facts.set_form(scalar('prime', 1).t, prime, prime):
                raise Infeasible()
        return constructed(self.g, self.P + fn, self.g.entries[self.P + fn].args, setup, opts)


def statevalue(v, want):
    return v is not None and v.w == 8 and want is not None


class Seen:
    """what this path knows about the life cycle state from its own loads"""

    def __init__(self, R, only=None):
        self.R, self.only = R, only

    def init(self, E, st):
        st.obs['state'] = ()         # values loaded lately
        st.obs['saw'] = frozenset()  # what earlier ones are known to have been

    def note(self, E, st, base, off, value):
        R = self.R
        if not E.is_shared(base) or E.fieldkey(base, off) != R.state:
            return
        F = st.facts
        last = st.obs['state'][-1] if st.obs['state'] else None
        ok = True
        if last is not None and known(st, 'eq', last, R.terminal):
            ok = F.assume_cmp('eq', value, const(R.terminal, value.w))
        if ok and self.only is not None:
            vs = sorted(self.only)
            ok = F.set_form(value.t, vs[0], vs[-1]) if value.t else value.u in self.only
            for x in range(vs[0], vs[-1]):
                if ok and x not in self.only:
                    ok = F.assume_cmp('ne', value, const(x, value.w))
        if not ok:
            raise Infeasible()
        old = st.obs['state'] + (value,)
        for v in old[:-2]:
            st.obs['saw'] = st.obs['saw'] | {(p, x) for p in ('eq', 'ne') for x in (R.priming, R.ready, R.terminal) if known(st, p, v, x)}
        st.obs['state'] = old[-2:]

    def on_load(self, E, st, base, off, size, value, atomic):
        if atomic is not None:
            self.note(E, st, base, off, value)

    def on_casfail(self, E, st, base, off, size, value):
        self.note(E, st, base, off, value)

    def on_cas(self, E, st, base, off, size, expected, value):
        self.note(E, st, base, off, expected)

    @staticmethod
    def some(st, pred, x):
        return (pred, x) in st.obs['saw'] or any(known(st, pred, v, x) for v in st.obs['state'])


# -- G01 -----------------------------------------------------------------------------------------------------------
class Moves:
    """one operation in service, under the monitor's invariant: elements present == available count"""

    def __init__(self, chk, R, op, snap, N, what):
        self.chk, self.R, self.op, self.snap, self.N, self.what = chk, R, op, snap, N, what

    def init(self, E, st):
        st.obs['el'] = ()
        st.obs['n'] = 0

    def enter(self, E, st):
        R = self.R
        x, c = pa(fresh('gets', 64, 0, (1 << 64) - 1)), pa(fresh('count', 64, 0, self.N))
        st.facts.set_form(c.t, 0, self.N)
        for k, v in R.position(E, st, self.snap, x, c).items():
            R.put_field(E, st, k, v)
        R.put_field(E, st, R.count, E.trunc(st, c, R.csize * 8))
        st.obs['x'], st.obs['c'] = x, c

    def on_lock(self, E, st, m):
        if E.fieldkey(*m) in self.R.mutex:
            self.enter(E, st)

    def on_woken(self, E, st, cv, m):
        if E.fieldkey(*m) in self.R.mutex:
            self.enter(E, st)

    def inv(self, E, st, where):
        R = self.R
        if 'x' not in st.obs:
            return
        c2 = E.zext(st, R.at(E, st, R.count, R.csize), 64)
        dc = sub(c2, st.obs['c'])
        good = None
        for a in (0, 1, -1, 2, -2):
            want = R.position(E, st, self.snap, add(st.obs['x'], const(a, 64)), c2)
            if all(R.at(E, st, k, sz) is want[k] for k, sz in R.size.items()):
                good = a
                break
        self.chk.verdict(good is not None and dc.is_const(), 'in-step', E, st, '%s, %s: at %s the number of elements present differs from the count (count moved by %r)' % (
            self.op, self.what, where, dc))
        moved = (good or 0, (good or 0) + (dc.c if dc.is_const() else 0))
        if moved != (0, 0):
            st.obs['n'] += 1
            st.obs['moved'] = moved

    def on_unlock(self, E, st, m):
        if E.fieldkey(*m) in self.R.mutex:
            self.inv(E, st, 'unlock')

    def on_wait(self, E, st, cv, m):
        if E.fieldkey(*m) in self.R.mutex:
            self.inv(E, st, 'wait')

    def access(self, E, st, base, off, how):
        R = self.R
        if not R.isring(E, base, off):
            return
        p = E.pretty(E.fieldkey(base, off))
        self.chk.verdict(R.held(E, st), 'exclusive', E, st, '%s of %s without the semaphore lock' % (how, p))
        self.chk.verdict(Seen.some(st, 'eq', R.ready), 'in-service', E, st, '%s of %s without having observed the ready state' % (how, p))

    def on_load(self, E, st, base, off, size, value, atomic):
        self.access(E, st, base, off, 'read')
        if E.is_shared(base) and self.R.iselement(E, base, off):
            st.obs['el'] = st.obs['el'] + (('load', off, size, value),)

    def on_store(self, E, st, base, off, size, value, old, atomic):
        self.access(E, st, base, off, 'write')
        if E.is_shared(base) and self.R.iselement(E, base, off):
            st.obs['el'] = st.obs['el'] + (('store', off, size, value),)

    def on_exit(self, E, st, e):
        R, op = self.R, self.op
        if e.kind == 'throw':
            n = exc_name(E, e)
            self.chk.verdict(not is_a(E.M, e.exc[0], 'RingBufferUnderflow') and not is_a(E.M, e.exc[0], 'RingBufferOverflow'), 'never-empty-or-full', E, st,
                             '%s, %s: ends with %s' % (op, self.what, n))
            self.chk.verdict(st.obs['n'] == 0 and not any(a[0] == 'store' for a in st.obs['el']), 'moves-nothing', E, st, '%s, %s: ends with %s after moving something' % (op, self.what, n))
            return
        if e.kind != 'return':
            self.chk.fail('moves-nothing', E, st, '%s ends with %s' % (op, e.kind))
            return
        refused = op == 'put' and known(st, 'eq', e.value, 0)
        if refused:
            self.chk.verdict(st.obs['n'] == 0 and not any(a[0] == 'store' for a in st.obs['el']), 'moves-nothing', E, st, '%s, %s: refused, but moved something' % (op, self.what))
            return
        want = (1, 0) if op == 'get' else (0, 1)
        self.chk.verdict(st.obs['n'] == 1 and st.obs.get('moved') == want, 'moves-one', E, st, '%s, %s: %d moves, last one %s (gets, puts)' % (op, self.what, st.obs['n'], st.obs.get('moved')))
        mine = [a for a in st.obs['el'] if a[0] == ('load' if op == 'get' else 'store')]
        val = e.value if op == 'get' else scalar('value', R.w)
        stray = [a for a in st.obs['el'] if a[0] == 'store'] if op == 'get' else []
        self.chk.verdict(mine and len({a[1:3] for a in mine}) == 1 and mine[-1][3] is val and not stray, 'right-element', E, st,
                         '%s, %s: element accesses %s, value %r' % (op, self.what, st.obs['el'], val))


class Published:
    """priming fills the ring without the lock: only the ready state tells get and put what it stored"""

    def __init__(self, chk, R, op, loose):
        self.chk, self.R, self.op, self.loose = chk, R, op, loose

    def init(self, E, st):
        st.obs['rel'] = True        # nothing to publish yet
        st.obs['read'] = False
        st.obs['acq'] = False

    def sees(self, st, order):
        st.obs['read'] = True
        st.obs['acq'] = st.obs['acq'] or order in ACQUIRES

    def access(self, E, st, base, off, how):
        R = self.R
        if not R.isring(E, base, off):
            return
        if self.op == 'prime':
            if not R.held(E, st):
                st.obs['rel'] = False
                self.loose.add(E.pretty(E.fieldkey(base, off)))
        elif self.loose:
            self.chk.verdict(st.obs['acq'], 'published', E, st, '%s: %s of %s, which priming stores without the lock, though the state was not read with acquire order' % (
                self.op, how, E.pretty(E.fieldkey(base, off))))

    def on_load(self, E, st, base, off, size, value, atomic):
        if atomic is not None and E.is_shared(base) and E.fieldkey(base, off) == self.R.state:
            self.sees(st, atomic)
        else:
            self.access(E, st, base, off, 'read')

    def on_casfail(self, E, st, base, off, size, value):
        if E.is_shared(base) and E.fieldkey(base, off) == self.R.state:
            self.sees(st, E.order)

    def on_fence(self, E, st, order):
        if order in ACQUIRES:
            st.obs['acq'] = st.obs['acq'] or st.obs['read']
        if order in RELEASES:
            st.obs['rel'] = True

    def ready(self, E, st, value, order):
        if value.is_const() and value.u == self.R.ready and self.op == 'prime':
            self.chk.verdict(st.obs['rel'] or order in RELEASES, 'published', E, st, 'prime becomes ready without release order after storing without the lock')

    def on_cas(self, E, st, base, off, size, expected, value):
        if E.is_shared(base) and E.fieldkey(base, off) == self.R.state:
            self.ready(E, st, value, E.order)
            self.sees(st, E.order)

    def on_rmw(self, E, st, base, off, size, old, value, op):
        if E.is_shared(base) and E.fieldkey(base, off) == self.R.state:
            self.ready(E, st, value, E.order)

    def on_store(self, E, st, base, off, size, value, old, atomic):
        if atomic is not None and E.is_shared(base) and E.fieldkey(base, off) == self.R.state:
            self.ready(E, st, value, atomic)
        else:
            self.access(E, st, base, off, 'write')


def g01(chk, tier, tags=None):
    chk.rule('exclusive', 'get and put touch the ring positions and elements only with the semaphore lock held', 60)
    chk.rule('in-service', '... and only after having observed the ready state', 60)
    chk.rule('in-step', 'whenever the lock is given up, the number of elements present equals the available count', 60)
    chk.rule('moves-one', 'a get that returns took one element and one unit; a put that reports success added one of each', 60)
    chk.rule('moves-nothing', 'a get or put that throws, or a put that reports refusal, moved nothing', 60)
    chk.rule('right-element', 'get returns the element it removed, put stores the value it was given', 60)
    chk.rule('never-empty-or-full', 'given the invariant, no get meets an empty buffer and no put a full one', 60)
    chk.rule('ready-in-step', 'when the ready state is entered the number of elements present equals the available count', 10)
    chk.rule('published', 'entering the ready state publishes what priming stored, and get and put acquire it before touching the ring', 3)
    n = 0
    for tag in tags or TAGS:
        R = GRoles(tag)
        loose = set()
        for op in ('prime', 'get', 'put'):
            R.g.run(chk, R.P + op, [Seen(R, {R.priming, R.terminal} if op == 'prime' else None), Published(chk, R, op, loose)])
        for k in loose or ('nothing',):
            chk.ok('published')
        for lo, hi, N, want, prime in R.cells():
            for snap, st0, ex, E0 in R.build(lo, hi, prime):
                what = 'requested in [%d, %d], willPrime %d' % (lo, hi, prime)
                if snap is None:
                    chk.fail('moves-one', entry=R.P + 'new', where=[], path=E0.path(st0), detail='construction fails, ' + what)
                    continue
                n += 1
                for op in ('get', 'put'):
                    R.g.run(chk, R.P + op, [Seen(R), Moves(chk, R, op, snap, N, what)], setup=lambda E, st: snap.apply(E, st))
                if not prime:
                    cnt = snap.at(*R.count[1:])
                    F = Facts_of(snap, st0)
                    chk.verdict(cnt is not None and F.compare('eq', cnt, const(0, cnt.w)) is True, 'ready-in-step', entry=R.P + 'new', where=[], path=E0.path(st0),
                                detail='a new empty buffer starts with count %r, %s' % (cnt, what))
                else:
                    R.g.run(chk, R.P + 'prime', [Seen(R, {R.priming, R.terminal}), Priming(chk, R, snap, what, None)],
                            setup=lambda E, st: snap.apply(E, st))
    chk.scans['constructed configurations'] = n


def Facts_of(snap, st):
    return st.facts


class Solo:
    """one thread has the ring to itself (priming, flushing): nobody else moves its positions"""
    ghosts = ('calls',)

    def __init__(self, chk, R, snap, what):
        self.chk, self.R, self.snap, self.what = chk, R, snap, what

    def init(self, E, st):
        a = Atom('alloca', (), 64, 4096, PTR_HI, 'ghost', True)
        st.obs['ghost'] = pa(a)
        for i, g in enumerate(self.ghosts):
            st.region(a, True)[8 * i] = (8, const(0, 64))
        st.obs['begun'] = False

    def ghost(self, st, i):
        return st.mem[st.obs['ghost'].single()][8 * i][1]

    def setghost(self, st, i, v):
        st.region(st.obs['ghost'].single(), True)[8 * i] = (8, v)

    def begin(self, E, st):
        if st.obs['begun']:
            return
        st.obs['begun'] = True
        gets, present, count = self.start(E, st)
        for k, v in self.R.position(E, st, self.snap, gets, present).items():
            self.R.put_field(E, st, k, v)
        self.R.put_field(E, st, self.R.count, E.trunc(st, count, self.R.csize * 8))

    def on_enter(self, E, st, fn, args):
        if len(st.frames) == 1:
            self.begin(E, st)

    def keep(self, E, st):
        keys = dict(self.R.size)
        keys[self.R.count] = self.R.csize
        st.obs['keep'] = tuple((k, self.R.at(E, st, k, sz)) for k, sz in keys.items())

    def back(self, E, st):
        for k, v in st.obs.pop('keep', ()):
            self.R.put_field(E, st, k, v)

    def on_lock_request(self, E, st, m):
        self.begin(E, st)
        self.keep(E, st)

    def on_lock(self, E, st, m):
        self.back(E, st)

    def on_wait(self, E, st, cv, m):
        self.keep(E, st)

    def on_woken(self, E, st, cv, m):
        self.back(E, st)

    def ring_at(self, E, st, gets, present):
        want = self.R.position(E, st, self.snap, gets, present)
        return all(st.facts.compare('eq', self.R.at(E, st, k, sz), want[k]) is True for k, sz in self.R.size.items())


class Priming(Solo):
    """prime() on a new buffer; want is the number of elements promised"""

    def __init__(self, chk, R, snap, what, want):
        Solo.__init__(self, chk, R, snap, what)
        self.want = want

    def start(self, E, st):
        c0 = self.snap.at(*self.R.count[1:])
        self.c0 = E.zext(st, c0, 64) if c0 is not None else pa(fresh('count', 64))
        return const(0, 64), const(0, 64), self.c0

    def on_callback(self, E, st, name, args, throws, **kw):
        g = self.ghost(st, 0)
        if self.want is not None:
            a = args[1] if len(args) > 1 else None
            if a is not None and isinstance(a, Poly):
                b, o = E.split(st, a)
                if b is not None and b.kind == 'alloca':       # std::function passes its argument by reference
                    a = E.load_at(st, b, o, 8, 64, False)
            self.chk.verdict(a is not None and st.facts.compare('eq', a, g) is True, 'supplier-index', E, st, '%s: call number %r gets index %r' % (self.what, g, a))
            self.chk.verdict(self.ring_at(E, st, const(0, 64), g), 'stored', E, st, '%s: supplier is called again before its last element was stored' % self.what)
        if not throws:
            self.setghost(st, 0, add(g, const(1, 64)))

    def on_callback_ret(self, E, st, name, value):
        if self.want is not None:
            st.obs['last'] = value

    def on_store(self, E, st, base, off, size, value, old, atomic):
        if self.want is not None and E.is_shared(base) and self.R.iselement(E, base, off):
            l = st.obs.pop('last', None)
            self.chk.verdict(l is not None and value is l, 'stored', E, st, '%s: stores %r, the supplier returned %r' % (self.what, value, l))
        if atomic is not None and E.is_shared(base) and E.fieldkey(base, off) == self.R.state:
            self.on_cas(E, st, base, off, size, None, value)

    def on_cas(self, E, st, base, off, size, expected, value):
        if not (value.is_const() and value.u == self.R.ready):
            return
        g = self.ghost(st, 0)
        if self.want is None:
            n = E.zext(st, self.R.at(E, st, self.R.count, self.R.csize), 64)
            self.chk.verdict(self.ring_at(E, st, const(0, 64), n), 'ready-in-step', E, st, '%s: becomes ready with a count of %r, but ring positions %s' % (
                self.what, n, [(E.pretty(k), self.R.at(E, st, k, s)) for k, s in self.R.size.items()]))
        else:
            self.chk.verdict(st.facts.compare('eq', g, self.want) is True, 'primes-all', E, st, '%s: becomes ready after %r calls of the supplier instead of %r' % (self.what, g, self.want))
            self.chk.verdict(self.ring_at(E, st, const(0, 64), self.want), 'primes-all', E, st, '%s: becomes ready without %r elements' % (self.what, self.want))

    def on_exit(self, E, st, e):
        if self.want is None:
            return
        if e.kind == 'throw':
            self.chk.verdict(e.exc[0] == engine.ANY or is_a(E.M, e.exc[0], 'RingBufferStateError'), 'primes-all', E, st, '%s: prime throws %s' % (self.what, exc_name(E, e)))
        elif e.kind != 'return':
            self.chk.fail('primes-all', E, st, '%s: prime ends with %s' % (self.what, e.kind))


# -- G02 -----------------------------------------------------------------------------------------------------------
class Whole:
    """every access to the state is atomic"""

    def __init__(self, chk, R, op):
        self.chk, self.R, self.op = chk, R, op

    def see(self, E, st, base, off, how, atomic):
        if E.is_shared(base) and E.fieldkey(base, off) == self.R.state:
            self.chk.verdict(atomic is not None, 'atomic', E, st, '%s %s the state, but not atomically' % (self.op, how))

    def on_load(self, E, st, base, off, size, value, atomic):
        self.see(E, st, base, off, 'reads', atomic)

    def on_store(self, E, st, base, off, size, value, old, atomic):
        self.see(E, st, base, off, 'writes', atomic)


class Cycle:
    NEED = {'get': 'ready', 'put': 'ready', 'prime': 'priming', 'flush': 'terminal'}

    def __init__(self, chk, R, op):
        self.chk, self.R, self.op = chk, R, op
        self.want = getattr(R, self.NEED[op]) if op in self.NEED else None

    def init(self, E, st):
        st.obs['fx'] = ()
        st.obs['set'] = False
        st.obs['flag'] = False
        st.obs['cas'] = False

    def effect(self, E, st, what):
        if self.want is not None:
            self.chk.verdict(Seen.some(st, 'eq', self.want), 'order', E, st, '%s: %s without having observed the required state' % (self.op, what))
        st.obs['fx'] = (what,)

    def change(self, E, st, value, expected, how):
        R = self.R
        if value.is_const() and value.u == R.terminal:
            st.obs['set'] = True
            self.chk.ok('one-way')
            return
        if value.is_const() and value.u == R.ready and how == 'compare-exchange':
            self.chk.verdict(known(st, 'ne', expected, R.terminal), 'one-way', E, st, 'the ready state may replace the aborted one')
            st.obs['cas'] = True
            return
        self.chk.fail('one-way', E, st, '%s sets the state to %r by %s' % (self.op, value, how))

    def on_store(self, E, st, base, off, size, value, old, atomic):
        if not E.is_shared(base):
            return
        k = E.fieldkey(base, off)
        if k == self.R.state:
            self.change(E, st, value, None, 'plain store')
            if self.op == 'abort':
                return
        if k == self.R.abortflag and known(st, 'ne', value, 0):
            st.obs['flag'] = True
        if self.op in self.NEED:
            self.effect(E, st, 'write to %s' % E.pretty(k))

    def on_cas(self, E, st, base, off, size, expected, value):
        if E.is_shared(base) and E.fieldkey(base, off) == self.R.state:
            self.change(E, st, value, expected, 'compare-exchange')
            if self.op != 'abort':
                self.effect(E, st, 'state change')

    def on_rmw(self, E, st, base, off, size, old, value, op):
        if E.is_shared(base) and E.fieldkey(base, off) == self.R.state:
            self.change(E, st, value, None, 'exchange')

    def on_wait(self, E, st, cv, m):
        self.effect(E, st, 'wait')

    def on_unlock(self, E, st, m):
        pass

    def on_callback(self, E, st, name, args, throws, **kw):
        self.effect(E, st, 'call of the user function')

    def on_lock(self, E, st, m):
        R = self.R
        # the abort flag as found: an operation that meets it leaves with SemaphoreAborted (S04)

    def on_exit(self, E, st, e):
        R, op, chk = self.R, self.op, self.chk
        if e.kind == 'terminate':
            chk.fail('order', E, st, '%s terminates' % op)
            return
        if op == 'abort':
            fl = R.at(E, st, R.abortflag, R.abortsize)
            chk.verdict(e.kind == 'return' and st.obs['set'], 'abort', E, st, 'abort ends without having set the aborted state')
            chk.verdict(st.obs['flag'] or known(st, 'ne', fl, 0), 'abort', E, st, 'abort ends without having aborted the semaphore')
            return
        if op not in self.NEED:
            return
        refusal = e.kind == 'throw' and is_a(E.M, e.exc[0], 'RingBufferStateError')
        false = op == 'put' and e.kind == 'return' and known(st, 'eq', e.value, 0)
        if refusal:
            bad = R.priming if op == 'put' else None
            sure = Seen.some(st, 'eq', bad) if bad is not None else Seen.some(st, 'ne', self.want)
            chk.verdict(sure, 'refusal', E, st, '%s reports a wrong state without having observed one' % op)
            chk.verdict(not st.obs['fx'], 'refusal', E, st, '%s reports a wrong state after %s' % (op, st.obs['fx']))
        elif false:
            chk.verdict(Seen.some(st, 'eq', R.terminal), 'refusal', E, st, 'put reports an abort without having observed one')
            chk.verdict(not st.obs['fx'], 'refusal', E, st, 'put reports an abort after %s' % (st.obs['fx'],))
        else:
            chk.verdict(Seen.some(st, 'eq', self.want), 'order', E, st, '%s %s without having observed the required state' % (op, 'returns' if e.kind == 'return' else 'throws ' + str(exc_name(E, e))))
            if op == 'put' and e.kind == 'return':
                chk.verdict(known(st, 'eq', e.value, 1), 'refusal', E, st, 'put returns %r' % e.value)
        if op == 'prime' and e.kind == 'return':
            chk.verdict(st.obs['cas'] or Seen.some(st, 'ne', R.priming), 'primed', E, st, 'prime returns without the state having left the one that needs priming')
        if op == 'prime' and e.kind == 'throw':
            chk.verdict(not st.obs['cas'], 'primed', E, st, 'prime throws %s after entering the ready state' % exc_name(E, e))


def g02(chk, tier):
    chk.rule('distinct', 'the three life cycle states differ', 3)
    chk.rule('one-way', 'outside construction the state is only ever set to aborted, or to ready by a compare-exchange that cannot replace aborted', 6)
    chk.rule('order', 'no operation has an effect, or ends as if it had worked, without having observed the state it requires', 20)
    chk.rule('refusal', 'a refusal is reported exactly for an observed wrong state, and before any effect; a refused put says false', 10)
    chk.rule('abort', 'abort sets the aborted state and aborts the semaphore on which threads block', 4)
    chk.rule('atomic', 'the state is read and written atomically', 20)
    chk.rule('primed', 'a prime that returns has entered the ready state, or found the state changed by someone else', 3)
    for tag in TAGS:
        R = GRoles(tag)
        chk.verdict(len({R.ready, R.priming, R.terminal}) == 3, 'distinct', entry='RingBufferGuarded', where=[], path=[], detail='states ready %d, priming %d, aborted %d' % (
            R.ready, R.priming, R.terminal))
        for op in ('get', 'put', 'prime', 'flush', 'abort'):
            only = {R.priming, R.terminal, R.ready}
            R.g.run(chk, R.P + op, [Seen(R, only), Whole(chk, R, op), Cycle(chk, R, op)])


# -- G03 -----------------------------------------------------------------------------------------------------------
class Admission:
    """put on a buffer holding so many elements: lets in below the promised number, blocks at it"""

    def __init__(self, chk, R, snap, want, full, what):
        self.chk, self.R, self.snap, self.want, self.full, self.what = chk, R, snap, want, full, what

    def enter(self, E, st):
        R = self.R
        c = pa(fresh('count', 64, 0, 1 << MAXBITS))
        x = pa(fresh('gets', 64))
        st.obs['dead'] = False
        ok = st.facts.set_form(c.t, 0, 1 << MAXBITS)
        if self.full:
            c = self.want
        else:
            ok = ok and st.facts.assume_cmp('ult', c, self.want)
        if not ok:
            raise Infeasible()
        for k, v in R.position(E, st, self.snap, x, c).items():
            R.put_field(E, st, k, v)
        R.put_field(E, st, R.count, E.trunc(st, c, R.csize * 8))
        st.obs['c'] = c
        fl = const(0, R.abortsize * 8)
        R.put_field(E, st, R.abortflag, fl)

    def on_lock(self, E, st, m):
        if E.fieldkey(*m) in self.R.mutex:
            self.enter(E, st)

    def on_wait(self, E, st, cv, m):
        if E.fieldkey(*cv) in self.R.givecv:
            if not self.full:
                self.chk.fail('admits', E, st, '%s: a put blocks although fewer than %r elements are present' % (self.what, self.want))
            else:
                self.chk.ok('blocks')
                raise Infeasible()

    def on_exit(self, E, st, e):
        if 'c' not in st.obs:
            return
        if self.full:
            self.chk.fail('blocks', E, st, '%s: a put does not block although %r elements are present' % (self.what, self.want))
        else:
            self.chk.verdict(e.kind == 'return' and known(st, 'eq', e.value, 1), 'admits', E, st, '%s: a put with room left ends with %s %s' % (self.what, e.kind, exc_name(E, e)))


def g03(chk, tier):
    chk.rule('starts', 'a buffer to be primed starts counting the requested number of elements, limited by its capacity; others start at zero', 100)
    chk.rule('admits', 'a put succeeds without blocking while fewer elements than promised are present', 100)
    chk.rule('blocks', 'a put blocks once the promised number is present', 100)
    chk.rule('supplier-index', 'priming calls the supplier with 0, 1, 2, ...', 40)
    chk.rule('stored', 'each element supplied is stored before the next is asked for', 40)
    chk.rule('primes-all', 'priming completes with exactly the requested number of elements', 40)
    n = 0
    for tag in TAGS:
        R = GRoles(tag)
        for lo, hi, N, want, prime in R.cells():
            forms = [('new', prime)] + ([('new1', 0)] if not prime else [])
            for fn, _ in forms:
                for snap, st0, ex, E0 in R.build(lo, hi, prime, fn):
                    what = 'requested in [%d, %d], willPrime %d' % (lo, hi, prime)
                    if snap is None:
                        chk.fail('starts', entry=R.P + fn, where=[], path=E0.path(st0), detail='construction fails, ' + what)
                        continue
                    n += 1
                    cnt = snap.at(*R.count[1:])
                    promised = const(0, 64) if not prime or lo == 0 else want
                    good = cnt is not None and st0.facts.compare('eq', E0.zext(st0, cnt, 64), promised) is True
                    chk.verdict(good, 'starts', entry=R.P + fn, where=[], path=E0.path(st0), detail='%s: count %r instead of %r' % (what, cnt, promised))
                    for full in (False, True):
                        R.g.run(chk, R.P + 'put', [Seen(R, {R.ready}), Admission(chk, R, snap, want, full, what)], setup=lambda E, st: snap.apply(E, st), empty=full)
                    if prime:
                        R.g.run(chk, R.P + 'prime', [Seen(R, {R.priming, R.terminal}), Priming(chk, R, snap, what, promised)],
                                setup=lambda E, st: snap.apply(E, st))
    chk.scans['constructed configurations'] = n


# -- G04 -----------------------------------------------------------------------------------------------------------
class Flushing(Solo):
    ghosts = ('calls', 'gets')

    def __init__(self, chk, R, snap, present, count, what):
        Solo.__init__(self, chk, R, snap, what)
        self.present, self.count = present, count
        self.x = scalar('position')

    def init(self, E, st):
        Solo.init(self, E, st)
        self.setghost(st, 2, self.present)
        st.obs['el'] = ()

    def start(self, E, st):
        return self.x, self.present, self.count

    def on_store(self, E, st, base, off, size, value, old, atomic):
        R = self.R
        if not E.is_shared(base) or atomic is not None:
            return
        k = E.fieldkey(base, off)
        if R.iselement(E, base, off):
            self.chk.fail('only-removes', E, st, 'flush writes an element')
        if k in R.size:
            d = sub(value, R.at(E, st, k, size))
            want = R.d['get', k]
            if d.is_const() and d.c == 0:
                return
            self.chk.verdict(d.is_const() and d.c == want, 'only-removes', E, st, 'flush moves %s by %r' % (E.pretty(k), d))
            if k == self.lead:
                self.setghost(st, 1, add(self.ghost(st, 1), const(1, 64)))

    @property
    def lead(self):
        return sorted([k for k in self.R.size if self.R.d['get', k]], key=repr)[0]

    def on_load(self, E, st, base, off, size, value, atomic):
        if E.is_shared(base) and self.R.iselement(E, base, off):
            st.obs['el'] = (value,)

    def on_callback(self, E, st, name, args, throws, **kw):
        a = args[1] if len(args) > 1 else None
        if a is not None and isinstance(a, Poly):
            b, o = E.split(st, a)
            if b is not None and b.kind == 'alloca':
                a = E.load_at(st, b, o, self.R.w // 8, self.R.w, False)
        calls, gets = self.ghost(st, 0), self.ghost(st, 1)
        self.chk.verdict(st.obs['el'] and a is st.obs['el'][0], 'hands-over', E, st, '%s: the visitor gets %r, the element removed is %r' % (self.what, a, st.obs['el']))
        self.chk.verdict(st.facts.compare('eq', gets, add(calls, const(1, 64))) is True, 'once', E, st, '%s: call %r of the visitor after %r removals' % (self.what, calls, gets))
        self.chk.verdict(st.facts.compare('ule', gets, self.present) is True, 'no-invention', E, st, '%s: element %r of %r handed over' % (self.what, gets, self.present))
        st.obs['el'] = ()
        self.setghost(st, 0, add(calls, const(1, 64)))

    def on_exit(self, E, st, e):
        calls, gets = self.ghost(st, 0), self.ghost(st, 1)
        if e.kind == 'throw' and is_a(E.M, e.exc[0], 'RingBufferStateError'):
            return
        if e.kind == 'throw' and e.exc[0] == engine.ANY:
            self.chk.verdict(st.facts.compare('eq', calls, gets) is True, 'once', E, st, '%s: visitor throws, %r calls for %r removals' % (self.what, calls, gets))
            return
        if e.kind != 'return':
            self.chk.fail('completes', E, st, '%s: flush ends with %s %s' % (self.what, e.kind, exc_name(E, e)))
            return
        self.chk.verdict(st.facts.compare('eq', calls, gets) is True, 'once', E, st, '%s: returns after %r calls for %r removals' % (self.what, calls, gets))
        self.chk.verdict(st.facts.compare('eq', gets, self.present) is True, 'completes', E, st, '%s: returns after %r of %r elements' % (self.what, gets, self.present))


def g04(chk, tier):
    chk.rule('hands-over', 'the visitor is called with the element just removed', 40)
    chk.rule('once', 'one call of the visitor for each element removed', 40)
    chk.rule('no-invention', 'never more calls than elements were present', 40)
    chk.rule('completes', 'flush returns normally, with no element left', 40)
    chk.rule('only-removes', 'flush only removes, one element at a time', 40)
    k = pa(atom('param', ('present',), 64, 0, 1 << MAXBITS, label='present'))
    x = pa(atom('param', ('excess',), 64, 0, 1 << MAXBITS, label='excess'))
    for tag in TAGS:
        R = GRoles(tag)
        for b in range(1, MAXBITS + 1):
            N = 1 << b
            for snap, st0, ex, E0 in R.build(N, N, 0):
                if snap is None:
                    raise Broken('guarded ring buffer of %d not constructed' % N)
                for lo, hi in ((0, 0), (1, N)):
                    for el, eh in ((0, 0), (1, N - lo)):
                        present = const(0, 64) if hi == 0 else k
                        count = add(present, const(0, 64) if eh == 0 else x)
                        what = 'capacity %d, %s elements present, count %s' % (N, 'no' if hi == 0 else 'some', 'the same' if eh == 0 else 'higher')

                        def setup(E, st):
                            snap.apply(E, st)
                            F = st.facts
                            if hi and not F.set_form(k.t, lo, hi) or eh and not F.set_form(x.t, el, eh) or hi and eh and not F.set_form(add(k, x).t, 0, N):
                                raise Infeasible()
                        if hi and eh and lo + el > N:
                            continue
                        R.g.run(chk, R.P + 'flush', [Seen(R, {R.terminal, R.ready, R.priming}), Flushing(chk, R, snap, present, count, what)], setup=setup)
    chk.scans['capacities'] = MAXBITS


CHECKS = {'G01': g01, 'G02': g02, 'G03': g03, 'G04': g04}
