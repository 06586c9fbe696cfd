"""MemoryPoolBase, ObjectPool, BlockPool and their deleters (P01-P07)."""
from .common import *
from .ring import size_cells, MAXBITS

ARENA_HI = 1 << 46          # larger allocations cannot succeed
CORE = 'ReiserRT::Core::'


def group(contracts=True, root=CORE + 'MemoryPoolBase', entries=()):
    s = obj('self')
    n, e = scalar('requested'), scalar('elementSize')
    es = [Entry('vf_pool_new', [n, e], {'construct': True}), Entry('vf_pool_delete', [s], {'construct': True}),
          Entry('vf_pool_get', [s]), Entry('vf_pool_return', [s, obj('block')]),
          Entry('vf_pool_size', [s]), Entry('vf_pool_elsize', [s]), Entry('vf_pool_padded', [s]), Entry('vf_pool_stats', [s, obj('out')])]
    return Group('pool', es + list(entries), {'self': root, 'block': None, 'out': CORE + 'MemoryPoolBase::RunningStateStats'},
                 {'contracts': SIMPLE} if contracts else {})


def number(fn):
    """value of a driver function that returns a constant"""
    ex = Group('c', [Entry(fn, [])], {}).run(Check('c'), fn, [])
    v = ex[0].value
    if len(ex) != 1 or not v.is_const():
        raise Broken(fn + ' is not a constant')
    return v.u


def exhausted(E, e):
    return e.kind == 'throw' and is_a(E.M, e.exc[0], 'RingBufferUnderflow')


# -- P01 -----------------------------------------------------------------------------------------------------------
class Stock(Ghosts):
    """the blocks a constructor puts into the free list"""
    ghosts = ('count', 'first', 'second')

    def __init__(self, chk, what):
        self.chk, self.what = chk, what

    def on_ring(self, E, st, op, ring, value):
        if op != 'put':
            self.chk.fail('stock', E, st, 'construction takes from the free list')
            return
        n = self.ghost(st, 'count')
        if n.is_const() and n.u < 2:
            self.setghost(st, 'first' if n.u == 0 else 'second', value)
        else:
            self.chk.verdict(eq(st, value, self.nth(st, n)), 'evenly', E, st, '%s: block %r is %r instead of %r' % (self.what, n, value, self.nth(st, n)))
        self.bump(st, 'count')

    def nth(self, st, n):
        a, b = self.ghost(st, 'first'), self.ghost(st, 'second')
        return add(a, mul(sub(b, a), n))


def residues(full):
    return range(8) if full else (0, 3)


def geometry(full):
    """(requested range, capacity, remainder of the element size modulo 8)"""
    cells = size_cells()
    for i, (lo, hi, k) in enumerate(cells):
        N = 1 << k
        for r in residues(full or i in (2, 5, len(cells) - 3)):
            yield lo, hi, N, r


words = pa(atom('param', ('words',), 64, 0, ARENA_HI, label='words'))


def elementsize(r):
    return add(scale(words, 8), const(r, 64))


def size_setup(lo, hi, N, r, least=1):
    def setup(E, st):
        F = st.facts
        if not F.set_form(scalar('requested').t, lo, hi) or not F.set_form(words.t, max(0, -(-(least - r) // 8)), ARENA_HI // N // 8):
            raise Infeasible()
    return setup


def built(g, lo, hi, N, r, observers):
    """pool constructed for a cell: [(snap or None, exit, E)] plus observers' view"""
    out = []

    class Keep:
        def on_exit(self, E, st, e):
            snap = None
            if e.kind == 'return':
                s = e.value.single()
                if s is None or s.kind != 'heap':
                    raise Broken('constructed pool not found')
                snap = Snap(E, st, s)
            out.append((snap, st, e, E))
    E = g.engine(list(observers) + [Keep()], {'construct': True})
    E.run('vf_pool_new', [scalar('requested'), elementsize(r)], size_setup(lo, hi, N, r))
    if not out:
        raise Broken('pool constructor has no exit')
    return out


def value_of(g, snap, fn, chk, setup=None):
    """what a query returns on the constructed object: one value in terms of the constructor's arguments"""
    vs = []

    def su(E, st):
        snap.apply(E, st)
    for e in g.run(chk, fn, [], setup=su):
        if e.kind != 'return':
            return None, None
        vs.append((e.value, e.state))
    if len({v for v, _ in vs}) != 1:
        return None, None
    return vs[0]


class Clearing(Ghosts):
    """what a get of a block writes into it"""
    ghosts = ('zero',)

    def __init__(self, chk, stride=None, need=None, what=''):
        self.chk, self.stride, self.need, self.what = chk, stride, need, what

    def init(self, E, st):
        Ghosts.init(self, E, st)
        st.obs['blk'] = None

    def on_ring(self, E, st, op, ring, value):
        if op == 'get':
            st.obs['blk'] = value
            self.setghost(st, 'zero', 0)

    def mine(self, E, st, p):
        b = st.obs['blk']
        if b is None:
            return None
        d = sub(p, b)
        return d if not any(a.kind == 'heap' for a in d.atoms()) and not any(a.ptr and a not in b.atoms() for a in d.atoms()) else None

    def write(self, E, st, off, size, zero):
        if self.stride is not None:
            end = add(off, size)
            self.chk.verdict(le(st, off, end) and le(st, end, self.stride), 'clears-own', E, st, '%s: write of %r bytes at offset %r of a block of %r' % (
                self.what, size, off, self.stride))
        if not eq(st, off, self.ghost(st, 'zero')):
            return
        if zero:
            self.bump(st, 'zero', size)

    def on_memset(self, E, st, ptr, byte, size):
        off = self.mine(E, st, ptr)
        if off is not None:
            self.write(E, st, off, size if size.w == 64 else E.zext(st, size, 64), byte.is_const() and byte.u & 255 == 0)

    def on_store(self, E, st, base, off, size, value, old, atomic):
        b = st.obs['blk']
        if b is None or base is not b.single():
            return
        o = const(off, 64) if isinstance(off, int) else off
        z = value.is_const() and value.u == 0
        self.write(E, st, o, const(size, 64), z)
        if not z and self.need is not None:
            self.chk.fail('zeroed', E, st, '%s: the block is handed out with a value written to it' % self.what)

    def on_exit(self, E, st, e):
        if self.need is None or e.kind != 'return':
            return
        z = self.ghost(st, 'zero')
        self.chk.verdict(st.obs['blk'] is not None and eq(st, e.value, st.obs['blk']) and le(st, self.need, z), 'zeroed', E, st,
                         '%s: %r of %r bytes cleared' % (self.what, z, self.need))


def p01(chk, tier):
    chk.rule('constructs', 'construction succeeds for every size and element size', 20)
    chk.rule('stock', 'construction only adds to the free list', 0)
    chk.rule('evenly', 'the blocks put into the free list are evenly spaced', 20)
    chk.rule('as-many', 'as many blocks are put into the free list as the pool reports, which is the ring buffer capacity for the request', 20)
    chk.rule('apart', 'the spacing of the blocks is at least the block size the pool reports and at least the element size asked for', 20)
    chk.rule('inside', 'the first and the last block lie within the memory allocated', 20)
    chk.rule('aligned', 'every block is aligned for a pointer', 20)
    chk.rule('element-size', 'the pool reports the element size it was asked for', 20)
    chk.rule('clears-own', 'clearing a block writes inside that block only', 20)
    g = group()
    g.infer()
    n = 0
    for lo, hi, N, r in geometry(tier != 'quick'):
        what = 'requested in [%d, %d], element size 8 * %r + %d' % (lo, hi, words, r)
        S = Stock(chk, what)
        es = elementsize(r)
        for snap, st, ex, E in built(g, lo, hi, N, r, [Pos(), S]):
            n += 1
            chk.functions |= E.stats['functions']
            chk.paths += 1
            kw = {'entry': 'vf_pool_new', 'where': [], 'path': E.path(st)}
            if not chk.verdict(snap is not None, 'constructs', detail='%s ends with %s %s' % (what, ex.kind, exc_name(E, ex)), **kw):
                continue
            cnt, a, b = (S.ghost(st, x) for x in S.ghosts)
            sz, _ = value_of(g, snap, 'vf_pool_size', chk)
            chk.verdict(sz is not None and eq(st, sz, N) and eq(st, cnt, N), 'as-many', detail='%s: %r blocks, pool reports %r, %d expected' % (what, cnt, sz, N), **kw)
            el, _ = value_of(g, snap, 'vf_pool_elsize', chk)
            chk.verdict(el is not None and eq(st, el, es), 'element-size', detail='%s: reports %r' % (what, el), **kw)
            pad, _ = value_of(g, snap, 'vf_pool_padded', chk)
            d = sub(b, a)
            up = st.facts.int_iv(d)[0] >= 0 and d.c >= 0
            step = d if up else sub(a, b)
            if pad is None:
                pad = const(1 << 62, 64)
            chk.verdict(le(st, pad, step) and le(st, es, pad), 'apart', detail='%s: blocks %r apart, reported size %r, asked for %r' % (what, step, pad, es), **kw)
            z = S.nth(st, const(N - 1, 64))
            low, high = (a, z) if up else (z, a)
            base, off = E.split(st, low)
            info = E.heapinfo.get(base)
            ok = False
            if info is not None:
                o = const(off, 64) if isinstance(off, int) else off
                hb, ho = E.split(st, high)
                ho = const(ho, 64) if isinstance(ho, int) else ho
                end = add(ho, step)
                ok = hb is base and le(st, o, ho) and le(st, end, info.size) and eq(st, high, add(low, scale(step, N - 1)))
                chk.verdict(E.lowbits(st, o, 3, 64).is_const() and E.lowbits(st, o, 3, 64).u == 0 and E.lowbits(st, step, 3, 64).is_const() and E.lowbits(st, step, 3, 64).u == 0,
                            'aligned', detail='%s: first block at %r, spacing %r' % (what, o, step), **kw)
            chk.verdict(ok, 'inside', detail='%s: blocks from %r to %r + %r in an allocation of %r' % (what, low, high, step, info.size if info else None), **kw)

            def su(E_, st_):
                snap.apply(E_, st_)
            g.run(chk, 'vf_pool_get', [Clearing(chk, step, None, what)], setup=su)
    chk.scans['geometries'] = n


# -- P02 -----------------------------------------------------------------------------------------------------------
class FreeList:
    """what one get or return does to the free list"""

    def __init__(self, chk, op, guards):
        self.chk, self.op, self.guards = chk, op, guards

    def init(self, E, st):
        st.obs['got'] = ()
        st.obs['put'] = ()

    def on_ring(self, E, st, op, ring, value):
        held = frozenset(E.fieldkey(*h) for h in st.locks)
        k = E.split(st, ring)
        k = E.fieldkey(k[0], k[1]) if k[0] is not None else None
        self.guards.append((k, held, E, st.copy(), E.where(st)))
        if op == 'get':
            st.obs['got'] = st.obs['got'] + (value,)
        elif op == 'put':
            st.obs['put'] = st.obs['put'] + (value,)

    def touch(self, E, st, base):
        for v in st.obs['put']:
            b = E.split(st, v)[0]
            self.chk.verdict(b is None or b is not base, 'let-go', E, st, 'a block is touched after it was put back')

    def on_load(self, E, st, base, **kw):
        self.touch(E, st, base)

    def on_store(self, E, st, base, **kw):
        self.touch(E, st, base)

    def on_memset(self, E, st, ptr, **kw):
        self.touch(E, st, E.split(st, ptr)[0])

    def on_memcpy(self, E, st, dst, src, **kw):
        self.touch(E, st, E.split(st, dst)[0])
        self.touch(E, st, E.split(st, src)[0])

    def on_unlock_not_held(self, E, st, m):
        self.chk.fail('released', E, st, 'unlocks a mutex it does not hold')

    def on_relock(self, E, st, m):
        self.chk.fail('released', E, st, 'locks a mutex it already holds')

    def on_exit(self, E, st, e):
        chk, op = self.chk, self.op
        chk.verdict(not st.locks, 'released', E, st, '%s ends (%s) holding a lock' % (op, e.kind))
        got, put = st.obs['got'], st.obs['put']
        if op == 'get':
            if e.kind == 'return':
                chk.verdict(len(got) == 1 and not put and eq(st, e.value, got[0]), 'one', E, st, 'get takes %d blocks, puts back %d and returns %r' % (len(got), len(put), e.value))
            else:
                chk.verdict(exhausted(E, e) and not got and not put, 'exhausted', E, st, 'get ends with %s %s, %d blocks taken, %d put back' % (e.kind, exc_name(E, e), len(got), len(put)))
        else:
            chk.verdict(e.kind == 'return' and not got and len(put) == 1 and eq(st, put[0], obj('block')), 'one', E, st, 'return of a block ends with %s, takes %d, puts back %r' % (
                e.kind, len(got), put))


class Untouched:
    """exits that must leave no trace"""

    def __init__(self, chk, rule, pick):
        self.chk, self.rule, self.pick = chk, rule, pick

    def init(self, E, st):
        st.obs['fx'] = ()

    def mark(self, E, st, base, off):
        if E.is_shared(base):
            st.obs['fx'] = st.obs['fx'] + (E.pretty(E.fieldkey(base, off)),)

    def on_store(self, E, st, base, off, **kw):
        self.mark(E, st, base, off)

    def on_cas(self, E, st, base, off, **kw):
        self.mark(E, st, base, off)

    def on_rmw(self, E, st, base, off, **kw):
        self.mark(E, st, base, off)

    def on_exit(self, E, st, e):
        if self.pick(E, e):
            self.chk.verdict(not st.obs['fx'], self.rule, E, st, 'changes %s' % (st.obs['fx'],))


def p02(chk, tier):
    chk.rule('exclusive', 'every access to the free list is made holding one and the same lock', 2)
    chk.rule('one', 'a get takes one block and returns it, a return puts back the block given', 2)
    chk.rule('exhausted', 'a get can fail only because the free list is empty, and then moves nothing', 1)
    chk.rule('unchanged', 'a get from an exhausted pool leaves everything as it was', 1)
    chk.rule('released', 'no way out keeps a lock', 3)
    chk.rule('let-go', 'a block put back is not touched any more', 0)
    g = group()
    guards = []
    for fn, op in (('vf_pool_get', 'get'), ('vf_pool_return', 'return')):
        g.run(chk, fn, [FreeList(chk, op, guards), Untouched(chk, 'unchanged', exhausted)])
    rings = {k for k, *_ in guards}
    common_ = frozenset.intersection(*[h for _, h, *_ in guards]) if guards else frozenset()
    for k, held, E, st, w in guards:
        chk.verdict(bool(common_) and len(rings) == 1, 'exclusive', E, st, 'free list %s accessed holding %s' % (k, sorted(map(repr, held)) or 'no lock'), where=w)
    chk.scans['free list accesses'] = len(guards)


# -- P06 -----------------------------------------------------------------------------------------------------------
class Stats:
    """where the statistics live: one atomic field and the bits of it that are the count and the watermark"""

    def __init__(self, g, chk, fn, offs, rule='snapshot'):
        """offs: offsets of count, watermark and size in the record the caller receives"""
        self.key, self.bits = None, {}
        self.ok = True
        loads = {}

        class L:
            def init(s_, E, st):
                st.obs['ld'] = ()

            def on_load(s_, E, st, base, off, size, value, atomic):
                if E.is_shared(base) and E.is_mut(E.fieldkey(base, off)):
                    st.obs['ld'] = st.obs['ld'] + ((E.fieldkey(base, off), value, atomic is not None),)
        ex = g.run(chk, fn, [L()])
        out = obj('out').single()
        for e in ex:
            st = e.state
            E = g.engine([])
            got = {}
            for name, o in offs.items():
                if name != 'size':
                    got[name] = E.load_at(st, out, o, 4, 32, False)
            srcs = {name: self.source(v) for name, v in got.items()}
            lds = {v.single(): k for k, v, at in st.obs['ld'] if at}
            atoms_ = {s[0] for s in srcs.values() if s is not None}
            good = e.kind == 'return' and all(srcs.values()) and len(atoms_) == 1 and next(iter(atoms_)) in lds
            chk.verdict(good, rule, entry=fn, where=[], path=[], detail='the snapshot consists of %s' % {k: repr(v) for k, v in got.items()})
            if not good:
                self.ok = False
                continue
            self.key = lds[next(iter(atoms_))]
            self.bits = {k: s[1] for k, s in srcs.items()}
            self.size = E.load_at(st, out, offs['size'], 8, 64, False)

    @staticmethod
    def source(v):
        s = v.single() if isinstance(v, Poly) else None
        if s is None:
            return None
        if s.kind == 'ext' and s.args[2] == 32:
            return s.args[0], s.args[1]
        return None

    def part(self, E, st, v, name):
        return E.extract(st, v, self.bits[name], 32)


class Counting:
    """updates of the statistics by one get or return"""

    def __init__(self, chk, S, op, step, mark, taken, given):
        """step: change of the count; mark: 'min'/'max'/None, how the watermark follows; taken/given: ring events"""
        self.chk, self.S, self.op, self.step, self.mark = chk, S, op, step, mark
        self.taken, self.given = taken, given

    def init(self, E, st):
        st.obs['upd'] = 0
        st.obs['moved'] = None

    def on_store(self, E, st, base, off, **kw):
        if E.is_shared(base) and E.fieldkey(base, off) == self.S.key:
            self.chk.fail('no-lost-update', E, st, '%s writes the statistics other than by an atomic read-modify-write' % self.op)

    def on_cas(self, E, st, base, off, size, expected, value):
        if E.is_shared(base) and E.fieldkey(base, off) == self.S.key:
            self.chk.ok('no-lost-update')
            self.update(E, st, expected, value)

    def on_rmw(self, E, st, base, off, size, old, value, op):
        if E.is_shared(base) and E.fieldkey(base, off) == self.S.key:
            self.chk.ok('no-lost-update')
            self.update(E, st, old, value)

    def update(self, E, st, old, new):
        S, chk = self.S, self.chk
        r0, r1 = S.part(E, st, old, 'count'), S.part(E, st, new, 'count')
        m0, m1 = S.part(E, st, old, 'mark'), S.part(E, st, new, 'mark')
        d = sub(r1, r0)
        chk.verdict(d.is_const() and d.c == self.step, 'steps', E, st, '%s changes the count by %r instead of %d' % (self.op, d, self.step))
        if self.mark is None:
            good = m1 is m0
        else:
            p = 'ule' if self.mark == 'min' else 'uge'
            good = m1 is r1 and known(st, p, r1, m0) or m1 is m0 and known(st, p, m0, r1)
        chk.verdict(good, 'watermark', E, st, '%s: count %r to %r, watermark %r to %r' % (self.op, r0, r1, m0, m1))
        st.obs['upd'] += 1
        if self.given is not None:
            # the count must not lag behind a block others can already take
            late = st.obs['moved'] == 'given' and not st.locks
            chk.verdict(not late, 'order', E, st, '%s accounts for the block only after another thread can have taken it' % self.op)

    def on_ring(self, E, st, op, ring, value):
        if op == self.taken and self.step:
            if self.given is None and op == 'get':
                pass
            st.obs['moved'] = 'taken'
        if op == self.given:
            st.obs['moved'] = 'given'

    def on_unlock(self, E, st, m):
        if st.obs['moved'] == 'given' and not st.obs['upd']:
            self.chk.fail('order', E, st, '%s lets others take the block before accounting for it' % self.op)

    def on_exit(self, E, st, e):
        done = st.obs['moved'] is not None
        self.chk.verdict(st.obs['upd'] == (1 if done else 0), 'once', E, st, '%s (%s): %d updates for a block %s' % (self.op, e.kind, st.obs['upd'], 'moved' if done else 'not moved'))


def pool_stats(g, chk):
    return Stats(g, chk, 'vf_pool_stats', {'count': number('vf_sz_stats_running'), 'mark': number('vf_sz_stats_low'), 'size': number('vf_sz_stats_size')})


def p06(chk, tier):
    chk.rule('snapshot', 'count and watermark are reported from one atomic read', 1)
    chk.rule('size', 'the size reported is the number of blocks', 20)
    chk.rule('starts', 'count and watermark start at the size', 20)
    chk.rule('no-lost-update', 'the statistics only change by atomic read-modify-write', 2)
    chk.rule('steps', 'a get lowers the count by one, a return raises it by one', 2)
    chk.rule('watermark', 'a get lowers the watermark to the count if that is less; a return leaves it alone', 2)
    chk.rule('once', 'one update for each block moved, none otherwise', 3)
    chk.rule('order', 'a returned block is accounted for before another thread can take it', 1)
    g = group()
    g.infer()
    S = pool_stats(g, chk)
    if not S.ok:
        return
    g.run(chk, 'vf_pool_get', [Counting(chk, S, 'get', -1, 'min', 'get', None)])
    g.run(chk, 'vf_pool_return', [Counting(chk, S, 'return', 1, None, None, 'put')])
    for fn in ('vf_pool_size', 'vf_pool_elsize', 'vf_pool_padded', 'vf_pool_stats'):
        g.run(chk, fn, [Counting(chk, S, fn, 0, None, None, None)])
    for lo, hi, N, r in geometry(False):
        what = 'requested in [%d, %d]' % (lo, hi)
        for snap, st, ex, E in built(g, lo, hi, N, r, []):
            if snap is None:
                chk.fail('starts', entry='vf_pool_new', where=[], path=E.path(st), detail='construction fails, ' + what)
                continue
            v = snap.at(*S.key[1:])
            good = v is not None and all(eq(st, S.part(E, st, v, x), N) for x in ('count', 'mark'))
            chk.verdict(good, 'starts', entry='vf_pool_new', where=[], path=E.path(st), detail='%s: initial statistics %r for %d blocks' % (what, v, N))

            def su(E_, st_):
                snap.apply(E_, st_)
            for e in g.run(chk, 'vf_pool_stats', [], setup=su):
                z = E.load_at(e.state, obj('out').single(), number('vf_sz_stats_size'), 8, 64, False)
                chk.verdict(eq(e.state, z, N), 'size', entry='vf_pool_stats', where=[], path=[], detail='%s: reports %r' % (what, z))


# -- P03, P04 ------------------------------------------------------------------------------------------------------
BUILD = {'vfu::ctor': '', 'vfu::ctor2': '2', 'vfu::qctor': ''}
DESTROY = {'vfu::dtor': '', 'vfu::dtor2': '2'}


class Lives:
    """objects and the blocks they live in, from creation to the end of the smart pointer"""

    def __init__(self, chk, t=None):
        self.chk = chk
        self.born = t in SILENT_CTOR
        self.gone = t in SILENT_DTOR

    def init(self, E, st):
        st.obs['live'] = ()
        st.obs['blocks'] = ()
        st.obs['thrown'] = None

    def on_ring(self, E, st, op, ring, value):
        chk = self.chk
        if op == 'get':
            st.obs['blocks'] = st.obs['blocks'] + ((ring, value),)
            if self.born:
                st.obs['live'] = st.obs['live'] + (('', value),)
        elif op == 'empty':
            st.obs['thrown'] = UNDERFLOW
        elif op == 'put':
            mine = [b for b in st.obs['blocks'] if b[0] is ring and eq(st, b[1], value)]
            if not chk.verdict(bool(mine), 'returns-own', E, st, 'returns %r to free list %r; blocks held: %s' % (value, ring, [(repr(a), repr(b)) for a, b in st.obs['blocks']])):
                return
            l = list(st.obs['blocks'])
            l.remove(mine[0])
            st.obs['blocks'] = tuple(l)
            inside = [a for k, a in st.obs['live'] if value.single() in a.atoms()]
            if self.gone:
                st.obs['live'] = tuple(x for x in st.obs['live'] if x[1] not in inside)
                inside = []
            chk.verdict(not inside, 'destroyed-first', E, st, 'the block goes back with %d objects in it not destroyed' % len(inside))

    def on_callback(self, E, st, name, args, throws, **kw):
        chk = self.chk
        if throws:
            st.obs['thrown'] = name
        if name in BUILD and not throws:
            held = {b[1].single() for b in st.obs['blocks']}
            chk.verdict(any(a in held for a in args[0].atoms()), 'in-block', E, st, 'object built at %r, outside every block held' % args[0])
            st.obs['live'] = st.obs['live'] + ((BUILD[name], args[0]),)
        if name in DESTROY:
            mine = [x for x in st.obs['live'] if x[0] == DESTROY[name] and eq(st, x[1], args[0])]
            if chk.verdict(bool(mine), 'once', E, st, 'destruction of %r, which is not an object alive' % args[0]):
                l = list(st.obs['live'])
                l.remove(mine[0])
                st.obs['live'] = tuple(l)
        if name == 'vfu::use' and not (args[0].is_const()):
            chk.verdict(any(eq(st, a, args[0]) for k, a in st.obs['live'] if k == ''), 'points-to-it', E, st, 'the smart pointer holds %r, objects alive: %s' % (
                args[0], [repr(a) for k, a in st.obs['live']]))

    def on_useafterfree(self, E, st, **kw):
        self.chk.fail('once', E, st, 'use of memory released')

    def on_nullderef(self, E, st, ptr, **kw):
        self.chk.fail('empty-harmless', E, st, 'dereferences a null pointer')

    def on_alloc_failed(self, E, st, **kw):
        # sharing needs memory of its own
        st.obs['thrown'] = '_ZTISt9bad_alloc'

    def on_exit(self, E, st, e):
        chk = self.chk
        th = st.obs['thrown']
        if e.kind == 'terminate':
            chk.fail('passes-on', E, st, 'terminates')
            return
        n = exc_name(E, e)
        if e.kind == 'throw':
            size = is_a(E.M, e.exc[0], 'ObjectPoolElementSizeError')
            good = th is not None and (e.exc[0] == engine.ANY and e.exc[1] == th or e.exc[0] == th)
            chk.verdict(good or size and th is None, 'passes-on', E, st, 'ends with %s although %s' % (n, '%s failed' % th if th else 'nothing failed'))
        else:
            chk.verdict(th is None, 'passes-on', E, st, '%s failed, but no exception reaches the caller' % th)
        chk.verdict(not st.obs['blocks'], 'no-loss', E, st, 'ends (%s %s) with %d blocks not returned' % (e.kind, n, len(st.obs['blocks'])))
        chk.verdict(not st.obs['live'], 'all-destroyed', E, st, 'ends (%s %s) with %d objects not destroyed' % (e.kind, n, len(st.obs['live'])))


class Forwarded:
    """arguments reach the constructor as they were given"""
    want = {'vfu::argl': 'arg1', 'vfu::argr': 'arg2', 'vfu::argc': 'arg3'}

    def __init__(self, chk):
        self.chk = chk

    def init(self, E, st):
        st.obs['fwd'] = ()

    def on_callback(self, E, st, name, args, throws, **kw):
        if name in self.want:
            good = eq(st, args[0], obj(self.want[name]))
            self.chk.verdict(good, 'forwards', E, st, 'the constructor sees an argument at %r, not the one given' % args[0])
            st.obs['fwd'] = st.obs['fwd'] + (name,)
        elif name == 'vfu::argbad':
            self.chk.fail('forwards', E, st, 'another constructor runs than the arguments select')

    def on_exit(self, E, st, e):
        if e.kind == 'return':
            self.chk.verdict(len(st.obs['fwd']) == 3, 'forwards', E, st, 'creation succeeds without the constructor chosen by the arguments')


CYCLES = {
    'vf_cyc_same': 'VfBase', 'vf_cyc_derived': 'VfBase', 'vf_cyc_multi': 'VfBase', 'vf_cyc_plain': 'VfPlain', 'vf_cyc_quiet': 'VfQuiet',
    'vf_cyc_moved': 'VfBase', 'vf_cyc_over': 'VfBase', 'vf_cyc_pools': 'VfBase', 'vf_cyc_const': 'VfBase', 'vf_cyc_mixed': 'VfMixed', 'vf_cyc_mixed0': 'VfMixed',
    'vf_cyc_triv': 'VfTriv', 'vf_cyc_triv1': 'VfTriv', 'vf_cyc_lazy': 'VfLazy', 'vf_cyc_fin': 'VfBase', 'vf_cyc_args': 'VfArgs', 'vf_cyc_but0': 'VfBut<0>',
    'vf_cyc_but1': 'VfBut<1>', 'vf_cyc_shared': 'VfBase', 'vf_none': None}
BCYCLES = {'vf_bcyc_plain': ('VfPlain', ''), 'vf_bcyc_quiet': ('VfQuiet', '_quiet'), 'vf_bcyc_int': ('int', '_int'), 'vf_bcyc_moved': ('VfPlain', ''),
           'vf_bcyc_const': ('VfPlain', ''), 'vf_bcyc_mixed': ('VfMixed', '_mixed'), 'vf_bcyc_triv': ('VfTriv', '_triv'), 'vf_bcyc_lazy': ('VfLazy', '_lazy'),
           'vf_bcyc_pod': ('VfPod', '_pod'), 'vf_bcyc_shared': ('VfPlain', ''), 'vf_bcyc_but': ('VfBut<0>', '_but')}
BSIZE = {'VfPlain': 'vf_sz_plain', 'VfQuiet': 'vf_sz_quiet', 'int': None, 'VfMixed': 'vf_sz_mixed', 'VfTriv': 'vf_sz_triv', 'VfLazy': 'vf_sz_lazy', 'VfPod': 'vf_sz_pod', 'VfBut<0>': 'vf_sz_but'}
# types whose constructor, or whose destructor, does nothing one could see
SILENT_CTOR = ('VfLazy', 'VfPod', 'VfArgs')
SILENT_DTOR = ('VfTriv', 'VfPod')
SHARED = {'vf_cyc_shared', 'vf_bcyc_shared'}
INTS = {'vf_cyc_derived', 'vf_cyc_mixed', 'vf_cyc_triv1', 'vf_cyc_fin', 'vf_cyc_but1'}


def exists(fn):
    f = module().fns.get(fn)
    return f is not None and not f.decl


def cycle_group(fn):
    t = CYCLES[fn]
    root = {'self': CORE + 'ObjectPool<%s>' % t, 'other': CORE + 'ObjectPool<%s>' % t}
    args = [obj('self'), obj('other')] if fn == 'vf_cyc_pools' else [obj('self')] if t else []
    if fn in INTS:
        args.append(scalar('a', 32))
    if fn == 'vf_cyc_args':
        args += [obj('arg1'), obj('arg2'), obj('arg3')]
    # sharing needs memory of its own, which may not be had
    return Group(fn, [Entry(fn, args)], root, {'contracts': SIMPLE, 'new_may_throw': fn in SHARED})


class ArrayLives(Ghosts):
    """a block of elements: how many are built and destroyed, and where"""
    ghosts = ('built', 'destroyed')

    def __init__(self, chk, es, n, t=None, per=None):
        self.chk, self.es, self.n = chk, es, n
        self.born = per if t in SILENT_CTOR else None
        self.gone = t in SILENT_DTOR

    def init(self, E, st):
        Ghosts.init(self, E, st)
        st.obs['blk'] = None
        st.obs['back'] = 0
        st.obs['dir'] = ('up', 'down')
        st.obs['thrown'] = None

    def on_ring(self, E, st, op, ring, value):
        chk = self.chk
        if op == 'get':
            chk.verdict(st.obs['blk'] is None, 'no-loss', E, st, 'takes a second block')
            st.obs['blk'] = (ring, value)
            if self.born is not None:
                self.bump(st, 'built', self.born)
        elif op == 'empty':
            st.obs['thrown'] = UNDERFLOW
        elif op == 'put':
            b = st.obs['blk']
            st.obs['back'] += 1
            chk.verdict(b is not None and b[0] is ring and eq(st, b[1], value), 'returns-own', E, st, 'returns %r to free list %r; block held: %r' % (value, ring, b))
            if self.gone:
                self.setghost(st, 'destroyed', self.ghost(st, 'built'))
            chk.verdict(eq(st, self.ghost(st, 'built'), self.ghost(st, 'destroyed')), 'destroyed-first', E, st, 'the block goes back with %r elements built and %r destroyed' % (
                self.ghost(st, 'built'), self.ghost(st, 'destroyed')))

    def on_callback(self, E, st, name, args, throws, **kw):
        chk = self.chk
        if throws:
            st.obs['thrown'] = name
        b = st.obs['blk'][1] if st.obs['blk'] else None
        n, d = self.ghost(st, 'built'), self.ghost(st, 'destroyed')
        if name in BUILD:
            chk.verdict(b is not None and eq(st, args[0], add(b, scale(n, self.es))), 'in-block', E, st, 'element %r is built at %r' % (n, args[0]))
            if not throws:
                self.bump(st, 'built')
        if name in DESTROY:
            dirs = ()
            if b is not None:
                if eq(st, args[0], add(b, scale(d, self.es))):
                    dirs += ('up',)
                if eq(st, args[0], add(b, scale(sub(sub(n, d), const(1, 64)), self.es))):
                    dirs += ('down',)
            dirs = tuple(x for x in st.obs['dir'] if x in dirs)
            more = le(st, add(d, const(1, 64)), n)
            chk.verdict(dirs and more, 'once', E, st, 'destroys %r, with %r elements built and %r destroyed' % (args[0], n, d))
            if dirs:
                st.obs['dir'] = dirs
            self.bump(st, 'destroyed')
        if name == 'vfu::use':
            chk.verdict(b is not None and eq(st, args[0], b), 'points-to-it', E, st, 'the smart pointer holds %r, the block is %r' % (args[0], b))
            self.complete(E, st)

    def complete(self, E, st):
        if self.n is not None:
            chk = self.chk
            chk.verdict(eq(st, self.ghost(st, 'built'), self.n) and eq(st, self.ghost(st, 'destroyed'), 0), 'all-built', E, st, '%r elements built, %r destroyed, %r asked for' % (
                self.ghost(st, 'built'), self.ghost(st, 'destroyed'), self.n))

    on_useafterfree = Lives.on_useafterfree
    on_nullderef = Lives.on_nullderef

    def on_alloc_failed(self, E, st, **kw):
        # sharing needs memory of its own
        st.obs['thrown'] = '_ZTISt9bad_alloc'

    def on_exit(self, E, st, e):
        chk = self.chk
        th = st.obs['thrown']
        if e.kind == 'terminate':
            chk.fail('passes-on', E, st, 'terminates')
            return
        n = exc_name(E, e)
        if e.kind == 'throw':
            good = th is not None and (e.exc[0] == engine.ANY and e.exc[1] == th or e.exc[0] == th)
            chk.verdict(good, 'passes-on', E, st, 'ends with %s although %s' % (n, '%s failed' % th if th else 'nothing failed'))
        else:
            chk.verdict(th is None, 'passes-on', E, st, '%s failed, but no exception reaches the caller' % th)
        chk.verdict(st.obs['back'] == (1 if st.obs['blk'] else 0), 'no-loss', E, st, 'ends (%s %s) having returned its block %d times' % (e.kind, n, st.obs['back']))
        chk.verdict(eq(st, self.ghost(st, 'built'), self.ghost(st, 'destroyed')), 'all-destroyed', E, st, 'ends with %r elements built and %r destroyed' % (
            self.ghost(st, 'built'), self.ghost(st, 'destroyed')))


def block_cells():
    """classes of elements per block"""
    q = pa(atom('param', ('octets',), 64, 0, 1 << 34, label='octets'))
    for r in range(8):
        yield q, r, add(scale(q, 8), const(r, 64))


def block_group(fn, t, suf):
    n, e = scalar('requested'), scalar('perBlock')
    new = 'vf_bpool_new' + suf
    return Group(fn, [Entry(new, [n, e], {'construct': True})] + [Entry(f, [obj('self')]) for f in ([fn] if fn else [])],
                 {'self': CORE + 'BlockPool<%s>' % t}, {'contracts': SIMPLE}), new


def block_pools(fn, t, suf):
    """constructed block pools, one per class of elements per block"""
    g, new = block_group(fn, t, suf)
    g.infer()
    for q, r, e in block_cells():
        def setup(E, st):
            if not st.facts.set_form(scalar('requested').t, 4, 4) or not st.facts.set_form(q.t, 0 if r else 1, 1 << 34):
                raise Infeasible()
        for snap, st, ex, E in constructed(g, new, [scalar('requested'), e], setup):
            if snap is None:
                raise Broken('construction of %s fails' % t)

            def apply(E_, st_, snap=snap):
                snap.apply(E_, st_)
            yield g, e, apply, 'elements per block 8 * octets + %d' % r


def lives(chk, rules):
    for fn in CYCLES:
        if not exists(fn):
            chk.notes.append(fn + ' does not compile (X03)')
            continue
        g = cycle_group(fn)
        g.run(chk, fn, [Lives(chk, CYCLES[fn])] + ([Forwarded(chk)] if fn == 'vf_cyc_args' else []))
    for fn, (t, suf) in BCYCLES.items():
        if not exists(fn):
            chk.notes.append(fn + ' does not compile (X03)')
            continue
        es = number(BSIZE[t]) if BSIZE[t] else 4
        for g, e, apply, what in block_pools(fn, t, suf):
            opts, g.opts = g.opts, dict(g.opts, new_may_throw=fn in SHARED)
            g.run(chk, fn, [ArrayLives(chk, es, e if t != 'int' else None, t, e)], setup=apply)
            g.opts = opts
    only(chk, rules)


def only(chk, rules):
    """forget what was noted under rules of other properties"""
    for r in list(chk.rules):
        if r not in rules:
            mine = [v for v in chk.viol if v.rule == r]
            for v in mine:
                chk.viol.remove(v)
            del chk.rules[r]


LIFE = {
    'in-block': 'objects are built in the block just taken', 'points-to-it': 'the smart pointer points to the object built',
    'returns-own': 'exactly a block held goes back, to the pool it came from', 'destroyed-first': 'a block goes back only when nothing in it is alive',
    'once': 'every destruction destroys an object that is alive', 'all-destroyed': 'no object outlives its smart pointer',
    'no-loss': 'every block taken is back when the smart pointer is gone, or when creation failed', 'passes-on': 'an exception reaches the caller, and only if something failed',
    'forwards': 'the constructor gets the arguments of the call as they are', 'empty-harmless': 'empty smart pointers do nothing', 'all-built': 'a block holds the number of elements asked for'}


def p03(chk, tier):
    rs = ('in-block', 'points-to-it', 'returns-own', 'no-loss', 'passes-on', 'all-destroyed', 'forwards')
    for r in rs:
        chk.rule(r, LIFE[r], 5)
    lives(chk, rs)


def p04(chk, tier):
    rs = ('returns-own', 'destroyed-first', 'once', 'all-destroyed', 'no-loss', 'empty-harmless')
    for r in rs:
        chk.rule(r, LIFE[r], 0 if r == 'empty-harmless' else 5)
    lives(chk, rs)


# -- P05 -----------------------------------------------------------------------------------------------------------
class Refusal:
    """operations given a type and a block size"""

    def __init__(self, chk, D, fits, err, what):
        self.chk, self.D, self.fits, self.err, self.what = chk, D, fits, err, what
        self.returns = 0

    def init(self, E, st):
        st.obs['fx'] = ()

    def effect(self, E, st, what):
        if len(st.obs['fx']) < 4:
            st.obs['fx'] = st.obs['fx'] + (what,)

    def on_store(self, E, st, base, off, **kw):
        if E.is_shared(base):
            self.effect(E, st, 'store to ' + E.pretty(E.fieldkey(base, off)))

    def on_cas(self, E, st, base, off, **kw):
        if E.is_shared(base):
            self.effect(E, st, 'update of ' + E.pretty(E.fieldkey(base, off)))

    on_rmw = on_cas

    def on_lock_request(self, E, st, m):
        self.effect(E, st, 'locks')

    def on_ring(self, E, st, op, ring, value):
        self.effect(E, st, 'ring buffer ' + op)

    def on_ringwait(self, E, st, ring):
        self.effect(E, st, 'waits')

    def on_callback(self, E, st, name, args, throws, **kw):
        self.effect(E, st, 'calls ' + name)

    def on_exit(self, E, st, e):
        refused = e.kind == 'throw' and is_a(E.M, e.exc[0], self.err)
        chk = self.chk
        if self.fits:
            chk.verdict(not refused, 'accepted', E, st, '%s: refused' % self.what)
            self.returns += e.kind == 'return'
        else:
            chk.verdict(refused, 'refused', E, st, '%s: ends with %s %s' % (self.what, e.kind, exc_name(E, e)))
        if refused:
            chk.verdict(not st.obs['fx'], 'no-effect', E, st, '%s: refused after it %s' % (self.what, ', '.join(st.obs['fx'])))


def size_classes(D, least=0):
    """element sizes asked for: (form, facts, whether a type of D bytes fits); those that fit only thanks to padding are left out"""
    for r in range(8):
        yield add(const(D, 64), elementsize(r)), (0, 1 << 40), True, '%d + 8 * words + %d' % (D, r)
        hi = (D - 8 - r) // 8
        if r == 0:
            hi = (D - 8) // 8
        if hi * 8 + r + (-r % 8) < D and hi >= 0 and hi * 8 + r >= least:
            yield elementsize(r), (0, hi), False, '8 * words + %d, words <= %d' % (r, hi)


def fitting(chk, g, new, uses, err, floor=0):
    g.infer()
    nargs = len(g.entries[new].args)
    for fn, D in uses:
        for s, (lo, hi), fits, text in size_classes(D):
            if not fits and floor >= D:
                continue

            def setup(E, st):
                if not st.facts.set_form(scalar('requested').t, 4, 4) or not st.facts.set_form(words.t, lo, hi):
                    raise Infeasible()
            args = [scalar('requested'), s] + [scalar('locking', 1, 0, 1)] * (nargs - 2)
            for snap, st, ex, E in constructed(g, new, args, setup):
                if snap is None:
                    chk.fail('accepted', entry=new, where=[], path=E.path(st), detail='construction with element size %s fails' % text)
                    continue

                def apply(E_, st_, snap=snap):
                    snap.apply(E_, st_)
                R = Refusal(chk, D, fits, err, 'type of %d bytes, element size %s' % (D, text))
                g.run(chk, fn, [R], setup=apply)
                if fits:
                    chk.verdict(R.returns > 0, 'accepted', entry=fn, where=[], path=[], detail=R.what + ': never succeeds')


def p05(chk, tier):
    from .queue import queue_group
    chk.rule('refused', 'what exceeds the block size is refused with the size error', 20)
    chk.rule('no-effect', 'a refusal comes before a lock, a block, a statistic, a constructor or a wait', 20)
    chk.rule('accepted', 'what fits the element size asked for is never refused', 30)
    chk.rule('default', 'a pool without a size given accepts its own type', 1)
    s, n, e = obj('self'), scalar('requested'), scalar('elementSize')
    base = number('vf_sz_base')
    g = Group('opool', [Entry('vf_opool_new', [n, e], {'construct': True}), Entry('vf_opool_new1', [n], {'construct': True})] + [
        Entry(f, a) for f, a in (('vf_cyc_same', [s]), ('vf_cyc_derived', [s, scalar('a', 32)]), ('vf_cyc_multi', [s]))],
        {'self': CORE + 'ObjectPool<VfBase>'}, {'contracts': SIMPLE})
    fitting(chk, g, 'vf_opool_new', [('vf_cyc_derived', number('vf_sz_derived')), ('vf_cyc_multi', number('vf_sz_multi'))], 'ObjectPoolElementSizeError', base)
    # the pool's own type always fits, whatever size was asked for
    for r in range(8):
        def setup(E, st):
            if not st.facts.set_form(scalar('requested').t, 4, 4) or not st.facts.set_form(words.t, 0, 1 << 40):
                raise Infeasible()
        for snap, st, ex, E in constructed(g, 'vf_opool_new', [n, elementsize(r)], setup):
            own(chk, g, snap, base, 'element size 8 * words + %d' % r)
    for snap, st, ex, E in constructed(g, 'vf_opool_new1', [n], lambda E, st: st.facts.set_form(scalar('requested').t, 4, 4)):
        own(chk, g, snap, base, 'no element size given')
        chk.ok('default')
    q = queue_group()
    fitting(chk, q, 'vf_q_new', [(f, number(z)) for f, z in (('vf_q_put', 'vf_sz_msg'), ('vf_q_put2', 'vf_sz_msg2'), ('vf_q_emplace', 'vf_sz_msg'), ('vf_q_emplace2', 'vf_sz_msg2'), ('vf_q_put3', 'vf_sz_msg3'), ('vf_q_emplace3', 'vf_sz_msg3'), ('vf_q_emplaceq3', 'vf_sz_msg3'))],
            'MessageQueueElementSizeError')


def own(chk, g, snap, D, text):
    if snap is None:
        chk.fail('accepted', entry='vf_opool_new', where=[], path=[], detail='construction fails, ' + text)
        return

    def apply(E_, st_):
        snap.apply(E_, st_)
    R = Refusal(chk, D, True, 'ObjectPoolElementSizeError', 'the type of the pool, ' + text)
    g.run(chk, 'vf_cyc_same', [R], setup=apply)
    chk.verdict(R.returns > 0, 'accepted', entry='vf_cyc_same', where=[], path=[], detail=R.what + ': never succeeds')


# -- P07 -----------------------------------------------------------------------------------------------------------
def p07(chk, tier):
    chk.rule('zeroed', 'a block handed out is all zero over the size the pool reports', 20)
    chk.rule('all-built', 'a block holds the number of elements asked for', 8)
    chk.rule('in-block', 'elements are built one after another from the start of the block', 8)
    chk.rule('scalars-untouched', 'blocks of scalars keep their zeros', 8)
    chk.rule('reports', 'the smart pointer reports the number of elements', 20)
    chk.rule('reports-none', 'an empty smart pointer that never had a block reports zero', 1)
    g = group()
    g.infer()
    for lo, hi, N, r in geometry(tier != 'quick'):
        what = 'requested in [%d, %d], element size 8 * words + %d' % (lo, hi, r)
        for snap, st, ex, E in built(g, lo, hi, N, r, []):
            if snap is None:
                raise Broken('pool construction fails')

            def su(E_, st_):
                snap.apply(E_, st_)
            pad, _ = value_of(g, snap, 'vf_pool_padded', chk)
            if not chk.verdict(pad is not None, 'zeroed', entry='vf_pool_padded', where=[], path=[], detail='no single padded size'):
                continue
            g.run(chk, 'vf_pool_get', [Clearing(chk, None, pad, what)], setup=su)
    rs = tuple(chk.rules)
    for fn in [f for f in BCYCLES if f not in ('vf_bcyc_moved', 'vf_bcyc_const')]:
        t, suf = BCYCLES[fn]
        es = number(BSIZE[t]) if BSIZE[t] else 4
        for g, e, apply, what in block_pools(fn, t, suf):
            g.run(chk, fn, [ArrayLives(chk, es, e if t != 'int' else None, t, e), Scalars(chk)], setup=apply)
    for fn, t, suf in (('vf_bn_plain', 'VfPlain', ''), ('vf_bn_quiet', 'VfQuiet', '_quiet'), ('vf_bn_int', 'int', '_int')):
        for g, e, apply, what in block_pools(fn, t, suf):
            for ex in g.run(chk, fn, [], setup=apply):
                if ex.kind == 'return':
                    chk.verdict(eq(ex.state, ex.value, e), 'reports', entry=fn, where=[], path=[], detail='%s: the smart pointer reports %r' % (what, ex.value))
    for ex in Group('none', [Entry('vf_bn_none', [])], {}, {'contracts': SIMPLE}).run(chk, 'vf_bn_none', []):
        chk.verdict(ex.kind == 'return' and eq(ex.state, ex.value, 0), 'reports-none', entry='vf_bn_none', where=[], path=[], detail='reports %r' % ex.value)
    only(chk, rs)


class Scalars:
    """nothing but zeros is written to a block of scalars between its clearing and the caller's first use"""

    def __init__(self, chk):
        self.chk = chk

    def init(self, E, st):
        st.obs['sblk'] = None
        st.obs['dirty'] = False

    def on_ring(self, E, st, op, ring, value):
        if op == 'get':
            st.obs['sblk'] = value

    def on_store(self, E, st, base, off, size, value, old, atomic):
        b = st.obs['sblk']
        if b is not None and base is b.single() and not (value.is_const() and value.u == 0):
            st.obs['dirty'] = True

    def on_memset(self, E, st, ptr, byte, size):
        b = st.obs['sblk']
        if b is not None and b.single() in ptr.atoms() and not (byte.is_const() and byte.u & 255 == 0):
            st.obs['dirty'] = True

    def on_callback(self, E, st, name, args, throws, **kw):
        if name == 'vfu::use':
            self.chk.verdict(not st.obs['dirty'], 'scalars-untouched', E, st, 'the library writes something other than zero into the block')


CHECKS = {'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07}
