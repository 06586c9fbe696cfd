"""RingBufferSimple (R01, R02)."""
from .common import *

TAGS = {'u32': 4, 'u64': 8, 'u8': 1, 'void': 8, 'obj': 8, 'cobj': 8}
MAXBITS = 20


def group(tag):
    s = obj('self')
    w = TAGS[tag] * 8
    v = scalar('value', w)
    n = scalar('requested')
    p = 'vf_ring_%s_' % tag
    return Group('ring ' + tag, [
        Entry(p + 'new', [n], {'construct': True}), Entry(p + 'get', [s]), Entry(p + 'put', [s, v]),
        Entry(p + 'size', [s]), Entry(p + 'mask', [s]), Entry(p + 'bits', [s])], {'self': None})


def size_cells():
    """classes of requested sizes with the capacity each must have"""
    out = [(0, 0, 1), (1, 1, 1), (2, 2, 1)]
    for k in range(2, MAXBITS + 1):
        lo, hi = (1 << (k - 1)) + 1, 1 << k
        out.append((lo, lo, k))
        if hi - 1 > lo:
            out.append((lo + 1, hi - 1, k))
        if hi > lo:
            out.append((hi, hi, k))
    top = 1 << MAXBITS
    out += [(top + 1, (1 << 31) - 1, MAXBITS), (1 << 31, (1 << 32) - 1, MAXBITS), (1 << 32, 1 << 32, MAXBITS),
            ((1 << 32) + 1, (1 << 64) - 1, MAXBITS)]
    return out


def build(g, tag, lo, hi, opts=None):
    n = scalar('requested')

    def setup(E, st):
        if not st.facts.set_form(n.t, lo, hi):
            raise Infeasible()
    return constructed(g, 'vf_ring_%s_new' % tag, [n], setup, opts)


def query(g, snap, fn, chk=None):
    """what a const query returns on the constructed object"""
    vals = []

    def setup(E, st):
        snap.apply(E, st)
    tmp = Check('q')
    for e in g.run(chk or tmp, fn, [], setup=setup):
        if e.kind != 'return':
            return None
        l, h = e.state.facts.urange(e.value)
        vals.append(l if l == h else None)
    return vals[0] if len(set(vals)) == 1 else None


def r02(chk, tier):
    chk.rule('constructs', 'construction succeeds for every requested size', 40)
    chk.rule('size', 'reported size is the smallest power of two not below the request, within 2..2^20', 40)
    chk.rule('mask', 'reported mask is size - 1', 40)
    chk.rule('bits', 'reported number of bits is log2(size)', 40)
    chk.rule('storage', 'the element storage allocated holds size elements', 40)
    chk.rule('empty', 'a new buffer refuses a get and accepts a put', 40)
    cells = size_cells()
    for tag in TAGS:
        g = group(tag)
        g.infer()
        P = 'vf_ring_%s_' % tag
        for lo, hi, k in cells:
            N = 1 << k
            what = 'requested size in [%d, %d], element type %s' % (lo, hi, tag)
            for snap, st, ex, E in build(g, tag, lo, hi):
                ent = P + 'new'
                w = st.obs.get('~pos') or []
                if not chk.verdict(snap is not None, 'constructs', entry=ent, where=[], path=E.path(st), detail='%s ends with %s' % (what, ex.kind)):
                    continue
                for q, want, rule in (('size', N, 'size'), ('mask', N - 1, 'mask'), ('bits', k, 'bits')):
                    got = query(g, snap, P + q, chk)
                    chk.verdict(got == want, rule, entry=P + q, where=[], path=E.path(st), detail='%s: %s instead of %s' % (what, got, want))
                big = [hi_ for a, hi_ in snap.info.items() if a is not snap.root]
                ok = False
                for h in big:
                    l, u = st.facts.urange(h.size)
                    ok = ok or l >= N * TAGS[tag]
                chk.verdict(ok, 'storage', entry=ent, where=[], path=E.path(st), detail='%s: allocations %s, %d bytes needed' % (
                    what, [repr(h.size) for h in big], N * TAGS[tag]))
                tmp = Check('t')
                kinds = {}
                for op in ('get', 'put'):
                    def setup(E_, st_):
                        full = {}
                        for a, r in snap.regions.items():
                            for off, (sz, v) in r.items():
                                full[E_.fieldkey(a, off)] = v
                        snap.apply(E_, st_, full)
                    kinds[op] = sorted((e.kind, str(exc_name(E, e)).split('::')[-1]) for e in g.run(tmp, P + op, [], setup=setup))
                chk.verdict(kinds['get'] == [('throw', 'RingBufferUnderflow')] and kinds['put'] == [('return', 'None')], 'empty', entry=ent, where=[],
                            path=E.path(st), detail='%s: get %s, put %s on the new buffer' % (what, kinds['get'], kinds['put']))
            chk.entries.setdefault(P + 'new', [0, 0])[0] += 1
            chk.functions |= E.stats['functions']
    chk.scans['size classes'] = len(cells)
    chk.scans['element types'] = sorted(TAGS)


class Model:
    """the state of a buffer as a function of how many gets and puts there have been: each field an operation changes
    moves by a fixed amount per get and per put"""

    def __init__(self, g, tag):
        self.size = {}
        seen = {}

        class Writes:
            def on_store(s_, E, st, base, off, size, value, old, atomic):
                if E.is_shared(base) and isinstance(off, int):
                    k = E.fieldkey(base, off)
                    if len(k) == 2:
                        self.size[k] = size
        for op in ('get', 'put'):
            g.run(Check('t'), 'vf_ring_%s_%s' % (tag, op), [Writes()])
        for op in ('get', 'put'):
            ex = g.run(Check('t'), 'vf_ring_%s_%s' % (tag, op), [Deltas(self.size)])
            for k in self.size:
                ds = [e.state.obs.get(('tot', k), 0) for e in ex if e.kind == 'return']
                ds = [d for d in ds if d != 'X']
                if not ds:
                    raise Broken('ring buffer of %s: %s changes %s by no fixed amount' % (tag, op, k))
                seen[op, k] = max(set(ds), key=lambda d: (ds.count(d), abs(d)))
        self.d = seen
        if not self.size:
            raise Broken('ring buffer of %s keeps no state' % tag)

    def state(self, E, st, snap, x, k, gets):
        """field values after x operations of the kind under analysis; k elements present"""
        out = {}
        for f, sz in self.size.items():
            f0 = snap.at(*f[1:])
            if f0 is None or not f0.is_const():
                raise Broken('initial value of %s is not a constant' % (f,))
            W = sz * 8
            X, K = E.trunc(st, x, W), E.trunc(st, k, W)
            dg, dp = self.d['get', f], self.d['put', f]
            v = const(f0.u, W)
            # gets = x and puts = x + k, or puts = x and gets = x - k
            v = add(v, scale(X, dg + dp))
            v = add(v, scale(K, dp) if gets else scale(K, -dg))
            out[f] = v
        return out


class Element:
    """element accesses of one operation"""

    def init(self, E, st):
        st.obs['el'] = ()
        st.obs['wr'] = ()

    def isel(self, E, base, off):
        k = E.fieldkey(base, off)
        return k[0] == 'self' and len(k) == 3

    def on_load(self, E, st, base, off, size, value, atomic):
        if E.is_shared(base) and self.isel(E, base, off):
            st.obs['el'] = st.obs['el'] + (('load', pa(base), off if isinstance(off, Poly) else const(off, 64), size, value),)

    def on_store(self, E, st, base, off, size, value, old, atomic):
        if not E.is_shared(base):
            return
        if self.isel(E, base, off):
            st.obs['el'] = st.obs['el'] + (('store', pa(base), off if isinstance(off, Poly) else const(off, 64), size, value),)
        else:
            st.obs['wr'] = st.obs['wr'] + (E.fieldkey(base, off),)


def r01(chk, tier, tags=None):
    chk.rule('empty-refused', 'get on an empty buffer throws RingBufferUnderflow and changes nothing', 20)
    chk.rule('full-refused', 'put on a full buffer throws RingBufferOverflow and changes nothing', 20)
    chk.rule('accepted', 'get succeeds unless empty, put succeeds unless full', 40)
    chk.rule('steps', 'a successful operation advances its own counter by one and leaves the other alone', 40)
    chk.rule('one-element', 'a successful get reads exactly one element and returns it unchanged; a successful put writes exactly the given value into one element', 40)
    chk.rule('same-slot', 'the i-th get reads the slot the i-th put wrote', 20)
    chk.rule('distinct-slots', 'elements present at the same time are in distinct slots inside the storage', 20)
    x = pa(atom('param', ('position',), 64, 0, (1 << 64) - 1, label='x'))
    fl = pa(atom('param', ('fill',), 64, 0, 1 << MAXBITS, label='fill'))
    tags = sorted(tags or TAGS)
    for tag in tags:
        g = group(tag)
        g.infer()
        C = Model(g, tag)
        es = TAGS[tag]
        P = 'vf_ring_%s_' % tag
        for k in range(1, MAXBITS + 1):
            N = 1 << k
            snap = build(g, tag, N, N)[0][0]
            if snap is None:
                raise Broken('no constructed ring buffer of %d' % N)
            slots = {}
            for op in ('get', 'put'):
                for lo, hi in ((0, 0), (1, N - 1), (N, N)):
                    fill = const(lo, 64) if lo == hi else fl
                    what = 'capacity %d, %d..%d elements present, element type %s' % (N, lo, hi, tag)
                    box = {}

                    def setup(E, st):
                        if lo != hi:
                            st.facts.set_form(fill.t, lo, hi)
                        box['s'] = C.state(E, st, snap, x, fill, op == 'get')
                        snap.apply(E, st, box['s'])

                    class Judge:
                        def on_exit(self, E, st, e):
                            el, wr = st.obs['el'], st.obs['wr']
                            refused = (op == 'get' and hi == 0) or (op == 'put' and lo == N)
                            if refused:
                                want = 'RingBufferUnderflow' if op == 'get' else 'RingBufferOverflow'
                                same = all(current(E, st, f, sz) is box['s'][f] for f, sz in C.size.items())
                                ok = e.kind == 'throw' and is_a(E.M, e.exc[0], want) and same and not any(a[0] == 'store' for a in el)
                                chk.verdict(ok, 'empty-refused' if op == 'get' else 'full-refused', E, st,
                                            '%s with %s: %s, writes %s' % (op, what, e.kind + ' ' + str(exc_name(E, e) or ''), [E.pretty(z) for z in wr] + [z for z in el if z[0] == 'store']))
                                return
                            if not chk.verdict(e.kind == 'return', 'accepted', E, st, '%s with %s: %s %s' % (op, what, e.kind, exc_name(E, e))):
                                return
                            for f, sz in C.size.items():
                                d = sub(current(E, st, f, sz), box['s'][f])
                                chk.verdict(d.is_const() and d.c == C.d[op, f], 'steps', E, st, '%s with %s moves %s by %r instead of %d' % (op, what, E.pretty(f), d, C.d[op, f]))
                            mine = [a for a in el if a[0] == ('load' if op == 'get' else 'store')]
                            other = [a for a in el if a[0] == 'store'] if op == 'get' else []
                            val = e.value if op == 'get' else scalar('value', es * 8)
                            ok = len(mine) >= 1 and len({(a[1], a[2], a[3]) for a in mine}) == 1 and not other and mine[-1][3] == es and mine[-1][4] is val
                            if not chk.verdict(ok, 'one-element', E, st, '%s with %s: element accesses %s, value %r' % (op, what, el, val)):
                                return
                            slots.setdefault(op, {})[mine[-1][2]] = (E, st)
                            inside = False
                            off = mine[-1][2]
                            for c in (1, 0, -1, 2, -2, 3, -3):
                                idx = E.lowbits(st, add(x, const(c, 64)), k, 64)
                                if scale(idx, es) is off:
                                    inside = True
                                    break
                            chk.verdict(inside, 'distinct-slots', E, st, '%s with %s: slot offset %r is not an index modulo the capacity' % (op, what, off))
                    g.run(chk, P + op, [Element(), Judge()], setup=setup)
            if slots.get('get') and slots.get('put'):
                a, b = set(slots['get']), set(slots['put'])
                E, st = list(slots['get'].values())[0]
                chk.verdict(len(a) == 1 and a == b, 'same-slot', E, st, 'capacity %d, %s: get reads slot %s, put writes slot %s' % (N, tag, a, b))
    chk.scans['capacities'] = MAXBITS
    chk.scans['element types'] = tags
    chk.scans['fill classes'] = 'empty, partly filled (symbolic), full; positions symbolic over their whole range'


CHECKS = {'R01': r01, 'R02': r02}
