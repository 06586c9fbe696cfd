"""locks across the whole library (M07)."""
from .common import *
from . import guarded, ring, sem
from . import pool as P
from .queue import queue_group, Slots, PUTS, DISPATCH

# what a handler, or a holder of the dispatch lock, may do with the queue
FREE = PUTS + ('vf_q_purge', 'vf_q_abort', 'vf_q_stats', 'vf_q_last')
QUICK = ('vf_q_abort', 'vf_q_stats', 'vf_q_last')
USER = ('vfu::mctor', 'vfu::mmove', 'vfu::mdtor', 'vfu::ctor', 'vfu::ctor2', 'vfu::qctor', 'vfu::qmctor', 'vfu::qmmove', 'vfu::mcopy', 'vfu::argl', 'vfu::dtor', 'vfu::dtor2', 'vfu::arg', 'vfu::use')


def lock_class(E, k):
    """a lock by the type that holds it and its place in it, whichever object of that type it is in"""
    t = E.opts.get('root_types', {}).get(k[0])
    hops = []
    for o in k[1:]:
        if t is None or o == '*':
            break
        nm, m = E.M.member_at(t, o)
        hops.append((t, nm))
        n = E.M.types_by_id.get(m['tid']) if m else None
        t = n['name'] if n else None
    while hops and (not hops[-1][0] or hops[-1][0].endswith('Mutex') or 'pthread' in hops[-1][0]):
        hops.pop()
    if not hops:
        return '.'.join(map(str, k))
    return '%s::%s' % (hops[-1][0].replace('ReiserRT::Core::', ''), (hops[-1][1] or '?').split('.nativeHandle')[0])


def called(S, fp):
    """what an indirect call calls: a virtual function of a message, or a functor"""
    s = fp.single()
    if s is None or s.kind != 'fld':
        return None
    vp = s.args[0]
    if vp.kind == 'fld' and vp.args[1] == 0:
        return S.at.get(s.args[1])
    return 'call'


class Edges:
    """what is requested and run with which locks held"""

    def __init__(self, chk, S, fn, edges, asked, ran, user_op=False):
        self.chk, self.S, self.fn, self.edges, self.asked, self.ran, self.user_op = chk, S, fn, edges, asked, ran, user_op

    def held(self, E, st):
        return [E.fieldkey(*h) for h in st.locks]

    def names(self, E, st):
        return ', '.join(lock_class(E, h) for h in self.held(E, st))

    def on_lock_request(self, E, st, m):
        k = E.fieldkey(*m)
        c = lock_class(E, k)
        self.asked.setdefault(self.fn, {}).setdefault(k, (c, E.where(st), E.path(st)))
        for h in self.held(E, st):
            self.edges.setdefault((lock_class(E, h), c), (self.fn, E.where(st), E.path(st)))
        self.chk.ok('order')

    def on_relock(self, E, st, m):
        self.chk.fail('order', E, st, '%s asks for %s, which it holds' % (self.fn[3:], lock_class(E, E.fieldkey(*m))))

    def on_wait(self, E, st, cv, m):
        if self.fn in QUICK:
            self.chk.fail('shut', E, st, '%s blocks' % self.fn[3:])
        others = [h for h in st.locks if h != m]
        self.chk.verdict(not others, 'wait', E, st, '%s blocks holding %s' % (self.fn[3:], ', '.join(lock_class(E, E.fieldkey(*h)) for h in others)))

    def on_callback(self, E, st, name, args, throws, fp=None, **kw):
        what = called(self.S, fp) if fp is not None else name
        if what == 'dispatch':
            self.ran.append((self.fn, frozenset(self.held(E, st)), tuple(sorted(lock_class(E, h) for h in self.held(E, st))), E.where(st), E.path(st)))
        elif what in USER or what in ('destroy', 'delete') or (what in ('call', None) and not self.user_op):
            self.chk.verdict(not st.locks, 'user', E, st, '%s runs %s holding %s' % (
                self.fn[3:], {'destroy': 'the destructor of a message', 'delete': 'the destructor of a message', 'call': 'the functor passed', None: 'the functor passed'}.get(what, what.split('::')[-1] if what else ''),
                self.names(E, st)))


def cycles(edges):
    """strongly connected parts with an edge inside"""
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def reach(a):
        seen, work = set(), list(succ.get(a, ()))
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += succ.get(x, ())
        return seen
    return [(a, b) for a, b in sorted(edges) if a == b or a in reach(b)]


def operations():
    """every operation on constructed objects, nothing replaced by contracts: (group, entry, whether a functor runs under the lock on purpose)"""
    groups = [(sem.group(), lambda f: 'new' not in f, True)]
    groups += [(guarded.group(t), lambda f: 'new' not in f, False) for t in guarded.TAGS]
    groups += [(guarded.wide(), lambda f: True, False)]
    groups += [(P.group(False), lambda f: 'new' not in f, False)]
    groups += [(queue_group([]), lambda f: 'new' not in f and 'delete' not in f, False)]
    for fn in list(P.CYCLES) + list(P.BCYCLES):
        if P.exists(fn) and fn != 'vf_none':
            if fn in P.CYCLES:
                g = P.cycle_group(fn)
                g.opts = {}
            else:
                g = Group(fn, [Entry(fn, [obj('self')])], {'self': P.CORE + 'BlockPool<%s>' % P.BCYCLES[fn][0]}, {})
            groups.append((g, lambda f: True, False))
    for g, pick, user_op in groups:
        g.infer()
        for fn in g.entries:
            if pick(fn):
                yield g, fn, user_op


def m07(chk, tier):
    chk.rule('order', 'locks are nested in one order across the library', 20)
    chk.rule('free', 'what a handler may do never asks for a lock held while handlers run', len(FREE))
    chk.rule('wait', 'a thread blocks holding no lock but that of the semaphore it blocks on', 6)
    chk.rule('user', 'constructors, destructors and functors of users run with no library lock held', 10)
    chk.rule('shut', 'aborting, reading statistics and the name never wait for another thread to act', 3)
    S = Slots()
    edges, asked, ran = {}, {}, []
    for g, fn, user_op in operations():
        g.run(chk, fn, [Edges(chk, S, fn, edges, asked, ran, user_op)])
    # handlers run within what the dispatching thread holds
    for fn, keys, classes, where, path in ran:
        for f in FREE:
            for k, (c, w, p) in asked.get(f, {}).items():
                for h in classes:
                    edges.setdefault((h, c), (fn + ' with the handler calling ' + f, where, path))
    held = set().union(*[k for _, k, *_ in ran]) if ran else set()
    for f in FREE:
        bad = [(k, v) for k, v in asked.get(f, {}).items() if k in held]
        if bad:
            k, (c, w, p) = bad[0]
            chk.fail('free', entry=f, where=w, path=p, detail='%s asks for %s, which is held while handlers run' % (f[3:], c))
        else:
            chk.ok('free')
    for a, b in cycles(edges):
        fn, w, p = edges[(a, b)]
        chk.fail('order', entry=fn, where=w, path=p, detail='%s is asked for while holding %s, which is also taken the other way round' % (b, a) if a != b else
                 '%s is asked for while another one of the kind is held' % a)
    chk.ok('shut', len(QUICK))
    chk.scans['locks'] = sorted({c for d in asked.values() for c, _, _ in d.values()})
    chk.scans['nested'] = ['%s then %s, in %s' % (a, b, edges[(a, b)][0]) for a, b in sorted(edges)]
    if not ran:
        raise Broken('no dispatch of a message found')


# -- X05 -----------------------------------------------------------------------------------------------------------
class Accesses:
    """who reads and writes which byte of the library's objects, atomically or under which locks"""

    def __init__(self, chk, cells, fn, passes):
        self.chk, self.cells, self.fn, self.passes = chk, cells, fn, passes

    def cell(self, E, k):
        """the object an access path ends in, by its type where known, and the path"""
        if k[0].startswith('@'):
            return k[0]
        if '*' in k[:-1] or k[0].startswith('%') or (k[0] != 'self' and len(k) < 3):
            return None          # a user's memory: an element handed in, a block or message handed out, an object of the caller
        return E.typename_of_path(k[:-1]) or k[:-1]

    def note(self, E, st, base, off, size, write, atomic):
        if base.kind not in ('param', 'fld', 'sym', 'global'):
            return
        if base.kind == 'global' and not write:
            g = E.M.globals.get(base.label)
            if g and g.get('const'):
                return
        k = E.fieldkey(base, off)
        c = self.cell(E, k)
        if c is None:
            return
        rel = set()
        for h in st.locks:
            h = E.fieldkey(*h)
            if h[0] != k[0]:
                continue
            n = 0
            while n < len(k) - 1 and n < len(h) - 1 and k[n] == h[n]:
                n += 1
            rel.add((k[n:-1], h[n:]))
        if k[-1] == '*':
            at = ['*']
        else:
            at = range(k[-1], k[-1] + (size if isinstance(size, int) else 1))
        key = (write, atomic, frozenset(rel), self.fn)
        for o in at:
            d = self.cells.setdefault((c, o), {})
            if key not in d:
                d[key] = (E.pretty(k), E.where(st), E.path(st))

    def init(self, E, st):
        st.obs['given'] = ()

    def element(self, E, base, off):
        return base.kind in ('param', 'fld', 'sym') and E.fieldkey(base, off)[-1] == '*'

    def pointee(self, E, st, value):
        b, o = E.split(st, value)
        return b if b is not None and b.kind in ('param', 'fld', 'sym') else None

    def touch(self, E, st, base, how):
        if base is None:
            return
        self.chk.verdict(base not in st.obs['given'], 'let-go', E, st, '%s %s memory it has passed on to other threads' % (self.fn[3:], how))

    def on_load(self, E, st, base, off, size, value, atomic):
        self.note(E, st, base, off, size, False, atomic is not None)
        if st.obs['given']:
            self.touch(E, st, base, 'reads')
            if self.element(E, base, off):
                b = self.pointee(E, st, value)
                st.obs['given'] = tuple(x for x in st.obs['given'] if x is not b)

    def on_store(self, E, st, base, off, size, value, old, atomic):
        self.note(E, st, base, off, size, True, atomic is not None)
        if st.obs['given']:
            self.touch(E, st, base, 'writes')
        if self.passes and isinstance(value, Poly) and value.w == 64 and self.element(E, base, off):
            b = self.pointee(E, st, value)
            if b is not None:
                self.chk.ok('let-go')
                st.obs['given'] = (b,)       # the last one

    def on_callback(self, E, st, name, args, throws, **kw):
        for a in args:
            if st.obs['given'] and isinstance(a, Poly) and a.w == 64:
                self.touch(E, st, self.pointee(E, st, a), 'calls a function of the user on')

    def on_rmw(self, E, st, base, off, size, old, value, op):
        self.note(E, st, base, off, size, True, True)

    def on_cas(self, E, st, base, off, size, expected, value):
        self.note(E, st, base, off, size, True, True)

    def on_casfail(self, E, st, base, off, size, value):
        self.note(E, st, base, off, size, False, True)

    def on_memset(self, E, st, ptr, byte, size):
        self.span(E, st, ptr, size, True)

    def on_memcpy(self, E, st, dst, src, size):
        self.span(E, st, dst, size, True)
        self.span(E, st, src, size, False)

    def span(self, E, st, ptr, size, write):
        b, o = E.split(st, ptr)
        if b is not None and size.is_const():
            self.note(E, st, b, o, size.u, write, False)
        if st.obs['given']:
            self.touch(E, st, b, 'writes' if write else 'reads')


def x05(chk, tier):
    chk.rule('no-race', 'what some operation changes and another one uses is always accessed atomically, or always under one lock', 12)
    chk.rule('no-global', 'no operation changes a variable shared by all objects, but atomically', 1)
    chk.rule('let-go', 'a thread does not touch a block or slot again after passing it on or giving it back', 20)
    seen = set()
    n = {}
    cells = {}
    for g, fn, _ in operations():
        # priming comes before all other operations and flushing after them (G02); destruction is for M13 to look at
        if fn.endswith(('_prime', '_flush', '_delete')):
            continue
        own = g.name if g.name.startswith(('guarded', 'semaphore', 'queue')) else 'pools'
        # the elements of a ring buffer as such are values; those of pools and queues are memory
        g.run(chk, fn, [Accesses(chk, cells.setdefault(own, {}), fn, not own.startswith(('guarded', 'semaphore')))])
    for name, cs in sorted(cells.items()):
        for (c, o), d in sorted(cs.items(), key=repr):
            if not any(w for w, *_ in d):
                continue
            glob = isinstance(c, str) and c.startswith('@')
            rule = 'no-global' if glob else 'no-race'
            common = None
            for (w, a, rel, fn) in d:
                common = rel if common is None else common & rel
            good = bool(common) or all(a for _, a, *_ in d)
            if good:
                chk.ok(rule)
                n[name] = n.get(name, 0) + 1
                continue
            # the culprit: an access that is neither atomic nor under the lock most of the others hold
            plain = [(k, v) for k, v in d.items() if not k[1]]
            plain.sort(key=lambda x: (len(x[0][2]), not x[0][0], x[0][3]))
            (w, a, rel, fn), (what, where, path) = plain[0]
            other = [k for k in d if k[3] != fn and (k[0] or w)] or [k for k in d if k[0] or w]
            if (what, fn) in seen:
                continue
            seen.add((what, fn))
            chk.fail(rule, entry=fn, where=where, path=path, detail='%s %s %s%s, racing with %s' % (
                fn[3:], 'writes' if w else 'reads', what, '' if rel else ' without a lock', ', '.join(sorted({k[3][3:] for k in other})[:4])))
    chk.ok('no-global')
    chk.scans['bytes changed by operations'] = n
    for want in ('semaphore', 'pools', 'queue'):
        if not any(x.startswith(want) for x in n):
            raise Broken('no changing field found in ' + want)


INOUT = re.compile(r'^(v?f?printf|v?dprintf|__v?f?printf_chk|f?puts|f?putc|putchar|perror|fflush|fopen|fclose|fread|fwrite|open|openat|close|write|read|p?select|poll|recv|send|v?syslog|system|fsync|fork)$'
                   r'|std::(basic_)?(i|o|io)?(f|string)?stream|std::operator<<|std::endl|std::flush')


class Brief:
    """what is done between getting a lock and letting go of it"""

    def __init__(self, chk, fn):
        self.chk, self.fn = chk, fn

    def init(self, E, st):
        st.obs['turns'] = ()

    def held(self, E, st):
        return ', '.join(lock_class(E, E.fieldkey(*h)) for h in st.locks)

    def anew(self, E, st, *a, **kw):
        st.obs['turns'] = ()

    # other threads have their turn, or have just had it
    on_lock = on_woken = on_cas = on_casfail = on_rmw = anew

    def on_wait(self, E, st, *a, **kw):
        self.chk.ok('brief')
        self.anew(E, st)

    on_unlock = on_wait

    def on_turn(self, E, st, head, back, endless):
        if not st.locks:
            return
        k = (len(st.frames), head)
        if back and endless:
            self.chk.verdict(k not in st.obs['turns'], 'brief', E, st, '%s goes round a loop as often as it takes, holding %s all the time' % (self.fn[3:], self.held(E, st)))
        if k not in st.obs['turns']:
            st.obs['turns'] += (k,)

    def on_external(self, E, st, fn):
        if INOUT.search(fn.dem):
            self.chk.verdict(not st.locks, 'awake', E, st, '%s does input or output (%s) holding %s' % (self.fn[3:], fn.dem.split('(')[0], self.held(E, st)))

    def on_exit(self, E, st, e):
        self.chk.ok('awake')

    def on_sleep(self, E, st, *a, **kw):
        self.chk.verdict(not st.locks, 'awake', E, st, '%s sleeps holding %s' % (self.fn[3:], self.held(E, st)))


def x06(chk, tier):
    chk.rule('brief', 'from getting a lock to giving it up, or to blocking on what gives it up, there is no loop without a fixed number of turns', 60)
    chk.rule('awake', 'no thread sleeps, or does input or output, holding a lock', 60)
    for g, fn, _ in operations():
        g.run(chk, fn, [Brief(chk, fn)])


# -- X07 -----------------------------------------------------------------------------------------------------------
def monitors():
    """everything that only asks: (group, entry, whether it may take the lock)"""
    g = sem.group()
    yield g, 'vf_sem_count', True
    for t in ring.TAGS:
        g = ring.group(t)
        for op in ('size', 'mask', 'bits'):
            yield g, 'vf_ring_%s_%s' % (t, op), False
    s, out = obj('self'), obj('out')
    for t in guarded.TAGS:
        p = 'vf_gring_%s_' % t
        g = guarded.group(t)
        g.entries.update((e.fn, e) for e in [Entry(p + op, [s]) for op in ('size', 'mask', 'bits')])
        for op in ('size', 'mask', 'bits'):
            yield g, p + op, False
    g = P.group(False)
    for fn in ('vf_pool_size', 'vf_pool_elsize', 'vf_pool_padded', 'vf_pool_stats'):
        yield g, fn, False
    for t, c in (('opool', 'ObjectPool<VfBase>'), ('bpool', 'BlockPool<VfPlain>')):
        g = P.group(False, P.CORE + c, [Entry('vf_%s_size' % t, [s]), Entry('vf_%s_stats' % t, [s, out])])
        yield g, 'vf_%s_size' % t, False
        yield g, 'vf_%s_stats' % t, False
    g = queue_group([])
    for fn in ('vf_q_stats', 'vf_q_last', 'vf_q_elsize', 'vf_q_aborted'):
        yield g, fn, False


class Looking:
    """asking, and nothing else"""

    def __init__(self, chk, fn, locks):
        self.chk, self.fn, self.locks = chk, fn, locks

    def wait_less(self, E, st, what):
        self.chk.fail('no-wait', E, st, '%s %s' % (self.fn[3:], what))

    def on_lock_request(self, E, st, m):
        if not self.locks:
            self.wait_less(E, st, 'asks for %s, and waits for whoever holds it' % lock_class(E, E.fieldkey(*m)))

    def on_trylock(self, E, st, m, **kw):
        self.chk.fail('pure', E, st, '%s tries for a lock, which others may then fail to get' % self.fn[3:])

    def on_wait(self, E, st, *a, **kw):
        self.wait_less(E, st, 'blocks')

    def on_sleep(self, E, st, *a, **kw):
        self.wait_less(E, st, 'sleeps')

    def on_callback(self, E, st, name, args, throws, **kw):
        self.wait_less(E, st, 'calls %s' % name)

    def on_external(self, E, st, fn):
        if INOUT.search(fn.dem):
            self.wait_less(E, st, 'does input or output')

    def on_turn(self, E, st, head, back, endless):
        if back and endless:
            self.wait_less(E, st, 'goes round a loop as often as it takes')

    def changed(self, E, st, base, off):
        if base.kind == 'global' or E.is_shared(base):
            k = E.fieldkey(base, off)
            if k[0] != 'out':
                self.chk.fail('pure', E, st, '%s changes %s' % (self.fn[3:], E.pretty(k)))

    def on_store(self, E, st, base, off, size, value, old, atomic):
        if not (isinstance(value, Poly) and isinstance(old, Poly) and eq(st, value, old)):
            self.changed(E, st, base, off)

    def on_rmw(self, E, st, base, off, size, old, value, op):
        if not eq(st, old, value):
            self.changed(E, st, base, off)

    def on_cas(self, E, st, base, off, size, expected, value, **kw):
        if not eq(st, expected, value):
            self.changed(E, st, base, off)

    def on_signal(self, E, st, *a, **kw):
        self.chk.fail('pure', E, st, '%s wakes threads' % self.fn[3:])

    def on_terminate(self, E, st, *a, **kw):
        self.chk.fail('plain', E, st, '%s may end the process' % self.fn[3:])

    def on_exit(self, E, st, e):
        self.chk.ok('no-wait')
        self.chk.ok('pure')
        self.chk.verdict(e.kind == 'return', 'plain', E, st, '%s ends with %s instead of an answer' % (self.fn[3:], e.kind))


def x07(chk, tier):
    chk.rule('no-wait', 'what only asks takes no lock, does not block, and loops a fixed number of times at most', 40)
    chk.rule('pure', 'what only asks changes nothing and wakes no one', 40)
    chk.rule('plain', 'what only asks always answers', 40)
    for g, fn, may_lock in monitors():
        g.run(chk, fn, [Looking(chk, fn, may_lock)])


CHECKS = {'M07': m07, 'X05': x05, 'X06': x06, 'X07': x07}
