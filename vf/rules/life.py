"""What every object does from construction to destruction (M12, M13), heap use of operations (X01), and the mutex (X04)."""
from .common import *
from .ring import size_cells
from .pool import elementsize, words, SHARED
from .. import models

N, S, L = scalar('requested'), scalar('elementSize'), scalar('flag', 1, 0, 1)
LIVES = {'sem': [scalar('initial'), scalar('maximum')], 'sem1': [scalar('initial')], 'mutex': [], 'ring_u32': [N], 'ring_u8': [N], 'ring_void': [N], 'ring_obj': [N],
         'gring_u32': [N, L], 'gring_void': [N, L], 'gring_obj': [N, L], 'pool': [N, S], 'opool': [N, S], 'opool1': [N], 'bpool': [N, S], 'bpool_int': [N, S],
         'queue': [N, S, L], 'queue2': [N, S]}
USES = {'sem': [], 'mutex': [], 'gring': [], 'pool': [], 'queue': [L]}


def lives(full):
    """(entry, arguments, setup, what)"""
    cells = list(size_cells())
    for name, args in LIVES.items():
        for how in ('life', 'heap'):
            fn = 'vf_%s_%s' % (how, name)
            if N not in args:
                yield fn, args, None, ''
                continue
            for lo, hi, k in cells:
                if not full and k not in (1, 2, 20):
                    continue

                def setup(E, st):
                    if not st.facts.set_form(N.t, lo, hi) or S in args and not st.facts.set_form(words.t, 0, 1 << 30):
                        raise Infeasible()
                for r in ((0, 3) if S in args else (0,)):
                    yield fn, [elementsize(r) if a is S else a for a in args], setup, 'requested in [%d, %d]' % (lo, hi)


class Owned:
    """memory and primitives acquired, until the end"""

    def __init__(self, chk, what):
        self.chk, self.what = chk, what

    def init(self, E, st):
        st.obs['mem'] = ()
        st.obs['prim'] = ()
        st.obs['short'] = False

    def on_alloc(self, E, st, obj, size, array, **kw):
        st.obs['mem'] = st.obs['mem'] + ((obj, array, (E.where(st) or ['?'])[0]),)

    def on_alloc_failed(self, E, st, **kw):
        st.obs['short'] = True

    def on_free(self, E, st, base, off, array, **kw):
        chk = self.chk
        mine = [x for x in st.obs['mem'] if x[0] is base]
        if not chk.verdict(bool(mine) and isinstance(off, int) and off == 0, 'once', E, st, 'releases %r + %r, which is not memory it holds%s' % (base, off, self.what)):
            return
        x = mine[0]
        chk.verdict(x[1] == array, 'matching', E, st, 'memory from %s is released with %s' % (self.form('new', x[1]), self.form('delete', array)))
        st.obs['mem'] = tuple(y for y in st.obs['mem'] if y is not x)

    def form(self, s, a):
        return s + ('[]' if a is True else '') if a in (True, False) else a

    def on_sync_init(self, E, st, what, obj, args):
        if what in ('mutex', 'cond'):
            st.obs['prim'] = st.obs['prim'] + ((what, obj, (E.where(st) or ['?'])[0]),)

    def on_sync_destroy(self, E, st, what, obj):
        mine = [x for x in st.obs['prim'] if x[0] == what and x[1] == obj]
        self.chk.verdict(bool(mine), 'primitives', E, st, 'destroys a %s that is not initialised' % what)
        l = list(st.obs['prim'])
        if mine:
            l.remove(mine[0])
        st.obs['prim'] = tuple(l)

    def gone(self, E, st, m, what):
        b = m[0]
        if getattr(b, 'kind', '') == 'heap':
            self.chk.verdict(b not in st.freed, 'alive', E, st, '%s memory already released' % what)

    def on_lock_request(self, E, st, m):
        self.gone(E, st, m, 'locks a mutex in')

    def on_useafterfree(self, E, st, **kw):
        self.chk.fail('alive', E, st, 'uses memory already released' + self.what)

    def on_nullderef(self, E, st, ptr, **kw):
        self.chk.fail('alive', E, st, 'dereferences a null pointer' + self.what)

    def on_exit(self, E, st, e):
        chk, o = self.chk, st.obs
        n = exc_name(E, e)
        fail = ' after an allocation failed' if o['short'] else ''
        if e.kind == 'terminate':
            chk.fail('passed-on', E, st, 'terminates the process%s%s' % (fail, self.what))
            return
        chk.ok('alive')
        chk.verdict(not o['mem'], 'no-leak', E, st, 'ends (%s %s)%s without releasing memory allocated at %s%s' % (e.kind, n or '', fail, ', '.join(x[2] for x in o['mem']), self.what))
        chk.verdict(not o['prim'], 'primitives', E, st, 'ends (%s %s)%s without destroying the %s initialised at %s%s' % (
            e.kind, n or '', fail, ', '.join(x[0] for x in o['prim']), ', '.join(x[2] for x in o['prim']), self.what))
        if o['short']:
            chk.verdict(e.kind == 'throw' and e.exc[0] == '_ZTISt9bad_alloc', 'passed-on', E, st, 'an allocation failed, yet it ends with %s %s%s' % (e.kind, n or '', self.what))
        else:
            chk.verdict(e.kind == 'return', 'passed-on', E, st, 'nothing failed, yet it ends with %s %s%s' % (e.kind, n or '', self.what))


def m12(chk, tier):
    chk.rule('no-leak', 'everything allocated is released by the end, however it ends', 30)
    chk.rule('once', 'only memory held is released, once', 30)
    chk.rule('matching', 'memory is released with the counterpart of what allocated it', 30)
    chk.rule('primitives', 'every mutex and condition initialised is destroyed, once', 30)
    chk.rule('alive', 'nothing released is used', 30)
    chk.rule('passed-on', 'a failed allocation reaches the caller, and nothing else fails', 30)
    for fn, args, setup, what in lives(tier != 'quick'):
        g = Group(fn, [Entry(fn, args)], {}, {'new_may_throw': True})
        g.mutable = set()
        g.run(chk, fn, [Owned(chk, ', ' + what if what else '')], setup=setup)
    for name, args in USES.items():
        fn = 'vf_use_' + name
        g = Group(fn, [Entry(fn, args)], {}, {'new_may_throw': True})
        g.mutable = set()
        g.run(chk, fn, [Owned(chk, '')])


# -- X01 -----------------------------------------------------------------------------------------------------------
class Steady:
    """no heap use on a path on which the library reports no error"""

    def __init__(self, chk, public):
        self.chk, self.public = chk, public

    def init(self, E, st):
        st.obs['heap'] = ()
        st.obs['error'] = False

    def note(self, E, st, what):
        if len(st.obs['heap']) < 3 and not st.obs['error']:
            st.obs['heap'] = st.obs['heap'] + ((what, tuple(E.where(st)[:4])),)

    def on_alloc(self, E, st, size, **kw):
        self.note(E, st, 'allocates memory')

    def on_free(self, E, st, **kw):
        self.note(E, st, 'releases memory')

    def on_text(self, E, st, fn, args):
        if re.search(r'(basic_string<.*>::(basic_string|operator=|append|assign|operator\+=|insert|replace|reserve|resize|push_back)|to_string|operator\+<char|runtime_error::runtime_error|logic_error::logic_error)\b', fn.dem):
            self.note(E, st, 'builds text (%s)' % fn.short())

    def on_throw(self, E, st, **kw):
        st.obs['error'] = True
        st.obs['heap'] = ()

    def on_exit(self, E, st, e):
        for what, where in st.obs['heap']:
            self.chk.fail('none', E, st, '%s %s' % (self.public, what), where=list(where))
        if not st.obs['heap']:
            self.chk.ok('none')


def x01(chk, tier):
    from .locks import operations
    chk.rule('none', 'a path of an operation that reports no error neither allocates nor releases memory', 300)
    for g, fn, _ in operations():
        if fn in SHARED:    # the shared pointer allocates, not the library
            continue
        if not fn.endswith('delete'):
            g.run(chk, fn, [Steady(chk, g.entries[fn].public)])
    s = {'q': 'ReiserRT::Core::MessageQueue', 'r': 'ReiserRT::Core::MessageQueue'}
    g = Group('adl', [Entry('vf_adl_any', [obj('q'), obj('r')])], s, {'finite': True})
    g.run(chk, 'vf_adl_any', [Steady(chk, 'AutoDispatchLock')])


# -- X04 -----------------------------------------------------------------------------------------------------------
INHERIT = 1          # PTHREAD_PRIO_INHERIT


class Made:
    """how the mutexes locked were made"""

    def __init__(self, chk):
        self.chk = chk

    def init(self, E, st):
        st.obs['attrs'] = ()
        st.obs['made'] = ()

    def on_sync_init(self, E, st, what, obj, args):
        o = st.obs
        if what == 'mutexattr':
            o['attrs'] = tuple(x for x in o['attrs'] if x[0] != obj) + ((obj, None),)
        elif what == 'mutex':
            b, off = E.split(st, args[1])
            v = dict(o['attrs']).get((b, off))
            good = isinstance(v, Poly) and v.is_const() and v.u == INHERIT
            self.chk.verdict(good, 'inherits', E, st, 'a mutex is made %s' % ('with protocol %r' % v if v is not None else 'without the priority inheritance protocol'))
            o['made'] = o['made'] + (obj,)

    def on_setprotocol(self, E, st, obj, value):
        if self.chk.verdict(any(x[0] == obj for x in st.obs['attrs']), 'inherits', E, st, 'sets the protocol of attributes that are not initialised'):
            st.obs['attrs'] = tuple(x for x in st.obs['attrs'] if x[0] != obj) + ((obj, value),)

    def on_sync_destroy(self, E, st, what, obj):
        if what == 'mutex':
            st.obs['made'] = tuple(x for x in st.obs['made'] if x != obj)

    def on_lock_request(self, E, st, m):
        self.chk.verdict(m in st.obs['made'], 'inherits', E, st, 'locks a mutex that was not made with the priority inheritance protocol')


class Outcome:
    """what the platform answers, against what the caller is told"""

    def __init__(self, chk, fn):
        self.chk, self.fn = chk, fn

    def init(self, E, st):
        st.obs['asked'] = 0
        st.obs['code'] = None
        st.obs['told'] = False
        st.obs['state'] = None

    def on_lock_request(self, E, st, m):
        st.obs['asked'] += 1

    def on_lock(self, E, st, m):
        st.obs['state'] = 'held'

    def on_unlock(self, E, st, m):
        st.obs['state'] = 'free'

    def on_lock_failed(self, E, st, m, code):
        st.obs['code'] = code

    def on_unlock_failed(self, E, st, m, code):
        st.obs['code'] = code

    def on_trylock(self, E, st, m, code):
        st.obs['asked'] += 1
        st.obs['code'] = code or None

    def on_text(self, E, st, fn, args):
        c = st.obs['code']
        if c is not None and any(isinstance(a, Poly) and a.is_const() and a.w == 32 and a.u == c for a in args):
            st.obs['told'] = True

    def on_exit(self, E, st, e):
        chk, o = self.chk, st.obs
        n = exc_name(E, e)
        code = o['code']
        if e.kind == 'terminate':
            chk.fail('reported', E, st, 'terminates')
            return
        if 'try' in self.fn:
            if code in (None, 16):
                good = e.kind == 'return' and e.value is not None and eq(st, e.value, 0 if code else 1) and (code is None) == (o['state'] == 'held') and o['asked'] == 1
                chk.verdict(good, 'tried', E, st, 'the platform %s, and trying ends with %s %s' % ('reports the mutex busy' if code else 'acquires the mutex', e.kind, n or e.value))
                return
        elif code is None:
            want = 'free' if 'unlock' in self.fn else 'held'
            chk.verdict(e.kind == 'return' and o['state'] == want, 'succeeds', E, st, 'ends with %s %s, the mutex %s' % (e.kind, n or '', o['state']))
            return
        chk.verdict(e.kind == 'throw' and is_a(E.M, e.exc[0], 'system_error'), 'reported', E, st, 'the platform fails with %s, and %s ends with %s %s' % (code, self.fn[9:], e.kind, n or ''))
        chk.verdict(o['told'], 'which', E, st, 'the platform fails with %s, which the exception does not say' % code)


class Trusting:
    """operations that lock on their way"""

    def __init__(self, chk, fn):
        self.chk, self.fn = chk, fn

    def init(self, E, st):
        st.obs['failed'] = False

    def on_lock_failed(self, E, st, m, code):
        st.obs['failed'] = True

    def on_exit(self, E, st, e):
        if st.obs['failed']:
            self.chk.verdict(e.kind != 'return', 'not-ignored', E, st, '%s: a lock was not acquired, yet the operation ends normally' % self.fn[3:])


def x04(chk, tier):
    from . import sem
    from .queue import queue_group
    chk.rule('inherits', 'every mutex is made with the priority inheritance protocol before it is locked', 15)
    chk.rule('succeeds', 'locking and unlocking return only when done', 2)
    chk.rule('tried', 'trying says whether the mutex was acquired', 2)
    chk.rule('reported', 'any other answer of the platform becomes a system error', 5)
    chk.rule('which', 'the exception carries the answer of the platform', 5)
    chk.rule('not-ignored', 'an operation whose lock failed does not end normally', 10)
    chk.rule('handle', 'the native handle is the mutex that is locked', 1)
    for name, args in USES.items():
        fn = 'vf_use_' + name
        g = Group(fn, [Entry(fn, args)], {}, {})
        g.mutable = set()
        g.run(chk, fn, [Made(chk)])
    s = obj('self')
    g = Group('mutex', [Entry('vf_mutex_' + f, [s]) for f in ('lock', 'try', 'unlock', 'handle')], {'self': 'ReiserRT::Core::Mutex'}, {'lock_may_fail': True, 'unlock_may_fail': True})
    ms = set()

    class At:
        def on_lock_request(self, E, st, m):
            ms.add(m)
    for f in ('lock', 'try'):
        g.run(chk, 'vf_mutex_' + f, [Outcome(chk, 'vf_mutex_' + f), At()])

    class Locked:
        def init(self, E, st):
            b, o = list(ms)[0]
            st.locks = ((b, o),)
    if ms:
        g.run(chk, 'vf_mutex_unlock', [Locked(), Outcome(chk, 'vf_mutex_unlock')])
    for e in g.run(chk, 'vf_mutex_handle', []):
        E = g.engine([])
        chk.verdict(e.kind == 'return' and {E.split(e.state, e.value)} == ms, 'handle', entry='vf_mutex_handle', where=[], path=[], detail='hands out %r' % e.value)
    for g, pick in ((sem.group(), lambda f: 'new' not in f and 'delete' not in f), (queue_group([]), lambda f: f.startswith('vf_q_') and 'new' not in f and 'delete' not in f)):
        g.infer()
        for fn in g.entries:
            if pick(fn):
                g.run(chk, fn, [Trusting(chk, fn)], opts={'lock_may_fail': True})


# -- M13 -----------------------------------------------------------------------------------------------------------
def leaving():
    from . import sem

    class Leaving(sem.AbortRules):
        """destruction of a semaphore others may be waiting on"""

        def __init__(self, chk, R):
            sem.AbortRules.__init__(self, Check('quiet'), R)
            self.real = chk

        def init(self, E, st):
            sem.AbortRules.init(self, E, st)
            st.obs['rested'] = ()
            st.obs['kept'] = False

        def on_sleep(self, E, st, **kw):
            if st.locks:
                st.obs['kept'] = True
            else:
                st.obs['rested'] = tuple(c for s in ('take', 'give') for c in self.R.cv[s] if c in st.obs['bc'] and st.obs.get('done') or c in st.obs.get('idle', ()))

        def missing(self, E, st, c):
            o = st.obs
            if c in o['rested']:
                return None
            if c not in o['bc'] and c not in o.get('idle', ()) or not o.get('done'):
                return 'its waiters were not told to leave'
            return 'the pause is spent holding the mutex they need' if o['kept'] else 'they were given no time to leave'

        def gone(self, E, st, what):
            for s in ('take', 'give'):
                for c in self.R.cv[s]:
                    why = self.missing(E, st, c)
                    self.real.verdict(why is None, 'semaphore', E, st, '%s while threads may be waiting on %s: %s' % (what, E.pretty(c), why))

        def on_sync_destroy(self, E, st, what, obj):
            if what in ('cond', 'mutex'):
                self.gone(E, st, 'a %s is destroyed' % what)

        def on_free(self, E, st, **kw):
            self.gone(E, st, 'memory is released')
    return Leaving


class Storage:
    """a guarded ring buffer outlives its semaphore"""

    def __init__(self, chk, what):
        self.chk, self.what = chk, what

    def init(self, E, st):
        st.obs['in'] = 0
        st.obs['sem'] = 'none'
        st.obs['array'] = ()

    def on_enter(self, E, st, fn, args):
        if re.search(r'^ReiserRT::Core::Semaphore::~?Semaphore\(', fn.dem):
            st.obs['in'] += 1

    def on_frame_exit(self, E, st, fn, exc, value, args, **kw):
        if re.search(r'^ReiserRT::Core::Semaphore::~?Semaphore\(', fn.dem):
            st.obs['in'] -= 1
            st.obs['sem'] = 'gone' if '~' in fn.dem else 'made' if exc is None else 'none'

    def on_alloc(self, E, st, obj, **kw):
        if not st.obs['in']:
            st.obs['array'] = st.obs['array'] + (obj,)

    def on_free(self, E, st, base, **kw):
        if base in st.obs['array']:
            self.chk.verdict(st.obs['sem'] == 'gone', 'storage', E, st, 'memory of a ring buffer is released before its semaphore has let the waiters leave' + self.what)


class Parting:
    """destruction of a queue others may be blocked in"""

    def __init__(self, chk):
        self.chk = chk

    def init(self, E, st):
        st.obs['rings'] = ()
        st.obs['all'] = ()
        st.obs['rested'] = ()
        st.obs['prims'] = ()

    def on_ring(self, E, st, op, ring, value):
        o = st.obs
        if op == 'new':
            o['rings'] = o['rings'] + (ring,)
        elif op == 'abort':
            o['all'] = o['all'] + (ring,)
        elif op == 'flush':
            self.left(E, st, 'messages are taken out unlocked', 'flush')
        elif op == 'destroy':
            o['rings'] = tuple(r for r in o['rings'] if r is not ring)

    def on_sleep(self, E, st, **kw):
        if not st.locks:
            st.obs['rested'] = st.obs['all']

    def left(self, E, st, what, rule):
        o = st.obs
        early = [r for r in o['rings'] if r not in o['rested']]
        self.chk.verdict(not early, rule, E, st, '%s while threads may be in the queue: %s' % (what, 'they were given no time to leave' if all(r in o['all'] for r in early) else 'they were not told to leave'))

    def on_free(self, E, st, **kw):
        self.left(E, st, 'memory is released', 'queue')

    def on_sync_destroy(self, E, st, what, obj):
        if what in ('cond', 'mutex'):
            self.left(E, st, 'a %s is destroyed' % what, 'queue')


def m13(chk, tier):
    from . import sem
    from .queue import OUTSIDE
    chk.rule('semaphore', 'a semaphore is aborted, its waiters are woken and given time, before anything they use goes', 4)
    chk.rule('storage', 'the memory of a guarded ring buffer goes after its semaphore', 4)
    chk.rule('flush', 'the messages left in a queue are taken out only once other threads were told and had time to leave', 1)
    chk.rule('queue', 'memory and primitives of a queue go only once other threads were told and had time to leave, or the ring buffers they wait in are gone', 3)
    g, R = sem.setup_roles()
    g.run(chk, 'vf_sem_delete', [leaving()(chk, R)])
    for fn, args, setup, what in lives(tier != 'quick'):
        if '_gring_' in fn:
            h = Group(fn, [Entry(fn, args)], {}, {})
            h.mutable = set()
            h.run(chk, fn, [Storage(chk, ', ' + what if what else '')], setup=setup)
    h = Group('life', [Entry('vf_q_life', [scalar('requested'), scalar('elementSize'), scalar('locking', 1, 0, 1)])], {}, {'contracts': OUTSIDE})

    def setup(E, st):
        if not st.facts.set_form(scalar('requested').t, 0, 1 << 20) or not st.facts.set_form(words.t, 0, 1 << 20):
            raise Infeasible()
    h.run(chk, 'vf_q_life', [Parting(chk)], setup=setup, args=[scalar('requested'), elementsize(0), scalar('locking', 1, 0, 1)])


CHECKS = {'M12': m12, 'X01': x01, 'M13': m13, 'X04': x04}
