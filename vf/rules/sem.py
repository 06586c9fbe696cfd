"""Semaphore (S01-S05)."""
from .common import *


def implemented(E, st):
    """the constructor leaves no semaphore without its implementation object"""
    v = E.load_at(st, obj('self').single(), 0, 8, 64, True)
    st.facts.set_form(v.t, 4096, PTR_HI)


def group():
    s = obj('self')
    fobj = obj('op')
    es = [Entry('vf_sem_take', [s], public='Semaphore::take()'),
          Entry('vf_sem_take_op', [s, fobj], public='Semaphore::take(operation)'),
          Entry('vf_sem_give', [s], public='Semaphore::give()'),
          Entry('vf_sem_give_op', [s, fobj], public='Semaphore::give(operation)'),
          Entry('vf_sem_abort', [s], public='Semaphore::abort()'),
          Entry('vf_sem_count', [s], public='Semaphore::getAvailableCount()'),
          Entry('vf_sem_delete', [s], {'construct': True}, setup=implemented, public='Semaphore::~Semaphore()'),
          Entry('vf_sem_new', [scalar('initial'), scalar('maximum')], {'construct': True}, public='Semaphore(initial, maximum)'),
          Entry('vf_sem_new1', [scalar('initial')], {'construct': True}, public='Semaphore(initial)')]
    return Group('semaphore', es, {'self': 'ReiserRT::Core::Semaphore', 'op': None})


TAKE = ('vf_sem_take', 'vf_sem_take_op')
GIVE = ('vf_sem_give', 'vf_sem_give_op')
OPS = TAKE + GIVE + ('vf_sem_abort', 'vf_sem_count')


class Roles:
    """which field plays which part, read off the public operations"""

    def __init__(self, g):
        self.g = g
        g.infer()
        M = module()
        quiet = Check('roles')

        class Sizes:
            sizes = {}

            def on_store(s_, E, st, base, off, size, value, old, atomic):
                if E.is_shared(base) and isinstance(off, int):
                    s_.sizes[E.fieldkey(base, off)] = size

        class Waits:
            at = {}

            def on_wait(s_, E, st, cv, m):
                c = E.fieldkey(*cv)
                d = {k: st.obs.get(('tot', k), 0) for k in self.sizes}
                s_.at.setdefault((E.entry, c), []).append(d)
                s_.mutex.add(E.fieldkey(*m))
            mutex = set()

            def on_lock(s_, E, st, m):
                s_.mutex.add(E.fieldkey(*m))
        sz = Sizes()
        sz.sizes = {}
        for fn in OPS:
            g.run(quiet, fn, [sz])
        self.sizes = dict(sz.sizes)
        w = Waits()
        w.at, w.mutex = {}, set()
        stores = {}
        for fn in OPS:
            s1 = Sizes()
            s1.sizes = {}
            g.run(quiet, fn, [Deltas(self.sizes), s1, w])
            stores[fn] = set(s1.sizes)
        # count: what getAvailableCount returns
        self.count = None
        for e in g.run(quiet, 'vf_sem_count', []):
            v = e.value
            a = v.single() if v is not None else None
            if a is not None and a.kind == 'sym' and a.args and a.args[0] == 'of' and a.args[1] in self.sizes:
                self.count = a.args[1]
        if self.count is None:
            self.count = self.named('availableCount')
        self.mutex = w.mutex
        self.cv = {'take': set(), 'give': set()}
        for (fn, c), _ in w.at.items():
            if fn in TAKE:
                self.cv['take'].add(c)
            if fn in GIVE:
                self.cv['give'].add(c)
        self.pend = {}
        for (fn, c), ds in w.at.items():
            ks = {k for k in self.sizes if all(d[k] == 1 for d in ds)}
            self.pend[c] = ks & self.pend.get(c, ks)
        cand = stores['vf_sem_abort'] - {self.count} - set().union(*self.pend.values()) if self.pend else stores['vf_sem_abort']
        if len(cand) > 1:
            cand = {k for k in cand if self.sizes[k] == 1} or cand
        self.abort = sorted(cand, key=repr)[0] if cand else self.named('abortFlag')
        if self.count is None or self.abort is None:
            raise Broken('semaphore roles not found: count=%s abort=%s' % (self.count, self.abort))
        if not self.cv['take']:
            raise Broken('take never waits')

    def named(self, n):
        M = module()
        t = M.types.get('ReiserRT::Core::Semaphore::Imple') or M.types.get('Imple')
        E = self.g.engine([])
        for k in sorted(self.g.mutable, key=repr):
            if E.pretty(k).endswith('->' + n):
                self.sizes.setdefault(k, 4 if n == 'availableCount' else 1)
                return k
        t = M.types.get('ReiserRT::Core::Semaphore')
        if t and t['m']:
            it = M.types_by_id.get(t['m'][0]['tid'])
            if it:
                for m in it['m']:
                    if m['n'] == n:
                        k = ('self', t['m'][0]['o'], m['o'])
                        self.sizes[k] = m['s']
                        return k
        return None

    def val(self, E, st, k):
        return current(E, st, k, self.sizes[k])

    def aborted(self, E, st):
        """True, False or None: what this path knows about the abort flag"""
        v = self.val(E, st, self.abort)
        r = st.facts.compare('eq', v, const(0, v.w))
        return None if r is None else not r


def setup_roles():
    g = group()
    return g, Roles(g)


# -- S01 -----------------------------------------------------------------------------------------------------------
class LockRules:
    """lock balance and guarded-by, for one set of protected fields and their lock"""

    def __init__(self, chk, guarded, mutex, callbacks=True):
        self.chk, self.guarded, self.mutex, self.callbacks = chk, guarded, mutex, callbacks

    def held(self, E, st):
        return any(E.fieldkey(*h) in self.mutex for h in st.locks)

    def access(self, E, st, base, off, atomic, how):
        if not E.is_shared(base):
            return
        k = E.fieldkey(base, off)
        if k in self.guarded and atomic is None:
            self.chk.verdict(self.held(E, st), 'guarded', E, st, '%s of %s without holding the semaphore lock' % (how, E.pretty(k)))

    def on_load(self, E, st, base, off, size, value, atomic):
        self.access(E, st, base, off, atomic, 'read')

    def on_store(self, E, st, base, off, size, value, old, atomic):
        self.access(E, st, base, off, atomic, 'write')

    def on_unlock_not_held(self, E, st, m):
        self.chk.fail('balanced', E, st, 'unlock of a mutex this path does not hold')

    def on_relock(self, E, st, m):
        self.chk.fail('balanced', E, st, 'locks a mutex it already holds')

    def on_wait_unlocked(self, E, st, cv, m):
        self.chk.fail('wait-locked', E, st, 'waits on a condition variable without holding its mutex')

    def on_wait(self, E, st, cv, m):
        self.chk.verdict(len(st.locks) == 1 and E.fieldkey(*m) in self.mutex, 'wait-locked', E, st,
                         'waits while holding %d lock(s), mutex %s' % (len(st.locks), E.pretty(E.fieldkey(*m))))

    def on_callback(self, E, st, name, args, throws, **kw):
        if self.callbacks:
            self.chk.verdict(self.held(E, st), 'operation-locked', E, st, 'user operation invoked without the semaphore lock')

    def on_terminate(self, E, st, exc):
        self.chk.fail('balanced', E, st, 'exception leads to std::terminate')

    def on_exit(self, E, st, e):
        self.chk.verdict(not st.locks, 'balanced', E, st, 'lock still held at %s exit' % e.kind)


def s01(chk, tier):
    g, R = setup_roles()
    chk.rule('one-lock', 'every operation uses the same mutex')
    chk.rule('guarded', 'each access to a field that changes after construction happens with the mutex held', 20)
    chk.rule('balanced', 'no path, normal or exceptional, leaves an operation with the mutex held, unlocks a mutex it does not hold or locks it twice', 20)
    chk.rule('wait-locked', 'every wait passes the one mutex, held', 2)
    chk.rule('operation-locked', 'a user operation runs only while the mutex is held', 2)
    chk.verdict(len(R.mutex) == 1, 'one-lock', entry='Semaphore', where=[], detail='operations use %d different mutexes' % len(R.mutex), path=[])
    guarded = {k for k in g.mutable if k in R.sizes}
    for fn in OPS:
        g.run(chk, fn, [LockRules(chk, guarded, R.mutex)])


# -- S02 -----------------------------------------------------------------------------------------------------------
class CountRules:
    def __init__(self, chk, R, want):
        self.chk, self.R, self.want = chk, R, want

    def bound_field(self, E, st, c0):
        """an immutable field the value at acquisition is known to be below"""
        base_key = self.R.count[:-1]
        for b, r in st.mem.items():
            if not E.is_shared(b):
                continue
            for o, (sz, v) in r.items():
                if not isinstance(o, int):
                    continue
                k = E.fieldkey(b, o)
                if k[:-1] != base_key or E.is_mut(k):
                    continue
                a = v
                if a.w != c0.w:
                    a = E.zext(st, a, c0.w) if a.w < c0.w else None
                if a is not None and st.facts.compare('ult', c0, a) is True:
                    return k
        return None

    def on_lock(self, E, st, m):
        st.obs['c0'] = self.R.val(E, st, self.R.count)

    def on_woken(self, E, st, cv, m):
        st.obs['c0'] = self.R.val(E, st, self.R.count)

    def release(self, E, st):
        if 'c0' not in st.obs:
            return
        c0 = st.obs['c0']
        c = self.R.val(E, st, self.R.count)
        d = sub(c, c0)
        if not d.is_const():
            self.chk.fail('unit-steps', E, st, 'available count becomes %r from %r' % (c, c0))
            return
        n = d.c
        if n == 0:
            self.chk.ok('unit-steps')
        elif n == -1:
            self.chk.ok('unit-steps')
            self.chk.verdict(known(st, 'ugt', c0, 0), 'no-underflow', E, st, 'count is decremented on a path that has not established it is above zero since the lock was (re)acquired')
        elif n == 1:
            self.chk.ok('unit-steps')
            b = self.bound_field(E, st, c0)
            self.chk.verdict(b is not None, 'no-overflow', E, st, 'count is incremented on a path that has not established it is below the maximum since the lock was (re)acquired')
            if b is not None:
                self.bounds.add(b)
        else:
            self.chk.fail('unit-steps', E, st, 'available count changes by %d in one step' % n)
    bounds = set()

    def on_unlock(self, E, st, m):
        self.release(E, st)
        st.obs.pop('c0', None)

    def on_wait(self, E, st, cv, m):
        self.release(E, st)

    def on_exit(self, E, st, e):
        if e.kind not in ('return', 'throw'):
            return
        n = st.obs.get(('tot', self.R.count), 0)
        want = self.want if e.kind == 'return' else 0
        self.chk.verdict(n == want, 'net-effect', E, st, '%s by %s changes the available count by %s, expected %+d' % (
            E.public, 'return' if e.kind == 'return' else 'exception ' + str(exc_name(E, e)), n, want))


def s02(chk, tier):
    g, R = setup_roles()
    chk.rule('net-effect', 'a returning take is worth -1, a returning give +1, and every exceptional exit 0', 20)
    chk.rule('unit-steps', 'what other threads can see of the count between two critical sections moves by at most one', 20)
    chk.rule('no-underflow', 'the count only goes down from a value known to be above zero', 2)
    chk.rule('no-overflow', 'the count only goes up from a value known to be below the fixed maximum', 2)
    CountRules.bounds = set()
    for fn in OPS:
        want = -1 if fn in TAKE else 1 if fn in GIVE else 0
        g.run(chk, fn, [Deltas({R.count: R.sizes[R.count]}), CountRules(chk, R, want)])
    chk.rule('one-maximum', 'every increment is bounded by the same immutable field')
    chk.verdict(len(CountRules.bounds) <= 1, 'one-maximum', entry='Semaphore', where=[], path=[],
                detail='bounds used: %s' % sorted(CountRules.bounds))


# -- S03 -----------------------------------------------------------------------------------------------------------
class SignalRules:
    def __init__(self, chk, R):
        self.chk, self.R = chk, R
        self.shared = bool(R.cv['take'] & R.cv['give'])

    def init(self, E, st):
        st.obs['owe'] = ()       # condition variables owed a signal: (side, why)
        st.obs['sig'] = ()
        st.obs['woken'] = ()
        st.obs['wsig'] = ()

    def on_lock(self, E, st, m):
        st.obs['c0'] = self.R.val(E, st, self.R.count)
        st.obs['sig'] = ()

    def on_woken(self, E, st, cv, m):
        st.obs['c0'] = self.R.val(E, st, self.R.count)
        st.obs['sig'] = ()
        st.obs['wsig'] = ()
        st.obs['woken'] = (E.fieldkey(*cv),)

    def on_wait(self, E, st, cv, m):
        c = E.fieldkey(*cv)
        self.release(E, st)
        R = self.R
        ab = R.aborted(E, st)
        cnt = R.val(E, st, R.count)
        self.chk.verdict(ab is False, 'wait-needed', E, st, 'waits without knowing that the semaphore is not aborted')
        sides = [s for s in ('take', 'give') if c in R.cv[s]]
        ent = 'take' if E.entry in TAKE else 'give'
        if ent == 'take':
            self.chk.verdict(known(st, 'eq', cnt, 0), 'wait-needed', E, st, 'take waits without knowing that the count is zero')
        else:
            self.chk.verdict(self.full(E, st, cnt), 'wait-needed', E, st, 'give waits without knowing that the count is at its maximum')
        for k in R.pend.get(c, ()):
            pass

    def full(self, E, st, cnt):
        base_key = self.R.count[:-1]
        for b, r in st.mem.items():
            if not E.is_shared(b):
                continue
            for o, (sz, v) in r.items():
                if isinstance(o, int) and sz == self.R.sizes[self.R.count]:
                    k = E.fieldkey(b, o)
                    if k[:-1] == base_key and not E.is_mut(k) and st.facts.compare('uge', cnt, v) is True:
                        return True
        return False

    def idle(self, E, st, c):
        """nobody can be waiting on c: a counter of its waiters is known to be zero"""
        return any(known(st, 'eq', self.R.val(E, st, k), 0) for k in self.R.pend.get(c, ()))

    def release(self, E, st):
        if 'c0' not in st.obs:
            return
        R = self.R
        c = R.val(E, st, R.count)
        d = sub(c, st.obs['c0'])
        n = d.c if d.is_const() else 'X'
        owe = list(st.obs['owe'])
        sig = st.obs['sig']
        for side, hit in (('take', n == 'X' or n > 0), ('give', n == 'X' or n < 0)):
            if not hit:
                continue
            for cv in R.cv[side]:
                if self.idle(E, st, cv):
                    st.obs['used'] = True
                    self.used.add(cv)
                    self.chk.ok('signal-due')
                elif any(x == cv and (a or not self.shared) for x, a in sig):
                    self.chk.ok('signal-due')
                else:
                    owe.append((cv, side))
        st.obs['owe'] = tuple(owe)
        if st.obs['woken'] and n != 0:
            st.obs['woken'] = ()
        if st.obs['woken']:
            w = st.obs['woken'][0]
            ok = R.aborted(E, st) is True
            if w in R.cv['take'] and known(st, 'eq', c, 0):
                ok = True
            if w in R.cv['give'] and self.full(E, st, c):
                ok = True
            if self.idle(E, st, w):
                self.used.add(w)
                ok = True
            st.obs['passed'] = ok
    used = set()

    def on_unlock(self, E, st, m):
        self.release(E, st)
        st.obs.pop('c0', None)
        st.obs['sig'] = ()

    def on_signal(self, E, st, cv, all):
        c = E.fieldkey(*cv)
        st.obs['sig'] = tuple(sorted(set(st.obs['sig']) | {(c, all)}))
        if all or not self.shared:
            st.obs['owe'] = tuple(x for x in st.obs['owe'] if x[0] != c)
        if st.obs['woken'] and st.obs['woken'][0] == c:
            st.obs['woken'] = ()

    def on_exit(self, E, st, e):
        if e.kind not in ('return', 'throw'):
            return
        for cv, side in st.obs['owe']:
            self.chk.fail('signal-due', E, st, 'exit with the count %s and no signal on %s (which may have waiters)' % (
                'raised' if side == 'take' else 'lowered', E.pretty(cv)))
        if st.obs['woken']:
            self.chk.verdict(st.obs.get('passed', False), 'wakeup-passed-on', E, st,
                             '%s exit after a wake-up on %s that was neither used nor passed on' % (e.kind, E.pretty(st.obs['woken'][0])))
        else:
            self.chk.ok('wakeup-passed-on')


class PendingRules:
    """a waiter count that signalling relies on really counts the waiters"""

    def __init__(self, chk, R, used):
        self.chk, self.R, self.used = chk, R, used

    def keys(self):
        for cv in self.used:
            for k in self.R.pend[cv]:
                yield cv, k

    def on_store(self, E, st, base, off, size, value, old, atomic):
        pass

    def on_wait(self, E, st, cv, m):
        c = E.fieldkey(*cv)
        for cv2, k in self.keys():
            n = st.obs.get(('tot', k), 0)
            self.chk.verdict(n == (1 if cv2 == c else 0), 'waiters-counted', E, st,
                             'waits on %s having changed %s by %s' % (E.pretty(c), E.pretty(k), n))

    def on_exit(self, E, st, e):
        if e.kind not in ('return', 'throw'):
            return
        for cv, k in self.keys():
            n = st.obs.get(('tot', k), 0)
            self.chk.verdict(n == 0, 'waiters-counted', E, st, '%s exit leaves %s changed by %s' % (e.kind, E.pretty(k), n))


def s03(chk, tier):
    g, R = setup_roles()
    chk.rule('wait-needed', 'a thread goes to sleep only while its condition is known to be false and no abort is pending', 4)
    chk.rule('signal-due', 'raising the count signals the takers, lowering it signals the givers, unless none can be waiting', 4)
    chk.rule('wakeup-passed-on', 'a thread that was woken and leaves without using the change passes the wake-up on', 10)
    SignalRules.used = set()
    for fn in OPS:
        g.run(chk, fn, [SignalRules(chk, R)])
    if SignalRules.used:
        chk.rule('waiters-counted', 'the waiter count a signal depends on is +1 exactly while a thread waits', 4)
        counted(chk, g, R, SignalRules.used)


def counted(chk, g, R, used):
    """the counters by which some operation concludes that nobody waits"""
    used = {c for c in used if R.pend.get(c)}
    keys = {k: R.sizes[k] for c in used for k in R.pend[c]}
    for k, size in sorted(keys.items()):
        chk.verdict(size >= 2, 'waiters-counted', entry='Semaphore', where=[], path=[], detail='%d bits of %s are too few to count the threads that may wait' % (8 * size, g.engine([]).pretty(k)))
    for fn in OPS:
        g.run(chk, fn, [Deltas(keys), PendingRules(chk, R, used)])


# -- S04 -----------------------------------------------------------------------------------------------------------
class AbortRules:
    used = set()

    def __init__(self, chk, R):
        self.chk, self.R = chk, R

    def init(self, E, st):
        st.obs['bc'] = ()

    def on_lock(self, E, st, m):
        st.obs['c0'] = self.R.val(E, st, self.R.count)
        st.obs['was'] = self.R.val(E, st, self.R.abort)
    on_woken_ = None

    def on_woken(self, E, st, cv, m):
        self.on_lock(E, st, m)

    def on_store(self, E, st, base, off, size, value, old, atomic):
        if not E.is_shared(base) or E.fieldkey(base, off) != self.R.abort:
            return
        self.chk.verdict(known(st, 'ne', value, 0), 'final', E, st, 'abort flag is set to %r' % value)
        st.obs['setflag'] = True

    def on_signal(self, E, st, cv, all):
        if all:
            st.obs['bc'] = tuple(sorted(set(st.obs['bc']) | {E.fieldkey(*cv)}))

    def on_callback(self, E, st, name, args, throws, **kw):
        if E.entry in TAKE + GIVE:
            self.chk.verdict(self.R.aborted(E, st) is False, 'refused', E, st, 'operation invoked without knowing that the semaphore is not aborted')

    def on_unlock(self, E, st, m):
        R = self.R
        if 'c0' not in st.obs:
            return
        c = R.val(E, st, R.count)
        d = sub(c, st.obs['c0'])
        if E.entry in TAKE + GIVE and not (d.is_const() and d.c == 0):
            self.chk.verdict(R.aborted(E, st) is False, 'refused', E, st, 'count changes without knowing that the semaphore is not aborted')
        if R.aborted(E, st) is True:
            st.obs['seen'] = True
            wasv = st.obs['was']
            was = known(st, 'ne', wasv, 0)
            if E.entry in ('vf_sem_abort', 'vf_sem_delete'):
                st.obs['done'] = True
                st.obs['idle'] = tuple(cv for s in ('take', 'give') for cv in R.cv[s]
                                       if was or any(known(st, 'eq', R.val(E, st, k), 0) for k in R.pend.get(cv, ())))
        st.obs.pop('c0', None)

    def on_exit(self, E, st, e):
        if e.kind == 'terminate':
            self.chk.fail('refused', E, st, 'terminates')
            return
        if E.entry in TAKE + GIVE:
            if st.obs.get('seen'):
                self.chk.verdict(e.kind == 'throw' and is_a(E.M, e.exc[0], 'SemaphoreAborted'), 'told', E, st,
                                 'aborted, but %s' % ('returns' if e.kind == 'return' else 'throws ' + str(exc_name(E, e))))
            if e.kind == 'throw' and is_a(E.M, e.exc[0], 'SemaphoreAborted'):
                self.chk.verdict(bool(st.obs.get('seen')), 'told', E, st, 'reports SemaphoreAborted while not aborted')
        if E.entry in ('vf_sem_abort', 'vf_sem_delete'):
            self.chk.verdict(e.kind == 'return' and bool(st.obs.get('done')), 'set', E, st, '%s without the abort flag set' % e.kind)
            for s in ('take', 'give'):
                for cv in self.R.cv[s]:
                    if cv not in st.obs['bc']:
                        AbortRules.used.add(cv)
                    self.chk.verdict(cv in st.obs['bc'] or cv in st.obs.get('idle', ()), 'wakes-all', E, st,
                                     'waiters of %s are not all woken' % E.pretty(cv))


def s04(chk, tier):
    g, R = setup_roles()
    chk.rule('final', 'the abort flag is only ever set, never cleared', 1)
    chk.rule('set', 'abort() and the destructor leave the flag set', 4)
    chk.rule('wakes-all', 'abort() and the destructor wake every waiter of every condition variable operations wait on', 4)
    chk.rule('refused', 'no count change and no user operation once aborted', 4)
    chk.rule('told', 'an operation that finds the semaphore aborted throws SemaphoreAborted, and only then', 4)
    AbortRules.used = set()
    for fn in OPS + ('vf_sem_delete',):
        g.run(chk, fn, [AbortRules(chk, R)])
    if AbortRules.used:
        chk.rule('waiters-counted', 'the waiter count a broadcast depends on is +1 exactly while a thread waits', 4)
        counted(chk, g, R, AbortRules.used)


# -- S05 -----------------------------------------------------------------------------------------------------------
U32 = (1 << 32) - 1


def s05(chk, tier):
    g, R = setup_roles()
    chk.rule('initial-count', 'a new semaphore has the requested count, limited to 32 bits', 8)
    chk.rule('maximum', 'the maximum is the requested one, at least the initial count, unlimited when zero, limited to 32 bits', 8)
    chk.rule('idle', 'a new semaphore is not aborted and has no waiters', 8)
    chk.rule('initialised', 'every condition variable and mutex that operations use is initialised first', 4)
    CountRules.bounds = set()
    tmp = Check('tmp')
    for n in ('net-effect', 'unit-steps', 'no-underflow', 'no-overflow'):
        tmp.rule(n, '')
    for fn in GIVE:
        g.run(tmp, fn, [Deltas({R.count: R.sizes[R.count]}), CountRules(tmp, R, 1)])
    mx = sorted(CountRules.bounds, key=repr)
    mx = mx[0] if mx else R.named('maxAvailableCount')
    if mx is None:
        raise Broken('no maximum field found')
    size = R.sizes[R.count]
    i_, m_ = scalar('initial'), scalar('maximum')
    cells = []
    for ilo, ihi in ((0, 0), (1, 1), (2, U32 - 1), (U32, U32), (U32 + 1, (1 << 64) - 1)):
        for mlo, mhi in ((0, 0), (1, 1), (2, U32 - 1), (U32, U32), (U32 + 1, (1 << 64) - 1)):
            if ihi == 0 or mlo == 0 and mhi == 0 or ihi < mlo or mhi < ilo:
                cells.append(((ilo, ihi), (mlo, mhi), None))
            else:
                cells.append(((ilo, ihi), (mlo, mhi), 'le'))
                cells.append(((ilo, ihi), (mlo, mhi), 'gt'))

    class Inits:
        def init(self, E, st):
            st.obs['inits'] = ()

        def on_sync_init(self, E, st, what, obj, args):
            st.obs['inits'] = st.obs['inits'] + ((what, obj),)
    offs = {}
    inner = R.count[:-1]
    for s in ('take', 'give'):
        for cv in R.cv[s]:
            offs[('cond', cv[len(inner):])] = cv
    ran = 0
    for fn, two in (('vf_sem_new', True), ('vf_sem_new1', False)):
        for (il, ih), (ml, mh), rel in cells:
            if not two and (ml, mh) != (0, 0):
                continue

            def setup(E, st):
                F = st.facts
                ok = F.set_form(i_.t, il, ih) and F.set_form(m_.t, ml, mh)
                if ok and rel:
                    ok = F.assume_cmp('ule' if rel == 'le' else 'ugt', i_, m_)
                st.obs['dead'] = not ok

            class Post:
                def on_exit(self, E, st, e):
                    if st.obs.get('dead'):
                        return
                    cell = 'initial in [%d,%d], maximum in [%d,%d]%s' % (il, ih, ml, mh, ' ' + rel if rel else '')
                    if e.kind != 'return':
                        chk.fail('initial-count', E, st, 'construction ends with %s for %s' % (e.kind, cell))
                        return
                    base = e.value.single()
                    if base is None or base.kind != 'heap':
                        raise Broken('constructed semaphore not found')
                    b = base
                    for o in inner[1:]:
                        b = E.load_at(st, b, o, 8, 64, True).single()
                        if b is None or b.kind != 'heap':
                            raise Broken('semaphore implementation object not found')
                    cnt = E.zext(st, E.load_at(st, b, R.count[-1], size, size * 8, False), 64)
                    mxv = E.zext(st, E.load_at(st, b, mx[-1], size, size * 8, False), 64)
                    wc = i_ if ih <= U32 else const(U32, 64)
                    if mh == 0 or ml > U32:
                        wm = const(U32, 64)
                    elif rel == 'gt' or il > mh:
                        wm = wc
                    else:
                        wm = m_
                    chk.verdict(known(st, 'eq', cnt, wc), 'initial-count', E, st, 'count %r instead of %r for %s' % (cnt, wc, cell))
                    chk.verdict(known(st, 'eq', mxv, wm), 'maximum', E, st, 'maximum %r instead of %r for %s' % (mxv, wm, cell))
                    for k in [R.abort] + [x for ks in R.pend.values() for x in ks]:
                        v = E.load_at(st, b, k[-1], R.sizes[k], R.sizes[k] * 8, False)
                        chk.verdict(known(st, 'eq', v, 0), 'idle', E, st, '%s starts as %r' % (E.pretty(k), v))
                    for (what, tail), cv in offs.items():
                        if len(tail) != 1:
                            continue
                        chk.verdict(any(w == what and o == (b, tail[0]) for w, o in st.obs['inits']), 'initialised', E, st,
                                    '%s is not initialised' % E.pretty(cv))
                    ms = [o for w, o in st.obs['inits'] if w == 'mutex']
                    chk.verdict(bool(ms), 'initialised', E, st, 'no mutex is initialised')
            g.run(chk, fn, [Inits(), Post()], setup=setup)
            ran += 1
    chk.scans['constructor argument cells'] = ran


# -- S06 -----------------------------------------------------------------------------------------------------------
class FunctorRules:
    """how often, when and to what effect the user's functor runs"""

    def __init__(self, chk, R, bounds):
        self.chk, self.R, self.bounds = chk, R, bounds

    def init(self, E, st):
        st.obs['runs'] = 0
        st.obs['threw'] = False
        st.obs['copy'] = False

    def on_lock(self, E, st, m):
        st.obs['c0'] = self.R.val(E, st, self.R.count)

    def on_woken(self, E, st, cv, m):
        self.on_lock(E, st, m)

    def on_unlock(self, E, st, m):
        st.obs.pop('c0', None)

    def room(self, E, st, c0):
        for k in self.bounds:
            v = current(E, st, k, self.R.sizes[self.R.count])
            if st.facts.compare('ult', c0, v) is True:
                return True
        return False

    def on_callback(self, E, st, name, args, throws, fp=None, **kw):
        o = st.obs
        a = fp.single() if fp is not None else None
        key = E.fieldkey(a, 0)[:-1] if a is not None and a.kind in ('fld', 'sym') else ()
        if key == ('op', 16):    # copies or destroys the functor
            o['copy'] = o['copy'] or throws
            return
        own = key == ('op', 24)
        self.chk.verdict(own, 'own', E, st, '%s runs %r, which is not the functor it was given' % (E.public, fp))
        o['runs'] += 1
        o['threw'] = throws
        self.chk.verdict(o['runs'] == 1, 'once', E, st, '%s runs its functor again' % E.public)
        c0 = o.get('c0')
        if E.entry in TAKE:
            self.chk.verdict(c0 is not None and known(st, 'ugt', c0, 0), 'served', E, st, 'take runs its functor without knowing that there is something to take')
        else:
            self.chk.verdict(c0 is not None and self.room(E, st, c0), 'served', E, st, 'give runs its functor without knowing that there is room')

    def on_wait(self, E, st, cv, m):
        self.chk.verdict(st.obs['runs'] == 0, 'served', E, st, '%s blocks after its functor ran' % E.public)
        if E.entry in GIVE:
            c = self.R.val(E, st, self.R.count)
            self.chk.verdict(known(st, 'ult', c, U32), 'overflow', E, st, 'give may block on a count that has reached the absolute limit')

    def on_exit(self, E, st, e):
        o = st.obs
        n = o['runs']
        if e.kind == 'return':
            self.chk.verdict(n == (1 if E.entry.endswith('_op') else 0), 'once', E, st, '%s returns having run its functor %d times' % (E.public, n))
            self.chk.verdict(not o['threw'], 'reported', E, st, '%s returns although its functor threw' % E.public)
        elif e.kind == 'throw':
            if n:
                self.chk.verdict(o['threw'] and e.exc[0] == engine.ANY, 'reported', E, st, '%s ends with %s although its functor %s' % (
                    E.public, exc_name(E, e), 'threw something else' if o['threw'] else 'ran'))
            else:
                kinds = [k for k in ('SemaphoreAborted', 'SemaphoreOverflow', 'system_error', 'bad_function_call') if is_a(E.M, e.exc[0], k)]
                good = bool(kinds) or o['copy'] and e.exc[0] == engine.ANY
                if 'SemaphoreOverflow' in kinds:
                    c = st.obs.get('last')
                    good = E.entry in GIVE and c is not None and known(st, 'uge', c, U32)
                if 'bad_function_call' in kinds:
                    good = E.entry.endswith('_op')
                self.chk.verdict(good, 'overflow' if 'SemaphoreOverflow' in kinds else 'reported', E, st, '%s ends with %s without cause' % (E.public, exc_name(E, e)))
        else:
            self.chk.fail('reported', E, st, '%s terminates' % E.public)

    def on_throw(self, E, st, **kw):
        st.obs['last'] = self.R.val(E, st, self.R.count) if 'c0' in st.obs else None


def s06(chk, tier):
    g, R = setup_roles()
    chk.rule('once', 'a returning take or give has run the functor it was given exactly once; none runs twice', 6)
    chk.rule('own', 'what runs is the functor handed in', 2)
    chk.rule('served', 'the functor runs only once the operation is sure to succeed: something to take, room to give, no blocking afterwards', 4)
    chk.rule('reported', 'an exception of the functor reaches the caller, and every other one is a refusal with no functor run', 6)
    chk.rule('overflow', 'SemaphoreOverflow is reported at the absolute limit of the count, and only there; nobody blocks there', 4)
    CountRules.bounds = set()
    tmp = Check('tmp')
    for fn in GIVE:
        g.run(tmp, fn, [Deltas({R.count: R.sizes[R.count]}), CountRules(tmp, R, 1)])
    bounds = set(CountRules.bounds)
    for fn in TAKE + GIVE:
        g.run(chk, fn, [FunctorRules(chk, R, bounds)])


CHECKS = {'S01': s01, 'S02': s02, 'S03': s03, 'S04': s04, 'S05': s05, 'S06': s06}
