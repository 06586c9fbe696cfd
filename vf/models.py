"""What the operations outside the library do: pthread primitives, the heap, the exception runtime, LLVM intrinsics.

The table is the analysis' trusted base.  An external that is not listed is taken to return anything and to touch
nothing the properties speak about; its name is reported in the evidence."""
import re
from .values import Atom, Poly, atom, fresh, pa, const, mk, add, sub, scale, mul, TRUE, FALSE
from .front import Broken


def install(E):
    M = E.models
    for k, v in TABLE.items():
        M[k] = v
    E.rx = [(re.compile(r), v) for r, v in RX]


def ret(E, st, f, I, v=None):
    return E.external_return(st, f, I, v)


def key(E, st, p):
    b, o = E.split(st, p)
    if b is None:
        return ('?', p)
    return (b, o)


# -- locks ---------------------------------------------------------------------------------------------------------
def acquired(E, st, k, label='lock'):
    if any(h == k for h in st.locks):
        E.event(st, 'relock', m=k)
        raise_stop()
    st.locks = st.locks + (k,)
    E.havoc_shared(st)
    E.event(st, 'lock', m=k)


def raise_stop():
    from .engine import Infeasible
    raise Infeasible()


def pick(E, st, vals):
    i = E.choose(st, len(vals))
    return vals[i]


def m_lock(E, st, f, I, fn, args):
    k = key(E, st, args[0])
    if k[0] == '?':
        E.event(st, 'nullderef', ptr=args[0])
        raise_stop()
    E.event(st, 'lock_request', m=k)
    if E.opts.get('lock_may_fail'):
        r = pick(E, st, [0, 22, 35])
        if r:
            E.event(st, 'lock_failed', m=k, code=r)
            st.note('pthread_mutex_lock fails with %d' % r)
            return ret(E, st, f, I, const(r, 32))
    acquired(E, st, k)
    return ret(E, st, f, I, const(0, 32))


def m_trylock(E, st, f, I, fn, args):
    k = key(E, st, args[0])
    vals = [0, 16]
    if E.opts.get('lock_may_fail'):
        vals += [22, 35]
    r = pick(E, st, vals)
    E.event(st, 'trylock', m=k, code=r)
    if r == 0:
        acquired(E, st, k)
    else:
        st.note('pthread_mutex_trylock returns %d' % r)
    return ret(E, st, f, I, const(r, 32))


def m_unlock(E, st, f, I, fn, args):
    k = key(E, st, args[0])
    if k not in st.locks:
        E.event(st, 'unlock_not_held', m=k)
    elif E.opts.get('unlock_may_fail') and E.choose(st, 2):
        E.event(st, 'unlock_failed', m=k, code=1)
        st.note('pthread_mutex_unlock fails with 1')
        return ret(E, st, f, I, const(1, 32))
    else:
        E.event(st, 'unlock', m=k)
        l = list(st.locks)
        for i in range(len(l) - 1, -1, -1):
            if l[i] == k:
                del l[i]
                break
        st.locks = tuple(l)
    return ret(E, st, f, I, const(0, 32))


def do_wait(E, st, cv, m):
    E.event(st, 'wait', cv=cv, m=m)
    if m not in st.locks:
        E.event(st, 'wait_unlocked', cv=cv, m=m)
    E.havoc_shared(st)
    E.event(st, 'woken', cv=cv, m=m)


def m_wait(E, st, f, I, fn, args):
    do_wait(E, st, key(E, st, args[0]), key(E, st, args[1]))
    return ret(E, st, f, I, const(0, 32))


def m_timedwait(E, st, f, I, fn, args):
    do_wait(E, st, key(E, st, args[0]), key(E, st, args[1]))
    r = pick(E, st, [0, 110])
    return ret(E, st, f, I, const(r, 32))


def m_signal(E, st, f, I, fn, args):
    E.event(st, 'signal', cv=key(E, st, args[0]), all=False)
    return ret(E, st, f, I, const(0, 32) if 'id' in I else None)


def m_broadcast(E, st, f, I, fn, args):
    E.event(st, 'signal', cv=key(E, st, args[0]), all=True)
    return ret(E, st, f, I, const(0, 32) if 'id' in I else None)


def m_init(what):
    def h(E, st, f, I, fn, args):
        E.event(st, 'sync_init', what=what, obj=key(E, st, args[0]), args=args)
        if what in ('mutexattr', 'condattr'):
            st.obs = dict(st.obs)
        return ret(E, st, f, I, const(0, 32))
    return h


def m_destroy(what):
    def h(E, st, f, I, fn, args):
        k = key(E, st, args[0])
        E.event(st, 'sync_destroy', what=what, obj=k)
        return ret(E, st, f, I, const(0, 32))
    return h


def m_setprotocol(E, st, f, I, fn, args):
    E.event(st, 'setprotocol', obj=key(E, st, args[0]), value=args[1])
    b, o = E.split(st, args[0])
    st.obs = dict(st.obs)
    st.obs[('mutexattr', (b, o))] = args[1]
    return ret(E, st, f, I, const(0, 32))


def m_getprotocol(E, st, f, I, fn, args):
    b, o = E.split(st, args[0])
    v = st.obs.get(('mutexattr', (b, o)))
    E.store(st, args[1], v if v is not None else const(0, 32), 4, I)
    return ret(E, st, f, I, const(0, 32))


# std::condition_variable / std::mutex, should the code move to them
def m_std_wait(E, st, f, I, fn, args):
    m = E.load(st, args[1], 8, 64, True, I)
    do_wait(E, st, key(E, st, args[0]), key(E, st, m))
    return ret(E, st, f, I)


# -- heap ----------------------------------------------------------------------------------------------------------
class HeapInfo:
    __slots__ = ('size', 'array', 'where', 'fn')


def m_new(array):
    def h(E, st, f, I, fn, args):
        where = (E.where(st) or ['?'])[0]
        nothrow = 'nothrow' in fn.dem
        if E.opts.get('new_may_throw') and not I.get('nounwind'):
            if E.choose(st, 2) == 1:
                if nothrow:
                    return ret(E, st, f, I, const(0, 64))
                st.note('operator new throws bad_alloc')
                E.event(st, 'alloc_failed', I=I)
                return E.throw(st, '_ZTISt9bad_alloc', 'operator new')
        a = Atom('heap', (), 64, 4096, 1 << 47, 'heap@' + where.split(' ')[0], True)
        hi = HeapInfo()
        hi.size, hi.array, hi.where, hi.fn = args[0], array, where, st.frames[-1].fn
        E.heapinfo[a] = hi
        E.event(st, 'alloc', obj=a, size=args[0], array=array, I=I)
        return ret(E, st, f, I, pa(a))
    return h


def m_delete(array):
    def h(E, st, f, I, fn, args):
        p = args[0]
        l, hgh = st.facts.urange(p)
        if hgh == 0:
            return ret(E, st, f, I)
        b, o = E.split(st, p)
        if b is not None and l == 0:
            # may be null: both
            c = E.icmp(st, 'eq', p, const(0, 64))
            if E.decide(st, c):
                return ret(E, st, f, I)
        E.event(st, 'free', base=b, off=o, array=array, I=I)
        if b is not None:
            if b in st.freed:
                E.event(st, 'doublefree', base=b)
            if isinstance(o, int) and o == 0 and (b.kind == 'heap' or E.is_shared(b)):
                st.freed = st.freed | {b}
        return ret(E, st, f, I)
    return h


def m_malloc(zero):
    def h(E, st, f, I, fn, args):
        if E.opts.get('new_may_throw') and E.choose(st, 2) == 1:
            st.note('%s returns null' % fn.name)
            return ret(E, st, f, I, const(0, 64))
        where = (E.where(st) or ['?'])[0]
        a = Atom('heap', (), 64, 4096, 1 << 47, 'heap@' + where.split(' ')[0], True)
        hi = HeapInfo()
        hi.size = args[0] if not zero and len(args) == 1 else mul(args[0], args[1]) if zero else args[1]
        hi.array, hi.where, hi.fn = 'malloc', where, st.frames[-1].fn
        E.heapinfo[a] = hi
        E.event(st, 'alloc', obj=a, size=hi.size, array='malloc', I=I)
        if zero:
            E.memfill(st, pa(a), const(0, 8), hi.size)
        return ret(E, st, f, I, pa(a))
    return h


# -- exceptions ----------------------------------------------------------------------------------------------------
def m_alloc_exc(E, st, f, I, fn, args):
    a = Atom('heap', (), 64, 4096, 1 << 47, 'exception', True)
    E.excobjs.add(a)
    return ret(E, st, f, I, pa(a))


def m_throw(E, st, f, I, fn, args):
    s = args[1].single()
    ty = s.label if s is not None and s.kind == 'global' else '<any>'
    where = (E.where(st) or ['?'])[0]
    st.note('throw %s in %s' % (E.tiname(ty), where))
    E.event(st, 'throw', type=ty, obj=args[0])
    return E.throw(st, ty, where, args[0])


def m_throw_named(ti):
    def h(E, st, f, I, fn, args):
        where = (E.where(st) or ['?'])[0]
        st.note('throw %s in %s' % (ti, where))
        E.event(st, 'throw', type=ti, obj=None)
        return E.throw(st, ti, where)
    return h


def m_begin_catch(E, st, f, I, fn, args):
    c = list(st.caught)
    for i in range(len(c) - 1, -1, -1):
        if not c[i][4]:
            c[i] = c[i][:4] + (True,)
            break
    st.caught = tuple(c)
    E.event(st, 'caught', exc=c[i] if c else None)
    return ret(E, st, f, I, args[0])


def m_end_catch(E, st, f, I, fn, args):
    c = list(st.caught)
    for i in range(len(c) - 1, -1, -1):
        if c[i][4]:
            E.event(st, 'end_catch', exc=c[i])
            del c[i]
            break
    st.caught = tuple(c)
    return ret(E, st, f, I)


def m_rethrow(E, st, f, I, fn, args):
    for c in reversed(st.caught):
        if c[4]:
            st.note('rethrow')
            return E.throw(st, c[0], c[3], c[2], c[1])
    return m_terminate(E, st, f, I, fn, args)


def m_terminate(E, st, f, I, fn, args):
    why = None
    if st.caught:
        why = st.caught[-1]
    E.event(st, 'terminate', exc=why)
    return E.finish(st, 'terminate', exc=(why[0], why[3]) if why else None)


def m_trap(E, st, f, I, fn, args):
    raise_stop()


def m_pure(E, st, f, I, fn, args):
    E.event(st, 'purevirtual')
    raise_stop()


# -- intrinsics ----------------------------------------------------------------------------------------------------
def m_nothing(E, st, f, I, fn, args):
    return ret(E, st, f, I)


def m_typeid_for(E, st, f, I, fn, args):
    s = args[0].single()
    return ret(E, st, f, I, const(E.tid(s.label if s is not None else None), 32))


def m_memset(E, st, f, I, fn, args):
    E.event(st, 'memset', ptr=args[0], byte=args[1], size=args[2])
    b, o = E.split(st, args[0])
    if b is not None and E.is_shared(b):
        E.stored.add(E.fieldkey(b, o))
        E.stored.add(E.fieldkey(b, '*'))
    by = args[1]
    if by.w > 8:
        by = E.trunc(st, by, 8)
    E.memfill(st, args[0], by, args[2])
    return ret(E, st, f, I, args[0] if 'id' in I else None)


def m_memcpy(E, st, f, I, fn, args):
    E.event(st, 'memcpy', dst=args[0], src=args[1], size=args[2])
    E.memcopy(st, args[0], args[1], args[2])
    return ret(E, st, f, I, args[0] if 'id' in I else None)


def m_ovf(op):
    def h(E, st, f, I, fn, args):
        a, b = args
        w = a.w
        from .values import mul
        p = {'mul': mul, 'add': add, 'sub': sub}[op](a, b)
        (al, ah), (bl, bh) = st.facts.urange(a), st.facts.urange(b)
        if op == 'mul':
            lo, hi = al * bl, ah * bh
        elif op == 'add':
            lo, hi = al + bl, ah + bh
        else:
            lo, hi = al - bh, ah - bl
        if 0 <= lo and hi < (1 << w):
            o = FALSE
        elif lo >= (1 << w) or hi < 0:
            o = TRUE
        else:
            o = pa(atom('ovf' + op, (a, b), 1, 0, 1, label='overflow(%r %s %r)' % (a, op, b)))
        return ret(E, st, f, I, (p, o))
    return h


def m_minmax(op):
    def h(E, st, f, I, fn, args):
        a, b = args
        p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op]
        return ret(E, st, f, I, a if E.decide(st, E.icmp(st, p, a, b)) else b)
    return h


def m_ctlz(E, st, f, I, fn, args):
    a = args[0]
    lo, hi = st.facts.urange(a)
    l, h = a.w - hi.bit_length(), a.w - lo.bit_length()
    if l == h:
        return ret(E, st, f, I, const(l, a.w))
    at = atom('ctlz', (a,), a.w, 0, a.w, label='ctlz(%r)' % a)
    st.facts.set_form((((at,), 1),), l, h)
    return ret(E, st, f, I, mk(a.w, 0, {(at,): 1}))


def m_expect(E, st, f, I, fn, args):
    return ret(E, st, f, I, args[0])


def m_nanosleep(E, st, f, I, fn, args):
    E.event(st, 'sleep')
    E.havoc_shared(st)
    return ret(E, st, f, I, const(0, 32))


def m_errno(E, st, f, I, fn, args):
    return ret(E, st, f, I, pa(atom('global', ('errno',), 64, 4096, 1 << 47, label='errno', ptr=True)))


def m_assume(E, st, f, I, fn, args):
    if not E.decide(st, E.trunc(st, args[0], 1)):
        raise_stop()
    return ret(E, st, f, I)


def m_assert(E, st, f, I, fn, args):
    E.event(st, 'terminate', exc=None)
    return E.finish(st, 'terminate')


def m_string(E, st, f, I, fn, args):
    """message text of exceptions"""
    E.event(st, 'text', fn=fn, args=args)
    return ret(E, st, f, I)


TABLE = {
    'pthread_mutex_lock': m_lock, 'pthread_mutex_trylock': m_trylock, 'pthread_mutex_unlock': m_unlock,
    'pthread_cond_wait': m_wait, 'pthread_cond_timedwait': m_timedwait, 'pthread_cond_clockwait': m_timedwait,
    'pthread_cond_signal': m_signal,
    'pthread_cond_broadcast': m_broadcast,
    'pthread_mutex_init': m_init('mutex'), 'pthread_cond_init': m_init('cond'),
    'pthread_mutexattr_init': m_init('mutexattr'), 'pthread_condattr_init': m_init('condattr'),
    'pthread_mutex_destroy': m_destroy('mutex'), 'pthread_cond_destroy': m_destroy('cond'),
    'pthread_mutexattr_destroy': m_nothing, 'pthread_condattr_destroy': m_nothing,
    'pthread_mutexattr_setprotocol': m_setprotocol, 'pthread_mutexattr_getprotocol': m_getprotocol,
    '__cxa_allocate_exception': m_alloc_exc, '__cxa_free_exception': m_nothing, '__cxa_throw': m_throw,
    '__cxa_begin_catch': m_begin_catch, '__cxa_end_catch': m_end_catch, '__cxa_rethrow': m_rethrow,
    '__clang_call_terminate': m_terminate, '_ZSt9terminatev': m_terminate, 'abort': m_terminate,
    '__cxa_pure_virtual': m_pure, '__cxa_bad_typeid': m_throw_named('_ZTISt10bad_typeid'),
    '__cxa_throw_bad_array_new_length': m_throw_named('_ZTISt20bad_array_new_length'),
    '__assert_fail': m_assert,
    'nanosleep': m_nanosleep, 'clock_nanosleep': m_nanosleep, 'sched_yield': m_nanosleep, 'usleep': m_nanosleep,
    '__errno_location': m_errno,
    'memset': m_memset, 'memcpy': m_memcpy, 'memmove': m_memcpy, 'bzero': m_nothing,
    'malloc': m_malloc(False), 'calloc': m_malloc(True), 'aligned_alloc': m_malloc(False), 'free': m_delete('malloc'),
    'vf_assume': m_assume,
}

RX = [
    (r'^operator new\[\]\(', m_new(True)), (r'^operator new\(', m_new(False)),
    (r'^operator delete\[\]\(', m_delete(True)), (r'^operator delete\(', m_delete(False)),
    (r'^llvm\.memset\.', m_memset), (r'^llvm\.mem(cpy|move)\.', m_memcpy),
    (r'^llvm\.eh\.typeid\.for', m_typeid_for), (r'^llvm\.(trap|debugtrap|ubsantrap)', m_trap),
    (r'^llvm\.(dbg|lifetime|invariant|assume|stacksave|stackrestore|experimental\.noalias|donothing)', m_nothing),
    (r'^llvm\.umul\.with\.overflow', m_ovf('mul')), (r'^llvm\.uadd\.with\.overflow', m_ovf('add')),
    (r'^llvm\.usub\.with\.overflow', m_ovf('sub')),
    (r'^llvm\.umin\.', m_minmax('umin')), (r'^llvm\.umax\.', m_minmax('umax')),
    (r'^llvm\.smin\.', m_minmax('smin')), (r'^llvm\.smax\.', m_minmax('smax')),
    (r'^llvm\.ctlz\.', m_ctlz), (r'^llvm\.(expect|ssa\.copy|launder|strip)', m_expect),
    (r'^std::__throw_system_error\(', m_throw_named('_ZTISt12system_error')),
    (r'^std::__throw_bad_function_call', m_throw_named('_ZTISt17bad_function_call')),
    (r'^std::__throw_bad_alloc', m_throw_named('_ZTISt9bad_alloc')),
    (r'^std::__throw_bad_array_new_length', m_throw_named('_ZTISt20bad_array_new_length')),
    (r'^std::__throw_length_error', m_throw_named('_ZTISt12length_error')),
    (r'^std::__throw_', m_throw_named('_ZTISt9exception')),
    (r'^std::condition_variable::wait\(', m_std_wait),
    (r'^std::condition_variable::notify_one\(', m_signal), (r'^std::condition_variable::notify_all\(', m_broadcast),
    (r'^std::condition_variable::(condition_variable|~condition_variable)\(', m_nothing),
    (r'^std::(__cxx11::basic_string|char_traits|allocator<char>|runtime_error|system_error|logic_error|exception|error_code|'
     r'error_condition|_V2::|system_category|generic_category|to_string|__cxx11::to_string|make_error_code|__new_allocator<char>|'
     r'underflow_error|overflow_error|length_error|invalid_argument|out_of_range|bad_alloc|__throw)\b.*', m_string),
    (r'^(void |bool |char\* )?std::(__cxx11::basic_string|char_traits|allocator_traits<std::allocator<char>|operator\+<char|make_error_code|is_error_code_enum)', m_string),
]
