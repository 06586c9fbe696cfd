"""MessageQueueBase, MessageQueue and AutoDispatchLock (M01-M12)."""
from .common import *
from .common import C as CR
from .pool import CORE, Stats, Forwarded, Ghosts, number, words, elementsize, value_of

QB = CORE + 'MessageQueueBase'
PUTS = ('vf_q_put', 'vf_q_put2', 'vf_q_emplace', 'vf_q_emplace2', 'vf_q_put3', 'vf_q_emplace3', 'vf_q_emplaceq3', 'vf_q_emplace4',
        'vf_q_put5', 'vf_q_emplace6', 'vf_q_emplace7')
DISPATCH = ('vf_q_dispatch', 'vf_q_dispatch_wake')
BUILT = ('vfu::mctor', 'vfu::mmove', 'vfu::qmctor', 'vfu::qmmove', 'vfu::mcopy')
FROM = ('vfu::mmove', 'vfu::qmmove', 'vfu::mcopy')


# -- the guarded ring buffers from outside ---------------------------------------------------------------------------
def message():
    """some message in the queue: an object of an unknown class derived from MessageBase"""
    return pa(Atom('sym', ('msg',), 64, 4096, PTR_HI, 'msg', True))


def c_get(E, st, f, I, fn, args):
    E.event(st, 'ringwait', ring=args[0])
    E.havoc_shared(st)
    n = E.choose(st, 3)
    if n == 0:
        b = message() if 'MessageBase' in fn.dem else block()
        E.event(st, 'ring', op='get', ring=args[0], value=b)
        return E.external_return(st, f, I, b)
    E.event(st, 'ring', op='aborted', ring=args[0], value=None)
    return E.throw(st, ABORTED if n == 1 else STATE_ERROR, 'RingBufferGuarded::get')


def c_abort(E, st, f, I, fn, args):
    E.event(st, 'ring', op='abort', ring=args[0], value=None)
    E.havoc_shared(st)
    return E.external_return(st, f, I, None)


def functor(rx):
    l = named(rx)
    if len(l) != 1:
        raise Broken('call operator not found: ' + rx)
    return l[0]


def c_flush(E, st, f, I, fn, args):
    E.event(st, 'ring', op='flush', ring=args[0], value=None)
    if E.choose(st, 2) == 0:
        return E.external_return(st, f, I, None)
    m = message()
    E.event(st, 'ring', op='flushed', ring=args[0], value=m)
    return E.call_named(st, f, I, functor(r'^std::function<void \(void\*\)>::operator\(\)'), [args[1], m])


def c_prime(E, st, f, I, fn, args):
    i = scalar('index', 64, 0, 1 << 40)
    n = st.obs.get('~ring' + repr(args[0]))
    if n is not None and not st.facts.assume_cmp('ult', i, n):
        return E.external_return(st, f, I, None)
    E.event(st, 'ring', op='prime', ring=args[0], value=i)
    return E.call_named(st, f, I, functor(r'^std::function<void\* \(unsigned long\)>::operator\(\)'), [args[1], i])


def c_ctor(E, st, f, I, fn, args):
    st.obs['~ring' + repr(args[0])] = args[1]
    E.event(st, 'ring', op='new', ring=args[0], value=args[1])
    return E.external_return(st, f, I, None)


def c_dtor(E, st, f, I, fn, args):
    E.event(st, 'ring', op='destroy', ring=args[0], value=None)
    return E.external_return(st, f, I, None)


G = CR + r'RingBufferGuarded(Base)?<.*>::'
RINGS = [(G + r'get\(\)', c_get), (G + r'put\(', c_guarded_put), (G + r'abort\(\)', c_abort), (G + r'flush\(', c_flush)]
OUTSIDE = RINGS + [(G + r'prime\(', c_prime), (G + r'RingBufferGuarded(Base)?\(', c_ctor), (G + r'~RingBufferGuarded(Base)?\(', c_dtor)]


def queue_group(contracts=RINGS):
    q = obj('self')
    es = [Entry('vf_q_new', [scalar('requested'), scalar('elementSize'), scalar('locking', 1, 0, 1)], {'construct': True}),
          Entry('vf_q_new2', [scalar('requested'), scalar('elementSize')], {'construct': True}), Entry('vf_q_delete', [q], {'construct': True}),
          Entry('vf_q_put', [q, obj('msg1')]), Entry('vf_q_put2', [q, obj('msg2')]), Entry('vf_q_emplace', [q, scalar('v', 32)]), Entry('vf_q_emplace2', [q]),
          Entry('vf_q_put3', [q, obj('msg3')]), Entry('vf_q_emplace3', [q, scalar('v', 32)]), Entry('vf_q_emplaceq3', [q]), Entry('vf_q_emplace4', [q, obj('arg1'), obj('arg2'), obj('arg3')]),
          Entry('vf_q_put5', [q, obj('msg5')]), Entry('vf_q_emplace6', [q, scalar('v', 32)]), Entry('vf_q_emplace7', [q]),
          Entry('vf_q_dispatch', [q]), Entry('vf_q_dispatch_wake', [q, obj('wake')]), Entry('vf_q_purge', [q]), Entry('vf_q_abort', [q]),
          Entry('vf_q_last', [q]), Entry('vf_q_stats', [q, obj('out')]), Entry('vf_q_elsize', [q]), Entry('vf_q_aborted', [q]), Entry('vf_adl_get', [q, obj('adl')])]
    return Group('queue', es, {'self': CORE + 'MessageQueue', 'msg1': 'VfMsg', 'msg2': 'VfMsg2', 'msg3': 'VfMsg3', 'msg5': 'VfMsgT<2>', 'out': QB + '::RunningStateStats',
                               'wake': 'std::function<void ()>', 'adl': QB + '::AutoDispatchLock'}, {'contracts': contracts})


class Slots:
    """where the virtual functions of a message are found, from the table of a class derived from it"""

    def __init__(self):
        M = module()
        vt = next((n for n in M.globals if n == '_ZTV5VfMsg'), None)
        E = Engine(M, [], set(), {})
        st = E.start('vf_q_abort', [obj('self')])
        self.at = {}
        for off in range(0, 64, 8):
            v = E.global_read(st, M.globals[vt]['init'], 16 + off, 64) if vt else None
            s = v.single() if v is not None else None
            if s is None or s.kind != 'func':
                break
            f = M.fns[s.label]
            name = 'dispatch' if '::dispatch' in f.dem else 'name' if '::name' in f.dem else ('delete' if f.name.endswith('D0Ev') else 'destroy') if '::~' in f.dem else None
            if name:
                self.at[off] = name
        if set(self.at.values()) < {'dispatch', 'name', 'destroy'}:
            raise Broken('virtual functions of messages not found')

    def decode(self, fp):
        """(what, message) of an indirect call"""
        s = fp.single()
        if s is None or s.kind != 'fld':
            return None, None
        vp = s.args[0]
        if vp.kind == 'fld' and vp.args[1] == 0 and vp.args[0].kind == 'sym' and vp.args[0].args == ('msg',):
            return self.at.get(s.args[1]), vp.args[0]
        if vp.kind == 'param':
            return 'call', vp
        return None, None


def slot_of(E, st, m):
    """address of the complete object a message is part of, by its virtual table"""
    vp = atom('fld', (m, 0, 64), 64, 0, 1 << 47, label=E.pretty(E.fieldkey(m, 0)), ptr=True)
    o = E.load_at(st, vp, -16, 8, 64, False)
    return add(pa(m), o)


class Rings:
    """which ring buffer holds free slots and which messages: by what the operations do to them"""

    def __init__(self, g, chk):
        self.raw = self.find(g, chk, PUTS, 'get')
        self.cooked = self.find(g, chk, DISPATCH, 'get')
        if self.raw == self.cooked:
            raise Broken('one ring buffer for slots and messages')

    def find(self, g, chk, fns, op):
        seen = set()

        class See:
            def on_ring(s_, E, st, op, ring, value):
                if op == 'get' and not st.obs.get('first'):
                    st.obs['first'] = True
                    seen.add(ringkey(E, st, ring))
        for fn in fns:
            g.run(chk, fn, [See()])
        if len(seen) != 1:
            raise Broken('operations take from %d different ring buffers first' % len(seen))
        return seen.pop()


def ringkey(E, st, ring):
    b, o = E.split(st, ring)
    return E.fieldkey(b, o if isinstance(o, int) else '*') if b is not None else None


class Flow:
    """life of slots and messages during one operation"""

    def __init__(self, chk, R, S, fn, up=None):
        self.chk, self.R, self.S, self.fn = chk, R, S, fn
        self.up = up or {}
        self.put = fn in PUTS

    def init(self, E, st):
        st.obs['slot'] = None         # slot taken, or of the message taken
        st.obs['msg'] = None          # message taken (dispatch, purge)
        st.obs['state'] = 'none'      # none, raw, built, queued, taken, dead, back
        st.obs['ran'] = 0
        st.obs['woke'] = 0
        st.obs['cause'] = None        # exception the caller should see
        st.obs['told'] = None         # abort seen by the operation proper
        st.obs['held'] = ()
        st.obs['moved'] = False

    def bad(self, rule, E, st, detail):
        self.chk.fail(rule, E, st, '%s: %s' % (self.fn[3:], detail))

    def on_ring(self, E, st, op, ring, value):
        k = ringkey(E, st, ring)
        o = st.obs
        state = o['state']
        if k == self.R.raw:
            if op == 'get':
                if not self.put:
                    return self.bad('takes-one', E, st, 'takes a free slot')
                if state != 'none':
                    self.bad('takes-one', E, st, 'takes another slot')
                else:
                    self.chk.ok('takes-one')
                o['slot'], o['state'] = value, 'raw'
            elif op in ('put', 'refused'):
                if self.put:
                    good = state in ('raw', 'dead') and eq(st, value, o['slot'])
                    self.chk.verdict(good, 'slot-back', E, st, '%s: gives back %r while its slot %r is %s' % (self.fn[3:], value, o['slot'], self.word(state)))
                else:
                    good = state == 'dead' and o['slot'] is not None and eq(st, value, o['slot'])
                    self.chk.verdict(good, 'slot-back', E, st, '%s: gives back %r, but the message in slot %r is %s' % (self.fn[3:], value, o['slot'], self.word(state)))
                o['state'] = 'back'
            elif op == 'aborted':
                o['told'] = o['told'] or 'free slots'
        elif k == self.R.cooked:
            if op == 'get':
                if self.put:
                    return self.bad('takes-one', E, st, 'takes a message')
                if state not in ('none', 'back'):
                    self.bad('takes-one', E, st, 'takes a message while another is %s' % self.word(state))
                elif state == 'back' and 'purge' not in self.fn:
                    self.bad('takes-one', E, st, 'takes a second message')
                else:
                    self.chk.ok('takes-one')
                o['msg'], o['state'], o['ran'] = value, 'taken', 0
                o['slot'] = slot_of(E, st, value.single())
            elif op in ('put', 'refused'):
                if self.put:
                    up = self.up.get(self.fn[-1:], self.up.get(''))
                    good = state == 'built' and eq(st, value, add(o['slot'], const(up, 64)))
                    self.chk.verdict(good, 'passes-on', E, st, '%s: enqueues %r; slot %r is %s' % (self.fn[3:], value, o['slot'], self.word(state)))
                else:
                    self.bad('passes-on', E, st, 'enqueues a message')
                if op == 'put':
                    o['state'] = 'queued'
                else:
                    o['told'] = o['told'] or 'messages'
            elif op == 'aborted':
                o['told'] = o['told'] or 'messages'

    def word(self, s):
        return {'none': 'none', 'raw': 'empty', 'built': 'holding a message', 'queued': 'in the queue', 'taken': 'not destroyed', 'dead': 'destroyed',
                'back': 'given back'}[s]

    def on_callback(self, E, st, name, args, throws, fp=None, **kw):
        o = st.obs
        chk = self.chk
        if throws and o['cause'] is None:
            o['cause'] = name if fp is None else 'callback'
        if name in BUILT:
            good = o['state'] == 'raw' and eq(st, args[0], o['slot'])
            chk.verdict(good, 'built-in-slot', E, st, '%s: a message is built at %r; slot %r is %s' % (self.fn[3:], args[0], o['slot'], self.word(o['state'])))
            if name in FROM:
                own = obj('msg' + (self.fn[-1] if self.fn[-1] in '235' else '1'))
                chk.verdict(name != 'vfu::mcopy' and eq(st, args[1], own) and not o['moved'], 'moved', E, st, '%s: the message is built %s %r, the sender\'s is %r' % (
                    self.fn[3:], 'by copying' if name == 'vfu::mcopy' else 'from', args[1], own))
                o['moved'] = True
            if not throws:
                o['state'] = 'built'
        elif name == 'vfu::mdtor':
            # the sender's own copy is destroyed elsewhere; here only messages in slots are
            good = o['state'] == 'built' and eq(st, args[0], o['slot'])
            chk.verdict(good, 'destroyed-once', E, st, '%s: destroys %r; the message in slot %r is %s' % (self.fn[3:], args[0], o['slot'], self.word(o['state'])))
            o['state'] = 'dead'
        elif name == 'vfu::mdispatch':
            self.bad('runs-once', E, st, 'a message runs while being enqueued')
        elif fp is not None:
            what, m = self.S.decode(fp)
            if what == 'call':
                good = o['state'] == 'taken' and not o['ran'] and not o['woke']
                chk.verdict(good and m.label == 'wake', 'wake-first', E, st, '%s: the wake-up callback runs with a message %s, invoked %d times' % (self.fn[3:], self.word(o['state']), o['ran']))
                o['woke'] = 1
            elif what is not None:
                mine = o['msg'] is not None and m is o['msg'].single() and args and eq(st, args[0], o['msg'])
                if what == 'dispatch':
                    good = mine and o['state'] == 'taken' and not o['ran'] and 'purge' not in self.fn
                    chk.verdict(good, 'runs-once', E, st, '%s: invokes %r; the message taken is %r, %s, and has been invoked %d times' % (
                        self.fn[3:], m, o['msg'], self.word(o['state']), o['ran']))
                    if 'wake' in self.fn:
                        chk.verdict(o['woke'] == 1, 'wake-first', E, st, 'invokes the message before the wake-up callback')
                    o['ran'] = 1
                elif what == 'destroy':
                    chk.verdict(mine and o['state'] == 'taken', 'destroyed-once', E, st, '%s: destroys %r; the message taken is %r, %s' % (self.fn[3:], m, o['msg'], self.word(o['state'])))
                    o['state'] = 'dead'
                    # its table is gone with it
                    st.region(o['msg'].single(), True)[0] = (8, pa(fresh('undef', 64, kind='undef', ptr=True)))
                elif what == 'delete':
                    self.bad('destroyed-once', E, st, 'releases the message as if it had been allocated on its own')
                elif what == 'name':
                    chk.verdict(mine and o['state'] == 'taken', 'destroyed-once', E, st, '%s: asks a message for its name that is %s' % (self.fn[3:], self.word(o['state'])))

    def on_exit(self, E, st, e):
        o = st.obs
        chk = self.chk
        n = exc_name(E, e)
        state = o['state']
        if e.kind == 'terminate':
            chk.fail('no-termination', E, st, '%s terminates the process' % self.fn[3:])
            return
        chk.ok('no-termination')
        ab = e.kind == 'throw' and (e.exc[0] in (ABORTED, STATE_ERROR))
        size = e.kind == 'throw' and is_a(E.M, e.exc[0], 'MessageQueueElementSizeError')
        if o['cause'] is not None:
            good = e.kind == 'throw' and e.exc[0] == engine.ANY and (e.exc[1] == o['cause'])
            chk.verdict(good, 'passed-to-caller', E, st, '%s: %s failed, but it ends with %s %s' % (self.fn[3:], o['cause'], e.kind, n))
        elif o['told'] is not None:
            chk.verdict(ab, 'told', E, st, '%s: the abort of the ring buffer of %s ends it with %s %s' % (self.fn[3:], o['told'], e.kind, n))
        else:
            empty = 'wake' in self.fn and e.kind == 'throw' and is_a(E.M, e.exc[0], 'bad_function_call') and not o['ran']
            chk.verdict(e.kind == 'return' or size and state == 'none' or empty, 'passed-to-caller', E, st, '%s: ends with %s %s although nothing failed' % (self.fn[3:], e.kind, n))
        if self.put:
            if e.kind == 'return':
                chk.verdict(state == 'queued', 'not-lost', E, st, '%s: returns with its slot %s' % (self.fn[3:], self.word(state)))
            elif o['told'] == 'messages':
                chk.verdict(state in ('dead', 'back'), 'not-lost', E, st, '%s: fails (%s) with the message in its slot %s' % (self.fn[3:], n, self.word(state)))
            else:
                chk.verdict(state in ('none', 'back'), 'not-lost', E, st, '%s: fails (%s) with its slot %s' % (self.fn[3:], n, self.word(state)))
        elif 'purge' in self.fn or self.fn in DISPATCH:
            chk.verdict(state in ('none', 'back'), 'not-lost', E, st, '%s: ends (%s %s) with a message %s' % (self.fn[3:], e.kind, n or '', self.word(state)))
            if e.kind == 'return' and self.fn in DISPATCH:
                chk.verdict(state == 'back' and o['ran'] == 1, 'runs-once', E, st, '%s: returns having invoked the message %d times' % (self.fn[3:], o['ran']))


TEXT = {
    'takes-one': 'an operation takes one slot, or one message at a time', 'slot-back': 'a slot is given back once, when nothing in it is alive, and it is the slot the message lives in',
    'built-in-slot': 'a message is built in the slot taken', 'passes-on': 'what is enqueued is the message built', 'not-lost': 'whatever happens, slot and message end up somewhere',
    'passed-to-caller': 'an exception of user code reaches the caller, and none is invented', 'destroyed-once': 'a message is destroyed once, while alive',
    'runs-once': 'a message taken for dispatch is invoked once', 'wake-first': 'the wake-up callback runs once, before the message', 'told': 'an abort ends the operation with its exception',
    'forwards': 'the constructor gets the arguments of the call as they are', 'moved': 'a message put is moved once from the sender\'s, into the slot', 'no-termination': 'no path terminates the process'}
MINE = {'M01': ('takes-one', 'forwards', 'moved', 'built-in-slot', 'passes-on', 'slot-back', 'not-lost', 'passed-to-caller', 'destroyed-once', 'told'),
        'M02': ('takes-one', 'runs-once', 'wake-first', 'destroyed-once', 'slot-back', 'not-lost', 'passed-to-caller')}


def upcasts():
    return {two: sub(Group('c', [Entry(f, [obj('m')])], {}).run(Check('c'), f, [])[0].value, obj('m')).u
            for two, f in (('', 'vf_up_msg'), ('2', 'vf_up_msg2'), ('3', 'vf_up_msg3'))}


def declare(chk, rs, least=1):
    for r in rs:
        chk.rule(r, TEXT[r], least)


def m01(chk, tier):
    declare(chk, MINE['M01'])
    g = queue_group()
    R, S, up = Rings(g, Check('r')), Slots(), upcasts()
    for fn in PUTS:
        g.run(chk, fn, [Flow(chk, R, S, fn, up)] + ([Forwarded(chk)] if fn == 'vf_q_emplace4' else []))
    from .pool import only
    only(chk, MINE['M01'])


def m02(chk, tier):
    declare(chk, MINE['M02'])
    g = queue_group()
    R, S = Rings(g, Check('r')), Slots()
    for fn in DISPATCH:
        g.run(chk, fn, [Flow(chk, R, S, fn)])
    from .pool import only
    only(chk, MINE['M02'])


# -- M14 -----------------------------------------------------------------------------------------------------------
def m14(chk, tier):
    """the order of messages: one first-in first-out buffer, one element per operation under its lock, every sender puts into it
    what it returns from having sent, every dispatcher invokes what it took before it takes more"""
    from .pool import only
    from . import ring, guarded
    mine = ('passes-on', 'takes-one', 'not-lost', 'runs-once')
    declare(chk, mine)
    chk.rules['passes-on'][1] = 'a sender that returns has put its message into the one buffer dispatchers take from; nobody else puts anything there'
    chk.rules['takes-one'][1] = 'a dispatcher takes one message, and no other before that one is done with'
    g = queue_group()
    R, S, up = Rings(g, Check('r')), Slots(), upcasts()

    for fn in PUTS:
        g.run(chk, fn, [Flow(chk, R, S, fn, up)])
    for fn in DISPATCH + ('vf_q_purge',):
        g.run(chk, fn, [Flow(chk, R, S, fn)])
    only(chk, mine)
    ring.r01(chk, tier, ('void',))
    guarded.g01(chk, tier, ('obj',))
    # what the queue's own ring buffers are made of is what was just looked at
    kinds = sorted({f.dem.split('::get(')[0] for f in module().fns.values() if re.match(G + r'get\(\)', f.dem)})
    chk.scans['ring buffers'] = kinds


# -- M03 -----------------------------------------------------------------------------------------------------------
def observed_flag(g, chk, fn, rule=None):
    """the field a query returns"""
    keys = set()

    class L:
        def init(s_, E, st):
            st.obs['ld'] = st.obs['at'] = ()

        def on_load(s_, E, st, base, off, size, value, atomic):
            if E.is_shared(base):
                if rule:
                    st.obs['at'] = st.obs['at'] + ((value, atomic is not None or bool(st.locks)),)
                st.obs['ld'] = st.obs['ld'] + ((E.fieldkey(base, off), value),)

        def on_rmw(s_, E, st, base, off, size, old, value, op):
            s_.on_load(E, st, base, off, size, old, E.order)
    for e in g.run(chk, fn, [L()]):
        if e.kind != 'return':
            raise Broken('%s does not return' % fn)
        src = [k for k, v in e.state.obs['ld'] if set(v.atoms()) & bases(e.value)]
        if not src:
            raise Broken('%s does not return a field' % fn)
        if rule:
            chk.verdict(all(a for v, a in e.state.obs['at'] if set(v.atoms()) & bases(e.value)), rule, entry=fn, where=[], path=[],
                        detail='%s reads what it returns neither atomically nor with a lock held' % fn[3:])
        keys |= set(src)
    if len(keys) != 1:
        raise Broken('%s returns %d fields' % (fn, len(keys)))
    return keys.pop()


def bases(v):
    """atoms a value is computed from"""
    out = set()

    def walk(a):
        if a in out:
            return
        out.add(a)
        for x in a.args if isinstance(a.args, tuple) else ():
            if isinstance(x, Atom):
                walk(x)
            elif isinstance(x, Poly):
                for y in x.atoms():
                    walk(y)
    for a in v.atoms():
        walk(a)
    return out


class Shutting:
    """what abort does"""

    def __init__(self, chk, R, flag):
        self.chk, self.R, self.flag = chk, R, flag

    def init(self, E, st):
        st.obs['shut'] = ()
        st.obs['flag'] = False

    def on_store(self, E, st, base, off, size, value, old, atomic):
        if E.is_shared(base) and E.fieldkey(base, off) == self.flag:
            self.flagged(E, st, value, atomic is not None)

    def on_rmw(self, E, st, base, off, size, old, value, op):
        if E.is_shared(base) and E.fieldkey(base, off) == self.flag:
            self.flagged(E, st, value, True)

    def flagged(self, E, st, value, at):
        self.chk.verdict(at or bool(st.locks), 'atomic', E, st, 'writes %s neither atomically nor with a lock held' % E.pretty(self.flag))
        self.chk.verdict(value.is_const() and value.u != 0, 'stays-aborted', E, st, 'writes %r to %s' % (value, E.pretty(self.flag)))
        st.obs['flag'] = True

    def on_ring(self, E, st, op, ring, value):
        if op == 'abort':
            k = ringkey(E, st, ring)
            self.chk.verdict(st.obs['flag'], 'flag-first', E, st, 'the ring buffer of %s is shut before the queue reports itself aborted' % self.name(k))
            st.obs['shut'] = st.obs['shut'] + (k,)

    def name(self, k):
        return 'free slots' if k == self.R.raw else 'messages' if k == self.R.cooked else str(k)

    def on_exit(self, E, st, e):
        self.chk.verdict(e.kind == 'return' and {self.R.raw, self.R.cooked} <= set(st.obs['shut']), 'both-shut', E, st, 'abort ends with %s, having shut %s' % (
            e.kind, [self.name(k) for k in st.obs['shut']]))


class Unchanged:
    """operations that leave a field alone"""

    def __init__(self, chk, rule, key, fn):
        self.chk, self.rule, self.key, self.fn = chk, rule, key, fn

    def on_store(self, E, st, base, off, **kw):
        if E.is_shared(base) and E.fieldkey(base, off) == self.key:
            self.chk.fail(self.rule, E, st, '%s writes %s' % (self.fn[3:], E.pretty(self.key)))

    on_cas = on_store
    on_rmw = on_store

    def on_exit(self, E, st, e):
        self.chk.ok(self.rule)


def m03(chk, tier):
    from .pool import only
    declare(chk, ('told', 'no-termination'), 5)
    chk.rule('both-shut', 'an abort shuts both ring buffers')
    chk.rule('flag-first', 'the queue reports itself aborted before a ring buffer is shut', 2)
    chk.rule('stays-aborted', 'nothing takes the abort back', 3)
    rs = tuple(chk.rules)
    g = queue_group()
    R, S, up = Rings(g, Check('r')), Slots(), upcasts()
    chk.rule('atomic', 'whether the queue is aborted is read and written atomically or with a lock held')
    rs += ('atomic',)
    flag = observed_flag(g, chk, 'vf_q_aborted', 'atomic')
    for fn in PUTS + DISPATCH + ('vf_q_purge',):
        g.run(chk, fn, [Flow(chk, R, S, fn, up), Unchanged(chk, 'stays-aborted', flag, fn)])
    g.run(chk, 'vf_q_abort', [Shutting(chk, R, flag)])
    for fn in ('vf_q_stats', 'vf_q_last', 'vf_q_elsize', 'vf_q_aborted', 'vf_adl_get'):
        g.run(chk, fn, [Unchanged(chk, 'stays-aborted', flag, fn), NoEnd(chk, fn)])
    only(chk, rs)


class NoEnd:
    def __init__(self, chk, fn):
        self.chk, self.fn = chk, fn

    def on_exit(self, E, st, e):
        self.chk.verdict(e.kind != 'terminate', 'no-termination', E, st, '%s terminates the process' % self.fn[3:])


# -- M04 -----------------------------------------------------------------------------------------------------------
class Ending:
    """destruction of a queue that may still hold messages"""

    def __init__(self, chk, S):
        self.chk, self.S = chk, S

    def init(self, E, st):
        st.obs['shut'] = ()
        st.obs['flushed'] = ()
        st.obs['left'] = None
        st.obs['heap'] = ()
        st.obs['rings'] = ()
        st.obs['slots'] = None

    def on_ring(self, E, st, op, ring, value):
        o, chk = st.obs, self.chk
        if op == 'new':
            o['rings'] = o['rings'] + (ring,)
        elif op == 'prime':
            o['slots'] = ring
        elif op == 'abort':
            o['shut'] = o['shut'] + (ring,)
        elif op == 'flush':
            chk.verdict(set(o['rings']) <= set(o['shut']), 'abort-first', E, st, 'flushes a queue that is not aborted')
            o['flushed'] = o['flushed'] + (ring,)
        elif op == 'flushed':
            o['left'] = value
        elif op == 'destroy':
            if ring is not o['slots']:
                chk.verdict(ring in o['flushed'], 'flushed', E, st, 'the ring buffer of messages goes away without being flushed')
            o['rings'] = tuple(r for r in o['rings'] if r is not ring)

    def on_callback(self, E, st, name, args, throws, fp=None, **kw):
        if fp is None:
            return
        what, m = self.S.decode(fp)
        o = st.obs
        good = what == 'destroy' and o['left'] is not None and m is o['left'].single() and eq(st, args[0], o['left'])
        self.chk.verdict(good, 'left-destroyed', E, st, 'a message left in the queue: %s of %r' % (what, m))
        if good:
            o['left'] = None

    def on_frame_exit(self, E, st, fn, exc, value, args, **kw):
        if 'std::function<void (void*)>::operator()' in fn.dem:
            self.chk.verdict(st.obs['left'] is None, 'left-destroyed', E, st, 'a message left in the queue is not destroyed')

    def on_alloc(self, E, st, obj, size, array, **kw):
        st.obs['heap'] = st.obs['heap'] + ((obj, array),)

    def on_free(self, E, st, base, off, array, **kw):
        o = st.obs
        mine = [h for h in o['heap'] if h[0] is base]
        self.chk.verdict(mine and mine[0][1] == array and off == 0, 'released', E, st, 'releases memory %s' % ('in another way than it was allocated' if mine else 'it does not own'))
        if o['left'] is not None:
            self.chk.fail('left-destroyed', E, st, 'releases memory before the messages in it are destroyed')
        o['heap'] = tuple(h for h in o['heap'] if h[0] is not base)

    def on_doublefree(self, E, st, base, **kw):
        self.chk.fail('released', E, st, 'releases memory twice')

    def on_useafterfree(self, E, st, **kw):
        self.chk.fail('released', E, st, 'uses memory it has released')

    def on_exit(self, E, st, e):
        o = st.obs
        if e.kind == 'return':
            self.chk.verdict(not o['heap'], 'released', E, st, 'the queue is destroyed, but %d allocations remain' % len(o['heap']))
            self.chk.verdict(not o['rings'], 'abort-first', E, st, 'ring buffers of the queue are not destroyed')
        else:
            self.chk.fail('abort-first', E, st, 'creating and destroying a queue ends with %s' % e.kind)


def m04(chk, tier):
    from .pool import only
    declare(chk, ('destroyed-once', 'not-lost', 'slot-back'), 5)
    chk.rule('abort-first', 'a queue is aborted before its messages and memory go', 1)
    chk.rule('flushed', 'the messages waiting are flushed when the queue goes', 1)
    chk.rule('left-destroyed', 'each message flushed is destroyed once, before the memory goes', 2)
    chk.rule('released', 'all memory is released, once and the way it was allocated', 3)
    rs = tuple(chk.rules)
    g = queue_group()
    R, S, up = Rings(g, Check('r')), Slots(), upcasts()
    for fn in PUTS + DISPATCH + ('vf_q_purge',):
        g.run(chk, fn, [Flow(chk, R, S, fn, up)] + ([Forwarded(chk)] if fn == 'vf_q_emplace4' else []))
    h = Group('life', [Entry('vf_q_life', [scalar('requested'), scalar('elementSize'), scalar('locking', 1, 0, 1)])], {}, {'contracts': OUTSIDE})
    for ws in ((0, 1 << 20),):
        def setup(E, st):
            if not st.facts.set_form(scalar('requested').t, 0, 1 << 20) or not st.facts.set_form(words.t, 0, 1 << 20):
                raise Infeasible()
        for r in (0, 5):
            h.run(chk, 'vf_q_life', [Ending(chk, S)], setup=setup, args=[scalar('requested'), elementsize(r), scalar('locking', 1, 0, 1)])
    only(chk, rs)


# -- queues built, with and without dispatch locking -----------------------------------------------------------------
def queues(g, new='vf_q_new', locking=None, r=0):
    """(snapshot, state, engine) of queues constructed"""
    args = [scalar('requested'), elementsize(r)]
    if locking is not None:
        args.append(const(locking, 1))

    def setup(E, st):
        if not st.facts.set_form(scalar('requested').t, 1, 1 << 20) or not st.facts.set_form(words.t, 8, 1 << 20):
            raise Infeasible()
    out = []
    for snap, st, ex, E in constructed(g, new, args, setup):
        if snap is None:
            raise Broken('construction of a queue fails')
        out.append((snap, st, E))
    return out


def applied(snap):
    def apply(E, st):
        snap.apply(E, st)
    return apply


# -- M05 -----------------------------------------------------------------------------------------------------------
class Guarding:
    """locks held while messages run"""

    def __init__(self, chk, R, S, fn, enabled, seen):
        self.chk, self.R, self.S, self.fn, self.enabled, self.seen = chk, R, S, fn, enabled, seen

    def on_ringwait(self, E, st, ring):
        self.chk.verdict(not st.locks, 'only-dispatch', E, st, '%s waits for a message holding %s' % (self.fn[3:], self.names(E, st)))

    def names(self, E, st):
        return ', '.join(E.pretty(E.fieldkey(*h)) for h in st.locks)

    def on_lock(self, E, st, m):
        if not self.enabled:
            self.chk.fail('disabled', E, st, '%s takes a lock although dispatch locking is disabled' % self.fn[3:])

    def on_callback(self, E, st, name, args, throws, fp=None, **kw):
        if fp is None:
            return
        what, m = self.S.decode(fp)
        if what == 'dispatch':
            held = frozenset(E.fieldkey(*h) for h in st.locks)
            if self.enabled:
                self.chk.verdict(held, 'held', E, st, '%s: the message is invoked without the dispatch lock' % self.fn[3:])
                self.seen.append((held, E, st.copy(), E.where(st), self.fn))
            else:
                self.chk.verdict(not held, 'disabled', E, st, '%s: the message is invoked holding %s' % (self.fn[3:], self.names(E, st)))
        elif what == 'call':
            self.chk.verdict(not st.locks, 'only-dispatch', E, st, '%s runs the wake-up callback holding %s' % (self.fn[3:], self.names(E, st)))

    def on_unlock_not_held(self, E, st, m):
        self.chk.fail('released', E, st, '%s unlocks what it does not hold' % self.fn[3:])

    def on_relock(self, E, st, m):
        self.chk.fail('released', E, st, '%s locks what it already holds' % self.fn[3:])

    def on_exit(self, E, st, e):
        if 'adl' not in self.fn:
            self.chk.verdict(not st.locks, 'released', E, st, '%s ends (%s %s) holding %s' % (self.fn[3:], e.kind, exc_name(E, e) or '', self.names(E, st)))
        elif self.enabled:
            if e.kind == 'return':
                held = frozenset(E.fieldkey(*h) for h in st.locks)
                self.chk.verdict(held, 'held', E, st, 'an auto dispatch lock is returned without the dispatch lock')
                self.seen.append((held, E, st.copy(), [], self.fn))
            else:
                self.chk.fail('given', E, st, 'asking for an auto dispatch lock ends with %s %s although dispatch locking is enabled' % (e.kind, exc_name(E, e)))
        else:
            self.chk.verdict(e.kind == 'throw' and is_a(E.M, e.exc[0], 'MessageQueueDispatchLockingDisabled'), 'refused', E, st,
                             'asking for an auto dispatch lock ends with %s %s although dispatch locking is disabled' % (e.kind, exc_name(E, e) or ''))
        if 'adl' in self.fn and self.enabled and e.kind == 'return':
            self.chk.ok('given')


def m05(chk, tier):
    chk.rule('held', 'a message runs only while its thread holds the dispatch lock', 2)
    chk.rule('same', 'dispatching and auto dispatch locks use one and the same lock', 2)
    chk.rule('released', 'no way out of a dispatch keeps the lock', 4)
    chk.rule('only-dispatch', 'neither waiting nor the wake-up callback holds the lock', 3)
    chk.rule('disabled', 'no lock is used when dispatch locking is disabled', 2)
    chk.rule('refused', 'no auto dispatch lock without dispatch locking', 2)
    chk.rule('given', 'an auto dispatch lock with dispatch locking', 1)
    g = queue_group(OUTSIDE)
    R, S = Rings(g, Check('r')), Slots()
    for new, l, on in (('vf_q_new', 1, True), ('vf_q_new', 0, False), ('vf_q_new2', None, False)):
        for snap, st, E in queues(g, new, l):
            seen = []
            for fn in DISPATCH + ('vf_adl_get',):
                g.run(chk, fn, [Guarding(chk, R, S, fn, on, seen)], setup=applied(snap))
            if on:
                one = frozenset.intersection(*[h for h, *_ in seen]) if seen else frozenset()
                for held, E_, st_, w, fn in seen:
                    chk.verdict(one, 'same', E_, st_, '%s holds %s, others another lock' % (fn[3:], sorted(map(str, held))), where=w)


# -- M06 -----------------------------------------------------------------------------------------------------------
OPS = {0: 'lock a', 1: 'unlock a', 2: 'lock b', 3: 'unlock b', 4: 'a = move(b)', 5: 'b = move(a)', 6: 'c{move(a)}, a = move(c)', 7: 'c{move(b)}', 8: 'swap', 9: 'get again into a',
       10: 'end', 13: 'a = move(a)'}


class Owning:
    """any sequence of operations on two auto dispatch locks of two queues against who should own what"""

    def __init__(self, chk):
        self.chk = chk
        self.seen = set()

    def init(self, E, st):
        st.obs['own'] = ('-', '-')        # lock owned by a, b
        st.obs['of'] = ('-', '-')         # queue they belong to
        st.obs['op'] = 'none'

    def expect(self, st):
        return sorted(x for x in st.obs['own'] if x != '-')

    def holds(self, E, st):
        return sorted(E.fieldkey(*h)[0] for h in st.locks)

    def on_callback(self, E, st, name, args, throws, **kw):
        if name != 'vfu::step':
            return
        o = st.obs
        if args[0].u == 11:
            o['own'], o['of'], o['op'] = ('q', '-'), ('q', '-'), 'creation'
        elif args[0].u == 12:
            o['own'], o['of'], o['op'] = ('q', 'r'), ('q', 'r'), 'creation'
        self.chk.verdict(self.holds(E, st) == self.expect(st), 'owned', E, st, 'after %s the locks held are those of %s, owned should be those of %s' % (
            o['op'], self.holds(E, st) or 'none', self.expect(st) or 'none'))
        if self.holds(E, st) != self.expect(st):
            raise Infeasible()
        k = args[0].u
        self.seen.add(k)
        (a, b), (qa, qb) = o['own'], o['of']
        if k in (0, 2):
            q = (qa, qb)[k // 2]
            if q != '-' and q in (a, b):
                raise Infeasible()            # a thread locking what it holds deadlocks
            if q != '-':
                a, b = (q, b) if k == 0 else (a, q)
        elif k == 1:
            a = '-'
        elif k == 3:
            b = '-'
        elif k == 4:
            a, qa, b, qb = b, qb, '-', '-'
        elif k == 5:
            b, qb, a, qa = a, qa, '-', '-'
        elif k == 7:
            b, qb = '-', '-'
        elif k == 8:
            a, b, qa, qb = b, a, qb, qa
        elif k == 9:
            if 'q' in (a, b):
                raise Infeasible()
            a, qa = 'q', 'q'
        elif k == 10:
            a, b, qa, qb = '-', '-', '-', '-'
        o['own'], o['of'] = (a, b), (qa, qb)
        o['op'] = OPS.get(k, o['op'])

    def on_unlock_not_held(self, E, st, m):
        self.chk.fail('once', E, st, 'unlocks a lock it does not hold, in %s' % st.obs['op'])

    def on_relock(self, E, st, m):
        self.chk.fail('once', E, st, 'locks a lock it already holds, in %s' % st.obs['op'])

    def on_unlock(self, E, st, m):
        self.chk.ok('once')

    def on_exit(self, E, st, e):
        if e.kind == 'return':
            self.chk.verdict(not st.locks, 'released', E, st, 'destroyed auto dispatch locks leave %s locked' % self.holds(E, st))
        elif e.kind == 'terminate':
            self.chk.fail('released', E, st, 'terminates')
        else:
            self.chk.verdict(not st.locks, 'released', E, st, 'an exception leaves %s locked' % self.holds(E, st))


def m06(chk, tier):
    chk.rule('owned', 'after each operation exactly the locks that should be owned are held', 50)
    chk.rule('once', 'a lock is released once, by its owner', 20)
    chk.rule('released', 'destruction releases what is still owned', 2)
    g = Group('adl', [Entry('vf_adl_any', [obj('q'), obj('r')])], {'q': CORE + 'MessageQueue', 'r': CORE + 'MessageQueue'}, {'contracts': OUTSIDE, 'finite': True})
    o = Owning(chk)
    g.run(chk, 'vf_adl_any', [o])
    if not chk.viol and not o.seen >= set(OPS):
        raise Broken('operations never reached: %s' % sorted(set(OPS) - o.seen))


# -- M08 -----------------------------------------------------------------------------------------------------------
class Counts:
    """updates of the queue's statistics by one operation"""

    def __init__(self, chk, S, R, fn):
        self.chk, self.S, self.R, self.fn = chk, S, R, fn

    def init(self, E, st):
        st.obs['took'] = 0        # slots taken, not yet counted
        st.obs['gave'] = 0        # slots uncounted, not yet given back
        st.obs['slotless'] = False

    def mine(self, E, base, off):
        return E.is_shared(base) and E.fieldkey(base, off) == self.S.key

    def on_store(self, E, st, base, off, **kw):
        if self.mine(E, base, off):
            self.chk.fail('no-lost-update', E, st, '%s writes the statistics other than by an atomic read-modify-write' % self.fn[3:])

    def on_cas(self, E, st, base, off, size, expected, value):
        if self.mine(E, base, off):
            self.chk.ok('no-lost-update')
            self.update(E, st, expected, value)

    def on_rmw(self, E, st, base, off, size, old, value, op):
        if self.mine(E, base, off):
            self.chk.ok('no-lost-update')
            self.update(E, st, old, value)

    def update(self, E, st, old, new):
        S, chk, o = self.S, self.chk, st.obs
        r0, r1 = S.part(E, st, old, 'count'), S.part(E, st, new, 'count')
        m0, m1 = S.part(E, st, old, 'mark'), S.part(E, st, new, 'mark')
        d = sub(r1, r0)
        step = d.c if d.is_const() else None
        if step == (1 << 32) - 1:
            step = -1
        if not chk.verdict(step in (1, -1), 'steps', E, st, '%s changes the count by %r' % (self.fn[3:], d)):
            return
        if step == 1:
            chk.verdict(o['took'] == 1, 'order', E, st, '%s counts a slot it has not taken' % self.fn[3:])
            o['took'] -= 1
            good = m1 is r1 and known(st, 'uge', r1, m0) or m1 is m0 and known(st, 'uge', m0, r1)
        else:
            o['gave'] += 1
            good = m1 is m0
        chk.verdict(good, 'watermark', E, st, '%s: count %r to %r, watermark %r to %r' % (self.fn[3:], r0, r1, m0, m1))

    def on_ring(self, E, st, op, ring, value):
        if ringkey(E, st, ring) != self.R.raw:
            return
        o = st.obs
        if op == 'get':
            o['took'] += 1
        elif op in ('put', 'refused'):
            self.chk.verdict(o['gave'] == 1, 'order', E, st, '%s lets others take the slot before it is uncounted' % self.fn[3:])
            o['gave'] = 0

    def on_exit(self, E, st, e):
        o = st.obs
        self.chk.verdict(o['took'] == 0 and o['gave'] == 0, 'once', E, st, '%s (%s): %d slots taken but not counted, %d uncounted but not given back' % (
            self.fn[3:], e.kind, o['took'], o['gave']))


def queue_stats(g, chk):
    return Stats(g, chk, 'vf_q_stats', {'count': number('vf_sz_qstats_running'), 'mark': number('vf_sz_qstats_high'), 'size': number('vf_sz_qstats_size')})


def m08(chk, tier):
    chk.rule('snapshot', 'count and watermark are reported from one atomic read', 1)
    chk.rule('size', 'the size reported is the number of slots asked for', 1)
    chk.rule('starts', 'count and watermark start at zero', 1)
    chk.rule('no-lost-update', 'the statistics only change by atomic read-modify-write', 5)
    chk.rule('steps', 'the count moves by one', 5)
    chk.rule('watermark', 'the watermark follows the count up and never moves otherwise', 5)
    chk.rule('order', 'a slot is counted after it is taken and uncounted before it is given back', 5)
    chk.rule('once', 'one update for each slot moved, none otherwise', 10)
    g = queue_group(OUTSIDE)
    g.infer()
    R = Rings(g, Check('r'))
    S = queue_stats(g, chk)
    if not S.ok:
        return
    for fn in g.entries:
        if not g.entries[fn].opts.get('construct'):
            g.run(chk, fn, [Counts(chk, S, R, fn)])
    for l in (0, 1):
        for snap, st, E in queues(g, 'vf_q_new', l):
            v = snap.at(*S.key[1:])
            good = v is not None and eq(st, S.part(E, st, v, 'count'), 0) and eq(st, S.part(E, st, v, 'mark'), 0)
            chk.verdict(good, 'starts', entry='vf_q_new', where=[], path=[], detail='initial statistics %r' % v)
            for e in g.run(chk, 'vf_q_stats', [], setup=applied(snap)):
                z = E.load_at(e.state, obj('out').single(), number('vf_sz_qstats_size'), 8, 64, False)
                chk.verdict(eq(e.state, z, scalar('requested')), 'size', entry='vf_q_stats', where=[], path=[], detail='reports %r' % z)


# -- M09 -----------------------------------------------------------------------------------------------------------
class Laying:
    """the slots a queue's constructor puts into the ring buffer of free slots"""

    def __init__(self, chk, steps=None):
        self.chk = chk
        self.steps = steps or {}

    def init(self, E, st):
        st.obs['pring'] = None

    def on_ring(self, E, st, op, ring, value):
        if op == 'prime':
            st.obs['pring'] = ring
            # a supplier that counts by itself is looked at in the state it has reached before any index
            for (r, off), d in self.steps.items():
                sz, v = st.mem[self.which(st, r)][off]
                st.region(self.which(st, r), True)[off] = (sz, add(v, mul(d, value)))
            st.obs['~primed'] = tuple((r, tuple(m.items())) for r, m in st.mem.items())
        elif op in ('put', 'refused', 'get'):
            self.chk.fail('slots', E, st, 'construction moves elements other than by priming')

    @staticmethod
    def which(st, label):
        return next(r for r in st.mem if repr(r) == label[0] and label[1] == [x for x in st.mem if repr(x) == label[0]].index(r))

    def on_frame_exit(self, E, st, fn, exc, value, args, **kw):
        if 'std::function<void* (unsigned long)>::operator()' in fn.dem:
            st.obs['slot'] = value
            now = {}
            names = {}
            for r, m in st.obs['~primed']:
                n = names[repr(r)] = names.get(repr(r), -1) + 1
                for off, e in m:
                    c = st.mem.get(r, {}).get(off)
                    if c is not None and isinstance(off, int) and isinstance(e[1], Poly) and isinstance(c[1], Poly) and c[1] is not e[1] and c[1].w == e[1].w == 64:
                        now[((repr(r), n), off)] = sub(c[1], e[1])
            st.obs['~steps'] = now


def m09(chk, tier):
    chk.rule('slots', 'the ring buffer of free slots is given as many slots as asked for', 8)
    chk.rule('apart', 'slots are a slot size apart', 8)
    chk.rule('inside', 'all slots lie within the memory allocated', 8)
    chk.rule('aligned', 'slots are aligned for a pointer', 8)
    chk.rule('large-enough', 'a slot is at least as large as the message size asked for', 8)
    chk.rule('clears-own', 'clearing a slot writes inside that slot only', 8)
    chk.rule('room', 'the ring buffer of messages has room for a message in every slot', 8)
    from .pool import Clearing
    g = queue_group(OUTSIDE)
    g.infer()
    n = scalar('requested')
    for r in range(8):
        for l in (0, 1):
            what = 'message size 8 * words + %d' % r
            out = []

            class Keep:
                def on_exit(s_, E, st, e):
                    out.append((E, st.copy(), e))

            def setup(E_, st):
                if not st.facts.set_form(n.t, 1, 1 << 20) or not st.facts.set_form(words.t, 0 if r else 1, 1 << 22):
                    raise Infeasible()
            E = g.engine([Laying(Check('l')), Keep()], {'construct': True})
            E.run('vf_q_new', [n, elementsize(r), const(l, 1)], setup)
            steps = next((x for x in (st.obs.get('~steps') for E, st, e in out) if x), None)
            out.clear()
            E = g.engine([Laying(chk, steps), Keep()], {'construct': True})
            E.run('vf_q_new', [n, elementsize(r), const(l, 1)], setup)
            chk.functions |= E.stats['functions']
            for E, st, e in out:
                kw = {'entry': 'vf_q_new', 'where': [], 'path': E.path(st)}
                if e.kind != 'return':
                    chk.fail('slots', detail='%s: construction ends with %s' % (what, e.kind), **kw)
                    continue
                snap = Snap(E, st, e.value.single())
                rings = [(k, v) for k, v in st.obs.items() if isinstance(k, str) and k.startswith('~ring')]
                pr = st.obs.get('pring')
                if pr is None:
                    chk.fail('slots', detail=what + ': the ring buffer of free slots is not primed', **kw)
                    continue
                raws = [v for k, v in rings if k == '~ring' + repr(pr)]
                others = [v for k, v in rings if k != '~ring' + repr(pr)]
                chk.verdict(len(raws) == 1 and eq(st, raws[0], n), 'slots', detail='%s: ring buffer of free slots made for %r' % (what, raws), **kw)
                chk.verdict(others and all(le(st, n, v) for v in others), 'room', detail='%s: ring buffer of messages made for %r' % (what, others), **kw)
                slot = st.obs.get('slot')
                es, _ = value_of(g, snap, 'vf_q_elsize', chk)
                if slot is None or es is None:
                    continue
                i = scalar('index')
                chk.verdict((st.obs.get('~steps') or None) == steps, 'apart', detail='%s: the supplier of slots changes from call to call' % what, **kw)
                d = sub(shift(slot, i), slot)
                base, off = E.split(st, slot)
                info = E.heapinfo.get(base)
                up = eq(st, d, es)
                down = eq(st, sub(const(0, 64), d), es)
                chk.verdict(up or down, 'apart', detail='%s: slots are %r apart, slot size %r' % (what, d, es), **kw)
                chk.verdict(le(st, elementsize(r), es), 'large-enough', detail='%s: slot size %r' % (what, es), **kw)
                o = const(off, 64) if isinstance(off, int) else off
                first = at_index(o, i, const(0, 64))
                last = at_index(o, i, sub(n, const(1, 64)))
                low = first if up else last
                ok = info is not None and low.is_const() and low.c >= 0 and le(st, add(add(low, mul(es, n)), const(0, 64)), info.size) and sub(info.size, add(low, mul(es, n))).is_const()
                chk.verdict(ok, 'inside', detail='%s: slots from %r to %r + %r in an allocation of %r' % (what, first, last, es, info.size if info else None), **kw)
                al = [E.lowbits(st, x, 3, 64) for x in (low, es)]
                chk.verdict(all(x.is_const() and x.u == 0 for x in al), 'aligned', detail='%s: first slot at %r, slot size %r' % (what, low, es), **kw)
                for fn in PUTS:
                    g.run(chk, fn, [Clearing(chk, es, None, what)], setup=applied(snap))


def at_index(v, i, x):
    """value of an expression with another index"""
    a = i.single()
    out = const(v.c, v.w)
    for mono, k in v.t:
        q = const(k, v.w)
        for m in mono:
            q = mul(q, x if m is a else pa(m))
        out = add(out, q)
    return out


def shift(v, i):
    return at_index(v, i, add(i, const(1, 64)))


# -- M10 -----------------------------------------------------------------------------------------------------------
class Purging(Ghosts):
    ghosts = ('taken',)

    def __init__(self, chk, R, S, T):
        self.chk, self.R, self.S, self.T = chk, R, S, T

    def init(self, E, st):
        Ghosts.init(self, E, st)
        st.obs['counted'] = None
        st.obs['ab'] = False

    def on_load(self, E, st, base, off, size, value, atomic):
        if E.is_shared(base) and E.fieldkey(base, off) == self.T.key and st.obs['counted'] is None:
            st.obs['counted'] = E.zext(st, self.T.part(E, st, value, 'count'), 64)

    def on_ringwait(self, E, st, ring):
        if ringkey(E, st, ring) != self.R.cooked:
            return
        c = st.obs['counted']
        self.chk.verdict(c is not None and le(st, add(self.ghost(st, 'taken'), const(1, 64)), c), 'no-wait', E, st,
                         'waits for message %r when %r were counted' % (self.ghost(st, 'taken'), c))

    def on_ring(self, E, st, op, ring, value):
        if ringkey(E, st, ring) == self.R.cooked:
            if op == 'get':
                self.bump(st, 'taken')
            elif op == 'aborted':
                st.obs['ab'] = True

    def on_lock_request(self, E, st, m):
        self.chk.fail('no-lock', E, st, 'purging takes %s' % E.pretty(m if isinstance(m, tuple) and not isinstance(m[0], Atom) else E.fieldkey(*m)))

    def on_callback(self, E, st, name, args, throws, fp=None, **kw):
        what, m = self.S.decode(fp) if fp is not None else (name, None)
        if what != 'destroy':
            self.chk.fail('no-dispatch', E, st, 'purging calls %s' % what)

    def on_exit(self, E, st, e):
        self.chk.ok('no-lock')
        self.chk.ok('no-dispatch')
        if e.kind == 'return':
            c = st.obs['counted']
            self.chk.verdict(c is not None and eq(st, self.ghost(st, 'taken'), c), 'all', E, st, 'returns having taken %r of %r messages' % (self.ghost(st, 'taken'), c))
        else:
            self.chk.verdict(st.obs['ab'], 'all', E, st, 'ends with %s %s although nothing was aborted' % (e.kind, exc_name(E, e)))


def m10(chk, tier):
    from .pool import only
    declare(chk, ('takes-one', 'destroyed-once', 'slot-back', 'not-lost'))
    chk.rule('all', 'a purge takes as many messages as were counted', 1)
    chk.rule('no-wait', 'a purge waits only for messages counted', 1)
    chk.rule('no-lock', 'a purge takes no lock', 1)
    chk.rule('no-dispatch', 'a purge invokes nothing but destructors', 1)
    rs = tuple(chk.rules)
    g = queue_group(OUTSIDE)
    g.infer()
    R, S = Rings(g, Check('r')), Slots()
    T = queue_stats(g, Check('s'))
    if not T.ok:
        raise Broken('statistics are not one atomic field')
    g.run(chk, 'vf_q_purge', [Flow(chk, R, S, 'vf_q_purge'), Purging(chk, R, S, T)])
    only(chk, rs)


# -- M11 -----------------------------------------------------------------------------------------------------------
class Naming:
    def __init__(self, chk, S, key, fn):
        self.chk, self.S, self.key, self.fn = chk, S, key, fn

    def init(self, E, st):
        st.obs['asked'] = None
        st.obs['name'] = None
        st.obs['stored'] = None
        st.obs['ran'] = False
        st.obs['fence'] = False

    def on_callback(self, E, st, name, args, throws, fp=None, **kw):
        what, m = self.S.decode(fp) if fp is not None else (None, None)
        o = st.obs
        if what == 'name' and not throws:
            o['asked'] = m
        elif what == 'dispatch':
            self.chk.verdict(o['stored'] is not None and o['stored'] is m, 'before', E, st, '%s: the message is invoked before its name is stored' % self.fn[3:])
            o['ran'] = True

    def on_callback_ret(self, E, st, name, value, **kw):
        if st.obs['asked'] is not None and st.obs['name'] is None:
            st.obs['name'] = value

    def on_store(self, E, st, base, off, size, value, old, atomic):
        if not E.is_shared(base) or E.fieldkey(base, off) != self.key:
            return
        o = st.obs
        good = atomic is not None and o['name'] is not None and eq(st, value, o['name'])
        self.chk.verdict(good and not o['ran'], 'own-name', E, st, '%s stores %r%s as the name%s; the name of the message is %r' % (
            self.fn[3:], value, '' if atomic is not None else ' (not atomically)', ' after invoking the message' if o['ran'] else '', o['name']))
        o['stored'] = o['asked'] if good else None
        if atomic is not None:
            self.chk.verdict(atomic in RELEASES or o['fence'], 'published', E, st, '%s stores the name without release order' % self.fn[3:])

    def on_fence(self, E, st, order):
        st.obs['fence'] = st.obs['fence'] or order in RELEASES

    def on_rmw(self, E, st, base, off, size, old, value, op):
        self.on_store(E, st, base, off, size, value, old, E.order)

    def on_cas(self, E, st, base, off, size, expected, value):
        self.on_store(E, st, base, off, size, value, expected, E.order)


class Reading:
    def __init__(self, chk, key):
        self.chk, self.key = chk, key

    def init(self, E, st):
        st.obs['ld'] = None
        st.obs['acq'] = False

    def on_load(self, E, st, base, off, size, value, atomic):
        if E.is_shared(base) and E.fieldkey(base, off) == self.key and atomic is not None:
            st.obs['ld'] = value
            st.obs['acq'] = atomic in ACQUIRES

    def on_rmw(self, E, st, base, off, size, old, value, op):
        self.on_load(E, st, base, off, size, old, E.order)

    def on_fence(self, E, st, order):
        st.obs['acq'] = st.obs['acq'] or st.obs['ld'] is not None and order in ACQUIRES

    def on_lock_request(self, E, st, m):
        self.chk.fail('lock-free', E, st, 'reading the name takes a lock')

    def on_ringwait(self, E, st, ring):
        self.chk.fail('lock-free', E, st, 'reading the name waits')

    def on_exit(self, E, st, e):
        self.chk.verdict(e.kind == 'return' and st.obs['ld'] is not None and eq(st, e.value, st.obs['ld']), 'lock-free', E, st, 'the name reported is not the one stored')
        if st.obs['ld'] is not None:
            self.chk.verdict(st.obs['acq'], 'published', E, st, 'the name is read without acquire order')


def m11(chk, tier):
    chk.rule('before', 'a message is invoked only once its name is stored', 2)
    chk.rule('own-name', 'what is stored is the name of the message about to be invoked, atomically', 2)
    chk.rule('only-dispatch', 'nothing but dispatching changes the name', 5)
    chk.rule('lock-free', 'the name is read atomically and without a lock', 1)
    chk.rule('published', 'what the name refers to is published with it', 3)
    chk.rule('placeholder', 'a queue starts with a constant string as the name', 2)
    g = queue_group(OUTSIDE)
    g.infer()
    S = Slots()
    key = observed_flag(g, chk, 'vf_q_last')
    for fn in DISPATCH:
        g.run(chk, fn, [Naming(chk, S, key, fn)])
    g.run(chk, 'vf_q_last', [Reading(chk, key)])
    for fn in PUTS + ('vf_q_purge', 'vf_q_abort', 'vf_q_stats', 'vf_q_last', 'vf_q_elsize', 'vf_q_aborted', 'vf_adl_get'):
        g.run(chk, fn, [Unchanged(chk, 'only-dispatch', key, fn)])
    for l in (0, 1):
        for snap, st, E in queues(g, 'vf_q_new', l):
            v = snap.at(*key[1:])
            s = v.single() if v is not None else None
            chk.verdict(s is not None and s.kind == 'global' and E.M.globals.get(s.label, {}).get('const'), 'placeholder', entry='vf_q_new', where=[], path=[], detail='the name starts as %r' % v)


CHECKS = {'M01': m01, 'M14': m14, 'M02': m02, 'M03': m03, 'M04': m04, 'M05': m05, 'M06': m06, 'M08': m08, 'M09': m09, 'M10': m10, 'M11': m11}
