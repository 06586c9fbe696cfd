#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that wording stays reviewable)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


SEM = ['src/Semaphore.cpp', 'src/Semaphore.hpp', 'src/Mutex.cpp']
RS = ['src/RingBufferSimple.hpp']
RG = ['src/RingBufferGuarded.hpp', 'src/RingBufferSimple.hpp', 'src/Semaphore.cpp']
MP = ['src/MemoryPoolBase.cpp', 'src/MemoryPoolBase.hpp']
OP = MP + ['src/ObjectPool.hpp', 'src/ObjectPoolDeleter.hpp', 'src/BlockPool.hpp', 'src/BlockPoolDeleter.hpp', 'src/MemoryPoolDeleterBase.cpp']
MQ = ['src/MessageQueueBase.cpp', 'src/MessageQueueBase.hpp', 'src/MessageQueue.hpp']
SAMPLE = 'The tests run a few thread schedules on a handful of argument values; '

p('S01', 'Semaphore operations exclude one another and always let go',
  'At most one thread at a time is inside the body of a semaphore operation, which includes every read and update of the semaphore state and the user functors passed to take and give. '
  'Every operation gives up the exclusion on every way out, be it a return or an exception of any origin, and never asks for it twice. '
  'A thread that blocks gives it up while blocked.',
  ['schedules', 'fault_sequences'], 'every interleaving of any number of threads in take, give, abort, getAvailableCount; every point where a functor throws',
  SAMPLE + 'a missing lock on one path or a leak on one exceptional path needs an unlucky schedule or a throwing functor to show.', SEM,
  [('scoped lock in each operation', 'Semaphore::Imple::take/give/abort/getAvailableCount'), ('wait with the same mutex', 'Semaphore::Imple::_takeWait/_giveWait')],
  [('availableCount', 'units available', 'Semaphore::Imple'), ('abortFlag', 'aborted', 'Semaphore::Imple'), ('takePendingCount/givePendingCount', 'waiting threads', 'Semaphore::Imple')])
p('S02', 'Semaphore count is conserved and stays within its bounds',
  'Each take that returns lowers the available count by exactly one, each give that returns raises it by exactly one, and an operation that ends with an exception leaves it as it was. '
  'The count never goes below zero nor above the maximum set at construction.',
  ['schedules', 'histories', 'fault_sequences'], 'every history of takes, gives and aborts by any threads; functors that throw at any call',
  SAMPLE + 'conservation must hold after any history, and the failing functor paths are never run concurrently.', SEM,
  [('decrement guarded by a positive count, put back when the functor throws', 'Semaphore::Imple::_takeWait, AvailableCountManager'), ('increment guarded by the maximum', 'Semaphore::Imple::_giveWait/_give')])
p('S03', 'No lost wake-up in the semaphore',
  'A thread blocked in take is woken when the count becomes positive and a thread blocked in give is woken when the count drops below the maximum, whoever made the change. '
  'A woken thread re-evaluates its condition, and one that leaves without using what it was woken for passes the wake-up on. '
  'Threads go to sleep only while there is nothing for them to do.',
  ['schedules', 'histories'], 'every interleaving of takers and givers, any number waiting on either side, spurious wake-ups, functors that throw',
  SAMPLE + 'a missing signal shows only when another thread happens to be asleep at that moment.', SEM,
  [('signal after each change', 'Semaphore::Imple::_takeNotify/_giveNotify'), ('wait in a loop', 'Semaphore::Imple::_takeWait/_giveWait')])
p('S04', 'Abort of a semaphore is final and reaches every thread',
  'Once aborted, a semaphore stays aborted: no operation changes the count or runs a user functor any more, and each take or give that meets the abort, blocked or arriving later, ends with SemaphoreAborted. '
  'Abort and destruction wake every blocked thread. SemaphoreAborted is reported only when an abort happened.',
  ['schedules', 'histories'], 'an abort at any point of any history, with any number of threads blocked on either side',
  SAMPLE + 'an abort is issued at a few fixed points of a few schedules.', SEM,
  [('abort flag tested after every (re)acquisition', 'Semaphore::Imple::_takeWait/_giveWait/_give'), ('broadcasts', 'Semaphore::Imple::abort')])
p('S05', 'Semaphore construction honours its limits for every argument',
  'A new semaphore has the requested initial count limited to 32 bits, and its maximum is the requested one, never below the initial count, limited to 32 bits, with zero meaning the largest possible. '
  'It is neither aborted nor has it waiters, and everything its operations block on is initialised.',
  ['inputs', 'configurations'], 'all pairs of 64 bit constructor arguments', 'the tests try a few small values; truncation shows only above 2^32.', SEM,
  [('clamping', 'Semaphore::Imple constructor')])
p('S06', 'Functors of the semaphore run once, or not at all and with a reason',
  'A take or give that returns has run the functor it was given exactly once, and did so only when it was sure to succeed: with something to take or room to give, after any blocking. '
  'An exception of the functor reaches the caller as it is. Otherwise the functor does not run and the caller is told why: SemaphoreAborted, '
  'or SemaphoreOverflow for a give at the absolute limit of the count (2^32-1), which never blocks there and is reported only there.',
  ['schedules', 'histories', 'fault_sequences'], 'every history and interleaving before the operation, any count, functors that throw anything',
  SAMPLE + 'a functor that runs twice, too early, or whose exception is replaced shows only in certain states of the count, and 2^32 gives are out of reach.', SEM,
  [('functor called between reserving and notifying', 'Semaphore::Imple::take/give (with operation)'), ('absolute limit', 'Semaphore::Imple::_giveWait')])
p('R01', 'Simple ring buffer is an exact bounded FIFO',
  'Elements come out of a simple ring buffer in the order they were put in, each exactly once and unchanged, over any history, wrap-around of internal counters included. '
  'A get on an empty buffer throws RingBufferUnderflow and a put on a full one throws RingBufferOverflow, and a throwing operation changes nothing.',
  ['histories', 'inputs'], 'every history of gets and puts (more than 2^32 operations included), every capacity and element type',
  'the tests fill and drain a few times; counters that wrap after 2^32 operations and large capacities are out of reach.', RS,
  [('counter pair and mask', 'RingBufferSimpleImple::get/put')],
  [('getCount/putCount', 'operations so far, modulo 2^32', 'RingBufferSimpleImple'), ('pElementBuf', 'storage', 'RingBufferSimpleImple')])
p('R02', 'Ring buffer capacity follows the request for every request',
  'The capacity is the smallest power of two that is at least the requested number of elements, but no less than 2 and no more than 2^20, and the reported mask and number of bits agree with it. '
  'The storage holds that many elements and a new buffer is empty.',
  ['inputs', 'configurations'], 'all requested sizes, 64 bit values included', 'the tests construct a handful of sizes.', RS,
  [('bit count derivation', 'RingBufferSimpleImple constructor')])
p('G01', 'Guarded ring buffer moves exactly one element per operation, exclusively',
  'While a guarded ring buffer is in operation, threads access its elements one at a time. '
  'Each get or put that succeeds moves exactly one element and one unit of the count, each one that throws moves neither, so the number of elements present always equals the count on which threads block. '
  'A get never meets an empty buffer and a put never meets a full one.',
  ['schedules', 'histories', 'fault_sequences'], 'any number of producers and consumers, every interleaving, aborts at any point, every capacity and requested size',
  SAMPLE + 'the step-lock of two counters cannot be established by sampling.', RG,
  [('element transfer inside the semaphore lock', 'RingBufferGuardedBase::get/put functors')])
p('G02', 'Guarded ring buffer life cycle is one way and enforced',
  'A guarded ring buffer goes from needing priming to ready, and from either to aborted, never back; abort is final even when it races with priming. '
  'Operations out of order are refused with RingBufferStateError before having any effect: get unless ready, prime unless priming is needed, flush unless aborted, put while priming is needed. '
  'A put after abort is refused without effect and says so, and abort wakes every blocked thread.',
  ['schedules', 'histories'], 'every order and interleaving of prime, get, put, abort and flush', SAMPLE + 'the race between prime and abort needs one specific interleaving.', RG,
  [('state tests and compare-exchange', 'RingBufferGuardedBase::get/put/prime/flush/abort')], [('state', 'life cycle state', 'RingBufferGuardedBase')])
p('G03', 'Guarded ring buffer admits what was requested and then blocks',
  'A guarded ring buffer accepts as many elements as were requested at construction, limited by its capacity, or its capacity if zero was requested, and then blocks producers instead of overflowing or losing elements. '
  'Priming calls the supplier once per element with indices 0, 1, 2, ... up to the requested number and stores what it returns.',
  ['inputs', 'configurations', 'histories'], 'all requested sizes, primed or not', 'the tests use a few powers of two, where requested and actual size agree.', RG,
  [('semaphore limits chosen at construction', 'RingBufferGuardedBase constructor'), ('priming loop', 'RingBufferGuardedBase::prime')])
p('G04', 'Flush hands over every remaining element once and stops',
  'Flushing an aborted guarded ring buffer hands every element still in it to the visitor exactly once, in order, and returns normally once none is left, also if priming was cut short or a flush was done before. '
  'Nothing is handed over that was not in the buffer.',
  ['histories', 'inputs'], 'every fill level at the time of the abort, interrupted priming, repeated flushes, throwing visitors', 'the tests flush a few fixed fill levels.', RG,
  [('flush loop', 'RingBufferGuardedBase::flush')])
p('P01', 'Pool blocks are disjoint, in bounds and aligned for every geometry',
  'A memory pool is stocked with exactly as many blocks as its size says; each lies wholly inside the memory the pool allocated, none overlaps another, and each is aligned for any pointer. '
  'A block is at least as large as the element size asked for, and clearing a block touches that block only.',
  ['inputs', 'configurations'], 'all pool sizes and all element sizes, multiples of the word size or not', 'the tests use a few sizes, none of which shows an overrun.', MP,
  [('arena layout', 'MemoryPoolBase::Imple constructor'), ('clearing', 'MemoryPoolBase::Imple::getRawBlock')])
p('P02', 'Pools hand a block to one owner at a time under any concurrency',
  'Threads get blocks from and return them to a pool concurrently: the free list is touched by one thread at a time, each get removes exactly one block and each return adds back exactly the block returned. '
  'Getting a block from an exhausted pool throws and leaves the pool and its statistics unchanged; every way out releases the exclusion.',
  ['schedules', 'histories'], 'any number of threads creating and dropping objects, every interleaving, exhaustion at any point', SAMPLE + 'a race in the free list needs an unlucky schedule.', MP,
  [('scoped lock around the ring buffer', 'MemoryPoolBase::Imple::getRawBlock/returnRawBlock')])
p('P03', 'Creating a pooled object loses no block, whatever throws',
  'When creating an object or a block from a pool succeeds, the smart pointer owns the object built in the block taken and brings it back to that very pool. '
  'When a constructor throws, the block taken goes back to the pool exactly once and the exception reaches the caller.',
  ['fault_sequences', 'programs'], 'every pooled type, every constructor that may throw, at any call', 'the tests construct types that throw rarely or never.', OP,
  [('scope guard around placement new', 'ObjectPool::createObj, BlockPool::getBlock')])
p('P04', 'Dropping a pooled object destroys it once and returns its own block',
  'When the smart pointer of a pooled object or block goes away, every object in it is destroyed exactly once, then exactly the block that was handed out goes back to the pool it came from. '
  'This holds for derived types with any base class layout, for moved-from and empty pointers (nothing happens), and for pointers to constant types.',
  ['programs', 'histories'], 'every pooled type and inheritance layout, every chain of moves', 'the tests use single inheritance, where the object starts its block.', OP,
  [('complete object address', 'ObjectPoolDeleter::operator()'), ('element loop', 'BlockPoolDeleter::operator()')])
p('P05', 'What does not fit is refused before any effect',
  'An object type that exceeds the pool\'s block size, and a message type that exceeds the queue\'s slot size, is refused with the size error before a block is taken, a statistic changes, a constructor runs or the thread blocks. '
  'Whatever is accepted fits into the memory it is built in, and nothing that fits the size asked for is refused.',
  ['inputs', 'programs', 'configurations'], 'all types and all element sizes', 'the tests try one oversized type each.', OP + MQ,
  [('size test', 'ObjectPool::createObj, MessageQueue::put/emplace')])
p('P06', 'Pool statistics follow the blocks under any concurrency',
  'A pool\'s running count starts at its size, goes down by one for every block handed out and up by one for every block returned, without losing concurrent updates, and never reads higher than the size. '
  'The low watermark starts at the size and is the smallest running count there has been; both are read as one consistent snapshot.',
  ['schedules', 'histories'], 'any number of threads, every interleaving of gets, returns and snapshots', SAMPLE + 'a lost update needs two threads inside a few instructions.', MP,
  [('compare-exchange of both counters at once', 'MemoryPoolBase::Imple::getRawBlock/returnRawBlock')], [('runningState', 'running count and low watermark', 'MemoryPoolBase::Imple')])
p('P07', 'Every block arrives zeroed and block pools report their length',
  'Each block a pool hands out is all zero before anything is built in it, no matter what it held before. '
  'A block pool builds the number of elements asked for in each block and the smart pointer reports that number, or zero if it never had a block.',
  ['inputs', 'histories', 'programs'], 'all element types and block lengths, every earlier use of the block', 'the tests look at fresh blocks of a few lengths.', OP,
  [('memset of the block', 'MemoryPoolBase::Imple::getRawBlock'), ('length', 'BlockPoolDeleter::getNumElements')])
p('M01', 'Enqueueing loses no slot, whatever happens',
  'Each put or emplace takes one slot and either passes it on as exactly one message built in it, or gives the slot back exactly once and passes the exception on to the caller. '
  'The sender learns of every message that was not enqueued; a message built but refused because of an abort is destroyed (its slot is of no further use then).',
  ['schedules', 'fault_sequences', 'histories'], 'message constructors that throw at any call, aborts at any point', SAMPLE + 'constructors never throw in the tests, and lost slots show only as a later deadlock.', MQ,
  [('scope guard for the slot', 'MessageQueue::put/emplace, RawMemoryManager'), ('cookedPutAndNotify', 'MessageQueueBase::Imple')])
p('M02', 'A dispatched message runs once, is destroyed once and frees its slot',
  'Taking a message off the queue for dispatch invokes it exactly once, then destroys it exactly once, and then gives back exactly the slot it was built in, also when the dispatch throws, in which case the exception reaches the caller. '
  'A wake-up callback runs before the message is invoked, and if it throws the message is destroyed and its slot freed all the same.',
  ['fault_sequences', 'programs', 'histories'], 'every message type and base class layout, dispatch or wake-up functions that throw', 'the tests dispatch messages that do not throw and start with their MessageBase.', MQ,
  [('scope guard', 'CookedMemoryManager, MessageQueue::getAndDispatch')])
p('M03', 'A queue abort reaches everyone as an exception, never as termination',
  'An abort at any time ends every blocked or later put, emplace or dispatch with SemaphoreAborted or RingBufferStateError, and a purge that still counts messages likewise; no abort, at whatever point of an operation it hits, terminates the process. '
  'The queue reports itself aborted before any thread can notice, and both sides of the queue are shut.',
  ['schedules', 'fault_sequences'], 'an abort between any two steps of any operation of any thread', SAMPLE + 'an abort that lands while a slot is being given back is a window of a few instructions.', MQ,
  [('abort', 'MessageQueueBase::Imple::abort'), ('no escape from destructors', 'RawMemoryManager, CookedMemoryManager')])
p('M04', 'No message is leaked by abort or destruction of the queue',
  'Every message built in the queue is destroyed exactly once: by its dispatch, by a purge, by its own failed enqueueing, or by the queue\'s destructor for those still waiting. '
  'Destroying the queue aborts it first and releases all it allocated.',
  ['schedules', 'histories'], 'every fill level at destruction, aborts racing with enqueueing', 'the tests destroy empty queues, or messages whose destruction they do not observe.', MQ,
  [('flush at destruction', 'MessageQueueBase::Imple destructor'), ('failed hand-over destroys', 'MessageQueueBase::Imple::cookedPutAndNotify')])
p('M05', 'Dispatch is exclusive with the auto dispatch lock, and only dispatch is',
  'With dispatch locking enabled, the message\'s dispatch function runs only while its thread holds the dispatch lock, which it gives up on every way out; the wait for a message and the wake-up callback do not hold it. '
  'With dispatch locking disabled no such lock is used, and asking for an auto dispatch lock throws the documented exception.',
  ['schedules', 'fault_sequences'], 'any number of dispatching and locking threads, dispatch functions that throw', SAMPLE + 'two dispatches have to overlap for a missing lock to show.', MQ,
  [('scoped lock', 'MessageQueueBase::Imple::dispatchMessage'), ('check', 'MessageQueueBase::getAutoDispatchLock')])
p('M06', 'An auto dispatch lock is owned once and released once',
  'An auto dispatch lock holds the dispatch lock from its creation, through moves, until it is unlocked or destroyed, and releases it exactly once; a moved-from one owns nothing. '
  'Assigning over one that still holds the lock releases what it held, and unlocking twice has no effect.',
  ['histories'], 'every sequence of lock, unlock, move construction, move assignment and destruction', 'the tests walk one or two such sequences.', MQ,
  [('ownership members', 'MessageQueueBase::AutoDispatchLock')], [('pMQB/locked', 'queue and whether its lock is held', 'AutoDispatchLock')])
p('M07', 'Enqueueing never waits for dispatch and locks are never nested the wrong way',
  'Putting, purging, aborting and reading statistics never need the dispatch lock, so a handler or a holder of the dispatch lock may enqueue. '
  'Across the library, locks are only ever nested in one order, and no thread blocks for elements or slots while holding another lock. Constructors and destructors of messages and objects, and functors other than those of the semaphore, run with no library lock held.',
  ['schedules'], 'every combination of operations on one queue or pool in any threads', SAMPLE + 'a deadlock needs two threads to interleave in one particular way.', MQ + SEM + MP,
  [('separate locks', 'MessageQueueBase::Imple, Semaphore::Imple, MemoryPoolBase::Imple')])
p('M08', 'Queue statistics follow the messages under any concurrency',
  'A queue\'s running count starts at zero, goes up by one for each slot taken and down by one for each slot given back, without losing concurrent updates, and never reads higher than the number of slots. '
  'The high watermark is the largest running count there has been; both are read as one consistent snapshot, with the requested size.',
  ['schedules', 'histories'], 'any number of threads, every interleaving', SAMPLE + 'a lost update needs two threads inside a few instructions.', MQ,
  [('compare-exchange of both counters at once', 'MessageQueueBase::Imple::rawWaitAndGet/rawPutAndNotify')], [('runningState', 'running count and high watermark', 'MessageQueueBase::Imple')])
p('M09', 'Queue slots are disjoint, in bounds and aligned for every geometry',
  'A message queue owns as many slots as were requested, up to the ring buffer limit; each lies wholly inside the memory the queue allocated, none overlaps another, and each is aligned for any pointer. '
  'A slot is at least as large as the message size asked for, and clearing a slot touches that slot only.',
  ['inputs', 'configurations'], 'all queue sizes and message sizes', 'the tests use a few sizes, none of which shows an overrun.', MQ,
  [('arena layout', 'MessageQueueBase::Imple constructor'), ('clearing', 'MessageQueueBase::Imple::rawWaitAndGet')])
p('M10', 'Purge discards exactly what is waiting, without dispatching',
  'A purge takes messages off the queue, destroys each exactly once without invoking it, and gives each slot back, as many as the queue counted when it began. '
  'It takes nothing, and does not wait, when none was counted, and it does not involve the dispatch lock.',
  ['histories', 'schedules'], 'every fill level, aborts at any point', 'the tests purge one or two fill levels.', MQ,
  [('purge loop', 'MessageQueue::purge')])
p('M11', 'The name of the last message dispatched is set before it is invoked',
  'Before a message is invoked its own name has been stored where any thread can read it without locking, and stays until the next message is dispatched. '
  'Nothing but dispatching changes it, and before the first dispatch a placeholder is reported.',
  ['schedules', 'programs'], 'every message type; readers at any time', 'the tests read the name after a dispatch only.', MQ,
  [('atomic pointer', 'MessageQueueBase::Imple::dispatchMessage')])
p('M12', 'A constructor that fails leaks nothing',
  'When the construction of a semaphore, ring buffer, pool or queue fails part way for lack of memory, everything it had allocated is released exactly once and the exception reaches the caller. '
  'Destruction releases everything construction allocated, exactly once.',
  ['fault_sequences'], 'an allocation failure at every allocation of every constructor', 'no test lets an allocation fail.', MQ + MP + SEM + RS + ['src/Mutex.cpp'],
  [('owning members', 'constructors of MessageQueueBase::Imple, MemoryPoolBase::Imple, Semaphore, RingBuffer*')])
p('M13', 'Destruction lets waiting threads leave before it takes anything away',
  'Destroying a semaphore, guarded ring buffer or queue first aborts it and wakes every waiter, then pauses with no lock held, and only then destroys the primitives or releases the memory those waiters may still be using. '
  'A queue takes out its leftover messages no earlier.',
  ['schedules'], 'threads blocked anywhere in the object being destroyed', 'no test destroys an object others are blocked in.', SEM + RG + MQ,
  [('abort, pause, release', 'Semaphore::Imple::~Imple, ~RingBufferGuardedBase, ~MessageQueueBase')])
p('M14', 'Messages leave the queue in the order they entered it',
  'If putting or emplacing one message returned before putting another began, the first is taken from the queue no later: messages leave the queue in the order they entered it, '
  'whoever sends and whoever dispatches, and those of one thread in the order it sent them. A thread that takes a message dispatches it before it takes another, '
  'and purging meets what is left in the same order.',
  ['schedules', 'histories'], 'every history of any number of producers and consumers, every queue size, every fill and wrap-around',
  'order across a wrap-around and among several producers needs every history.', MQ + RG + ['src/RingBufferSimple.hpp'],
  [('FIFO ring buffer under the semaphore lock', 'RingBufferGuarded::get/put'), ('enqueue and dispatch', 'MessageQueueBase')])
p('X01', 'No heap use once constructed',
  'After construction, no operation of a semaphore, ring buffer, pool, smart pointer or queue allocates or releases heap memory, other than to report an error by exception. '
  'This includes blocking, waking, dispatching and enqueueing.',
  ['histories', 'programs'], 'every operation on every path', 'the tests do not observe the allocator.', OP + MQ + SEM + RG,
  [('preallocation', 'all constructors'), ('std::ref functors', 'RingBufferGuardedBase::get/put')])
p('X02', 'Misuse is refused at compile time',
  'Programs that copy a library resource, create a pooled object of an unrelated type or convert its pointer to one, pool types that cannot be safely destroyed, '
  'enqueue what is not a message, put non-scalar or constant types in ring buffers, or get mutable access to what was handed in as constant, do not compile. '
  'Raw access that would bypass ownership, and destruction through a base, stay out of the public interface.',
  ['programs'], 'every client program of these shapes', 'a test suite has to compile, so it cannot contain a program that must not.', OP + MQ + RG + ['src/Semaphore.hpp', 'src/Mutex.hpp'],
  [('deleted copies, static assertions, access control', 'public headers')])
p('X03', 'The headers keep working in every supported dialect and documented use',
  'Every public header compiles on its own in each C++ standard from C++11 on, from the installed headers alone, and the documented uses type-check and find what they call in the library: '
  'derived objects through base pointers, moving smart pointers, forward declared pool pointers, pointers to constant. '
  'Destroying, moving and releasing operations are declared not to throw, no type changes its size with the dialect, and the errors of the library are runtime errors told apart by their types.',
  ['programs', 'configurations'], 'C++11, 14, 17 and 20 clients, each header alone', 'the tests are compiled in one dialect.', ['src/*.hpp'],
  [('header self-containment, noexcept', 'public headers')])
p('X04', 'The mutex inherits priority and reports every failure',
  'Every mutex the library locks is created with the priority inheritance protocol. '
  'Locking either acquires the mutex or throws a system error, trying reports busy as false and any other failure as an error, and a failure to acquire is never taken for success.',
  ['fault_sequences', 'configurations'], 'every error code of the platform primitives', 'the primitives do not fail in the tests, and priorities are not observed.', ['src/Mutex.cpp', 'src/Mutex.hpp', 'src/Semaphore.cpp'],
  [('mutex attribute', 'Mutex constructor'), ('error mapping', 'Mutex::lock/try_lock/unlock')])
p('X05', 'Concurrent use is free of data races',
  'Threads may use operations of one object at the same time (construction, priming, flushing and destruction aside): whatever one operation changes and another uses is accessed only atomically, '
  'or only with one and the same lock held. No operation changes variables shared between objects but atomically, and memory passed on or given back is not touched any more by the thread that did.',
  ['schedules'], 'every pair of operations of one object, every schedule', 'a race needs two accesses to meet, which tests make rare and do not detect.', SEM + RG + MQ + OP,
  [('lock discipline', 'Semaphore::Imple'), ('atomic members', 'MemoryPoolBase, MessageQueueBase, RingBufferGuardedBase')])
p('X06', 'Locks are held briefly',
  'From acquiring a lock of the library to releasing it, or to blocking on the condition that goes with it, an operation takes a fixed number of steps: '
  'it does not loop over elements, threads or attempts, does not sleep and does no input or output. What it costs to be held up by another thread\'s lock does not depend on load. '
  'Functors of the semaphore and the dispatch of messages run under a lock on purpose; what they do is up to the user.',
  ['schedules', 'histories'], 'every operation, every fill, number of waiters and retries', 'how long a lock is held is not observed, and grows only with loads the tests do not have.', SEM + RG + OP + MQ,
  [('critical sections', 'Semaphore::Imple, MemoryPoolBase::Imple'), ('flushing and purging element by element', 'RingBufferGuardedBase::flush, MessageQueue::purge')])
p('X07', 'Monitoring never waits and changes nothing',
  'Statistics, sizes, the abort indication and the name of the last message can be read at any time by any thread, with any lock held: reading them takes no lock, never blocks, '
  'completes in a fixed number of steps and throws nothing. Reading them, or the count of a semaphore (which does take its lock), changes nothing and wakes no one.',
  ['schedules', 'histories'], 'every query of every class in every state', 'waiting shows only when another thread holds things up, and side effects only in what happens later.', MQ + OP + RG + SEM,
  [('lock-free statistics', 'MemoryPoolBase, MessageQueueBase getRunningStateStatistics'), ('sizes and masks', 'ring buffers, pools'), ('count', 'Semaphore::getAvailableCount')])
p('L01', 'Blocked threads are served in bounded time',
  'A thread waiting in take, get, put or dispatch is served within bounded time once what it waits for keeps becoming available.',
  ['schedules'], 'every schedule of the operating system', 'timing and fairness cannot be sampled into a guarantee.', SEM + RG, [('signalling one waiter', 'Semaphore::Imple')])
p('L03', 'Destroying a queue waits long enough for blocked threads to leave',
  'A queue destroyed while other threads are blocked in its operations lets all of them out before its memory goes away.',
  ['schedules'], 'every schedule around the destruction', 'depends on a fixed delay being long enough.', MQ, [('grace period', 'MessageQueueBase destructor')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
