"""what MANIFEST.json says about each check"""
T = 'path-sensitive interprocedural dataflow over LLVM IR of the current tree'
TECHNIQUE = {
    'S01': T + ': lock balance and guarded-by',
    'S02': T + ': net effect and bound checks of the count',
    'S03': T + ': signal obligations',
    'S04': T + ': abort typestate',
    'S05': T + ': constructor values per argument class',
    'S06': T + ': number, time and outcome of functor calls',
    'R01': T + ': affine counter summaries and slot equality per capacity and fill class',
    'G01': T + ': monitor invariant (elements present == count) and guarded-by',
    'G02': T + ': life cycle typestate of an atomic state',
    'G03': T + ': admission bound per size class, priming loop by affine induction',
    'G04': T + ': flushing loop by affine induction',
    'R02': T + ': constructor values per size class',
    'P01': T + ': symbolic geometry (affine offsets) per request and size class',
    'P02': T + ': guarded-by, lock balance and element accounting of the free list',
    'P03': T + ': ownership typestate of block and object over exceptional paths',
    'P04': T + ': ownership typestate of block and object, per pooled type',
    'P05': T + ': dominance of the size test over every effect',
    'P06': T + ': atomic read-modify-write transfer function',
    'P07': T + ': cleared range covers the block; reported length per size class',
    'M01': T + ': ownership typestate of slot and message over exceptional paths',
    'M02': T + ': ownership typestate of slot and message, order of callbacks',
    'M03': T + ': exception escape and order of atomic stores against ring aborts',
    'M04': T + ': ownership typestate of every message, destructor obligations',
    'M05': T + ': lockset at callbacks, per locking mode',
    'M06': T + ': exhaustive composition of lock operations with ownership typestate',
    'M07': T + ': lock order graph, locksets at waits and callbacks',
    'M08': T + ': atomic read-modify-write transfer function',
    'M09': T + ': symbolic geometry (affine offsets) per size class',
    'M10': T + ': loop count by affine induction, effect restrictions',
    'M11': T + ': value flow into the atomic name before each dispatch',
    'M12': T + ': ownership of memory and primitives over constructors cut short at every allocation',
    'M13': T + ': order of abort, wake-up, pause and release on every path of the destructors',
    'M14': T + ': transfer of the message between put and ring, slot equality of the ring, guarded-by',
    'X01': T + ': effect analysis (heap) over every operation',
    'X02': 'compile-fail witnesses with legal twins, two compilers',
    'X03': 'compile-pass witnesses per dialect and compiler; symbol, size and noexcept queries on the compiled program',
    'X04': T + ': attribute dataflow at mutex creation, error code dataflow',
    'X06': T + ': abstract cycles and blocking effects between acquisition and release',
    'X07': T + ': effects (locks, waits, loops, writes, exceptions) of every query',
    'X05': T + ': lockset per memory cell over all operations, escape of shared variables',
}
BASE = ('Every path of every entry point is covered, exceptional paths included, with shared state unknown after each lock acquisition; sound up to the '
        'model of externals (vf/models.py) and sequentially consistent atomics.')
NOTE = {
    'S01': BASE, 'S02': BASE + ' Decides one critical section at a time; the whole-history statement follows by induction over critical sections.',
    'S03': BASE + ' Decides that signals are issued whenever someone may be waiting; that the OS delivers them is assumed.',
    'S04': BASE, 'S05': BASE + ' The argument space is covered by 45 cells.',
    'S06': BASE,
    'R01': 'All 20 capacities, six element types; operation counters and fill symbolic, so wrap-around is included. The FIFO statement follows by induction: '
           'slot of the i-th get equals slot of the i-th put, and present elements sit in distinct slots.',
    'G01': 'Every size class times primed or not; positions and count symbolic. The invariant is assumed on every lock acquisition and shown on every release.',
    'G02': BASE, 'G03': 'Every size class; the number of elements present is symbolic.', 'G04': 'All capacities, symbolic number of elements, count equal or higher.',
    'R02': 'The 64 bit request space is covered by cells with one capacity each; six element types.',
    'P01': 'Requests of every capacity (all 20) times element sizes 8 * words + r, words symbolic; arena size products are assumed not to overflow.',
    'P02': BASE, 'P03': BASE + ' Object and block pools of driver types with throwing and non-throwing, scalar, trivial and class members (vf/drivers/pool.cpp).',
    'P04': BASE + ' Type shapes: polymorphic at and off offset zero, virtual bases, constant, arrays of classes.',
    'P05': 'Object and message sizes of the driver types against symbolic block size.', 'P06': BASE,
    'P07': 'Clearing is compared with the block size as a symbolic value; lengths for every element type of the driver.',
    'M01': BASE + ' The guarded ring buffers are replaced by their contracts (decided by G01-G04); messages are of unknown dynamic type.',
    'M02': BASE + ' Messages are of unknown dynamic type; the dispatch, name and destructor calls are recognised by virtual table slot.',
    'M03': BASE + ' An abort may hit between any two ring buffer operations.', 'M04': BASE, 'M05': BASE + ' Both locking modes.',
    'M06': 'Any sequence, of any length, of create, move, assign, swap, lock, unlock and destroy over lock objects of two queues (fixpoint over the finite states).',
    'M07': 'All public operations of all classes, nothing replaced by contracts; locks are told apart by the type that holds them and their place in it.',
    'M08': BASE, 'M09': 'Symbolic number of slots; message sizes 8 * words + r with symbolic words; both locking modes.',
    'M10': BASE, 'M11': BASE,
    'M12': 'Each constructor followed by the destructor, every allocation and every user callback failing in turn; whole-life runs, so ownership is exact. '
           'Element types and capacities by size class.',
    'M13': 'That the pause is long enough is L03, not decided; that there is one, unlocked, between telling waiters and taking things away, is.',
    'M14': 'Order follows by induction from facts decided on every path: one message per call goes in, the one taken is dispatched before the next, the ring is FIFO '
           '(R01, symbolic positions, every capacity) and used under its lock (G01). The quantification over histories is by this argument, not by exploration.',
    'X01': 'Every operation of every class, nothing replaced by contracts; allocations whose only purpose is the exception being thrown are told apart by flow.',
    'X02': 'Covers the listed shapes of misuse (vf/witness); a shape whose legal twin stops compiling is reported as undecided, not as held.',
    'X03': 'Covers the listed documented uses, every public header, C++11 to C++20, clang and gcc; linking is decided on symbols.',
    'X04': 'Every mutex creation reached from every constructor; every result of the platform primitives, failures included.',
    'X07': 'All queries of all classes with nothing replaced by contracts, including those inherited by the pools and guarded ring buffers.',
    'X06': 'All operations of all classes with nothing replaced by contracts; a loop counts as bounded if the analysis resolves its turns without widening. Atomic retry loops are not counted.',
    'X05': 'All operations that may run at the same time, each pair of them; objects are told apart by type and place in them, cells by offset.',
}
