// objects from construction to destruction, with and without use in between
#include "pooltypes.hpp"
#include "Semaphore.hpp"
#include "Mutex.hpp"
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
#include "MessageQueue.hpp"
#define LIFE(name, T, P, A) \
    VF void vf_life_##name P { T x A; } \
    VF void vf_heap_##name P { delete new T A; }
#define V(...) __VA_ARGS__
LIFE(sem, Semaphore, (size_t n, size_t m), V({n, m}))
LIFE(sem1, Semaphore, (size_t n), V({n}))
LIFE(mutex, Mutex, (), V({}))
LIFE(ring_u32, RingBufferSimple<uint32_t>, (size_t n), V({n}))
LIFE(ring_u8, RingBufferSimple<uint8_t>, (size_t n), V({n}))
LIFE(ring_void, RingBufferSimple<void *>, (size_t n), V({n}))
LIFE(ring_obj, RingBufferSimple<VfBase *>, (size_t n), V({n}))
LIFE(gring_u32, RingBufferGuarded<uint32_t>, (size_t n, bool p), V({n, p}))
LIFE(gring_void, RingBufferGuarded<void *>, (size_t n, bool p), V({n, p}))
LIFE(gring_obj, RingBufferGuarded<VfBase *>, (size_t n, bool p), V({n, p}))
LIFE(pool, VfPool, (size_t n, size_t s), V({n, s}))
LIFE(opool, ObjectPool<VfBase>, (size_t n, size_t s), V({n, s}))
LIFE(opool1, ObjectPool<VfPlain>, (size_t n), V({n}))
LIFE(bpool, BlockPool<VfPlain>, (size_t n, size_t s), V({n, s}))
LIFE(bpool_int, BlockPool<int>, (size_t n, size_t s), V({n, s}))
LIFE(queue, MessageQueue, (size_t n, size_t s, bool l), V({n, s, l}))
LIFE(queue2, MessageQueue, (size_t n, size_t s), V({n, s}))
struct VfNote : MessageBase { explicit VfNote(int v) noexcept : x{v} {} void dispatch() override {} const char *name() const override { return "n"; } int x; };
VF void vf_use_sem() { Semaphore s{1, 3}; s.give(); s.take(); s.getAvailableCount(); s.abort(); }
VF void vf_use_mutex() { Mutex m; m.lock(); m.unlock(); if (m.try_lock()) m.unlock(); }
VF void vf_use_gring() { RingBufferGuarded<uint32_t> r{4}; r.put(1); r.put(2); r.get(); r.abort(); r.flush([](uint32_t) {}); }
VF void vf_use_pool() { VfPool p{2, 24}; void *a = p.getRawBlock(); p.returnRawBlock(a); p.getRunningStateStatistics(); }
VF void vf_use_queue(bool l) { MessageQueue q{2, 128, l}; q.emplace<VfNote>(1); q.put(VfNote{2}); q.getAndDispatch(); q.purge(); if (l) { auto a = q.getAutoDispatchLock(); a.unlock(); a.lock(); } q.abort(); }
