#include "vf.hpp"
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
using namespace ReiserRT::Core;
struct VfThing { int a, b; };
#define RING(tag, T, V) \
    VF RingBufferSimple<T> *vf_ring_##tag##_new(size_t n) { return new RingBufferSimple<T>{n}; } \
    VF void vf_ring_##tag##_delete(RingBufferSimple<T> *r) { delete r; } \
    VF V vf_ring_##tag##_get(RingBufferSimple<T> *r) { return r->get(); } \
    VF void vf_ring_##tag##_put(RingBufferSimple<T> *r, V v) { r->put(v); } \
    VF size_t vf_ring_##tag##_size(RingBufferSimple<T> *r) { return r->getSize(); } \
    VF size_t vf_ring_##tag##_mask(RingBufferSimple<T> *r) { return r->getMask(); } \
    VF size_t vf_ring_##tag##_bits(RingBufferSimple<T> *r) { return r->getNumBits(); }
RING(u32, uint32_t, uint32_t)
RING(u64, uint64_t, uint64_t)
RING(u8, uint8_t, uint8_t)
RING(void, void *, void *)
RING(obj, VfThing *, VfThing *)
RING(cobj, const VfThing *, const VfThing *)
#define GRING(tag, T, V) \
    VF RingBufferGuarded<T> *vf_gring_##tag##_new(size_t n, bool prime) { return new RingBufferGuarded<T>{n, prime}; } \
    VF RingBufferGuarded<T> *vf_gring_##tag##_new1(size_t n) { return new RingBufferGuarded<T>{n}; } \
    VF void vf_gring_##tag##_delete(RingBufferGuarded<T> *r) { delete r; } \
    VF V vf_gring_##tag##_get(RingBufferGuarded<T> *r) { return r->get(); } \
    VF bool vf_gring_##tag##_put(RingBufferGuarded<T> *r, V v) { return r->put(v); } \
    VF void vf_gring_##tag##_abort(RingBufferGuarded<T> *r) { r->abort(); } \
    VF void vf_gring_##tag##_prime(RingBufferGuarded<T> *r, const RingBufferGuarded<T>::PrimingFunctionType &f) { r->prime(f); } \
    VF void vf_gring_##tag##_flush(RingBufferGuarded<T> *r, const RingBufferGuarded<T>::FlushingFunctionType &f) { r->flush(f); } \
    VF size_t vf_gring_##tag##_size(RingBufferGuarded<T> *r) { return r->getSize(); } \
    VF size_t vf_gring_##tag##_mask(RingBufferGuarded<T> *r) { return r->getMask(); } \
    VF size_t vf_gring_##tag##_bits(RingBufferGuarded<T> *r) { return r->getNumBits(); }
GRING(u32, uint32_t, uint32_t)
GRING(void, void *, void *)
GRING(obj, VfThing *, VfThing *)
// elements as large as a scalar gets: a pointer to member function is two words
using VfMember = void (VfThing::*)();
VF bool vf_gring_mem_put(RingBufferGuarded<VfMember> *r, const VfMember *v) { return r->put(*v); }
VF void vf_gring_mem_get(RingBufferGuarded<VfMember> *r, VfMember *v) { *v = r->get(); }
VF void vf_gring_mem_abort(RingBufferGuarded<VfMember> *r) { r->abort(); }
VF void vf_gring_mem_prime(RingBufferGuarded<VfMember> *r, const RingBufferGuarded<VfMember>::PrimingFunctionType &f) { r->prime(f); }
VF void vf_gring_mem_flush(RingBufferGuarded<VfMember> *r, const RingBufferGuarded<VfMember>::FlushingFunctionType &f) { r->flush(f); }
