#include <memory>
#include "pooltypes.hpp"
using PB = MemoryPoolBase;
VF ObjectPool<VfBase> *vf_opool_new(size_t n, size_t s) { return new ObjectPool<VfBase>{n, s}; }
VF ObjectPool<VfBase> *vf_opool_new1(size_t n) { return new ObjectPool<VfBase>{n}; }
VF void vf_opool_delete(ObjectPool<VfBase> *p) { delete p; }
VF void vf_opool_create_same(ObjectPool<VfBase> *p, ObjectPool<VfBase>::ObjectPtrType *o) { new (o) ObjectPool<VfBase>::ObjectPtrType{p->createObj<VfBase>()}; }
VF void vf_opool_create_derived(ObjectPool<VfBase> *p, ObjectPool<VfBase>::ObjectPtrType *o, int a) { new (o) ObjectPool<VfBase>::ObjectPtrType{p->createObj<VfDerived>(a)}; }
VF void vf_opool_create_multi(ObjectPool<VfBase> *p, ObjectPool<VfBase>::ObjectPtrType *o) { new (o) ObjectPool<VfBase>::ObjectPtrType{p->createObj<VfMulti>()}; }
VF void vf_opool_create_plain(ObjectPool<VfPlain> *p, ObjectPool<VfPlain>::ObjectPtrType *o) { new (o) ObjectPool<VfPlain>::ObjectPtrType{p->createObj<VfPlain>()}; }
VF void vf_opool_create_nothrow(ObjectPool<VfQuiet> *p, ObjectPool<VfQuiet>::ObjectPtrType *o) { new (o) ObjectPool<VfQuiet>::ObjectPtrType{p->createObj<VfQuiet>()}; }
VF void vf_opool_drop(ObjectPool<VfBase>::ObjectPtrType *o) { o->~unique_ptr(); }
VF void vf_opool_drop_plain(ObjectPool<VfPlain>::ObjectPtrType *o) { o->~unique_ptr(); }
VF void vf_opool_reset(ObjectPool<VfBase>::ObjectPtrType *o) { o->reset(); }
VF void vf_opool_move(ObjectPool<VfBase>::ObjectPtrType *a, ObjectPool<VfBase>::ObjectPtrType *b) { *a = std::move(*b); }
VF void vf_opool_movector(ObjectPool<VfBase>::ObjectPtrType *a, ObjectPool<VfBase>::ObjectPtrType *b) { new (a) ObjectPool<VfBase>::ObjectPtrType{std::move(*b)}; }
// block pools
VF BlockPool<VfPlain> *vf_bpool_new(size_t n, size_t e) { return new BlockPool<VfPlain>{n, e}; }
VF void vf_bpool_delete(BlockPool<VfPlain> *p) { delete p; }
VF void vf_bpool_get(BlockPool<VfPlain> *p, BlockPool<VfPlain>::BlockPtrType *o) { new (o) BlockPool<VfPlain>::BlockPtrType{p->getBlock()}; }
VF void vf_bpool_get_quiet(BlockPool<VfQuiet> *p, BlockPool<VfQuiet>::BlockPtrType *o) { new (o) BlockPool<VfQuiet>::BlockPtrType{p->getBlock()}; }
VF void vf_bpool_get_int(BlockPool<int> *p, BlockPool<int>::BlockPtrType *o) { new (o) BlockPool<int>::BlockPtrType{p->getBlock()}; }
VF BlockPool<int> *vf_bpool_new_int(size_t n, size_t e) { return new BlockPool<int>{n, e}; }
VF BlockPool<char> *vf_bpool_new_char(size_t n, size_t e) { return new BlockPool<char>{n, e}; }
VF void vf_bpool_drop(BlockPool<VfPlain>::BlockPtrType *o) { o->~unique_ptr(); }
VF void vf_bpool_drop_quiet(BlockPool<VfQuiet>::BlockPtrType *o) { o->~unique_ptr(); }
VF void vf_bpool_drop_int(BlockPool<int>::BlockPtrType *o) { o->~unique_ptr(); }
VF size_t vf_bpool_n(BlockPool<VfPlain>::BlockPtrType *o) { return o->get_deleter().getNumElements(); }
VF size_t vf_bpool_n_int(BlockPool<int>::BlockPtrType *o) { return o->get_deleter().getNumElements(); }
// whole lives
using OP = ObjectPool<VfBase>;
using OPP = OP::ObjectPtrType;
VF void vf_cyc_same(OP *p) { auto o = p->createObj<VfBase>(); vfu::use(o.get()); }
VF void vf_cyc_derived(OP *p, int a) { auto o = p->createObj<VfDerived>(a); vfu::use(o.get()); }
VF void vf_cyc_multi(OP *p) { auto o = p->createObj<VfMulti>(); vfu::use(o.get()); }
VF void vf_cyc_plain(ObjectPool<VfPlain> *p) { auto o = p->createObj<VfPlain>(); vfu::use(o.get()); }
VF void vf_cyc_quiet(ObjectPool<VfQuiet> *p) { auto o = p->createObj<VfQuiet>(); vfu::use(o.get()); }
VF void vf_cyc_moved(OP *p) { OPP o; vfu::use(nullptr); o = p->createObj<VfMulti>(); OPP q{std::move(o)}; o = std::move(q); q = std::move(o); vfu::use(q.get()); o.reset(); q.reset(); vfu::use(nullptr); }
VF void vf_cyc_over(OP *p) { auto o = p->createObj<VfMulti>(); auto q = p->createObj<VfBase>(); o = std::move(q); vfu::use(o.get()); q = p->createObj<VfDerived>(1); o.swap(q); }
VF void vf_cyc_pools(OP *p, OP *r) { auto o = p->createObj<VfBase>(); { auto q = r->createObj<VfMulti>(); o.swap(q); } vfu::use(o.get()); }
VF void vf_bcyc_plain(BlockPool<VfPlain> *p) { auto o = p->getBlock(); vfu::use(o.get()); }
VF void vf_bcyc_quiet(BlockPool<VfQuiet> *p) { auto o = p->getBlock(); vfu::use(o.get()); }
VF void vf_bcyc_int(BlockPool<int> *p) { auto o = p->getBlock(); vfu::use(o.get()); }
VF void vf_bcyc_moved(BlockPool<VfPlain> *p) { BlockPool<VfPlain>::BlockPtrType o; o = p->getBlock(); auto q = std::move(o); vfu::use(q.get()); o = std::move(q); q.reset(); o.reset(); }
VF BlockPool<VfQuiet> *vf_bpool_new_quiet(size_t n, size_t e) { return new BlockPool<VfQuiet>{n, e}; }
VF size_t vf_bpool_n_quiet(BlockPool<VfQuiet>::BlockPtrType *o) { return o->get_deleter().getNumElements(); }
VF size_t vf_sz_base() { return sizeof(VfBase); }
VF size_t vf_sz_derived() { return sizeof(VfDerived); }
VF size_t vf_sz_multi() { return sizeof(VfMulti); }
VF size_t vf_sz_plain() { return sizeof(VfPlain); }
VF size_t vf_sz_quiet() { return sizeof(VfQuiet); }
VF size_t vf_sz_stats_running() { return offsetof(MemoryPoolBase::RunningStateStats, runningCount); }
VF size_t vf_sz_stats_low() { return offsetof(MemoryPoolBase::RunningStateStats, lowWatermark); }
VF size_t vf_sz_stats_size() { return offsetof(MemoryPoolBase::RunningStateStats, size); }
VF size_t vf_bn_plain(BlockPool<VfPlain> *p) { auto o = p->getBlock(); return o.get_deleter().getNumElements(); }
VF size_t vf_bn_quiet(BlockPool<VfQuiet> *p) { auto o = p->getBlock(); return o.get_deleter().getNumElements(); }
VF size_t vf_bn_int(BlockPool<int> *p) { auto o = p->getBlock(); auto q = std::move(o); return q.get_deleter().getNumElements(); }
VF size_t vf_bn_none() { BlockPool<int>::BlockPtrType o; return o.get_deleter().getNumElements(); }
VF void vf_none() { OPP o; o.reset(); OPP q{nullptr}; BlockPool<VfPlain>::BlockPtrType b; b.reset(); }

VF void vf_cyc_mixed(ObjectPool<VfMixed> *p, int a) { auto o = p->createObj<VfMixed>(a); vfu::use(o.get()); }
VF void vf_cyc_mixed0(ObjectPool<VfMixed> *p) { auto o = p->createObj<VfMixed>(); vfu::use(o.get()); }
VF void vf_cyc_triv(ObjectPool<VfTriv> *p) { auto o = p->createObj<VfTriv>(); vfu::use(o.get()); }
VF void vf_cyc_triv1(ObjectPool<VfTriv> *p, int a) { auto o = p->createObj<VfTriv>(a); vfu::use(o.get()); }
VF void vf_cyc_but0(ObjectPool<VfBut<0>> *p) { auto o = p->createObj<VfBut<0>>(); vfu::use(o.get()); }
VF void vf_cyc_but1(ObjectPool<VfBut<1>> *p, int a) { auto o = p->createObj<VfBut<1>>(a); vfu::use(o.get()); }
VF void vf_bcyc_but(BlockPool<VfBut<0>> *p) { auto o = p->getBlock(); vfu::use(o.get()); }
VF BlockPool<VfBut<0>> *vf_bpool_new_but(size_t n, size_t e) { return new BlockPool<VfBut<0>>{n, e}; }
VF size_t vf_sz_but() { return sizeof(VfBut<0>); }
VF void vf_cyc_lazy(ObjectPool<VfLazy> *p) { auto o = p->createObj<VfLazy>(); vfu::use(o.get()); }
VF void vf_cyc_fin(OP *p, int a) { auto o = p->createObj<VfFin>(a); vfu::use(o.get()); }
VF void vf_cyc_args(ObjectPool<VfArgs> *p, int *a, int *b, int *c) { auto o = p->createObj<VfArgs>(*a, std::move(*b), static_cast<const int &>(*c)); }
VF void vf_bcyc_mixed(BlockPool<VfMixed> *p) { auto o = p->getBlock(); vfu::use(o.get()); }
VF void vf_bcyc_triv(BlockPool<VfTriv> *p) { auto o = p->getBlock(); vfu::use(o.get()); }
VF void vf_bcyc_lazy(BlockPool<VfLazy> *p) { auto o = p->getBlock(); vfu::use(o.get()); }
VF void vf_bcyc_pod(BlockPool<VfPod> *p) { auto o = p->getBlock(); vfu::use(o.get()); }
VF BlockPool<VfMixed> *vf_bpool_new_mixed(size_t n, size_t e) { return new BlockPool<VfMixed>{n, e}; }
VF BlockPool<VfTriv> *vf_bpool_new_triv(size_t n, size_t e) { return new BlockPool<VfTriv>{n, e}; }
VF BlockPool<VfLazy> *vf_bpool_new_lazy(size_t n, size_t e) { return new BlockPool<VfLazy>{n, e}; }
VF BlockPool<VfPod> *vf_bpool_new_pod(size_t n, size_t e) { return new BlockPool<VfPod>{n, e}; }
VF void vf_cyc_shared(OP *p) { auto o = p->createObj<VfMulti>(); std::shared_ptr<const VfBase> s{std::move(o)}; vfu::use(o.get()); auto t = s; s.reset(); vfu::use(t.get()); }
VF void vf_bcyc_shared(BlockPool<VfPlain> *p) { auto o = p->getBlock(); std::shared_ptr<const VfPlain[]> s = std::move(o); vfu::use(s.get()); }
VF size_t vf_sz_mixed() { return sizeof(VfMixed); }
VF size_t vf_sz_triv() { return sizeof(VfTriv); }
VF size_t vf_sz_lazy() { return sizeof(VfLazy); }
VF size_t vf_sz_pod() { return sizeof(VfPod); }
// what can be asked of a pool
#define ASK(tag, P) \
    VF size_t vf_##tag##_size(P *p) { return p->getSize(); } \
    VF void vf_##tag##_stats(P *p, MemoryPoolBase::RunningStateStats *o) { *o = p->getRunningStateStatistics(); }
ASK(opool, ObjectPool<VfBase>)
ASK(bpool, BlockPool<VfPlain>)
