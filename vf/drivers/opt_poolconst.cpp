#include "pooltypes.hpp"
VF void vf_opool_const(std::unique_ptr<const VfBase, ObjectPoolDeleter<const VfBase>> *a, ObjectPool<VfBase>::ObjectPtrType *b) {
    new (a) std::unique_ptr<const VfBase, ObjectPoolDeleter<const VfBase>>{std::move(*b)}; }
VF void vf_opool_drop_const(std::unique_ptr<const VfBase, ObjectPoolDeleter<const VfBase>> *o) { o->~unique_ptr(); }
VF void vf_cyc_const(ObjectPool<VfBase> *p) { std::unique_ptr<const VfBase, ObjectPoolDeleter<const VfBase>> c{p->createObj<VfMulti>()}; vfu::use(c.get()); }
VF void vf_bcyc_const(BlockPool<VfPlain> *p) { std::unique_ptr<const VfPlain[], BlockPoolDeleter<const VfPlain[]>> c{p->getBlock()}; vfu::use(c.get()); }
