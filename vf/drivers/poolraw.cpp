// raw blocks: the interface pools build on
#include "pooltypes.hpp"
VF MemoryPoolBase *vf_pool_new(size_t n, size_t s) { return new VfPool{n, s}; }
VF void vf_pool_delete(VfPool *p) { delete p; }
VF void *vf_pool_get(MemoryPoolBase *p) { return p->getRawBlock(); }
VF void vf_pool_return(MemoryPoolBase *p, void *b) { p->returnRawBlock(b); }
VF size_t vf_pool_size(MemoryPoolBase *p) { return p->getSize(); }
VF size_t vf_pool_elsize(MemoryPoolBase *p) { return p->getElementSize(); }
VF size_t vf_pool_padded(MemoryPoolBase *p) { return p->getPaddedElementSize(); }
VF void vf_pool_stats(MemoryPoolBase *p, MemoryPoolBase::RunningStateStats *o) { *o = p->getRunningStateStatistics(); }
