#include "vf.hpp"
#include "Semaphore.hpp"
using namespace ReiserRT::Core;
VF Semaphore *vf_sem_new(size_t i, size_t m) { return new Semaphore{i, m}; }
VF Semaphore *vf_sem_new1(size_t i) { return new Semaphore{i}; }
VF void vf_sem_delete(Semaphore *s) { delete s; }
VF void vf_sem_take(Semaphore *s) { s->take(); }
VF void vf_sem_take_op(Semaphore *s, const Semaphore::FunctionType &f) { s->take(f); }
VF void vf_sem_give(Semaphore *s) { s->give(); }
VF void vf_sem_give_op(Semaphore *s, const Semaphore::FunctionType &f) { s->give(f); }
VF void vf_sem_abort(Semaphore *s) { s->abort(); }
VF size_t vf_sem_count(Semaphore *s) { return s->getAvailableCount(); }
