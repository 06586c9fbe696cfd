#include "vf.hpp"
#include "Mutex.hpp"
using namespace ReiserRT::Core;
VF Mutex *vf_mutex_new() { return new Mutex{}; }
VF void vf_mutex_delete(Mutex *m) { delete m; }
VF void vf_mutex_lock(Mutex *m) { m->lock(); }
VF bool vf_mutex_try(Mutex *m) { return m->try_lock(); }
VF void vf_mutex_unlock(Mutex *m) { m->unlock(); }
VF void *vf_mutex_handle(Mutex *m) { return (void *)m->native_handle(); }
