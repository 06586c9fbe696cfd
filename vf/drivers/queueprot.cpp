#include "vf.hpp"
#include "MessageQueue.hpp"
using namespace ReiserRT::Core;
VF size_t vf_q_elsize(MessageQueue *q) { return q->getElementSize(); }
VF bool vf_q_aborted(MessageQueue *q) { return q->isAborted(); }
