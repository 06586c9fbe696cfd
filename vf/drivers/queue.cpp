#include "vf.hpp"
#include "MessageQueue.hpp"
using namespace ReiserRT::Core;
namespace vfu { void argl(const void *) noexcept; void argr(const void *) noexcept; void argc(const void *) noexcept; void argbad() noexcept; void mctor(void *); void qmctor(void *) noexcept; void qmmove(void *, void *) noexcept; void mcopy(void *, const void *); void mmove(void *, void *); void mdtor(void *) noexcept; void mdispatch(void *); const char *mname(const void *); }
struct VfMsg : MessageBase {
    VfMsg(int v) : x{v} { vfu::mctor(this); }
    VfMsg(VfMsg &&o) : MessageBase{}, x{o.x} { vfu::mmove(this, &o); }
    ~VfMsg() override { vfu::mdtor(this); }
    void dispatch() override { vfu::mdispatch(this); }
    const char *name() const override { return vfu::mname(this); }
    int x; long pad[6];
};
struct VfSide { virtual ~VfSide() noexcept {} long s; };
struct VfMsg2 : VfSide, MessageBase {
    VfMsg2() { vfu::mctor(this); }
    VfMsg2(VfMsg2 &&o) : VfSide{}, MessageBase{} { vfu::mmove(this, &o); }
    ~VfMsg2() override { vfu::mdtor(this); }
    void dispatch() override { vfu::mdispatch(this); }
    long t;
};
// traits differ between constructors
struct VfMsg3 final : MessageBase {
    VfMsg3() noexcept { vfu::qmctor(this); }
    VfMsg3(int) { vfu::mctor(this); }
    VfMsg3(VfMsg3 &&o) noexcept : MessageBase{} { vfu::qmmove(this, &o); }
    VfMsg3(const VfMsg3 &o) : MessageBase{} { vfu::mcopy(this, &o); }
    ~VfMsg3() override { vfu::mdtor(this); }
    void dispatch() override { vfu::mdispatch(this); }
    long u[2];
};
struct VfMsg4 final : MessageBase {
    VfMsg4(int &a, int &&b, const int &c) { vfu::argl(&a); vfu::argr(&b); vfu::argc(&c); vfu::qmctor(this); }
    VfMsg4(int &, int &, const int &) { vfu::argbad(); vfu::qmctor(this); }
    VfMsg4(const int &, const int &, const int &) { vfu::argbad(); vfu::qmctor(this); }
    VfMsg4(VfMsg4 &&o) noexcept : MessageBase{} { vfu::qmmove(this, &o); }
    ~VfMsg4() override { vfu::mdtor(this); }
    void dispatch() override { vfu::mdispatch(this); }
};
// nothing throws but one of the constructors: the default one (0), the one from an int (1), the one that moves (2)
template <int B> struct VfMsgT : MessageBase {
    VfMsgT() noexcept(B != 0) { if constexpr (B == 0) vfu::mctor(this); else vfu::qmctor(this); }
    VfMsgT(int) noexcept(B != 1) { if constexpr (B == 1) vfu::mctor(this); else vfu::qmctor(this); }
    VfMsgT(VfMsgT &&o) noexcept(B != 2) : MessageBase{} { if constexpr (B == 2) vfu::mmove(this, &o); else vfu::qmmove(this, &o); }
    VfMsgT(const VfMsgT &) noexcept : MessageBase{} { vfu::qmctor(this); }
    VfMsgT &operator=(VfMsgT &&) noexcept { return *this; }
    VfMsgT &operator=(const VfMsgT &) noexcept { return *this; }
    ~VfMsgT() override { vfu::mdtor(this); }
    void dispatch() override { vfu::mdispatch(this); }
    long u[3];
};
VF void vf_msg_anchor(void *p) { new (p) VfMsg{1}; }
VF MessageQueue *vf_q_new(size_t n, size_t s, bool l) { return new MessageQueue{n, s, l}; }
VF MessageQueue *vf_q_new2(size_t n, size_t s) { return new MessageQueue{n, s}; }
VF void vf_q_delete(MessageQueue *q) { delete q; }
VF void vf_q_put(MessageQueue *q, VfMsg *m) { q->put(std::move(*m)); }
VF void vf_q_put2(MessageQueue *q, VfMsg2 *m) { q->put(std::move(*m)); }
VF void vf_q_emplace(MessageQueue *q, int v) { q->emplace<VfMsg>(v); }
VF void vf_q_emplace2(MessageQueue *q) { q->emplace<VfMsg2>(); }
VF void vf_q_put3(MessageQueue *q, VfMsg3 *m) { q->put(std::move(*m)); }
VF void vf_q_emplace3(MessageQueue *q, int v) { q->emplace<VfMsg3>(v); }
VF void vf_q_emplaceq3(MessageQueue *q) { q->emplace<VfMsg3>(); }
VF void vf_q_emplace4(MessageQueue *q, int *a, int *b, int *c) { q->emplace<VfMsg4>(*a, std::move(*b), static_cast<const int &>(*c)); }
VF void vf_q_put5(MessageQueue *q, VfMsgT<2> *m) { q->put(std::move(*m)); }
VF void vf_q_emplace6(MessageQueue *q, int v) { q->emplace<VfMsgT<1>>(v); }
VF void vf_q_emplace7(MessageQueue *q) { q->emplace<VfMsgT<0>>(); }
VF void vf_q_dispatch(MessageQueue *q) { q->getAndDispatch(); }
VF void vf_q_dispatch_wake(MessageQueue *q, const MessageQueueBase::WakeupCallFunctionType &f) { q->getAndDispatch(f); }
VF void vf_q_purge(MessageQueue *q) { q->purge(); }
VF void vf_q_abort(MessageQueue *q) { q->abort(); }
VF const char *vf_q_last(MessageQueue *q) { return q->getNameOfLastMessageDispatched(); }
VF void vf_q_stats(MessageQueue *q, MessageQueueBase::RunningStateStats *o) { *o = q->getRunningStateStatistics(); }
using ADL = MessageQueueBase::AutoDispatchLock;
VF void vf_adl_get(MessageQueue *q, ADL *o) { new (o) ADL{q->getAutoDispatchLock()}; }
VF void vf_adl_drop(ADL *o) { o->~AutoDispatchLock(); }
VF void vf_adl_lock(ADL *o) { o->lock(); }
VF void vf_adl_unlock(ADL *o) { o->unlock(); }
VF void vf_adl_move(ADL *a, ADL *b) { *a = std::move(*b); }
VF void vf_adl_movector(ADL *a, ADL *b) { new (a) ADL{std::move(*b)}; }
VF void *vf_adl_native(ADL *o) { return o->native_handle(); }
VF size_t vf_sz_msg() { return sizeof(VfMsg); }
VF size_t vf_sz_msg2() { return sizeof(VfMsg2); }
VF void *vf_up_msg(VfMsg *m) { return static_cast<MessageBase *>(m); }
VF size_t vf_sz_msg3() { return sizeof(VfMsg3); }
VF void *vf_up_msg3(VfMsg3 *m) { return static_cast<MessageBase *>(m); }
VF void *vf_up_msg2(VfMsg2 *m) { return static_cast<MessageBase *>(m); }
VF void vf_q_life(size_t n, size_t s, bool l) { MessageQueue q{n, s, l}; }
namespace vfu { bool more() noexcept; int pick() noexcept; void step(int) noexcept; }
// temporaries end with the functions they are in, and do not multiply the states
static void op6(ADL &a) { ADL c{std::move(a)}; a = std::move(c); }
static void op7(ADL &b) { ADL c{std::move(b)}; }
static void op8(ADL &a, ADL &b) { std::swap(a, b); }
static void op9(ADL &a, MessageQueue *q) { a = q->getAutoDispatchLock(); }
VF void vf_adl_any(MessageQueue *q, MessageQueue *r) {
    ADL a{q->getAutoDispatchLock()};
    vfu::step(11);
    ADL b{r->getAutoDispatchLock()};
    vfu::step(12);
    while (vfu::more()) {
        switch (vfu::pick()) {
        case 0: vfu::step(0); a.lock(); break;
        case 1: vfu::step(1); a.unlock(); break;
        case 2: vfu::step(2); b.lock(); break;
        case 3: vfu::step(3); b.unlock(); break;
        case 4: vfu::step(4); a = std::move(b); break;
        case 5: vfu::step(5); b = std::move(a); break;
        case 6: vfu::step(6); op6(a); break;
        case 7: vfu::step(7); op7(b); break;
        case 8: vfu::step(8); op8(a, b); break;
        case 9: vfu::step(9); op9(a, q); break;
        case 13: { vfu::step(13); ADL &x = a; a = std::move(x); break; }
        default: break;
        }
    }
    vfu::step(10);
}
VF size_t vf_sz_qstats_running() { return offsetof(MessageQueueBase::RunningStateStats, runningCount); }
VF size_t vf_sz_qstats_high() { return offsetof(MessageQueueBase::RunningStateStats, highWatermark); }
VF size_t vf_sz_qstats_size() { return offsetof(MessageQueueBase::RunningStateStats, size); }
