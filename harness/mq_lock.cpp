// The dispatch lock of a MessageQueue (C20).
#include "MessageQueue.hpp"
#include "vp.h"
#include <utility>
#include <new>
using namespace ReiserRT::Core;
#ifndef MODE    // 0: one thread's operations on lock objects, 1: threads that hold the lock against threads that dispatch, 2: locking disabled
#define MODE 0
#endif
#ifndef NOPS
#define NOPS 4
#endif
#ifndef NSLOT
#define NSLOT 2
#endif
#ifndef NQ
#define NQ 1
#endif
#ifndef ND      // threads that dispatch KD messages each
#define ND 1
#endif
#ifndef KD
#define KD 1
#endif
#ifndef NL      // threads that hold the lock
#define NL 1
#endif
#ifndef KL      // what they do while they hold it, -1: any
#define KL -1
#endif
#ifndef FAILS   // dispatches may throw
#define FAILS 0
#endif
#ifndef WAKE
#define WAKE 0
#endif
typedef MessageQueue::AutoDispatchLock Lock; typedef Lock::NativeHandleType Native;
static MessageQueue *q[2]; static Native nat[2];
static struct G { int inDispatch, holding, ran; } g;
struct Msg : MessageBase { int id; Msg(int i) : id(i) {} void dispatch() override {
    vp_assert(!g.holding, "a message is dispatched while another thread holds the dispatch lock"); vp_assert(!g.inDispatch, "two dispatches overlap"); g.inDispatch = 1; vp_yield(); g.inDispatch = 0; g.ran++;
    if (FAILS && vp_nondet(1, "dispatch throws")) throw 8; } const char *name() const override { return "Msg"; } };
static void disp(void *) { vp_yield(); for (int k = 0; k < KD; k++) { int o = 0; try { if (WAKE) q[0]->getAndDispatch([] { vp_yield(); }); else q[0]->getAndDispatch(); } catch (int e) { o = e; } vp_assert(o == 0 || (FAILS && o == 8), "getAndDispatch fails"); } }
static void enter() { vp_assert(!g.holding, "two threads hold the dispatch lock"); vp_assert(!g.inDispatch, "the dispatch lock is obtained while a message is being dispatched"); g.holding = 1; vp_yield(); }
static void leave() { g.holding = 0; }
static void holder(void *) {
    vp_yield(); int what = KL < 0 ? (int)vp_nondet(2, "what") : KL;
    if (what == 0) { Lock l = q[0]->getAutoDispatchLock(); enter(); leave(); }
    else if (what == 1) { Lock l = q[0]->getAutoDispatchLock(); enter(); leave(); l.unlock(); vp_yield(); l.lock(); enter(); leave(); }
    else if (what == 2) { Lock l = q[0]->getAutoDispatchLock(); enter(); { Lock m(std::move(l)); vp_yield(); leave(); } vp_yield(); }
    else { Lock l = q[0]->getAutoDispatchLock(); enter(); leave(); l.unlock(); Lock m = q[0]->getAutoDispatchLock(); enter(); l = std::move(m); vp_yield(); leave(); }
}
extern "C" void vp_main() {
    vp_ghost(&g);
#if MODE == 0
    for (int i = 0; i < NQ; i++) { q[i] = new MessageQueue(1, sizeof(Msg), true); Lock l = q[i]->getAutoDispatchLock(); nat[i] = l.native_handle(); vp_assert(nat[i] && vp_mutex_owner(nat[i]) != 0, "construction does not lock"); }
    int me = vp_self() + 1;
    { alignas(Lock) unsigned char mem[NSLOT][sizeof(Lock)]; Lock *o[NSLOT]; int exists[NSLOT] = {}, of[NSLOT], locked[NSLOT] = {}; for (int i = 0; i < NSLOT; i++) o[i] = (Lock *)mem[i];
      for (int k = 0; k < NOPS; k++) {
int op = k == 0 ? 0 : (int)vp_split(3, "operation"); if (op > 5) return; int i = k == 0 ? 0 : (int)vp_split(NSLOT > 2 ? 2 : 1, "object"); if (i >= NSLOT || (op == 0 || op == 4) == !!exists[i]) return;
        int j = op == 4 && NSLOT == 2 ? 1 - i : op >= 4 ? (int)vp_split(NSLOT > 2 ? 2 : 1, "other object") : 0, w = NQ > 1 && op == 0 && k ? (int)vp_split(1, "queue") : 0; if (j >= NSLOT || (op >= 4 && !exists[j])) return;
        int held[2] = {0, 0}; for (int s = 0; s < NSLOT; s++) if (exists[s] && locked[s]) held[of[s]] = 1;
        if (op == 0 && !exists[i] && !held[w]) { new (mem[i]) Lock(q[w]->getAutoDispatchLock()); exists[i] = 1; of[i] = w; locked[i] = 1; vp_reach("created"); }
        else if (op == 1 && exists[i]) { o[i]->~Lock(); exists[i] = 0; locked[i] = 0; vp_reach("destroyed"); }
        else if (op == 2 && exists[i]) { o[i]->unlock(); locked[i] = 0; vp_reach("unlocked"); }
        else if (op == 3 && exists[i] && (of[i] < 0 || !held[of[i]])) { o[i]->lock(); if (of[i] >= 0) { locked[i] = 1; vp_reach("locked again"); } }
        else if (op == 4 && !exists[i] && exists[j]) { new (mem[i]) Lock(std::move(*o[j])); exists[i] = 1; of[i] = of[j]; locked[i] = locked[j]; of[j] = -1; locked[j] = 0; vp_reach("moved"); }
        else if (op == 5 && exists[i] && exists[j]) { Lock &from = *o[j]; *o[i] = std::move(from); if (i != j) { of[i] = of[j]; locked[i] = locked[j]; of[j] = -1; locked[j] = 0; vp_reach("move assigned"); } }
        else return; // nothing that may be done
        held[0] = held[1] = 0; for (int s = 0; s < NSLOT; s++) if (exists[s] && locked[s]) held[of[s]] = 1;
        for (int x = 0; x < NQ; x++) { int own = vp_mutex_owner(nat[x]); vp_assert(held[x] || own == 0, "the lock is held although no object is in the locked state"); vp_assert(!held[x] || own == me, "the lock is not held although an object is in the locked state"); }
        for (int s = 0; s < NSLOT; s++) if (exists[s]) vp_assert(o[s]->native_handle() == (of[s] < 0 ? nullptr : nat[of[s]]), "native_handle is not that of the queue's lock");
      }
      for (int s = 0; s < NSLOT; s++) if (exists[s]) o[s]->~Lock();
    }
    for (int i = 0; i < NQ; i++) { vp_assert(vp_mutex_owner(nat[i]) == 0, "the lock is held although no object is left"); q[i]->emplace<Msg>(1); int r = g.ran; q[i]->getAndDispatch(); vp_assert(g.ran == r + 1, ""); delete q[i]; }
#elif MODE == 1
    q[0] = new MessageQueue(ND * KD > 0 ? ND * KD : 1, sizeof(Msg), true); for (int i = 0; i < ND * KD; i++) q[0]->emplace<Msg>(i);
    for (int i = 0; i < ND; i++) vp_spawn(disp, nullptr); for (int i = 0; i < NL; i++) vp_spawn(holder, nullptr); vp_run();
    for (int i = 0; i < ND + NL; i++) vp_assert(vp_done(1 + i), "a thread stays blocked although the dispatch lock is free"); vp_assert(g.ran == ND * KD, "a message is not dispatched");
    { Lock l = q[0]->getAutoDispatchLock(); nat[0] = l.native_handle(); } vp_assert(vp_mutex_owner(nat[0]) == 0, "the lock is held although no object is left"); delete q[0];
#else
    q[0] = new MessageQueue(1, sizeof(Msg), false); int out = 0; bool have = vp_nondet(1, "message queued"); if (have) q[0]->emplace<Msg>(1); uint64_t live = vp_heap_live();
    try { Lock l = q[0]->getAutoDispatchLock(); } catch (MessageQueueDispatchLockingDisabled &) { out = 1; } catch (...) { out = 2; } vp_assert(out == 1, "getAutoDispatchLock does not throw MessageQueueDispatchLockingDisabled"); (void)live;
    if (have) { q[0]->getAndDispatch(); vp_assert(g.ran == 1, "a message is not dispatched"); } delete q[0];
    { MessageQueue d(1, sizeof(Msg)); out = 0; try { d.getAutoDispatchLock(); } catch (MessageQueueDispatchLockingDisabled &) { out = 1; } vp_assert(out == 1, "getAutoDispatchLock does not throw MessageQueueDispatchLockingDisabled"); }
#endif
    vp_assert(vp_heap_live() == 0, "memory is not released"); vp_reach("done");
}
