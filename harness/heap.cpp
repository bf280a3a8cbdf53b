// No heap allocation once constructed, everything released on destruction (C25).
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "vp.h"
#include <utility>
#include <new>
using namespace ReiserRT::Core;
#ifndef KIND    // 0 RingBufferSimple, 1 RingBufferGuarded, 2 ObjectPool, 3 BlockPool, 4 MessageQueue
#define KIND 0
#endif
#ifndef NOPS
#define NOPS 5
#endif
#ifndef N
#define N 2
#endif
#ifndef TYPE
#define TYPE uint32_t
#endif
#ifndef THREADS
#define THREADS 0
#endif
#ifndef LOCKING
#define LOCKING 0
#endif
#ifndef PRIMED
#define PRIMED 0
#endif
#ifndef FUNC    // the message queue is emptied through a wakeup functor
#define FUNC 0
#endif
struct Base { uint64_t a; Base(uint64_t x) : a(x) {} virtual ~Base() {} }; struct Derived : Base { uint64_t b; Derived(uint64_t x, uint64_t y) : Base(x), b(y) {} };
struct Elem { uint32_t v; Elem() : v(3) {} ~Elem() {} };
static int dispatched;
struct Msg : MessageBase { uint64_t x[2]; Msg(uint64_t a) { x[0] = a; x[1] = ~a; } void dispatch() override { dispatched++; } };
struct Big : MessageBase { uint64_t x[4]; Big(uint64_t a) { x[0] = a; } Big(Big &&o) noexcept { x[0] = o.x[0]; } void dispatch() override { dispatched++; } const char *name() const override { return "Big"; } };
static uint64_t before;
#if KIND == 0
typedef RingBufferSimple<TYPE> Thing;
#elif KIND == 1
typedef RingBufferGuarded<TYPE> Thing;
#elif KIND == 2
typedef ObjectPool<Base> Thing;
#elif KIND == 3
typedef BlockPool<TYPE> Thing;
#else
typedef MessageQueue Thing;
#endif
static Thing *t; static MessageQueue::WakeupCallFunctionType *wake;
static void put(int i) { (void)i;
#if KIND <= 1
    t->put((TYPE)(uintptr_t)i);
#elif KIND == 4
    if (i & 1) t->put(Big(uint64_t(i))); else t->emplace<Msg>(uint64_t(i));
#endif
}
static void get() {
#if KIND <= 1
    (void)t->get();
#elif KIND == 4
    if (FUNC) t->getAndDispatch(*wake); else t->getAndDispatch();
#endif
}
static void look() {
#if KIND <= 1
    (void)(t->getSize() + t->getMask() + t->getNumBits());
#elif KIND == 4
    (void)t->getRunningStateStatistics(); (void)t->getNameOfLastMessageDispatched(); if (LOCKING) { auto l = t->getAutoDispatchLock(); l.unlock(); l.lock(); }
#else
    (void)t->getRunningStateStatistics(); (void)t->getSize();
#endif
}
static void one(void *) { vp_yield();
#if KIND == 2
    { auto p = t->createObj<Derived>(uint64_t(1), uint64_t(2)); look(); } { auto p = t->createObj<Base>(uint64_t(1)); auto q = std::move(p); }
#elif KIND == 3
    { auto p = t->getBlock(); look(); } { auto p = t->getBlock(); auto q = std::move(p); }
#else
    put(1); put(2); look();
#endif
}
static void two(void *p) { vp_yield();
#if KIND == 2 || KIND == 3
    one(p);
#else
    get(); look(); get(); (void)p;
#endif
}
extern "C" void vp_main() {
    vp_ghost(&dispatched); static char keep; wake = new MessageQueue::WakeupCallFunctionType([a = &dispatched, b = &before, c = &keep, d = &t] { (void)a; (void)b; (void)c; (void)d; }); before = vp_heap_live();
#if KIND == 0
    t = new Thing(N);
#elif KIND == 1
    t = new Thing(N, PRIMED); if (PRIMED) { RingBufferGuarded<TYPE>::PrimingFunctionType f = [](size_t) { return TYPE(); }; t->prime(f); }
#elif KIND == 2
    t = new Thing(N, sizeof(Derived));
#elif KIND == 3
    t = new Thing(N, 3);
#else
    t = new Thing(N, sizeof(Big), LOCKING);
#endif
    vp_heap_forbid(1);
#if THREADS
    vp_spawn(one, nullptr); vp_spawn(two, nullptr); vp_run(); vp_assert(vp_done(1) && vp_done(2), "an operation does not return");
#elif KIND == 2 || KIND == 3
#if KIND == 2
    Thing::ObjectPtrType h[N];
#else
    Thing::BlockPtrType h[N];
#endif
    for (int k = 0; k < NOPS; k++) { int op = (int)vp_split(2, "operation"), i = (int)vp_split(1, "owner"); if (i >= N || op == 3) return;
        if (op == 0) {
#if KIND == 2
            h[i].reset(); if (k & 1) h[i] = t->createObj<Derived>(uint64_t(k), uint64_t(7)); else h[i] = t->createObj<Base>(uint64_t(k));
#else
            h[i].reset(); h[i] = t->getBlock();
#endif
        } else if (op == 1) h[i].reset(); else look(); }
    for (int i = 0; i < N; i++) h[i].reset();
#else
    int held = PRIMED ? N : 0; for (int k = 0; k < NOPS; k++) { int op = (int)vp_split(2, "operation"); if (op == 0 && held < N) { put(k); held++; } else if (op == 1 && held) { get(); held--; } else if (op == 2) look(); else return; }
#if KIND == 4
    if (vp_split(1, "purge")) t->purge();
#endif
#endif
    vp_heap_forbid(0); delete t; vp_assert(vp_heap_live() == before, "memory is not released"); vp_reach("done");
}
