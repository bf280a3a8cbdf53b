// Abort of a Semaphore in the middle of takes and gives, and its destruction with threads waiting.
#include "Semaphore.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include "vp.h"
using namespace ReiserRT::Core;
#ifndef NTAKE
#define NTAKE 1
#endif
#ifndef NGIVE
#define NGIVE 1
#endif
#ifndef NA       // aborting threads (0: the destructor aborts)
#define NA 1
#endif
#ifndef KA       // aborts per thread
#define KA 1
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef SPUR
#define SPUR 0
#endif
#ifndef FUN      // bit 0: plain, bit 1: functor, bit 2: throwing functor
#define FUN 3
#endif
#ifndef FULL
#define FULL 0
#endif
static Semaphore *sem; struct Boom {};
struct G { uint32_t takes, gives, aborted, inside, late; uint32_t calls; } g;
static uint8_t fk[8][4]; static uint64_t init, mx;
static void oper(int t, int k, bool take) {
    int kind = fk[t][k], calls = 0, outcome = 0;
    vp_yield(); bool late = g.aborted;
    try {
        if (kind == 0) { if (take) sem->take(); else sem->give(); }
        else { Semaphore::FunctionType f = [kind, &calls] { calls++; if (kind == 2) throw Boom{}; }; if (take) sem->take(f); else sem->give(f); }
        outcome = 1;
    } catch (Boom &) { outcome = 2; } catch (SemaphoreAborted &) { outcome = 3; } catch (...) { outcome = 4; }
    vp_assert(outcome != 4, "an operation fails with an unexpected exception");
    if (late) { g.late++; vp_assert(outcome == 3, "an operation started after abort does not throw SemaphoreAborted"); }
    if (outcome == 3) vp_assert(calls == 0, "an operation that throws SemaphoreAborted invoked its functor");
    if (outcome == 1) { if (take) g.takes++; else g.gives++; }
}
static void taker(void *p) { for (int k = 0; k < NOPS; k++) oper((int)(long)p, k, true); }
static void giver(void *p) { for (int k = 0; k < NOPS; k++) oper((int)(long)p, k, false); }
static void abrt(void *) { for (int k = 0; k < KA; k++) { sem->abort(); g.aborted = 1; } }
static void destroy(void *) { delete sem; g.aborted = 1; }
extern "C" void vp_main() {
    vp_ghost(&g); vp_ghost(fk);
#if FULL
    init = VP_U64("initial"); mx = VP_U64("max"); if (init > 0xffffffffull) init = 0xffffffffull; if (mx > 0xffffffffull) mx = 0;
#else
    init = vp_range(0, 2, "initial"); mx = vp_range(0, 3, "max");
#endif
    sem = new Semaphore(init, mx); if (mx == 0) mx = 0xffffffffull; if (mx < init) mx = init;
    vp_assume(mx < 0xffffffffull || init + NOPS * NGIVE < 0xffffffffull);
    for (int t = 0; t < NTAKE + NGIVE; t++) for (int k = 0; k < NOPS; k++) { uint8_t f = 0; if (FUN == 1) f = 0; else if (FUN == 2) f = 1; else { f = (uint8_t)vp_nondet(2, "functor"); vp_assume((FUN >> f) & 1); } fk[t][k] = f; }
    for (int t = 0; t < NTAKE; t++) vp_spawn(taker, (void *)(long)t);
    for (int t = 0; t < NGIVE; t++) vp_spawn(giver, (void *)(long)(NTAKE + t));
    for (int t = 0; t < NA; t++) vp_spawn(abrt, nullptr);
#if SPUR
    vp_spurious(SPUR);
#endif
#if NA
    vp_run(); bool all = true; for (int t = 1; t <= NTAKE + NGIVE; t++) if (!vp_done(t)) all = false;
    for (int t = 0; t < NA; t++) vp_assert(vp_done(1 + NTAKE + NGIVE + t), "abort does not return");
    vp_assert(all, "a thread stays blocked after abort");
    uint64_t c = sem->getAvailableCount(); vp_assert(c + g.takes == init + g.gives, "abort made an operation change the available count without completing");
    // permanent
    int calls = 0; Semaphore::FunctionType f = [&calls] { calls++; };
    for (int round = 0; round < 2; round++) for (int what = 0; what < 4; what++) {
        int o = 0; try { if (what == 0) sem->take(); else if (what == 1) sem->give(); else if (what == 2) sem->take(f); else sem->give(f); o = 1; } catch (SemaphoreAborted &) { o = 2; } catch (...) { o = 3; }
        vp_assert(o == 2, "an operation after abort does not throw SemaphoreAborted"); vp_assert(calls == 0, "an operation after abort invoked its functor"); vp_assert(sem->getAvailableCount() == c, "an operation after abort changed the available count");
        if (what == 3) sem->abort();
    }
    if (g.late == NOPS * (NTAKE + NGIVE)) vp_reach("abort comes first"); if (g.late == 0) vp_reach("abort comes last");
    delete sem;
#else
    vp_run(); bool blocked = false; for (int t = 1; t <= NTAKE + NGIVE; t++) if (!vp_done(t)) blocked = true;
    int d = vp_spawn(destroy, nullptr); vp_run();
    vp_assert(vp_done(d), "the destructor does not return"); for (int t = 1; t <= NTAKE + NGIVE; t++) vp_assert(vp_done(t), "destruction leaves a thread blocked");
    if (blocked) vp_reach("destroyed with threads waiting");
#endif
    vp_assert(vp_heap_live() == 0, "memory is not released"); vp_reach("done");
}
