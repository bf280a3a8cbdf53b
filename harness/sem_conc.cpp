// Concurrent takes and gives on one Semaphore: every kind of functor, every schedule.
// NTAKE takers and NGIVE givers (plus NMIX threads whose operations are symbolic), NOPS operations each.
#include "Semaphore.hpp"
#include "vp.h"
using namespace ReiserRT::Core;
#ifndef NTAKE
#define NTAKE 1
#endif
#ifndef NGIVE
#define NGIVE 1
#endif
#ifndef NMIX
#define NMIX 0
#endif
#ifndef PAT      // operations of the mixed threads (bit set: take); 0: symbolic
#define PAT 0
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef SPUR
#define SPUR 0
#endif
#ifndef FUN      // bit 0: plain, bit 1: functor, bit 2: throwing functor, bit 3: empty functor
#define FUN 1
#endif
#ifndef NOBS     // threads that read the available count
#define NOBS 0
#endif
#ifndef NA       // threads that abort (data races only)
#define NA 0
#endif
#ifndef FULL     // full-width initial count and maximum
#define FULL 1
#endif
static Semaphore *sem; struct Boom {};
struct G { uint32_t takes, gives, inside, over; int64_t avail; } g;
static bool isTake[8][4]; static uint8_t fk[8][4]; static bool waiting[8]; static uint8_t doing[8];
static uint64_t init, mx;
static void body(bool take, int kind, int &calls) {
    vp_assert(g.inside == 0, "a functor runs while another functor of the same semaphore is running"); g.inside = 1;
    calls++;
#if P_C04 && !(FUN & 1)
    if (take) vp_assert(g.avail > 0, "a take functor runs although no unit was available");
    else vp_assert((uint64_t)g.avail < mx, "a give functor runs although there was no room");
#endif
#if P_C04
    vp_assert(calls == 1, "a functor is invoked more than once");
#endif
    if (kind == 2) { g.inside = 0; throw Boom{}; }
    if (take) g.avail--; else g.avail++;
    g.inside = 0;
}
static void oper(int t, int k) {
    bool take = isTake[t][k]; int kind = fk[t][k]; int calls = 0; int outcome = 0;
    doing[t] = take ? 1 : 2;
    try {
        if (kind == 0) { if (take) sem->take(); else sem->give(); }
        else if (kind == 3) { Semaphore::FunctionType e; if (take) sem->take(e); else sem->give(e); }
        else { Semaphore::FunctionType f = [take, kind, &calls] { body(take, kind, calls); }; if (take) sem->take(f); else sem->give(f); }
        outcome = 1;
    } catch (Boom &) { outcome = 2; } catch (std::bad_function_call &) { outcome = 3; } catch (...) { outcome = 4; }
#if P_C04
    if (kind == 1) vp_assert(outcome == 1 && calls == 1, "an operation whose functor returned did not complete, or the functor did not run exactly once");
    if (kind == 2) vp_assert(outcome == 2, "an exception thrown by the functor does not reach the caller");
    if (kind == 3) vp_assert(outcome == 3, "an empty functor is not reported by an exception");
#endif
    vp_assert(outcome != 4, "an operation fails with an unexpected exception");
    if (outcome == 1) { if (take) g.takes++; else g.gives++; }
    doing[t] = 0;
}
static void obs(void *) { for (int k = 0; k < 2; k++) { uint64_t c = sem->getAvailableCount(); (void)c;
#if P_C01
    vp_assert(c <= mx, "available count exceeds the maximum");
#endif
} }
static void abrt(void *) { sem->abort(); }
static void thr(void *p) { int t = (int)(long)p; for (int k = 0; k < NOPS; k++) oper(t, k); }
extern "C" void vp_main() {
    vp_ghost(&g); vp_ghost(isTake); vp_ghost(fk); vp_ghost(doing);
#if FULL
    init = VP_U64("initial"); mx = VP_U64("max");
    if (init > 0xffffffffull) init = 0xffffffffull;
    if (mx > 0xffffffffull) mx = 0;
#else
    init = vp_range(0, 3, "initial"); mx = vp_range(0, 3, "max");
#endif
    sem = new Semaphore(init, mx);
    if (mx == 0) mx = 0xffffffffull; if (mx < init) mx = init;
    vp_assume(mx < 0xffffffffull || init + NOPS * (NGIVE + NMIX) < 0xffffffffull); // overflow is C05's subject
    g.avail = (int64_t)init;
    int n = NTAKE + NGIVE + NMIX; bool anyF = false;
    for (int t = 0; t < n; t++) for (int k = 0; k < NOPS; k++) {
        isTake[t][k] = t < NTAKE ? true : t < NTAKE + NGIVE ? false : PAT ? (PAT >> ((t - NTAKE - NGIVE) * NOPS + k)) & 1 : VP_BOOL("take");
        uint8_t f = 0;
        if (FUN == 1) f = 0; else if (FUN == 2) f = 1; else if (FUN == 4) f = 2; else { f = (uint8_t)vp_nondet(2, "functor"); vp_assume((FUN >> f) & 1); }
        fk[t][k] = f;
    }
    for (int t = 0; t < n; t++) vp_spawn(thr, (void *)(long)t);
    for (int t = 0; t < NOBS; t++) vp_spawn(obs, nullptr); for (int t = 0; t < NA; t++) vp_spawn(abrt, nullptr);
#if SPUR
    vp_spurious(SPUR);
#endif
    vp_run();
    bool bt = false, bg = false; for (int t = 0; t < n; t++) if (vp_blocked(t + 1)) { if (doing[t] == 1) bt = true; if (doing[t] == 2) bg = true; }
    uint64_t c = sem->getAvailableCount();
#if P_C01
    vp_assert(c + g.takes == init + g.gives, "available count differs from initial + gives - takes");
    vp_assert(c <= mx, "available count exceeds the maximum");
#endif
#if P_C04
    vp_assert(c + g.takes == init + g.gives, "an operation whose functor threw changed the available count");
    if (!bt && c > 0) { sem->take(); vp_assert(sem->getAvailableCount() == c - 1, "the semaphore is unusable after a functor threw"); }
#endif
#if P_C02
    vp_assert(!(bt && c > 0), "a taker stays blocked although units are available");
    vp_assert(!(bg && c < mx), "a giver stays blocked although the count is below the maximum");
#endif
    vp_assert(g.inside == 0, "functor bookkeeping");
    bool all = true; for (int t = 0; t < n; t++) if (vp_blocked(t + 1)) all = false;
    if (all) vp_reach("all operations complete");
#if !NOBLOCK
    if (!all) vp_reach("some thread stays blocked");
#endif
}
