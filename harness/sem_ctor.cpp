// Construction of a Semaphore for all size_t arguments, and giving at the limit.
#include "Semaphore.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include "vp.h"
using namespace ReiserRT::Core;
#ifndef MODE   // 0: default arguments and clamping, maximum observed by a giver; 1: overflow with racing givers
#define MODE 0
#endif
static Semaphore *sem; struct G { int gave, over, other, calls; } g;
static const uint64_t LIM = 0xffffffffull;
#ifndef FUNCTOR
#define FUNCTOR 0
#endif
static void give(void *) {
    try {
#if FUNCTOR
        Semaphore::FunctionType f = [] { g.calls++; }; sem->give(f);
#else
        sem->give();
#endif
        g.gave++;
    } catch (SemaphoreOverflow &) { g.over++; } catch (...) { g.other++; }
}
static void take(void *) { sem->take(); }
extern "C" void vp_main() {
    vp_ghost(&g);
    uint64_t i = VP_U64("initial"), m = VP_U64("max");
    uint64_t ei = i < LIM ? i : LIM, em = (m == 0 || m > LIM) ? LIM : m < ei ? ei : m;
#if MODE == 0
    sem = new Semaphore(i, m);
    vp_assert(sem->getAvailableCount() == ei, "the initial available count is not min(initial, 2^32-1)");
    int t = vp_spawn(give, nullptr); vp_run();
    if (ei == LIM) { vp_assert(vp_done(t) && g.over == 1 && g.gave == 0 && g.calls == 0, "a give at 2^32-1 does not throw SemaphoreOverflow"); vp_assert(sem->getAvailableCount() == LIM, "a give at 2^32-1 changes the count"); vp_reach("overflow"); }
    else if (ei < em) { vp_assert(vp_done(t) && g.gave == 1, "a give below the maximum does not complete"); vp_assert(sem->getAvailableCount() == ei + 1, "a give did not add one unit"); vp_reach("room"); }
    else { vp_assert(vp_blocked(t), "a give at the maximum completes"); vp_assert(sem->getAvailableCount() == ei, "a waiting give changes the count"); vp_reach("at the maximum"); }
    // the maximum is not only above the initial count but exactly em: fill it when it is near
    if (vp_done(t) && g.gave && em - ei <= 4) {
        for (int k = 1; k < 4; k++) if (ei + 1 + (k - 1) < em) { bool ok = true; try { sem->give(); } catch (...) { ok = false; } vp_assert(ok, "a give below the maximum fails"); }
        vp_assert(sem->getAvailableCount() == em, "the count does not reach the maximum");
        int t2 = vp_spawn(give, nullptr); vp_run();
        if (em == LIM) { vp_assert(vp_done(t2) && g.over == 1, "a give at 2^32-1 does not throw SemaphoreOverflow"); vp_reach("overflow by giving"); } else { vp_assert(vp_blocked(t2), "a give at the maximum completes"); vp_reach("filled"); }
        vp_assert(sem->getAvailableCount() == em, "a give at the maximum changes the count");
    }
#elif MODE == 1
    vp_assume(ei >= LIM - 2 && em == LIM);
    sem = new Semaphore(i, m);
    vp_spawn(give, nullptr); vp_spawn(give, nullptr); vp_spawn(give, nullptr); vp_run();
    vp_assert(vp_done(1) && vp_done(2) && vp_done(3), "a give blocks although overflow is reported by an exception"); vp_assert(g.other == 0, "a give fails with an unexpected exception");
    uint64_t room = LIM - ei; vp_assert((uint64_t)g.gave == room, "gives at the limit: not exactly the remaining room was given"); vp_assert(sem->getAvailableCount() == LIM, "the count is not 2^32-1 after reaching it"); vp_assert(!FUNCTOR || g.calls == g.gave, "a functor ran in a give that overflowed");
    if (room == 0) vp_reach("no room"); if (room == 2) vp_reach("room for two");
    sem->take(); vp_assert(sem->getAvailableCount() == LIM - 1, "take after overflow"); g.gave = 0; give(nullptr); vp_assert(g.gave == 1, "a give after a take fails"); vp_assert(sem->getAvailableCount() == LIM, "count");
#else
    // default maximum
    sem = new Semaphore(i); int t = vp_spawn(give, nullptr); vp_run(); vp_assert(sem->getAvailableCount() == (ei == LIM ? LIM : ei + 1), "default maximum"); vp_assert(vp_done(t), "a give on a semaphore without a maximum blocks");
    { Semaphore d( 0 ); vp_assert(d.getAvailableCount() == 0, "default initial count"); } vp_reach("default");
#endif
}
