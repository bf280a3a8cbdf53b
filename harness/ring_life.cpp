// Life cycle of RingBufferGuarded: priming, regular use, abort and flush in every order.
#include "RingBufferGuarded.hpp"
#include "vp.h"
using namespace ReiserRT::Core;
struct Obj { int x; };
#ifndef TYPE
#define TYPE uint64_t
#endif
#ifndef MODE   // 0: one thread, symbolic operations; 1: prime racing abort; 2: prime racing get/put
#define MODE 0
#endif
#ifndef NOPS
#define NOPS 5
#endif
#ifndef MINN
#define MINN 1
#endif
#ifndef MAXN
#define MAXN 3
#endif
#ifndef FULLV // arbitrary element values
#define FULLV 0
#endif
#ifndef NG
#define NG 1
#endif
typedef TYPE T; typedef RingBufferGuarded<T> R;
template <class X> struct Mk { static X of(uint64_t v) { return (X)v; } };
template <class X> struct Mk<X *> { static X *of(uint64_t v) { return (X *)v; } };
static R *r; static uint64_t n; static bool willPrime;
enum { NEEDS, READY, TERM };
static struct G { int state, primeCalls, head, tail, aborted, primed, aborting; T ref[16]; T fl[16]; int nfl; int gets, puts, primeOut, bad; T pv[16]; T got[8]; int ngot; } g;
static T seed[16];
static T primer(size_t i) { vp_assert(i == (size_t)g.primeCalls, "prime does not pass the indices 0,1,2,... once each"); vp_assert(i < n, "prime asks for more elements than requested"); g.primeCalls++; return seed[i]; }
static int put(T v) { try { r->put(v); return 0; } catch (RingBufferStateError &) { return 1; } catch (SemaphoreAborted &) { return 2; } catch (...) { return 3; } }
static int get(T &v) { try { v = r->get(); return 0; } catch (RingBufferStateError &) { return 1; } catch (SemaphoreAborted &) { return 2; } catch (...) { return 3; } }
static int prime() { try { r->prime([](size_t i) { return primer(i); }); return 0; } catch (RingBufferStateError &) { return 1; } catch (...) { return 3; } }
static int flush() { g.nfl = 0; try { r->flush([](auto v) { g.fl[g.nfl & 15] = (T)v; g.nfl++; }); return 0; } catch (RingBufferStateError &) { return 1; } catch (...) { return 3; } }
static void checkFlush() { vp_assert(g.nfl == g.tail - g.head, "flush does not hand over exactly the elements not yet removed"); for (int i = 0; i < g.tail - g.head; i++) vp_assert(g.fl[i] == g.ref[g.head + i], "flush hands over other elements, or in another order"); g.head = g.tail; }
static void tprime(void *) { vp_yield(); bool late = g.aborted; g.primeOut = prime(); g.primed = 1; vp_assert(g.primeOut == 0 || (g.primeOut == 1 && g.aborting), "prime fails"); if (late) vp_assert(g.primeOut == 1, "prime after abort is not rejected"); }
static void tabort(void *) { vp_yield(); g.aborting = 1; r->abort(); g.aborted = 1; }
static void tgetput(void *p) {
    T v; vp_yield(); int before = g.primed; int o = get(v);
    if (o == 0) { vp_assert(g.primeCalls == (int)n, "get succeeds before prime has stored the requested elements"); g.got[g.ngot++] = v; int q = put(v); vp_assert(q == 0, "put fails after a get succeeded"); }
    else { vp_assert(o == 1 && !before, "get fails although the ring was primed"); }
}
extern "C" void vp_main() {
    vp_ghost(&g); vp_ghost(&seed); vp_ghost(&r); vp_ghost(&n);
    n = MINN == MAXN ? MINN : vp_range(MINN, MAXN, "requested");
    for (int i = 0; i < 16; i++) seed[i] = FULLV && i < 4 ? Mk<T>::of(vp_nondet(8 * sizeof(T), "element")) : Mk<T>::of(i * 37 + 11);
#if MODE == 0
    willPrime = VP_BOOL("will prime"); r = new R(n, willPrime); g.state = willPrime ? NEEDS : READY;
    int flushed = 0, everPrimed = 0;
    for (int k = 0; k < NOPS; k++) {
        unsigned op = (unsigned)vp_nondet(3, "operation"); vp_assume(op < 5);
        if (op == 0) { // get; only when it cannot block
            if (g.state == READY && g.head == g.tail) continue;
            T v; int o = get(v);
            if (g.state == READY) { vp_assert(o == 0, "get fails in the ready state"); vp_assert(v == g.ref[g.head], "get returns another element than the oldest"); g.head++; } else if (g.state == NEEDS) vp_assert(o == 1, "get before priming is not rejected with RingBufferStateError"); else vp_assert(o == 1 || o == 2, "get after abort does not throw");
        } else if (op == 1) {
            if (g.state == READY && (uint64_t)(g.tail - g.head) == n) continue;
            T v = seed[(k + 1) & 3]; int o = put(v);
            if (g.state == READY) { vp_assert(o == 0, "put fails in the ready state"); g.ref[g.tail++] = v; } else if (g.state == NEEDS) vp_assert(o == 1, "put before priming is not rejected with RingBufferStateError"); else vp_assert(o <= 2, "put after abort fails in another way");
        } else if (op == 2) {
            g.primeCalls = 0; int o = prime();
            if (g.state == NEEDS) { vp_assert(o == 0, "prime fails"); vp_assert((uint64_t)g.primeCalls == n, "prime did not store the requested number of elements"); for (uint64_t i = 0; i < n; i++) g.ref[g.tail++] = seed[i]; g.state = READY; everPrimed = 1; } else { vp_assert(o == 1, "prime is not rejected with RingBufferStateError"); vp_assert(g.primeCalls == 0, "a rejected prime asked for elements"); }
        } else if (op == 3) {
            int o = flush(); if (g.state == TERM) { vp_assert(o == 0, "flush fails after abort"); checkFlush(); flushed++; } else { vp_assert(o == 1, "flush without abort is not rejected with RingBufferStateError"); vp_assert(g.nfl == 0, "a rejected flush handed over elements"); }
        } else { r->abort(); g.state = TERM; }
    }
    if (everPrimed && flushed) vp_reach("primed, then flushed"); if (flushed == 2) vp_reach("flushed twice"); if (flushed && willPrime && !everPrimed) vp_reach("flushed without priming");
    if (g.state != TERM) r->abort();
    g.state = TERM; int o = flush(); vp_assert(o == 0, "flush fails after abort"); checkFlush();
    delete r; vp_assert(vp_heap_live() == 0, "memory is not released");
#elif MODE == 1
    r = new R(n, true); int p = vp_spawn(tprime, nullptr), a = vp_spawn(tabort, nullptr); vp_run();
    vp_assert(vp_done(p) && vp_done(a), "prime or abort does not return");
    T v; int o = get(v); vp_assert(o == 1 || o == 2, "get after abort does not throw"); o = put(seed[0]); vp_assert(o <= 2, "put after abort fails in another way");
    g.tail = g.primeCalls; for (int i = 0; i < g.primeCalls; i++) g.ref[i] = seed[i];
    o = flush(); vp_assert(o == 0, "flush fails after abort"); int got = g.nfl; checkFlush();
    if (got == 0) vp_reach("aborted before priming");
    if ((uint64_t)got == n) vp_reach("aborted after priming");
#if MINN > 1
    if (got == 1) vp_reach("aborted while priming");
#endif
    o = flush(); vp_assert(o == 0 && g.nfl == 0, "a second flush hands over elements again");
    delete r; vp_assert(vp_heap_live() == 0, "memory is not released");
#else
    r = new R(n, true); vp_spawn(tprime, nullptr); for (int i = 0; i < NG; i++) vp_spawn(tgetput, nullptr); vp_run();
    for (int t = 1; t <= 1 + NG; t++) vp_assert(vp_done(t), "a thread stays blocked");
    vp_assert(g.primeOut == 0, "prime fails"); if (g.ngot == NG) vp_reach("got after priming"); if (g.ngot == 0) vp_reach("rejected before priming");
    for (int i = 0; i < g.ngot; i++) vp_assert(g.got[i] == seed[i % n], "a get after priming returns another element than the one primed first");
    r->abort(); int o = flush(); vp_assert(o == 0, "flush fails"); vp_assert((uint64_t)g.nfl == n, "flush does not hand over exactly the elements not yet removed");
#endif
    vp_reach("done");
}
