// Concurrent producers and consumers on one RingBufferGuarded, optionally with an abort.
#include "RingBufferGuarded.hpp"
#include "vp.h"
using namespace ReiserRT::Core;
struct Obj { int x; };
#ifndef TYPE
#define TYPE uint64_t
#endif
#ifndef NP
#define NP 2
#endif
#ifndef NC
#define NC 1
#endif
#ifndef KP      // puts per producer
#define KP 1
#endif
#ifndef KC      // gets per consumer
#define KC 2
#endif
#ifndef NA      // threads that abort
#define NA 0
#endif
#ifndef PRE     // elements put beforehand
#define PRE 0
#endif
#ifndef MAXN    // requested sizes MINN..MAXN
#define MAXN 3
#endif
#ifndef MINN
#define MINN 1
#endif
#ifndef SPUR
#define SPUR 0
#endif
#ifndef PRIMED
#define PRIMED 0
#endif
typedef TYPE T; enum { MSG = NP * KP + PRE };
template <class X> struct Mk { static X of(uint64_t v) { return (X)v; } };
template <class X> struct Mk<X *> { static X *of(uint64_t v) { return (X *)v; } };
static RingBufferGuarded<T> *r; static uint64_t n;
static T val[MSG]; // the low bits identify the message, the rest is arbitrary
static struct G { int putDone[MSG + 1], putOut[MSG + 1], got[MSG + 1], seq[MSG + 1][2], clock, start[MSG + 1], fin[MSG + 1]; int order[NC + 1][MSG + 1], norder[NC + 1]; int gets, puts, aborting, aborted; int inPut[NP + 1], inGet[NC + 1]; int getStart[NC + 1], lastFin; } g;
static int idOf(T v) { for (int i = 0; i < MSG; i++) if (v == val[i]) return i; return -1; }
static void oput(int id) {
    int out = 0; try { r->put(val[id]); } catch (SemaphoreAborted &) { out = 1; } catch (RingBufferStateError &) { out = 2; } catch (RingBufferOverflow &) { out = 3; } catch (...) { out = 4; }
    vp_assert(out != 3, "put reports RingBufferOverflow"); vp_assert(out != 4, "put fails with an unexpected exception"); if (!NA) vp_assert(out == 0, "put fails although nothing was aborted");
    g.putOut[id] = out; g.putDone[id] = 1; if (!out) g.puts++;
}
static void record(int c, T v) {
    int id = idOf(v); vp_assert(id >= 0, "get returns a value that was not put"); vp_assert(!g.got[id], "an element is returned by two gets"); g.got[id] = 1; g.gets++;
    g.order[c][g.norder[c]++] = id;
}
static int oget(int c) {
    int out = 0; T v = T(); try { v = r->get(); } catch (SemaphoreAborted &) { out = 1; } catch (RingBufferStateError &) { out = 2; } catch (RingBufferUnderflow &) { out = 3; } catch (...) { out = 4; }
    vp_assert(out != 3, "get reports RingBufferUnderflow"); vp_assert(out != 4, "get fails with an unexpected exception"); if (!NA) vp_assert(out == 0, "get fails although nothing was aborted");
    if (!out) record(c, v); return out;
}
static void prod(void *p) { int t = (int)(long)p; for (int k = 0; k < KP; k++) { int id = PRE + t * KP + k; g.inPut[t] = 1; if (k > 0) g.start[id] = ++g.clock; oput(id); g.fin[id] = ++g.clock; g.inPut[t] = 0; } }
static void cons(void *p) { int t = (int)(long)p; for (int k = 0; k < KC; k++) { g.inGet[t] = 1; int o = oget(t); g.inGet[t] = 0; if (o) break; } }
static void abrt(void *) { r->abort(); g.aborted = 1; }
static void obs(void *) { (void)(r->getSize() + r->getMask() + r->getNumBits()); }
static bool before(int a, int b) { // put a certainly precedes put b
    if (a < PRE && b < PRE) return a < b; if (a < PRE) return b >= PRE; if (b < PRE) return false;
    if ((a - PRE) / KP == (b - PRE) / KP) return a < b;
    return g.putDone[a] && g.fin[a] && g.start[b] && g.fin[a] < g.start[b];
}
static void checkOrder(int c) { for (int i = 0; i < g.norder[c]; i++) for (int j = i + 1; j < g.norder[c]; j++) vp_assert(!before(g.order[c][j], g.order[c][i]), "elements reach a consumer in another order than they were put"); }
extern "C" void vp_main() {
    vp_ghost(&g);
#if MAXN > 64
    n = vp_range(MINN, MAXN, "requested");
#else
    n = MINN == MAXN ? MINN : vp_range(MINN, MAXN, "requested");
#endif
    for (int i = 0; i < MSG; i++) { uint64_t x = sizeof(T) > 1 ? vp_nondet(8 * sizeof(T) - 8, "value") : 0; val[i] = Mk<T>::of(x << 8 | (uint64_t)i); }
#if PRIMED
    r = new RingBufferGuarded<T>(n, true); vp_assume(n == PRE);
    r->prime([](size_t i) { return val[i]; });
    for (int i = 0; i < PRE; i++) { g.putDone[i] = 1; g.puts++; }
#else
    r = new RingBufferGuarded<T>(n);
    vp_assume(n >= PRE); for (int i = 0; i < PRE; i++) { oput(i); }
#endif
    vp_assert(r->getSize() >= n, "the ring is smaller than requested");
    for (int i = 0; i < NP; i++) vp_spawn(prod, (void *)(long)i);
    for (int i = 0; i < NC; i++) vp_spawn(cons, (void *)(long)i);
    for (int i = 0; i < NA; i++) vp_spawn(abrt, nullptr);
#if NOBS
    vp_spawn(obs, nullptr);
#endif
#if SPUR
    vp_spurious(SPUR);
#endif
    vp_run();
    bool bp = false, bg = false; for (int i = 0; i < NP; i++) if (vp_blocked(1 + i)) bp = true; for (int i = 0; i < NC; i++) if (vp_blocked(1 + NP + i)) bg = true;
    for (int i = 0; i < NA; i++) vp_assert(vp_done(1 + NP + NC + i), "abort does not return");
    if (NA) vp_assert(!bp && !bg, "a thread stays blocked after abort");
    uint64_t held = (uint64_t)(g.puts - g.gets);
#if !NA
    vp_assert(held <= n, "more elements are held than requested");
    vp_assert(!(bp && held < n), "a put stays blocked although there is room"); vp_assert(!(bg && held > 0), "a get stays blocked although elements are held");
#define BAL (PRE + NP * KP - NC * KC)
#if BAL >= 0 && BAL <= MAXN
    if (!bp && !bg) vp_reach("every operation completes");
#endif
#if BAL < 0 || BAL > MINN
    if (bp || bg) vp_reach("some thread stays blocked");
#endif
#else
    { int before = g.gets; bool th = false; try { (void)r->get(); } catch (RingBufferStateError &) { th = true; } catch (SemaphoreAborted &) { th = true; } vp_assert(th, "get does not throw after abort"); (void)before; }
    if (g.gets == 0) vp_reach("abort comes first"); if (g.gets == (NC * KC < MSG ? NC * KC : MSG)) vp_reach("abort comes late");
#endif
    if (NC <= 1 || NA) for (int c = 0; c < NC; c++) checkOrder(c); else for (int c = 0; c < NC; c++) checkOrder(c);
#if !NA
    // what is left comes out in order
    if (!bp && !bg) { int c = NC; while (held > 0) { oget(c); held--; } for (int i = 0; i < MSG; i++) vp_assert(g.got[i], "an element whose put completed was lost"); checkOrder(NC); if (NC == 1) { for (int i = 0; i < g.norder[0]; i++) for (int j = 0; j < g.norder[1]; j++) vp_assert(!before(g.order[1][j], g.order[0][i]), "an element was overtaken by a later one"); } }
#else
    { // the rest goes to flush, once each, in order
        bool nothrow = true; try { r->flush([](auto v) { record(NC, (T)v); }); } catch (...) { nothrow = false; } vp_assert(nothrow, "flush fails after abort"); checkOrder(NC);
        for (int i = 0; i < PRE; i++) vp_assert(g.got[i], "an element put before the abort is lost");
        for (int i = PRE; i < MSG; i++) { if (g.putOut[i]) vp_assert(!g.got[i], "a put that threw stored its element"); }
        if (NC == 1) for (int i = 0; i < g.norder[0]; i++) for (int j = 0; j < g.norder[1]; j++) vp_assert(!before(g.order[1][j], g.order[0][i]), "an element was overtaken by a later one");
        int fl = 0; try { r->flush([](auto v) { record(NC, (T)v); }); } catch (...) { fl = 1; } vp_assert(!fl, "a second flush fails");
    }
#endif
#if NA
    delete r; vp_assert(vp_heap_live() == 0, "memory is not released"); vp_reach("destroyed");
#endif
}
