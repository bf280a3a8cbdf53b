// Producers and consumers on one MessageQueue: dispatching, capacity, aborting, destruction, statistics.
#include "MessageQueue.hpp"
#include "vp.h"
#include <new>
#include <utility>
using namespace ReiserRT::Core;
#ifndef NP
#define NP 2
#endif
#ifndef NC
#define NC 1
#endif
#ifndef KP
#define KP 1
#endif
#ifndef KC
#define KC 2
#endif
#ifndef NA      // threads that abort
#define NA 0
#endif
#ifndef NS      // threads that look at the statistics KS times
#define NS 0
#endif
#ifndef KS
#define KS 2
#endif
#ifndef PRE     // messages queued beforehand
#define PRE 0
#endif
#ifndef N
#define N 1
#endif
#ifndef FAIL    // what may throw, for any message: 1 its constructor, 2 its dispatch, 4 the wakeup functor, 8 the functor may be empty
#define FAIL 0
#endif
#ifndef WAKE    // consumers use a wakeup functor
#define WAKE (FAIL & 12)
#endif
#ifndef PUT     // 0: emplace, 1: put, 2: alternate
#define PUT 2
#endif
#ifndef LOCKING
#define LOCKING 0
#endif
#ifndef OFFSET  // message types whose MessageBase is not at the start
#define OFFSET 0
#endif
#ifndef PROBE   // afterwards fill the queue until it blocks
#define PROBE 0
#endif
#ifndef SPUR
#define SPUR 0
#endif
#ifndef DY      // destroying a message takes a while
#define DY 0
#endif
#if P_C23 || P_C26
#define P_C17 1
#endif
#ifndef P_C17
#define P_C17 0
#endif
#define NOTHING(c, m) (void)(c)
#if P_C17
#define A17(c, m) vp_assert(c, m)
#else
#define A17(c, m) NOTHING(c, m)
#endif
#if P_C18
#define A18(c, m) vp_assert(c, m)
#else
#define A18(c, m) NOTHING(c, m)
#endif
#if P_C19
#define A19(c, m) vp_assert(c, m)
#else
#define A19(c, m) NOTHING(c, m)
#endif
#if P_C20
#define A20(c, m) vp_assert(c, m)
#else
#define A20(c, m) NOTHING(c, m)
#endif
#if P_C21
#define A21(c, m) vp_assert(c, m)
#else
#define A21(c, m) NOTHING(c, m)
#endif
enum { MSG = PRE + NP * KP, ALL = MSG + N + 2, TH = 1 + NP + NC + NA + NS + 1 };
static MessageQueue *q;
static struct G { int made[ALL], gone[ALL], disp[ALL], by[ALL], fin[ALL], start[ALL], out[ALL], has[ALL], fail[ALL]; int order[ALL], norder, clock, live, possible, most, definite, least, puts, handled, inDispatch, cur[TH], got[TH], started[TH]; uint32_t high[TH]; int abortDone, abortBegun, probed; } g;
static void changed() {
#if P_C21
    if (g.possible > g.most) g.most = g.possible; if (g.definite > g.least) g.least = g.definite;
#endif
}
static uint32_t content(int id) { return P_C17 ? 0xabc00000u + id * 7 : 0; }
struct Msg; static void built(Msg *, int); static void destroyed(int, uint32_t); static void dispatched(int, uint32_t);
struct Other { uint64_t x; Other() : x(5) {} virtual ~Other() {} };
// A message is `real` when it lives in the queue: built there by emplace, or moved there by put.
struct Msg : 
#if OFFSET
Other, 
#endif
MessageBase { uint8_t id; bool real;
#if P_C17
    uint32_t body; uint64_t tail;
    Msg(int i, bool r) : id(i), real(r), body(content(i)), tail(i) { if (r) built(this, i); }
    Msg(Msg &&o) noexcept(false) : id(o.id), real(true), body(o.body), tail(o.tail) { o.body = 0; built(this, id); }
#else
    enum { body = 0, tail = 0 };
    Msg(int i, bool r) : id(i), real(r) { if (r) built(this, i); }
    Msg(Msg &&o) noexcept(false) : id(o.id), real(true) { built(this, id); }
#endif
    ~Msg() { if (real) { if (DY) vp_yield(); A17(tail == id, "a message is changed in the queue"); destroyed(id, body); } }
    void dispatch() override { dispatched(id, body); } const char *name() const override { return "Msg"; } };
static void built(Msg *, int i) { A17(!g.made[i], "a message is constructed twice"); if ((FAIL & 1) && g.fail[i] == 1) throw 7; g.made[i] = 1; g.live++; g.definite++; changed(); A18(g.live <= N, "more messages are in the queue than requested"); }
static void destroyed(int i, uint32_t b) { A17(b == content(i) && g.made[i], "something else than a queued message is destroyed"); A17(!g.gone[i], "a message is destroyed twice"); A19(g.made[i] && !g.gone[i], "a message is not destroyed exactly once"); g.gone[i] = 1; g.live--; g.definite--; }
static void dispatched(int i, uint32_t b) {
    int t = vp_self(); A17(g.made[i] && !g.gone[i] && b == content(i), "what is dispatched is not a queued message as the producer made it"); A17(!g.disp[i], "a message is dispatched twice"); A17(g.got[t] == 0, "one call dispatches two messages");
    
    g.disp[i] = 1; g.by[i] = t; g.got[t] = 1; g.order[g.norder++] = i;
    if (LOCKING) { A20(!g.inDispatch, "two dispatches overlap"); g.inDispatch = 1; vp_yield(); g.inDispatch = 0; }
    if ((FAIL & 2) && g.fail[i] == 2) throw 8;
}
static int send(int id, bool byPut) { // 0 queued, 1 aborted, 7 constructor threw
    int t = vp_self(); (void)t; int aborted = g.abortBegun, o = 0; g.possible++; changed();
    try { if (byPut) q->put(Msg(id, false)); else q->emplace<Msg>(id, true); }
    catch (SemaphoreAborted &) { o = 1; } catch (RingBufferStateError &) { o = 1; } catch (int e) { o = e; } catch (...) { o = 99; }
    A17(o != 99, "queueing fails with an unexpected exception"); A19(o != 99, "queueing fails with an unexpected exception"); if (!NA && !g.abortBegun) { A17(o != 1, "queueing fails although nothing was aborted"); A18(o == ((FAIL & 1) && g.fail[id] == 1 ? 7 : 0), "an exception of the constructor does not reach the producer"); }
    if (o) { g.possible--; changed(); A19(!g.made[id] || g.gone[id], "a message that was not queued is not destroyed"); } else { g.puts++; }
    A19(!(o == 1 && !aborted && !g.abortBegun), "queueing fails although nothing was aborted");
    g.out[id] = o + 1; return o;
}
static int receive() { // 0 dispatched, 1 aborted, 8 dispatch threw, 9 wakeup threw
    int t = vp_self(), o = 0, wakes = 0; g.got[t] = 0; int mine = -1, wf = WAKE ? ((FAIL & 4) ? (int)vp_nondet(1, "wakeup throws") : 0) : 0, empty = (FAIL & 8) ? (int)vp_nondet(1, "functor empty") : 0;
    try {
        if (!WAKE) q->getAndDispatch();
        else { MessageQueue::WakeupCallFunctionType f; if (!empty) f = [&wakes, wf] { wakes++; if (wf) throw 9; }; q->getAndDispatch(f); }
    } catch (SemaphoreAborted &) { o = 1; } catch (RingBufferStateError &) { o = 1; } catch (int e) { o = e; } catch (std::bad_function_call &) { o = 10; } catch (...) { o = 99; }
    A17(o != 99, "getAndDispatch fails with an unexpected exception"); A19(o != 99, "getAndDispatch fails with an unexpected exception"); if (!g.abortBegun) A17(o != 1, "getAndDispatch fails although nothing was aborted");
    if (WAKE && !empty) { A18(wakes == (o != 1), "the wakeup functor is not called once"); if (wf && o != 1) A18(o == 9, "an exception of the wakeup functor does not reach the consumer"); if (!wf) A18(o != 9, ""); }
    if (empty && o != 1) A18(o == 10, "an empty functor is not reported");
    for (int i = 0; i < ALL; i++) if (g.disp[i] && g.by[i] == t && !g.has[i]) { A17(mine < 0, "one call dispatches two messages"); mine = i; g.has[i] = 1; }
    if (o == 0 || o == 8) { A17(mine >= 0, "getAndDispatch returns without dispatching"); A17(mine < 0 || g.gone[mine], "a message is not destroyed after its dispatch"); if (mine >= 0) A18((o == 8) == ((FAIL & 2) && g.fail[mine] == 2), "an exception of dispatch does not reach the consumer"); }
    else A17(mine < 0, "a message is dispatched although the call failed first");
    if (o != 1) { g.handled++; g.possible--; changed(); } return o;
}
static void prod(void *p) { int t = (int)(long)p; vp_yield(); for (int k = 0; k < KP; k++) { int id = PRE + t * KP + k; if (!LOCKING) g.start[id] = ++g.clock; int o = send(id, PUT == 2 ? (id & 1) : PUT); g.fin[id] = ++g.clock; if (o == 1) break; } }
static void cons(void *p) { vp_yield(); for (int k = 0; k < KC; k++) { int o = receive(); if (o == 1) break; } (void)p; }
static void abrt(void *) { vp_yield(); g.abortBegun = 1; q->abort(); g.abortDone = 1; }
static void look(int t) { auto s = q->getRunningStateStatistics(); A21(s.size == N, "the size reported is not the one requested"); A21(s.runningCount <= s.highWatermark, "the running count is above the high watermark"); A21(s.highWatermark <= N, "the high watermark is above the size"); A21(s.highWatermark >= g.high[t], "the high watermark falls"); g.high[t] = s.highWatermark; }
static void stat(void *) { vp_yield(); for (int k = 0; k < KS; k++) { look(vp_self()); if (k == 0) q->getNameOfLastMessageDispatched(); } }
#if PROBE
static void probe(void *) { for (int k = 0; k < N + 1; k++) { send(MSG + k, k & 1); g.probed++; } }
#endif
static bool before(int a, int b) { // a was certainly queued before b
    if (a < PRE && b < PRE) return a < b; if (a < PRE) return true; if (b < PRE) return false; if ((a - PRE) / KP == (b - PRE) / KP) return a < b; return g.fin[a] && g.start[b] && g.fin[a] < g.start[b];
}
extern "C" void vp_main() {
    vp_ghost(&g); q = new MessageQueue(N, sizeof(Msg), LOCKING);
    if (FAIL & 3) for (int i = 0; i < MSG; i++) { g.fail[i] = (FAIL & 3) == 3 ? (int)vp_nondet(2, "failure") : vp_nondet(1, "failure") ? FAIL & 3 : 0; if (i < PRE) vp_assume(g.fail[i] != 1); }
    look(0); A21(g.high[0] == 0, "the counts of a new queue are not zero");
    for (int i = 0; i < PRE; i++) send(i, i & 1);
    for (int i = 0; i < NP; i++) vp_spawn(prod, (void *)(long)i); for (int i = 0; i < NC; i++) vp_spawn(cons, (void *)(long)i); for (int i = 0; i < NA; i++) vp_spawn(abrt, nullptr); for (int i = 0; i < NS; i++) vp_spawn(stat, nullptr);
#if SPUR
    vp_spurious(SPUR);
#endif
    vp_run();
    bool bp = false, bc = false; for (int i = 0; i < NP; i++) if (vp_blocked(1 + i)) bp = true; for (int i = 0; i < NC; i++) if (vp_blocked(1 + NP + i)) bc = true; for (int i = 0; i < NA + NS; i++) vp_assert(vp_done(1 + NP + NC + i), "abort or the statistics do not return");
    int held = g.puts - g.handled;
#if NA
    A19(!bp && !bc, "a thread stays blocked after abort"); 
#if NC
    if (g.norder) vp_reach("messages dispatched"); else
#endif
    vp_reach("abort comes first");
    { int o = send(MSG, 0); A19(o == 1 || g.gone[MSG], "a message queued after abort stays"); int h = g.handled; o = receive(); A19(o == 1 && h == g.handled, "getAndDispatch does not fail after abort"); }
#else
    A18(held >= 0 && held <= N, "more messages are queued than requested"); A18(!(bp && held < N), "a producer stays blocked although a slot is free"); A18(!(bc && held > 0), "a consumer stays blocked although a message is queued");
    { auto s = q->getRunningStateStatistics(); look(0); A21((int)s.runningCount == held, "the running count is not the number of messages queued and not finished"); }
    if (!bp && !bc) {
        for (int i = 0; i < MSG; i++) A17(!(g.out[i] == 1) || held || (g.gone[i] && (g.disp[i] || (FAIL & 12))), "a queued message is not dispatched and destroyed");
        
#if NC * KC <= PRE + NP * KP && PRE + NP * KP - NC * KC <= N
        vp_reach("all done");
#endif
    }
#if PROBE
    if (!bp && !bc) { int th = vp_spawn(probe, nullptr); vp_run(); A18(vp_blocked(th) && g.probed == N - held, "the capacity is not the requested number of messages"); look(0); { auto s = q->getRunningStateStatistics(); A21(s.runningCount == N && s.highWatermark == N, "the counts of a full queue are not its size"); } vp_reach("probed"); g.abortBegun = 1; q->abort(); vp_run(); }
#else
    if (!bp && !bc) { int left = held; while (left-- > 0) receive(); for (int i = 0; i < MSG; i++) A17(g.out[i] != 1 || (g.gone[i] && (g.disp[i] || (FAIL & 12))), "a queued message is lost"); A18(g.live == 0, "a message stays in the queue"); auto s = q->getRunningStateStatistics(); A21(s.runningCount == 0, "the running count is not zero although nothing is queued"); A21((int)s.highWatermark <= g.most, "the high watermark is above the number of slots that were in use"); A21((int)s.highWatermark >= g.least, "the high watermark is below the number of slots that were in use"); }
#endif
#endif
    for (int i = 0; i < g.norder; i++) for (int j = i + 1; j < g.norder; j++) if (NC <= 1) A17(!before(g.order[j], g.order[i]), "messages are dispatched in another order than they were queued");
    if (NC > 1) for (int i = 0; i < g.norder; i++) for (int j = i + 1; j < g.norder; j++) if (g.by[g.order[i]] == g.by[g.order[j]]) A17(!before(g.order[j], g.order[i]), "messages are dispatched in another order than they were queued");
    if (vp_nondet(1, "destroy while blocked") || NA || PROBE || (!bp && !bc))
    {
        g.abortBegun = 1; delete q; q = nullptr;
        for (int i = 0; i < NP + NC; i++) A19(vp_done(1 + i), "a thread stays blocked although the queue was destroyed");
        for (int i = 0; i < ALL; i++) A19(g.made[i] == g.gone[i], "a message is not destroyed with the queue"); A19(g.live == 0, "a message is not destroyed with the queue"); A19(vp_heap_live() == 0, "the queue's memory is not released"); vp_reach("destroyed");
    }
}
