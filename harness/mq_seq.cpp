// One thread's use of a MessageQueue: purging (C22), message sizes and storage (C23).
#include "MessageQueue.hpp"
#include "vp.h"
#include <utility>
#include <new>
using namespace ReiserRT::Core;
#ifndef MODE    // 0: sequences with purge, 1: message types against maximum sizes, 2: storage of queued messages
#define MODE 0
#endif
#ifndef N
#define N 2
#endif
#ifndef MINN
#define MINN N
#endif
#ifndef NOPS
#define NOPS 5
#endif
#ifndef MINS
#define MINS 0
#endif
#ifndef MAXS
#define MAXS 48
#endif
#ifndef LOCKING
#define LOCKING 0
#endif
#ifndef KINDS   // message types used
#define KINDS 5
#endif
#ifndef FAILS   // constructors, dispatches may throw
#define FAILS 0
#endif
enum { ALL = NOPS + 2 * N + 4 };
static MessageQueue *q;
static struct G { int made[ALL], gone[ALL], disp[ALL], order[ALL], head, tail, live, wrong, fail, failDispatch; uint64_t at[ALL], size[ALL]; } g;
static void begin(int id, const void *at, uint64_t size) {
    vp_assert(!g.made[id], "a message is constructed twice"); g.made[id] = 1; g.at[id] = (uint64_t)at; g.size[id] = size; g.live++;
#if MODE == 2
    uint64_t a = (uint64_t)at, b = vp_heap_base(at), z = vp_heap_size(at); vp_assert(b && a >= b && a + size <= b + z, "a message lies outside the queue's storage"); vp_assert(a % 8 == 0, "a message is not aligned for pointers");
    for (int i = 0; i < id; i++) if (g.made[i] && !g.gone[i]) { vp_assert(a >= g.at[i] + g.size[i] || g.at[i] >= a + size, "two queued messages overlap"); vp_assert(b == vp_heap_base((void *)g.at[i]), "messages are not in the queue's own storage"); }
#endif
}
static void over(int id) { vp_assert(id >= 0 && id < ALL && g.made[id], "something that is no message is destroyed"); vp_assert(!g.gone[id], "a message is destroyed twice"); g.gone[id] = 1; g.live--; }
static void run(int id) { vp_assert(id >= 0 && id < ALL && g.made[id] && !g.gone[id], "something that is no message is dispatched"); vp_assert(!g.disp[id], "a message is dispatched twice"); g.disp[id] = 1; if (g.failDispatch) throw 8; }
struct Other { uint64_t o; Other() : o(77) {} virtual ~Other() {} };
#define BODY(T, LEN) uint8_t id; bool real; uint8_t x[LEN]; \
    T(int i, bool r) : id(i), real(r) { for (int k = 0; k < LEN; k++) x[k] = i * 16 + k; if (r) begin(i, this, sizeof *this); if (r && g.fail) { over(i); throw 7; } } \
    T(T &&o) : id(o.id), real(true) { for (int k = 0; k < LEN; k++) { x[k] = o.x[k]; o.x[k] = 0; } begin(id, this, sizeof *this); if (g.fail) { over(id); throw 7; } } \
    void check() { bool same = true; for (int k = 0; k < LEN; k++) same = same && x[k] == (uint8_t)(id * 16 + k); vp_assert(same, "a queued message is changed"); } \
    ~T() { if (real) { check(); over(id); } } void dispatch() override { check(); run(id); } const char *name() const override { return #T; }
struct T16 : MessageBase { BODY(T16, 6) };
struct T24 : MessageBase { BODY(T24, 14) };
struct T32 : MessageBase { BODY(T32, 22) };
struct Off : Other, MessageBase { BODY(Off, 6) };
struct Virt : Other, virtual MessageBase { BODY(Virt, 6) };
struct T40 : MessageBase { BODY(T40, 30) };
static_assert(sizeof(T16) == 16 && sizeof(T24) == 24 && sizeof(T32) == 32 && sizeof(T40) == 40 && sizeof(Off) == 32 && sizeof(Virt) == 32, "");
template <class T> static void send(int id, bool put) { if (put) q->put(T(id, false)); else q->emplace<T>(id, true); }
static uint64_t sizeOf(int kind) { switch (kind) { case 0: return sizeof(T16); case 1: return sizeof(Off); case 2: return sizeof(Virt); case 3: return sizeof(T24); case 4: return sizeof(T32); default: return sizeof(T40); } }
static int send(int kind, int id, bool put) { // 0: queued, 1: too large, 7: its constructor threw
    try { switch (kind) { case 0: send<T16>(id, put); break; case 1: send<Off>(id, put); break; case 2: send<Virt>(id, put); break; case 3: send<T24>(id, put); break; case 4: send<T32>(id, put); break; default: send<T40>(id, put); } }
    catch (MessageQueueElementSizeError &) { return 1; } catch (int e) { return e; } catch (SemaphoreAborted &) { return 98; } catch (RingBufferStateError &) { return 98; } catch (...) { return 99; } return 0;
}
static int sentAll, out_;
static void purge(void *) { q->purge(); }
static void fill(void *p) { for (int i = 0; i <= N; i++) { if (send(i % 3, (int)(long)p + i, i & 1) == 0) { if (!g.wrong) g.order[g.tail++] = (int)(long)p + i; sentAll++; } } }
static void look(uint64_t n) { auto s = q->getRunningStateStatistics(); vp_assert(s.runningCount == n, "the slots in use are not those of the messages queued"); }
static void next() { int id = g.order[g.head++], e = 0; try { q->getAndDispatch(); } catch (int x) { e = x; } catch (...) { e = 99; } vp_assert(e == (g.failDispatch ? 8 : 0), "getAndDispatch fails"); vp_assert(g.disp[id] && g.gone[id], "not the oldest message is dispatched and destroyed"); }
extern "C" void vp_main() {
    vp_ghost(&g); vp_ghost(&sentAll);
#if MODE == 0
    q = new MessageQueue(N, sizeof(Virt), LOCKING); int dropped = 0, purges = 0;
    for (int k = 0; k <= NOPS; k++) {
        int op = k == NOPS ? 2 : (int)vp_split(2, "operation"); int n = g.tail - g.head;
        if (op == 0 && n < N) { if (FAILS) g.fail = vp_nondet(1, "constructor throws"); int e = send(k % KINDS, k, vp_nondet(1, "put")); vp_assert(e == (g.fail ? 7 : 0), "queueing fails"); g.fail = 0; if (!e) g.order[g.tail++] = k; }
        else if (op == 1 && n > 0) { if (FAILS) g.failDispatch = vp_nondet(1, "dispatch throws"); next(); g.failDispatch = 0; }
        else if (op == 2) { int d0[ALL]; for (int i = 0; i < ALL; i++) d0[i] = g.disp[i]; int t = vp_spawn(purge, nullptr); vp_run(); vp_assert(vp_done(t), "purge blocks");
            for (int i = 0; i < k; i++) { vp_assert(g.disp[i] == d0[i], "purge dispatches a message"); vp_assert(g.made[i] == g.gone[i], "a message queued is not destroyed by purge"); }
            vp_assert(g.live == 0, "a message queued is not destroyed by purge"); if (n) dropped = 1; g.head = g.tail; purges++; }
        else if (op == 3) { // the queue stays usable with a wakeup functor, too
            if (n) { int id = g.order[g.head++], w = 0; q->getAndDispatch([&w] { w++; }); vp_assert(w == 1 && g.disp[id] && g.gone[id], "not the oldest message is dispatched and destroyed"); } }
        look(g.tail - g.head); vp_assert(g.live == g.tail - g.head, "a queued message is destroyed, or one that is not queued is not");
    }
    if (dropped) vp_reach("messages purged");
    int t = vp_spawn(fill, (void *)(long)(NOPS + 1)); vp_run(); vp_assert(sentAll == N && vp_blocked(t), "after purge the queue does not take the requested number of messages"); look(N);
    g.wrong = 0; next(); vp_run(); vp_assert(vp_done(t), "a producer stays blocked although a slot is free"); while (g.head < g.tail) next(); look(0); vp_assert(g.live == 0, "a message is not destroyed");
#elif MODE == 1
    // any maximum size against any type, the queue full or not
    uint64_t s = vp_range(MINS, MAXS, "maximum message size"), room = (s + 7) & ~7ull; int kind = (int)vp_split(3, "type"); if (kind > 5) return; bool put = vp_nondet(1, "put"), full = false; { uint64_t c = vp_split(3, "which types fit"); vp_assume(c == (room < 16 ? 0u : room < 24 ? 1u : room < 32 ? 2u : room < 40 ? 3u : 4u)); } q = new MessageQueue(N, s, LOCKING); int n = 0;
    if (room >= sizeof(T16) && vp_split(1, "full")) { for (; n < N; n++) { int e = send(0, n, n & 1); vp_assert(!e, "a type that fits is not accepted"); g.order[g.tail++] = n; } full = true; }
    auto before = q->getRunningStateStatistics();
    if (sizeOf(kind) > room) { int live = g.live; int e = send(kind, N, put); vp_assert(e == 1, "a type that is too large is not rejected with MessageQueueElementSizeError"); auto after = q->getRunningStateStatistics(); vp_assert(after.runningCount == before.runningCount && after.highWatermark == before.highWatermark && g.live == live && !g.made[N], "something is consumed although the type is rejected"); if (full) vp_reach("rejected when full"); else vp_reach("rejected"); }
    else if (!full) { int e = send(kind, N, put); vp_assert(e == 0 && g.live == 1, "a type that fits is not accepted"); g.order[g.tail++] = N; vp_reach("accepted"); }
    while (g.head < g.tail) next(); vp_assert(g.live == 0, "a message is not destroyed"); look(0);
    if (room >= sizeof(T16)) for (int i = 0; i < N; i++) { int e = send(0, N + 1 + i, i & 1); vp_assert(!e, "a type that fits is not accepted"); } // nothing was lost
    int left = room >= sizeof(T16) ? N : 0; delete q; vp_assert(g.live == 0, "a queued message is not destroyed with the queue"); (void)left; q = nullptr;
#else
    uint64_t s = MINS == MAXS ? MINS : vp_range(MINS, MAXS, "maximum message size"), n = MINN == N ? N : vp_range(MINN, N, "requested"), room = (s + 7) & ~7ull; { uint64_t c = vp_split(3, "which types fit"); vp_assume(c == (room < 16 ? 0u : room < 24 ? 1u : room < 32 ? 2u : room < 40 ? 3u : 4u)); } q = new MessageQueue(n, s, LOCKING);
    for (int k = 0; k < NOPS; k++) {
        uint64_t used = g.tail - g.head; bool put = k < (int)MINN ? true : used == 0 || (used < n && vp_split(1, "queue"));
        if (put) { int kind = KINDS == 1 ? 0 : KINDS == 2 ? (k & 1 ? 5 : 0) : (int)vp_split(3, "type"); if (KINDS > 2 && kind >= KINDS) return; int e = send(kind, k, vp_nondet(1, "put")); vp_assert(e == (sizeOf(kind) > room ? 1 : 0), "a type that fits is not accepted, or one that does not is"); if (!e) g.order[g.tail++] = k; if ((uint64_t)(g.tail - g.head) == n) vp_reach("full"); }
        else next();
    }
    int drain = vp_split(1, "drain"); if (drain) while (g.head < g.tail) next();
    delete q; q = nullptr; vp_assert(g.live == 0, "a queued message is not destroyed with the queue");
#endif
    if (q) { delete q; q = nullptr; } vp_assert(vp_heap_live() == 0, "memory is not released"); vp_reach("done");
}
