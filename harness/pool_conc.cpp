// Threads taking blocks from and returning them to one pool; who owns what, when allocation may fail, and the statistics.
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "vp.h"
#include <utility>
using namespace ReiserRT::Core;
#ifndef NT        // threads; thread t performs the operations of the pattern Pt: A allocate, R return the oldest block held, X return the newest, S look at the statistics, ? any of A and R
#define NT 2
#endif
#ifndef P0
#define P0 AR
#endif
#ifndef P1
#define P1 P0
#endif
#ifndef P2
#define P2 P0
#endif
#ifndef P3
#define P3 P0
#endif
#ifndef HELD      // blocks every thread holds at the start
#define HELD 0
#endif
#ifndef HT        // threads that hold blocks at the start
#define HT NT
#endif
#ifndef N
#define N 2
#endif
#ifndef SEQ       // operations of a single thread, all sequences, exact statistics
#define SEQ 0
#endif
#ifndef BLOCK
#define BLOCK 0
#endif
#if P_C13
#define OWN(c, m) vp_assert(c, m)
#define STAT(c, m) (void)(c)
#elif P_C14
#define OWN(c, m) (void)(c)
#define STAT(c, m) vp_assert(c, m)
#else
#define OWN(c, m) (void)(c)
#define STAT(c, m) (void)(c)
#endif
struct Item { uint32_t tag, copy; Item() noexcept {} };
#if BLOCK
typedef BlockPool<uint32_t> Pool; typedef Pool::BlockPtrType Ptr; static Ptr take(Pool *p) { return p->getBlock(); }
static uint32_t *words(Ptr &p) { return p.get(); }
#else
typedef ObjectPool<Item> Pool; typedef Pool::ObjectPtrType Ptr; static Ptr take(Pool *p) { return p->createObj<Item>(); }
static uint32_t *words(Ptr &p) { return &p->tag; }
#endif
#define STR_(x) #x
#define STR(x) STR_(x)
#ifndef MAXB
#define MAXB 4
#endif
enum { MT = NT + 2 };
static uint64_t blk[8];   // the addresses of all blocks (C13)

static Pool *pool; static const char *pat[4] = {STR(P0), STR(P1), STR(P2), STR(P3)};
static Ptr ptr[MT][MAXB + 1];
static struct G { uint32_t tag[MT][MAXB + 1]; int own[8], at[MT][MAXB + 1], first[MT], next[MT]; int possible, definite, minDef, maxDef, busy[MT], most[MT]; uint32_t clock[MT]; uint64_t low[MT]; int lowInit[MT]; } g;
static uint64_t cap;
static void changed() {
#if P_C13
    for (int t = 0; t < MT; t++) if (g.busy[t] && g.possible - 1 > g.most[t]) g.most[t] = g.possible - 1;
#endif
#if P_C14
    if (g.possible > g.maxDef) g.maxDef = g.possible; if (g.definite > g.minDef) g.minDef = g.definite;
#endif
}
static int alloc(int t) { // 1: got one
    g.busy[t] = 1; g.most[t] = 0; g.possible++; changed();
    Ptr p; int out = 0; try { p = take(pool); } catch (RingBufferUnderflow &) { out = 1; } catch (RingBufferOverflow &) { out = 1; } catch (...) { out = 2; }
    g.busy[t] = 0; OWN(out != 2, "allocation fails with something other than a ring buffer exception");
    if (out) { OWN((uint64_t)g.most[t] >= cap, "allocation fails although a block was free all the time"); g.possible--; changed(); return 0; }
    uint32_t *w = words(p); uint64_t a = (uint64_t)w;
    int j = g.next[t]++;
#if P_C13
    int known = 0; for (uint64_t b = 0; b < cap; b++) if (a == blk[b]) { OWN(!g.own[b], "a block has two owners"); g.own[b] = 1; g.at[t][j] = b; known = 1; } OWN(known, "a block that is not one of the pool's");
#endif
    g.definite++; changed();
    OWN((uint64_t)g.definite <= cap, "more than getSize() blocks are out");
#if P_C13
    uint32_t tag = g.tag[t][j] = (t * 8 + ++g.clock[t]); w[0] = tag; w[1] = ~tag;
#endif
    ptr[t][j] = std::move(p); return 1;
}
static void give(int t, int newest) {
    if (g.first[t] == g.next[t]) return; int j = newest ? --g.next[t] : g.first[t]++;
#if P_C13
    uint32_t *w = words(ptr[t][j]); OWN(w[0] == g.tag[t][j] && w[1] == ~g.tag[t][j], "a block is changed while it has an owner");
    for (uint64_t b = 0; b < cap; b++) if (g.at[t][j] == b) g.own[b] = 0;
#endif
    g.definite--; changed(); ptr[t][j].reset(); g.possible--; changed();
}
static void look(int t) {
    auto s = pool->getRunningStateStatistics();
    STAT(s.size == cap, "the size reported is not the pool's"); STAT(s.lowWatermark <= s.runningCount, "the low watermark is above the running count"); STAT(s.runningCount <= cap, "the running count is above the size");
    STAT(!g.lowInit[t] || s.lowWatermark <= g.low[t], "the low watermark rises"); g.low[t] = s.lowWatermark; g.lowInit[t] = 1;
}
static void run(void *p) { int t = (int)(long)p; vp_yield(); for (const char *c = pat[t - 1]; *c; c++) { char o = *c; if (o == 'C') o = VP_BOOL("allocate") ? 'A' : 'R'; if (o == 'A') alloc(t); else if (o == 'R') give(t, 0); else if (o == 'X') give(t, 1); else look(t); } }
extern "C" void vp_main() {
    vp_ghost(&g);
#if BLOCK
    pool = new Pool(N, 2);
#else
    pool = new Pool(N);
#endif
    cap = pool->getSize(); OWN(cap >= N && cap <= 2 * N, "wrong size"); look(0); STAT(pool->getRunningStateStatistics().runningCount == cap && g.low[0] == cap, "the counts of a new pool are not its size");
#if P_C13
    { Ptr all[8]; for (uint64_t i = 0; i < cap; i++) { all[i] = take(pool); blk[i] = (uint64_t)words(all[i]); for (uint64_t j = 0; j < i; j++) OWN(blk[i] != blk[j], "a block has two owners"); } for (uint64_t i = 0; i < cap; i++) all[i].reset(); }
#endif
#if SEQ
    uint64_t out = 0, low = cap;
    for (int i = 0; i < SEQ; i++) {
        if (g.next[0] < MAXB && VP_BOOL("allocate")) { int ok = alloc(0); OWN(ok == (out < cap), "allocation does not fail exactly when all blocks are out"); if (ok) out++; else vp_reach("exhausted"); if (cap - out < low) low = cap - out; }
        else { if (g.first[0] != g.next[0]) out--; give(0, VP_BOOL("newest")); }
        auto s = pool->getRunningStateStatistics(); look(0); STAT(s.runningCount == cap - out, "the running count is not the number of free blocks"); STAT(s.lowWatermark == low, "the low watermark is not the smallest number of free blocks there has been");
    }
#else
    for (int t = 1; t <= HT; t++) for (int k = 0; k < HELD; k++) alloc(t);
    for (int t = 1; t <= NT; t++) vp_spawn(run, (void *)(long)t);
    vp_run();
    for (int i = 0; i < NT; i++) vp_assert(vp_done(i + 1), "a thread does not finish"); // nothing here ever blocks for good
#endif
    uint64_t held = g.definite; auto s = pool->getRunningStateStatistics(); look(0);
    STAT(s.runningCount == cap - held, "the running count is not the number of free blocks");
    STAT(s.lowWatermark <= cap - g.minDef, "the low watermark is above the number of free blocks there has been"); STAT((int64_t)s.lowWatermark >= (int64_t)cap - g.maxDef, "the low watermark is below any number of free blocks there has been");
    for (int t = 1; t <= NT; t++) STAT(!g.lowInit[t] || s.lowWatermark <= g.low[t], "the low watermark rises");
    // every block not held can be had, and no more
    uint64_t base = 0; g.next[MT - 1] = g.first[MT - 1] = 0; for (uint64_t i = 0; i < cap; i++) if (i >= held) OWN(alloc(MT - 1) == 1, "a block is lost"); else base++;
    OWN(alloc(MT - 1) == 0, "more blocks than the pool has"); auto e = pool->getRunningStateStatistics(); STAT(e.runningCount == 0 && e.lowWatermark == 0, "the counts of an exhausted pool are not zero");
    // all come back
    for (int t = 0; t < MT; t++) for (int k = 0; k < MAXB + 1; k++) give(t, 0);
    e = pool->getRunningStateStatistics(); STAT(e.runningCount == cap && e.lowWatermark == 0, "the running count is not the number of free blocks");
    delete pool; vp_reach("end");
}
