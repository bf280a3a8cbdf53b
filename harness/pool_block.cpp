// Blocks of a BlockPool: construction of every element in order, destruction once, failing constructors, zeroed scalars, the number of elements reported.
#include "BlockPool.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include "vp.h"
#include <utility>
using namespace ReiserRT::Core;
#ifndef KIND   // 0: class whose constructor may throw, 1: class with a noexcept constructor, 2: scalar TYPE, 3: class without a constructor of its own, 4: threads and a throwing class
#define KIND 0
#endif
#ifndef TYPE
#define TYPE uint32_t
#endif
#ifndef MAXE   // elements per block MINE..MAXE
#define MAXE 4
#endif
#ifndef MINE
#define MINE 1
#endif
#ifndef NOPS
#define NOPS 4
#endif
#ifndef N
#define N 2
#endif
#ifndef ESZ    // bytes of payload of a class element
#define ESZ 8
#endif
static struct G { uint64_t expect; int built, bad, order, count[4][MAXE + 1], inTake, failAt, dtor; uint64_t base[4], from; } g; static uint64_t m;
struct El { uint32_t mark; char body[ESZ]; El() noexcept(KIND == 1); ~El(); };
static void ctor(El *e) {
    uint64_t a = (uint64_t)e; if (g.built == 0) g.from = a; vp_assert(a == g.from + g.built * sizeof(El), "elements are not constructed in order"); vp_assert((uint64_t)g.built < m, "more elements are constructed than the block has");
}
El::El() noexcept(KIND == 1) { ctor(this); if (KIND == 0 && g.failAt == g.built) throw 7; mark = 500 + g.built; g.built++; }
El::~El() { vp_assert(mark >= 500 && mark < 500 + m, "an element that does not exist is destroyed, or one is destroyed twice"); g.count[3][mark - 500]++; mark = 0; g.dtor++; }
#if KIND == 2
typedef BlockPool<TYPE> Pool;
#elif KIND == 3
struct Pod { uint32_t a; double d; }; typedef BlockPool<Pod> Pool;
#else
typedef BlockPool<El> Pool;
#endif
typedef Pool::BlockPtrType Ptr; static Pool *pool;
#if KIND == 4
enum { NT = 2 }; static struct H { int built[NT + 1], dtor[NT + 1], fail[NT + 1]; } h;
struct Cl { int t; Cl() noexcept(false); ~Cl(); }; Cl::Cl() noexcept(false) { t = vp_self(); if (h.built[t] == h.fail[t]) throw 7; h.built[t]++; } Cl::~Cl() { h.dtor[t]++; }
static BlockPool<Cl> *cp; static void worker(void *) { vp_yield(); int t = vp_self(), out = 0; BlockPool<Cl>::BlockPtrType b; try { b = cp->getBlock(); } catch (int) { out = 7; } catch (RingBufferUnderflow &) { return; }
    vp_assert(out == (h.fail[t] < MAXE ? 7 : 0), "a constructor's exception does not reach the caller"); if (out) vp_assert(h.dtor[t] == h.fail[t], "the elements constructed before the one that failed are not destroyed"); else { for (int i = 0; i < MAXE; i++) vp_assert(b[i].t == t, "an element belongs to another block"); b.reset(); vp_assert(h.dtor[t] == MAXE, "not every element is destroyed once"); } }
#endif
extern "C" void vp_main() {
    vp_ghost(&g); m = MINE == MAXE ? MINE : vp_range(MINE, MAXE, "elements");
#if KIND == 4
    vp_ghost(&h); cp = new BlockPool<Cl>(N, MAXE); uint64_t cap = cp->getSize(); for (int t = 1; t <= NT; t++) h.fail[t] = (int)vp_range(0, MAXE, "failing element"); for (int t = 0; t < NT; t++) vp_spawn(worker, nullptr); vp_run();
    for (int t = 1; t <= NT; t++) vp_assert(vp_done(t), "a thread does not finish"); vp_assert(cp->getRunningStateStatistics().runningCount == cap, "a block does not return to the pool"); delete cp;
#else
    pool = new Pool(N, m); uint64_t cap = pool->getSize(); (void)cap;
#if KIND == 2 || KIND == 3
    // several rounds: fill a block with arbitrary values, release, take again
    for (int k = 0; k < NOPS; k++) {
        Ptr p = pool->getBlock(); vp_assert(p.get_deleter().getNumElements() == m, "the deleter reports another number of elements");
        uint64_t i = vp_range(0, MAXE - 1, "index"); if (i < m) {
#if KIND == 2
            for (unsigned b = 0; b < sizeof(TYPE); b++) vp_assert(((const uint8_t *)&p[i])[b] == 0, "an element of scalar type is not zero");
            for (uint64_t j = 0; j < m; j++) *(uint8_t *)&p[j] = 0xff, ((uint8_t *)&p[j])[sizeof(TYPE) - 1] = 0x7f;
#else
            for (uint64_t j = 0; j < m; j++) p[j].a = 7;
#endif
        }
        Ptr q; if (VP_BOOL("move")) { q = std::move(p); vp_assert(q.get_deleter().getNumElements() == m, "the deleter reports another number of elements"); }
    }
    vp_reach("rounds");
#else
    Ptr own[2]; int has[2] = {0, 0}; uint64_t held = 0; int total = 0;
    for (int k = 0; k < NOPS; k++) {
        uint64_t i = vp_nondet(1, "owner"), op = vp_nondet(1, "take"); int d0 = g.dtor; g.built = 0; g.failAt = KIND == 0 ? (int)vp_range(0, MAXE, "failing element") : 99; for (int j = 0; j <= MAXE; j++) g.count[3][j] = 0;
        if (op) {
            bool full = held == cap; int out = 0; Ptr p; try { p = pool->getBlock(); } catch (RingBufferUnderflow &) { out = 1; } catch (RingBufferOverflow &) { out = 1; } catch (int e) { out = e; } catch (...) { out = 99; }
            bool fails = (uint64_t)g.failAt < m; vp_assert(out == (full ? 1 : fails ? 7 : 0), "taking a block does not succeed or fail as it should");
#if KIND == 0
            if (out == 7) { vp_assert(g.built == g.failAt && g.dtor - d0 == g.failAt, "the elements constructed before the one that failed are not destroyed"); for (int j = 0; j < MAXE; j++) vp_assert(g.count[3][j] == (j < g.failAt), "an element is not destroyed exactly once"); vp_reach("constructor threw"); }
#endif
            if (out == 1) vp_assert(g.built == 0 && g.dtor == d0, "elements are constructed although no block is available");
            if (!out) { vp_assert(g.built == (int)m && g.dtor == d0, "not every element is constructed once"); vp_assert((uint64_t)p.get() == g.from, "the block delivered is not the one constructed"); for (uint64_t j = 0; j < m; j++) vp_assert(p[j].mark == 500 + j, "an element is not as constructed");
                vp_assert(p.get_deleter().getNumElements() == m, "the deleter reports another number of elements"); own[i] = std::move(p); if (has[i]) { vp_assert(g.dtor - d0 == (int)m, "move assignment does not destroy the elements"); held--; } has[i] = 1; held++; vp_reach("taken"); }
        } else { own[i].reset(); vp_assert(g.dtor - d0 == (has[i] ? (int)m : 0), "not every element is destroyed"); for (uint64_t j = 0; j < m; j++) vp_assert(g.count[3][j] == has[i], "an element is not destroyed exactly once"); if (has[i]) held--; has[i] = 0; }
        for (int s = 0; s < 2; s++) if (has[s]) for (uint64_t j = 0; j < m; j++) vp_assert(own[s][j].mark == 500 + j, "an element is changed although its block has an owner");
        vp_assert(pool->getRunningStateStatistics().runningCount == cap - held, "a block does not return to the pool"); total++;
    }
    for (int s = 0; s < 2; s++) { own[s].reset(); if (has[s]) held--; }
#endif
    vp_assert(pool->getRunningStateStatistics().runningCount == cap, "a block does not return to the pool");
    Ptr none; vp_assert(!none, ""); vp_assert(none.get_deleter().getNumElements() == 0, "the deleter of an empty owner reports elements"); delete pool;
#endif
    vp_assert(vp_heap_live() == 0, "memory is not released"); vp_reach("done");
}
