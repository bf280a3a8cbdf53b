// The life of pooled objects: construction from the arguments given, destruction exactly once before the block can be had again, failing constructors, sizes.
#include "ObjectPool.hpp"
#include "vp.h"
#include <utility>
#include <new>
using namespace ReiserRT::Core;
#ifndef MODE   // 0: sequences of operations on owners, 1: element sizes, 2: threads, 3: a non-polymorphic type
#define MODE 0
#endif
#ifndef NOPS
#define NOPS 4
#endif
#ifndef N
#define N 2
#endif
#ifndef NSLOT
#define NSLOT 2
#endif
#ifndef KIND0 // type of the first object created, -1: any for each
#define KIND0 0
#endif
#ifndef NT
#define NT 2
#endif
#ifndef HELD
#define HELD 0
#endif
enum { MAXID = 2 * NOPS + 4 };
static struct G { int made[MAXID + 1], destroyed[MAXID + 1], kind[MAXID + 1], nid; uint64_t addr[MAXID + 1]; int live, ctorRuns, blocks; } g; static uint64_t cap;
struct Mv { int v; bool moved; Mv(int x) : v(x), moved(false) {} Mv(Mv &&o) : v(o.v), moved(false) { o.moved = true; } Mv(const Mv &) = delete; };
struct Base; typedef ObjectPool<Base> Pool; static Pool *pool; static bool probe;
static void begin(int id, int kind, void *at) {
    vp_assert(id >= 0 && id <= MAXID && !g.made[id], "an object is constructed twice"); g.made[id] = 1; g.kind[id] = kind; g.addr[id] = (uint64_t)at; g.ctorRuns++;
    for (int i = 0; i < (MODE == 2 ? MAXID + 1 : id); i++) vp_assert(i == id || !g.made[i] || g.destroyed[i] || g.addr[i] != (uint64_t)at, "a block is available before the destructor of its object is done");
    g.live++;
}
static void tryTake();
static void end(int id, int kind) {
    vp_assert(id >= 0 && id <= MAXID && g.made[id], "an object that was not constructed is destroyed"); vp_assert(!g.destroyed[id], "an object is destroyed twice"); vp_assert(g.kind[id] == kind, "not the most derived destructor runs");
    tryTake(); g.destroyed[id] = 1; g.live--;
}
struct Base { int id, stamp; Base(int i) : id(i), stamp(77 + i) {} virtual ~Base() {} virtual int who() const { return -1; } virtual uint64_t arg() const { return 0; } };
struct Plain : Base { uint64_t a; Plain(int i, uint64_t x, bool fail = false) : Base(i), a(x) { begin(i, 0, this); if (fail) { g.live--; g.destroyed[i] = 1; throw 7; } } ~Plain() { end(id, 0); } int who() const override { return 0; } uint64_t arg() const override { return a; } };
struct Other { uint64_t o1, o2; Other() : o1(11), o2(12) {} virtual ~Other() {} };
struct Second : Other, Base { uint64_t a; Second(int i, uint64_t x, bool fail = false) : Base(i), a(x) { begin(i, 1, this); if (fail) { g.live--; g.destroyed[i] = 1; throw 7; } } ~Second() { end(id, 1); } int who() const override { return 1; } uint64_t arg() const override { return a; } };
struct Virt : Other, virtual Base { uint64_t a; Virt(int i, uint64_t x, bool fail = false) : Base(i), a(x) { begin(i, 2, this); if (fail) { g.live--; g.destroyed[i] = 1; throw 7; } } ~Virt() { end(id, 2); } int who() const override { return 2; } uint64_t arg() const override { return a; } };
struct Fwd : Base { const uint64_t &l; int m; Fwd(int i, const uint64_t &lv, Mv &&mv, int *&slot) : Base(i), l(lv), m(mv.v) { Mv mine(std::move(mv)); begin(i, 3, this); slot = &m; } ~Fwd() { end(id, 3); } int who() const override { return 3; } };
static void tryTake() { // from within a destructor: the block of the object being destroyed must not be available
    if (!probe) return; auto r = pool->getRunningStateStatistics().runningCount; bool exhausted = (uint64_t)g.blocks == cap; if (!exhausted) return;
    int id = g.nid; bool got = false; try { auto p = pool->createObj<Plain>(id, 5ull); got = true; probe = false; p.release(); } catch (RingBufferUnderflow &) {} catch (RingBufferOverflow &) {}
    vp_assert(!got, "the block is available before the destructor of its object is done"); (void)r;
}
typedef Pool::ObjectPtrType Ptr;
static Ptr make(int kind, int id, uint64_t a, bool fail) { switch (kind) { case 0: return pool->createObj<Plain>(id, a, fail); case 1: return pool->createObj<Second>(id, a, fail); default: return pool->createObj<Virt>(id, a, fail); } }
static uint64_t argOf(Ptr &p) { return p->arg(); }
static int dead(int id) { return g.made[id] && g.destroyed[id]; }
#if MODE == 2
static void creator(void *q) { vp_yield(); int t = (int)(long)q; Ptr p; try { p = make(t % 2, 4 + t, 77 + t, false); } catch (RingBufferUnderflow &) { return; } vp_assert(argOf(p) == 77u + t, "the object is not built from the arguments given"); p.reset(); vp_assert(dead(4 + t), "the destructor did not run"); }
static Ptr given[4]; static void releaser(void *q) { int t = (int)(long)q; given[t].reset(); }
#endif
extern "C" void vp_main() {
    vp_ghost(&g);
#if MODE == 0
    pool = new Pool(N, sizeof(Virt) > sizeof(Second) ? sizeof(Virt) : sizeof(Second)); cap = pool->getSize(); probe = true;
    { Ptr own[NSLOT]; int id[NSLOT]; for (int i = 0; i < NSLOT; i++) id[i] = -1;
      for (int k = 0; k < NOPS; k++) { g.nid = NOPS + k;
        uint64_t op = vp_nondet(2, "operation"), i = vp_range(0, NSLOT - 1, "owner"), j = vp_range(0, NSLOT - 1, "other owner");
        if (op <= 1) { // create (op 1: the constructor throws)
            int kind = KIND0 < 0 ? (int)vp_range(0, 2, "type") : (KIND0 + k) % 3, me = k; uint64_t a = k == 0 ? VP_U64("argument") : 1000 + k; int out = 0, runs = g.ctorRuns; bool full = (uint64_t)g.blocks == cap; Ptr p;
            g.blocks += !full; try { p = make(kind, me, a, op == 1); } catch (RingBufferUnderflow &) { out = 1; } catch (RingBufferOverflow &) { out = 1; } catch (int e) { out = e; } catch (...) { out = 99; }
            vp_assert(out != 99 && out == (full ? 1 : op == 1 ? 7 : 0), "creation does not succeed or fail as it should"); vp_assert(g.ctorRuns - runs == !full, "the constructor does not run once");
            if (out == 7) g.blocks--; 
            if (!out) { vp_assert(p->who() == kind && p->id == me && argOf(p) == a, "the object is not the one requested or not built from the arguments given");
                int old = id[i]; own[i] = std::move(p); vp_assert(!p, "the moved-from owner still owns"); if (old >= 0) { vp_assert(dead(old), "move assignment does not destroy the object replaced"); g.blocks--; } id[i] = me; vp_reach("created"); }
            else if (op == 1 && !full) vp_reach("constructor threw");
        } else if (op == 2) { own[i].reset(); if (id[i] >= 0) { vp_assert(dead(id[i]), "reset does not destroy the object"); g.blocks--; id[i] = -1; vp_reach("reset"); } }
        else if (i != j) { own[i] = std::move(own[j]); if (id[i] >= 0) { vp_assert(dead(id[i]), "move assignment does not destroy the object replaced"); g.blocks--; } id[i] = id[j]; id[j] = -1; }
        int n = 0; for (int s = 0; s < NSLOT; s++) { vp_assert(!!own[s] == (id[s] >= 0), "an owner owns the wrong thing"); if (id[s] >= 0) { n++; vp_assert(own[s]->id == id[s] && !dead(id[s]) && own[s]->stamp == 77 + id[s], "an object with an owner is destroyed or changed"); } }
        vp_assert(n == g.live && n == g.blocks, "an object is destroyed although it has an owner, or not although it has none"); vp_assert(pool->getRunningStateStatistics().runningCount == cap - n, "a block is not back in the pool, or is although its object lives");
      }
      for (int i = 0; i < NSLOT; i++) { own[i].reset(); if (id[i] >= 0) g.blocks--; }
    }
    vp_assert(g.live == 0, "an object outlives its owner"); vp_assert(pool->getRunningStateStatistics().runningCount == cap, "a block is not back in the pool");
    { const uint64_t lv = 3; int *slot = nullptr; Mv m(41); int me = 2 * NOPS + 1; probe = false; { auto p = pool->createObj<Fwd>(me, lv, std::move(m), slot); Fwd *f = static_cast<Fwd *>(p.get()); vp_assert(&f->l == &lv && f->m == 41 && slot == &f->m && m.moved, "arguments are not forwarded as they were given"); } vp_assert(dead(me), "the destructor does not run"); }
#elif MODE == 1
    // every minimum element size; types of 13, 17, 24 and 40 bytes
    struct __attribute__((packed)) B1 { virtual ~B1() {} }; static int made; static int gone;
    struct __attribute__((packed)) T13 : B1 { char x[5]; T13() { made++; } ~T13() { gone++; } }; struct __attribute__((packed)) T17 : B1 { char x[9]; T17() { made++; } ~T17() { gone++; } }; struct T24 : B1 { uint64_t x[2]; T24() { made++; } ~T24() { gone++; } }; struct T40 : B1 { uint64_t x[4]; T40() { made++; } ~T40() { gone++; } };
    static_assert(sizeof(T13) == 13 && sizeof(T17) == 17 && sizeof(T24) == 24 && sizeof(T40) == 40, "");
    uint64_t s = vp_range(0, 48, "element size"), room = ((s < 8 ? 8 : s) + 7) & ~7ull; auto *p = new ObjectPool<B1>(N, s); uint64_t c = p->getSize(), kind = vp_range(0, 3, "type"), size = kind == 0 ? 13 : kind == 1 ? 17 : kind == 2 ? 24 : 40, fullUp = vp_nondet(1, "exhausted");
    ObjectPool<B1>::ObjectPtrType h[8]; uint64_t n = 0; if (fullUp) for (; n < c; n++) h[n] = p->createObj<B1>(); else { h[0] = p->createObj<B1>(); n = 1; }
    auto before = p->getRunningStateStatistics(); int out = 0; { ObjectPool<B1>::ObjectPtrType o; try { switch (kind) { case 0: o = p->createObj<T13>(); break; case 1: o = p->createObj<T17>(); break; case 2: o = p->createObj<T24>(); break; default: o = p->createObj<T40>(); } } catch (ObjectPoolElementSizeError &) { out = 1; } catch (RingBufferUnderflow &) { out = 2; } catch (RingBufferOverflow &) { out = 2; } catch (...) { out = 3; }
    auto after = p->getRunningStateStatistics();
    if (size > room) { vp_assert(out == 1, "a type that is too large is not rejected with ObjectPoolElementSizeError"); vp_assert(after.runningCount == before.runningCount && after.lowWatermark == before.lowWatermark && !made, "a block is taken although the type is rejected"); vp_reach("rejected"); }
    else { vp_assert(out == (fullUp ? 2 : 0), "a type that fits is not accepted"); vp_assert(made == !fullUp, "not constructed once"); vp_reach("accepted"); } }
    vp_assert(made == gone, "not destroyed once"); vp_assert(p->getRunningStateStatistics().runningCount == c - n, "a block is lost");
    for (int i = 0; i < 8; i++) h[i].reset(); delete p;
    { struct Small { char c; }; auto *q = new ObjectPool<Small>(1, 0); auto o = q->createObj<Small>(); vp_assert(!!o, "a type that fits is not accepted"); o.reset(); delete q; }
#elif MODE == 2
    pool = new Pool(N, sizeof(Second)); cap = pool->getSize(); for (int i = 0; i < HELD; i++) given[i] = make(i % 2, i, 5, false);
    for (int i = 0; i < HELD; i++) vp_spawn(releaser, (void *)(long)i); for (int i = 0; i < NT; i++) vp_spawn(creator, (void *)(long)i); vp_run();
    for (int i = 0; i < HELD; i++) vp_assert(dead(i), "the destructor does not run"); vp_assert(g.live == 0 && pool->getRunningStateStatistics().runningCount == cap, "a block is not back in the pool");
#else
    static int made, gone; static uint64_t seen; struct V { uint64_t a; uint32_t b; V(uint64_t x, uint32_t y) : a(x), b(y) { made++; if (y == 9) throw 3; } ~V() { gone++; seen = a; } };
    auto *p = new ObjectPool<V>(N); uint64_t c = p->getSize(), x = VP_U64("first"); uint32_t y = VP_U32("second"); int out = 0;
    { ObjectPool<V>::ObjectPtrType o, o2; try { o = p->createObj<V>(x, y); } catch (int e) { out = e; } vp_assert(out == (y == 9 ? 3 : 0), "the constructor's exception does not propagate"); if (!out) { vp_assert(o->a == x && o->b == y, "the object is not built from the arguments given"); o2 = std::move(o); vp_assert(!o && o2->a == x, "moving the owner"); vp_assert(gone == 0, "destroyed while owned"); o2.reset(); vp_assert(gone == 1 && seen == x, "the destructor does not run once"); } else vp_assert(gone == 0, "a destructor runs although the constructor threw"); }
    vp_assert(gone == (out ? 0 : 1) && made == 1, "not built and destroyed once"); vp_assert(p->getRunningStateStatistics().runningCount == c, "a block is not back in the pool"); delete p;
    { ObjectPool<V>::ObjectPtrType none; vp_assert(!none, ""); }
#endif
#if MODE == 0 || MODE == 2
    delete pool;
#endif
    vp_assert(vp_heap_live() == 0, "memory is not released"); vp_reach("done");
}
