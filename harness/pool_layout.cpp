// Where the blocks of a pool lie, for all element sizes and small counts, and what preparing one does to the others.
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "vp.h"
#include <new>
using namespace ReiserRT::Core;
#ifndef KIND     // 0: ObjectPool with any minimum element size, 1: BlockPool<uint8_t>, 2: BlockPool<uint32_t>, 3: BlockPool<Odd> (12 byte elements), 4: BlockPool<double>
#define KIND 0
#endif
#ifndef MAXN
#define MAXN 4
#endif
#ifndef MINN
#define MINN 0
#endif
#ifndef MAXS     // largest element size (KIND 0) or number of elements per block
#define MAXS (1 << 20)
#endif
#ifndef MINS
#define MINS 0
#endif
#ifndef NOPS
#define NOPS 3
#endif
struct Raw { uint8_t b; Raw() {} };   // does not initialise its memory
struct Odd { uint32_t a, b, c; Odd() {} ~Odd() {} };
struct Thrower { uint8_t b; Thrower() { throw 1; } };
static uint64_t esz;                  // bytes a block must hold
#if KIND == 0
typedef ObjectPool<Raw> Pool; typedef Pool::ObjectPtrType Ptr; static Ptr alloc(Pool *p) { return p->createObj<Raw>(); }
#else
#if KIND == 1
typedef uint8_t El;
#elif KIND == 2
typedef uint32_t El;
#elif KIND == 3
typedef Odd El;
#else
typedef double El;
#endif
typedef BlockPool<El> Pool; typedef Pool::BlockPtrType Ptr; static Ptr alloc(Pool *p) { return p->getBlock(); }
#endif
static uint64_t mem(Ptr &p) { return (uint64_t)p.get(); }
extern "C" void vp_main() {
    uint64_t n = MINN == MAXN ? MINN : vp_range(MINN, MAXN, "requested"), s = MINS == MAXS ? MINS : vp_range(MINS, MAXS, "element size");
#if KIND == 0
    esz = s < 1 ? 1 : s; Pool *pool = new Pool(n, s);
#else
    esz = s * sizeof(El); Pool *pool = new Pool(n, s);
#endif
    uint64_t pad = (esz + 7) & ~7ull, cap = pool->getSize(); vp_assert(cap >= n, "the pool is smaller than requested");
    Ptr h[MAXN + 1]; int used = 0;
#if SWEEP   // take everything; neighbours, ends, and one byte anywhere in one block
    uint64_t *addr = (uint64_t *)::operator new(8 * cap); Ptr *hold = new Ptr[cap];
    for (uint64_t i = 0; i < cap; i++) { hold[i] = alloc(pool); addr[i] = mem(hold[i]); }
    uint64_t base = vp_heap_base((void *)addr[0]), size = vp_heap_size((void *)addr[0]), lo = addr[0], hi = addr[0];
    for (uint64_t i = 0; i < cap; i++) { vp_assert(addr[i] % 8 == 0, "a block is not aligned for pointers"); if (addr[i] < lo) lo = addr[i]; if (addr[i] > hi) hi = addr[i]; if (i) { uint64_t d = addr[i] > addr[i - 1] ? addr[i] - addr[i - 1] : addr[i - 1] - addr[i]; vp_assert(d >= pad, "blocks overlap"); } }
    vp_assert(lo >= base && hi + pad <= base + size, "a block lies outside the pool's memory"); vp_assert(cap == 1 || hi - lo >= (cap - 1) * pad, "blocks overlap");
    for (uint64_t i = 0; i < cap; i++) for (uint64_t k = 0; k < pad; k += 8) vp_assert(*(uint64_t *)(addr[i] + k) == 0, "a block is not delivered zero-filled");
    for (uint64_t i = 0; i < cap; i++) for (uint64_t k = 0; k < pad; k += 8) *(uint64_t *)(addr[i] + k) = i + 1;
    for (uint64_t i = 0; i < cap; i++) for (uint64_t k = 0; k < pad; k += 8) vp_assert(*(uint64_t *)(addr[i] + k) == i + 1, "writing one block changes another");
    delete[] hold; ::operator delete(addr); vp_reach("swept");
#else
    for (int i = 0; i < NOPS && (uint64_t)used < cap && used <= MAXN; i++) {
        uint64_t off[MAXN + 1]; uint8_t v[MAXN + 1];
        // an arbitrary byte of every block held is set to an arbitrary value ...
        for (int j = 0; j < used; j++) { off[j] = vp_nondet(24, "offset"); vp_assume(off[j] < pad); v[j] = VP_U8("byte"); *(volatile uint8_t *)(mem(h[j]) + off[j]) = v[j]; }
        h[used] = alloc(pool); uint64_t a = mem(h[used]);
        vp_assert(a % 8 == 0, "a block is not aligned for pointers");
        uint64_t b = vp_heap_base((void *)a), z = vp_heap_size((void *)a); vp_assert(esz == 0 || (b && a >= b && a + pad <= b + z), "a block lies outside the pool's memory");
        for (int j = 0; j < used; j++) { uint64_t c = mem(h[j]); vp_assert(esz == 0 || (a > c ? a - c : c - a) >= pad, "blocks overlap"); }
        // ... and is still there, while the new block is zero everywhere
        for (int j = 0; j < used; j++) vp_assert(*(volatile uint8_t *)(mem(h[j]) + off[j]) == v[j], "preparing one block changes another");
        uint64_t o = vp_nondet(24, "offset"); if (o < pad) vp_assert(*(volatile uint8_t *)(a + o) == 0, "a block is not delivered zero-filled");
        // leave a mark to be found again if the block comes back uncleared
        o = vp_nondet(24, "offset"); if (o < pad) *(volatile uint8_t *)(a + o) = 0xff;
        used++;
#if FREE
        if (VP_BOOL("release")) { used--; h[used].reset(); vp_reach("released"); }
#endif
    }
#if !FREE
    if (used == NOPS || used == MAXN) vp_reach("several blocks held");
#endif
    for (int j = used; j-- > 0;) h[j].reset();
#endif
    delete pool; vp_assert(vp_heap_live() == 0, "memory is not released"); vp_reach("done");
}
