// Sizing of RingBufferSimple for every requested size, and room for getSize() elements.
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
#include "vp.h"
using namespace ReiserRT::Core;
#ifndef GUARDED
#define GUARDED 0
#endif
#ifndef TYPE
#define TYPE int
#endif
#ifndef FILL    // largest request whose ring is filled completely (0: none)
#define FILL 0
#endif
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI UINT64_MAX
#endif
static uint64_t expect(uint64_t n) { if (n < 2) n = 2; if (n > 1u << 20) n = 1u << 20; uint64_t p = 2; for (int i = 0; i < 20; i++) if (p < n) p <<= 1; return p; }
extern "C" void vp_main() {
#if FILL
    uint64_t n = vp_range(LO, FILL, "requested");
#elif LO == 0
    uint64_t n = VP_U64("requested");
#else
    uint64_t n = vp_range(LO, HI, "requested");
#endif
    uint64_t p = expect(n), h0 = vp_heap_bytes();
#if GUARDED
    vp_assume(n >= 1 && n <= 1u << 20); RingBufferGuarded<TYPE> *r = new RingBufferGuarded<TYPE>(n);
#else
    RingBufferSimple<TYPE> *r = new RingBufferSimple<TYPE>(n);
#endif
    vp_assert(r->getSize() == p, "the size is not the smallest power of two holding the request, within 2..2^20");
    vp_assert(r->getMask() == p - 1, "mask differs from size - 1");
    vp_assert(r->getNumBits() < 64 && (1ull << r->getNumBits()) == p, "2^bits differs from the size");
    vp_assert(vp_heap_bytes() - h0 >= p * sizeof(TYPE), "the storage is too small for getSize() elements");
#if FILL && !GUARDED
    TYPE first = (TYPE)VP_U64("value");
    r->put(first); for (uint64_t i = 1; i < p; i++) r->put((TYPE)(i * 7 + 3));
    bool over = false; try { r->put((TYPE)1); } catch (RingBufferOverflow &) { over = true; } vp_assert(over, "a put into a full ring is not rejected");
    vp_assert(r->get() == first, "the first element changed while the ring was filled");
    for (uint64_t i = 1; i < p; i++) vp_assert(r->get() == (TYPE)(i * 7 + 3), "an element changed while the ring was filled");
    bool under = false; try { (void)r->get(); } catch (RingBufferUnderflow &) { under = true; } vp_assert(under, "a get from an empty ring is not rejected");
#endif
    #if !FILL
    if (p >= 1u << 20) vp_reach("largest size");
    if (p == 2) vp_reach("smallest size");
#endif
    delete r; vp_reach("done");
}
