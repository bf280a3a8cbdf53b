// A RingBufferSimple that has been in use for any length of time (C06): k laps of puts and gets, then every sequence.
#include "RingBufferSimple.hpp"
#include "vp.h"
using namespace ReiserRT::Core;
#ifndef TYPE
#define TYPE uint32_t
#endif
#ifndef SIZE    // a power of two
#define SIZE 4
#endif
#ifndef NOPS
#define NOPS 6
#endif
typedef TYPE T; typedef RingBufferSimple<T> Ring;
static Ring *r; static T ref[SIZE + NOPS]; static int head, count;
static void oput(T v) {
    int out = 0; try { r->put(v); } catch (RingBufferOverflow &) { out = 1; } catch (...) { out = 2; }
    if (count == SIZE) vp_assert(out == 1, "a put into a full ring does not throw RingBufferOverflow");
    else { vp_assert(out == 0, "a put into a ring with room fails"); ref[head + count] = v; count++; }
}
static void oget() {
    int out = 0; T v; try { v = r->get(); } catch (RingBufferUnderflow &) { out = 1; } catch (...) { out = 2; }
    if (count == 0) vp_assert(out == 1, "a get from an empty ring does not throw RingBufferUnderflow");
    else { vp_assert(out == 0, "a get from a ring that holds elements fails"); vp_assert(v == ref[head], "a get returns another value than the oldest one put"); head++; count--; }
}
static void lap(void *) { for (int i = 0; i < SIZE; i++) { r->put((T)(i + 1)); T v = r->get(); if (v != (T)(i + 1)) vp_assert(false, "a get returns another value than the one put"); } }
extern "C" void vp_main() {
    r = new Ring(SIZE); vp_assert(r->getSize() == SIZE, "size");
    uint32_t k = VP_U32("laps"); vp_assume(k >= 3 && k <= 0xffffffffu / SIZE + 4); // up to once around a 32-bit count
    if (!vp_laps(lap, nullptr, k, r, sizeof(Ring))) return;
    bool full = vp_split(1, "filled"); if (full) { for (int i = 0; i < SIZE; i++) oput((T)(i + 7)); oput(0); }
    for (int i = 0; i < NOPS; i++) { if (vp_split(1, "put")) { if (count == SIZE || head + count < SIZE + NOPS) oput((T)vp_nondet(32, "value")); } else oget(); }
    while (count > 0) oget(); oget();
    delete r; vp_assert(vp_heap_live() == 0, "memory is not released"); if (k < 1000) vp_reach("done");
}
