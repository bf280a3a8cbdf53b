// RingBufferSimple against a reference queue: every sequence of puts and gets, every value.
#include "RingBufferSimple.hpp"
#include "vp.h"
using namespace ReiserRT::Core;
struct Obj { int x; };
#ifndef TYPE
#define TYPE uint32_t
#endif
#ifndef SIZE    // requested size; 0: symbolic 0..4
#define SIZE 0
#endif
#ifndef NOPS
#define NOPS 8
#endif
typedef TYPE T;
template <class X> struct Mk { static X of(uint64_t v) { return (X)v; } };
template <> struct Mk<bool> { static bool of(uint64_t v) { return v & 1; } };
template <> struct Mk<double> { static double of(uint64_t v) { double d; __builtin_memcpy(&d, &v, 8); return d; } };
template <class X> struct Mk<X *> { static X *of(uint64_t v) { return (X *)v; } };
static bool same(T a, T b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }
static T ref[64]; static int head, count; static uint64_t cap;
static RingBufferSimple<T> *r;
static void oput(T v) {
    int out = 0; try { r->put(v); } catch (RingBufferOverflow &) { out = 1; } catch (...) { out = 2; }
    if ((uint64_t)count == cap) vp_assert(out == 1, "a put into a full ring does not throw RingBufferOverflow");
    else { vp_assert(out == 0, "a put into a ring with room fails"); ref[head + count] = v; count++; }
}
static void oget() {
    int out = 0; T v; try { v = r->get(); } catch (RingBufferUnderflow &) { out = 1; } catch (...) { out = 2; }
    if (count == 0) vp_assert(out == 1, "a get from an empty ring does not throw RingBufferUnderflow");
    else { vp_assert(out == 0, "a get from a ring that holds elements fails"); vp_assert(same(v, ref[head]), "a get returns another value than the oldest one put"); head++; count--; }
}
extern "C" void vp_main() {
    uint64_t n = SIZE ? SIZE : vp_range(0, 4, "requested");
    r = new RingBufferSimple<T>(n); cap = r->getSize();
    vp_assert(cap >= n && cap >= 2, "size");
#if FILLFIRST
    for (uint64_t i = 0; i < cap; i++) { T v = Mk<T>::of(i * 3 + 1); r->put(v); ref[head + count++] = v; }
#endif
    for (int i = 0; i < NOPS; i++) {
        if (VP_BOOL("put")) oput(Mk<T>::of(vp_nondet(64, "value"))); else oget();
        if ((uint64_t)count == cap) vp_reach("ring full"); if (i == NOPS - 1 && count == 0 && head >= (NOPS + 1) / 3) vp_reach("wrapped around and empty again");
    }
    while (count > 0) oget();
    oget();
    delete r; vp_assert(vp_heap_live() == 0, "memory is not released");
    vp_reach("done");
}
