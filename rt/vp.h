// Harness API.  The same harness source is executed symbolically by rsx and, for replay, natively.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// --- symbolic inputs -------------------------------------------------------------------------
uint64_t vp_nondet(int bits, const char *name);       // arbitrary value of the given width
uint64_t vp_split(int bits, const char *name);         // the same (bits <= 4), but every value is followed up separately
void vp_assume(bool c);                               // restrict the inputs (part of the claim)
void vp_assert(bool c, const char *what);             // the property
void vp_reach(const char *label);                     // must be reachable (guards against vacuity)
// --- threads ---------------------------------------------------------------------------------
int vp_spawn(void (*fn)(void *), void *arg);          // create a thread; it starts at the next vp_run
void vp_run(void);                                    // run all threads, in every order, until none can move
bool vp_done(int t);                                  // thread function returned
bool vp_blocked(int t);                               // thread exists and has not returned (use at quiescence)
void vp_spurious(int budget);                         // number of spurious condition-variable wakeups allowed from now on
int vp_self(void);
void vp_yield(void);                                   // a point where other threads may run
// --- memory ----------------------------------------------------------------------------------
void vp_ghost(const void *obj);                       // object holding harness bookkeeping: not subject to the race check
uint64_t vp_heap_live(void);                          // number of live heap objects
uint64_t vp_heap_bytes(void);                         // their total size
void vp_heap_forbid(int on);                          // while on, any heap allocation is a violation
uint64_t vp_heap_size(const void *p);                 // size of the live heap object p points into (0: none)
uint64_t vp_heap_base(const void *p);                 // base address of the live heap object p points into (0: none)
// --- loops -----------------------------------------------------------------------------------
// Runs step(ctx) k >= 3 times.  Symbolically: three times, then every 32-bit word of obj that each time changed by the same
// constant is advanced by the remaining k - 3 times that constant; false if some word changed otherwise (nothing is known then).
bool vp_laps(void (*step)(void *), void *ctx, uint32_t k, void *obj, uint32_t bytes);
// --- environment -----------------------------------------------------------------------------
void vp_fault(int site, int code);                    // make the next calls at `site` return `code` (see pthread model)
int vp_mutex_protocol(void *native);                  // protocol a native mutex was initialised with (-1: not initialised)
int vp_mutex_owner(void *native);                     // 0: free, else thread id + 1
void vp_main(void);
}
enum { VP_LOCK = 1, VP_TRYLOCK = 2, VP_UNLOCK = 3 };
#define VP_U8(n)  ((uint8_t)vp_nondet(8, n))
#define VP_U32(n) ((uint32_t)vp_nondet(32, n))
#define VP_U64(n) vp_nondet(64, n)
#define VP_BOOL(n) (vp_nondet(1, n) != 0)
#if P_C26 // only data races count
#define vp_assert(c, m) ((void)(c))
#endif
static inline uint64_t vp_range(uint64_t lo, uint64_t hi, const char *n) { int b = 1; while (b < 64 && (hi - lo) >> b) b++; uint64_t v = vp_nondet(b, n); vp_assume(v <= hi - lo); return lo + v; }
