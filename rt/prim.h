// Primitives shared by the pthread model; implemented by the engine (symbolically) and by the replay shim (natively).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// Scheduling point of kind k.  The thread continues only when (*a & am) == av and (*b & bm) == bv.
void __rsx_sync(int kind, const uint32_t *a, uint32_t am, uint32_t av, const uint32_t *b, uint32_t bm, uint32_t bv);
uint32_t __rsx_pick(uint32_t mask);      // an arbitrary single bit of mask (0 if mask is 0)
uint32_t __rsx_spurious(void);           // 1 if this wait is chosen to wake spuriously
uint32_t __rsx_self(void);
void __rsx_violation(const char *what);  // environment rule broken
void __rsx_hb(int kind, const void *addr); // 1: acquired, 2: about to release (happens-before bookkeeping)
uint32_t __rsx_fault(int site);          // injected error code, 0 for none
}
enum { K_LOCK = 1, K_UNLOCK = 2, K_SIGNAL = 3, K_WAIT = 4, K_REACQ = 5, K_TRYLOCK = 6, K_SLEEP = 7, K_DESTROY = 8, K_YIELD = 9, K_ATOMIC = 10 };
