// The Mutex (C24): exclusion, try_lock, the native lock behind it, reported errors.
#include "Mutex.hpp"
#include "vp.h"
#include <system_error>
#include <mutex>
#include <pthread.h>
#include <errno.h>
using namespace ReiserRT::Core;
#ifndef MODE    // 0: error codes, 1: one thread's operations, 2: threads
#define MODE 0
#endif
#ifndef NOPS
#define NOPS 4
#endif
#ifndef NT
#define NT 2
#endif
#ifndef KT      // operations of every thread
#define KT 2
#endif
#ifndef KEEP    // main holds the mutex while the threads run (which then only try)
#define KEEP 0
#endif
static Mutex *m; static struct G { int owner, trying[NT + 2], held[NT + 2], count, got; } g;
static void take(int t) { vp_assert(!g.owner, "two threads hold the mutex"); g.owner = t; for (int i = 0; i < NT + 2; i++) g.held[i] = 1; }
static void worker(void *) {
    int t = vp_self() + 1; vp_yield();
    for (int k = 0; k < KT; k++) {
        if (KEEP || vp_nondet(1, "try")) { g.held[t - 1] = g.owner != 0; bool ok = m->try_lock(); if (ok) { take(t); g.got++; } else { vp_assert(g.held[t - 1], "try_lock fails although the mutex is free"); continue; } vp_assert(!KEEP, "try_lock succeeds although another thread holds the mutex"); }
        else { m->lock(); take(t); g.got++; }
        int c = g.count; vp_yield(); vp_assert(g.count == c && g.owner == t, "two threads hold the mutex"); g.count = c + 1; g.owner = 0; m->unlock(); vp_yield();
    }
}
extern "C" void vp_main() {
    vp_ghost(&g); uint64_t before = vp_heap_live(); m = new Mutex; auto h = m->native_handle(); vp_assert(h != nullptr && m->native_handle() == h, "native_handle");
    vp_assert(vp_mutex_protocol(h) == PTHREAD_PRIO_INHERIT, "the lock does not use the priority inheritance protocol"); vp_assert(vp_mutex_owner(h) == 0, "a new mutex is locked");
    int me = vp_self() + 1;
#if MODE == 0
    uint32_t code = VP_U32("error code"); int site = (int)vp_split(2, "operation"); if (site < 1 || site > 3) return; bool locked = site == VP_UNLOCK || (site == VP_TRYLOCK && vp_split(1, "held already")); if (locked) m->lock();
    vp_fault(site, (int)code); int out = 0, got = 0; bool sys = false, ok = true;
    try { if (site == VP_LOCK) m->lock(); else if (site == VP_TRYLOCK) ok = m->try_lock(); else m->unlock(); }
    catch (std::system_error &e) { out = 1; got = e.code().value(); sys = e.code().category() == std::system_category(); } catch (...) { out = 2; }
    vp_fault(site, 0); vp_assert(out != 2, "something else than std::system_error is thrown");
    if (code == 0) { vp_assert(!out, "an exception although nothing failed"); vp_assert(ok == !(site == VP_TRYLOCK && locked), "try_lock does not succeed exactly when the mutex is free"); vp_reach("no error"); }
    else if (site == VP_TRYLOCK && code == EBUSY) { vp_assert(!out && !ok, "try_lock does not report busy as false"); vp_reach("busy"); }
    else { vp_assert(out == 1, "an error of the platform is not reported"); vp_assert(got == (int)code && sys, "the exception does not carry the platform's error code"); vp_reach("error reported"); }
    // The calls reach the native lock, and nothing else has changed: the mutex is held as the platform left it, and usable.
    int owner = vp_mutex_owner(h), want = code ? (locked ? me : 0) : site == VP_UNLOCK ? 0 : me; vp_assert(owner == want, "the native lock is not held as the operations succeeded"); vp_assert(m->native_handle() == h, "native_handle changes");
    if (want) m->unlock(); { std::lock_guard<Mutex> guard(*m); vp_assert(vp_mutex_owner(h) == me, "the lock is not the one native_handle exposes"); } vp_assert(m->try_lock(), "try_lock fails although the mutex is free"); m->unlock();
#elif MODE == 1
    Mutex *other = new Mutex; vp_assert(other->native_handle() != h, "two mutexes share their native lock");
    int held = 0; for (int k = 0; k < NOPS; k++) { int op = (int)vp_split(2, "operation"); if (op == 0 && !held) { m->lock(); held = 1; } else if (op == 1) { bool ok = m->try_lock(); vp_assert(ok == !held, "try_lock does not succeed exactly when the mutex is free"); held = 1; } else if (op == 2 && held) { m->unlock(); held = 0; } else if (op == 3) { other->lock(); vp_assert(vp_mutex_owner(other->native_handle()) == me, "the lock is not the one native_handle exposes"); other->unlock(); } else return;
        vp_assert(vp_mutex_owner(h) == (held ? me : 0), "the native lock is not held exactly while the mutex is"); vp_assert(m->native_handle() == h && vp_mutex_protocol(h) == PTHREAD_PRIO_INHERIT, "native_handle changes"); }
    // through the native handle
    if (!held) { pthread_mutex_lock(h); vp_assert(!m->try_lock(), "the lock is not the one native_handle exposes"); pthread_mutex_unlock(h); } else m->unlock();
    delete other;
#else
    if (KEEP) { m->lock(); g.owner = me; }
    for (int i = 0; i < NT; i++) vp_spawn(worker, nullptr); vp_run();
    for (int i = 0; i < NT; i++) vp_assert(vp_done(1 + i), "a thread stays blocked");
    if (KEEP) m->unlock(); vp_assert(g.count == g.got, "two threads held the mutex"); vp_assert(vp_mutex_owner(h) == 0, "the native lock stays held");
#endif
    delete m; vp_assert(vp_heap_live() == before, "memory is not released"); vp_reach("done");
}
