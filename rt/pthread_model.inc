// pthread mutexes and condition variables over the primitives of prim.h.  P(name) gives the symbol name.
struct RsxMutex { uint32_t magic, owner, kind, count; };          // kind: type | protocol << 8
struct RsxCond { uint32_t magic, waiters, signalled; };
struct RsxAttr { uint32_t v; };
enum : uint32_t { MG_STATIC = 0, MG_M = 0x4d555458, MG_C = 0x434f4e44, MG_DEAD = 0xdeaddead };

static inline void rsxChkM(RsxMutex *m, const char *w) { if (m->magic != MG_M && m->magic != MG_STATIC) __rsx_violation(w); }
static inline void rsxChkC(RsxCond *c, const char *w) { if (c->magic != MG_C && c->magic != MG_STATIC) __rsx_violation(w); }

extern "C" {
int P(pthread_mutexattr_init)(pthread_mutexattr_t *a) { ((RsxAttr *)a)->v = 0; return 0; }
int P(pthread_mutexattr_destroy)(pthread_mutexattr_t *) { return 0; }
int P(pthread_mutexattr_getprotocol)(const pthread_mutexattr_t *a, int *p) { *p = (((const RsxAttr *)a)->v >> 8) & 3; return 0; }
int P(pthread_mutexattr_setprotocol)(pthread_mutexattr_t *a, int p) { if (p < 0 || p > 2) return EINVAL; RsxAttr *r = (RsxAttr *)a; r->v = (r->v & ~0x300u) | ((uint32_t)p << 8); return 0; }
int P(pthread_mutexattr_settype)(pthread_mutexattr_t *a, int t) { if (t < 0 || t > 3) return EINVAL; RsxAttr *r = (RsxAttr *)a; r->v = (r->v & ~3u) | (uint32_t)t; return 0; }
int P(pthread_mutexattr_gettype)(const pthread_mutexattr_t *a, int *t) { *t = ((const RsxAttr *)a)->v & 3; return 0; }
int P(pthread_mutexattr_setrobust)(pthread_mutexattr_t *, int) { return 0; }
int P(pthread_mutexattr_setpshared)(pthread_mutexattr_t *, int) { return 0; }
int P(pthread_mutex_init)(pthread_mutex_t *mm, const pthread_mutexattr_t *a) {
    RsxMutex *m = (RsxMutex *)mm; m->magic = MG_M; m->owner = 0; m->kind = a ? ((const RsxAttr *)a)->v : 0; m->count = 0; return 0;
}
int P(pthread_mutex_destroy)(pthread_mutex_t *mm) {
    RsxMutex *m = (RsxMutex *)mm; rsxChkM(m, "destroy of an uninitialised or destroyed mutex"); if (m->owner) return EBUSY; m->magic = MG_DEAD; return 0;
}
int P(pthread_mutex_lock)(pthread_mutex_t *mm) {
    RsxMutex *m = (RsxMutex *)mm; uint32_t self = __rsx_self() + 1;
    uint32_t f = __rsx_fault(1); if (f) return (int)f;
    rsxChkM(m, "lock of an uninitialised or destroyed mutex");
    if (m->owner == self) {
        if ((m->kind & 3) == 1) { m->count++; return 0; }
        if ((m->kind & 3) == 2) return EDEADLK;
    }
    __rsx_sync(K_LOCK, &m->owner, ~0u, 0, nullptr, 0, 0);
    rsxChkM(m, "lock of a mutex destroyed while waiting");
    m->owner = self; __rsx_hb(1, m); return 0;
}
int P(pthread_mutex_trylock)(pthread_mutex_t *mm) {
    RsxMutex *m = (RsxMutex *)mm; uint32_t self = __rsx_self() + 1;
    uint32_t f = __rsx_fault(2); if (f) return (int)f;
    __rsx_sync(K_TRYLOCK, nullptr, 0, 0, nullptr, 0, 0);
    rsxChkM(m, "trylock of an uninitialised or destroyed mutex");
    if (m->owner) { if (m->owner == self && (m->kind & 3) == 1) { m->count++; return 0; } return EBUSY; }
    m->owner = self; __rsx_hb(1, m); return 0;
}
int P(pthread_mutex_unlock)(pthread_mutex_t *mm) {
    RsxMutex *m = (RsxMutex *)mm; uint32_t self = __rsx_self() + 1;
    uint32_t f = __rsx_fault(3); if (f) return (int)f;
    __rsx_sync(K_UNLOCK, nullptr, 0, 0, nullptr, 0, 0);
    rsxChkM(m, "unlock of an uninitialised or destroyed mutex");
    if (m->owner != self) { if (m->kind & 3) return EPERM; __rsx_violation("unlock of a mutex the caller does not hold"); return EPERM; }
    if (m->count) { m->count--; return 0; }
    __rsx_hb(2, m); m->owner = 0; return 0;
}
int P(pthread_condattr_init)(pthread_condattr_t *a) { *(uint32_t *)a = 0; return 0; }
int P(pthread_condattr_destroy)(pthread_condattr_t *) { return 0; }
int P(pthread_condattr_setclock)(pthread_condattr_t *, clockid_t) { return 0; }
int P(pthread_condattr_setpshared)(pthread_condattr_t *, int) { return 0; }
int P(pthread_cond_init)(pthread_cond_t *cc, const pthread_condattr_t *) { RsxCond *c = (RsxCond *)cc; c->magic = MG_C; c->waiters = 0; c->signalled = 0; return 0; }
int P(pthread_cond_destroy)(pthread_cond_t *cc) {
    RsxCond *c = (RsxCond *)cc; rsxChkC(c, "destroy of an uninitialised or destroyed condition variable");
    if (c->waiters | c->signalled) __rsx_sync(K_DESTROY, &c->waiters, ~0u, 0, &c->signalled, ~0u, 0); // glibc waits for woken threads to leave
    c->magic = MG_DEAD; return 0;
}
static int rsxWait(RsxCond *c, RsxMutex *m, int timed) {
    uint32_t self = __rsx_self(), bit = 1u << self;
    __rsx_sync(K_WAIT, nullptr, 0, 0, nullptr, 0, 0);
    rsxChkC(c, "wait on an uninitialised or destroyed condition variable"); rsxChkM(m, "wait with an uninitialised or destroyed mutex");
    if (m->owner != self + 1) __rsx_violation("condition wait without holding the mutex");
    int to = 0;
    if (timed) { to = (int)__rsx_spurious(); }
    if (to || __rsx_spurious()) c->signalled |= bit; else c->waiters |= bit;
    __rsx_hb(2, m); m->owner = 0;
    __rsx_sync(K_REACQ, &c->signalled, bit, bit, &m->owner, ~0u, 0);
    c->signalled &= ~bit; m->owner = self + 1; __rsx_hb(1, m);
    return to ? ETIMEDOUT : 0;
}
int P(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *m) { return rsxWait((RsxCond *)c, (RsxMutex *)m, 0); }
int P(pthread_cond_timedwait)(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return rsxWait((RsxCond *)c, (RsxMutex *)m, 1); }
int P(pthread_cond_clockwait)(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return rsxWait((RsxCond *)c, (RsxMutex *)m, 1); }
int P(pthread_cond_signal)(pthread_cond_t *cc) {
    RsxCond *c = (RsxCond *)cc; __rsx_sync(K_SIGNAL, nullptr, 0, 0, nullptr, 0, 0);
    rsxChkC(c, "signal on an uninitialised or destroyed condition variable");
    uint32_t p = __rsx_pick(c->waiters); c->waiters &= ~p; c->signalled |= p; return 0;
}
int P(pthread_cond_broadcast)(pthread_cond_t *cc) {
    RsxCond *c = (RsxCond *)cc; __rsx_sync(K_SIGNAL, nullptr, 0, 0, nullptr, 0, 0);
    rsxChkC(c, "broadcast on an uninitialised or destroyed condition variable");
    c->signalled |= c->waiters; c->waiters = 0; return 0;
}
int P(nanosleep)(const struct timespec *, struct timespec *) { __rsx_sync(K_SLEEP, nullptr, 0, 0, nullptr, 0, 0); return 0; }
int P(clock_nanosleep)(clockid_t, int, const struct timespec *, struct timespec *) { __rsx_sync(K_SLEEP, nullptr, 0, 0, nullptr, 0, 0); return 0; }
int P(usleep)(unsigned) { __rsx_sync(K_SLEEP, nullptr, 0, 0, nullptr, 0, 0); return 0; }
int P(sched_yield)(void) { __rsx_sync(K_YIELD, nullptr, 0, 0, nullptr, 0, 0); return 0; }
void vp_yield(void) { __rsx_sync(K_YIELD, nullptr, 0, 0, nullptr, 0, 0); }
int vp_mutex_protocol(void *n) { RsxMutex *m = (RsxMutex *)n; return m->magic == MG_M ? (int)((m->kind >> 8) & 3) : -1; }
int vp_mutex_owner(void *n) { return (int)((RsxMutex *)n)->owner; }
}
