// Native replay of a counterexample or witness found by rsx: the harness and the real code, compiled from the same
// bitcode, run on real threads, one at a time, in the order and with the inputs of the trace.
//   replay TRACE [racesite1 racesite2]
// Exit: 10 violation observed (first line "NATIVE <kind>: <what>"), 0 end of harness reached, 20 trace not followed.
#include <pthread.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <new>
#include <exception>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <array>
#include "../rt/prim.h"
#include "../rt/vp.h"

// ---------------------------------------------------------------- trace
struct Ev { int kind; int tid; uint64_t v; std::string name; };
static std::vector<Ev> *tr; static size_t pos; static bool verbose;
static std::vector<std::string> *reachedL;
[[noreturn]] static void done(int code, const char *kind, const char *fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("NATIVE %s: %s\n", kind, b); if (reachedL) for (auto &l : *reachedL) printf("REACHED %s\n", l.c_str()); printf("EVENTS %zu/%zu\n", pos, tr ? tr->size() : 0); fflush(stdout); _exit(code);
}
static Ev next(int kind, const char *what) {
    while (pos < tr->size() && ((*tr)[pos].kind == 4 || (*tr)[pos].kind == 6)) pos++;
    if (pos >= tr->size()) done(20, "diverged", "trace exhausted at %s", what);
    Ev &e = (*tr)[pos]; if (e.kind != kind) done(20, "diverged", "event %zu: expected kind %d (%s), trace has %d %s", pos, kind, what, e.kind, e.name.c_str());
    pos++; return e;
}
// ---------------------------------------------------------------- threads
enum { MAXT = 16 };
struct T { bool started = false, done = false, left = false; void (*fn)(void *) = nullptr; void *arg = nullptr; pthread_t th; int kind = 0; const uint32_t *a = nullptr, *b = nullptr; uint32_t am = 0, av = 0, bm = 0, bv = 0; };
static T ts[MAXT]; static int nt = 1, cur = 0; static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t C[MAXT];
static uint32_t faults[8]; static int forbid;
static bool enabledNow(int t) {
    T &x = ts[t]; if (x.done) return false; if (t && !x.started) return true; if (x.kind == 11) return true;
    if (x.a && (*x.a & x.am) != x.av) return false; if (x.b && (*x.b & x.bm) != x.bv) return false; return true;
}
// which threads may be chosen now (same rule as the engine)
static uint32_t candidates() {
    for (int i = 1; i < nt; i++) if (!ts[i].started) return 1u << i;
    uint32_t n = 0, sl = 0, run = 0; for (int i = 0; i < nt; i++) if (enabledNow(i)) { if (ts[i].kind == K_SLEEP) sl |= 1u << i; else if (ts[i].kind == 11) run |= 1u << i; else n |= 1u << i; }
    return n ? n : sl ? sl : run;
}
static void *body(void *p);
static void schedule() { // called by the running thread with its state saved; returns when it is current again (never for a finished one)
    int self = cur; uint32_t c = candidates(); if (!c) done(10, "deadlock", "no thread can run");
    Ev e = next(0, "schedule"); int t = e.tid; if (t < 0 || t >= nt || !(c >> t & 1)) done(20, "diverged", "thread %d cannot run at event %zu", t, pos - 1);
    cur = t; if (!ts[t].started && t) { ts[t].started = true; ts[t].left = true; pthread_create(&ts[t].th, nullptr, body, (void *)(long)t); } else pthread_cond_signal(&C[t]);
    if (ts[self].done) return;
    while (cur != self) pthread_cond_wait(&C[self], &G);
}
static void *body(void *p) {
    int t = (int)(long)p; pthread_mutex_lock(&G); while (cur != t) pthread_cond_wait(&C[t], &G);
    ts[t].fn(ts[t].arg); ts[t].done = true; schedule(); pthread_mutex_unlock(&G); return nullptr;
}
static void point(int kind, const uint32_t *a, uint32_t am, uint32_t av, const uint32_t *b, uint32_t bm, uint32_t bv) {
    T &x = ts[cur]; x.kind = kind; x.a = a; x.am = am; x.av = av; x.b = b; x.bm = bm; x.bv = bv;
    if (cur == 0) {
        if (kind == K_SLEEP || kind == 11) { bool live = false; for (int i = 1; i < nt; i++) if (!ts[i].done) live = true; if (!live) return; }
        else if (enabledNow(0)) return;
        schedule(); return;
    }
    if (kind == K_UNLOCK) { x.left = true; return; }
    if ((kind == K_SIGNAL || kind == K_ATOMIC || kind == K_TRYLOCK || kind == K_WAIT) && !x.left) { x.left = true; return; }
    schedule(); x.left = kind != K_LOCK && kind != K_REACQ && kind != K_YIELD && kind != K_SLEEP;
}
// ---------------------------------------------------------------- happens-before race detection (for confirming races)
typedef std::vector<uint32_t> VC; static VC *vc; static std::unordered_map<uint64_t, VC> *lockVC; static uint32_t wantA = ~0u, wantB = ~0u; static bool racing;
struct Sh { uint32_t wt, wc, ws; std::vector<std::array<uint32_t, 3>> rd; bool wat; std::vector<bool> rat; };
static std::unordered_map<uint64_t, Sh> *shadow;
static void hbInit() { vc = new VC[MAXT]; for (int i = 0; i < MAXT; i++) { vc[i].assign(MAXT, 0); vc[i][i] = 1; } lockVC = new std::unordered_map<uint64_t, VC>; shadow = new std::unordered_map<uint64_t, Sh>; }
static void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acq(const void *p) { if (!racing) return; auto it = lockVC->find((uint64_t)p); if (it != lockVC->end()) join(vc[cur], it->second); }
static void rel(const void *p) { if (!racing) return; auto &l = (*lockVC)[(uint64_t)p]; if (l.empty()) l.assign(MAXT, 0); join(l, vc[cur]); vc[cur][cur]++; }
static void raceAcc(uint64_t a, uint64_t n, int fl, uint32_t id) {
    if (!racing || cur == 0) return; bool wr = fl & 1, at = fl & 2; if (n > 65536) n = 65536;
    auto hit = [&](uint32_t s) { if ((s == wantA && id == wantB) || (s == wantB && id == wantA)) done(10, "race", "conflicting unsynchronised accesses %u and %u", s, id); };
    for (uint64_t i = 0; i < n; i++) {
        auto it = shadow->find(a + i); if (it == shadow->end()) { Sh z; z.wt = ~0u; it = shadow->emplace(a + i, z).first; } Sh &s = it->second;
        if (s.wt != ~0u && s.wt != (uint32_t)cur && s.wc > vc[cur][s.wt] - 0 && !(at && s.wat)) hit(s.ws);
        if (wr) { for (size_t k = 0; k < s.rd.size(); k++) if (s.rd[k][0] != (uint32_t)cur && s.rd[k][1] > vc[cur][s.rd[k][0]] && !(at && s.rat[k])) hit(s.rd[k][2]); s.rd.clear(); s.rat.clear(); s.wt = cur; s.wc = vc[cur][cur]; s.ws = id; s.wat = at; }
        else { s.rd.push_back({(uint32_t)cur, vc[cur][cur], id}); s.rat.push_back(at); }
    }
}
// ---------------------------------------------------------------- tracked heap
struct Blk { uint64_t base, size; int kind; bool live; };
static std::map<uint64_t, Blk> *heap; static uint64_t live, liveBytes; static int fillByte = 0xA5;
static const uint64_t AB = 0x100000000000ull, AEND = 0x180000000000ull; static uint64_t abrk = AB;
static void *talloc(uint64_t n, int kind) {
    if (forbid && kind != 3) done(10, "heap", "heap allocation in an operation that must not allocate");
    if (n > 1ull << 33) return nullptr;
    if (!heap) heap = new std::map<uint64_t, Blk>;
    uint64_t sz = (n + 16 + 4095) & ~4095ull, a = abrk; abrk += sz + (4ull << 20); if (abrk > AEND) done(20, "diverged", "replay heap exhausted");
    void *p = mmap((void *)a, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)a) done(20, "diverged", "mmap");
    memset(p, fillByte, n < 1 << 20 ? n : 1 << 20); if (n > 1 << 20) memset((char *)p + n - 4096, fillByte, 4096);
    (*heap)[a] = Blk{a, n, kind, true}; live++; liveBytes += n; return p;
}
static Blk *blkOf(uint64_t a) { if (!heap || a < AB || a >= abrk) return nullptr; auto it = heap->upper_bound(a); if (it == heap->begin()) return nullptr; --it; return &it->second; }
static void tfree(void *p, int kind) {
    if (!p) return; if ((uint64_t)p < AB || (uint64_t)p >= abrk) { free(p); return; } // allocated inside libstdc++
    Blk *b = blkOf((uint64_t)p);
    if (!b || b->base != (uint64_t)p) done(10, "memory", "invalid free: pointer is not the start of a heap block");
    if (!b->live) done(10, "memory", "invalid free: double free"); if (b->kind != kind) done(10, "memory", "invalid free: mismatched deallocation function");
    b->live = false; live--; liveBytes -= b->size;
    if (racing) raceAcc(b->base, b->size, 1, ~0u);
}
extern "C" {
void __rsx_acc(void *p, uint64_t n, uint32_t fl, uint32_t id) {
    uint64_t a = (uint64_t)p; if (!n) return;
    if (a < 65536) done(10, "memory", "access through a null pointer (offset %lu)", a);
    if (a >= AB && a < AEND) { Blk *b = blkOf(a); if (!b) done(10, "memory", "access outside any block"); if (a + n > b->base + b->size) done(10, "memory", "access outside its block (offset %lu, %lu bytes, block of %lu)", a - b->base, n, b->size); if (!b->live) done(10, "memory", "access to freed memory"); }
    if (racing) { if (fl & 4) acq(p); raceAcc(a, n, fl, id); if (fl & 8) rel(p); }
}
void __rsx_yield(uint32_t) { point(K_ATOMIC, nullptr, 0, 0, nullptr, 0, 0); }
void __rsx_sync(int k, const uint32_t *a, uint32_t am, uint32_t av, const uint32_t *b, uint32_t bm, uint32_t bv) { point(k, a, am, av, b, bm, bv); }
uint32_t __rsx_pick(uint32_t) { return (uint32_t)next(2, "pick").v; }
uint32_t __rsx_spurious(void) { return (uint32_t)next(3, "spurious").v; }
uint32_t __rsx_self(void) { return (uint32_t)cur; }
void __rsx_violation(const char *w) { done(10, "environment", "%s", w); }
void __rsx_hb(int k, const void *a) { if (k == 1) acq(a); else rel(a); }
uint32_t __rsx_fault(int s) { return faults[s & 7]; }
// harness API
uint64_t vp_nondet(int, const char *n) { Ev e = next(1, n); if (e.name != n) done(20, "diverged", "input %s, trace has %s", n, e.name.c_str()); return e.v; }
uint64_t vp_split(int b, const char *n) { return vp_nondet(b, n); }
void vp_assume(bool c) { if (!c) done(20, "diverged", "assumption false"); }
void vp_assert(bool c, const char *w) { if (!c) done(10, "assert", "%s", w); }
void vp_reach(const char *l) { next(5, l); reachedL->push_back(l); }
int vp_spawn(void (*fn)(void *), void *arg) { ts[nt].fn = fn; ts[nt].arg = arg; if (racing) { join(vc[nt], vc[cur]); vc[cur][cur]++; } return nt++; }
void vp_run(void) { point(11, nullptr, 0, 0, nullptr, 0, 0); }
bool vp_done(int t) { return ts[t].done; }
bool vp_blocked(int t) { return ts[t].started && !ts[t].done; }
void vp_spurious(int) {}
int vp_self(void) { return cur; }
void vp_ghost(const void *) {}
uint64_t vp_heap_live(void) { return live; }
uint64_t vp_heap_bytes(void) { return liveBytes; }
void vp_heap_forbid(int on) { forbid = on; }
uint64_t vp_heap_size(const void *p) { Blk *b = blkOf((uint64_t)p); return b && b->live && (uint64_t)p <= b->base + b->size ? b->size : 0; }
uint64_t vp_heap_base(const void *p) { Blk *b = blkOf((uint64_t)p); return b && b->live && (uint64_t)p <= b->base + b->size ? b->base : 0; }
bool vp_laps(void (*step)(void *), void *ctx, uint32_t k, void *, uint32_t) { for (uint32_t i = 0; i < k; i++) step(ctx); return true; }
void vp_fault(int site, int code) { faults[site & 7] = (uint32_t)code; }
}
#define P(n) rsxn_##n
#include "pthread_model.inc"
// ---------------------------------------------------------------- redirected environment
extern "C" {
void *rsxn_malloc(size_t n) { return talloc(n, 0); }
void rsxn_free(void *p) { tfree(p, 0); }
void *rsxn_calloc(size_t a, size_t b) { void *p = talloc(a * b, 0); if (p) memset(p, 0, a * b); return p; }
void *rsxn_aligned_alloc(size_t, size_t n) { return talloc(n, 0); }
int rsxn_posix_memalign(void **p, size_t, size_t n) { *p = talloc(n, 0); return *p ? 0 : ENOMEM; }
#define NEWS(sym, kind) void *rsxn_##sym(size_t n)
void *rsxn__Znwm(size_t n) { void *p = talloc(n, 1); if (!p) throw std::bad_alloc(); return p; }
void *rsxn__Znam(size_t n) { void *p = talloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void *rsxn__ZnwmRKSt9nothrow_t(size_t n, void *) { return talloc(n, 1); }
void *rsxn__ZnamRKSt9nothrow_t(size_t n, void *) { return talloc(n, 2); }
void *rsxn__ZnwmSt11align_val_t(size_t n, size_t) { void *p = talloc(n, 1); if (!p) throw std::bad_alloc(); return p; }
void *rsxn__ZnamSt11align_val_t(size_t n, size_t) { void *p = talloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void rsxn__ZdlPv(void *p) { tfree(p, 1); }
void rsxn__ZdlPvm(void *p, size_t) { tfree(p, 1); }
void rsxn__ZdaPv(void *p) { tfree(p, 2); }
void rsxn__ZdaPvm(void *p, size_t) { tfree(p, 2); }
void rsxn__ZdlPvRKSt9nothrow_t(void *p, void *) { tfree(p, 1); }
void rsxn__ZdaPvRKSt9nothrow_t(void *p, void *) { tfree(p, 2); }
void rsxn__ZdlPvSt11align_val_t(void *p, size_t) { tfree(p, 1); }
void rsxn__ZdlPvmSt11align_val_t(void *p, size_t, size_t) { tfree(p, 1); }
void rsxn__ZdaPvSt11align_val_t(void *p, size_t) { tfree(p, 2); }
void rsxn__ZdaPvmSt11align_val_t(void *p, size_t, size_t) { tfree(p, 2); }
void rsxn__ZNSt18condition_variableC1Ev(void *) {}
void rsxn__ZNSt18condition_variableC2Ev(void *) {}
void rsxn__ZNSt18condition_variableD1Ev(void *c) { rsxn_pthread_cond_destroy((pthread_cond_t *)c); }
void rsxn__ZNSt18condition_variableD2Ev(void *c) { rsxn_pthread_cond_destroy((pthread_cond_t *)c); }
void rsxn__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, std::unique_lock<std::mutex> *l) { rsxn_pthread_cond_wait((pthread_cond_t *)c, l->mutex()->native_handle()); }
void rsxn__ZNSt18condition_variable10notify_oneEv(void *c) { rsxn_pthread_cond_signal((pthread_cond_t *)c); }
void rsxn__ZNSt18condition_variable10notify_allEv(void *c) { rsxn_pthread_cond_broadcast((pthread_cond_t *)c); }
int64_t rsxn__ZNSt6chrono3_V212system_clock3nowEv(void) { return (int64_t)vp_nondet(32, "clock"); }
int64_t rsxn__ZNSt6chrono3_V212steady_clock3nowEv(void) { return (int64_t)vp_nondet(32, "clock"); }
void rsxn__ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS1_IlS2_ILl1ELl1000000000EEEE(int64_t, int64_t) { point(K_SLEEP, nullptr, 0, 0, nullptr, 0, 0); }
}
static void onSig(int s) {
    const char *k = s == SIGABRT ? "terminate" : s == SIGILL ? "trap" : s == SIGALRM ? "timeout" : "memory"; char b[128]; int n = snprintf(b, sizeof b, "NATIVE %s: signal %d\n", k, s); if (write(1, b, n)) {} _exit(s == SIGALRM ? 20 : 10);
}
int main(int argc, char **argv) {
    if (argc < 2) return 20; setvbuf(stdout, nullptr, _IOLBF, 0);
    if (getenv("RSXN_FILL")) fillByte = (int)strtol(getenv("RSXN_FILL"), nullptr, 0); verbose = getenv("RSXN_V");
    tr = new std::vector<Ev>; reachedL = new std::vector<std::string>; for (int i = 0; i < MAXT; i++) pthread_cond_init(&C[i], nullptr);
    FILE *f = fopen(argv[1], "r"); if (!f) return 20; char line[4096];
    while (fgets(line, sizeof line, f)) { int k, t, n = 0; unsigned long long v; if (line[0] == '#' || line[0] == '\n') continue; if (sscanf(line, "%d %d %llu %n", &k, &t, &v, &n) < 3) return 20; std::string nm = line + n; while (!nm.empty() && (nm.back() == '\n' || nm.back() == ' ')) nm.pop_back(); tr->push_back({k, t, v, nm}); }
    fclose(f);
    if (argc >= 4) { racing = true; wantA = (uint32_t)strtoul(argv[2], nullptr, 10); wantB = (uint32_t)strtoul(argv[3], nullptr, 10); hbInit(); }
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) signal(s, onSig);
    std::set_terminate([] { done(10, "terminate", "std::terminate called"); });
    alarm(getenv("RSXN_TIME") ? atoi(getenv("RSXN_TIME")) : 120);
    pthread_mutex_lock(&G); cur = 0;
    try { vp_main(); } catch (...) { done(10, "terminate", "exception escapes the harness"); }
    done(0, "end", "harness finished");
}
