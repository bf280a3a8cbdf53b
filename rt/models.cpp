// C++ runtime and libc pieces executed by the engine (bitcode only; the native replay uses the real ones).
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <new>
#include <stdexcept>
#include <system_error>
#include <functional>
#include <typeinfo>
#include <condition_variable>
#include <mutex>
#include <cstring>
#include <chrono>
#include <thread>
#include "prim.h"
#include "vp.h"

extern "C" {
void *__rsx_malloc(size_t n, int kind);     // kind 0 malloc 1 new 2 new[] 3 exception 4 aligned
void __rsx_free(void *p, int kind);
[[noreturn]] void __rsx_raise(void *exc);   // unwind with the exception object exc
[[noreturn]] void __rsx_terminate(const char *why);
void *__rsx_tls(void);
[[noreturn]] void __rsx_exit(void);
}
#define P(n) n
#include "pthread_model.inc"

// ---- allocation ---------------------------------------------------------------------------------
void *operator new(size_t n) { void *p = __rsx_malloc(n, 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __rsx_malloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __rsx_malloc(n, 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __rsx_malloc(n, 2); }
void *operator new(size_t n, std::align_val_t) { void *p = __rsx_malloc(n, 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t) { void *p = __rsx_malloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { __rsx_free(p, 1); }
void operator delete(void *p, size_t) noexcept { __rsx_free(p, 1); }
void operator delete[](void *p) noexcept { __rsx_free(p, 2); }
void operator delete[](void *p, size_t) noexcept { __rsx_free(p, 2); }
void operator delete(void *p, const std::nothrow_t &) noexcept { __rsx_free(p, 1); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { __rsx_free(p, 2); }
void operator delete(void *p, std::align_val_t) noexcept { __rsx_free(p, 1); }
void operator delete[](void *p, std::align_val_t) noexcept { __rsx_free(p, 2); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __rsx_free(p, 1); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { __rsx_free(p, 2); }
extern "C" {
void *malloc(size_t n) { return __rsx_malloc(n, 0); }
void free(void *p) { __rsx_free(p, 0); }
void *calloc(size_t a, size_t b) { void *p = __rsx_malloc(a * b, 0); if (p) memset(p, 0, a * b); return p; }
void *aligned_alloc(size_t, size_t n) { return __rsx_malloc(n, 0); }
int posix_memalign(void **p, size_t, size_t n) { *p = __rsx_malloc(n, 0); return *p ? 0 : ENOMEM; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b; for (size_t i = 0; i != n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
const void *memchr_(const void *a, int c, size_t n) { const unsigned char *p = (const unsigned char *)a; for (size_t i = 0; i != n; i++) if (p[i] == (unsigned char)c) return p + i; return nullptr; }
void abort(void) noexcept { __rsx_terminate("abort() called"); }
void exit(int) noexcept { __rsx_terminate("exit() called"); }
[[noreturn]] void __assert_fail(const char *, const char *, unsigned, const char *) noexcept { __rsx_terminate("assertion in the code failed"); }
int *__errno_location(void) noexcept { return (int *)((char *)__rsx_tls() + 32); }
pthread_t pthread_self(void) noexcept { return __rsx_self() + 1; }
int printf(const char *, ...) { return 0; }
int puts(const char *) { return 0; }
int fprintf(FILE *, const char *, ...) { return 0; }
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; }
int __cxa_guard_acquire(char *g) { return !*g; }
void __cxa_guard_release(char *g) { *g = 1; }
void __cxa_guard_abort(char *) {}
[[noreturn]] void __cxa_pure_virtual(void) { __rsx_terminate("pure virtual call"); }
[[noreturn]] void __cxa_throw_bad_array_new_length(void) { throw std::bad_array_new_length(); }
[[noreturn]] void __cxa_bad_cast(void) { __rsx_terminate("bad cast"); }

// ---- exceptions ---------------------------------------------------------------------------------
struct RsxExc { std::type_info *ti; void (*dtor)(void *); int handlers; int refs; RsxExc *next; void *adj; uint64_t pad[3]; };
static_assert(sizeof(RsxExc) == 64);
struct RsxTls { RsxExc *caught; uint64_t uncaught; uint64_t a, b; uint64_t err; uint64_t c[3]; };
static inline RsxExc *hdr(void *e) { return (RsxExc *)e - 1; }
static inline void *obj(RsxExc *h) { return h + 1; }
void *__cxa_allocate_exception(size_t n) noexcept { RsxExc *h = (RsxExc *)__rsx_malloc(n + sizeof(RsxExc), 3); memset(h, 0, sizeof(RsxExc)); return h + 1; }
void __cxa_free_exception(void *e) noexcept { __rsx_free(hdr(e), 3); }
[[noreturn]] void __cxa_throw(void *e, std::type_info *ti, void (*dtor)(void *)) {
    RsxExc *h = hdr(e); h->ti = ti; h->dtor = dtor; h->handlers = 0; h->refs = 1; h->adj = e; ((RsxTls *)__rsx_tls())->uncaught++; __rsx_raise(e);
}
void *__cxa_begin_catch(void *e) noexcept {
    RsxTls *t = (RsxTls *)__rsx_tls(); RsxExc *h = hdr(e);
    if (h->handlers < 0) h->handlers = -h->handlers + 1; else h->handlers++;
    if (t->caught != h) { h->next = t->caught; t->caught = h; }
    t->uncaught--; return h->adj;
}
void *__cxa_get_exception_ptr(void *e) noexcept { return hdr(e)->adj; }
static void excUnref(RsxExc *h) { if (--h->refs == 0) { if (h->dtor) h->dtor(obj(h)); __rsx_free(h, 3); } }
void __cxa_end_catch(void) {
    RsxTls *t = (RsxTls *)__rsx_tls(); RsxExc *h = t->caught; if (!h) return;
    if (h->handlers < 0) { if (++h->handlers == 0) t->caught = h->next; }
    else if (--h->handlers == 0) { t->caught = h->next; excUnref(h); }
}
[[noreturn]] void __cxa_rethrow(void) {
    RsxTls *t = (RsxTls *)__rsx_tls(); RsxExc *h = t->caught; if (!h) __rsx_terminate("throw; without an active exception");
    h->handlers = -h->handlers; t->uncaught++; __rsx_raise(obj(h));
}
}
namespace std {
void terminate() noexcept { __rsx_terminate("std::terminate called"); }
int uncaught_exceptions() noexcept { return (int)((RsxTls *)__rsx_tls())->uncaught; }
bool uncaught_exception() noexcept { return ((RsxTls *)__rsx_tls())->uncaught != 0; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void *p) noexcept : _M_exception_object(p) { if (p) hdr(p)->refs++; }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { excUnref(hdr(_M_exception_object)); _M_exception_object = nullptr; } }
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
exception_ptr current_exception() noexcept { RsxExc *h = ((RsxTls *)__rsx_tls())->caught; exception_ptr r; if (h) { void *o = obj(h); h->refs++; memcpy((void *)&r, &o, sizeof o); } return r; }
void rethrow_exception(exception_ptr p) { void *o; memcpy(&o, (void *)&p, sizeof o); hdr(o)->refs++; hdr(o)->handlers = 0; ((RsxTls *)__rsx_tls())->uncaught++; __rsx_raise(o); }

exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
// what() text is not modelled: messages are outside every property.
logic_error::logic_error(const char *m) { memset((void *)&_M_msg, 0, sizeof _M_msg); *(const char **)&_M_msg = m; }
logic_error::logic_error(const string &) { memset((void *)&_M_msg, 0, sizeof _M_msg); }
logic_error::logic_error(const logic_error &o) noexcept : exception() { memcpy((void *)&_M_msg, (const void *)&o._M_msg, sizeof _M_msg); }
logic_error::logic_error(logic_error &&o) noexcept : exception() { memcpy((void *)&_M_msg, (const void *)&o._M_msg, sizeof _M_msg); }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { const char *p = *(const char *const *)&_M_msg; return p ? p : ""; }
runtime_error::runtime_error(const char *m) { memset((void *)&_M_msg, 0, sizeof _M_msg); *(const char **)&_M_msg = m; }
runtime_error::runtime_error(const string &) { memset((void *)&_M_msg, 0, sizeof _M_msg); }
runtime_error::runtime_error(const runtime_error &o) noexcept : exception() { memcpy((void *)&_M_msg, (const void *)&o._M_msg, sizeof _M_msg); }
runtime_error::runtime_error(runtime_error &&o) noexcept : exception() { memcpy((void *)&_M_msg, (const void *)&o._M_msg, sizeof _M_msg); }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { const char *p = *(const char *const *)&_M_msg; return p ? p : ""; }
// _M_msg is a __cow_string with user-provided special members; none of them does anything here.
__cow_string::__cow_string() {}
__cow_string::__cow_string(const std::string &) {}
__cow_string::__cow_string(const char *, size_t) {}
__cow_string::__cow_string(const __cow_string &o) noexcept { memcpy((void *)this, (const void *)&o, sizeof *this); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { memcpy((void *)this, (const void *)&o, sizeof *this); return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { memcpy((void *)this, (const void *)&o, sizeof *this); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { memcpy((void *)this, (const void *)&o, sizeof *this); return *this; }
#define RSX_E2(C, B) C::C(const char *m) : B(m) {} C::C(const string &m) : B(m) {} C::~C() noexcept {}
RSX_E2(invalid_argument, logic_error) RSX_E2(domain_error, logic_error) RSX_E2(length_error, logic_error) RSX_E2(out_of_range, logic_error)
RSX_E2(range_error, runtime_error) RSX_E2(overflow_error, runtime_error) RSX_E2(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
namespace { struct RsxCat : error_category { const char *name() const noexcept override { return "cat"; } string message(int) const override { return string(); } }; RsxCat sysCat, genCat; }
inline namespace _V2 { const error_category &system_category() noexcept { return sysCat; } const error_category &generic_category() noexcept { return genCat; } }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *m) { throw logic_error(m); }
void __throw_length_error(const char *m) { throw length_error(m); }
void __throw_out_of_range(const char *m) { throw out_of_range(m); }
void __throw_out_of_range_fmt(const char *m, ...) { throw out_of_range(m); }
void __throw_invalid_argument(const char *m) { throw invalid_argument(m); }
void __throw_domain_error(const char *m) { throw domain_error(m); }
void __throw_runtime_error(const char *m) { throw runtime_error(m); }
void __throw_range_error(const char *m) { throw range_error(m); }
void __throw_overflow_error(const char *m) { throw overflow_error(m); }
void __throw_underflow_error(const char *m) { throw underflow_error(m); }
void __throw_bad_cast() { throw runtime_error("bad_cast"); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
// type_info and condition variables
type_info::~type_info() {}
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept { pthread_cond_destroy((pthread_cond_t *)this); }
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait((pthread_cond_t *)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t *)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t *)this); }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { __rsx_sync(K_SLEEP, nullptr, 0, 0, nullptr, 0, 0); } }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration((rep)(vp_nondet(32, "clock")))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((rep)(vp_nondet(32, "clock")))); }
} }
}
template class std::basic_string<char>; template class std::allocator<char>;

extern "C" bool vp_laps(void (*step)(void *), void *ctx, uint32_t k, void *obj, uint32_t bytes) {
    enum { W = 32 }; static uint32_t a[W], b[W], c[W]; uint32_t n = bytes / 4; if (n > W) return false; volatile uint32_t *o = (volatile uint32_t *)obj;
    step(ctx); for (uint32_t i = 0; i < n; i++) a[i] = o[i]; step(ctx); for (uint32_t i = 0; i < n; i++) b[i] = o[i]; step(ctx); for (uint32_t i = 0; i < n; i++) c[i] = o[i];
    for (uint32_t i = 0; i < n; i++) { uint32_t d = c[i] - b[i]; if (d != b[i] - a[i]) return false; if (d) o[i] = c[i] + (k - 3) * d; }
    return true;
}
