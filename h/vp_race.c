/* Native confirmation of data races: the real sources are compiled with the access
 * instrumentation of -fsanitize=thread, whose callbacks are implemented here on the
 * vector clocks of the harness world (the schedule is the recorded one, so the verdict is
 * deterministic).  Without VP_RACE only the no-op hooks remain. */
#include "vp.h"
#include "vp_world.h"
#ifndef VP_SYM
#undef fprintf
#undef vfprintf
#undef perror
#undef fflush
#undef sched_yield
#undef snprintf
#undef signal
#undef sigaction
#undef read
#undef write
#undef malloc
#undef free
#undef realloc
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#ifndef VP_RACE
void vp_acquire(const volatile void* k) { (void)k; }
void vp_release(const volatile void* k) { (void)k; }
void vp_atomic(int on) { (void)on; }
void vp_touch(const volatile void* p, size_t n, int wr) { (void)p; (void)n; (void)wr; }
void vp_race_spawn(int id) { (void)id; }
void vp_race_alloc(void* p, size_t n) { (void)p; (void)n; }
#else
#define NT 16
typedef struct { unsigned c[NT]; } vc_t;
static vc_t vc[NT] = { { { 1 } } };
static int nt = 1, atomic_on[NT];
static struct { const volatile void* k; vc_t v; } syncs[256];
static int nsync;
static struct acc { uintptr_t a; size_t n; unsigned clk; int tid, wr; void* pc; }* A;
static size_t na, cap;
static void join(vc_t* d, const vc_t* s) { for (int i = 0; i < NT; i++) if (s->c[i] > d->c[i]) d->c[i] = s->c[i]; }
static vc_t* sync_of(const volatile void* k) {
    for (int i = 0; i < nsync; i++) if (syncs[i].k == k) return &syncs[i].v;
    if (nsync == 256) _exit(3);
    syncs[nsync].k = k;
    return &syncs[nsync++].v;
}
void vp_acquire(const volatile void* k) { join(&vc[vp_self()], sync_of(k)); }
void vp_release(const volatile void* k) { join(sync_of(k), &vc[vp_self()]); vc[vp_self()].c[vp_self()]++; }
void vp_atomic(int on) { atomic_on[vp_self()] = on; }
void vp_race_spawn(int id) { nt = id + 1; join(&vc[id], &vc[vp_self()]); vc[id].c[id] = 1; vc[vp_self()].c[vp_self()]++; }
void vp_race_alloc(void* p, size_t n) {
    size_t k = 0;
    for (size_t i = 0; i < na; i++) if (!(A[i].a < (uintptr_t)p + n && (uintptr_t)p < A[i].a + A[i].n)) A[k++] = A[i];
    na = k;
}
static void access_(const volatile void* p, size_t n, int wr, void* pc) {
    int me = vp_self();
    uintptr_t a = (uintptr_t)p;
    size_t k = 0;
    if (nt < 2 || !n || atomic_on[me]) return;
    for (size_t i = 0; i < na; i++) {
        struct acc* r = &A[i];
        int over = r->a < a + n && a < r->a + r->n, before = r->tid == me || r->clk <= vc[me].c[r->tid];
        if (over && (wr || r->wr) && !before) {
            fprintf(stderr, "VP-RACE: %s of %zu bytes by thread %d (pc %p) is not ordered with the %s by thread %d (pc %p)\n", wr ? "write" : "read", n, me, pc, r->wr ? "write" : "read", r->tid, r->pc);
            fflush(stderr);
            _exit(96);
        }
        int covered = r->a >= a && r->a + r->n <= a + n && before && (wr || (!r->wr && r->tid == me));
        if (!covered) A[k++] = *r;
    }
    na = k;
    if (na == cap) { cap = cap ? cap * 2 : 1024; A = realloc(A, cap * sizeof(*A)); }
    A[na++] = (struct acc) { a, n, vc[me].c[me], me, wr, pc };
}
void vp_touch(const volatile void* p, size_t n, int wr) { access_(p, n, wr, __builtin_return_address(0)); }
#define RW(n) void __tsan_read##n(void* p) { access_(p, n, 0, __builtin_return_address(0)); } void __tsan_write##n(void* p) { access_(p, n, 1, __builtin_return_address(0)); } \
    void __tsan_unaligned_read##n(void* p) { access_(p, n, 0, __builtin_return_address(0)); } void __tsan_unaligned_write##n(void* p) { access_(p, n, 1, __builtin_return_address(0)); } \
    void __tsan_volatile_read##n(void* p) { access_(p, n, 0, __builtin_return_address(0)); } void __tsan_volatile_write##n(void* p) { access_(p, n, 1, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T* p, int m) { (void)m; vp_acquire(p); vp_release(p); return *p; } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int m) { (void)m; vp_acquire(p); *p = v; vp_release(p); } \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int m) { (void)m; vp_acquire(p); T o = *p; *p = v; vp_release(p); return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int m) { (void)m; vp_acquire(p); T o = *p; *p = (T)(o + v); vp_release(p); return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int m) { (void)m; vp_acquire(p); T o = *p; *p = (T)(o - v); vp_release(p); return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int m) { (void)m; vp_acquire(p); T o = *p; *p = o & v; vp_release(p); return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int m) { (void)m; vp_acquire(p); T o = *p; *p = o | v; vp_release(p); return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int m) { (void)m; vp_acquire(p); T o = *p; *p = o ^ v; vp_release(p); return o; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int m, int f) { (void)m; (void)f; vp_acquire(p); T o = *p; if (o == e) *p = v; vp_release(p); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; }
void __tsan_atomic_signal_fence(int m) { (void)m; }
void __tsan_init(void) {}
void __tsan_func_entry(void* p) { (void)p; }
void __tsan_func_exit(void) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { access_(s, n, 0, __builtin_return_address(0)); access_(d, n, 1, __builtin_return_address(0)); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access_(s, n, 0, __builtin_return_address(0)); access_(d, n, 1, __builtin_return_address(0)); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access_(d, n, 1, __builtin_return_address(0)); return memset(d, c, n); }
#endif
#endif
