/* Core of the harness runtime (native side; the symbolic side is the engine itself).
 *
 * Natively the threads of a harness are real threads that pass a baton: only the
 * holder runs, and it changes hands exactly where the engine recorded a decision, so
 * that a counterexample schedule is re-executed step by step. */
#include "vp.h"
#include "vp_world.h"
#ifndef VP_SYM
#undef fprintf
#undef vfprintf
#undef perror
#undef fflush
#undef sched_yield
#undef snprintf
#undef signal
#undef sigaction
#undef read
#undef write
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
#ifndef VP_RACE
#include <sanitizer/asan_interface.h>
#endif
#undef free
#undef malloc
static FILE* g_in;
static int g_preempt_max = 2, g_preempts;
static uint64_t raw_input(void) {
    unsigned long long v;
    if (!g_in || fscanf(g_in, "%llu", &v) != 1) v = 0;
    return v;
}
uint64_t vp_nd_bits(unsigned bits) {
    uint64_t v = raw_input();
    return bits >= 64 ? v : (v & ((1ull << bits) - 1));
}
static void vp_quit(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
void vp_native_assume(int c, const char* what) { if (!c) { fprintf(stderr, "VP-ASSUME-STOP: %s\n", what); vp_quit(77); } }
void vp_native_stop(void) { fprintf(stderr, "VP-STOP\n"); vp_quit(77); }
void vp_native_assert(int c, const char* what, const char* file, int line) {
    if (!c) { fprintf(stderr, "VP-ASSERT-FAILED: %s (%s:%d)\n", what, file, line); vp_quit(98); }
}
void vp_native_witness(int c, const char* what) { if (c) fprintf(stderr, "VP-WITNESS: %s\n", what); }
int vp_native_ok(const void* p, size_t n) {
    if (!n) return 1;
    if (!p || n > (1u << 30)) return 0;
#ifdef VP_RACE
    return 1;
#else
    return __asan_region_is_poisoned((void*)p, n) == NULL;
#endif
}
/* ---- threads ---- */
#define NT 16
enum { T_NONE, T_RUN, T_BLOCK, T_DONE };
static struct { int stat; void* key; int (*fn)(void*); void* arg; } T[NT] = { { T_RUN } };
static int nthreads = 1;
static volatile int g_cur;
static __thread int g_me;
static int g_hold;
void vp_hold(int on) { g_hold = on; }
int vp_self(void) { return g_me; }
static void wait_turn(void) { while (__atomic_load_n(&g_cur, __ATOMIC_SEQ_CST) != g_me) sched_yield(); }
static void give(int t) { __atomic_store_n(&g_cur, t, __ATOMIC_SEQ_CST); }
static int options(int* o, int except) {
    int n = 0;
    for (int i = 0; i < nthreads; i++) if (T[i].stat == T_RUN && i != except) o[n++] = i;
    return n;
}
static int valid(int c, int* o, int n, int dflt) { for (int i = 0; i < n; i++) if (o[i] == c) return c; return dflt; }
static void no_thread(void) { fprintf(stderr, "VP-DEADLOCK: every thread is blocked\n"); vp_quit(97); }
void vp_sched(void) {
    int o[NT], n;
    if (g_preempts >= g_preempt_max || g_hold) return;
    n = options(o, g_me);
    if (!n) return;
    int c = (int)raw_input();
    if (c == g_me) return;
    c = valid(c, o, n, g_me);
    if (c == g_me) return;
    g_preempts++;
    give(c);
    wait_turn();
}
static void leave(void) {
    int o[NT], n = options(o, -1);
    if (!n) no_thread();
    give(n > 1 ? valid((int)raw_input(), o, n, o[0]) : o[0]);
}
void vp_block(void* key) {
    T[g_me].stat = T_BLOCK; T[g_me].key = key;
    leave();
    wait_turn();
}
int vp_wake(void* key, int all) {
    int w[NT], n = 0;
    for (int i = 0; i < nthreads; i++) if (T[i].stat == T_BLOCK && T[i].key == key) w[n++] = i;
    if (!n) return 0;
    if (all) { for (int i = 0; i < n; i++) T[w[i]].stat = T_RUN; return n; }
    int c = n > 1 ? valid((int)raw_input(), w, n, w[n - 1]) : w[0];
    T[c].stat = T_RUN;
    return 1;
}
static void* tmain(void* p) {
    g_me = (int)(intptr_t)p;
    wait_turn();
    T[g_me].fn(T[g_me].arg);
    T[g_me].stat = T_DONE;
    leave();
    return NULL;
}
int vp_thread_spawn(int (*fn)(void*), void* arg) {
    pthread_t t;
    int id = nthreads++;
    if (id >= NT) { fprintf(stderr, "too many threads\n"); vp_quit(3); }
    T[id].fn = fn; T[id].arg = arg; T[id].stat = T_RUN;
    vp_race_spawn(id);
    if (pthread_create(&t, NULL, tmain, (void*)(intptr_t)id)) vp_quit(3);
    return id;
}
int main(int argc, char** argv) {
    if (argc > 1) { g_in = fopen(argv[1], "r"); if (!g_in) { perror(argv[1]); return 2; } }
    if (argc > 2) g_preempt_max = atoi(argv[2]);
    vp_main();
    fprintf(stderr, "VP-COMPLETED\n");
    vp_quit(0);
}
#endif
