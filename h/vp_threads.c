/* Mutexes, condition variables and threads of the harness world, on the scheduler
 * primitives of the engine (symbolically) or of vp_core.c (natively). */
#include "vp.h"
#include "vp_world.h"
#include <threads.h>
#define M_MAGIC 0x4d5458
#define C_MAGIC 0x434e44
int vp_mtx_total_held;
int vp_mtx_live, vp_cnd_live;
int vp_thrd_create_may_fail;
int vp_thrd_created, vp_thrd_finished, vp_thrd_joined;
int vp_spurious;
int mtx_init(mtx_t* m, int kind) { m->magic = M_MAGIC; m->kind = kind; m->held = 0; m->owner = -1; vp_mtx_live++; return thrd_success; }
void mtx_destroy(mtx_t* m) {
    VP_ASSERT(m->magic == M_MAGIC, "mutex destroyed that is not initialised");
    VP_ASSERT(m->held == 0, "mutex destroyed while held");
    m->magic = 0; vp_mtx_live--;
}
static void acquire(mtx_t* m) {
    VP_ASSERT(m->magic == M_MAGIC, "mutex locked that is not initialised (or already destroyed)");
    if (m->held && m->owner == vp_self()) {
        VP_ASSERT(m->kind & mtx_recursive, "thread locks a mutex it already holds");
    } else {
        while (m->held) {
            vp_block(m);
            VP_ASSERT(m->magic == M_MAGIC, "mutex destroyed while a thread waits for it");
        }
    }
    m->held++; m->owner = vp_self(); vp_mtx_total_held++;
    vp_acquire(m);
}
static void release(mtx_t* m) {
    VP_ASSERT(m->magic == M_MAGIC, "mutex unlocked that is not initialised (or already destroyed)");
    VP_ASSERT(m->held > 0 && m->owner == vp_self(), "mutex unlocked by a thread that does not hold it");
    m->held--; vp_mtx_total_held--;
    vp_release(m);
    if (!m->held) { m->owner = -1; vp_wake(m, 1); }
}
int mtx_lock(mtx_t* m) { vp_sched(); acquire(m); return thrd_success; }
int mtx_trylock(mtx_t* m) {
    vp_sched();
    VP_ASSERT(m->magic == M_MAGIC, "mutex locked that is not initialised (or already destroyed)");
    if (m->held && !(m->owner == vp_self() && (m->kind & mtx_recursive))) return thrd_busy;
    acquire(m);
    return thrd_success;
}
int mtx_unlock(mtx_t* m) { release(m); vp_sched(); return thrd_success; }
int cnd_init(cnd_t* c) { c->magic = C_MAGIC; c->waiters = 0; vp_cnd_live++; return thrd_success; }
void cnd_destroy(cnd_t* c) {
    VP_ASSERT(c->magic == C_MAGIC, "condition destroyed that is not initialised");
    VP_ASSERT(c->waiters == 0, "condition destroyed while a thread waits on it");
    c->magic = 0; vp_cnd_live--;
}
int cnd_signal(cnd_t* c) {
    vp_sched();
    VP_ASSERT(c->magic == C_MAGIC, "condition signalled that is not initialised (or already destroyed)");
    vp_wake(c, 0);
    return thrd_success;
}
int cnd_broadcast(cnd_t* c) {
    vp_sched();
    VP_ASSERT(c->magic == C_MAGIC, "condition signalled that is not initialised (or already destroyed)");
    vp_wake(c, 1);
    return thrd_success;
}
int cnd_wait(cnd_t* c, mtx_t* m) {
    VP_ASSERT(c->magic == C_MAGIC, "wait on a condition that is not initialised (or already destroyed)");
    VP_ASSERT(m->held == 1 && m->owner == vp_self(), "condition wait without holding the mutex");
    c->waiters++;
    release(m);
    if (vp_spurious > 0 && vp_bool()) { vp_spurious--; vp_sched(); }
    else vp_block(c);
    VP_ASSERT(c->magic == C_MAGIC, "condition destroyed while a thread waits on it");
    c->waiters--;
    acquire(m);
    return thrd_success;
}
#define VP_MAX_THREADS 8
static struct vp_thread { thrd_start_t fn; void* arg; int finished; int joined; int detached; int rc; } threads[VP_MAX_THREADS];
static int thread_main(void* p) {
    struct vp_thread* t = p;
    t->rc = t->fn(t->arg);
    vp_release(t);
    t->finished = 1; vp_thrd_finished++;
    vp_wake(t, 1);
    return 0;
}
int thrd_create(thrd_t* t, thrd_start_t fn, void* arg) {
    if (vp_thrd_create_may_fail && vp_bool()) return thrd_error;
    VP_ASSUME(vp_thrd_created < VP_MAX_THREADS);
    int i = vp_thrd_created++;
    threads[i].fn = fn; threads[i].arg = arg;
    t->id = i + 1;
    vp_thread_spawn(thread_main, &threads[i]);
    vp_sched();
    return thrd_success;
}
int thrd_join(thrd_t t, int* rc) {
    int i = t.id - 1;
    vp_sched();
    VP_ASSERT(i >= 0 && i < vp_thrd_created && !threads[i].joined, "join of a thread that does not exist");
    while (!threads[i].finished) vp_block(&threads[i]);
    threads[i].joined = 1; vp_thrd_joined++;
    vp_acquire(&threads[i]);
    if (rc) *rc = threads[i].rc;
    return thrd_success;
}
int thrd_detach(thrd_t t) { if (t.id > 0 && t.id <= vp_thrd_created) threads[t.id - 1].detached = 1; return thrd_success; }
void thrd_yield(void) { vp_sched(); }
thrd_t thrd_current(void) { thrd_t t = { vp_self() }; return t; }
void call_once(once_flag* f, void (*fn)(void)) { if (!*f) { *f = 1; fn(); } }
