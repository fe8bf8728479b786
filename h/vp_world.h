#ifndef VP_WORLD_H
#define VP_WORLD_H
#include "vp.h"
extern int  vp_alloc_may_fail, vp_alloc_fail_budget;
extern long vp_live_allocs;
extern int  vp_alloc_failures;
/* ---- scheduler primitives (engine or native baton) ---- */
int  vp_self(void);                              /* running thread, 0 = harness main */
void vp_sched(void);                             /* preemption point */
void vp_hold(int on);                            /* no preemption while on */
void vp_block(void* key);                        /* wait until woken */
int  vp_wake(void* key, int all);                /* make waiters runnable */
int  vp_thread_spawn(int (*fn)(void*), void* arg);
/* ---- happens-before (engine or vp_race.c) ---- */
void vp_acquire(const volatile void* key);       /* what was released on key happens before what follows */
void vp_release(const volatile void* key);
void vp_touch(const volatile void* p, size_t n, int write); /* access to memory of the real code by the world */
#ifndef VP_SYM
void vp_race_spawn(int id);
void vp_race_alloc(void* p, size_t n);
#endif
/* ---- threads.h world ---- */
extern int vp_mtx_total_held;                    /* mutexes held by anyone */
extern int vp_mtx_live, vp_cnd_live;             /* initialised and not destroyed */
extern int vp_thrd_create_may_fail;
extern int vp_thrd_created, vp_thrd_finished, vp_thrd_joined;
extern int vp_spurious;                          /* remaining spurious wakeups */
#endif
