/* Stand-in for <threads.h>: the primitives are implemented by the harness world. */
#ifndef VP_THREADS_H
#define VP_THREADS_H
#include <time.h>
typedef struct { int magic; int kind; int held; int owner; } mtx_t;
typedef struct { int magic; int waiters; } cnd_t;
typedef struct { int id; } thrd_t;
typedef int (*thrd_start_t)(void*);
enum { mtx_plain = 0, mtx_recursive = 1, mtx_timed = 2 };
enum { thrd_success = 0, thrd_busy = 1, thrd_error = 2, thrd_nomem = 3, thrd_timedout = 4 };
#ifndef thread_local
#define thread_local _Thread_local
#endif
int  mtx_init(mtx_t*, int);
void mtx_destroy(mtx_t*);
int  mtx_lock(mtx_t*);
int  mtx_trylock(mtx_t*);
int  mtx_unlock(mtx_t*);
int  cnd_init(cnd_t*);
void cnd_destroy(cnd_t*);
int  cnd_signal(cnd_t*);
int  cnd_broadcast(cnd_t*);
int  cnd_wait(cnd_t*, mtx_t*);
int  thrd_create(thrd_t*, thrd_start_t, void*);
int  thrd_join(thrd_t, int*);
int  thrd_detach(thrd_t);
void thrd_yield(void);
thrd_t thrd_current(void);
#define ONCE_FLAG_INIT 0
typedef int once_flag;
void call_once(once_flag*, void (*)(void));
#endif
