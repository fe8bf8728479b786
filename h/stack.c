/* The pool of serializer buffers: what is pushed is popped exactly once.
 * THREADS=0: sequential, any push/pop sequence, across growth.
 * THREADS=2: two threads take and return buffers concurrently. */
#include "vp.h"
#include "vp_world.h"
#include "stack.h"
#ifndef INIT
#define INIT 2
#endif
#ifndef OPS
#define OPS 6
#endif
#ifndef THREADS
#define THREADS 0
#endif
static struct stack s;
#if THREADS == 0
#ifndef FILL
#define FILL 0
#endif
static uint64_t ref[OPS + 1 + FILL]; static int n;
void vp_main(void) {
    VP_ASSERT(stack_construct(&s, INIT) == 0, "constructed");
    for (int i = 0; i < FILL; i++) { ref[n++] = 1000 + i; stack_push(&s, (void*)(uintptr_t)(1000 + i)); }
    for (int i = 0; i < OPS; i++) {
        if (vp_bool()) {
            uint64_t v = vp_u64();
            VP_ASSUME(v != 0);
            stack_push(&s, (void*)(uintptr_t)v);
            ref[n++] = v;
            VP_WITNESS_IF(n > INIT, "growth");
        } else {
            void* p = stack_pop(&s);
            if (!n) VP_ASSERT(p == NULL, "an empty pool yields nothing");
            else { /* a pool: any buffer that was returned and not taken since */
                int k = -1;
                for (int j = n - 1; j >= 0; j--) if (ref[j] == (uint64_t)(uintptr_t)p) { k = j; break; }
                VP_ASSERT(k >= 0, "a buffer taken from the pool is one that was returned to it");
                ref[k] = ref[--n];
            }
        }
    }
    while (n) {
        void* p = stack_pop(&s); int k = -1;
        for (int j = n - 1; j >= 0; j--) if (ref[j] == (uint64_t)(uintptr_t)p) { k = j; break; }
        VP_ASSERT(k >= 0, "every returned buffer can be taken again");
        ref[k] = ref[--n];
    }
    VP_ASSERT(stack_pop(&s) == NULL, "and nothing else");
    stack_destroy(&s);
    VP_ASSERT(vp_live_allocs == 0, "destroying the pool releases its memory");
}
#else
#include <threads.h>
static char bufs[8]; static int owner[8]; /* 0 = in pool, else thread */
#ifndef START
#define START 2
#endif
static int extra = START;
static int get(int me) {
    void* p = stack_pop(&s);
    int i;
    if (!p) { i = extra++; VP_ASSUME(i < 8); VP_ASSERT(owner[i] == 0, "fresh"); }
    else { i = (int)((char*)p - bufs); VP_ASSERT(i >= 0 && i < extra, "a buffer taken from the pool is one that was returned to it"); }
    VP_ASSERT(owner[i] == 0, "a buffer is never handed to two users at a time");
    owner[i] = me;
    return i;
}
static void put(int i) { owner[i] = 0; stack_push(&s, &bufs[i]); }
static int user(void* a) {
    int me = (int)(intptr_t)a;
    for (int k = 0; k < OPS; k++) {
        int i = get(me);
        vp_sched();
        VP_ASSERT(owner[i] == me, "a buffer in use is not handed out again");
        put(i);
    }
    return 0;
}
void vp_main(void) {
    thrd_t t[THREADS];
    VP_ASSERT(stack_construct(&s, INIT) == 0, "constructed");
    for (int i = 0; i < START; i++) stack_push(&s, &bufs[i]);
    for (int i = 0; i < THREADS; i++) thrd_create(&t[i], user, (void*)(intptr_t)(i + 1));
    for (int i = 0; i < THREADS; i++) thrd_join(t[i], NULL);
    int back = 0; void* p;
    while ((p = stack_pop(&s)) != NULL) { back++; VP_ASSERT(back <= extra, "no buffer is in the pool twice"); }
    VP_ASSERT(back == extra, "every buffer returned is in the pool afterwards");
    stack_destroy(&s);
    VP_ASSERT(vp_live_allocs == 0, "destroying the pool releases its memory");
}
#endif
