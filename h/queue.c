/* The job queue against a reference FIFO, from any position of its 32-bit counters. */
#include "vp.h"
#include "vp_world.h"
#include "queue.h"
#ifndef CAP
#define CAP 4
#endif
#ifndef OPS
#define OPS 7
#endif
static uint64_t fifo[OPS + CAP + 1]; static int head, tail;
static void step(struct gr_queue* q) {
    if (vp_bool()) {
        uint64_t v = vp_u64();
        VP_ASSUME(v != 0);
        int r = gr_queue_enqueue(q, (void*)(uintptr_t)v);
        VP_ASSERT((r == 0) == (tail - head < CAP), "enqueue succeeds exactly while the queue is not full");
        if (r == 0) fifo[tail++] = v;
        else { VP_ASSERT(r == -1, "a full queue reports failure"); VP_WITNESS("full queue"); }
    } else {
        void* p = gr_queue_dequeue(q);
        if (head == tail) { VP_ASSERT(p == NULL, "an empty queue yields nothing");  }
        else VP_ASSERT((uint64_t)(uintptr_t)p == fifo[head++], "jobs leave the queue in the order they entered, once each");
    }
}
void vp_main(void) {
    struct gr_queue q;
    VP_ASSERT(gr_queue_construct(&q, 0) == -1 && gr_queue_construct(NULL, 4) == -1, "an empty or absent queue is refused");
    VP_ASSERT(gr_queue_construct(&q, CAP) == 0, "constructed");
    VP_ASSERT(gr_queue_enqueue(&q, NULL) == -1, "no job is not a job");
#ifdef WARM /* concrete warm-up that moves the positions around the ring */
    for (int i = 0; i < WARM; i++) { VP_ASSERT(gr_queue_enqueue(&q, &q) == 0, "warm-up"); VP_ASSERT(gr_queue_dequeue(&q) == &q, "warm-up order"); }
#endif
#ifdef FILL
    for (int i = 0; i < FILL; i++) { fifo[tail++] = 1000 + i; VP_ASSERT(gr_queue_enqueue(&q, (void*)(uintptr_t)(1000 + i)) == 0, "enqueue succeeds exactly while the queue is not full"); }
#endif
    for (int i = 0; i < OPS; i++) step(&q);
    gr_queue_destroy(&q);
    VP_ASSERT(vp_live_allocs == 0, "destroying the queue releases its memory");
}
