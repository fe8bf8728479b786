/* The reader/writer lock under all schedules of READERS readers and WRITERS writers. */
#include "vp.h"
#include "vp_world.h"
#include "rwlock.h"
#ifndef READERS
#define READERS 2
#endif
#ifndef WRITERS
#define WRITERS 1
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
static struct rwlock l;
static int readers, writers, both;
static int reader(void* a) {
    (void)a;
    for (int i = 0; i < ROUNDS; i++) {
        rwlock_r_lock(&l);
        VP_ASSERT(writers == 0, "no reader is inside while a writer is");
        readers++;
        if (readers == READERS) both = 1;
        vp_sched();
        VP_ASSERT(writers == 0, "no writer enters while a reader is inside");
        readers--;
        rwlock_r_unlock(&l);
    }
    return 0;
}
static int writer(void* a) {
    (void)a;
    for (int i = 0; i < ROUNDS; i++) {
        rwlock_w_lock(&l);
        VP_ASSERT(readers == 0 && writers == 0, "a writer is alone");
        writers++;
        vp_sched();
        VP_ASSERT(readers == 0 && writers == 1, "a writer stays alone until it leaves");
        writers--;
        rwlock_w_unlock(&l);
    }
    return 0;
}
void vp_main(void) {
    thrd_t t[READERS + WRITERS];
#ifdef SPURIOUS
    vp_spurious = SPURIOUS;
#endif
    rwlock_init(&l);
    for (int i = 0; i < READERS; i++) thrd_create(&t[i], reader, NULL);
    for (int i = 0; i < WRITERS; i++) thrd_create(&t[READERS + i], writer, NULL);
    for (int i = 0; i < READERS + WRITERS; i++) thrd_join(t[i], NULL);
    VP_ASSERT(readers == 0 && writers == 0, "everyone left");
#if READERS > 1
    VP_WITNESS_IF(both, "readers share the lock");
#endif
    rwlock_destroy(&l);
    VP_ASSERT(vp_mtx_live == 0 && vp_cnd_live == 0, "the lock's resources are released");
}
