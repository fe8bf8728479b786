/* The message arena: any history of allocations, partial and full releases.
 * Live blocks lie inside the arena, never overlap, keep their bytes, and everything
 * released can be allocated again. */
#include "vp.h"
#include "vp_world.h"
#include "arena.h"
#include <string.h>
#ifndef ASIZE
#define ASIZE 600
#endif
#ifndef OPS
#define OPS 5
#endif
#define NB 4
static uint8_t* blk[NB]; static size_t len[NB]; static uint8_t tag[NB];
static uint8_t *lo, *hi;
#if ASIZE > 10000
static const size_t sizes[] = { 300, 5000, 66000, ASIZE / 2, ASIZE - 4, ASIZE - 3, 0x100000040 };
#else
static const size_t sizes[] = { 9, 64, 250, 468, 470, ASIZE - 4, ASIZE - 3, 0x1000009 };
#endif
static void check(void) {
    for (int i = 0; i < NB; i++) {
        if (!blk[i]) continue;
        VP_ASSERT(blk[i] >= lo && blk[i] + len[i] <= hi, "a block lies inside the arena");
        for (int j = 0; j < i; j++)
            if (blk[j]) VP_ASSERT(blk[i] + len[i] <= blk[j] || blk[j] + len[j] <= blk[i], "two live blocks never overlap");
        VP_ASSERT(blk[i][0] == tag[i] && blk[i][len[i] - 1] == tag[i], "a live block keeps its contents");
    }
}
void vp_main(void) {
    struct gracht_arena* a;
    uint32_t got = 0;
    VP_ASSERT(gracht_arena_create(0, &a) == -1 && gracht_arena_create(ASIZE, NULL) == -1, "an empty arena is refused");
    VP_ASSERT(gracht_arena_create(ASIZE, &a) == 0, "an arena is created");
    lo = gracht_arena_allocate(a, NULL, ASIZE - 4);
    VP_ASSERT(lo != NULL && VP_OK(lo, ASIZE - 4), "an empty arena serves one block of its size less the bookkeeping");
    VP_ASSERT(gracht_arena_allocate(a, NULL, 1) == NULL, "an exhausted arena serves nothing");
    hi = lo + ASIZE - 4;
    gracht_arena_free(a, lo, 0);
    VP_ASSERT(gracht_arena_allocate(a, NULL, 0) == NULL && gracht_arena_allocate(NULL, NULL, 8) == NULL, "no arena or no size is refused");
    for (int k = 0; k < OPS; k++) {
        int b = (int)vp_pick(0, NB - 1);
        if (!blk[b]) {
            if (b) VP_ASSUME(blk[b - 1] != NULL); /* symmetric choice of the slot */
            size_t n = sizes[vp_pick(0, sizeof(sizes) / sizeof(*sizes) - 1)];
            uint8_t* p = gracht_arena_allocate(a, NULL, n);
            uint32_t used = 0; int live = 0;
            for (int i = 0; i < NB; i++) if (blk[i]) { live++; used += len[i]; }
            if (!p) {
                VP_ASSERT(live || n > ASIZE - 4, "an arena without live blocks serves every size it can hold");
                continue;
            }
            VP_ASSERT(n <= ASIZE - 4, "a size the arena cannot hold is refused");
            VP_ASSERT(VP_OK(p, n), "a block has the size that was asked for");
            blk[b] = p; len[b] = n; tag[b] = (uint8_t)(0x11 * (k + 1));
            memset(p, tag[b], n);
            got++;
            VP_WITNESS_IF(live == 2, "three live blocks");
        } else {
            int how = (int)vp_pick(0, 7);
            if (how >= 6) { /* grow a block */
                uint32_t more = how == 6 ? 16 : 140;
                uint8_t* p = gracht_arena_allocate(a, blk[b], more);
                if (p) {
                    VP_ASSERT(VP_OK(p, len[b] + more) && p[0] == tag[b] && p[len[b] - 1] == tag[b], "a block that grows keeps its contents");
                    blk[b] = p; len[b] += more; memset(p, tag[b], len[b]);
                    VP_WITNESS("a block grown");
                }
                check();
                continue;
            }
            uint32_t n = how == 0 ? 0 : how == 1 ? 8 : how == 2 ? len[b] / 2 : how == 3 ? len[b] : how == 4 ? len[b] + 40 : 3;
            gracht_arena_free(a, blk[b], n);
            if (n == 0 || n >= len[b]) { 
                if (how == 4) gracht_arena_free(a, NULL, n);
                /* a block may be larger than asked for: release what is left of it */
                if (n >= len[b] && how != 0) gracht_arena_free(a, blk[b], 0);
                blk[b] = NULL;
            }
            else len[b] -= n, blk[b][len[b] - 1] = tag[b];
        }
        check();
    }
    for (int i = 0; i < NB; i++) if (blk[i]) gracht_arena_free(a, blk[i], 0);
    void* all = gracht_arena_allocate(a, NULL, ASIZE - 4);
    VP_ASSERT(all != NULL, "once everything is released the whole arena can be allocated again");
    VP_ASSERT(vp_mtx_total_held == 0, "no lock is held after the operations");
    gracht_arena_destroy(a);
    VP_ASSERT(vp_live_allocs == 0, "destroying the arena releases its memory");
}
