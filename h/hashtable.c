/* gr_hashtable_* against a reference map.
 * Symbolic: the kind, key and value of every operation of the suffix, the key probed at
 * the end.  Concrete: the prefix (PREFIX elements laid out by PATTERN) which brings the
 * table next to a grow or shrink boundary. */
#include "vp.h"
#include "vp_world.h"
#include "hashtable.h"

#ifndef OPS
#define OPS 3
#endif
#ifndef PREFIX
#define PREFIX 0
#endif
#ifndef PATTERN
#define PATTERN 0
#endif
#ifdef OPMASK
#define OPSEL(i) ((OPMASK >> (i)) & 1)
#else
#define OPSEL(i) vp_bool()
#endif
#define MAXM (PREFIX + OPS)

struct el { uint32_t key; uint32_t val; };
/* distinct keys may share a full hash (key pairs 2n, 2n+1); hashes use all 64 bits */
static uint64_t h(const void* e) { return (uint64_t)(int64_t)((int32_t)((const struct el*)e)->key >> 1); }
static int c(const void* a, const void* b) { return ((const struct el*)a)->key == ((const struct el*)b)->key ? 0 : 1; }

static struct el model[MAXM + 1];
static int n;
static int find(uint32_t k) { for (int i = 0; i < n; i++) if (model[i].key == k) return i; return -1; }

static uint32_t probe; static int probe_seen; static int total_seen; static uint32_t probe_val;
static void en(int idx, const void* e, void* ctx) {
    const struct el* x = e; (void)idx;
    VP_ASSERT(ctx == (void*)&probe, "enumeration passes the caller's context");
    total_seen++;
    if (x->key == probe) { probe_seen++; probe_val = x->val; }
}
static uint32_t pkey(int i) {
#if PATTERN == 0      /* one long chain that wraps around the end of the table */
    return ((14u + 16u * (uint32_t)i) << 1);
#elif PATTERN == 1    /* scattered */
    return (uint32_t)i << 1;
#else                 /* pairs with equal hashes */
    return 26u + (uint32_t)i;
#endif
}
static void do_set(gr_hashtable_t* t, uint32_t k, uint32_t v) {
    struct el e = { k, v };
    int i = find(k);
    struct el* old = gr_hashtable_set(t, &e);
    if (i < 0) {
        VP_ASSERT(old == NULL, "inserting a new key replaces nothing");
        model[n].key = k; model[n].val = v; n++;
    } else {
        VP_ASSERT(old && old->key == k && old->val == model[i].val, "replacing a key returns the replaced element");
        model[i].val = v;
    }
}
static void do_remove(gr_hashtable_t* t, uint32_t k) {
    struct el e = { k, 0 };
    int i = find(k);
    struct el* old = gr_hashtable_remove(t, &e);
    if (i < 0) VP_ASSERT(old == NULL, "removing an absent key returns nothing");
    else {
        VP_ASSERT(old && old->key == k && old->val == model[i].val, "removing a key returns its element");
        model[i] = model[n - 1]; n--;
    }
}
static uint32_t key(void) {
    uint32_t k = vp_u32();
#ifdef KEYMASK
    VP_ASSUME((k & ~(uint32_t)KEYMASK) == 0);
#endif
#ifdef HOMES /* home slots next to the end of the table, so that chains wrap around */
    VP_ASSUME((((k >> 1) + 2) & 15) < HOMES);
#endif
#if PREFIX > 100
    k = (uint32_t)VP_CONCRETE(k);
#endif
    return k;
}
void vp_main(void) {
    gr_hashtable_t t;
    VP_ASSERT(gr_hashtable_construct(&t, 0, sizeof(struct el), h, c) == 0, "construct succeeds");
    for (int i = 0; i < PREFIX; i++) do_set(&t, pkey(i), 1000u + i);
#ifdef SHRINK_TO
    for (int i = PREFIX - 1; i >= SHRINK_TO; i--) do_remove(&t, pkey(i));
#endif
    for (int i = 0; i < OPS; i++) {
        uint32_t k = key();
        if (OPSEL(i)) { uint32_t v = vp_u32(); do_set(&t, k, v); }
        else do_remove(&t, k);
    }
    probe = key();
    struct el pk = { probe, 0 };
    int i = find(probe);
    struct el* got = gr_hashtable_get(&t, &pk);
    if (i < 0) VP_ASSERT(got == NULL, "an absent key is not found");
    else VP_ASSERT(got && got->key == probe && got->val == model[i].val, "a present key is found with its last value");
    gr_hashtable_enumerate(&t, en, &probe);
    VP_ASSERT(total_seen == n, "enumeration visits as many elements as the map holds");
    VP_ASSERT(probe_seen == (i >= 0 ? 1 : 0), "enumeration visits each present element exactly once");
    if (i >= 0) VP_ASSERT(probe_val == model[i].val, "enumeration shows the stored value");
#ifdef FULL  /* every element, not only the one that was looked at */
    for (int k = 0; k < n; k++) { struct el e = { model[k].key, 0 }, *g = gr_hashtable_get(&t, &e); VP_ASSERT(g && g->val == model[k].val, "every present key is found with its last value"); }
#endif
    VP_WITNESS_IF(i >= 0, "a present key was probed");
    VP_WITNESS_IF(i < 0, "an absent key was probed");
    VP_WITNESS_IF(n < PREFIX || PREFIX == 0, "an element was removed");
    gr_hashtable_destroy(&t);
    VP_ASSERT(vp_live_allocs == 0, "destroying the table releases all its memory");
}
