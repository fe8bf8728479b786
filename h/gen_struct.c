/* The generated structure helpers: any sequence of them on structures with strings, arrays,
 * nested structures and variants, against a plain model; then copies; then destruction. */
#define NO_WORLD
#include "genlib.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef OPS
#define OPS 3
#endif
static void set_str(char** p, char* want) { *p = want ? vp_strdup(want) : NULL; }
static void nomem(void) { VP_ASSERT(vp_live_allocs == 0, "destroying releases everything"); }
#if MODE == 5  /* arrays that grow by many elements at once */
void vp_main(void) {
    struct vt_bag b, c; int had = (int)VP_CONCRETE(vp_pick(0, 2)), by = (int)VP_CONCRETE(vp_pick(0, 3)), get = (int)VP_CONCRETE(vp_pick(0, 1)), n; struct vt_point kept[2]; uint8_t lk[2] = {0};
    vt_bag_init(&b);
    if (had) { vt_bag_pts_add(&b, (uint32_t)had); vt_bag_labels_add(&b, (uint32_t)had); }
    for (int i = 0; i < had; i++) { mk_point(&b.pts[i]); kept[i] = b.pts[i]; b.labels[i].kind = lk[i] = vp_u8(); b.labels[i].text = vp_strdup("x"); }
    by = by == 3 ? 300 : 255 + by; n = had + by;
    if (get) { struct vt_point* p = vt_bag_pts_get(&b, (uint32_t)n - 1); VP_ASSERT(p == &b.pts[n - 1], "an element lies inside the array");
               struct vt_label* l = vt_bag_labels_get(&b, (uint32_t)n - 1); VP_ASSERT(l == &b.labels[n - 1], "an element lies inside the array"); }
    else { vt_bag_pts_add(&b, (uint32_t)by); vt_bag_labels_add(&b, (uint32_t)by); }
    VP_ASSERT(b.pts_count == (uint32_t)n && VP_OK(b.pts, sizeof(*b.pts) * n) && b.labels_count == (uint32_t)n && VP_OK(b.labels, sizeof(*b.labels) * n), "an array has the elements that were added");
    for (int i = 0; i < n; i++) {
        if (i < had) VP_ASSERT(b.pts[i].x == kept[i].x && b.pts[i].y == kept[i].y && b.labels[i].kind == lk[i] && b.labels[i].text && b.labels[i].text[0] == 'x', "every element keeps its value");
        else VP_ASSERT(b.pts[i].x == 0 && b.pts[i].y == 0 && b.labels[i].kind == 0 && b.labels[i].text == NULL, "a new element is empty");
    }
    if (had < n) { mk_point(&b.pts[n - 1]); b.labels[n - 1].kind = vp_u8(); }
    memset(&c, 0xa5, sizeof(c));
    vt_bag_copy(&b, &c);
    VP_ASSERT(c.pts_count == (uint32_t)n && c.labels_count == (uint32_t)n, "the copy equals its source");
    for (int i = 0; i < n; i++) VP_ASSERT(c.pts[i].x == b.pts[i].x && c.pts[i].y == b.pts[i].y && c.labels[i].kind == b.labels[i].kind && (c.labels[i].text != NULL) == (i < had), "the copy equals its source");
    VP_WITNESS_IF(n == 302 && get, "many elements");
    vt_bag_destroy(&b); vt_bag_destroy(&c);
    nomem();
}
#elif MODE == 4  /* long arrays: elements are added in steps of any size, then read again */
static struct vt_point want[3 * OPS + 1]; static uint8_t lk[3 * OPS + 1];
#ifdef LONG   /* only the elements added at the ends and in the middle are arbitrary */
#define ANY(k) ((k) == 0 || (k) == OPS / 2 || (k) == OPS - 1)
#else
#define ANY(k) 1
#endif
void vp_main(void) {
    struct vt_bag b; int n = 0, nl = 0;
    vt_bag_init(&b);
    int by = (int)vp_pick(1, 3), way = (int)vp_pick(0, 2);
    for (int k = 0; k < OPS; k++) {
        if (way == 0) vt_bag_pts_add(&b, by);          /* in steps of 1..3 */
        else if (way == 1) vt_bag_pts_get(&b, (uint32_t)(n + by - 1)); /* by reaching beyond the end */
        else { vt_bag_pts_add(&b, by - 1); vt_bag_pts_get(&b, (uint32_t)(n + by - 1)); }
        VP_ASSERT(b.pts_count == (uint32_t)(n + by) && VP_OK(b.pts, sizeof(*b.pts) * (n + by)), "an array has the elements that were added");
        for (int i = 0; i < by; i++, n++) { VP_ASSERT(b.pts[n].x == 0 && b.pts[n].y == 0, "a new element is empty"); if (ANY(k)) mk_point(&b.pts[n]); else b.pts[n].x = (int16_t)(n * 5); want[n] = b.pts[n]; }
        if (way == 1) vt_bag_labels_get(&b, (uint32_t)nl); else vt_bag_labels_add(&b, 1);
        VP_ASSERT(b.labels_count == (uint32_t)nl + 1 && b.labels[nl].text == NULL && b.labels[nl].kind == 0, "a new element is empty");
        b.labels[nl].text = vp_strdup("x"); b.labels[nl].kind = lk[nl] = ANY(k) ? vp_u8() : (uint8_t)(nl * 7); nl++;
    }
    int at = (int)VP_CONCRETE(vp_pick(0, n > 255 ? 3 : (uint32_t)n - 1)); if (n > 255) at = at == 3 ? n - 1 : 255 + at - 1;
    struct vt_point* p = vt_bag_pts_get(&b, (uint32_t)at);
    VP_ASSERT(p == &b.pts[at] && b.pts_count == (uint32_t)n, "reading an element adds none");
    for (int i = 0; i < n; i++) VP_ASSERT(b.pts[i].x == want[i].x && b.pts[i].y == want[i].y, "every element keeps its value");
    for (int i = 0; i < nl; i++) VP_ASSERT(b.labels[i].kind == lk[i] && b.labels[i].text && b.labels[i].text[0] == 'x' && !b.labels[i].text[1], "every element keeps its value");
    VP_WITNESS_IF(n == 3 * OPS, "long array");
    struct vt_bag c;
    memset(&c, 0xa5, sizeof(c));
    vt_bag_copy(&b, &c);
    vt_bag_destroy(&b);
    VP_ASSERT(c.pts_count == (uint32_t)n && c.labels_count == (uint32_t)nl, "the copy equals its source");
    for (int i = 0; i < n; i++) VP_ASSERT(c.pts[i].x == want[i].x && c.pts[i].y == want[i].y, "the copy equals its source");
    for (int i = 0; i < nl; i++) VP_ASSERT(c.labels[i].kind == lk[i] && c.labels[i].text && c.labels[i].text[0] == 'x' && !c.labels[i].text[1], "the copy equals its source");
    vt_bag_destroy(&c);
    nomem();
}
#elif MODE == 0  /* array members: add, get, values */
void vp_main(void) {
    struct vt_bag b; struct vt_point want[12]; char lt[6][SLEN + 1]; char* lw[6]; uint8_t lk[6];
    int n = 0, nl = 0;
    vt_bag_init(&b);
    VP_ASSERT(b.nums_count == 0 && b.pts_count == 0 && b.labels_count == 0 && b.wide_count == 0 && b.name == NULL, "a new structure is empty");
    for (int k = 0; k < OPS; k++) {
        switch (vp_pick(0, 3)) {
        case 0: { int c = (int)vp_pick(0, 2); vt_bag_pts_add(&b, c); for (int i = 0; i < c; i++) { want[n].x = 0; want[n].y = 0; n++; } break; }
        case 1: { uint32_t at = vp_pick(0, 3); struct vt_point* p = vt_bag_pts_get(&b, at);
            while (n <= (int)at) { want[n].x = 0; want[n].y = 0; n++; }
            VP_ASSERT(VP_OK(p, sizeof(*p)), "an element lies inside the array");
            VP_ASSERT(p->x == want[at].x && p->y == want[at].y, "an element keeps its value");
            mk_point(p); want[at] = *p; break; }
        case 2: { vt_bag_labels_add(&b, 1); VP_ASSERT(b.labels[nl].text == NULL && b.labels[nl].kind == 0, "a new element is empty"); 
            lw[nl] = mkstr(lt[nl]); lk[nl] = vp_u8(); set_str(&b.labels[nl].text, lw[nl]); b.labels[nl].kind = lk[nl]; nl++; break; }
        default: { uint32_t at = vp_pick(0, 1); struct vt_label* l = vt_bag_labels_get(&b, at);
            VP_ASSERT(VP_OK(l, sizeof(*l)), "an element lies inside the array");
            while (nl <= (int)at) { lw[nl] = NULL; lk[nl] = 0; nl++; }
            VP_ASSERT(l->kind == lk[at] && (l->text != NULL) == (lw[at] != NULL), "an element keeps its value");
            l->kind = lk[at] = vp_u8(); break; }
        }
        VP_ASSERT(b.pts_count == (uint32_t)n && b.labels_count == (uint32_t)nl, "an array has the elements that were added");
        for (int i = 0; i < n; i++) VP_ASSERT(b.pts[i].x == want[i].x && b.pts[i].y == want[i].y, "every element keeps its value");
        for (int i = 0; i < nl; i++) { VP_ASSERT(b.labels[i].kind == lk[i], "every element keeps its value"); if (lw[i]) same_str(lw[i], b.labels[i].text); else VP_ASSERT(b.labels[i].text == NULL, "every element keeps its value"); }
        VP_WITNESS_IF(n >= 3 && nl >= 1, "both arrays used");
    }
    vt_bag_destroy(&b);
    nomem();
}
#elif MODE == 1  /* copies */
static void same_or_null(const char* a, const char* b) { if (!a) VP_ASSERT(b == NULL, "the copy equals its source"); else { VP_ASSERT(a != b, "the copy has its own memory"); same_str(a, b); } }
void vp_main(void) {
    struct vt_bag b, c, keep; struct vt_label lkeep[ALEN];
    vt_bag_init(&b);
    mk_bag(&b);
    keep = b;
    /* own the memory */
    if (b.nums_count) { b.nums = vp_malloc(sizeof(uint16_t) * b.nums_count); memcpy(b.nums, keep.nums, sizeof(uint16_t) * b.nums_count); }
    if (b.wide_count) { b.wide = vp_malloc(sizeof(int64_t) * b.wide_count); memcpy(b.wide, keep.wide, sizeof(int64_t) * b.wide_count); }
    if (b.pts_count) { b.pts = vp_malloc(sizeof(struct vt_point) * b.pts_count); memcpy(b.pts, keep.pts, sizeof(struct vt_point) * b.pts_count); }
    if (b.labels_count) { b.labels = vp_malloc(sizeof(struct vt_label) * b.labels_count); for (uint32_t i = 0; i < b.labels_count; i++) { b.labels[i].kind = keep.labels[i].kind; set_str(&b.labels[i].text, keep.labels[i].text); } }
    set_str(&b.name, keep.name);
    memset(&c, 0xa5, sizeof(c));
    vt_bag_copy(&b, &c);
    /* the source still has its content */
    VP_ASSERT(b.nums_count == keep.nums_count && b.tail == keep.tail, "copying leaves the source as it was");
    VP_ASSERT(c.nums_count == keep.nums_count && c.pts_count == keep.pts_count && c.labels_count == keep.labels_count && c.wide_count == keep.wide_count, "the copy equals its source");
    if (c.nums_count) VP_ASSERT(c.nums != b.nums && VP_OK(c.nums, 2 * c.nums_count), "the copy has its own memory");
    if (c.pts_count) VP_ASSERT(c.pts != b.pts && VP_OK(c.pts, sizeof(*c.pts) * c.pts_count), "the copy has its own memory");
    if (c.wide_count) VP_ASSERT(c.wide != b.wide && VP_OK(c.wide, 8 * c.wide_count), "the copy has its own memory");
    if (c.labels_count) VP_ASSERT(c.labels != b.labels && VP_OK(c.labels, sizeof(*c.labels) * c.labels_count), "the copy has its own memory");
    /* change and destroy the source: the copy must not notice */
    for (uint32_t i = 0; i < b.nums_count; i++) b.nums[i] ^= 0xffff;
    for (uint32_t i = 0; i < b.pts_count; i++) b.pts[i].x ^= 0x7fff;
    for (uint32_t i = 0; i < b.labels_count; i++) { if (b.labels[i].text) VP_ASSERT(b.labels[i].text != c.labels[i].text, "the copy has its own memory"); }
    if (b.name) VP_ASSERT(b.name != c.name, "the copy has its own memory");
    vt_bag_destroy(&b);
    for (uint32_t i = 0; i < c.nums_count; i++) VP_ASSERT(c.nums[i] == bag_nums[i], "the copy equals its source");
    for (uint32_t i = 0; i < c.wide_count; i++) VP_ASSERT(c.wide[i] == bag_wide[i], "the copy equals its source");
    for (uint32_t i = 0; i < c.pts_count; i++) eq_point(&bag_pts[i], &c.pts[i]);
    for (uint32_t i = 0; i < c.labels_count; i++) { VP_ASSERT(c.labels[i].kind == bag_labels[i].kind, "the copy equals its source"); same_or_null(bag_labels[i].text, c.labels[i].text); }
    same_or_null(keep.name, c.name); eq_point(&keep.one, &c.one);
    VP_ASSERT(c.c == keep.c && c.tail == keep.tail, "the copy equals its source");
    VP_WITNESS_IF(c.nums_count == ALEN, "copied array");
    vt_bag_destroy(&c);
    nomem();
}
#elif MODE == 3  /* copies of structures in structures with arrays of structures with arrays */
static char tb[4][SLEN + 1]; static char* ts[4]; static uint16_t tv[4][2]; static uint32_t tn[4];
static void mk(struct vt_leaf* v, int i) {
    ts[i] = mkstr(tb[i]); tn[i] = vp_pick(0, 2); tv[i][0] = vp_u16(); tv[i][1] = vp_u16();
    vt_leaf_init(v);
    set_str(&v->s, ts[i]);
    if (tn[i]) { v->v = vp_malloc(2 * tn[i]); VP_ASSUME(v->v != NULL); v->v_count = tn[i]; memcpy(v->v, tv[i], 2 * tn[i]); }
}
static void eq(const struct vt_leaf* v, int i) {
    if (!ts[i]) VP_ASSERT(v->s == NULL, "the copy equals its source"); else same_str(ts[i], v->s);
    VP_ASSERT(v->v_count == tn[i], "the copy equals its source");
    for (uint32_t k = 0; k < tn[i]; k++) VP_ASSERT(v->v[k] == tv[i][k], "the copy equals its source");
}
void vp_main(void) {
    struct vt_branch a, b; uint8_t z = vp_u8();
    vt_branch_init(&a);
    mk(&a.one, 0);
    uint32_t n = vp_pick(0, 2);
    if (n) { vt_branch_more_add(&a, (int)n); for (uint32_t i = 0; i < n; i++) mk(vt_branch_more_get(&a, i), (int)i + 1); }
    a.z = z;
    memset(&b, 0xa5, sizeof(b));
    vt_branch_copy(&a, &b);
    int first = (int)vp_pick(0, 1);
    struct vt_branch *x = first ? &a : &b, *y = first ? &b : &a;
    vt_branch_destroy(x);
    eq(&y->one, 0); VP_ASSERT(y->more_count == n && y->z == z, "the copy equals its source");
    for (uint32_t i = 0; i < n; i++) eq(&y->more[i], (int)i + 1);
    VP_WITNESS_IF(n == 2 && tn[2] == 2 && ts[1], "copied tree");
    vt_branch_destroy(y);
    nomem();
}
#else  /* variants: set, is, clear, copy, destroy */
static int cur; static struct vt_point p; static struct vt_label l; static char lt[SLEN + 1], st[SLEN + 1]; static char* s; static int n; static enum vt_color c;
static void look(const struct vt_shape* x) {
    VP_ASSERT(x->body_type == cur, "a variant holds the member that was set");
    VP_ASSERT(!!vt_shape_body_is_point((struct vt_shape*)x) == (cur == VT_SHAPE_BODY_P) && !!vt_shape_body_is_label((struct vt_shape*)x) == (cur == VT_SHAPE_BODY_L) && !!vt_shape_body_is_int((struct vt_shape*)x) == (cur == VT_SHAPE_BODY_N)
           && !!vt_shape_body_is_string((struct vt_shape*)x) == (cur == VT_SHAPE_BODY_S) && !!vt_shape_body_is_color((struct vt_shape*)x) == (cur == VT_SHAPE_BODY_C), "a variant tells which member it holds");
    if (cur == VT_SHAPE_BODY_P) eq_point(&p, &x->body.p);
    if (cur == VT_SHAPE_BODY_L) { VP_ASSERT(x->body.l.kind == l.kind, "a variant keeps its value"); if (l.text) { VP_ASSERT(x->body.l.text != l.text, "a variant has its own memory"); same_str(l.text, x->body.l.text); } else VP_ASSERT(!x->body.l.text, "a variant keeps its value"); }
    if (cur == VT_SHAPE_BODY_N) VP_ASSERT(x->body.n == n, "a variant keeps its value");
    if (cur == VT_SHAPE_BODY_S) { if (s) { VP_ASSERT(x->body.s != s, "a variant has its own memory"); same_str(s, x->body.s); } else VP_ASSERT(!x->body.s, "a variant keeps its value"); }
    if (cur == VT_SHAPE_BODY_C) VP_ASSERT(x->body.c == c, "a variant keeps its value");
}
void vp_main(void) {
    struct vt_shape x, y;
    vt_shape_init(&x);
    look(&x);
    for (int k = 0; k < OPS; k++) {
        int what = (int)vp_pick(0, 6);
        if (what == 0) { vt_shape_body_clear(&x); cur = 0; }
        else if (what == 6) {
            memset(&y, 0xa5, sizeof(y));
            vt_shape_copy(&x, &y);
            look(&y);
            VP_ASSERT(y.head == x.head && y.tail == x.tail, "the copy equals its source");
            if (cur == VT_SHAPE_BODY_S && x.body.s) VP_ASSERT(x.body.s != y.body.s, "the copy has its own memory");
            if (cur == VT_SHAPE_BODY_L && x.body.l.text) VP_ASSERT(x.body.l.text != y.body.l.text, "the copy has its own memory");
            vt_shape_destroy(&x); x = y;   /* go on with the copy */
            VP_WITNESS_IF(cur == VT_SHAPE_BODY_S, "a copied string");
        } else {
            vt_shape_body_clear(&x);
            cur = what;
            x.head = vp_u8(); x.tail = vp_u16();
            uint8_t h = x.head; uint16_t t = x.tail;
            if (what == VT_SHAPE_BODY_P) { mk_point(&p); vt_shape_body_set_point(&x, &p); }
            if (what == VT_SHAPE_BODY_L) { l.text = mkstr(lt); l.kind = vp_u8(); vt_shape_body_set_label(&x, &l); }
            if (what == VT_SHAPE_BODY_N) { n = (int)vp_u32(); vt_shape_body_set_int(&x, n); }
            if (what == VT_SHAPE_BODY_S) { s = mkstr(st); vt_shape_body_set_string(&x, s); }
            if (what == VT_SHAPE_BODY_C) { c = (enum vt_color)vp_u32(); vt_shape_body_set_color(&x, c); }
            VP_ASSERT(x.head == h && x.tail == t, "setting a member changes no other");
        }
        look(&x);
    }
    vt_shape_destroy(&x);
    nomem();
}
#endif
