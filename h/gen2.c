/* Generated code of several services, one file importing another, in one program.
 * KIND 1: calls and responses, KIND 2: events.  WHAT: which of idl/vs.gr, idl/mx.gr */
#define GEN2
#include "genlib.h"
#ifndef KIND
#define KIND 1
#endif
#ifndef WHAT
#define WHAT 1
#endif
#ifndef RESP
#define RESP 0
#endif
static int hits[32], total;
static void hit(int n) { hits[n]++; total++; }
/* ---- values ---- */
static char sb[8][SLEN + 1]; static int sn_;
static enum vs_level lv(void) { return (enum vs_level)vp_u32(); }
#define NMAX 8
static enum vs_level v_ns[NMAX][ALEN]; static uint8_t v_fl[NMAX][ALEN]; static float v_fs[NMAX][ALEN]; static double v_ds[NMAX][ALEN]; static int nn;
static void mk_f(float* f) { uint32_t b = vp_u32(); memcpy(f, &b, 4); }
static void mk_d(double* d) { uint64_t b = vp_u64(); memcpy(d, &b, 8); }
static void eq_f(const float* x, const float* y) { uint32_t a, b; memcpy(&a, x, 4); memcpy(&b, y, 4); VP_ASSERT(a == b, "a floating point value arrives unchanged"); }
static void eq_d(const double* x, const double* y) { uint64_t a, b; memcpy(&a, x, 8); memcpy(&b, y, 8); VP_ASSERT(a == b, "a floating point value arrives unchanged"); }
static void mk_names(struct vs_names* v) {
    int i = nn++; int shape = (int)vp_pick(0, 3);
    v->k = vp_u8(); v->n = lv(); mk_d(&v->d); v->t = vp_u32();
    v->ns_count = shape == 1 ? 0 : shape == 2 ? 1 : ALEN; v->fl_count = shape == 2 ? 0 : shape == 3 ? 1 : ALEN; v->fs_count = shape == 3 ? 0 : shape == 1 ? 1 : ALEN; v->ds_count = shape == 0 ? 0 : shape == 1 ? ALEN : 1;
    for (int k = 0; k < ALEN; k++) { v_ns[i][k] = lv(); v_fl[i][k] = vp_u8(); mk_f(&v_fs[i][k]); mk_d(&v_ds[i][k]); }
    v->ns = v_ns[i]; v->fl = v_fl[i]; v->fs = v_fs[i]; v->ds = v_ds[i];
}
static void eq_names(const struct vs_names* x, const struct vs_names* y) {
    VP_ASSERT(x->k == y->k && x->n == y->n && x->t == y->t, "a structure arrives unchanged"); eq_d(&x->d, &y->d);
    VP_ASSERT(x->ns_count == y->ns_count && x->fl_count == y->fl_count && x->fs_count == y->fs_count && x->ds_count == y->ds_count, "an array arrives with its length");
    for (uint32_t k = 0; k < x->ns_count; k++) VP_ASSERT(x->ns[k] == y->ns[k], "an array arrives unchanged");
    for (uint32_t k = 0; k < x->fl_count; k++) VP_ASSERT(x->fl[k] == y->fl[k], "an array arrives unchanged");
    for (uint32_t k = 0; k < x->fs_count; k++) eq_f(&x->fs[k], &y->fs[k]);
    for (uint32_t k = 0; k < x->ds_count; k++) eq_d(&x->ds[k], &y->ds[k]);
}
static void mk_deep(struct vs_deep* v, int which) {
    v->a = vp_u8(); v->z = vp_u8();
    v->one_type = (uint8_t)(which % 7); v->two_type = (uint8_t)(which % 3);
    switch (which % 7) {
    case VS_DEEP_ONE_X: v->one.x = vp_u8(); break;
    case VS_DEEP_ONE_Q: v->one.q = vp_u64(); break;
    case VS_DEEP_ONE_B: v->one.b = vp_u8(); break;
    case VS_DEEP_ONE_F: mk_f(&v->one.f); break;
    case VS_DEEP_ONE_E: v->one.e = lv(); break;
    case VS_DEEP_ONE_Y: mk_names(&v->one.y); break;
    }
    switch (which % 3) {
    case VS_DEEP_TWO_X: v->two.x = vp_u16(); break;
    case VS_DEEP_TWO_Y: v->two.y = mkstr(sb[sn_++]); break;
    }
}
static void eq_deep(const struct vs_deep* x, const struct vs_deep* y) {
    VP_ASSERT(x->a == y->a && x->z == y->z && x->one_type == y->one_type && x->two_type == y->two_type, "a structure arrives unchanged");
    switch (VP_CONCRETE(x->one_type)) {
    case VS_DEEP_ONE_X: VP_ASSERT(x->one.x == y->one.x, "a variant arrives unchanged"); break;
    case VS_DEEP_ONE_Q: VP_ASSERT(x->one.q == y->one.q, "a variant arrives unchanged"); break;
    case VS_DEEP_ONE_B: VP_ASSERT(x->one.b == y->one.b, "a variant arrives unchanged"); break;
    case VS_DEEP_ONE_F: eq_f(&x->one.f, &y->one.f); break;
    case VS_DEEP_ONE_E: VP_ASSERT(x->one.e == y->one.e, "a variant arrives unchanged"); break;
    case VS_DEEP_ONE_Y: eq_names(&x->one.y, &y->one.y); break;
    }
    switch (VP_CONCRETE(x->two_type)) {
    case VS_DEEP_TWO_X: VP_ASSERT(x->two.x == y->two.x, "a variant arrives unchanged"); break;
    case VS_DEEP_TWO_Y: same_str(x->two.y, y->two.y); break;
    }
}
static struct vs_deep dds[1];
static void mk_deeper(struct vs_deeper* v) {
    mk_deep(&v->d, (int)vp_pick(0, 6)); v->ds_count = vp_pick(0, 1); v->ds = dds;
    if (v->ds_count) mk_deep(&dds[0], (int)vp_pick(2, 4));
    v->t = mkstr(sb[sn_++]);
}
static void eq_deeper(const struct vs_deeper* x, const struct vs_deeper* y) {
    eq_deep(&x->d, &y->d); VP_ASSERT(x->ds_count == y->ds_count, "an array arrives with its length");
    if (x->ds_count) eq_deep(&x->ds[0], &y->ds[0]);
    same_str(x->t, y->t);
}
static struct vs_names wmore[1];
static void mk_wrap(struct mx_wrap* v) { mk_names(&v->inner); v->more_count = vp_pick(0, 1); v->more = wmore; if (v->more_count) mk_names(&wmore[0]); v->z = vp_u8(); }
static void eq_wrap(const struct mx_wrap* x, const struct mx_wrap* y) { eq_names(&x->inner, &y->inner); VP_ASSERT(x->more_count == y->more_count && x->z == y->z, "an array arrives with its length"); if (x->more_count) eq_names(&x->more[0], &y->more[0]); }
static struct vs_names nm; static struct vs_deeper dp; static struct mx_wrap wr; static enum vs_level lvs[ALEN], e1; static uint32_t nl, a1, b1; static float ff[ALEN]; static double fd[ALEN]; static uint32_t nf, nd; static uint8_t u1;
static void fresh(void) { sn_ = 0; nn = 0; }
static void mk(int what) {
    fresh();
    switch (what) {
    case 1: mk_names(&nm); nl = vp_pick(0, ALEN); for (int i = 0; i < ALEN; i++) lvs[i] = lv(); break;
    case 2: nf = vp_pick(0, ALEN); nd = vp_pick(0, ALEN); for (int i = 0; i < ALEN; i++) { mk_f(&ff[i]); mk_d(&fd[i]); } e1 = lv(); break;
    case 3: mk_deeper(&dp); break;
    case 4: a1 = vp_u32(); b1 = vp_u32(); break;
    case 5: e1 = lv(); break;
    case 6: mk_wrap(&wr); e1 = lv(); break;
    case 20: u1 = vp_u8(); e1 = lv(); a1 = vp_u32(); break;
    case 21: mk_deeper(&dp); break;
    case 22: a1 = vp_u32(); break;
    case 23: mk_wrap(&wr); break;
    }
}
static void eq_mix(const float* f, uint32_t cf, const double* d, uint32_t cd, enum vs_level e) {
    for (uint32_t i = 0; i < nf && i < cf; i++) eq_f(&ff[i], &f[i]);
    for (uint32_t i = 0; i < nd && i < cd; i++) eq_d(&fd[i], &d[i]);
    VP_ASSERT(e == e1, "an enumeration arrives unchanged");
}
/* ---- the services ---- */
static int answering, answer_status;
#define ANSWER(W, ...) if (RESP) { mk(W); answer_status = __VA_ARGS__; answering = 1; }
void vs_one_put_invocation(struct gracht_message* message, const struct vs_names* x, const enum vs_level* y, const uint32_t y_count) {
    hit(1); eq_names(&nm, x); VP_ASSERT(y_count == nl, "an array arrives with its length"); for (uint32_t i = 0; i < nl; i++) VP_ASSERT(y[i] == lvs[i], "an array arrives unchanged");
    ANSWER(1, vs_one_put_response(message, &nm))
}
void vs_one_mix_invocation(struct gracht_message* message, const float* f, const uint32_t f_count, const double* d, const uint32_t d_count, const enum vs_level e) {
    hit(2); VP_ASSERT(f_count == nf && d_count == nd, "an array arrives with its length"); eq_mix(f, f_count, d, d_count, e);
    ANSWER(2, vs_one_mix_response(message, e1, ff, nf, fd, nd))
}
void vs_one_nest_invocation(struct gracht_message* message, const struct vs_deeper* d) { hit(3); eq_deeper(&dp, d); ANSWER(3, vs_one_nest_response(message, &dp)) }
void vs_two_put_invocation(struct gracht_message* message, const uint32_t a, const uint32_t b) { hit(4); VP_ASSERT(a == a1 && b == b1, "an argument arrives unchanged"); ANSWER(4, vs_two_put_response(message, a1)) }
void vs_two_mix_invocation(struct gracht_message* message, const enum vs_level e) { hit(5); VP_ASSERT(e == e1, "an enumeration arrives unchanged"); ANSWER(5, vs_two_mix_response(message, e1)) }
void mx_three_put_invocation(struct gracht_message* message, const struct mx_wrap* x, const enum vs_level n) { hit(6); eq_wrap(&wr, x); VP_ASSERT(n == e1, "an enumeration arrives unchanged"); ANSWER(6, mx_three_put_response(message, &wr)) }
/* ---- the client's events ---- */
void vs_one_event_ev_invocation(gracht_client_t* cl, const uint8_t z, const enum vs_level n, const uint32_t y) { hit(20); VP_ASSERT(z == u1 && n == e1 && y == a1, "an event's values arrive unchanged"); }
void vs_one_event_big_invocation(gracht_client_t* cl, const struct vs_deeper* d) { hit(21); eq_deeper(&dp, d); }
void vs_two_event_ev_invocation(gracht_client_t* cl, const uint32_t z) { hit(22); VP_ASSERT(z == a1, "an event's values arrive unchanged"); }
void mx_three_event_ev_invocation(gracht_client_t* cl, const struct mx_wrap* w) { hit(23); eq_wrap(&wr, w); }
static void enums(void) {
    VP_ASSERT(VS_LEVEL_low == -2 && VS_LEVEL_mid == -1 && VS_LEVEL_high == 16 && VS_LEVEL_top == 17, "an enumeration has the values of its definition");
    VP_ASSERT(SERVICE_VS_ONE_ID == 5 && SERVICE_VS_TWO_ID == 6 && SERVICE_MX_THREE_ID == 7, "a service has the id of its definition");
}
static void finish(void) {
    gracht_client_shutdown(client);
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, sfd, 0);
    VP_ASSERT(vp_live_allocs == 0, "no memory is left behind");
}
#if KIND == 1
static int call(struct gracht_message_context* x) {
    if (!RESP) mk(WHAT);
    switch (WHAT) {
    case 1: return vs_one_put(client, x, &nm, lvs, nl);
    case 2: return vs_one_mix(client, x, ff, nf, fd, nd, e1);
    case 3: return vs_one_nest(client, x, &dp);
    case 4: return vs_two_put(client, x, a1, b1);
    case 5: return vs_two_mix(client, x, e1);
    default: return mx_three_put(client, x, &wr, e1);
    }
}
static void result(struct gracht_message_context* x) {
    int st = -1;
    switch (WHAT) {
    case 1: { struct vs_names g; st = vs_one_put_result(client, x, &g); eq_names(&nm, &g); vs_names_destroy(&g); break; }
    case 2: { uint32_t c1 = vp_pick(0, ALEN), c2 = vp_pick(0, ALEN); float* o1 = out(4 * c1); double* o2 = out(8 * c2); enum vs_level e;
        st = vs_one_mix_result(client, x, &e, o1, c1, o2, c2); eq_mix(o1, c1, o2, c2, e); vp_free(o1); vp_free(o2); break; }
    case 3: { struct vs_deeper g; st = vs_one_nest_result(client, x, &g); eq_deeper(&dp, &g); vs_deeper_destroy(&g); break; }
    case 4: { uint32_t g; st = vs_two_put_result(client, x, &g); VP_ASSERT(g == a1, "a value arrives unchanged"); break; }
    case 5: { enum vs_level g; st = vs_two_mix_result(client, x, &g); VP_ASSERT(g == e1, "a value arrives unchanged"); break; }
    default: { struct mx_wrap g; st = mx_three_put_result(client, x, &g); eq_wrap(&wr, &g); mx_wrap_destroy(&g); break; }
    }
    VP_ASSERT(st == 0, "the result is delivered");
}
void vp_main(void) {
    world(0); enums();
    struct gracht_message_context x = { 0 };
    VP_ASSERT(call(&x) == 0, "the call is accepted");
    to_server();
    VP_ASSERT(total == 1 && hits[WHAT] == 1, "exactly the callback of the function called is called, once");
    if (RESP) {
        VP_ASSERT(answering && answer_status == 0, "the response is accepted");
        VP_ASSERT(deliver() == 2, "the response is sent");
        VP_ASSERT(gracht_client_await(client, &x, 0) == 0, "the call is answered");
        result(&x);
    } else VP_ASSERT(deliver() == 0, "nothing is sent but the call");
    VP_WITNESS("round trip");
    finish();
}
#else
static int fire(int one) {
    mk(WHAT);
    switch (WHAT) {
    case 20: return one ? vs_one_event_ev_single(server, sfd, u1, e1, a1) : vs_one_event_ev_all(server, u1, e1, a1);
    case 21: return one ? vs_one_event_big_single(server, sfd, &dp) : vs_one_event_big_all(server, &dp);
    case 22: return one ? vs_two_event_ev_single(server, sfd, a1) : vs_two_event_ev_all(server, a1);
    default: return one ? mx_three_event_ev_single(server, sfd, &wr) : mx_three_event_ev_all(server, &wr);
    }
}
void vp_main(void) {
    world(1); enums();
    int one = (int)vp_pick(0, 1), sub = 1;
#ifdef SUBSCRIBE   /* any of subscribe and unsubscribe to any of the three services; the event is of service two */
    for (int k = 0; k < SUBSCRIBE; k++) {
        struct gracht_message_context x = { 0 };
        int to = (int)vp_pick(0, 1), which = (int)vp_pick(0, 2);
        if (which == 1) sub = to;
        switch (which * 2 + to) {
        case 0: VP_ASSERT(vs_one_unsubscribe(client, &x) == 0, "the subscription is sent"); break;
        case 1: VP_ASSERT(vs_one_subscribe(client, &x) == 0, "the subscription is sent"); break;
        case 2: VP_ASSERT(vs_two_unsubscribe(client, &x) == 0, "the subscription is sent"); break;
        case 3: VP_ASSERT(vs_two_subscribe(client, &x) == 0, "the subscription is sent"); break;
        case 4: VP_ASSERT(mx_three_unsubscribe(client, &x) == 0, "the subscription is sent"); break;
        case 5: VP_ASSERT(mx_three_subscribe(client, &x) == 0, "the subscription is sent"); break;
        }
        to_server();
    }
#endif
    VP_ASSERT(fire(one) == 0, "the event is accepted");
    int d = deliver();
    if (one) VP_ASSERT(!(d & 4), "an event for one client reaches no other client");
    else VP_ASSERT(d & 4, "an event for all reaches every subscribed client");
    if (!one) VP_ASSERT(!!(d & 2) == sub, "an event reaches a client exactly if it is subscribed to the service");
    if (sub || one) {
        VP_ASSERT(d & 2, "the event is sent to the client");
        VP_ASSERT(at_client() == 0, "the event is received");
        VP_ASSERT(total == 1 && hits[WHAT] == 1, "exactly the callback of the event is called, once");
    }
    VP_ASSERT(at_client() != 0 && total <= 1, "the event is delivered once");
    VP_WITNESS_IF(one, "directed"); VP_WITNESS_IF(!one, "broadcast");
    finish();
}
#endif
