/* What the definition language offers besides types (idl/lang.gr): capitalised names, structures
 * extending structures of another file or defined later, types defined by headers, services with
 * functions or events only.  KIND 1: calls and responses, KIND 2: events. */
#define GEN3
#include "genlib.h"
#ifndef KIND
#define KIND 1
#endif
#ifndef WHAT
#define WHAT 1
#endif
#ifndef RESP
#define RESP 0
#endif
static int hits[32], total;
static void hit(int n) { hits[n]++; total++; }
static char sb[8][SLEN + 1]; static int sn_;
static struct lang_last l1; static struct lang_late t1; static thing ts[ALEN], xs[ALEN]; static enum base_kind ks[ALEN]; static size_t us[ALEN]; static long v1, vs[ALEN]; static other o1, os[ALEN];
static uint32_t nt, nk, nu, nv, no; static uint8_t u1; static char* s1;
static void mk_other(other* o) { o->a = vp_u8(); o->b = vp_u64(); }
static void eq_other(const other* x, const other* y) { VP_ASSERT(x->a == y->a && x->b == y->b, "a value of a defined type arrives unchanged"); }
static void mk_last(struct lang_last* v) {
    v->q = vp_u8(); v->before = vp_u16(); v->r = vp_u8(); v->after = vp_u32();
    int which = (int)vp_pick(0, 4); v->v_type = (uint8_t)which;
    switch (which) {
    case LANG_LAST_V_T: v->v.t = vp_u16(); break;
    case LANG_LAST_V_K: v->v.k = (enum base_kind)vp_u32(); break;
    case LANG_LAST_V_S: v->v.s = mkstr(sb[sn_++]); break;
    case LANG_LAST_V_B: v->v.b = vp_u8(); break;
    }
}
static void eq_last(const struct lang_last* x, const struct lang_last* y) {
    VP_ASSERT(x->q == y->q && x->before == y->before && x->r == y->r && x->after == y->after && x->v_type == y->v_type, "a structure arrives unchanged");
    switch (VP_CONCRETE(x->v_type)) {
    case LANG_LAST_V_T: VP_ASSERT(x->v.t == y->v.t, "a variant arrives unchanged"); break;
    case LANG_LAST_V_K: VP_ASSERT(x->v.k == y->v.k, "a variant arrives unchanged"); break;
    case LANG_LAST_V_S: same_str(x->v.s, y->v.s); break;
    case LANG_LAST_V_B: VP_ASSERT(x->v.b == y->v.b, "a variant arrives unchanged"); break;
    }
}
static void mk_late(struct lang_late* v) {
    v->e = mkstr(sb[sn_++]); v->n = vp_u16(); v->z = vp_u8();
    v->things_count = vp_pick(0, ALEN); v->things = v->things_count ? xs : NULL;
    for (int i = 0; i < ALEN; i++) xs[i] = vp_u16();
}
static void eq_late(const struct lang_late* x, const struct lang_late* y) {
    same_str(x->e, y->e); VP_ASSERT(x->n == y->n && x->z == y->z && x->things_count == y->things_count, "a structure arrives unchanged");
    for (uint32_t i = 0; i < x->things_count; i++) VP_ASSERT(x->things[i] == y->things[i], "an array arrives unchanged");
}
static void mk(int what) {
    sn_ = 0;
    switch (what) {
    case 1: mk_last(&l1); nt = vp_pick(0, ALEN); nk = RESP ? 1 : vp_pick(0, ALEN); for (int i = 0; i < ALEN; i++) { ts[i] = vp_u16(); ks[i] = (enum base_kind)vp_u32(); } mk_other(&o1); break;
    case 2: mk_late(&t1); nu = vp_pick(0, ALEN); nv = RESP ? vp_pick(0, ALEN) : 0; for (int i = 0; i < ALEN; i++) { us[i] = vp_u64(); vs[i] = (long)vp_u64(); } v1 = (long)vp_u64(); break;
    case 3: u1 = vp_u8(); break;
    case 20: mk_last(&l1); break;
    case 21: no = vp_pick(0, ALEN); for (int i = 0; i < ALEN; i++) mk_other(&os[i]); mk_late(&t1); break;
    case 22: u1 = vp_u8(); s1 = mkstr(sb[sn_++]); break;
    }
}
static int answering, answer_status;
#define ANSWER(W, ...) if (RESP) { mk(W); answer_status = __VA_ARGS__; answering = 1; }
void Lang_Svc_Get_invocation(struct gracht_message* message, const struct lang_last* l, const thing* t, const uint32_t t_count, const enum base_kind* k, const uint32_t k_count, const other o) {
    hit(1); eq_last(&l1, l); VP_ASSERT(t_count == nt && k_count == nk, "an array arrives with its length"); eq_other(&o1, &o);
    for (uint32_t i = 0; i < nt; i++) VP_ASSERT(t[i] == ts[i], "an array arrives unchanged");
    for (uint32_t i = 0; i < nk; i++) VP_ASSERT(k[i] == ks[i], "an array arrives unchanged");
    ANSWER(1, Lang_Svc_Get_response(message, &l1, ts, nt, o1))
}
void Lang_Svc_fwd_invocation(struct gracht_message* message, const struct lang_late* x, const size_t* u, const uint32_t u_count, const long v) {
    hit(2); eq_late(&t1, x); VP_ASSERT(u_count == nu && v == v1, "an array arrives with its length");
    for (uint32_t i = 0; i < nu; i++) VP_ASSERT(u[i] == us[i], "an array arrives unchanged");
    ANSWER(2, Lang_Svc_fwd_response(message, &t1, us, nu, vs, nv))
}
void Lang_Plain_only_invocation(struct gracht_message* message, const uint8_t x) { hit(3); VP_ASSERT(x == u1, "an argument arrives unchanged"); }
void Lang_Svc_event_Ev_invocation(gracht_client_t* cl, const struct lang_last* l) { hit(20); eq_last(&l1, l); }
void Lang_Svc_event_Tags_invocation(gracht_client_t* cl, const other* t, const uint32_t t_count, const struct lang_late* x) {
    hit(21); VP_ASSERT(t_count == no, "an array arrives with its length"); for (uint32_t i = 0; i < no; i++) eq_other(&os[i], &t[i]); eq_late(&t1, x);
}
void Lang_Only_event_say_invocation(gracht_client_t* cl, const uint8_t x, const char* s) { hit(22); VP_ASSERT(x == u1, "an event's values arrive unchanged"); same_str(s1, s); }
static void consts(void) {
    VP_ASSERT(BASE_KIND_first == 1 && BASE_KIND_second == 2 && BASE_KIND_third == -3 && BASE_KIND_fourth == -2 && BASE_KIND_zero == 0 && BASE_KIND_after_zero == 1 && BASE_KIND_large == 0x7ABCDEF0, "an enumeration has the values of its definition");
    VP_ASSERT(SERVICE_LANG_SVC_ID == 1 && SERVICE_LANG_PLAIN_ID == 2 && SERVICE_LANG_ONLY_ID == 0xC3 && SERVICE_LANG_NONE_ID == 0xFE, "a service has the id of its definition");
    VP_ASSERT(SERVICE_LANG_SVC_GET_ID == 1 && SERVICE_LANG_SVC_FWD_ID == 2 && SERVICE_LANG_SVC_EVENT_EV_ID == 3 && SERVICE_LANG_SVC_EVENT_TAGS_ID == 4, "functions and events have the ids of the definition");
}
static void finish(void) {
    gracht_client_shutdown(client);
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, sfd, 0);
    VP_ASSERT(vp_live_allocs == 0, "no memory is left behind");
}
#if KIND == 1
static int call(struct gracht_message_context* x) {
    if (!RESP) mk(WHAT);
    switch (WHAT) {
    case 1: return lang_svc_Get(client, x, &l1, ts, nt, ks, nk, o1);
    case 2: return lang_svc_fwd(client, x, &t1, us, nu, v1);
    default: return lang_plain_only(client, x, u1);
    }
}
static void result(struct gracht_message_context* x) {
    int st = -1;
    switch (WHAT) {
    case 1: { struct lang_last g; other o; uint32_t c = vp_pick(0, ALEN); thing* t = out(c * sizeof(thing));
        st = lang_svc_Get_result(client, x, &g, t, c, &o); eq_last(&l1, &g); eq_other(&o1, &o);
        for (uint32_t i = 0; i < c; i++) VP_ASSERT(t[i] == (i < nt ? ts[i] : 0xeeee), "a returned array is unchanged up to the capacity");
        lang_last_destroy(&g); vp_free(t); break; }
    default: { struct lang_late g; uint32_t c = vp_pick(0, ALEN), d = vp_pick(0, ALEN); size_t* u = out(c * sizeof(size_t)); long* v = out(d * sizeof(long));
        st = lang_svc_fwd_result(client, x, &g, u, c, v, d); eq_late(&t1, &g);
        for (uint32_t i = 0; i < c; i++) VP_ASSERT(u[i] == (i < nu ? us[i] : 0xeeeeeeeeeeeeeeeeUL), "a returned array is unchanged up to the capacity");
        for (uint32_t i = 0; i < d; i++) VP_ASSERT(v[i] == (i < nv ? vs[i] : (long)0xeeeeeeeeeeeeeeeeUL), "a returned array is unchanged up to the capacity");
        lang_late_destroy(&g); vp_free(u); vp_free(v); break; }
    }
    VP_ASSERT(st == 0, "the result is delivered");
}
void vp_main(void) {
    world(0); consts();
    struct gracht_message_context x = { 0 };
    VP_ASSERT(call(&x) == 0, "the call is accepted");
    to_server();
    VP_ASSERT(total == 1 && hits[WHAT] == 1, "exactly the callback of the function called is called, once");
    if (RESP) {
        VP_ASSERT(answering && answer_status == 0, "the response is accepted");
        VP_ASSERT(deliver() == 2, "the response is sent");
        VP_ASSERT(gracht_client_await(client, &x, 0) == 0, "the call is answered");
        result(&x);
    } else VP_ASSERT(deliver() == 0, "nothing is sent but the call");
    VP_WITNESS("round trip");
    finish();
}
#else
static int fire(int one) {
    mk(WHAT);
    switch (WHAT) {
    case 20: return one ? Lang_Svc_event_Ev_single(server, sfd, &l1) : Lang_Svc_event_Ev_all(server, &l1);
    case 21: return one ? Lang_Svc_event_Tags_single(server, sfd, os, no, &t1) : Lang_Svc_event_Tags_all(server, os, no, &t1);
    default: return one ? Lang_Only_event_say_single(server, sfd, u1, s1) : Lang_Only_event_say_all(server, u1, s1);
    }
}
void vp_main(void) {
    world(1); consts();
    int one = (int)vp_pick(0, 1), sub = 1;
    if (WHAT == 22) {   /* a service with events only is subscribed to like any other, also one the server has no functions of */
        struct gracht_message_context x = { 0 };
        switch (vp_pick(0, 2)) {
        case 1: VP_ASSERT(lang_only_unsubscribe(client, &x) == 0, "the subscription is sent"); to_server(); sub = 0; break;
        case 2: VP_ASSERT(lang_none_unsubscribe(client, &x) == 0, "the subscription is sent"); to_server(); break;
        }
    }
    VP_ASSERT(fire(one) == 0, "the event is accepted");
    int d = deliver();
    VP_ASSERT(!!(d & 4) == !one, "an event for one client reaches only this one, an event for all every subscribed client");
    VP_ASSERT(!!(d & 2) == (sub || one), "an event reaches a client exactly if it is subscribed to the service");
    if (d & 2) {
        VP_ASSERT(at_client() == 0, "the event is received");
        VP_ASSERT(total == 1 && hits[WHAT] == 1, "exactly the callback of the event is called, once");
    }
    VP_ASSERT(at_client() != 0 && total <= 1, "the event is delivered once");
    VP_WITNESS_IF(one, "directed"); VP_WITNESS_IF(!one, "broadcast");
    finish();
}
#endif
