/* Threads sharing one client.  The peer answers outstanding requests in any order, with a
 * response or an error; it speaks when a thread listens.
 * MODE 0: two threads call, await (receiving for themselves) and fetch their results.
 * MODE 1: one thread pumps messages, one calls and awaits asynchronously.
 * MODE 2: one thread pumps messages, one calls and awaits receiving for itself.
 * MODE 3: one thread pumps, one awaits all / any of two calls asynchronously.
 * MODE 5: one pumps, one awaits a call while the other awaits others in turn, more than AWAITS times.
 * MODE 6: three threads call and await (receiving for themselves), answered one after the other.
 * MODE 4: two threads make requests: no bytes are mixed, ids differ. */
#include "clilib.h"
#include <threads.h>
#ifndef MODE
#define MODE 0
#endif
#ifndef KINDS
#define KINDS 2
#endif
#ifndef NCALL
#define NCALL 2
#endif
#define SID 7
static uint8_t in[512]; static int tail;
static uint32_t pend[8]; static uint8_t pval[8]; static int npend, answered, closing, held;
static void push(const uint8_t* p, int n) { memcpy(in + tail, p, n); tail += n; VPFD(fd).in = in; VPFD(fd).in_len = tail; }
static struct { uint32_t id; int err; } done[8]; static int ndone;
static void answer(int i) {
    uint8_t m[HDR + 8];
    int err = KINDS > 1 && vp_bool();
    if (err) { hdr(m, 0, HDR + 8, 0, 2, 2); put32(m + HDR, pend[i]); put32(m + HDR + 4, 2); push(m, HDR + 8); }
    else { hdr(m, pend[i], HDR + 1, SID, 1, 3); m[HDR] = (uint8_t)(pval[i] ^ 0x5a); push(m, HDR + 1); }
    done[ndone].id = pend[i]; done[ndone++].err = err;
    for (int k = i; k + 1 < npend; k++) { pend[k] = pend[k + 1]; pval[k] = pval[k + 1]; }
    npend--; answered++;
}
static void sent(struct vp_sent* s) {
    VP_ASSERT(s->n == HDR + 1 && get32(s->data + 4) == HDR + 1 && s->data[8] == SID, "a request is one whole message");
    pend[npend] = get32(s->data); pval[npend++] = s->data[HDR];
    vp_wake(&pend, 1);
}
static int idle(int f) {
    (void)f;
    while (npend <= held) {
        if (closing) { VPFD(fd).eof = 1; return 0; }
        vp_block(&pend);
    }
    if (MODE == 5) { answer(npend - 1); return 1; }
    answer(npend > 1 ? (int)vp_pick(0, (uint32_t)npend - 1) : 0);
    return 1;
}
static void finish(void) { closing = 1; vp_wake(&pend, 1); }
static int request(struct gracht_message_context* c, uint8_t v) { return call(c, SID, 1, 0, &v, 1); }
static int outcome(uint32_t id) { for (int i = 0; i < ndone; i++) if (done[i].id == id) return done[i].err ? GRACHT_MESSAGE_ERROR : GRACHT_MESSAGE_COMPLETED; return GRACHT_MESSAGE_INPROGRESS; }
static void fetch(struct gracht_message_context* c, uint8_t v) {
    gracht_buffer_t b;
    memset(&b, 0, sizeof(b));
    int st = gracht_client_get_status_buffer(client, c, &b);
    VP_ASSERT(st == outcome(c->message_id), "an awaited call has the outcome it was answered with");
    if (st == GRACHT_MESSAGE_COMPLETED) {
        vp_touch(b.data + b.index, 1, 0);
        VP_ASSERT((uint8_t)b.data[b.index] == (uint8_t)(v ^ 0x5a), "the result of a call is its own response");
        VP_ASSERT(gracht_client_status_finalize(client, &b) == 0, "the result is released");
    }
}
static int caller(void* arg) {
    struct gracht_message_context c;
    uint8_t v = vp_u8();
    VP_ASSERT(request(&c, v) == 0, "a call is sent");
    VP_ASSERT(gracht_client_await(client, &c, (unsigned)(uintptr_t)arg) == 0, "an await whose answer arrives succeeds");
    VP_ASSERT(outcome(c.message_id) != GRACHT_MESSAGE_INPROGRESS, "an await returns when its call was answered");
    fetch(&c, v);
    VP_ASSERT(gracht_client_await(client, &c, (unsigned)(uintptr_t)arg) == 0, "a call that was answered and fetched is not waited for");
    if (MODE == 6) { held--; vp_wake(&pend, 1); }
    return 0;
}
static int pump(void* arg) {
    (void)arg;
    while (gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK) == 0) ;
    return 0;
}
#if MODE == 5
static thrd_t waiter;
static int slow(void* arg) {
    struct gracht_message_context* c = arg;
    VP_ASSERT(gracht_client_await(client, c, GRACHT_AWAIT_ASYNC) == 0, "an await whose answer arrives succeeds");
    VP_ASSERT(outcome(c->message_id) != GRACHT_MESSAGE_INPROGRESS, "an await returns when its call was answered");
    fetch(c, 1);
    return 0;
}
#endif
static int requester(void* arg) {
    struct gracht_message_context* c = arg;
    VP_ASSERT(request(c, (uint8_t)(c[1].message_id)) == 0, "a call is sent");
    return 0;
}
void vp_main(void) {
    thrd_t t;
    cli_make(0, 16);
    cli_connect();
    vp_recv_idle = idle; vp_send_hook = sent;
#if MODE == 0
    thrd_create(&t, caller, (void*)(uintptr_t)GRACHT_AWAIT_ALL);
    caller((void*)(uintptr_t)GRACHT_AWAIT_ANY);
    thrd_join(t, NULL);
    VP_ASSERT(answered == 2, "every call was answered");
    VP_WITNESS("two callers");
#elif MODE == 6   /* the peer answers one, and the next when that one has returned */
    thrd_t u;
    held = 2;
    thrd_create(&t, caller, (void*)(uintptr_t)GRACHT_AWAIT_ALL);
    thrd_create(&u, caller, (void*)(uintptr_t)GRACHT_AWAIT_ALL);
    caller((void*)(uintptr_t)GRACHT_AWAIT_ANY);
    thrd_join(t, NULL); thrd_join(u, NULL);
    VP_ASSERT(answered == 3, "every call was answered");
    VP_WITNESS("three callers");
#elif MODE == 1 || MODE == 2
    thrd_create(&t, pump, NULL);
    caller((void*)(uintptr_t)(GRACHT_AWAIT_ALL | (MODE == 1 ? GRACHT_AWAIT_ASYNC : 0)));
    finish();
    thrd_join(t, NULL);
    VP_WITNESS("pumped");
#elif MODE == 3
    struct gracht_message_context c[3], *list[3] = { &c[0], &c[1], &c[2] };
    uint8_t v[3] = { vp_u8(), vp_u8(), vp_u8() };
    int all = (int)vp_pick(0, 1);
    if (!all && vp_bool()) held = NCALL - 1;  /* only one is answered until then */
    thrd_create(&t, pump, NULL);
    for (int i = 0; i < NCALL; i++) VP_ASSERT(request(&c[i], v[i]) == 0, "calls are sent");
    VP_ASSERT(gracht_client_await_multiple(client, list, NCALL, GRACHT_AWAIT_ASYNC | (all ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY)) == 0, "an await whose answers arrive succeeds");
    int n = 0;
    for (int i = 0; i < NCALL; i++) n += outcome(c[i].message_id) != GRACHT_MESSAGE_INPROGRESS;
    VP_ASSERT(all ? n == NCALL : n >= 1, "an await returns when its calls were answered");
    VP_WITNESS_IF(!all && n == 1, "returned with one of two answers");
    held = 0; vp_wake(&pend, 1);
    finish();
    thrd_join(t, NULL);
    for (int i = 0; i < NCALL; i++) fetch(&c[i], v[i]);
    VP_WITNESS("pumped");
#elif MODE == 5
    struct gracht_message_context c, d;
    uint8_t v = vp_u8();
    held = 1;
    thrd_create(&t, pump, NULL);
    VP_ASSERT(request(&c, 1) == 0, "a call is sent");
    thrd_create(&waiter, slow, &c);
    for (int i = 0; i < 12; i++) {
        VP_ASSERT(request(&d, v) == 0, "a call is sent");
        VP_ASSERT(gracht_client_await(client, &d, GRACHT_AWAIT_ASYNC) == 0 && outcome(d.message_id) != GRACHT_MESSAGE_INPROGRESS, "an await returns when its call was answered");
        for (int k = 0; i == 3 && k < AWAITS; k++) VP_ASSERT(gracht_client_await(client, &d, GRACHT_AWAIT_ASYNC) == 0, "an answered call is awaited at once");
        fetch(&d, v); ndone = 0; tail = 0; VPFD(fd).in_len = VPFD(fd).in_pos = 0; vp_nsent = 0;
    }
    held = 0; vp_wake(&pend, 1);
    thrd_join(waiter, NULL);
    finish();
    thrd_join(t, NULL);
    VP_WITNESS("awaited meanwhile");
#else
    static struct gracht_message_context c[4];
    c[1].message_id = 0x11; c[3].message_id = 0x22;
    thrd_create(&t, requester, &c[0]);
    requester(&c[2]);
    thrd_join(t, NULL);
    VP_ASSERT(vp_nsent == 2 && c[0].message_id != c[2].message_id, "requests of two threads have ids of their own");
    for (int i = 0; i < 2; i++) {
        struct gracht_message_context* o = pend[i] == c[0].message_id ? &c[0] : &c[2];
        VP_ASSERT(pend[i] == o->message_id && pval[i] == (uint8_t)o[1].message_id, "a request carries the arguments of its caller");
        gracht_buffer_t b;
        VP_ASSERT(gracht_client_get_status_buffer(client, o, &b) == GRACHT_MESSAGE_INPROGRESS, "a call that was sent is in progress");
    }
    VP_WITNESS("two requests");
#endif
    cli_end();
}
