/* What the functions for events of a client may do: use the client like anybody else.
 * The peer answers outstanding calls in any order, with a response or an error, and sends up to EVS events
 * before, between and after; the function of an event makes a call and awaits it in any way (receiving for
 * itself, so that other answers and other events arrive meanwhile), or makes one without result, or registers
 * or removes a service.
 * MODE 0: one thread.  MODE 1: one thread pumps (and runs the functions), one calls and awaits asynchronously. */
#include "clilib.h"
#include <threads.h>
#ifndef MODE
#define MODE 0
#endif
#ifndef EVS
#define EVS 2
#endif
#ifndef OUTER
#define OUTER 1
#endif
#ifndef WAYS
#define WAYS 6
#endif
#define SID 7
static uint8_t in[1024]; static int tail;
static const uint8_t from[16];
static int packet, evs, ran, depth, deepest, in_order, oneway, ran9, has9, closing;
static struct { uint32_t id; uint8_t v; int out; } calls[12]; static int ncalls; /* out: 2 none yet */
static void push(const uint8_t* p, int n) {
    memcpy(in + tail, p, n);
    if (packet) { vp_ndgrams = 0; vp_dgram_data(fd, in + tail, n, from, 16); }
    else { VPFD(fd).in = in; VPFD(fd).in_len = tail + n; }
    tail += n;
}
static void push_event(uint8_t sid, uint8_t v) { uint8_t m[HDR + 2]; hdr(m, 0, HDR + 2, sid, 1, 2); m[HDR] = v; m[HDR + 1] = (uint8_t)~v; push(m, HDR + 2); }
static void answer(int i) {
    uint8_t m[HDR + 8];
    if (vp_bool()) { hdr(m, 0, HDR + 8, 0, 2, 2); put32(m + HDR, calls[i].id); put32(m + HDR + 4, 2); push(m, HDR + 8); calls[i].out = GRACHT_MESSAGE_ERROR; }
    else { hdr(m, calls[i].id, HDR + 1, SID, 1, 3); m[HDR] = (uint8_t)(calls[i].v ^ 0x5a); push(m, HDR + 1); calls[i].out = GRACHT_MESSAGE_COMPLETED; }
}
static void sent(struct vp_sent* s) {
    VP_ASSERT(s->n == HDR + 1 && get32(s->data + 4) == HDR + 1 && s->data[8] == SID, "a request is one whole message");
    if (s->data[10] == 1) { oneway++; return; }
    for (int i = 0; i < ncalls; i++) VP_ASSERT(calls[i].id != get32(s->data), "no two requests share an id");
    calls[ncalls].id = get32(s->data); calls[ncalls].v = s->data[HDR]; calls[ncalls++].out = 2;
    vp_wake(&calls, 1);
}
static int open_calls(void) { int n = 0; for (int i = 0; i < ncalls; i++) n += calls[i].out == 2; return n; }
static int idle(int f) {
    (void)f;
    while (!open_calls()) {
        if (closing || MODE == 0) { VPFD(fd).eof = 1; return 0; }
        vp_block(&calls);
    }
    if (evs < EVS && vp_bool()) { evs++; push_event(SID, (uint8_t)(0x30 + evs)); return 1; }
    int k = (int)VP_CONCRETE(vp_pick(0, (uint32_t)open_calls() - 1));
    for (int i = 0; i < ncalls; i++) if (calls[i].out == 2 && k-- == 0) { answer(i); break; }
    return 1;
}
static int outcome(uint32_t id) { for (int i = 0; i < ncalls; i++) if (calls[i].id == id) return calls[i].out; return -2; }
static void fetch(struct gracht_message_context* c, uint8_t v) {
    gracht_buffer_t b;
    memset(&b, 0, sizeof(b));
    int st = gracht_client_get_status_buffer(client, c, &b);
    VP_ASSERT(outcome(c->message_id) != 2, "waiting for a call ends when it was answered");
    VP_ASSERT(st == outcome(c->message_id), "an awaited call has the outcome it was answered with");
    if (st == GRACHT_MESSAGE_COMPLETED) {
        vp_touch(b.data + b.index, 1, 0);
        VP_ASSERT((uint8_t)b.data[b.index] == (uint8_t)(v ^ 0x5a), "the result of a call is its own response");
        VP_ASSERT(gracht_client_status_finalize(client, &b) == 0, "the result is released");
    }
}
static void on9(gracht_client_t* c, gracht_buffer_t* b) { (void)c; (void)b; ran9++; }
static gracht_protocol_function_t f9[1] = { { 1, on9 } };
static gracht_protocol_t p9 = GRACHT_PROTOCOL_INIT(9, "v", 1, f9);
static void on_event(gracht_client_t* c, gracht_buffer_t* b) {
    const uint8_t* p = (const uint8_t*)b->data + b->index;
    uint8_t v = p[0], w = (uint8_t)(0x60 + ran);
    struct gracht_message_context x[2], *l[2] = { &x[0], &x[1] };
    VP_ASSERT(c == client && v > 0x30 && v <= 0x30 + evs && p[1] == (uint8_t)~v, "an event arrives as it was sent");
    ran++; depth++;
    if (depth > deepest) deepest = depth;
    switch ((int)vp_pick(0, WAYS - 1)) {
        case 0: /* a call, awaited */
            VP_ASSERT(call(&x[0], SID, 1, 0, &w, 1) == 0, "a call is sent");
            VP_ASSERT(gracht_client_await(client, &x[0], ran & 1 ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY) == 0, "an await whose answer arrives succeeds");
            fetch(&x[0], w);
            break;
        case 1: /* a call, waited for */
            VP_ASSERT(call(&x[0], SID, 1, 0, &w, 1) == 0, "a call is sent");
            VP_ASSERT(gracht_client_wait_message(client, &x[0], GRACHT_MESSAGE_BLOCK) == 0, "waiting for a call whose answer arrives succeeds");
            fetch(&x[0], w);
            break;
        case 2: /* one without a result */
            { int n = oneway; VP_ASSERT(call(NULL, SID, 1, 1, &w, 1) == 0 && oneway == n + 1, "a request without a result is sent"); }
            break;
        case 3: /* the services of the client */
            if (has9) gracht_client_unregister_protocol(client, &p9); else VP_ASSERT(gracht_client_register_protocol(client, &p9) == 0, "a service is registered");
            has9 = !has9;
            break;
        case 4: /* two calls, awaited together */
            VP_ASSUME(depth == 1);
            VP_ASSERT(call(&x[0], SID, 1, 0, &w, 1) == 0 && call(&x[1], SID, 1, 0, &w, 1) == 0, "calls are sent");
            VP_ASSERT(gracht_client_await_multiple(client, l, 2, GRACHT_AWAIT_ALL) == 0, "an await whose answers arrive succeeds");
            fetch(&x[1], w); fetch(&x[0], w);
            break;
        default: /* nothing is asked for that is not there */
            x[0].message_id = 0x7fffffff;
            VP_ASSERT(gracht_client_wait_message(client, &x[0], GRACHT_MESSAGE_BLOCK) == -1, "a call that was never made is not waited for");
            break;
    }
    depth--;
    VP_ASSERT(p[0] == v && p[1] == (uint8_t)~v, "an event is there as long as its function runs");
}
static gracht_protocol_function_t f7[1] = { { 1, on_event } };
static gracht_protocol_t p7 = GRACHT_PROTOCOL_INIT(SID, "t", 1, f7);
static int pump(void* arg) { (void)arg; while (gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK) == 0) ; return 0; }
void vp_main(void) {
    struct gracht_message_context c[OUTER], *l[OUTER];
    uint8_t v[OUTER];
    vp_hold(1);
    packet = MODE == 0 ? (int)vp_pick(0, 1) : 0;
    cli_make(packet, 16);
    VP_ASSERT(gracht_client_register_protocol(client, &p7) == 0, "a service is registered");
    cli_connect();
    vp_recv_idle = idle; vp_send_hook = sent;
    for (int i = 0; i < OUTER; i++) { v[i] = (uint8_t)(0x20 + i); l[i] = &c[i]; }
#if MODE == 0
    for (int i = 0; i < OUTER; i++) VP_ASSERT(call(&c[i], SID, 1, 0, &v[i], 1) == 0, "a call is sent");
    if (OUTER == 1 && vp_bool()) VP_ASSERT(gracht_client_wait_message(client, &c[0], GRACHT_MESSAGE_BLOCK) == 0, "waiting for a call whose answer arrives succeeds");
    else VP_ASSERT(gracht_client_await_multiple(client, l, OUTER, GRACHT_AWAIT_ALL) == 0, "an await whose answers arrive succeeds");
#if EVS > 1
    VP_WITNESS_IF(deepest == EVS, "a function within a function");
#endif
#else
    thrd_t t;
    thrd_create(&t, pump, NULL);
    vp_hold(0);
    for (int i = 0; i < OUTER; i++) VP_ASSERT(call(&c[i], SID, 1, 0, &v[i], 1) == 0, "a call is sent");
    VP_ASSERT(gracht_client_await_multiple(client, l, OUTER, GRACHT_AWAIT_ALL | GRACHT_AWAIT_ASYNC) == 0, "an await whose answers arrive succeeds");
#endif
    for (int i = 0; i < OUTER; i++) fetch(&c[i], v[i]);
#if MODE == 1
    closing = 1; vp_wake(&calls, 1);
    thrd_join(t, NULL);
#endif
    VP_WITNESS_IF(ran && ncalls > OUTER, "a call within a function");
    VP_ASSERT(depth == 0 && ran == evs && open_calls() == 0, "every event is handled once, and every call was answered");
#if MODE == 0
    /* everything works as before */
    int n = ran9;
    vp_recv_idle = NULL;
    push_event(9, 1);
    int st = gracht_client_wait_message(client, NULL, 0);
    VP_ASSERT((st == 0) == has9 && ran9 == n + has9, "a service that was registered is called, one that was removed is not");
    VP_WITNESS_IF(has9, "registered within a function");
    vp_recv_idle = idle;
#endif
    cli_end();
}
