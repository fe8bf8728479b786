/* Calls, results and waiting, one thread.
 * MODE 0: requests on the wire: ids, framing, failing sends.
 * MODE 1: NC calls; responses, errors, duplicates in any order; results asked for at any time.
 * MODE 3: ROUNDS calls one after the other, one kind of answer and way of asking each: nothing is kept.
 * MODE 4: ROUNDS calls, none of them answered: all have their own id; the last one is as long as it may be.
 * MODE 5: services registered and removed, any event.
 * MODE 2: awaiting any / all of NC calls; the connection may break at any point. */
#include "clilib.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef NC
#define NC 2
#endif
#ifndef OPS
#define OPS 5
#endif
#define SID 7
static struct gracht_message_context ctx[NC + 1];
static uint8_t body[NC + 1];
static int state[NC + 1];      /* 0 in progress, 1 completed, -1 error, 2 fetched */
static uint8_t in[2048]; static int tail;
static void push(const uint8_t* p, int n) { memcpy(in + tail, p, n); tail += n; VPFD(fd).in = in; VPFD(fd).in_len = tail; }
static void push_response(uint32_t id, uint8_t v) { uint8_t m[HDR + 1]; hdr(m, id, HDR + 1, SID, 1, 3); m[HDR] = v; push(m, HDR + 1); }
static void push_error(uint32_t id) { uint8_t m[HDR + 8]; hdr(m, 0, HDR + 8, 0, 2, 2); put32(m + HDR, id); put32(m + HDR + 4, 2); push(m, HDR + 8); }
static int events;
static void on_event(gracht_client_t* c, gracht_buffer_t* b) { (void)c; (void)b; events++; }
static gracht_protocol_function_t fns[1] = { { 1, on_event } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 1, fns);
static void push_event(void) { uint8_t m[HDR]; hdr(m, 0, HDR, SID, 1, 2); push(m, HDR); }
/* the result of call i, asked for now */
static void ask(int i) {
    gracht_buffer_t b;
    memset(&b, 0, sizeof(b));
    int st = gracht_client_get_status_buffer(client, &ctx[i], &b);
    if (state[i] == 0) { VP_ASSERT(st == GRACHT_MESSAGE_INPROGRESS, "a call without an answer is in progress"); VP_WITNESS("asked while in progress"); }
    else if (state[i] == 1) {
        VP_ASSERT(st == GRACHT_MESSAGE_COMPLETED, "a call that was answered is completed");
        VP_ASSERT(VP_OK(b.data + b.index, 1) && (uint8_t)b.data[b.index] == body[i], "the result of a call is its own response");
        VP_ASSERT(gracht_client_status_finalize(client, &b) == 0, "the result is released");
        state[i] = 2;
    } else if (state[i] == -1) { VP_ASSERT(st == GRACHT_MESSAGE_ERROR, "a call the server refused has failed"); state[i] = 2; VP_WITNESS("failed call"); }
    else VP_ASSERT(st == -1 && errno == ENOENT, "a result is handed out once");
}
#if MODE == 0
void vp_main(void) {
    int packet = (int)vp_pick(0, 1);
    cli_make(packet, 16);
    cli_connect();
    vp_send_fail_budget = 1;
    uint32_t used[OPS]; int n = 0, w = 0;
    for (int k = 0; k < OPS; k++) {
        struct gracht_message_context c = { 0xdeadbeef };
        uint8_t args[3] = { vp_u8(), vp_u8(), vp_u8() };
        int na = (int)vp_pick(0, 3), async = (int)vp_pick(0, 2);
        int before = vp_nsent, fails = vp_send_fail_budget;
        uint8_t aid = vp_u8();
        int st = call(async == 2 ? NULL : &c, SID, aid, (uint8_t)(async ? 1 : 0), args, na);
        VP_ASSERT(vp_mtx_total_held == 0, "the send buffer is available to the next call");
        if (fails != vp_send_fail_budget) { VP_ASSERT(st != 0, "a call that cannot be sent fails"); VP_WITNESS("a failing send");
            if (!async) { gracht_buffer_t b; VP_ASSERT(gracht_client_get_status_buffer(client, &c, &b) == -1, "a call that was not sent has no result"); }
            continue; }
        VP_ASSERT(st == 0 && vp_nsent == before + 1, "a call is one message");
        struct vp_sent* s = &vp_sents[before];
        VP_ASSERT(s->fd == fd && s->n == HDR + na && get32(s->data + 4) == (uint32_t)(HDR + na), "a request announces and has its own length");
        VP_ASSERT(s->data[8] == SID && s->data[9] == aid && (s->data[10] & 3) == (async ? 1 : 0), "a request names service, function and kind");
        for (int i = 0; i < na; i++) VP_ASSERT(s->data[HDR + i] == args[i], "a request carries its arguments");
        uint32_t id = get32(s->data);
        if (async != 2) VP_ASSERT(c.message_id == id, "the caller holds the id of its request");
        for (int i = 0; i < n; i++) VP_ASSERT(used[i] != id, "no two requests share an id");
        used[n++] = id;
        if (!async) { gracht_buffer_t b; VP_ASSERT(gracht_client_get_status_buffer(client, &c, &b) == GRACHT_MESSAGE_INPROGRESS, "a call that was sent is in progress"); w++; }
    }
    VP_WITNESS_IF(w == OPS, "all calls with a result");
    gracht_buffer_t b;
    VP_ASSERT(gracht_client_get_buffer(client, &b) == 0, "the send buffer is available");
    hdr((uint8_t*)b.data, 0, 0, SID, 1, 0); b.index = HDR;
    int before = vp_nsent;
    VP_ASSERT(gracht_client_invoke(client, NULL, &b) == -1 && vp_nsent == before, "a call with a result needs a context");
    cli_end();
}
#elif MODE == 4
#ifndef ROUNDS
#define ROUNDS 300
#endif
#define SLOTS (ROUNDS * 2 + 1)
static uint32_t used[SLOTS]; static uint8_t full[SLOTS];
static uint32_t ids[4]; static int calls;
void vp_main(void) {
    int packet = (int)vp_pick(0, 1);
    uint8_t args[MAXMSG]; memset(args, 0x33, sizeof(args));
    cli_make(packet, 16);
    cli_connect();
    args[0] = vp_u8(); args[MAXMSG - HDR - 1] = vp_u8();
    for (int k = 0; k < ROUNDS; k++) {
        struct gracht_message_context c = { 0 };
        int n = k == ROUNDS - 1 ? MAXMSG - HDR : 1;
        vp_nsent = 0;
        VP_ASSERT(call(&c, SID, 1, 0, args, n) == 0 && vp_nsent == 1, "a call is one message");
        struct vp_sent* s = &vp_sents[0];
        VP_ASSERT(s->n == HDR + n && get32(s->data + 4) == (uint32_t)(HDR + n) && s->data[HDR] == args[0] && s->data[HDR + n - 1] == args[n - 1], "a request announces its length and carries its arguments");
        uint32_t id = get32(s->data), h = id % SLOTS;
        VP_ASSERT(c.message_id == id, "the caller holds the id of its request");
        for (; full[h]; h = (h + 1) % SLOTS) VP_ASSERT(used[h] != id, "no two requests share an id");
        full[h] = 1; used[h] = id;
        /* numbers that agree in their lower 8 or 16 bits, if they are counted */
        if (k == 0 || k == 256 || k == 65536 || k == ROUNDS / 2) ids[calls++] = id;
    }
    int hit = (int)vp_pick(0, (uint32_t)calls - 1);
    int err = (int)vp_bool();
    if (err) push_error(ids[hit]); else push_response(ids[hit], args[0]);
    if (packet) { static const uint8_t from[16]; vp_dgram_data(fd, in, tail, from, 16); }
    VP_ASSERT(gracht_client_wait_message(client, NULL, 0) == 0, "the answer is received");
    for (int i = 0; i < calls; i++) {
        struct gracht_message_context c = { ids[i] }; gracht_buffer_t b; memset(&b, 0, sizeof(b));
        int st = gracht_client_get_status_buffer(client, &c, &b);
        VP_ASSERT((st == GRACHT_MESSAGE_INPROGRESS) == (i != hit) && (i == hit || st != -1), "exactly the call that was answered has a result");
        if (i == hit) VP_ASSERT(st == (err ? GRACHT_MESSAGE_ERROR : GRACHT_MESSAGE_COMPLETED), "the call has the outcome it was answered with");
        if (st == GRACHT_MESSAGE_COMPLETED) { VP_ASSERT((uint8_t)b.data[b.index] == args[0], "the result of a call is its own response"); gracht_client_status_finalize(client, &b); }
    }
    VP_WITNESS_IF(packet, "datagrams"); VP_WITNESS_IF(!packet, "a stream");
    cli_end();
}
#elif MODE == 5
/* services of a client: registered, replaced and removed in any order; then any event arrives */
static int ran, which; static uint8_t seen;
#define H(n) static void h##n(gracht_client_t* c, gracht_buffer_t* b) { VP_ASSERT(c == client, "the handler is told whose event it is"); ran++; which = n; seen = (uint8_t)b->data[b->index]; }
H(0) H(1) H(2) H(3) H(4)
static gracht_protocol_function_t fa[2] = { { 4, h0 }, { 1, h1 } }, fb[2] = { { 1, h2 }, { 200, h3 } }, fc[1] = { { 1, h4 } };
static gracht_protocol_t ps[3] = { GRACHT_PROTOCOL_INIT(3, "a", 2, fa), GRACHT_PROTOCOL_INIT(19, "b", 2, fb), GRACHT_PROTOCOL_INIT(3, "c", 1, fc) };
void vp_main(void) {
    int at[2] = { -1, -1 };   /* what is registered as 3 and as 19 */
    cli_make(0, 16);
    for (int k = 0; k < OPS; k++) {
        int p = (int)vp_pick(0, 2), slot = p == 1;
        if (k == OPS - 1) cli_connect();
        if (vp_bool()) { VP_ASSERT(gracht_client_register_protocol(client, &ps[p]) == 0, "a service is registered"); at[slot] = p; }
        else { gracht_client_unregister_protocol(client, &ps[p]); at[slot] = -1; }
    }
    VP_ASSERT(gracht_client_register_protocol(client, NULL) == -1, "no service: refused");
    uint8_t m[HDR + 1], sid = vp_u8(), aid = vp_u8();
    VP_ASSUME(sid != 0);
    hdr(m, vp_u32(), HDR + 1, sid, aid, 2); m[HDR] = vp_u8();
    push(m, HDR + 1);
    gracht_client_wait_message(client, NULL, 0);
    VP_ASSERT(VPFD(fd).in_pos == tail, "the event is received");
    int want = -1;
    for (int s = 0; s < 2; s++) if (at[s] >= 0 && ps[at[s]].id == sid)
        for (int f = 0; f < ps[at[s]].num_functions; f++) if (ps[at[s]].functions[f].id == aid) want = at[s] == 2 ? 4 : at[s] * 2 + f;
    if (want < 0) VP_ASSERT(ran == 0, "nothing runs for an event nobody handles");
    else { VP_ASSERT(ran == 1 && which == want && seen == m[HDR], "exactly the registered handler of the event runs, once"); VP_WITNESS_IF(want == 4, "replaced"); VP_WITNESS_IF(want == 3, "executed"); }
    VP_WITNESS_IF(want < 0 && (sid == 3 || sid == 19), "nobody handles it");
    /* the control service is served whatever else is registered */
    struct gracht_message_context c; gracht_buffer_t b;
    VP_ASSERT(call(&c, SID, 1, 0, NULL, 0) == 0, "a call is sent");
    push_error(c.message_id);
    VP_ASSERT(gracht_client_wait_message(client, NULL, 0) == 0 && gracht_client_get_status_buffer(client, &c, &b) == GRACHT_MESSAGE_ERROR, "an error is received");
    cli_end();
}
#elif MODE == 1
void vp_main(void) {
    cli_make(0, 16);
    VP_ASSERT(gracht_client_register_protocol(client, &proto) == 0, "service registered");
    cli_connect();
    for (int i = 0; i < NC; i++) { VP_ASSERT(call(&ctx[i], SID, 1, 0, NULL, 0) == 0, "a call is sent"); }
    int wire[NC], nev = 0;
    for (int i = 0; i < NC; i++) wire[i] = 0;
    for (int k = 0; k < OPS; k++) {
        int what = (int)vp_pick(0, 5);
        int i = what < 4 ? (int)vp_pick(0, NC - 1) : 0;
        if (what == 0) { ask(i); VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards"); continue; }
        if (what == 1) { /* the response of call i, or a second one */
            uint8_t v = vp_u8();
            if (state[i] == 0) body[i] = v;
            push_response(ctx[i].message_id, v);
            if (state[i] == 0) state[i] = 1;
            else VP_WITNESS("a second response");
        } else if (what == 2) { push_error(ctx[i].message_id); if (state[i] == 0) state[i] = -1; }
        else if (what == 3) { /* wait for call i specifically, an event arrives first */
            if (state[i] == 2) { VP_ASSERT(gracht_client_wait_message(client, &ctx[i], 0) == -1 && errno == ENOENT, "a call that is over cannot be waited for"); continue; }
            if (state[i] != 0) { VP_ASSERT(gracht_client_wait_message(client, &ctx[i], 0) == 0, "waiting for an answered call returns at once"); continue; }
            push_event();
            if (vp_bool()) { push_response(ctx[i].message_id, body[i] = vp_u8()); state[i] = 1; }
            int st = gracht_client_wait_message(client, &ctx[i], 0);
            VP_ASSERT((st == 0) == (state[i] == 1), "waiting for a call returns when that call is answered");
            nev++;
            VP_ASSERT(events == nev, "events are handled meanwhile");
            continue;
        } else if (what == 4) push_response(0x12345, 1);
        else { push_event(); nev++; }
        while (VPFD(fd).in_pos < tail) {
            int st = gracht_client_wait_message(client, NULL, 0);
            if (st) { VP_ASSERT(VPFD(fd).in_pos == tail && errno == EAGAIN, "messages are received"); break; }
        }
        VP_ASSERT(events == nev, "every event is handled once");
        VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
    }
    for (int i = 0; i < NC; i++) ask(i);
    cli_end();
}
#elif MODE == 3
#ifndef ROUNDS
#define ROUNDS 12
#endif
void vp_main(void) {
    cli_make(0, 16);
    VP_ASSERT(gracht_client_register_protocol(client, &proto) == 0, "service registered");
    cli_connect();
    int kind = (int)vp_pick(0, 5), len = (int)vp_pick(0, MAXMSG - HDR), nev = 0, how = (int)vp_pick(0, 1);
    int base = 0;
    for (int r = 0; r < ROUNDS; r++) {
        vp_nsent = 0; tail = 0; vp_stream_data(fd, in, 0, 0); state[0] = 0;
        VP_ASSERT(call(&ctx[0], SID, 1, 0, NULL, 0) == 0, "a call is sent");
        uint8_t m[MAXMSG]; memset(m, 0x5a, sizeof(m));
        hdr(m, ctx[0].message_id, (uint32_t)(HDR + len), SID, 1, 3);
        body[0] = m[HDR] = vp_u8();
        if (kind == 2) push_response(0x12345, 1);
        if (kind == 3) { push_event(); nev++; }
        if (kind == 1) push_error(ctx[0].message_id); else push(m, HDR + len);
        if (kind == 4) push(m, HDR + len);      /* the server answers twice */
        if (kind == 5) push_error(ctx[0].message_id);
        for (int k = 0; VPFD(fd).in_pos < tail && k < 4; k++) {
            int st = gracht_client_wait_message(client, how && !k ? &ctx[0] : NULL, 0);
            if (st) VP_ASSERT(VPFD(fd).in_pos == tail && errno == EAGAIN, "messages are received, however many came before");
        }
        VP_ASSERT(VPFD(fd).in_pos == tail, "every message is received");
        gracht_buffer_t b; memset(&b, 0, sizeof(b));
        int st = gracht_client_get_status_buffer(client, &ctx[0], &b);
        VP_ASSERT(st == (kind == 1 ? GRACHT_MESSAGE_ERROR : GRACHT_MESSAGE_COMPLETED), "every call gets its result, however many came before");
        if (kind != 1) {
            if (len) VP_ASSERT(VP_OK(b.data + b.index, (size_t)len) && (uint8_t)b.data[b.index] == body[0], "the result of a call is its own response");
            b.index += len;                     /* the generated code reads the values */
            VP_ASSERT(gracht_client_status_finalize(client, &b) == 0, "the result is released");
        }
        VP_ASSERT(events == nev, "every event is handled once");
        VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
        if (r == 3) base = vp_live_allocs;
        if (r > 3) VP_ASSERT(vp_live_allocs == base, "nothing is kept of calls that are over");
    }
    VP_WITNESS("all rounds");
    cli_end();
}
#else
static int order[NC], nsent_resp, broken = -1, pushed;
static int kind_of[NC];
/* called when the client waits for data that is not there */
static int more(int f) {
    (void)f;
    if (pushed == broken || pushed >= NC) { VPFD(fd).eof = 1; return 0; }
    int i = order[pushed++];
    if (kind_of[i] == 1) { push_error(ctx[i].message_id); state[i] = -1; }
    else { if (kind_of[i] == 2) push_event(); push_response(ctx[i].message_id, body[i]); state[i] = 1; }
    return 1;
}
void vp_main(void) {
    cli_make(0, 16);
    VP_ASSERT(gracht_client_register_protocol(client, &proto) == 0, "service registered");
    cli_connect();
    struct gracht_message_context* list[NC];
    for (int i = 0; i < NC; i++) { VP_ASSERT(call(&ctx[i], SID, 1, 0, NULL, 0) == 0, "a call is sent"); list[i] = &ctx[i]; body[i] = NC > 4 && i ? (uint8_t)(i * 7) : vp_u8(); }
#if NC > 4   /* in turn from any of them on, all alike but the first */
    int first = (int)VP_CONCRETE(vp_pick(0, NC - 1)), step = VP_CONCRETE(vp_bool()) ? 1 : NC - 1, kind = (int)VP_CONCRETE(vp_pick(0, 2));
    for (int i = 0; i < NC; i++) { order[i] = (first + i * step) % NC; kind_of[order[i]] = i ? kind : (int)VP_CONCRETE(vp_pick(0, 1)); }
#else
    for (int i = 0; i < NC; i++) kind_of[i] = (int)vp_pick(0, 2);
    for (int i = 0; i < NC; i++) { order[i] = (int)vp_pick(0, NC - 1); for (int j = 0; j < i; j++) VP_ASSUME(order[i] != order[j]); }
#endif
    broken = (int)VP_CONCRETE(vp_pick(0, NC));
#if NC > 4
    VP_ASSUME(broken <= 1 || broken == NC / 2 || broken >= NC - 1);
#endif
    /* the connection breaks after that many answers (NC: never) */
    int early = (int)vp_pick(0, 1);
    if (early && broken > 0) { more(fd); while (VPFD(fd).in_pos < tail) gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK); if (vp_bool()) { ask(order[0]); VP_WITNESS("fetched before"); } }
    vp_recv_idle = more;
    int all = (int)vp_pick(0, 1);
    VP_ASSERT(gracht_client_await_multiple(client, NULL, NC, 0) == -1 && gracht_client_await_multiple(client, list, 0, 0) == -1, "awaiting nothing is refused");
    int st = NC == 1 ? gracht_client_await(client, list[0], all ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY)
                     : gracht_client_await_multiple(client, list, NC, all ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY);
    int done = 0;
    for (int i = 0; i < NC; i++) done += state[i] != 0;
    if (st == 0) {
        if (all) VP_ASSERT(done == NC, "awaiting all calls returns when all of them are answered");
        else VP_ASSERT(done >= 1, "awaiting any call returns when one of them is answered");
        VP_WITNESS("awaited");
    } else {
        VP_ASSERT(broken < NC, "awaiting fails only if the connection breaks");
        VP_ASSERT(all ? done < NC : done == 0, "a broken connection does not undo an answer");
        VP_WITNESS("connection broke");
    }
    if (all ? broken == NC : broken > 0) VP_ASSERT(st == 0, "an await whose answers arrive succeeds");
    if (!all) VP_ASSERT(pushed <= 1, "awaiting any call does not wait for the others");
    for (int i = 0; i < NC; i++) ask(i);
    cli_end();
}
#endif
