/* Responses: two clients call, the service answers at once or later, clients may leave. */
#include "srvlib.h"
#ifndef REUSE
#define REUSE 0
#endif
#ifndef LEAVE
#define LEAVE 1
#endif
#ifndef PAD
#define PAD 0      /* further bytes of every request */
#endif
#define SID 7
#define NR (3 + REUSE)
static int cfd[3]; static uint32_t ids[NR]; static int from[NR] = { 0, 1, 0 };
static uint8_t msg[NR][HDR + 1 + PAD], body[NR];
static struct gracht_message* kept[NR]; static int defer[NR], seen, answered[NR], left[3];
static void answer(struct gracht_message* m, int r) {
    gracht_buffer_t b;
    int before = vp_nsent;
    VP_ASSERT(gracht_server_get_buffer(server, &b) == 0, "a buffer for the response");
    hdr((uint8_t*)b.data, 0x55555555, 0x66666666, SID, (uint8_t)(r + 1), 3);
    b.data[HDR] = (char)(body[r] ^ 0x5a); b.data[HDR + 1] = (char)r;
    b.index = HDR + 2;
    int st = gracht_server_respond(m, &b);
    answered[r]++;
    if (left[from[r]]) {
        VP_ASSERT(st != 0, "a response to a client that left is reported as failed");
        VP_ASSERT(vp_nsent == before, "a response is never delivered to another client");
#if LEAVE || REUSE
        VP_WITNESS("a response to a client that left");
#endif
        return;
    }
    VP_ASSERT(st == 0 && vp_nsent == before + 1, "the response is sent once");
    struct vp_sent* s = &vp_sents[before];
    VP_ASSERT(s->fd == cfd[from[r]], "the response goes to the client that called, and to no other");
    VP_ASSERT(get32(s->data) == ids[r], "the response carries the id of its request");
    VP_ASSERT(get32(s->data + 4) == HDR + 2 && s->n == HDR + 2, "the response announces and has its own length");
    VP_ASSERT(s->data[8] == SID && s->data[9] == r + 1 && s->data[10] == 3 && s->data[HDR] == (body[r] ^ 0x5a) && s->data[HDR + 1] == r, "the response has the content the service wrote");
}
static void handler(struct gracht_message* m, gracht_buffer_t* b) {
    int r = b->data[b->index - 2] - 1;
    VP_ASSERT(r >= 0 && r < NR, "a request");
    seen++;
    VP_ASSERT(m->client == cfd[from[r]] && (uint8_t)b->data[b->index] == body[r], "the handler sees caller and content");
    if (defer[r]) {
        size_t n = VP_CONCRETE(GRACHT_MESSAGE_DEFERRABLE_SIZE(m));
        VP_ASSERT(n >= sizeof(struct gracht_message) + HDR + 1 + PAD && n <= MAXMSG + 512, "the space for a deferred message covers it");
        kept[r] = (struct gracht_message*)vp_malloc(n);
        gracht_server_defer_message(m, kept[r]);
        VP_ASSERT(kept[r]->payload[m->index + HDR] == m->payload[m->index + HDR] && (!PAD || kept[r]->payload[m->index + HDR + PAD] == (uint8_t)(r + 7)), "a deferred request keeps its content");
        VP_WITNESS("deferred");
    } else answer(m, r);
}
static gracht_protocol_function_t fns[4] = { { 1, handler }, { 2, handler }, { 3, handler }, { 4, handler } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 4, fns);
static void request(int r) {
    ids[r] = vp_u32(); body[r] = vp_u8();
    defer[r] = vp_bool();
    hdr(msg[r], ids[r], HDR + 1 + PAD, SID, (uint8_t)(r + 1), 0);
    if (PAD) msg[r][HDR + PAD] = (uint8_t)(r + 7);
    msg[r][HDR] = body[r];
    vp_stream_data(cfd[from[r]], msg[r], HDR + 1 + PAD, 0);
    gracht_server_handle_event(server, cfd[from[r]], EPOLLIN);
    VP_ASSERT(seen == r + 1, "every request is executed");
}
void vp_main(void) {
    vp_send_full_budget = 1; vp_pending_accepts = 300;
    srv_create(1, 1);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    int lfd = srv_addlink(0, 16);
    for (int i = 0; i < 2; i++) cfd[i] = srv_connect(lfd);
    for (int r = 0; r < 3; r++) request(r);
#if LEAVE
    if (vp_bool()) { gracht_server_handle_event(server, cfd[0], EPOLLRDHUP); left[0] = 1; }
#endif
#if REUSE
    /* a client leaves, another one connects, may get its descriptor, and calls as well */
    int who = (int)vp_bool();
    gracht_server_handle_event(server, cfd[who], EPOLLRDHUP); left[who] = 1;
    cfd[2] = srv_connect(lfd);
#ifdef TIMES  /* many clients come and go in its place before that */
    int times = (int)VP_CONCRETE(vp_pick(0, 12));
    times = times < 8 ? times : times == 8 ? 15 : times == 9 ? 31 : times == 10 ? 127 : times == 11 ? 254 : 255;
    for (int k = 0; k < times; k++) { gracht_server_handle_event(server, cfd[2], EPOLLRDHUP); cfd[2] = srv_connect(lfd); }
    VP_WITNESS_IF(times == 255 && cfd[2] == cfd[who], "the descriptor is reused by many clients");
#endif
    VP_WITNESS_IF(cfd[2] == cfd[who], "the descriptor of a departed client is reused");
    from[3] = 2;
    request(3);
#endif
    /* the deferred ones in any order */
    for (int k = 0; k < NR; k++) {
        int n = 0; for (int r = 0; r < NR; r++) n += kept[r] != NULL;
        if (!n) break;
        int r = (int)vp_pick(0, NR - 1);
        VP_ASSUME(kept[r] != NULL);
        answer(kept[r], r);
        vp_free(kept[r]); kept[r] = NULL;
        VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
    }
    for (int r = 0; r < NR; r++) VP_ASSERT(answered[r] == 1, "every request is answered once");
    /* the identity of a deferred message is still that of its caller: events can be addressed with it */
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0, "no response buffer is lost");
}
