/* A server with two workers on the socket world.
 * MODE 0: K messages of any content; every one is handled once, its content stays what it was
 *         while handlers run and more is received, responses are correct; then shutdown.
 * MODE 1: shutdown while messages are queued or running.
 * MODE 2: creation while thread creation may fail.
 * MODE 3: more messages than the queues hold, twice, so that receive memory has to be reused;
 *         the kind of message is chosen.
 * MODE 4: a worker answers, broadcasts or sends an event while the orchestrator serves the
 *         other ends: a client leaves, connects, subscribes, unsubscribes.
 * MODE 8: subscriptions and broadcasts of the orchestrator while workers work.
 * MODE 9: two messages as large as receive memory for one.
 * MODE 7: two workers respond, broadcast, send an event or register a service at the same time.
 * MODE 6: datagrams, answered by workers at once or later, while a client (un)subscribes.
 * MODE 5: a handler on a worker requests shutdown while the orchestrator serves events. */
#include "srvlib.h"
#include <threads.h>
#ifndef MODE
#define MODE 0
#endif
#ifndef K
#define K 2
#endif
#ifndef WORKERS
#define WORKERS 2
#endif
#ifndef TWICE
#define TWICE 0
#endif
#define SID 7
#define PL 5
static uint8_t msgs[K * (HDR + PL)];
static int handled[K + 1], total, busy, lfd, c1, overlap, shut;
static void respond(struct gracht_message* m, int i, uint8_t v) {
    gracht_buffer_t b;
    VP_ASSERT(gracht_server_get_buffer(server, &b) == 0, "a buffer for the response");
    hdr((uint8_t*)b.data, 0, 0, SID, 1, 3);
    b.data[HDR] = (char)v; b.data[HDR + 1] = (char)i; b.index = HDR + 2;
    VP_ASSERT(gracht_server_respond(m, &b) == 0, "the response is sent");
}
static int intact(struct gracht_message* m, gracht_buffer_t* b, int i) {
    vp_touch(b->data + b->index - HDR, HDR + PL, 0);
    return memcmp(b->data + b->index - HDR, msgs + i * (HDR + PL), HDR + PL) == 0 && m->client == c1;
}
static void handler(struct gracht_message* m, gracht_buffer_t* b) {
    int i = (int)VP_CONCRETE((uint8_t)b->data[b->index]);
    VP_ASSERT(i < K, "the handler sees a message that was sent");
    VP_ASSERT(!shut, "no handler runs after shutdown");
    handled[i]++; total++;
    VP_ASSERT(handled[i] == 1, "every message is handled once");
    if (++busy > 1) overlap = 1;
    VP_ASSERT(intact(m, b, i), "the handler sees the message as it was sent");
    vp_sched();
    if (MODE == 0) respond(m, i, (uint8_t)b->data[b->index + 1]);
    VP_ASSERT(intact(m, b, i), "the message stays as it was until its handler returns");
    busy--;
    vp_wake(&total, 1);
}
static void plain(struct gracht_message* m, gracht_buffer_t* b) { (void)m; (void)b; total++; vp_wake(&total, 1); }
static gracht_protocol_function_t fns[2] = { { 1, handler }, { 2, plain } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 2, fns);
static void await_total(int n) { while (total < n) vp_block(&total); }
static void end(void) {
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    shut = 1;
    VP_ASSERT(vp_thrd_joined == vp_thrd_created, "shutdown leaves no worker running");
    VP_ASSERT(busy == 0, "shutdown interrupts no handler");
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
    VP_ASSERT(vp_mtx_total_held == 0 && vp_mtx_live == 0 && vp_cnd_live == 0, "shutdown destroys every lock");
}
static void start(void) {
    srv_create(WORKERS, 1);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    lfd = srv_addlink(0, 16);
    c1 = srv_connect(lfd);
}
#if MODE <= 1
static uint32_t ids[K]; static uint8_t val[K];
void vp_main(void) {
    vp_hold(1);
    start();
    for (int i = 0; i < K; i++) {
        uint8_t* p = msgs + i * (HDR + PL);
        ids[i] = vp_u32(); val[i] = vp_u8();
        hdr(p, ids[i], HDR + PL, SID, 1, 0);
        p[HDR] = (uint8_t)i; p[HDR + 1] = val[i];
        for (int k = 2; k < PL; k++) p[HDR + k] = vp_u8();
    }
    vp_hold(0);
#ifdef SPURIOUS
    vp_spurious = SPURIOUS;
#endif
#if TWICE
    vp_stream_data(c1, msgs, HDR + PL, 0);
    gracht_server_handle_event(server, c1, EPOLLIN);
    VPFD(c1).in_len = K * (HDR + PL);
#else
    vp_stream_data(c1, msgs, K * (HDR + PL), 0);
#endif
    gracht_server_handle_event(server, c1, EPOLLIN);
#if MODE == 0
    await_total(K);
    end();
    for (int i = 0; i < K; i++) {
        VP_ASSERT(handled[i] == 1, "every message is handled once");
        int n = 0;
        for (int s = 0; s < vp_nsent; s++) if (vp_sents[s].data[HDR + 1] == i) {
            n++;
            VP_ASSERT(vp_sents[s].fd == c1 && vp_sents[s].n == HDR + 2 && get32(vp_sents[s].data) == ids[i] && get32(vp_sents[s].data + 4) == HDR + 2 && vp_sents[s].data[HDR] == val[i], "the response of a worker belongs to its request");
        }
        VP_ASSERT(n == 1 && vp_nsent == K, "every request is answered once");
    }
    VP_WITNESS("all handled");
    VP_WITNESS_IF(overlap || WORKERS > 4, "two handlers at the same time");
#else
    end();
    VP_WITNESS_IF(total < K, "queued messages at shutdown");
    VP_WITNESS_IF(total == K, "all handled before shutdown");
#endif
}
#elif MODE == 4
#ifndef OPS
#define OPS 1
#endif
static int c2, act, st_ = -2, gone1, gone2, moved2;
static uint8_t ctl[OPS][HDR + 1];
static void acting(struct gracht_message* m, gracht_buffer_t* b) {
    gracht_buffer_t o;
    VP_ASSERT(m->client == c1, "the handler sees the caller");
    VP_ASSERT(gracht_server_get_buffer(server, &o) == 0, "a buffer");
    hdr((uint8_t*)o.data, 0, 0, SID, 1, act == 0 ? 3 : 2); o.data[HDR] = b->data[b->index]; o.index = HDR + 1;
    if (act == 0) st_ = gracht_server_respond(m, &o);
    else if (act == 1) st_ = gracht_server_broadcast_event(server, &o, 0);
    else st_ = gracht_server_send_event(server, c2, &o, 0);
    total++; vp_wake(&total, 1);
}
void vp_main(void) {
    vp_hold(1);
    fns[0].address = (void*)acting;
    start();
    c2 = srv_connect(lfd);
    act = ACT;
    hdr(msgs, 9, HDR + 1, SID, 1, 0); msgs[HDR] = vp_u8();
    vp_stream_data(c1, msgs, HDR + 1, 0);
    vp_hold(0);
    gracht_server_handle_event(server, c1, EPOLLIN);
    for (int k = 0; k < OPS; k++) {
        switch (vp_pick(0, 3)) {
        case 0: VP_ASSUME(!gone1); gracht_server_handle_event(server, c1, EPOLLRDHUP); gone1 = 1; break;
        case 1: VP_ASSUME(!gone2); gracht_server_handle_event(server, c2, EPOLLRDHUP); gone2 = 1; break;
        case 2: VP_ASSUME(!gone1 && !gone2); srv_connect(lfd); break;
        default: {
            VP_ASSUME(!gone2);
            uint8_t* p = ctl[k]; int all = (int)vp_bool();
            hdr(p, 1, HDR + 1, 0, 1, 0); p[HDR] = all ? 0xff : SID;   /* unsubscribe, then subscribe again or not */
            if (moved2) p[9] = 0;
            moved2++;
            vp_stream_data(c2, p, HDR + 1, 0);
            gracht_server_handle_event(server, c2, EPOLLIN); break; }
        }
    }
    await_total(1);
    vp_hold(1); /* shutdown among the workers is the subject of MODE 0, 1 and 5 */
    int n1 = 0, n2 = 0, n = vp_nsent;
    for (int i = 0; i < n; i++) {
        struct vp_sent* s = &vp_sents[i];
        n1 += s->fd == c1; n2 += s->fd == c2;
        VP_ASSERT(s->n == HDR + 1 && s->data[HDR] == msgs[HDR] && get32(s->data + 4) == HDR + 1, "what is sent has the content the handler gave");
    }
    VP_ASSERT(n1 <= 1 && n2 <= 1, "nothing is sent twice");
    if (act == 0) {
        VP_ASSERT(n2 == 0 && n == n1, "a response reaches the caller only");
        VP_ASSERT((st_ == 0) == (n1 == 1), "a response is sent or reported as failed");
        if (!gone1) VP_ASSERT(n1 == 1, "a response reaches a caller that is connected");
#if ACT == 0
        VP_WITNESS_IF(gone1 && !n1, "the caller left first"); VP_WITNESS_IF(gone1 && n1, "the response left first");
#endif
    } else if (act == 1) {
        VP_ASSERT(st_ == 0, "a broadcast succeeds");
        if (!gone1) VP_ASSERT(n1 == 1, "a broadcast reaches every subscribed client");
        if (!gone2 && !moved2) VP_ASSERT(n2 == 1, "a broadcast reaches every subscribed client");
#if ACT == 1
        VP_WITNESS_IF(moved2 == 1 && !n2, "unsubscribed first"); VP_WITNESS_IF(moved2 == 1 && n2, "the broadcast left first");
#endif
    } else {
        VP_ASSERT(n1 == 0 && n == n2, "an event for one client reaches no other client");
        VP_ASSERT((st_ == 0) == (n2 == 1), "an event is sent or reported as failed");
        if (!gone2) VP_ASSERT(n2 == 1, "an event reaches a client that is connected");
#if ACT == 2
        VP_WITNESS_IF(gone2 && !n2, "the client left first"); VP_WITNESS_IF(gone2 && n2, "the event left first");
#endif
    }
    VP_ASSERT(n_disconnected == gone1 + gone2, "a disconnection is announced once");
    end();
}
#elif MODE == 7  /* two workers do the same at the same time: respond, broadcast, send an event, register a service */
static int c2, st7[2] = { -2, -2 }; static uint8_t val7[2]; static uint32_t id7[2];
static gracht_protocol_function_t fns9[1] = { { 1, plain } };
static gracht_protocol_t p9 = GRACHT_PROTOCOL_INIT(9, "n", 1, fns9);
static void acting(struct gracht_message* m, gracht_buffer_t* b) {
    gracht_buffer_t o; int i = (int)VP_CONCRETE((uint8_t)b->data[b->index]);
    VP_ASSERT(m->client == c1 && i < 2, "the handler sees the caller");
    if (++busy > 1) overlap = 1;
    if (ACT == 3) st7[i] = gracht_server_register_protocol(server, &p9);
    else {
        VP_ASSERT(gracht_server_get_buffer(server, &o) == 0, "a buffer");
        vp_touch(o.data, HDR + 2, 1);
        hdr((uint8_t*)o.data, 0, 0, SID, 1, ACT == 0 ? 3 : 2); o.data[HDR] = (char)i; o.data[HDR + 1] = b->data[b->index + 1]; o.index = HDR + 2;
        vp_sched();
        if (ACT == 0) st7[i] = gracht_server_respond(m, &o);
        else if (ACT == 1) st7[i] = gracht_server_broadcast_event(server, &o, 0);
        else st7[i] = gracht_server_send_event(server, c2, &o, 0);
    }
    busy--; total++; vp_wake(&total, 1);
}
void vp_main(void) {
    vp_hold(1);
    fns[0].address = (void*)acting;
    start();
    c2 = srv_connect(lfd);
    for (int i = 0; i < 2; i++) {
        uint8_t* p = msgs + i * (HDR + 2);
        id7[i] = vp_u32(); val7[i] = vp_u8();
        hdr(p, id7[i], HDR + 2, SID, 1, 0); p[HDR] = (uint8_t)i; p[HDR + 1] = val7[i];
    }
    vp_stream_data(c1, msgs, 2 * (HDR + 2), 0);
    vp_hold(0);
    gracht_server_handle_event(server, c1, EPOLLIN);
    await_total(2);
    vp_hold(1);
    VP_WITNESS_IF(overlap, "both at the same time");
    if (ACT == 3) VP_ASSERT((st7[0] == 0 && st7[1] == -1) || (st7[0] == -1 && st7[1] == 0), "a service is registered once");
    else for (int i = 0; i < 2; i++) {
        int n1 = 0, n2 = 0;
        VP_ASSERT(st7[i] == 0, "what a worker sends is sent");
        for (int k = 0; k < vp_nsent; k++) if (vp_sents[k].data[HDR] == i) {
            n1 += vp_sents[k].fd == c1; n2 += vp_sents[k].fd == c2;
            VP_ASSERT(vp_sents[k].n == HDR + 2 && get32(vp_sents[k].data + 4) == HDR + 2 && vp_sents[k].data[HDR + 1] == val7[i], "what is sent has the content the handler gave");
            if (ACT == 0) VP_ASSERT(get32(vp_sents[k].data) == id7[i], "a response carries the id of its request");
        }
        VP_ASSERT(n1 == (ACT == 2 ? 0 : 1) && n2 == (ACT == 0 ? 0 : 1), "what a worker sends reaches those it is for, once");
    }
    VP_ASSERT(vp_nsent == (ACT == 1 ? 4 : ACT == 3 ? 0 : 2), "nothing else is sent");
    if (ACT == 3) {
        vp_stream_data(c2, msgs, HDR + 2, 0); msgs[8] = 9;
        gracht_server_handle_event(server, c2, EPOLLIN);
        vp_hold(0); await_total(3); vp_hold(1);
    }
    end();
}
#elif MODE == 8  /* (un)subscriptions of clients take effect in the order in which the server receives them */
static int c2;
static uint8_t ctl[3][HDR + 1];
void vp_main(void) {
    vp_hold(1);
    start();
    c2 = srv_connect(lfd);
    int sub = 1;
    fns[0].address = (void*)plain;
    hdr(msgs, 9, HDR + 1, SID, 1, 0);
    vp_hold(0);
    for (int k = 0; k < 2; k++) {
        uint8_t* p = ctl[k]; int all = (int)vp_bool(), un = (int)vp_bool();
        hdr(p, 1, HDR + 1, 0, (uint8_t)un, 0); p[HDR] = all ? 0xff : SID;
        vp_stream_data(c2, p, HDR + 1, 0);
        gracht_server_handle_event(server, c2, EPOLLIN);
        sub = !un;
        if (k == 0 && vp_bool()) { vp_stream_data(c1, msgs, HDR + 1, 0); gracht_server_handle_event(server, c1, EPOLLIN); }
        gracht_buffer_t o; int n = vp_nsent, to1 = 0, to2 = 0;
        VP_ASSERT(gracht_server_get_buffer(server, &o) == 0, "a buffer");
        hdr((uint8_t*)o.data, 0, 0, SID, 1, 2); o.data[HDR] = (char)k; o.index = HDR + 1;
        VP_ASSERT(gracht_server_broadcast_event(server, &o, 0) == 0, "a broadcast succeeds");
        for (; n < vp_nsent; n++) if (vp_sents[n].data[HDR] == k) { to1 += vp_sents[n].fd == c1; to2 += vp_sents[n].fd == c2; }
        VP_ASSERT(to1 == 1, "a broadcast reaches every subscribed client");
        VP_ASSERT(to2 == sub, "a broadcast reaches exactly those that are subscribed when it is sent");
        VP_WITNESS_IF(k && !sub, "unsubscribed");
    }
    vp_hold(1);
    end();
}
#elif MODE == 9  /* messages that fill the receive memory of one exactly, or nearly */
static uint8_t big[2][MAXMSG + 600]; static int len9, seen9[2];
static void filling(struct gracht_message* m, gracht_buffer_t* b) {
    int i = (int)VP_CONCRETE((uint8_t)b->data[b->index]);
    VP_ASSERT(i < 2 && m->client == c1, "the handler sees the caller");
    if (++busy > 1) overlap = 1;
    vp_touch(b->data + b->index - HDR, len9, 0);
    VP_ASSERT(memcmp(b->data + b->index - HDR, big[i], len9) == 0, "the handler sees the message as it was sent");
    vp_sched();
    vp_touch(b->data + b->index - HDR, len9, 0);
    VP_ASSERT(memcmp(b->data + b->index - HDR, big[i], len9) == 0, "the message stays as it was until its handler returns");
    busy--; seen9[i]++; total++; vp_wake(&total, 1);
}
void vp_main(void) {
    vp_hold(1);
    fns[0].address = (void*)filling;
    start();
    len9 = MAXMSG + 512 - (int)sizeof(struct gracht_message) - (int)VP_CONCRETE(vp_pick(0, 2)) + 1;
    for (int i = 0; i < 2; i++) {
        for (int k = HDR; k < len9; k++) big[i][k] = (uint8_t)(k * 7 + i);
        hdr(big[i], 9, (uint32_t)len9, SID, 1, 0); big[i][HDR] = (uint8_t)i; big[i][len9 - 1] = vp_u8();
    }
    vp_hold(0);
    for (int i = 0; i < 2 && !n_disconnected; i++) {
        vp_stream_data(c1, big[i], len9, 0);
        gracht_server_handle_event(server, c1, EPOLLIN);
    }
    if (!n_disconnected) await_total(2);
    vp_hold(1);
    VP_ASSERT(n_disconnected ? total == 0 : seen9[0] == 1 && seen9[1] == 1, "every message is handled once");
    VP_WITNESS_IF(overlap || n_disconnected, "two messages of the largest size at the same time");
    end();
}
#elif MODE == 6  /* datagrams: workers answer at the address of the sender while more are received */
#ifndef SUBS
#define SUBS 0
#endif
static uint8_t dg[K + 1][HDR + 2], addr[K + 1][16]; static uint32_t ids[K]; static int defer[K]; static struct gracht_message* kept[K];
static int at(const struct vp_sent* s, int i) { if (s->fd != lfd || !s->has_addr || s->alen != 16) return 0; for (int k = 0; k < 16; k++) if (s->addr[k] != addr[i][k]) return 0; return 1; }
static void dhandler(struct gracht_message* m, gracht_buffer_t* b) {
    int i = (int)VP_CONCRETE((uint8_t)b->data[b->index]);
    VP_ASSERT(i < K, "the handler sees a message that was sent");
    handled[i]++; total++;
    vp_touch(b->data + b->index - HDR, HDR + 2, 0);
    VP_ASSERT(memcmp(b->data + b->index - HDR, dg[i], HDR + 2) == 0, "the handler sees the message as it was sent");
    if (++busy > 1) overlap = 1;
    if (defer[i]) {
        size_t n = GRACHT_MESSAGE_DEFERRABLE_SIZE(m);
        kept[i] = (struct gracht_message*)vp_malloc(VP_CONCRETE(n));
        gracht_server_defer_message(m, kept[i]);
    } else respond(m, i, (uint8_t)b->data[b->index + 1]);
    busy--;
    vp_release(&total);
    vp_wake(&total, 1);
}
void vp_main(void) {
    vp_hold(1);
    fns[0].address = (void*)dhandler;
    srv_create(WORKERS, 1);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    lfd = srv_addlink(1, 16);
    for (int i = 0; i < K; i++) {
        for (int k = 0; k < 16; k++) addr[i][k] = (uint8_t)(0x11 + 0x31 * i + k);
        ids[i] = vp_u32();
        hdr(dg[i], ids[i], HDR + 2, SID, 1, 0); dg[i][HDR] = (uint8_t)i; dg[i][HDR + 1] = vp_u8();
        defer[i] = vp_bool();
    }
    hdr(dg[K], 3, HDR + 1, 0, 0, 1); dg[K][HDR] = SID; memcpy(addr[K], addr[0], 16);
    if (SUBS) { vp_dgram_data(lfd, dg[K], HDR + 1, addr[K], 16); gracht_server_handle_event(server, lfd, EPOLLIN); VP_ASSERT(n_connected == 1, "a subscribing datagram client is announced"); }
    vp_hold(0);
    int once = (int)vp_bool();
    for (int i = 0; i < K; i++) {
        vp_dgram_data(lfd, dg[i], HDR + 2, addr[i], 16);
        if (!once || i == K - 1) gracht_server_handle_event(server, lfd, EPOLLIN);
    }
    if (SUBS) { static uint8_t bye[HDR + 1]; hdr(bye, 4, HDR + 1, 0, 1, 1); bye[HDR] = 0xFF; vp_dgram_data(lfd, bye, HDR + 1, addr[0], 16); gracht_server_handle_event(server, lfd, EPOLLIN); VP_ASSERT(n_disconnected == 1, "a datagram client that unsubscribes from everything is gone"); }
    await_total(K);
    while (busy) vp_block(&total);
    vp_acquire(&total);
    vp_hold(1);
    for (int i = 0; i < K; i++) if (defer[i]) { respond(kept[i], i, dg[i][HDR + 1]); vp_free(kept[i]); }
    for (int i = 0; i < K; i++) {
        VP_ASSERT(handled[i] == 1, "every message is handled once");
        int n = 0;
        for (int s = 0; s < vp_nsent; s++) if (vp_sents[s].data[HDR + 1] == i) {
            n++;
            VP_ASSERT(vp_sents[s].n == HDR + 2 && get32(vp_sents[s].data) == ids[i] && get32(vp_sents[s].data + 4) == HDR + 2 && vp_sents[s].data[HDR] == dg[i][HDR + 1], "the response of a worker belongs to its request");
            VP_ASSERT(at(&vp_sents[s], i), "a response goes to the address its request came from");
        }
        VP_ASSERT(n == 1 && vp_nsent == K, "every request is answered once");
    }
    VP_WITNESS_IF(overlap, "two handlers at the same time");
    end();
}
#elif MODE == 5
static int stopped;
static void stopper(struct gracht_message* m, gracht_buffer_t* b) {
    VP_ASSERT(!shut, "no handler runs after shutdown");
    busy++; VP_ASSERT(m->client == c1 && m->server == server && b, "the handler sees the caller");
    gracht_server_request_shutdown(m->server);
    stopped = 1; busy--; total++; vp_wake(&total, 1);
}
void vp_main(void) {
    static uint8_t more[HDR + 1];
    vp_hold(1);
    fns[0].address = (void*)stopper;
    start();
    int c2 = srv_connect(lfd);
    hdr(msgs, 9, HDR + 1, SID, 1, 0); msgs[HDR] = vp_u8();
    hdr(more, 9, HDR + 1, SID, 2, 0);
    vp_stream_data(c1, msgs, HDR + 1, 0);
    vp_stream_data(c2, more, HDR + 1, 0);
    vp_hold(0);
    VP_ASSERT(gracht_server_handle_event(server, c1, EPOLLIN) == 0, "the event is handled");
    int st = gracht_server_handle_event(server, c2, EPOLLIN);
    if (st) VP_ASSERT(stopped, "the server stops when told only");
    else {
        while (!stopped) vp_block(&total);
        errno = 0;
        st = gracht_server_handle_event(server, lfd, EPOLLIN);
        VP_ASSERT(st == -1 && errno == EPIPE, "a server that was told to stop stops at the next event");
        VP_WITNESS("stopped at the event after next");
    }
    VP_WITNESS_IF(total == 2, "both handled"); VP_WITNESS_IF(total == 1, "one dropped");
    shut = 1;
    VP_ASSERT(vp_thrd_joined == vp_thrd_created, "shutdown leaves no worker running");
    VP_ASSERT(busy == 0, "shutdown interrupts no handler");
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
    VP_ASSERT(vp_mtx_total_held == 0 && vp_mtx_live == 0 && vp_cnd_live == 0, "shutdown destroys every lock");
}
#elif MODE == 2
void vp_main(void) {
    gracht_server_configuration_t cfg;
    vp_thrd_create_may_fail = 1;
    gracht_server_configuration_init(&cfg);
    gracht_server_configuration_set_aio_descriptor(&cfg, vp_aio_handle);
    gracht_server_configuration_set_num_workers(&cfg, 2);
    gracht_server_configuration_set_max_msg_size(&cfg, MAXMSG);
    int st = gracht_server_create(&cfg, &server);
    if (st) {
        VP_ASSERT(vp_thrd_created < 2, "a server is created if its workers are");
        VP_ASSERT(vp_thrd_joined == vp_thrd_created, "a failed creation leaves no worker running");
        VP_ASSERT(vp_live_allocs == 0, "a failed creation releases all memory");
        VP_ASSERT(vp_mtx_total_held == 0 && vp_mtx_live == 0 && vp_cnd_live == 0, "a failed creation destroys every lock");
        VP_WITNESS("failed");
        return;
    }
    VP_ASSERT(vp_thrd_created == 2, "a server has the workers it was configured with");
    lfd = srv_addlink(0, 16);
    end();
    VP_WITNESS("created");
}
#else
/* N messages in one delivery: the orchestrator is not interrupted, so the queues overflow */
#ifndef N
#define N 450
#endif
static uint8_t many[N * (HDR + 24)];
void vp_main(void) {
    vp_hold(1);
    start();
    int kind = (int)vp_pick(0, 4), len = HDR + (kind == 1 ? 24 : kind == 2 ? 1 : 0), n = kind == 4 ? 70 : N;
    for (int i = 0; i < n; i++) { /* a message, a long one, a control message, an unknown function, a refused one */
        hdr(many + i * len, (uint32_t)i, (uint32_t)len, kind == 2 ? 0 : SID, kind == 2 ? (uint8_t)(i & 1) : kind == 3 ? 9 : 2, 0);
    }
    if (kind == 2) for (int i = 0; i < n; i++) many[i * len + HDR] = 0x30;
    vp_pending_accepts = 1000;
    vp_sent_discard = 1;
    for (int round = 1; round <= 2; round++) {
        if (kind == 4) { /* clients whose message is refused and that are dropped: receive memory is returned */
            for (int i = 0; i < n; i++) {
                static uint8_t bad[HDR];
                hdr(bad, 1, 0x7fffffff, SID, 2, 0);
                int c = srv_connect(lfd);
                vp_stream_data(c, bad, HDR, 0);
                gracht_server_handle_event(server, c, EPOLLIN);
                VP_ASSERT(n_disconnected == (round - 1) * n + i + 1, "a client whose message cannot be received is dropped");
            }
            continue;
        }
        vp_stream_data(c1, many, n * len, 0);
        gracht_server_handle_event(server, c1, EPOLLIN);
        VP_ASSERT(VPFD(c1).in_pos == n * len, "receive memory is returned: every message is received");
        if (kind < 2) { await_total(round * n); VP_ASSERT(total == round * n, "every message is handled once"); }
    }
    end();
    VP_WITNESS_IF(kind == 0, "messages"); VP_WITNESS_IF(kind == 3, "unknown functions"); VP_WITNESS_IF(kind == 4, "refused messages");
}
#endif
