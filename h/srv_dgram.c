/* Datagram clients of the server.
 * MODE 0: one datagram of any length and content from an address of any length.
 * MODE 2: a datagram around and beyond the maximum size, with any announced length.
 * MODE 3: the identity of a sender is the CRC-32 of its address, wherever addresses differ.
 * MODE 1: two requests from two senders, answered immediately or later in any order,
 *         with an optional subscription and event in between. */
#include "srvlib.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef ALEN
#define ALEN 16
#endif
#ifndef WORKERS
#define WORKERS 1
#endif
#ifndef NB
#define NB 14
#endif
#define SID 7
#define ND 3
#if MODE == 2
#define DGCAP 1200
#else
#define DGCAP 64
#endif
static uint8_t dg[ND][DGCAP]; static int dlen[ND]; static uint8_t addr[ND][VP_ADDRCAP]; static int alen[ND];
static int lfd, seen, seen_of[ND], ident[ND];
static struct gracht_message* kept[ND];
static int defer[ND];

static int to_sender(struct vp_sent* s, int i) { /* the message went to the address of sender i */
    if (s->fd != lfd || !s->has_addr) return 0;
    int n = alen[i] < ALEN ? alen[i] : ALEN;
    if (s->alen < n || s->alen > VP_ADDRCAP) return 0;
    for (int k = 0; k < s->alen; k++) if (s->addr[k] != (k < n ? addr[i][k] : 0)) return 0;
    return 1;
}
static void answer(struct gracht_message* m, uint8_t mark) {
    gracht_buffer_t b;
    VP_ASSERT(gracht_server_get_buffer(server, &b) == 0, "a buffer for the response");
    hdr((uint8_t*)b.data, 0, 0, SID, 1, 3);
    b.data[HDR] = (char)mark;
    b.index = HDR + 1;
    VP_ASSERT(gracht_server_respond(m, &b) == 0, "the response is sent");
}
static void handler(struct gracht_message* m, gracht_buffer_t* b) {
    int i = -1;
    for (int k = 0; k < ND; k++) if (dlen[k] && vp_dgrams[k].taken && !seen_of[k]) i = k;
    VP_ASSERT(i >= 0, "a datagram is executed at most once");
    seen_of[i] = 1; seen++;
    VP_ASSERT(dlen[i] >= HDR, "a datagram shorter than a header is never executed");
    uint32_t len = get32(dg[i] + 4);
    VP_ASSERT(len >= HDR && len <= (uint32_t)dlen[i], "a datagram that does not hold the message it announces is never executed");
    VP_ASSERT(dg[i][8] == SID && (dg[i][9] == 1 || dg[i][9] == 2), "only the addressed function is executed");
    int whole = MODE == 2 ? (int)VP_CONCRETE(len) : dlen[i];
    VP_ASSERT(b->index >= HDR && VP_OK(b->data + b->index - HDR, whole), "the whole message lies inside the receive buffer");
    for (int k = 0; k < whole; k++) if (MODE != 2 || k < 13 || k > whole - 3)
        VP_ASSERT((uint8_t)b->data[b->index - HDR + k] == dg[i][k], "the handler sees exactly the bytes that were sent");
    ident[i] = m->client;
#if MODE == 1
    if (defer[i]) {
        size_t n = GRACHT_MESSAGE_DEFERRABLE_SIZE(m);
        kept[i] = (struct gracht_message*)vp_malloc(VP_CONCRETE(n));
        gracht_server_defer_message(m, kept[i]);
    } else answer(m, (uint8_t)(0x40 + i));
#endif
}
static gracht_protocol_function_t fns[2] = { { 1, handler }, { 2, handler } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 2, fns);
static void pump(void) {
    for (int k = 0; k < ND + 1; k++) {
        gracht_server_handle_event(server, lfd, EPOLLIN);
        VP_ASSERT(vp_mtx_total_held == 0, "no lock is held between events");
    }
}
static void finish(void) {
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
    VP_ASSERT(vp_fds_opened == vp_fds_closed, "shutdown closes every descriptor");
}
#if MODE == 0
void vp_main(void) {
    srv_create(WORKERS, 1);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    lfd = srv_addlink(1, ALEN);
    static const int alens[] = { 0, 2, ALEN - 1, ALEN, ALEN + 8 };
    alen[0] = alens[vp_pick(0, 4)];
    for (int i = 0; i < 32; i++) addr[0][i] = (uint8_t)(i * 5 + 1);
    dlen[0] = (int)vp_pick(0, NB);
    for (int i = 0; i < dlen[0]; i++) dg[0][i] = vp_u8();
    vp_dgram_data(lfd, dg[0], dlen[0], addr[0], alen[0]);
    /* and another one, well-formed, behind it */
    alen[1] = ALEN; dlen[1] = HDR + 1; memset(addr[1], 0x77, ALEN); hdr(dg[1], 3, HDR + 1, SID, 2, 0);
    vp_dgram_data(lfd, dg[1], dlen[1], addr[1], alen[1]);
    pump();
    VP_ASSERT(seen_of[1] && vp_dgrams[0].taken, "a datagram is executed whatever came before it");
    seen--;
    int ok = dlen[0] >= HDR && get32(dg[0] + 4) >= HDR && get32(dg[0] + 4) <= (uint32_t)dlen[0];
    if (ok && dg[0][8] == SID && (dg[0][9] == 1 || dg[0][9] == 2)) {
        VP_ASSERT(seen == 1, "a well-formed datagram is executed");
        VP_WITNESS("a well-formed datagram");
    }
    else { VP_ASSERT(seen == 0, "nothing else is executed"); VP_WITNESS_IF(dlen[0] >= HDR, "a datagram that is not executed"); }
    int subscribed = ok && dlen[0] > HDR && dg[0][8] == 0 && dg[0][9] == 0;
    if (ok && dlen[0] > HDR) VP_ASSERT(n_connected == subscribed, "a datagram client counts as connected once it subscribes");
    for (int i = 0; i < vp_nsent; i++) VP_ASSERT(to_sender(&vp_sents[i], 0), "nothing is sent but to the sender");
    VP_ASSERT(n_disconnected == 0 && VPFD(lfd).kind == FD_DGRAM, "the socket of the link stays open");
    finish();
}
#elif MODE == 3
static uint32_t ref(const unsigned char* p, int n) {
    uint32_t c = 0xFFFFFFFFu;
    for (int i = 0; i < n; i++) {
        c ^= p[i];
        for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1u)));
    }
    return c ^ 0xFFFFFFFFu;
}
void vp_main(void) {
    srv_create(WORKERS, 1);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    lfd = srv_addlink(1, ALEN);
    static const uint8_t vals[] = { 0, 1, 0x80, 0xff };
    static const int lens[] = { 1, 2, 3, 8, 15, 16, 21, ALEN - 1, ALEN };
    int n = lens[vp_pick(0, 8)], at = (int)vp_pick(0, ALEN - 1), any = (int)vp_pick(0, 1);
    VP_ASSUME(at < n);
    for (int i = 0; i < 2; i++) {   /* two senders whose addresses differ in one byte */
        alen[i] = n;
        for (int k = 0; k < n; k++) addr[i][k] = (uint8_t)(0x21 + k * 7);
        dlen[i] = HDR + 1; hdr(dg[i], 5, HDR + 1, SID, (uint8_t)(1 + i), 0);
    }
    if (any && at >= n - 2) addr[1][at] = vp_u8(); else addr[1][at] = vals[vp_pick(0, 3)];
    VP_ASSUME(addr[1][at] != addr[0][at]);
    for (int i = 0; i < 2; i++) vp_dgram_data(lfd, dg[i], dlen[i], addr[i], alen[i]);
    pump();
    VP_ASSERT(seen == 2, "every datagram is executed exactly once");
    VP_ASSERT(ident[0] == (int)ref(addr[0], n) && ident[1] == (int)ref(addr[1], n), "the identity of a datagram client is the CRC-32 of its address");
    VP_ASSERT(ident[0] != ident[1], "addresses that differ in a byte have different identities");
    VP_WITNESS_IF(n == ALEN && at == ALEN - 1, "the last byte");
    finish();
}
#elif MODE == 2
void vp_main(void) {
    srv_create(WORKERS, 1);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    lfd = srv_addlink(1, ALEN);
    static const int lens[] = { MAXMSG - 1, MAXMSG, MAXMSG + 1, 500, 560, 1200 };
    alen[0] = ALEN; dlen[0] = lens[vp_pick(0, 5)];
    for (int i = 0; i < ALEN; i++) addr[0][i] = (uint8_t)(i * 5 + 1);
    for (int i = 0; i < dlen[0]; i++) dg[0][i] = (uint8_t)(i * 3);
    hdr(dg[0], vp_u32(), vp_u32(), SID, 1, 0);
    dg[0][HDR] = vp_u8(); dg[0][dlen[0] - 1] = vp_u8();
    vp_dgram_data(lfd, dg[0], dlen[0], addr[0], alen[0]);
    pump();
    if (dlen[0] <= MAXMSG && get32(dg[0] + 4) >= HDR && get32(dg[0] + 4) <= (uint32_t)dlen[0]) {
        VP_ASSERT(seen == 1, "a well-formed datagram is executed");
        VP_WITNESS_IF(dlen[0] == MAXMSG && get32(dg[0] + 4) == MAXMSG, "a datagram of the maximum size");
    }
    VP_WITNESS_IF(!seen && dlen[0] > MAXMSG, "a datagram that is not executed");
    VP_ASSERT(vp_nsent == 0 && n_disconnected == 0 && VPFD(lfd).kind == FD_DGRAM, "the socket of the link stays open");
    /* and the next one is served */
    vp_ndgrams = 0; int before = seen; seen_of[0] = 0;
    dlen[0] = HDR + 1; hdr(dg[0], 3, HDR + 1, SID, 2, 0);
    vp_dgram_data(lfd, dg[0], dlen[0], addr[0], alen[0]);
    pump();
    VP_ASSERT(seen == before + 1, "the link stays usable");
    finish();
}
#else
static uint32_t ids[2];
static void respond_kept(int i) { answer(kept[i], (uint8_t)(0x40 + i)); vp_free(kept[i]); kept[i] = NULL; }
void vp_main(void) {
    srv_create(WORKERS, 1);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    lfd = srv_addlink(1, ALEN);
    int sub = (int)vp_pick(0, 2);  /* 0: nobody subscribes, 1/2: sender 0 / 1 subscribes first */
    for (int i = 0; i < 2; i++) {
        alen[i] = i == 0 ? ALEN : ALEN - (int)vp_pick(0, 4);
        for (int k = 0; k < alen[i]; k++) addr[i][k] = (uint8_t)(0x21 + i * 0x40 + k);
    }
    if (sub) {
        hdr(dg[2], 9, HDR + 1, 0, 0, 1); dg[2][HDR] = SID;
        vp_dgram_data(lfd, dg[2], HDR + 1, addr[sub - 1], alen[sub - 1]);
        pump();
        VP_ASSERT(n_connected == 1 && n_disconnected == 0, "a subscribing datagram client is announced");
        vp_ndgrams = 0;
    }
    for (int i = 0; i < 2; i++) {
        dlen[i] = HDR + 2;
        ids[i] = vp_u32();
        hdr(dg[i], ids[i], dlen[i], SID, (uint8_t)(1 + i), 0);
        dg[i][HDR] = vp_u8(); dg[i][HDR + 1] = vp_u8();
        defer[i] = vp_bool();
        vp_dgram_data(lfd, dg[i], dlen[i], addr[i], alen[i]);
    }
    pump();
    VP_ASSERT(seen == 2, "every datagram is executed exactly once");
    VP_ASSERT(ident[0] != ident[1], "different senders have different identities");
    if (defer[0] && defer[1] && vp_bool()) { respond_kept(1); respond_kept(0); VP_WITNESS("answered in reverse"); }
    else for (int i = 0; i < 2; i++) if (defer[i]) respond_kept(i);
    VP_ASSERT(vp_nsent == 2, "one response for each request");
    for (int i = 0; i < 2; i++) {
        int m = vp_sents[i].data[HDR] - 0x40;
        VP_ASSERT(m == 0 || m == 1, "a response");
        VP_ASSERT(to_sender(&vp_sents[i], m), "a response goes to the address its request came from");
        VP_ASSERT(get32(vp_sents[i].data) == ids[m] && get32(vp_sents[i].data + 4) == HDR + 1 && vp_sents[i].n == HDR + 1, "a response carries the id of its request and its own length");
    }
    /* an event reaches the subscriber only, at its address */
    gracht_buffer_t b;
    VP_ASSERT(gracht_server_get_buffer(server, &b) == 0, "a buffer for the event");
    hdr((uint8_t*)b.data, 0, 0, SID, 3, 2); b.index = HDR;
    VP_ASSERT(gracht_server_broadcast_event(server, &b, 0) == 0, "the event is sent");
    if (sub) {
        VP_ASSERT(vp_nsent == 3 && to_sender(&vp_sents[2], sub - 1), "an event goes to the address of the subscriber");
        VP_WITNESS("event to a subscriber");
        /* leaving: unsubscribe from everything */
        hdr(dg[2], 9, HDR + 1, 0, 1, 1); dg[2][HDR] = 0xFF;
        vp_ndgrams = 0; dlen[0] = dlen[1] = 0;
        vp_dgram_data(lfd, dg[2], HDR + 1, addr[sub - 1], alen[sub - 1]);
        pump();
        VP_ASSERT(n_disconnected == 1, "a datagram client that unsubscribes from everything is gone");
        VP_ASSERT(VPFD(lfd).kind == FD_DGRAM, "the socket of the link stays open");
    } else VP_ASSERT(vp_nsent == 2, "an event goes to nobody who did not subscribe");
    finish();
}
#endif
