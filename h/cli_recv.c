/* What the client does with what a server sends.
 * MODE 0: arbitrary bytes on a stream, polled.
 * MODE 1: any length field against the receive buffer, stream.
 * MODE 2: one arbitrary datagram.
 * MODE 3: well-formed messages of every kind in any order: each is handled, none keeps its buffer.
 * MODE 5: a datagram around and beyond the maximum size, with any announced length.
 * MODE 4: as 3, delivered in pieces. */
#ifndef MODE
#define MODE 0
#endif
#if MODE == 3
#define MAXMSG 200
#endif
#include "clilib.h"
#ifndef NBYTES
#define NBYTES 24
#endif
#ifndef NMSG
#define NMSG 3
#endif
#ifndef SEG
#define SEG 0
#endif
#define SID 7
#ifdef SAME
static uint8_t in[4096];
#else
static uint8_t in[1024];
#endif
static static int total, cursor, events, inflight;
static struct gracht_message_context ctx;
static uint8_t* start; static int next_start;
static void on_recv(int f, void* buf, size_t n) { /* where does the client put what it receives? */
    if (VPFD(f).kind == FD_DGRAM) { VP_ASSERT(n <= MAXMSG, "a datagram never exceeds the receive buffer"); return; }
    if (VPFD(f).in_pos == next_start) {
        start = buf;
        uint32_t l = next_start + HDR <= total ? get32(in + next_start + 4) : 0;
        next_start = l >= HDR && l <= MAXMSG && (int)l <= total - next_start ? next_start + (int)VP_CONCRETE(l) : 1 << 20;
    }
    VP_ASSERT((uint8_t*)buf >= start && (size_t)((uint8_t*)buf - start) + n <= MAXMSG, "a message never exceeds the receive buffer");
}
static void on_event(gracht_client_t* c, gracht_buffer_t* b) {
    VP_ASSERT(c == client, "the handler is told its client");
    while (cursor + HDR <= total && !((in[cursor + 10] & 3) == 2 && in[cursor + 8] == SID && in[cursor + 9] == 1)) {
        uint32_t l = get32(in + cursor + 4);
        VP_ASSERT(l >= HDR && l <= (uint32_t)(total - cursor), "nothing behind a malformed message is handled");
        cursor += (int)VP_CONCRETE(l);
    }
    VP_ASSERT(cursor + HDR <= total, "no event is handled that was not received");
    uint32_t len = get32(in + cursor + 4);
    VP_ASSERT(len >= HDR && len <= MAXMSG && len <= (uint32_t)(total - cursor), "only a complete event is handled");
    len = (uint32_t)VP_CONCRETE(len);
    VP_ASSERT(b->index >= HDR && VP_OK(b->data + b->index - HDR, len), "the event lies inside the receive buffer");
    for (uint32_t i = 0; i < len; i++) VP_ASSERT((uint8_t)b->data[b->index - HDR + i] == in[cursor + i], "the handler sees exactly the bytes that were sent");
    cursor += (int)len;
    events++;
}
static gracht_protocol_function_t fns[1] = { { 1, on_event } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 1, fns);
static void start_client(int packet) {
    cli_make(packet, 16);
    VP_ASSERT(gracht_client_register_protocol(client, &proto) == 0, "service registered");
    VP_ASSERT(gracht_client_connect(NULL) == -1, "no client, no connection");
    cli_connect();
    VP_ASSERT(gracht_client_connect(client) == -1, "a connected client is not connected again");
    VP_ASSERT(call(&ctx, SID, 2, 0, NULL, 0) == 0, "a call is sent");
    vp_nsent = 0;
    vp_recv_hook = on_recv;
}
#if MODE == 2
void vp_main(void) {
    start_client(1);
    static uint8_t addr[16];
    total = (int)vp_pick(0, 14);
    for (int i = 0; i < total; i++) in[i] = vp_u8();
    vp_dgram_data(fd, in, total, addr, 16);
    int st = gracht_client_wait_message(client, NULL, 0);
    int ok = total >= HDR && get32(in + 4) >= HDR && get32(in + 4) <= (uint32_t)total;
    if (!ok) { VP_ASSERT(st == -1 && !events, "a datagram that does not hold the message it announces is not handled"); VP_WITNESS("malformed"); }
    else if ((in[10] & 3) == 2 && in[8] == SID && in[9] == 1) { VP_ASSERT(st == 0 && events == 1, "an event is handled"); VP_WITNESS("an event"); }
    gracht_buffer_t b;
    int rs = gracht_client_get_status_buffer(client, &ctx, &b);
    int resp = ok && (in[10] & 3) == 3 && get32(in) == ctx.message_id;
    int err = ok && total >= HDR + 8 && (in[10] & 3) == 2 && in[8] == 0 && in[9] == 2 && get32(in + HDR) == ctx.message_id;
    if (resp) { VP_ASSERT(rs == GRACHT_MESSAGE_COMPLETED, "a response completes its call"); gracht_client_status_finalize(client, &b); VP_WITNESS("a response"); }
    cli_end();
}
#elif MODE == 5
void vp_main(void) {
    start_client(1);
    static uint8_t addr[16];
    static const int lens[] = { MAXMSG - 1, MAXMSG, MAXMSG + 1, 500, 560, 1000 };
    int response = (int)vp_pick(0, 1);
    total = lens[vp_pick(0, 5)];
    for (int i = 0; i < total; i++) in[i] = (uint8_t)(i * 3);
    hdr(in, response ? ctx.message_id : vp_u32(), vp_u32(), SID, 1, response ? 3 : 2);
    in[HDR] = vp_u8(); in[total - 1] = vp_u8();
    vp_dgram_data(fd, in, total, addr, 16);
    int st = gracht_client_wait_message(client, NULL, 0);
    uint32_t len = get32(in + 4);
    VP_ASSERT(!(st == 0 && (len < HDR || len > (uint32_t)total || len > MAXMSG)), "a datagram that does not hold the message it announces is not handled");
    gracht_buffer_t b;
    int rs = gracht_client_get_status_buffer(client, &ctx, &b);
    if (rs == GRACHT_MESSAGE_COMPLETED) {
        VP_ASSERT(response && st == 0, "a response completes its call");
        VP_ASSERT(len == HDR || (VP_OK(b.data + b.index, len - HDR) && (uint8_t)b.data[b.index] == in[HDR]), "the response lies inside the receive buffer");
        gracht_client_status_finalize(client, &b);
    }
    if (total <= MAXMSG && len >= HDR && len <= (uint32_t)total) {
        VP_ASSERT(st == 0 && (response ? rs == GRACHT_MESSAGE_COMPLETED : events == 1), "a message of at most the maximum size is handled");
        VP_WITNESS_IF(len == MAXMSG, "a datagram of the maximum size");
    }
    VP_WITNESS_IF(st, "a datagram that is not handled");
    /* and the next one is received */
    cursor = events = 0; total = HDR + 1; vp_ndgrams = 0;
    hdr(in, 3, HDR + 1, SID, 1, 2);
    vp_dgram_data(fd, in, total, addr, 16);
    VP_ASSERT(gracht_client_wait_message(client, NULL, 0) == 0 && events == 1, "the client stays usable");
    cli_end();
}
#elif MODE == 3 || MODE == 4
static int kinds[NMSG + 1], known, unknown_first;
void vp_main(void) {
    start_client(0);
    struct gracht_message_context c2;
    int pos = 0, want_events = 0, want_resp = 0, want_err = 0;
#ifdef SAME
    int same = (int)VP_CONCRETE(vp_pick(0, 5)), pad = (int)VP_CONCRETE(vp_pick(0, 2)) * 80;
#endif
    for (int m = 0; m <= NMSG; m++) {
#ifdef SAME   /* a great many of one kind, short or long */
        int kind = m == NMSG ? 0 : same;
        uint32_t len = HDR + (kind & 1) + (uint32_t)pad;
#else
        int kind = m == NMSG ? 0 : (int)vp_pick(0, 5);
        uint32_t len = HDR + (kind & 1);
#endif
        uint32_t id = ctx.message_id + 1 + 15 * (m & 1);
        if (kind == 0) { hdr(in + pos, id, len, SID, 1, 2); want_events++; }                       /* an event */
        else if (kind == 1) { hdr(in + pos, id, len, SID, 9, 2); }                                 /* an event without a handler */
        else if (kind == 2) { hdr(in + pos, ctx.message_id, len, SID, 2, 3); want_resp++; }        /* the response (perhaps again) */
        else if (kind == 3) { hdr(in + pos, id, len, SID, 2, 3); }/* an unknown response */
        else if (kind == 4) { hdr(in + pos, id, len, SID, 2, (uint8_t)(m & 1)); }            /* not for a client */
        else { len = HDR + 8; hdr(in + pos, id, len, 0, 2, 2); put32(in + pos + HDR, id); put32(in + pos + HDR + 4, 2); } /* an error of an unknown call */
        if (len == HDR + 1) in[pos + HDR] = vp_u8();
        pos += (int)len;
    }
    total = pos;
    vp_stream_data(fd, in, total, 0);
    vp_seg_budget = SEG;
    for (int k = 0; k < NMSG + 2 + SEG && VPFD(fd).in_pos < total; k++) {
        int st = gracht_client_wait_message(client, NULL, 0);
        VP_ASSERT(st == 0 || errno == EAGAIN || errno == EWOULDBLOCK, "a well-formed message is received");
        VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
    }
    VP_ASSERT(VPFD(fd).in_pos == total && events == want_events, "every event is handled exactly once whatever else arrives");
    VP_ASSERT(gracht_client_wait_message(client, NULL, 0) == -1 && (errno == EAGAIN || errno == EWOULDBLOCK), "polling without messages reports that there are none");
    gracht_buffer_t b;
    int rs = gracht_client_get_status_buffer(client, &ctx, &b);
    VP_ASSERT(rs == (want_resp ? GRACHT_MESSAGE_COMPLETED : GRACHT_MESSAGE_INPROGRESS), "a call is complete exactly when its response arrived");
    if (want_resp) { gracht_client_status_finalize(client, &b); VP_WITNESS("completed"); }
    VP_WITNESS_IF(want_resp >= 2, "two responses");
#if SEG
    VP_WITNESS_IF(vp_seg_budget < SEG, "a delivery in pieces");
#endif
    cli_end();
}
#else
void vp_main(void) {
    start_client(0);
#if MODE == 0
    total = NBYTES;
    for (int i = 0; i < total; i++) in[i] = vp_u8();
#else
    total = 900;
    hdr(in, 1, 0, SID, 1, 2);
    put32(in + 4, vp_u32());
#endif
    vp_stream_data(fd, in, total, 1);
    vp_seg_budget = SEG;
    int st = 0, n = 0;
    while (n < 4 + SEG && VPFD(fd).in_pos < total) {
        st = gracht_client_wait_message(client, NULL, 0);
        VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
        n++;
        if (st && errno != EAGAIN) break;
    }
    uint32_t first = get32(in + 4);
    if (first < HDR || first > MAXMSG) { VP_ASSERT(st == -1 && !events, "a malformed message is reported and not handled"); VP_WITNESS("malformed"); }
    else if (first <= (uint32_t)total && (in[10] & 3) == 2 && in[8] == SID && in[9] == 1) { VP_ASSERT(events >= 1, "a well-formed event is handled"); VP_WITNESS("well-formed"); }
    cli_end();
}
#endif
