/* A stream client of the server sends bytes; which messages does the service see?
 * MODE 0: arbitrary bytes (NBYTES of them), then end of stream.
 * MODE 1: arbitrary header, long filler: any length field against the receive buffer.
 * LEAVES (MODE 2): the client sends its messages and closes: some arrive before the end is known, the rest with it.
 * MODE 2: NMSG well-formed messages in arbitrary segmentation: each is seen once, in order.
 * MODE 3: the same for two clients at a time.
 * MODE 4: one message of any length from MAXMSG - 2 to MAXMSG, in arbitrary segmentation, and a short one. */
#include "srvlib.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef NBYTES
#define NBYTES 24
#endif
#ifndef NMSG
#define NMSG 2
#endif
#ifndef SEG
#define SEG 1
#endif
#ifndef MAXLEN
#define MAXLEN 13
#endif
#ifndef WORKERS
#define WORKERS 1
#endif
#define SID 7
#if MODE == 1
#define TOTAL 900
#elif MODE == 2
#define TOTAL (NMSG * MAXLEN)
#else
#define TOTAL NBYTES
#endif
#if MODE >= 3
#if MODE == 3
#define NCLI 2
#else
#define NCLI 1
#endif
static uint8_t data[NCLI][2 * MAXMSG]; static int dn[NCLI], at[NCLI], fd[NCLI], nth;
static void handler(struct gracht_message* m, gracht_buffer_t* b) {
    int c = 0;
    while (c < NCLI && fd[c] != m->client) c++;
    VP_ASSERT(c < NCLI && at[c] < dn[c], "the handler sees the identity of the sending client");
    int len = (int)VP_CONCRETE(get32(data[c] + at[c] + 4));
    VP_ASSERT(VP_OK(b->data + b->index - HDR, len), "the whole message lies inside the receive buffer");
    for (int i = 0; i < len; i++) VP_ASSERT((uint8_t)b->data[b->index - HDR + i] == data[c][at[c] + i], "the handler sees exactly the bytes that were sent, in order");
    at[c] += len; nth++;
}
static gracht_protocol_function_t fns[2] = { { 1, handler }, { 2, handler } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 2, fns);
static int put(int c, uint32_t len) {
    uint8_t* p = data[c] + dn[c];
    hdr(p, vp_u32(), len, SID, 1, 0);
    for (uint32_t i = HDR; i < len; i++) p[i] = i < HDR + 2 || i == len - 1 ? vp_u8() : (uint8_t)(i * 7);
    dn[c] += (int)len;
    return 1;
}
void vp_main(void) {
    int n = 0;
    srv_create(WORKERS, 1);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    int lfd = srv_addlink(0, 16);
    for (int c = 0; c < NCLI; c++) fd[c] = srv_connect(lfd);
#if MODE == 3
    for (int c = 0; c < NCLI; c++) for (int k = 0; k < NMSG; k++) n += put(c, vp_pick(HDR, MAXLEN));
#else
    n += put(0, vp_pick(MAXMSG - 2, MAXMSG)); n += put(0, HDR + 1);
#endif
    vp_seg_budget = SEG;
    for (int c = 0; c < NCLI; c++) vp_stream_data(fd[c], data[c], dn[c], 0);
    for (int ev = 0; ev < SEG + NMSG + 2; ev++)
        for (int c = 0; c < NCLI; c++) {
            if (VPFD(fd[c]).in_pos < dn[c]) gracht_server_handle_event(server, fd[c], EPOLLIN);
            VP_ASSERT(vp_mtx_total_held == 0, "no lock is held between events");
        }
    VP_ASSERT(nth == n && n_disconnected == 0, "every message sent is executed exactly once whatever the segmentation");
    for (int c = 0; c < NCLI; c++) VP_ASSERT(at[c] == dn[c], "every message sent is executed exactly once whatever the segmentation");
    VP_WITNESS_IF(vp_seg_budget == 0, "a segmented delivery");
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
}
#else
static uint8_t stream[TOTAL];
static int total = TOTAL, cursor, seen, bad_seen, cfd;

static void handler(struct gracht_message* m, gracht_buffer_t* b) {
    /* skip messages that are not for the service */
    while (cursor + HDR <= total && !(stream[cursor + 8] == SID && (stream[cursor + 9] == 1 || stream[cursor + 9] == 2))) {
        uint32_t l = get32(stream + cursor + 4);
        VP_ASSERT(l >= HDR && l <= (uint32_t)(total - cursor), "a message behind a malformed one is never executed");
        cursor += (int)VP_CONCRETE(l);
    }
    VP_ASSERT(cursor + HDR <= total, "no message is executed that was not received");
    uint32_t len = get32(stream + cursor + 4);
    VP_ASSERT(len >= HDR, "a message shorter than its header is never executed");
    VP_ASSERT(len <= (uint32_t)(total - cursor), "a message is executed only after all of its bytes arrived");
    uint32_t off = b->index;
    VP_ASSERT(off >= HDR && VP_OK(b->data + off - HDR, len), "the whole message lies inside the receive buffer");
    len = (uint32_t)VP_CONCRETE(len);
    for (uint32_t i = 0; i < len; i++)
        if (i < 16 || i + 4 > len)
            VP_ASSERT((uint8_t)b->data[off - HDR + i] == stream[cursor + i], "the handler sees exactly the bytes that were sent");
    VP_ASSERT(m->client == cfd, "the handler sees the identity of the sending client");
    cursor += (int)len;
    seen++;
}
static gracht_protocol_function_t fns[2] = { { 1, handler }, { 2, handler } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 2, fns);

void vp_main(void) {
    int complete = 0, malformed = 0;
    srv_create(WORKERS, 1);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    int lfd = srv_addlink(0, 16);
    cfd = srv_connect(lfd);
#if MODE == 0
    for (int i = 0; i < NBYTES; i++) stream[i] = vp_u8();
#elif MODE == 1
    hdr(stream, 1, 0, SID, 1, 0);
    put32(stream + 4, vp_u32());
#else
    int pos = 0;
    for (int m = 0; m < NMSG; m++) {
        uint32_t len = vp_pick(HDR, MAXLEN);
        hdr(stream + pos, vp_u32(), len, SID, (uint8_t)(1 + m % 2), 0);
        for (uint32_t i = HDR; i < len; i++) stream[pos + i] = vp_u8();
        pos += (int)len;
    }
    total = pos; complete = NMSG;
#endif
#ifdef LEAVES
    int early = (int)vp_pick(0, NMSG), cut = 0;
    for (int m = 0; m < early; m++) cut += (int)VP_CONCRETE(get32(stream + cut + 4));
    if (early) { vp_stream_data(cfd, stream, cut, 0); gracht_server_handle_event(server, cfd, EPOLLIN); VP_ASSERT(seen == early && !n_disconnected, "messages are executed as they arrive"); }
    vp_stream_data(cfd, stream, total, 1);
    VPFD(cfd).in_pos = cut;
    gracht_server_handle_event(server, cfd, EPOLLIN | EPOLLRDHUP);
    VP_ASSERT(seen == complete, "messages sent before the client left are executed");
    VP_ASSERT(n_disconnected == 1 && last_disconnected == cfd, "the end of the connection is announced");
    VP_WITNESS_IF(early == 0, "everything arrives with the end of the connection");
    goto end;
#endif
    vp_seg_budget = SEG;
    vp_stream_data(cfd, stream, total, MODE != 2);
    for (int ev = 0; ev < SEG + NMSG + 2; ev++) {
        if (n_disconnected || VPFD(cfd).in_pos >= total) break;
        gracht_server_handle_event(server, cfd, EPOLLIN);
        VP_ASSERT(vp_mtx_total_held == 0, "no lock is held between events");
    }
#if MODE == 2
    VP_ASSERT(seen == complete, "every message sent is executed exactly once whatever the segmentation");
    VP_ASSERT(n_disconnected == 0, "a client that keeps to the protocol stays connected");
    VP_WITNESS_IF(vp_seg_budget < SEG, "a segmented delivery");
#else
    uint32_t first = get32(stream + 4);
    malformed = first < HDR || first > MAXMSG + 512;
    if (malformed) {
        VP_ASSERT(seen == 0, "a malformed message is not executed");
        gracht_server_handle_event(server, cfd, EPOLLIN);
        VP_ASSERT(n_disconnected == 1 && last_disconnected == cfd, "a client whose framing is broken is disconnected");
        VP_WITNESS("a malformed message");
    } else if (first <= MAXMSG && first <= (uint32_t)total && stream[8] == SID && (stream[9] == 1 || stream[9] == 2)) {
        VP_ASSERT(seen >= 1, "a message within the configured maximum size is executed");
        VP_WITNESS("a well-formed message");
    }
#if MODE == 0
    VP_WITNESS_IF(seen == 2, "two messages");
#endif
#endif
#ifdef LEAVES
end:
#endif
    if (!n_disconnected) {
        gracht_server_handle_event(server, cfd, EPOLLRDHUP);
        VP_ASSERT(n_disconnected == 1, "the end of the connection is announced");
    }
    VP_ASSERT(VPFD(cfd).kind == FD_FREE, "the connection of a departed client is closed");
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
    VP_ASSERT(vp_fds_opened == vp_fds_closed, "shutdown closes every descriptor");
}
#endif
