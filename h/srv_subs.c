/* Subscriptions: any history of subscribe/unsubscribe by two stream clients, then events. */
#include "srvlib.h"
#ifndef OPS
#define OPS 2
#endif
static int cfd[2]; static uint8_t msg[HDR + 1];
static uint32_t model[2][8];
static void m_sub(int c, uint8_t s) { for (int i = 0; i < 8; i++) if (s == 0xFF) model[c][i] = 0xFFFFFFFFu; else if (i == s / 32) model[c][i] |= 1u << (s % 32); }
static void m_unsub(int c, uint8_t s) { for (int i = 0; i < 8; i++) if (s == 0xFF) model[c][i] = 0; else if (i == s / 32) model[c][i] &= ~(1u << (s % 32)); }
static int m_is(int c, uint8_t s) { uint32_t w = 0; for (int i = 0; i < 8; i++) if (i == s / 32) w = model[c][i]; return (w >> (s % 32)) & 1; }
#ifdef MIXED  /* a stream client and two datagram clients */
static const uint8_t some[] = { 1, 33, 0xFF, 200 };
static int addr_is(const struct vp_sent* t, int c) { if (!t->has_addr || t->alen < 16) return 0; for (int k = 0; k < 16; k++) if (t->addr[k] != (uint8_t)(0x21 + c * 0x40 + k)) return 0; return 1; }
static int known[3];
void vp_main(void) {
    int msubs[3][4] = { { 1, 1, 0, 1 } }; uint8_t addr[3][16];
    srv_create(1, 1);
    int lfd = srv_addlink(0, 16), dfd = srv_addlink(1, 16);
    int c0 = srv_connect(lfd);
    vp_nsent = 0;
    for (int c = 1; c < 3; c++) for (int k = 0; k < 16; k++) addr[c][k] = (uint8_t)(0x21 + c * 0x40 + k);
    for (int k = 0; k < OPS; k++) {
        int c = (int)vp_pick(0, 2), un = (int)vp_pick(0, 1), w = (int)vp_pick(0, 2);
        int before = n_connected, gone = n_disconnected;
        hdr(msg, vp_u32(), HDR + 1, 0, (uint8_t)un, 1);
        msg[HDR] = some[w];
        if (c == 0) { vp_stream_data(c0, msg, HDR + 1, 0); gracht_server_handle_event(server, c0, EPOLLIN); }
        else { vp_ndgrams = 0; vp_dgram_data(dfd, msg, HDR + 1, addr[c], 16); gracht_server_handle_event(server, dfd, EPOLLIN); }
        for (int i = 0; i < 4; i++) if (i == w || some[w] == 0xFF) msubs[c][i] = !un;
        if (c) {
            if (!un) { VP_ASSERT(n_connected == before + !known[c], "a datagram client is announced when it first subscribes"); known[c] = 1; }
            else { int bye = known[c] && some[w] == 0xFF; VP_ASSERT(n_disconnected == gone + bye, "a datagram client leaves when it unsubscribes from everything"); if (bye) known[c] = 0; VP_WITNESS_IF(bye, "leaves"); }
        } else VP_ASSERT(n_connected == before && n_disconnected == gone, "a subscription changes nothing else");
        if (GREET && n_connected != before) { VP_ASSERT(vp_nsent == 1 && vp_sents[0].fd == dfd && addr_is(&vp_sents[0], c), "an event for a datagram client goes to its address"); vp_nsent = 0; VP_WITNESS("greeted"); }
        VP_ASSERT(vp_nsent == 0 && vp_mtx_total_held == 0, "a subscription changes nothing else");
    }
    gracht_buffer_t b;
    int e = (int)vp_pick(0, 2); if (e == 2) e = 3;
    uint8_t x = vp_u8();
    VP_ASSERT(gracht_server_get_buffer(server, &b) == 0, "a buffer for the event");
    hdr((uint8_t*)b.data, 0, 0x77777777, some[e], 9, 2);
    b.data[HDR] = (char)x; b.index = HDR + 1;
    VP_ASSERT(gracht_server_broadcast_event(server, &b, 0) == 0, "an event is broadcast");
    int total = 0;
    for (int c = 0; c < 3; c++) {
        int n = 0;
        for (int i = 0; i < vp_nsent; i++) n += c ? vp_sents[i].fd == dfd && addr_is(&vp_sents[i], c) : vp_sents[i].fd == c0;
        VP_ASSERT(n == msubs[c][e], "a broadcast event reaches exactly the subscribed clients, once each");
        total += n;
    }
    VP_ASSERT(vp_nsent == total, "and nobody else");
    VP_WITNESS_IF(total == 3, "all subscribed");
    for (int i = 0; i < vp_nsent; i++) { uint8_t* d = vp_sents[i].data; VP_ASSERT(vp_sents[i].n == HDR + 1 && get32(d + 4) == HDR + 1 && d[8] == some[e] && d[9] == 9 && d[10] == 2 && d[HDR] == x, "the event is framed and complete"); }
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0 && vp_fds_opened == vp_fds_closed, "nothing is lost");
}
#else
void vp_main(void) {
    srv_create(1, 1);
    int lfd = srv_addlink(0, 16);
    for (int i = 0; i < 2; i++) { cfd[i] = srv_connect(lfd); m_sub(i, 0xFF); }
    for (int k = 0; k < OPS; k++) {
        int c = (int)vp_pick(0, 1), un = (int)vp_pick(0, 1);
        uint8_t s = vp_u8();
        hdr(msg, vp_u32(), HDR + 1, 0, (uint8_t)un, 1);
        msg[HDR] = s;
        vp_stream_data(cfd[c], msg, HDR + 1, 0);
        gracht_server_handle_event(server, cfd[c], EPOLLIN);
        if (un) m_unsub(c, s); else m_sub(c, s);
        VP_ASSERT(n_disconnected == 0 && vp_nsent == 0, "a subscription changes nothing else");
    }
    gracht_buffer_t b;
    uint8_t s = vp_u8(), x = vp_u8(), a = vp_u8();
    VP_ASSERT(gracht_server_get_buffer(server, &b) == 0, "a buffer for the event");
    hdr((uint8_t*)b.data, 0, 0x77777777, s, a, 2);
    b.data[HDR] = (char)x; b.index = HDR + 1;
    int target = (int)vp_pick(0, 3);
    if (target < 2) {
        VP_ASSERT(gracht_server_send_event(server, cfd[target], &b, 0) == 0, "an addressed event is sent");
        VP_ASSERT(vp_nsent == 1 && vp_sents[0].fd == cfd[target], "an addressed event reaches exactly that client, subscribed or not");
    } else if (target == 2) {
        VP_ASSERT(gracht_server_send_event(server, 4711, &b, 0) == -1 && vp_nsent == 0, "an event for an unknown client is refused");
    } else {
        VP_ASSERT(gracht_server_broadcast_event(server, &b, 0) == 0, "an event is broadcast");
        for (int c = 0; c < 2; c++) {
            int n = 0;
            for (int i = 0; i < vp_nsent; i++) n += vp_sents[i].fd == cfd[c];
            VP_ASSERT(n == m_is(c, s), "a broadcast event reaches exactly the subscribed clients, once each");
            VP_WITNESS_IF(c == 0 && n == 0, "not subscribed");
            VP_WITNESS_IF(c == 1 && n == 1, "subscribed");
        }
        VP_ASSERT(vp_nsent <= 2, "and nobody else");
    }
    for (int i = 0; i < vp_nsent; i++) {
        uint8_t* d = vp_sents[i].data;
        VP_ASSERT(vp_sents[i].n == HDR + 1 && get32(d + 4) == HDR + 1 && d[8] == s && d[9] == a && d[10] == 2 && d[HDR] == x, "the event is framed and complete");
    }
    VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0, "no event buffer is lost");
}
#endif
