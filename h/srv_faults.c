/* One failure anywhere in a session of a server: a receive, a send, an accept or an allocation.
 * A stream link with clients A and B, a datagram link with client D; any OPS operations, then
 * everybody who was not dropped is served, and shutdown leaves nothing behind. */
#include "srvlib.h"
#ifndef OPS
#define OPS 2
#endif
#ifndef KIND
#define KIND 3
#endif
#ifndef EXTRA
#define EXTRA 0      /* further clients connect beforehand */
#endif
#ifndef LEAVERS
#define LEAVERS 0    /* and so many of them leave again */
#endif
#ifndef BUFFERS
#define BUFFERS 0    /* so many buffers are in use all the time, and returned in the end */
#endif
#define SID 7
#define ALEN 16
static int lfd, dfd, A, B, ran, failed_send, nresp, n_left;
static int alive_a = 1, alive_b = 1, events_to_b;
static uint8_t msg[HDR + 1], dmsg[HDR + 1], addr[ALEN];
static union { struct gracht_message m; uint8_t room[200]; } kept;
static int have_kept;
static int budget(void) { return vp_recv_fail_budget + vp_send_fail_budget + vp_accept_fail_budget + vp_alloc_fail_budget; }
static int respond(struct gracht_message* m) {
    gracht_buffer_t b;
    int before = budget(), st;
    if (gracht_server_get_buffer(server, &b)) { VP_ASSERT(budget() < before, "a buffer is refused only if there is no memory");
#if KIND == 3
        VP_WITNESS("no buffer for a response");
#endif
        return -1; }
    before = budget();
    hdr((uint8_t*)b.data, 0, 0, SID, 1, 3);
    b.index = HDR;
    st = gracht_server_respond(m, &b);
    VP_ASSERT((st != 0) == (budget() < before), "a response that cannot be sent is reported, any other is sent");
    return st;
}
static void at_once(struct gracht_message* m, gracht_buffer_t* b) { (void)b; ran++; respond(m); }
static void later(struct gracht_message* m, gracht_buffer_t* b) {
    (void)b; ran++;
    VP_ASSERT(GRACHT_MESSAGE_DEFERRABLE_SIZE(m) <= sizeof(kept), "a message can be kept");
    gracht_server_defer_message(m, &kept.m);
    have_kept = 1;
}
static gracht_protocol_function_t fns[2] = { { 1, at_once }, { 2, later } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 2, fns);
static void gone(gracht_conn_t c) {
    n_left++;
    VP_ASSERT((c == A && alive_a) || (c == B && alive_b) || (c != A && c != B), "nobody leaves twice");
    if (c == A) { alive_a = 0; A = -1; have_kept = 0; }
    if (c == B) { alive_b = 0; B = -1; }
}
static int n_conn, newest;
static void here(gracht_conn_t c) { n_conn++; newest = c; }
static void from(int fd, uint8_t sid, uint8_t aid, int arg) {
    hdr(msg, 77, HDR + (arg >= 0), sid, aid, 0);
    msg[HDR] = (uint8_t)arg;
    vp_stream_data(fd, msg, HDR + (arg >= 0), 0);
    gracht_server_handle_event(server, fd, EPOLLIN);
}
static void dgram(uint8_t sid, uint8_t aid, int arg) {
    hdr(dmsg, 78, HDR + (arg >= 0), sid, aid, 0);
    dmsg[HDR] = (uint8_t)arg;
    vp_ndgrams = 0;
    vp_dgram_data(dfd, dmsg, HDR + (arg >= 0), addr, ALEN);
    gracht_server_handle_event(server, dfd, EPOLLIN);
}
static int event(gracht_conn_t to) {
    gracht_buffer_t b;
    if (gracht_server_get_buffer(server, &b)) return -1;
    hdr((uint8_t*)b.data, 0, 0, SID, 3, 2);
    b.index = HDR;
    return to ? gracht_server_send_event(server, to, &b, 0) : gracht_server_broadcast_event(server, &b, 0);
}
static int sent_to(int fd, int from_, uint8_t flags) { int n = 0; for (int i = from_; i < vp_nsent; i++) n += vp_sents[i].fd == fd && vp_sents[i].data[10] == flags && vp_sents[i].n == HDR; return n; }
static void op(void) {
    int what = (int)vp_pick(0, 11), before = budget(), r = ran, ns = vp_nsent, st;
    int ok = 0;
    switch (what) {
        case 0: VP_ASSUME(alive_a); from(A, SID, 1, -1); ok = ran == r + 1 && sent_to(A, ns, 3) == 1; break;
        case 1: VP_ASSUME(alive_a && !have_kept); from(A, SID, 2, -1); ok = ran == r + 1; break;
        case 2: VP_ASSUME(have_kept && alive_a); have_kept = 0; ok = respond(&kept.m) == 0 && sent_to(A, ns, 3) == 1; break;
        case 3: st = event(0); ok = st == 0 && (!alive_b || sent_to(B, ns, 2) == 1) && (!alive_a || sent_to(A, ns, 2) == 1); break;
        case 4: VP_ASSUME(alive_a); st = event(A); ok = st == 0 && sent_to(A, ns, 2) == 1; if (before > budget()) VP_ASSERT(st != 0, "an event that cannot be sent is reported"); break;
        case 5: VP_ASSUME(n_conn - n_left < 2 + OPS + EXTRA); { int n = n_conn; st = gracht_server_handle_event(server, lfd, EPOLLIN); ok = st == 0 && n_conn == n + 1;
                VP_ASSERT((st == 0) == (n_conn == n + 1), "a connection is announced if and only if it is accepted"); } break;
        case 6: dgram(SID, 1, -1); ok = ran == r + 1 && sent_to(dfd, ns, 3) == 1; break;
        case 7: dgram(0, 0, SID); ok = 1; break;
        case 8: dgram(0, 1, 0xFF); ok = 1; break;
        case 9: VP_ASSUME(alive_a); from(A, SID, 9, -1); ok = vp_nsent == ns + 1 && vp_sents[ns].fd == A && vp_sents[ns].data[9] == 2; VP_ASSERT(ran == r, "an unknown function runs nothing"); break;
        case 11: VP_ASSUME(alive_a); { int l = n_left; gracht_server_handle_event(server, A, EPOLLRDHUP); VP_ASSERT(n_left == l + 1 && !alive_a, "a client that hangs up is announced to leave, whatever fails"); ok = 1; } break;
        default: VP_ASSUME(alive_b); from(B, 0, vp_bool(), SID + 1); ok = 1; break;
    }
    if (budget() == before) VP_ASSERT(ok, "an operation in which nothing fails succeeds, whatever failed before");
    else VP_WITNESS("a failure");
    VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
    VP_ASSERT(alive_b || KIND == 0, "a failure that concerns others does not drop a client");
}
void vp_main(void) {
    gracht_server_configuration_t cfg;
    gracht_server_configuration_init(&cfg);
    cfg.callbacks.clientConnected = here;
    cfg.callbacks.clientDisconnected = gone;
    gracht_server_configuration_set_max_msg_size(&cfg, MAXMSG);
    VP_ASSERT(gracht_server_create(&cfg, &server) == 0, "a server is created");
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    lfd = srv_addlink(0, ALEN);
    dfd = srv_addlink(1, ALEN);
    memset(addr, 0x41, ALEN);
    gracht_server_handle_event(server, lfd, EPOLLIN); A = newest;
    gracht_server_handle_event(server, lfd, EPOLLIN); B = newest;
    VP_ASSERT(n_conn == 2, "two clients");
    int more[EXTRA + 1];
    for (int i = 0; i < EXTRA; i++) { gracht_server_handle_event(server, lfd, EPOLLIN); more[i] = newest; }
    for (int i = 0; i < LEAVERS; i++) gracht_server_handle_event(server, more[i], EPOLLRDHUP);
    VP_ASSERT(n_conn == 2 + EXTRA && n_left == LEAVERS, "all clients");
    gracht_buffer_t bufs[BUFFERS + 1];
    for (int i = 0; i < BUFFERS; i++) { VP_ASSERT(gracht_server_get_buffer(server, &bufs[i]) == 0, "a buffer"); hdr((uint8_t*)bufs[i].data, 0, 0, 200, 3, 2); bufs[i].index = HDR; }
    *(KIND == 0 ? &vp_recv_fail_budget : KIND == 1 ? &vp_send_fail_budget : KIND == 2 ? &vp_accept_fail_budget : &vp_alloc_fail_budget) = 1;
    for (int k = 0; k < OPS; k++) op();
    vp_sent_discard = 1;
    for (int i = 0; i < BUFFERS; i++) { int b = budget(); int st = gracht_server_send_event(server, B, &bufs[i], 0); VP_ASSERT(st == 0 || b > budget() || !alive_b, "an event is sent"); }
    vp_sent_discard = 0;
    vp_recv_fail_budget = vp_send_fail_budget = vp_accept_fail_budget = vp_alloc_fail_budget = 0;
    /* afterwards everybody is served */
    int ns = vp_nsent;
    if (alive_b) { from(B, SID, 1, -1); VP_ASSERT(vp_nsent == ns + 1 && sent_to(B, ns, 3) == 1, "other clients are still served"); }
    ns = vp_nsent;
    if (alive_a) { from(A, SID, 1, -1); VP_ASSERT(vp_nsent == ns + 1 && sent_to(A, ns, 3) == 1, "a client that was not dropped is still served"); }
    ns = vp_nsent;
    dgram(SID, 1, -1);
    VP_ASSERT(vp_nsent == ns + 1 && sent_to(dfd, ns, 3) == 1, "datagram clients are still served");
    int n = n_conn;
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(n_conn == n + 1, "new clients are still accepted");
    ns = vp_nsent;
    VP_ASSERT(event(0) == 0 && sent_to(newest, ns, 2) == 1, "events still reach the clients");
    int live = vp_live_allocs;
    vp_sent_discard = 1;
    if (alive_b) from(B, SID, 1, -1);
    dgram(SID, 1, -1);
    VP_ASSERT(event(0) == 0, "events still reach the clients");
    vp_sent_discard = 0;
    VP_ASSERT(vp_live_allocs == live, "buffers are used again, serving more takes no more memory");
    VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0, "no memory is lost");
    VP_ASSERT(vp_fds_opened == vp_fds_closed, "no descriptor is lost");
    VP_ASSERT(vp_mtx_live == 0 && vp_cnd_live == 0 && vp_mtx_total_held == 0, "no lock is lost");
}
