/* What service functions and callbacks may do: use the server like anybody else.
 * At one of 6 places (a service function called over a stream or by datagram, the announcement that a stream
 * or datagram client is here, or has left) the program does any ACTS of 9 things; then everything has the
 * effect it has anywhere else, and everybody is served.
 * WORKERS > 1: the function runs on a worker while the orchestrator hands out calls of the service concerned. */
#include "srvlib.h"
#include <threads.h>
#ifndef ACTS
#define ACTS 1
#endif
#ifndef WORKERS
#define WORKERS 1
#endif
#define ALEN 16
enum { FN_STREAM, FN_DGRAM, STREAM_HERE, STREAM_GONE, DGRAM_HERE, DGRAM_GONE, NPLACES };
static int lfd, dfd, l2, A, B, place, armed, done, evs, plan, acted[9], ran8, ran9, early8, early9, ran7, kept_to_answer, nan_, total;
static union { struct gracht_message m; uint8_t room[200]; } kept;
static uint8_t msg[HDR + 1], addr[ALEN];
static void fn7(struct gracht_message* m, gracht_buffer_t* b);
static void keep(struct gracht_message* m, gracht_buffer_t* b) { (void)b; VP_ASSERT(GRACHT_MESSAGE_DEFERRABLE_SIZE(m) <= sizeof(kept), "a message can be kept"); gracht_server_defer_message(m, &kept.m); kept_to_answer = 1; total++; vp_wake(&total, 1); }
static void fn8(struct gracht_message* m, gracht_buffer_t* b) { (void)b; if (m->client == B) ran8++; else early8++; total++; vp_wake(&total, 1); }
static void fn9(struct gracht_message* m, gracht_buffer_t* b) { (void)b; if (m->client == B) ran9++; else early9++; total++; vp_wake(&total, 1); }
static gracht_protocol_function_t f7[2] = { { 1, fn7 }, { 2, keep } }, f8[1] = { { 1, fn8 } }, f9[1] = { { 1, fn9 } };
static gracht_protocol_t p7 = GRACHT_PROTOCOL_INIT(7, "t", 2, f7), p8 = GRACHT_PROTOCOL_INIT(8, "u", 1, f8), p9 = GRACHT_PROTOCOL_INIT(9, "v", 1, f9);
static void answer(struct gracht_message* m) {
    gracht_buffer_t b;
    VP_ASSERT(gracht_server_get_buffer(server, &b) == 0, "a buffer for a response");
    hdr((uint8_t*)b.data, 0, 0, 7, 1, 3);
    b.index = HDR;
    int n = vp_nsent;
    VP_ASSERT(gracht_server_respond(m, &b) == 0 && (WORKERS > 1 || vp_nsent == n + 1), "a request is answered");
    nan_++;
}
static int sent_to(int fd, int since, uint8_t sid, uint8_t flags) { int n = 0; for (int i = since; i < vp_nsent; i++) n += vp_sents[i].fd == fd && vp_sents[i].data[8] == sid && vp_sents[i].data[10] == flags; return n; }
static void event(int to) {
    gracht_buffer_t b;
    int n = vp_nsent;
    VP_ASSERT(gracht_server_get_buffer(server, &b) == 0, "a buffer for an event");
    hdr((uint8_t*)b.data, 0, 0, 7, 3, 2);
    b.index = HDR;
    VP_ASSERT((to ? gracht_server_send_event(server, to, &b, 0) : gracht_server_broadcast_event(server, &b, 0)) == 0, "an event is sent");
    if (WORKERS == 1) VP_ASSERT(sent_to(B, n, 7, 2) == 1 && (to == 0 || vp_nsent == n + 1), "an event reaches its client");
    evs++;
}
static void act(void) {
    int w = WORKERS > 1 ? plan : (int)vp_pick(0, 8);
    VP_ASSUME(!acted[w]);
    acted[w] = 1;
    switch (w) {
        case 0: event(0); break;
        case 1: event(B); break;
        case 2: VP_ASSUME(kept_to_answer); answer(&kept.m); kept_to_answer = 0; break;
        case 3: VP_ASSERT(gracht_server_register_protocol(server, &p9) == 0, "a service is registered"); break;
        case 4: gracht_server_unregister_protocol(server, &p8); break;
        case 5: VP_ASSERT(gracht_server_register_protocol(server, &p7) == -1, "a service is registered once"); break;
        case 6: l2 = srv_addlink(0, ALEN); break;
        case 7: VP_ASSERT(gracht_server_get_aio_handle(server) == vp_aio_handle, "the event set is available"); break;
        default: gracht_server_unregister_protocol(server, &p7); VP_ASSERT(gracht_server_register_protocol(server, &p7) == 0, "a service is replaced"); break;
    }
}
static void here_acts(int where) { if (armed && place == where && !done) { done = 1; for (int k = 0; k < ACTS; k++) act(); } }
static void fn7(struct gracht_message* m, gracht_buffer_t* b) { (void)b; here_acts(place == FN_DGRAM ? FN_DGRAM : FN_STREAM); answer(m); ran7++; total++; vp_wake(&total, 1); }
static void connected(gracht_conn_t c) { n_connected++; last_connected = c; here_acts(place == DGRAM_HERE ? DGRAM_HERE : STREAM_HERE); }
static void parted(gracht_conn_t c) { (void)c; n_disconnected++; here_acts(place == DGRAM_GONE ? DGRAM_GONE : STREAM_GONE); }
static void from(int fd, uint8_t sid, uint8_t aid) { hdr(msg, 77, HDR, sid, aid, 0); vp_stream_data(fd, msg, HDR, 0); gracht_server_handle_event(server, fd, EPOLLIN); }
static void dgram(uint8_t sid, uint8_t aid, int arg) {
    hdr(msg, 78, HDR + (arg >= 0), sid, aid, 0); msg[HDR] = (uint8_t)arg;
    vp_ndgrams = 0; vp_dgram_data(dfd, msg, HDR + (arg >= 0), addr, ALEN);
    gracht_server_handle_event(server, dfd, EPOLLIN);
}
static void await_total(int n) { while (WORKERS > 1 && total < n) vp_block(&total); }
void vp_main(void) {
    gracht_server_configuration_t cfg;
    vp_hold(1);
    gracht_server_configuration_init(&cfg);
    cfg.callbacks.clientConnected = connected;
    cfg.callbacks.clientDisconnected = parted;
    gracht_server_configuration_set_max_msg_size(&cfg, MAXMSG);
    gracht_server_configuration_set_num_workers(&cfg, WORKERS);
    VP_ASSERT(gracht_server_create(&cfg, &server) == 0, "a server is created");
    VP_ASSERT(gracht_server_register_protocol(server, &p7) == 0 && gracht_server_register_protocol(server, &p8) == 0, "services registered");
    lfd = srv_addlink(0, ALEN);
    dfd = srv_addlink(1, ALEN);
    memset(addr, 0x41, ALEN);
    gracht_server_handle_event(server, lfd, EPOLLIN); A = last_connected;
    gracht_server_handle_event(server, lfd, EPOLLIN); B = last_connected;
    from(B, 7, 2);
    await_total(1);
    VP_ASSERT(kept_to_answer, "a request is kept");
#if WORKERS > 1
    place = FN_STREAM;
    armed = 1;
    plan = (int)VP_CONCRETE(vp_pick(0, 8));
    VP_ASSUME(plan != 6);            /* links belong to the thread that serves events */
    vp_hold(0);
    from(A, 7, 1);                   /* on a worker: it does something */
    if (plan == 3) from(A, 9, 1); else from(A, 8, 1);   /* meanwhile: a call of the service that is just registered, or removed */
    while (!ran7) vp_block(&total);
    VP_ASSERT(done, "it was done");
    VP_WITNESS_IF(acted[4] && !early8, "a service was removed before it was called");
    VP_WITNESS_IF(acted[3] && early9, "a service was registered before it was called");
    vp_hold(1);
#else
    place = (int)vp_pick(0, NPLACES - 1);
    if (place == DGRAM_GONE) dgram(0, 0, 7);
    int nc = n_connected, nd = n_disconnected;
    armed = 1;
    switch (place) {
        case FN_STREAM: from(A, 7, 1); break;
        case FN_DGRAM: dgram(7, 1, -1); break;
        case STREAM_HERE: gracht_server_handle_event(server, lfd, EPOLLIN); VP_ASSERT(n_connected == nc + 1, "a client is announced"); break;
        case STREAM_GONE: VPFD(A).in = NULL; gracht_server_handle_event(server, A, EPOLLRDHUP); VP_ASSERT(n_disconnected == nd + 1, "a client is announced to have left"); A = -1; break;
        case DGRAM_HERE: dgram(0, 0, 7); VP_ASSERT(n_connected == nc + 1, "a client is announced"); break;
        default: dgram(0, 1, 0xFF); VP_ASSERT(n_disconnected == nd + 1, "a client is announced to have left"); break;
    }
    VP_ASSERT(done, "it was done");
    VP_WITNESS_IF(place == DGRAM_GONE && acted[6], "a link added by a callback");
#endif
    armed = 0;
    VP_ASSERT(vp_mtx_total_held == 0 || WORKERS > 1, "no lock is held afterwards");
    /* and has the effect it has anywhere else */
    int n;
    from(B, 8, 1);
    if (!acted[4]) while (WORKERS > 1 && !ran8) vp_block(&total);
    VP_ASSERT(ran8 == !acted[4], "a service that was removed is not called any more, any other is");
    from(B, 9, 1);
    if (acted[3]) while (WORKERS > 1 && !ran9) vp_block(&total);
    VP_ASSERT(ran9 == acted[3], "a service that was registered is called");
    if (!acted[4] && !acted[3]) while (WORKERS > 1 && !early8) vp_block(&total);
    n = ran7; from(B, 7, 1); while (WORKERS > 1 && ran7 == n) vp_block(&total);
    VP_ASSERT(ran7 == n + 1, "the service itself is called as before");
    n = n_connected;
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(n_connected == n + 1, "clients are still accepted");
    if (acted[6]) { gracht_server_handle_event(server, l2, EPOLLIN); VP_ASSERT(n_connected == n + 2, "also on a link that was added"); }
    VP_WITNESS("everybody is served");
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0 && vp_fds_opened == vp_fds_closed && vp_mtx_live == 0 && vp_cnd_live == 0 && vp_mtx_total_held == 0, "shutdown releases everything");
    VP_ASSERT(early8 <= 1 && early9 <= acted[3] && ran8 == !acted[4] && ran9 == acted[3], "every call is handled at most once");
}
