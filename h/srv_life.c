/* Life of connections, links and the server.
 * MODE 0: any history of connects, disconnects, ends of stream and stray events.
 * MODE 1: the main loop; shutdown is requested at any point.
 * MODE 2: links: the table of links, failing setups, and the state machine of the server. */
#include "srvlib.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef WORKERS
#define WORKERS 1
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
#define SID 7
static int lfd, ran;
static uint8_t req[HDR], bad[HDR], ctl[HDR + 1];
static gracht_buffer_t held;
static void handler(struct gracht_message* m, gracht_buffer_t* b) {
    (void)b;
    ran++;
    gracht_buffer_t r;
    if (gracht_server_get_buffer(server, &r)) return;
    hdr((uint8_t*)r.data, 0, 0, SID, 1, 3);
    r.index = HDR;
    gracht_server_respond(m, &r);
}
static gracht_protocol_function_t fns[1] = { { 1, handler } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 1, fns);
#ifndef EXTRA
#define EXTRA 0
#endif
#ifndef LEAVERS
#define LEAVERS 0
#endif
#define MAXC (3 + EXTRA)
static int fds[MAXC], alive[MAXC], nc;
static int by_fd(int fd) { for (int i = nc - 1; i >= 0; i--) if (alive[i] && fds[i] == fd) return i; return -1; }
static void invariants(void) {
    int live = 0;
    for (int i = 0; i < nc; i++) if (alive[i]) {
        live++;
        VP_ASSERT(VPFD(fds[i]).kind == FD_STREAM, "the connection of a client stays open until the client leaves");
        VP_ASSERT(VPFD(fds[i]).registered, "the server keeps listening to every client");
    }
    VP_ASSERT(n_connected == nc && n_connected - n_disconnected == live, "every client is announced once when it connects and once when it leaves");
    int open = 0;
    for (int i = 0; i < VP_NFD; i++) open += vp_fds[i].kind == FD_STREAM;
    VP_ASSERT(open == live, "the connection of a client that left is closed");
    VP_ASSERT(vp_mtx_total_held == 0, "no lock is held between events");
}
#if MODE == 0
static void op(void) {
    int what = (int)vp_pick(0, 7);
    if (what == 0) {
        VP_ASSUME(nc < MAXC);
        int before = n_connected;
        int st = gracht_server_handle_event(server, lfd, EPOLLIN);
        if (n_connected == before) { VP_ASSERT(FAULTS && st != 0, "a connection that cannot be accepted is reported"); return; }
        VP_ASSERT(st == 0 && n_connected == before + 1, "a connection is announced once");
        fds[nc] = last_connected; alive[nc] = 1; nc++;
        VP_ASSERT(VPFD(last_connected).kind == FD_STREAM, "a client is announced under its connection");
        return;
    }
    if (what == 1) { /* an event for something that is not a client */
        int d = n_disconnected;
        gracht_server_handle_event(server, 7, vp_bool() ? EPOLLRDHUP : EPOLLIN);
        VP_ASSERT(n_disconnected == d, "nobody is announced to leave who was not connected");
        return;
    }
    VP_ASSUME(nc > 0);
    int i = (int)vp_pick(0, nc - 1);
    VP_ASSUME(alive[i]);
    int fd = fds[i], d = n_disconnected, r = ran, ns = vp_nsent;
    if (what == 2) { gracht_server_handle_event(server, fd, EPOLLIN | EPOLLRDHUP); alive[i] = 0; VP_WITNESS("a client hangs up"); }
    else if (what == 3) { /* malformed */
        vp_stream_data(fd, bad, HDR, 0);
        gracht_server_handle_event(server, fd, EPOLLIN);
        alive[i] = 0;
        VP_ASSERT(ran == r, "a malformed message is not executed");
    }
    else if (what == 4) { /* a request */
        vp_stream_data(fd, req, HDR, 0);
        gracht_server_handle_event(server, fd, EPOLLIN);
        if (!FAULTS) VP_ASSERT(ran == r + 1 && vp_nsent == ns + 1 && vp_sents[ns].fd == fd, "a connected client is served");
    }
    else if (what == 5) { /* the end of the stream inside a message */
        vp_stream_data(fd, req, HDR - 3, 1);
        gracht_server_handle_event(server, fd, EPOLLIN);
        VP_ASSERT(ran == r, "half a message is not executed");
        alive[i] = 0;
    }
    else if (what == 6) { /* nothing to read */
        vp_stream_data(fd, req, 0, 0);
        gracht_server_handle_event(server, fd, EPOLLIN);
        VP_ASSERT(ran == r, "nothing is executed without a message");
    }
    else { /* a stream client that unsubscribes from everything stays */
        vp_stream_data(fd, ctl, HDR + 1, 0);
        gracht_server_handle_event(server, fd, EPOLLIN);
    }
    VP_ASSERT(n_disconnected == d + !alive[i], "the end of a connection is announced exactly once");
    if (!alive[i]) VP_ASSERT(last_disconnected == fd, "it names the client that left");
}
void vp_main(void) {
    hdr(req, 1, HDR, SID, 1, 0); hdr(bad, 1, 3, SID, 1, 0); hdr(ctl, 1, HDR + 1, 0, 1, 1); ctl[HDR] = 0xFF;
    srv_create(WORKERS, vp_bool());
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    lfd = srv_addlink(0, 16);
    for (int k = 0; k < EXTRA; k++) { fds[nc] = srv_connect(lfd); alive[nc] = 1; nc++; invariants(); }
    int last = LEAVERS ? (int)vp_pick(0, 1) : 0;   /* the oldest or the youngest leave again */
    for (int k = 0; k < LEAVERS; k++) { int i = last ? nc - 1 - k : k; gracht_server_handle_event(server, fds[i], EPOLLRDHUP); alive[i] = 0; VP_ASSERT(last_disconnected == fds[i], "it names the client that left"); invariants(); }
    vp_accept_fail_budget = vp_send_fail_budget = FAULTS;
    for (int k = 0; k < OPS; k++) { op(); invariants(); }
    gracht_server_request_shutdown(server);
    VP_ASSERT(gracht_server_handle_event(server, lfd, EPOLLIN) == -1, "the event after a shutdown request ends the server");
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
    VP_ASSERT(vp_fds_opened == vp_fds_closed, "shutdown closes every descriptor");
    VP_ASSERT(vp_mtx_live == 0 && vp_cnd_live == 0 && vp_mtx_total_held == 0, "shutdown destroys every lock");
}
#elif MODE == 1
static int step, asked, c = -1, total_requests, given, arrived;
#ifdef BATCH  /* full batches: many clients connect at once, then all of them call at once */
static int cs[BATCH];
static int next(struct epoll_event* ev, int max) {
    VP_ASSERT(!asked, "no more events are taken once shutdown was requested");
    VP_ASSERT(total_requests == given && n_connected == arrived, "every event the main loop is given is handled");
    VP_ASSERT(max >= 1, "the main loop has room for events");
    step++;
    VP_ASSUME(step < 20);
    if (arrived < BATCH) {
        int k = BATCH - arrived < max ? BATCH - arrived : max;
        if (VPFD(lfd).mask & (EPOLLET | EPOLLONESHOT)) k = arrived ? 0 : 1;  /* told once */
        for (int i = 0; i < k; i++) { ev[i].events = EPOLLIN; ev[i].data.fd = lfd; }
        if (!k) { arrived = BATCH; return 0; }
        arrived += k;
        return k;
    }
    if (given < BATCH) {
        int k = BATCH - given < max ? BATCH - given : max;
        for (int i = 0; i < k; i++) { ev[i].events = EPOLLIN; ev[i].data.fd = cs[given + i]; vp_stream_data(cs[given + i], req, HDR, 0); }
        given += k;
        return k;
    }
    VP_WITNESS("all served");
    asked = 1; gracht_server_request_shutdown(server);
    ev[0].events = EPOLLIN; ev[0].data.fd = lfd;
    return 1;
}
static int stop_at;
static void stopper(struct gracht_message* m, gracht_buffer_t* b) { (void)b; total_requests++; if (total_requests == stop_at) { asked = 1; gracht_server_request_shutdown(m->server); VP_WITNESS("shutdown requested by a handler"); } }
static void connected(gracht_conn_t fd) { VP_ASSERT(n_connected < BATCH, "a connection is announced once"); cs[n_connected++] = fd; }
#elif defined(UNRULY) /* clients that leave, send nonsense or are not there to be answered */
static int dfd, left;
static uint8_t nonsense[HDR];
static int next(struct epoll_event* ev, int max) {
    VP_ASSERT(!asked && vp_mtx_total_held == 0, "no more events are taken once shutdown was requested");
    VP_ASSERT(total_requests == given && n_connected == arrived && n_disconnected == left, "every event the main loop is given is handled");
    step++;
    if (step > OPS) { VP_WITNESS("all served"); asked = 1; gracht_server_request_shutdown(server); ev[0].events = EPOLLIN; ev[0].data.fd = lfd; return 1; }
    (void)max;
    int what = c < 0 ? (vp_bool() ? 0 : 7) : (int)vp_pick(0, 8);
    vp_send_fail_budget = 0;
    ev[0].events = EPOLLIN; ev[0].data.fd = what == 0 ? lfd : what >= 7 ? dfd : c;
    switch (what) {
        case 0: arrived++; break;
        case 1: VPFD(c).in = NULL; ev[0].events = EPOLLRDHUP; left++; c = -1; vp_send_fail_budget = 1; break;
        case 2: vp_stream_data(c, req, HDR, 0); given++; vp_send_fail_budget = 1; break;
        case 3: hdr(nonsense, 1, HDR - 1, SID, 1, 0); vp_stream_data(c, nonsense, HDR, 0); left++; c = -1; vp_send_fail_budget = 1; break;
        case 4: hdr(nonsense, 1, HDR, SID, 9, 0); vp_stream_data(c, nonsense, HDR, 0); vp_send_fail_budget = 1; break;
        case 5: VPFD(c).in_len = VPFD(c).in_pos = 0; break;
        case 6: ev[0].data.fd = 999; break;
        case 7: hdr(nonsense, 1, HDR + 1, SID, 1, 0); vp_ndgrams = 0; vp_dgram_data(dfd, nonsense, HDR, nonsense, 4); break;
        default: vp_ndgrams = 0; vp_dgram_data(dfd, req, HDR, nonsense, 4); given++; vp_send_fail_budget = 1; break;
    }
    return 1;
}
static void say(void) {
    gracht_buffer_t b;
    if (gracht_server_get_buffer(server, &b)) return;
    hdr((uint8_t*)b.data, 0, 0, SID, 3, 2);
    b.index = HDR;
    gracht_server_broadcast_event(server, &b, 0);
}
static void stopper(struct gracht_message* m, gracht_buffer_t* b) { total_requests++; handler(m, b); }
static void connected(gracht_conn_t fd) { c = fd; n_connected++; }
static void parted(gracht_conn_t fd) { (void)fd; n_disconnected++; if (!asked) say(); }
#else
static int next(struct epoll_event* ev, int max) {
    VP_ASSERT(!asked, "no more events are taken once shutdown was requested");
    VP_ASSERT(total_requests == given && n_connected == arrived, "every event the main loop is given is handled");
    VP_ASSUME(step < OPS);
    step++;
    if (!FAULTS && vp_bool()) { VP_WITNESS("waiting for events fails"); errno = EINTR; return -1; }
    int n = (int)vp_pick(1, max < 2 ? max : 2);
    for (int i = 0, sent = 0; i < n; i++) {
        int what = (int)vp_pick(0, 2);
        ev[i].events = EPOLLIN;
        if (what == 0 || c < 0) { ev[i].data.fd = lfd; arrived++; }
        else { ev[i].data.fd = c; if (!sent) { sent = 1; vp_stream_data(c, req, HDR, 0); given++; } }
    }
    if (vp_bool()) { asked = 1; gracht_server_request_shutdown(server); VP_WITNESS("shutdown requested while events are pending"); }
    return n;
}
static void stopper(struct gracht_message* m, gracht_buffer_t* b) { (void)b; total_requests++; if (vp_bool()) { asked = 1; gracht_server_request_shutdown(m->server); VP_WITNESS("shutdown requested by a handler"); } }
static void connected(gracht_conn_t fd) { c = fd; n_connected++; }
#endif
void vp_main(void) {
    hdr(req, 1, HDR, SID, 1, 0);
    gracht_server_configuration_t cfg;
    gracht_server_configuration_init(&cfg);
    cfg.callbacks.clientConnected = connected;
#ifdef UNRULY
    cfg.callbacks.clientDisconnected = parted;
#endif
    gracht_server_configuration_set_max_msg_size(&cfg, MAXMSG);
    fns[0].address = (void*)stopper;
    VP_ASSERT(gracht_server_create(&cfg, &server) == 0, "a server is created");
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    VP_ASSERT(gracht_server_get_aio_handle(server) == vp_aio_handle, "the event set of the server is available");
    lfd = srv_addlink(0, 16);
    vp_epoll_next = next;
#ifdef UNRULY
    dfd = srv_addlink(1, 16);
#endif
#ifdef BATCH
    stop_at = (int)vp_pick(0, BATCH);
#endif
    vp_cleanup_fail_budget = FAULTS;
    int st = gracht_server_main_loop(server);
    VP_ASSERT(asked, "the main loop ends only when asked to");
    VP_ASSERT(st == 0, "it ends without an error");
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
    VP_ASSERT(vp_fds_opened == vp_fds_closed, "shutdown closes every descriptor");
    VP_ASSERT(vp_mtx_live == 0 && vp_cnd_live == 0 && vp_mtx_total_held == 0, "shutdown destroys every lock");
}
#elif MODE == 3
void vp_main(void) {
    gracht_server_configuration_t cfg;
    gracht_server_configuration_init(&cfg);
    gracht_server_configuration_set_max_msg_size(&cfg, MAXMSG);
    gracht_server_configuration_set_num_workers(&cfg, WORKERS);
    cfg.callbacks.clientConnected = on_connected;
    if (vp_bool()) gracht_server_configuration_set_aio_descriptor(&cfg, vp_aio_handle);
    if (vp_bool()) vp_alloc_fail_budget = 1; else vp_sock_fail_budget = 1;
    int st = gracht_server_create(&cfg, &server);
    vp_alloc_fail_budget = 0;
    if (st) {
        VP_ASSERT(vp_alloc_failures || vp_sock_fail_budget == 0, "creation fails only for a reason");
        VP_ASSERT(vp_live_allocs == 0 && vp_fds_opened == vp_fds_closed, "a server that cannot be created leaves nothing behind");
        VP_ASSERT(vp_mtx_live == 0 && vp_cnd_live == 0 && vp_mtx_total_held == 0, "nor any lock");
        VP_ASSERT(vp_thrd_joined == vp_thrd_created, "nor any worker");
        VP_WITNESS("creation fails");
        return;
    }
    vp_sock_fail_budget = 0;
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "a server that was created takes services");
    lfd = srv_addlink(0, 16);
    int c = srv_connect(lfd);
    VP_ASSERT(VPFD(c).registered, "and clients");
    hdr(req, 1, HDR, SID, 9, 0);
    vp_stream_data(c, req, HDR, 0);
    gracht_server_handle_event(server, c, EPOLLIN);
    VP_WITNESS("created");
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0 && vp_fds_opened == vp_fds_closed && vp_mtx_live == 0 && vp_cnd_live == 0, "shutdown releases everything");
}
#else
static struct gracht_link_socket* ls[6];
static int lfds[6];
void vp_main(void) {
    int ok = 0, failed = 0;
    gracht_server_configuration_t cfg;
    gracht_server_configuration_init(&cfg);
    VP_ASSERT(gracht_server_create(NULL, &server) == -1 && gracht_server_create(&cfg, NULL) == -1, "an incomplete call creates nothing");
    VP_ASSERT(vp_live_allocs == 0 && vp_fds_opened == 0, "and acquires nothing");
    vp_sock_fail_budget = FAULTS;
    if (vp_bool()) gracht_server_configuration_set_num_workers(&cfg, 1);
    cfg.callbacks.clientConnected = on_connected;
    gracht_server_configuration_set_max_msg_size(&cfg, MAXMSG);
    server = NULL;
    if (gracht_server_create(&cfg, &server)) {
        VP_ASSERT(vp_sock_fail_budget < FAULTS, "creation fails only for a reason");
        VP_ASSERT(vp_live_allocs == 0 && vp_fds_opened == vp_fds_closed && vp_mtx_live == 0, "a server that cannot be created leaves nothing behind");
        VP_WITNESS("creation fails");
        return;
    }
    VP_ASSERT(gracht_server_add_link(server, NULL) == -1 && gracht_server_add_link(NULL, (struct gracht_link*)&cfg) == -1, "no link, no server: refused");
    VP_ASSERT(gracht_server_register_protocol(server, NULL) == -1, "no service: refused");
    int dgram = (int)vp_pick(0, 1);
    for (int i = 0; i < 6; i++) {
        ls[i] = srv_newlink((i & 1) == dgram, 16);
        int opened = vp_fds_opened - vp_fds_closed, budget = vp_sock_fail_budget;
        int st = gracht_server_add_link(server, (struct gracht_link*)ls[i]);
        if (ok >= 4) {
            VP_ASSERT(st == -1, "the server takes four links and no more");
            VP_ASSERT(vp_fds_opened - vp_fds_closed == opened, "a refused link opens nothing");
            vp_free(ls[i]);
            continue;
        }
        if (budget > vp_sock_fail_budget) {
            VP_ASSERT(st == -1, "a link that cannot be set up is refused");
            VP_ASSERT(vp_fds_opened - vp_fds_closed == opened, "a refused link leaves no descriptor open");
            failed++;
            vp_free(ls[i]);
            VP_WITNESS("a link fails");
            continue;
        }
        VP_ASSERT(st == 0, "a link is added");
        int fd = gracht_link_get_handle((struct gracht_link*)ls[i]);
        VP_ASSERT(VPFD(fd).kind == ((i & 1) == dgram ? FD_DGRAM : FD_LISTEN) && VPFD(fd).registered, "the server listens on a link");
        lfds[i] = fd;
        ok++;
        VP_WITNESS_IF(ok == 4, "four links");
    }
    /* every link is served: connections on stream links are accepted, and requests that come in on any link are answered there */
    vp_sock_fail_budget = 0;
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "services are registered next to links");
    for (int i = 0; i < 6; i++) if (lfds[i]) {
        int before = vp_nsent, r = ran, nc = n_connected;
        int fd = lfds[i], c = fd;
        uint8_t a[16];
        memset(a, 'A' + i, sizeof(a));
        hdr(req, 7 + (uint32_t)i, HDR, SID, 1, 0);
        if ((i & 1) == dgram) vp_dgram_data(fd, req, HDR, a, 16);
        else {
            c = srv_connect(fd);
            VP_ASSERT(n_connected == nc + 1 && VPFD(c).registered, "every stream link accepts clients");
            vp_stream_data(c, req, HDR, 0);
        }
        gracht_server_handle_event(server, c, EPOLLIN);
        VP_ASSERT(ran == r + 1, "requests on every link are handled");
        VP_ASSERT(vp_nsent == before + 1 && vp_sents[before].fd == c && vp_sents[before].n == HDR && get32(vp_sents[before].data) == 7 + (uint32_t)i, "and answered where they came from");
        VP_ASSERT(!vp_sents[before].has_addr || !memcmp(vp_sents[before].addr, a, 16), "and by whom");
    }
    int n = n_connected;
    gracht_server_request_shutdown(server);
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == -1, "nothing is registered with a server that shuts down");
    struct gracht_link_socket* late = srv_newlink(0, 16);
    VP_ASSERT(gracht_server_add_link(server, (struct gracht_link*)late) == -1, "no link is added to a server that shuts down");
    vp_free(late);
    VP_ASSERT(gracht_server_get_aio_handle(server) == GRACHT_HANDLE_INVALID, "no event set of a server that shuts down");
    VP_ASSERT(gracht_server_main_loop(server) == -1, "no main loop of a server that shuts down");
    gracht_server_request_shutdown(server);
    VP_ASSERT(n == n_connected, "nobody connects meanwhile");
    VP_ASSERT(gracht_server_handle_event(server, 3, EPOLLIN) == -1 && errno == EPIPE, "the next event ends the server");
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
    VP_ASSERT(vp_fds_opened == vp_fds_closed, "shutdown closes every descriptor");
    VP_ASSERT(vp_mtx_live == 0 && vp_cnd_live == 0 && vp_mtx_total_held == 0, "shutdown destroys every lock");
}
#endif
