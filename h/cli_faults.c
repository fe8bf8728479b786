/* One failure anywhere in the life of a client: a receive, a send or an allocation.
 * MODE 0: any OPS operations with one failure, then calls and events work, and shutdown leaves nothing behind.
 * MODE 1: creation and connecting with one failing allocation or system call. */
#include "clilib.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef KIND
#define KIND 2
#endif
#ifndef PACKET
#define PACKET 0
#endif
#define SID 7
static int events;
static void on_event(gracht_client_t* c, gracht_buffer_t* b) { (void)c; (void)b; events++; }
static gracht_protocol_function_t fns[1] = { { 1, on_event } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 1, fns);
static int budget(void) { return vp_recv_fail_budget + vp_send_fail_budget + vp_alloc_fail_budget; }
#if MODE == 0
static uint8_t in[256]; static int tail;
static void push(const uint8_t* p, int n) {
    memcpy(in + tail, p, n);
    if (PACKET) vp_dgram_data(fd, in + tail, n, in, 0);
    else { VPFD(fd).in = in; VPFD(fd).in_len = tail + n; }
    tail += n;
}
static void push_response(uint32_t id) { uint8_t m[HDR + 1]; hdr(m, id, HDR + 1, SID, 1, 3); m[HDR] = 0x5a; push(m, HDR + 1); }
static void push_error(uint32_t id) { uint8_t m[HDR + 8]; hdr(m, 0, HDR + 8, 0, 2, 2); put32(m + HDR, id); put32(m + HDR + 4, 2); push(m, HDR + 8); }
static void push_event(void) { uint8_t m[HDR]; hdr(m, 0, HDR, SID, 1, 2); push(m, HDR); }
#define EXTRAMAX (EXTRA + OPS + 2)
#ifndef EXTRA
#define EXTRA 0
#endif
static struct gracht_message_context ctx[EXTRAMAX]; static int open_[EXTRAMAX], nctx; /* 1 in progress, 2 answered, 3 refused */
static struct gracht_message_context extra[10];
static int make_call(void) {
    VP_ASSUME(nctx < EXTRAMAX);
    int st = call(&ctx[nctx], SID, 1, 0, NULL, 0);
    if (st == 0) { open_[nctx] = 1; nctx++; }
    return st;
}
static int asked(int i) {
    gracht_buffer_t b; memset(&b, 0, sizeof(b));
    int st = gracht_client_get_status_buffer(client, &ctx[i], &b);
    if (st == GRACHT_MESSAGE_COMPLETED) {
        VP_ASSERT(VP_OK(b.data + b.index, 1) && b.data[b.index] == 0x5a, "the result of a call is its response");
        VP_ASSERT(gracht_client_status_finalize(client, &b) == 0, "the result is released");
    }
    return st;
}

/* how many results the client can keep until there is no memory to receive another one */
static int room(void) {
    int n = 0, st = 0;
    while (n < 10 && !st) {
        struct gracht_message_context* c = &extra[n];
        vp_nsent = 0;
        if (!PACKET) { tail = 0; vp_stream_data(fd, in, 0, 0); } else { vp_ndgrams = 0; tail = 0; }
        VP_ASSERT(call(c, SID, 1, 0, NULL, 0) == 0, "calls are still sent");
        push_response(c->message_id);
        st = gracht_client_wait_message(client, NULL, 0);
        n++;
    }
    VP_ASSERT(n < 10 && st == -1 && errno == ENOMEM, "receive memory is what was configured");
    for (int i = 0; i < n; i++) {
        gracht_buffer_t b; memset(&b, 0, sizeof(b));
        if (i == n - 1) VP_ASSERT(gracht_client_wait_message(client, NULL, 0) == 0, "a message waits until there is memory");
        VP_ASSERT(gracht_client_get_status_buffer(client, &extra[i], &b) == GRACHT_MESSAGE_COMPLETED && gracht_client_status_finalize(client, &b) == 0, "calls still have their results");
    }
    if (!PACKET) { tail = 0; vp_stream_data(fd, in, 0, 0); } else { vp_ndgrams = 0; tail = 0; }
    vp_nsent = 0;
    return n;
}
static int broken;
static int unread(void) {
    if (!PACKET) return VPFD(fd).in_pos < tail;
    for (int i = 0; i < vp_ndgrams; i++) if (!vp_dgrams[i].taken) return 1;
    return 0;
}
static void op(void) {
    int what = (int)vp_pick(0, 6), before = budget(), e = events, st, last = nctx - 1, start = VPFD(fd).in_pos;
    VP_ASSUME(!broken || what == 0 || what == 1 || what == 5);
    if (PACKET) vp_ndgrams = 0;
    switch (what) {
        case 0: st = make_call(); break;
        case 1: { struct gracht_message_context c; st = call(&c, SID, 2, 1, NULL, 0); } break;
        case 2: push_event(); st = gracht_client_wait_message(client, NULL, 0); e++; break;
        case 3: VP_ASSUME(last >= 0 && open_[last] == 1);
                push_response(ctx[last].message_id); st = gracht_client_await(client, &ctx[last], GRACHT_AWAIT_ALL); open_[last] = 2; break;
        case 4: VP_ASSUME(last >= 0 && open_[last] == 1);
                push_error(ctx[last].message_id); st = gracht_client_wait_message(client, NULL, 0); open_[last] = 3; break;
        case 5: VP_ASSUME(last >= 0 && open_[last]);
                st = asked(last);
                VP_ASSERT(st == (open_[last] == 1 ? GRACHT_MESSAGE_INPROGRESS : open_[last] == 2 ? GRACHT_MESSAGE_COMPLETED : GRACHT_MESSAGE_ERROR), "the state of a call is not changed by failures");
                if (st != GRACHT_MESSAGE_INPROGRESS) nctx--;
                st = 0; break;
        default: push_response(0x12345); gracht_client_wait_message(client, NULL, 0); st = 0; break;
    }
    if (budget() == before) VP_ASSERT(st == 0, "an operation in which nothing fails succeeds, whatever failed before");
    else {
        VP_WITNESS("a failure");
        if (what < 5 && KIND != 2) VP_ASSERT(st != 0, "a failure is reported");
    }
    VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
    if (!PACKET && VPFD(fd).in_pos != start && VPFD(fd).in_pos != tail) { broken = 1; if (what == 3 || what == 4) open_[last] = 1; }
    if (broken) return;
    for (int k = 0; k < 2 && unread(); k++) gracht_client_wait_message(client, NULL, 0);
    VP_ASSERT(!unread(), "what is left is received later");
    VP_ASSERT(events == e, "every event is handled once");
}
void vp_main(void) {
    cli_make(PACKET, 16);
    VP_ASSERT(gracht_client_register_protocol(client, &proto) == 0, "service registered");
    cli_connect();
    for (int i = 0; i < EXTRA; i++) { VP_ASSERT(make_call() == 0, "a call is sent"); vp_nsent = 0; }
    int fresh = room();
    *(KIND == 0 ? &vp_recv_fail_budget : KIND == 1 ? &vp_send_fail_budget : &vp_alloc_fail_budget) = 1;
    for (int k = 0; k < OPS; k++) op();
    vp_recv_fail_budget = vp_send_fail_budget = vp_alloc_fail_budget = 0;
    if (!broken) {
        if (PACKET) vp_ndgrams = 0;
        VP_ASSERT(make_call() == 0, "calls are still sent");
        push_event(); push_response(ctx[nctx - 1].message_id);
        int e = events;
        VP_ASSERT(gracht_client_await(client, &ctx[nctx - 1], GRACHT_AWAIT_ALL) == 0 && events == e + 1, "answers and events still arrive");
        VP_ASSERT(asked(nctx - 1) == GRACHT_MESSAGE_COMPLETED, "calls still have their results");
        nctx--;
    }
    while (nctx) { nctx--; int st = asked(nctx); VP_ASSERT(st == (open_[nctx] == 1 ? GRACHT_MESSAGE_INPROGRESS : open_[nctx] == 2 ? GRACHT_MESSAGE_COMPLETED : GRACHT_MESSAGE_ERROR), "the state of a call is not changed by failures"); }
    if (!broken) { VP_ASSERT(room() == fresh, "no receive buffer is lost"); VP_WITNESS("all buffers are there"); }
    cli_end();
}
#else
void vp_main(void) {
    struct gracht_link_socket* l = NULL;
    struct sockaddr_storage a;
    gracht_client_configuration_t cfg;
    int st;
    memset(&a, 0, sizeof(a));
    if (vp_bool()) vp_alloc_fail_budget = 1; else vp_sock_fail_budget = 1;
    if (gracht_link_socket_create(&l)) { VP_ASSERT(vp_alloc_fail_budget == 0 && vp_live_allocs == 0, "a link that cannot be created leaves nothing behind"); return; }
    gracht_link_socket_set_type(l, vp_bool() ? gracht_link_packet_based : gracht_link_stream_based);
    gracht_link_socket_set_listen(l, 0);
    gracht_link_socket_set_address(l, &a, 16);
    gracht_client_configuration_init(&cfg);
    VP_ASSERT(gracht_client_create(&cfg, &client) == -1 && gracht_client_create(NULL, &client) == -1, "an incomplete call creates nothing");
    gracht_client_configuration_set_link(&cfg, (struct gracht_link*)l);
    gracht_client_configuration_set_max_msg_size(&cfg, MAXMSG);
    static char sendbuf[MAXMSG];
    if (vp_bool()) gracht_client_configuration_set_send_buffer(&cfg, sendbuf);
    VP_ASSERT(vp_live_allocs == 1, "and acquires nothing");
    client = NULL;
    if (gracht_client_create(&cfg, &client)) {
        VP_ASSERT(vp_alloc_failures, "creation fails only for a reason");
        VP_ASSERT(vp_live_allocs == 1 && vp_mtx_live == 0 && vp_cnd_live == 0 && vp_fds_opened == 0, "a client that cannot be created leaves nothing behind");
        VP_ASSERT(gracht_link_get_handle((struct gracht_link*)l) == GRACHT_CONN_INVALID, "and leaves the link as it was");
        VP_WITNESS("creation fails");
        vp_free(l);
        return;
    }
    VP_ASSERT(gracht_client_iod(client) == GRACHT_CONN_INVALID, "a client that is not connected has no connection");
    int before = vp_sock_fail_budget;
    if (gracht_client_connect(client)) {
        VP_ASSERT(before > vp_sock_fail_budget, "connecting fails only for a reason");
        VP_ASSERT(vp_fds_opened == vp_fds_closed, "a failed connection is closed");
        VP_ASSERT(gracht_client_iod(client) == GRACHT_CONN_INVALID, "a client that is not connected has no connection");
        if (vp_bool()) { cli_end(); VP_WITNESS("given up"); return; }
        VP_ASSERT(gracht_client_connect(client) == 0, "a client can connect later");
        VP_WITNESS("connected later");
    }
    fd = gracht_client_iod(client);
    VP_ASSERT(VPFD(fd).owner == 1, "the descriptor of the client is its connection");
    VP_ASSERT(gracht_client_connect(client) == -1 && gracht_client_iod(client) == fd, "a client connects once");
    struct gracht_message_context c;
    VP_ASSERT(call(&c, SID, 1, 1, NULL, 0) == 0 && vp_nsent == 1, "a connected client works");
    cli_end();
}
#endif
