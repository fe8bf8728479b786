/* Configuration takes effect.
 * MODE 0: a listening link of any domain, type and address, configured in any order.
 * MODE 1: the same for a connecting link.
 * MODE 2: a server with any choice of message size, workers, callbacks and event set.
 * MODE 3: a client with any choice of message size, send buffer and receive memory. */
#ifndef MODE
#define MODE 0
#endif
#define MAXMSG 40
#if MODE == 0 || MODE == 2
#include "srvlib.h"
#else
#include "clilib.h"
#endif
#define SID 7
#if MODE < 2
static struct gracht_link_socket* l;
static int domain, packet, alen, order; static struct sockaddr_storage a;
static void set(int what) {
    if (what == 0) gracht_link_socket_set_domain(l, domain);
    if (what == 1) gracht_link_socket_set_type(l, packet ? gracht_link_packet_based : gracht_link_stream_based);
    if (what == 2) gracht_link_socket_set_address(l, &a, (socklen_t)alen);
    if (what == 3) gracht_link_socket_set_listen(l, MODE == 0);
}
static void make(void) {
    static const int lens[] = { 0, 2, 16, 28, 110, 128 };
    domain = (int)vp_u32(); packet = (int)vp_pick(0, 1); alen = lens[vp_pick(0, 5)]; order = (int)vp_pick(0, 3);
    for (int i = 0; i < alen; i++) ((uint8_t*)&a)[i] = vp_u8();
    VP_ASSERT(gracht_link_socket_create(&l) == 0, "link created");
    VP_ASSERT(gracht_link_get_handle((struct gracht_link*)l) == GRACHT_CONN_INVALID, "a link that is not set up has no connection");
    if (vp_bool()) gracht_link_socket_set_listen(l, MODE != 0);   /* changed one's mind */
    for (int i = 0; i < 4; i++) set((order + i) % 4);
    VP_ASSERT(gracht_link_get_type((struct gracht_link*)l) == (packet ? gracht_link_packet_based : gracht_link_stream_based), "a link has the type it was given");
}
static void look(int fd) {
    struct vp_fd* f = &VPFD(fd);
    VP_ASSERT(f->domain == domain, "the socket has the configured domain");
    VP_ASSERT(f->type == (packet ? SOCK_DGRAM : SOCK_STREAM), "the socket has the configured type");
    VP_ASSERT(f->alen == alen, "the configured address is used");
    for (int i = 0; i < alen; i++) VP_ASSERT(f->addr[i] == ((uint8_t*)&a)[i], "the configured address is used");
}
#endif
#if MODE == 0
void vp_main(void) {
    make();
    srv_create(1, 1);
    VP_ASSERT(gracht_server_add_link(server, (struct gracht_link*)l) == 0, "the link is added");
    int fd = gracht_link_get_handle((struct gracht_link*)l);
    VP_ASSERT(fd != GRACHT_CONN_INVALID && vp_fds_opened == 1, "one socket is opened");
    look(fd);
    VP_ASSERT(VPFD(fd).bound == 1 && VPFD(fd).listening == !packet && VPFD(fd).registered, "the server listens at the address");
    VP_WITNESS_IF(packet && alen == 128, "datagrams"); VP_WITNESS_IF(!packet, "stream");
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, fd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0 && vp_fds_opened == vp_fds_closed, "shutdown releases everything");
}
#elif MODE == 1
void vp_main(void) {
    gracht_client_configuration_t cfg;
    make();
    gracht_client_configuration_init(&cfg);
    gracht_client_configuration_set_link(&cfg, (struct gracht_link*)l);
    gracht_client_configuration_set_max_msg_size(&cfg, MAXMSG);
    VP_ASSERT(gracht_client_create(&cfg, &client) == 0, "a client with a valid configuration is created");
    VP_ASSERT(vp_fds_opened == 0, "a client connects when it is told to");
    cli_connect();
    VP_ASSERT(vp_fds_opened == 1 && gracht_link_get_handle((struct gracht_link*)l) == fd, "one socket is opened");
    look(fd);
    VP_ASSERT(VPFD(fd).bound == 0 && VPFD(fd).listening == 0, "a client does not listen");
    struct gracht_message_context c;
    VP_ASSERT(call(&c, SID, 1, 1, NULL, 0) == 0 && vp_nsent == 1 && vp_sents[0].fd == fd, "requests are sent over the connection");
    VP_WITNESS_IF(packet && alen == 128, "datagrams"); VP_WITNESS_IF(!packet, "stream");
    cli_end();
}
#elif MODE == 2
#include <threads.h>
static int ran, max, is_packet; static uint8_t* big; static uint8_t mark;
static void handler(struct gracht_message* m, gracht_buffer_t* b) {
    gracht_buffer_t r;
    ran++;
    VP_ASSERT((uint8_t)b->data[b->index] == mark && VP_OK(b->data + b->index - HDR, max) && (uint8_t)b->data[b->index - HDR + max - 1] == (uint8_t)(mark ^ 0xff), "a message of the configured size is received whole");
    VP_ASSERT(gracht_server_get_buffer(server, &r) == 0 && VP_OK(r.data, max), "a response can have the configured size");
    hdr((uint8_t*)r.data, 0, 0, SID, 1, 3);
    r.data[max - 1] = (char)mark; r.index = (uint32_t)max;
    VP_ASSERT(gracht_server_respond(m, &r) == 0, "the response is sent");
    vp_wake(&ran, 1);
}
static gracht_protocol_function_t fns[1] = { { 1, handler } };
static gracht_protocol_t proto = GRACHT_PROTOCOL_INIT(SID, "t", 1, fns);
void vp_main(void) {
    static const int sizes[] = { 0, -7, 16, 40, 100, 2048, 5000 };
    gracht_server_configuration_t cfg;
    int aio = (int)vp_bool(), cb = (int)vp_bool(), workers = (int)vp_pick(0, 3), how = (int)vp_pick(0, 7), fd;
    is_packet = (int)vp_bool();
    vp_hold(1);
    if (vp_bool()) gracht_server_configuration_init(&cfg);
    else { memset(&cfg, 0, sizeof(cfg)); VP_ASSUME(how == 0); VP_WITNESS("a cleared configuration"); }
    max = GRACHT_DEFAULT_MESSAGE_SIZE;
    if (how > 0) { gracht_server_configuration_set_max_msg_size(&cfg, sizes[how - 1]); if (sizes[how - 1] > 0) max = sizes[how - 1]; }
    gracht_server_configuration_set_num_workers(&cfg, workers);
    if (aio) gracht_server_configuration_set_aio_descriptor(&cfg, vp_aio_handle);
    if (cb) { cfg.callbacks.clientConnected = on_connected; cfg.callbacks.clientDisconnected = on_disconnected; }
    int own = vp_aio_handle;
    VP_ASSERT(gracht_server_create(&cfg, &server) == 0, "a server with a valid configuration is created");
    memset(&cfg, 0xa5, sizeof(cfg));   /* the configuration is the caller's again */
    VP_ASSERT(vp_thrd_created == (workers > 1 ? workers : 0), "a server has the workers it was configured with");
    VP_ASSERT(gracht_server_get_aio_handle(server) == vp_aio_handle && (aio ? vp_aio_handle == own && vp_fds_opened == 0 : vp_fds_opened == 1), "a server uses the event set it was given, or its own");
    VP_ASSERT(gracht_server_register_protocol(server, &proto) == 0, "service registered");
    int lfd = srv_addlink(is_packet, 16);
    big = vp_malloc((size_t)max);
    mark = vp_u8();
    memset(big, 0, (size_t)max);
    hdr(big, 77, (uint32_t)max, SID, 1, 0);
    big[max - 1] = (uint8_t)(mark ^ 0xff); big[HDR] = mark;
    VP_ASSUME(max > HDR + 1);
    fd = lfd;
    if (is_packet) { uint8_t from[16] = { 1, 2, 3 }; vp_dgram_data(lfd, big, max, from, 16); }
    else {
        int before = n_connected;
        gracht_server_handle_event(server, lfd, EPOLLIN);
        VP_ASSERT(n_connected == before + cb, "connections are announced to the callback that was given, if any");
        for (fd = VP_FD0; fd < VP_FD0 + VP_NFD && VPFD(fd).kind != FD_STREAM; fd++) ;
        VP_ASSERT(fd < VP_FD0 + VP_NFD, "the connection is accepted");
        vp_stream_data(fd, big, max, 0);
    }
    gracht_server_handle_event(server, fd, EPOLLIN);
    while (workers > 1 && !ran && n_disconnected == 0) vp_block(&ran);
    VP_ASSERT(ran == 1, "a message of the configured size is handled");
    VP_ASSERT(vp_nsent == 1 && vp_sents[0].n == max && get32(vp_sents[0].data) == 77 && get32(vp_sents[0].data + 4) == (uint32_t)max, "a response of the configured size is sent whole");
    if (!is_packet) { gracht_server_handle_event(server, fd, EPOLLRDHUP); VP_ASSERT(n_disconnected == cb && VPFD(fd).kind == FD_FREE, "and their end"); }
    VP_WITNESS_IF(workers == 3 && aio && cb, "workers");
    vp_free(big);
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0 && vp_fds_opened == vp_fds_closed && vp_mtx_live == 0 && vp_thrd_joined == vp_thrd_created, "shutdown releases everything but the event set it was given");
}
#else
void vp_main(void) {
    static const int sizes[] = { -1, 0, 16, 40, 100, 2048, 5000 };
    gracht_client_configuration_t cfg; struct gracht_link_socket* l; struct sockaddr_storage a;
    int how = (int)vp_pick(0, 7), given = (int)vp_bool(), recv = (int)vp_pick(0, 4), packet = (int)vp_bool(), max = GRACHT_DEFAULT_MESSAGE_SIZE, held;
    memset(&a, 0, sizeof(a));
    VP_ASSERT(gracht_link_socket_create(&l) == 0, "link created");
    gracht_link_socket_set_type(l, packet ? gracht_link_packet_based : gracht_link_stream_based);
    gracht_link_socket_set_address(l, &a, 16);
    if (vp_bool()) gracht_client_configuration_init(&cfg);
    else { memset(&cfg, 0, sizeof(cfg)); VP_ASSUME(how == 0 && recv > 0); VP_WITNESS("a cleared configuration"); }
    gracht_client_configuration_set_link(&cfg, (struct gracht_link*)l);
    if (how > 0) { gracht_client_configuration_set_max_msg_size(&cfg, sizes[how - 1]); if (sizes[how - 1] > 0) max = sizes[how - 1]; }
    char* mine = NULL;
    if (given) { mine = vp_malloc((size_t)max); gracht_client_configuration_set_send_buffer(&cfg, mine); }
    /* receive memory: not given, too little, twice, for many */
    if (recv > 0) gracht_client_configuration_set_recv_buffer(&cfg, NULL, recv == 1 ? 0 : recv == 2 ? max * 2 : recv == 3 ? max * 2 + 1 : max * 12 + 400);
    held = recv == 4 ? 10 : 1;
    VP_ASSERT(gracht_client_create(&cfg, &client) == 0, "a client with a valid configuration is created");
    memset(&cfg, 0xa5, sizeof(cfg));
    cli_connect();
    gracht_buffer_t b; static struct gracht_message_context c[10]; static uint8_t* answers; uint8_t mark = vp_u8();
    answers = vp_malloc((size_t)(max * held));
    memset(answers, 0, (size_t)(max * held));
    for (int i = 0; i < held; i++) {
        VP_ASSERT(gracht_client_get_buffer(client, &b) == 0 && VP_OK(b.data, max), "a request can have the configured size");
        if (given) VP_ASSERT(b.data == mine, "the send buffer that was given is used");
        hdr((uint8_t*)b.data, 0, 0, SID, 1, 0);
        b.data[max - 1] = (char)mark; b.index = (uint32_t)max;
        VP_ASSERT(gracht_client_invoke(client, &c[i], &b) == 0, "a request of the configured size is sent");
        VP_ASSERT(vp_nsent == i + 1 && vp_sents[i].fd == fd && vp_sents[i].n == max && get32(vp_sents[i].data + 4) == (uint32_t)max, "a request of the configured size is sent whole");
        uint8_t* r = answers + i * max;
        hdr(r, c[i].message_id, (uint32_t)max, SID, 1, 3);
        r[HDR] = (uint8_t)i; r[max - 1] = (uint8_t)(mark ^ 0x55);
        if (packet && i < VP_NDGRAM) vp_dgram_data(fd, r, max, (const uint8_t*)&a, 16);
    }
    if (packet) VP_ASSUME(held == 1);
    else vp_stream_data(fd, answers, max * held, 0);
    for (int i = 0; i < held; i++) VP_ASSERT(gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK) == 0, "a response of the configured size is received");
    for (int i = 0; i < held; i++) {
        VP_ASSERT(gracht_client_get_status_buffer(client, &c[i], &b) == GRACHT_MESSAGE_COMPLETED, "a response of the configured size completes its call");
        VP_ASSERT((uint8_t)b.data[b.index] == (uint8_t)i && VP_OK(b.data + b.index - HDR, max) && (uint8_t)b.data[b.index - HDR + max - 1] == (uint8_t)(mark ^ 0x55), "it is received whole");
        gracht_client_status_finalize(client, &b);
    }
    VP_WITNESS_IF(held == 10, "many responses"); VP_WITNESS_IF(given && packet, "a given send buffer");
    vp_free(answers);
    gracht_client_shutdown(client);
    if (given) { mine[max - 1] = 1; vp_free(mine); }
    VP_ASSERT(vp_live_allocs == 0 && vp_fds_opened == vp_fds_closed && vp_mtx_live == 0, "shutdown releases everything but the send buffer that was given");
}
#endif
