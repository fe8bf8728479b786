/* Shared set-up for the client harnesses: a client on the socket world; calls are made the
 * way the generated code makes them. */
#ifndef CLILIB_H
#define CLILIB_H
#include "vp.h"
#include "vp_world.h"
#include "vp_sock.h"
#include <gracht/client.h>
#include <gracht/link/socket.h>
#ifndef MAXMSG
#define MAXMSG 40
#endif
#define HDR 11
extern int gracht_client_get_buffer(gracht_client_t*, gracht_buffer_t*);
extern int gracht_client_get_status_buffer(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
extern int gracht_client_status_finalize(gracht_client_t*, gracht_buffer_t*);
extern int gracht_client_invoke(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
static gracht_client_t* client;
static int fd;
static void put32(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }
static uint32_t get32(const uint8_t* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static void hdr(uint8_t* p, uint32_t id, uint32_t len, uint8_t sid, uint8_t aid, uint8_t flags) { put32(p, id); put32(p + 4, len); p[8] = sid; p[9] = aid; p[10] = flags; }
static void cli_make(int packet, int alen) {
    vp_send_full_budget = 1;
    struct gracht_link_socket* l;
    struct sockaddr_storage a;
    gracht_client_configuration_t cfg;
    memset(&a, 0, sizeof(a));
    VP_ASSERT(gracht_link_socket_create(&l) == 0, "link created");
    gracht_link_socket_set_type(l, packet ? gracht_link_packet_based : gracht_link_stream_based);
    gracht_link_socket_set_listen(l, 0);
    gracht_link_socket_set_address(l, &a, alen);
    gracht_client_configuration_init(&cfg);
    gracht_client_configuration_set_link(&cfg, (struct gracht_link*)l);
    gracht_client_configuration_set_max_msg_size(&cfg, MAXMSG);
#ifdef RECVBUF
    gracht_client_configuration_set_recv_buffer(&cfg, NULL, RECVBUF);
#endif
    VP_ASSERT(gracht_client_create(&cfg, &client) == 0, "a client with a valid configuration is created");
}
static void cli_connect(void) {
    VP_ASSERT(gracht_client_connect(client) == 0, "the client connects");
    fd = gracht_client_iod(client);
    VP_ASSERT(VPFD(fd).owner == 1, "the descriptor of the client is its connection");
}
static int call(struct gracht_message_context* c, uint8_t sid, uint8_t aid, uint8_t flags, const uint8_t* body, int n) {
    gracht_buffer_t b = { NULL, 0x77 };
    VP_ASSERT(gracht_client_get_buffer(client, &b) == 0, "the send buffer is available");
    VP_ASSERT(b.index == 0 && VP_OK(b.data, MAXMSG), "the send buffer holds a message");
    hdr((uint8_t*)b.data, 0, 0, sid, aid, flags);
    for (int i = 0; i < n; i++) b.data[HDR + i] = (char)body[i];
    b.index = HDR + n;
    errno = (int)vp_u32();   /* whatever it was left at */
    return gracht_client_invoke(client, c, &b);
}
static void cli_end(void) {
    VP_ASSERT(vp_mtx_total_held == 0, "no lock is held afterwards");
    gracht_client_shutdown(client);
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
    VP_ASSERT(vp_fds_opened == vp_fds_closed, "shutdown closes the connection");
    VP_ASSERT(vp_mtx_live == 0 && vp_cnd_live == 0, "shutdown destroys every lock");
}
#endif
