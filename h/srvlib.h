/* Shared set-up for the server harnesses: a server on the socket world with a registered
 * test service whose handlers record what they were given. */
#ifndef SRVLIB_H
#define SRVLIB_H
#include "vp.h"
#include "vp_world.h"
#include "vp_sock.h"
#include <gracht/server.h>
#include <gracht/link/socket.h>
#ifndef MAXMSG
#define MAXMSG 40
#endif
#define HDR 11
extern int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
extern int gracht_server_respond(struct gracht_message*, gracht_buffer_t*);
extern int gracht_server_send_event(gracht_server_t*, gracht_conn_t client, gracht_buffer_t*, unsigned int flags);
extern int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int flags);

/* events reach the server the way the kernel reports them */
static int vp_handle_event(gracht_server_t* s, gracht_conn_t fd, unsigned int happened) {
    unsigned int e = vp_events(fd, happened);
    if (happened && !e) return 0;
    errno = (int)vp_u32();   /* whatever it was left at */
    return gracht_server_handle_event(s, fd, e);
}
#define gracht_server_handle_event vp_handle_event
static gracht_server_t* server;
static int n_connected, n_disconnected, last_connected, last_disconnected;
#ifndef GREET
#define GREET 0
#endif
static int announce_event(gracht_conn_t c);
static void on_connected(gracht_conn_t c) {
    n_connected++; last_connected = c;
    if (GREET) {
        int n = vp_nsent;
        VP_ASSERT(announce_event(c) == 0 && vp_nsent == n + 1, "a client that is announced can be sent events");
        VP_ASSERT(vp_sents[n].has_addr || vp_sents[n].fd == c, "which go to that client");
    }
}
static void on_disconnected(gracht_conn_t c) {
    n_disconnected++; last_disconnected = c;
    if (GREET) {
        int n = vp_nsent;
        VP_ASSERT(announce_event(c) != 0 && vp_nsent == n, "a client that is announced to have left can not be sent events");
    }
}

static void srv_create(int workers, int aio) {
    gracht_server_configuration_t cfg;
    gracht_server_configuration_init(&cfg);
    cfg.callbacks.clientConnected = on_connected;
    cfg.callbacks.clientDisconnected = on_disconnected;
    if (aio) gracht_server_configuration_set_aio_descriptor(&cfg, vp_aio_handle);
    gracht_server_configuration_set_max_msg_size(&cfg, MAXMSG);
    gracht_server_configuration_set_num_workers(&cfg, workers);
    int st = gracht_server_create(&cfg, &server);
    VP_ASSERT(st == 0 && server, "a server with a valid configuration is created");
}
static struct gracht_link_socket* srv_newlink(int packet, int alen) {
    struct gracht_link_socket* l;
    struct sockaddr_storage a;
    memset(&a, 0, sizeof(a));
    VP_ASSERT(gracht_link_socket_create(&l) == 0, "link created");
    gracht_link_socket_set_type(l, packet ? gracht_link_packet_based : gracht_link_stream_based);
    gracht_link_socket_set_listen(l, 1);
    gracht_link_socket_set_address(l, &a, alen);
    return l;
}
static int srv_addlink(int packet, int alen) {
    struct gracht_link_socket* l = srv_newlink(packet, alen);
    VP_ASSERT(gracht_server_add_link(server, (struct gracht_link*)l) == 0, "the link is added");
    return gracht_link_get_handle((struct gracht_link*)l);
}
/* a stream client connects: returns its descriptor */
static int srv_connect(int listenfd) {
    int before = n_connected;
    gracht_server_handle_event(server, listenfd, EPOLLIN);
    VP_ASSERT(n_connected == before + 1, "a new connection is announced");
    return last_connected;
}
static void put32(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }
static uint32_t get32(const uint8_t* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static void hdr(uint8_t* p, uint32_t id, uint32_t len, uint8_t sid, uint8_t aid, uint8_t flags) { put32(p, id); put32(p + 4, len); p[8] = sid; p[9] = aid; p[10] = flags; }
static int announce_event(gracht_conn_t c) {
    gracht_buffer_t b;
    VP_ASSERT(gracht_server_get_buffer(server, &b) == 0, "a buffer for an event");
    hdr((uint8_t*)b.data, 0, 0, 7, 9, 2);
    b.index = HDR;
    return gracht_server_send_event(server, c, &b, 0);
}
#endif
