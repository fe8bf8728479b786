/* A real server and a real client in one program, joined by the socket world, with the code
 * the current generator produces from idl/rt.gr for both sides. */
#ifndef GENLIB_H
#define GENLIB_H
#include "vp.h"
#include "vp_world.h"
#include "vp_sock.h"
#include <gracht/server.h>
#include <gracht/client.h>
#include <gracht/link/socket.h>
#if defined(GEN3)   /* idl/lang.gr, which imports idl/sub/base.gr */
#include "Lang_Svc_service_server.h"
#include "Lang_Plain_service_server.h"
#include "Lang_Only_service_server.h"
#include "Lang_None_service_server.h"
#include "Lang_Svc_service_client.h"
#include "Lang_Plain_service_client.h"
#include "Lang_Only_service_client.h"
#include "Lang_None_service_client.h"
#define SERVER_PROTOCOLS &Lang_Svc_server_protocol, &Lang_Plain_server_protocol
#define CLIENT_PROTOCOLS &Lang_Svc_client_protocol, &Lang_Only_client_protocol
#elif defined(GEN2)   /* idl/mx.gr, which imports idl/vs.gr: three services */
#include "mx_three_service_server.h"
#include "vs_one_service_server.h"
#include "vs_two_service_server.h"
#include "mx_three_service_client.h"
#include "vs_one_service_client.h"
#include "vs_two_service_client.h"
#define SERVER_PROTOCOLS &vs_one_server_protocol, &vs_two_server_protocol, &mx_three_server_protocol
#define CLIENT_PROTOCOLS &vs_one_client_protocol, &vs_two_client_protocol, &mx_three_client_protocol
#else
#include "vt_rt_service_server.h"
#include "vt_rt_service_client.h"
#define SERVER_PROTOCOLS &vt_rt_server_protocol
#define CLIENT_PROTOCOLS &vt_rt_client_protocol
#endif
#ifndef MAXMSG
#define MAXMSG 158
#endif
#define HDR 11
#ifndef SLEN
#define SLEN 2
#endif
#ifndef ALEN
#define ALEN 2
#endif
#ifndef NO_WORLD
static gracht_server_t* server; static gracht_client_t* client;
static int cfd, sfd, ofd, conn;   /* the client's end; the server's ends for it and for another client */
static void on_connected(gracht_conn_t c) { conn = c; }
static void on_disconnected(gracht_conn_t c) { (void)c; }
static struct gracht_link_socket* mklink(int listening) {
    struct gracht_link_socket* l; struct sockaddr_storage a; memset(&a, 0, sizeof(a));
    VP_ASSERT(gracht_link_socket_create(&l) == 0, "link created");
    gracht_link_socket_set_type(l, gracht_link_stream_based);
    gracht_link_socket_set_listen(l, listening);
    gracht_link_socket_set_address(l, &a, 16);
    return l;
}
static int maxmsg = MAXMSG;
static void world(int with_other) {
    gracht_server_configuration_t sc; gracht_client_configuration_t cc;
    gracht_server_configuration_init(&sc);
    sc.callbacks.clientConnected = on_connected; sc.callbacks.clientDisconnected = on_disconnected;
    gracht_server_configuration_set_aio_descriptor(&sc, vp_aio_handle);
    gracht_server_configuration_set_max_msg_size(&sc, maxmsg);
    VP_ASSERT(gracht_server_create(&sc, &server) == 0, "server created");
    gracht_protocol_t* sp[] = { SERVER_PROTOCOLS }; gracht_protocol_t* cp[] = { CLIENT_PROTOCOLS };
    for (unsigned i = 0; i < sizeof(sp) / sizeof(*sp); i++) VP_ASSERT(gracht_server_register_protocol(server, sp[i]) == 0, "service registered");
    struct gracht_link_socket* l = mklink(1);
    VP_ASSERT(gracht_server_add_link(server, (struct gracht_link*)l) == 0, "link added");
    int lfd = gracht_link_get_handle((struct gracht_link*)l);
    gracht_client_configuration_init(&cc);
    gracht_client_configuration_set_link(&cc, (struct gracht_link*)mklink(0));
    gracht_client_configuration_set_max_msg_size(&cc, maxmsg);
    VP_ASSERT(gracht_client_create(&cc, &client) == 0, "client created");
    for (unsigned i = 0; i < sizeof(cp) / sizeof(*cp); i++) VP_ASSERT(gracht_client_register_protocol(client, cp[i]) == 0, "events registered");
    VP_ASSERT(gracht_client_connect(client) == 0, "client connects");
    cfd = gracht_client_iod(client);
    gracht_server_handle_event(server, lfd, EPOLLIN); sfd = conn;
    if (with_other) { gracht_server_handle_event(server, lfd, EPOLLIN); ofd = conn; }
}
/* what was sent on one end arrives at the other */
static uint8_t wire[2][4 * VP_SENTCAP]; static int wn[2];
static int moved;
static int deliver(void) {
    int n = 0;
    for (; moved < vp_nsent; moved++) {
        struct vp_sent* s = &vp_sents[moved];
        VP_ASSERT(s->n <= maxmsg, "a message fits the agreed maximum");
        if (s->fd == ofd && ofd) { n |= 4; continue; }
        VP_ASSERT(s->fd == cfd || s->fd == sfd, "a message is sent on the connection");
        int d = s->fd == sfd;
        memcpy(wire[d] + wn[d], s->data, s->n); wn[d] += s->n;
        int to = d ? cfd : sfd;
        VPFD(to).in = wire[d]; VPFD(to).in_len = wn[d];
        n |= 1 + d;
    }
    return n;
}
static void again(int max) { maxmsg = max; wn[0] = wn[1] = 0; moved = vp_nsent = 0; ofd = 0; }
static void to_server(void) { VP_ASSERT(deliver() & 1, "the call is sent"); gracht_server_handle_event(server, sfd, EPOLLIN); }
static int at_client(void) { return gracht_client_wait_message(client, NULL, 0); }
#endif

/* ---- symbolic values ---- */
/* a string: NULL or 0..SLEN arbitrary characters */
#ifdef LONG   /* lengths around LONG; the first, middle and last element are arbitrary, the others fixed */
#ifdef VERY
static int anylen(int max) { return vp_pick(0, 1) ? max : 0; }
#else
static int anylen(int max) { static const int n[] = { 0, LONG - 1, LONG, LONG + 1 }; int k = n[vp_pick(0, 3)]; return k > max ? max : k; }
#endif
#define FIXED(i, n) ((i) != 0 && (i) != (n) / 2 && (i) < (n) - 1)
#elif defined(EXACT)
static int anylen(int max) { return max; }
#define FIXED(i, n) 0
#else
static int anylen(int max) { return (int)vp_pick(0, max); }
#define FIXED(i, n) 0
#endif
static char* mkstr(char* buf) {
    int n = vp_pick(0, 1) ? anylen(SLEN) : -1;
    if (n < 0) return NULL;
    for (int i = 0; i < n; i++) { if (FIXED(i, n)) { buf[i] = (char)('a' + i % 23); continue; } uint8_t c = vp_u8(); VP_ASSUME(c != 0); buf[i] = (char)c; }
    buf[n] = 0;
    return buf;
}
static int slen(const char* s) { int n = 0; if (s) while (s[n]) n++; return n; }
static void same_str(const char* want, const char* got) {
    int n = slen(want);
    VP_ASSERT(got != NULL && VP_OK(got, n + 1), "a string arrives inside its memory");
    for (int i = 0; i < n; i++) VP_ASSERT(got[i] == want[i], "a string arrives unchanged");
    VP_ASSERT(got[n] == 0, "a string arrives with its length");
}
/* cut to a capacity (terminator included) */
static void same_str_cap(const char* want, const char* got, int cap) {
    int n = slen(want);
    if (cap == 0) { VP_ASSERT((uint8_t)got[0] == 0xee, "nothing is written to a buffer without capacity"); return; }
    if (n > cap - 1) n = cap - 1;
    for (int i = 0; i < n; i++) VP_ASSERT(got[i] == want[i], "a returned string is unchanged up to the capacity");
    VP_ASSERT(got[n] == 0, "a returned string is terminated within the capacity");
}
static void* out(size_t n) { uint8_t* p = vp_malloc(n ? n : 1); VP_ASSUME(p != NULL); memset(p, 0xee, n ? n : 1); return p; }
#if !defined(GEN2) && !defined(GEN3)
#define SCALARS(X) X(uint8_t, a) X(int8_t, b) X(uint16_t, c) X(int16_t, d) X(uint32_t, e) X(int32_t, f) X(uint64_t, g) X(int64_t, h) X(int, i) X(unsigned int, j) X(long, k) X(size_t, l) X(uint8_t, m) X(enum vt_color, n) X(vt_handle, o)
#define RND(T, f) v->f = (T)vp_nd_bits(8 * sizeof(T));
#define EQ(T, f) VP_ASSERT(x->f == y->f, "a value of type " #T " arrives unchanged");
static void mk_all(struct vt_all* v) { SCALARS(RND) }
static void eq_all(const struct vt_all* x, const struct vt_all* y) { SCALARS(EQ) }
static void mk_point(struct vt_point* v) { v->x = (int16_t)vp_u16(); v->y = vp_u64(); }
static void eq_point(const struct vt_point* x, const struct vt_point* y) { VP_ASSERT(x->x == y->x && x->y == y->y, "a structure arrives unchanged"); }
static char sbuf[12][SLEN + 1]; static int sn;
static void mk_label(struct vt_label* v) { v->text = mkstr(sbuf[sn++]); v->kind = vp_u8(); }
static void eq_label(const struct vt_label* x, const struct vt_label* y) { same_str(x->text, y->text); VP_ASSERT(x->kind == y->kind, "a structure arrives unchanged"); }
static void mk_shape(struct vt_shape* v, int which) {
    v->head = vp_u8(); v->tail = vp_u16();
    v->body_type = (uint8_t)which;
    switch (which) {
    case VT_SHAPE_BODY_P: mk_point(&v->body.p); break;
    case VT_SHAPE_BODY_L: mk_label(&v->body.l); break;
    case VT_SHAPE_BODY_N: v->body.n = (int)vp_u32(); break;
    case VT_SHAPE_BODY_S: v->body.s = mkstr(sbuf[sn++]); break;
    case VT_SHAPE_BODY_C: v->body.c = (enum vt_color)vp_u32(); break;
    }
}
static void eq_shape(const struct vt_shape* x, const struct vt_shape* y) {
    VP_ASSERT(x->head == y->head && x->tail == y->tail && x->body_type == y->body_type, "a structure arrives unchanged");
    switch (VP_CONCRETE(x->body_type)) {
    case VT_SHAPE_BODY_P: eq_point(&x->body.p, &y->body.p); break;
    case VT_SHAPE_BODY_L: eq_label(&x->body.l, &y->body.l); break;
    case VT_SHAPE_BODY_N: VP_ASSERT(x->body.n == y->body.n, "a variant arrives unchanged"); break;
    case VT_SHAPE_BODY_S: same_str(x->body.s, y->body.s); break;
    case VT_SHAPE_BODY_C: VP_ASSERT(x->body.c == y->body.c, "a variant arrives unchanged"); break;
    }
}
static uint16_t bag_nums[ALEN]; static int64_t bag_wide[ALEN]; static struct vt_point bag_pts[ALEN]; static struct vt_label bag_labels[ALEN];
static void mk_bag(struct vt_bag* v) {
    int shape = (int)vp_pick(0, 4);   /* which of the arrays are empty, how long the others are */
    v->nums_count = shape == 0 ? 0 : shape == 4 ? 1 : ALEN; v->pts_count = shape == 1 ? 0 : shape == 4 ? ALEN : 1;
    v->labels_count = shape == 2 || shape == 0 ? 0 : 1; v->wide_count = shape == 3 ? 0 : shape == 4 ? ALEN : 1;
    for (int i = 0; i < ALEN; i++) {
        if (FIXED(i, ALEN)) { bag_nums[i] = (uint16_t)(i * 259); bag_wide[i] = i * 0x123456789; bag_pts[i].x = (int16_t)i; bag_pts[i].y = i * 0x987654321; continue; }
        bag_nums[i] = vp_u16(); bag_wide[i] = (int64_t)vp_u64(); mk_point(&bag_pts[i]);
    }
    for (uint32_t i = 0; i < v->labels_count; i++) mk_label(&bag_labels[i]);
    v->nums = v->nums_count ? bag_nums : NULL; v->pts = v->pts_count ? bag_pts : NULL; v->labels = v->labels_count ? bag_labels : NULL; v->wide = v->wide_count ? bag_wide : NULL;
    v->name = mkstr(sbuf[sn++]); v->c = (enum vt_color)vp_u32(); mk_point(&v->one); v->tail = vp_u8();
}
static void eq_bag(const struct vt_bag* x, const struct vt_bag* y) {
    VP_ASSERT(x->nums_count == y->nums_count && x->pts_count == y->pts_count && x->labels_count == y->labels_count && x->wide_count == y->wide_count, "an array arrives with its length");
    for (uint32_t i = 0; i < x->nums_count; i++) VP_ASSERT(x->nums[i] == y->nums[i], "an array arrives unchanged");
    for (uint32_t i = 0; i < x->wide_count; i++) VP_ASSERT(x->wide[i] == y->wide[i], "an array arrives unchanged");
    for (uint32_t i = 0; i < x->pts_count; i++) eq_point(&x->pts[i], &y->pts[i]);
    for (uint32_t i = 0; i < x->labels_count; i++) eq_label(&x->labels[i], &y->labels[i]);
    same_str(x->name, y->name); eq_point(&x->one, &y->one);
    VP_ASSERT(x->c == y->c && x->tail == y->tail, "a structure arrives unchanged");
}
#endif
#endif
