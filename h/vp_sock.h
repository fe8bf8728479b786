/* The socket world: descriptors, byte streams, datagrams and the event set.
 * Every call of the real code into it is checked (descriptor open, buffers large enough
 * for what a peer may send) and recorded. */
#ifndef VP_SOCK_H
#define VP_SOCK_H
#include "vp.h"
#ifndef VP_FD0
#define VP_FD0   10
#endif
#ifndef VP_NFD
#define VP_NFD   12
#endif
enum { FD_FREE = 0, FD_NEW, FD_LISTEN, FD_STREAM, FD_DGRAM, FD_EPOLL };
struct vp_fd {
    int kind;
    int registered;            /* member of the event set */
    uint32_t mask; int news;   /* events asked for; something arrived since the last event */
    int eof;                   /* the peer has closed (after the bytes below) */
    const uint8_t* in; int in_len; int in_pos;
    int nonblock;
    int owner;                 /* harness tag */
    int domain, type, proto;   /* as given to socket() */
    int bound, listening;
    uint8_t addr[128]; int alen;   /* as given to bind() or connect() */
};
extern struct vp_fd vp_fds[VP_NFD];
#define VPFD(fd) (vp_fds[(fd) - VP_FD0])
#ifndef VP_ADDRCAP
#define VP_ADDRCAP 32
#endif
struct vp_dgram { int fd; const uint8_t* data; int len; uint8_t addr[VP_ADDRCAP]; int alen; int taken; };
#define VP_NDGRAM 6
extern struct vp_dgram vp_dgrams[VP_NDGRAM];
extern int vp_ndgrams;
#ifndef VP_SENTMAX
#define VP_SENTMAX 16
#endif
#ifndef VP_SENTCAP
#define VP_SENTCAP 160
#endif
struct vp_sent { int fd; int n; int flags; uint8_t data[VP_SENTCAP]; int has_addr; uint8_t addr[VP_ADDRCAP]; int alen; int tid; };
extern struct vp_sent vp_sents[VP_SENTMAX];
extern int vp_nsent;
/* nonzero: what is sent is not recorded */
extern int vp_sent_discard, vp_sigpipe_ignored;
/* environment choices */
extern int vp_seg_budget;      /* how often a non-blocking receive may return less than asked / nothing */
extern int vp_send_fail_budget, vp_sock_fail_budget, vp_accept_fail_budget, vp_recv_fail_budget, vp_cleanup_fail_budget, vp_send_full_budget;
extern int vp_pending_accepts;
extern int vp_fds_opened, vp_fds_closed, vp_aio_handle;
/* epoll_wait: the harness supplies the next event; return 0 to end the loop */
struct epoll_event;
extern int (*vp_epoll_next)(struct epoll_event*, int);
/* called at every receive on a stream without data (blocking): may add data; returns nonzero if it did */
extern int (*vp_recv_idle)(int fd);
/* observes every receive call: descriptor, buffer, length */
extern void (*vp_recv_hook)(int fd, void* buf, size_t n);
/* sees every message that was sent */
struct vp_sent;
extern void (*vp_send_hook)(struct vp_sent*);
/* the events the kernel reports for a descriptor, given what happened to it */
uint32_t vp_events(int fd, uint32_t happened);
int vp_fd_open(int kind);
void vp_stream_data(int fd, const uint8_t* p, int n, int eof);
void vp_dgram_data(int fd, const uint8_t* p, int n, const uint8_t* addr, int alen);
#endif
