#include "vp.h"
#include "vp_world.h"
#include "vp_sock.h"
struct vp_fd vp_fds[VP_NFD];
struct vp_dgram vp_dgrams[VP_NDGRAM];
int vp_ndgrams;
struct vp_sent vp_sents[VP_SENTMAX];
int vp_nsent;
int vp_seg_budget, vp_send_fail_budget, vp_sock_fail_budget, vp_accept_fail_budget, vp_recv_fail_budget, vp_cleanup_fail_budget, vp_send_full_budget;
int vp_pending_accepts = 100, vp_fds_opened, vp_fds_closed;
int vp_aio_handle = 5, vp_sent_discard, vp_sigpipe_ignored;
int (*vp_epoll_next)(struct epoll_event*, int);
int (*vp_recv_idle)(int fd);
void (*vp_send_hook)(struct vp_sent*);
void (*vp_recv_hook)(int fd, void* buf, size_t n);
#define OPEN(fd) ((fd) >= VP_FD0 && (fd) < VP_FD0 + VP_NFD && VPFD(fd).kind != FD_FREE)
int vp_fd_open(int kind) {
    int i;
    for (i = 0; i < VP_NFD; i++) if (vp_fds[i].kind == FD_FREE) break;
    VP_ASSUME(i < VP_NFD);
    memset(&vp_fds[i], 0, sizeof(vp_fds[i]));
    vp_fds[i].kind = kind;
    vp_fds_opened++;
    return VP_FD0 + i;
}
void vp_stream_data(int fd, const uint8_t* p, int n, int eof) { VPFD(fd).in = p; VPFD(fd).in_len = n; VPFD(fd).in_pos = 0; VPFD(fd).eof = eof; VPFD(fd).news = 1; }
void vp_dgram_data(int fd, const uint8_t* p, int n, const uint8_t* addr, int alen) {
    struct vp_dgram* d = &vp_dgrams[vp_ndgrams++];
    VPFD(fd).news = 1;
    d->fd = fd; d->data = p; d->len = n; d->alen = alen; d->taken = 0;
    memcpy(d->addr, addr, alen);
}
static int fails(int* budget) { if (*budget > 0 && vp_bool()) { (*budget)--; return 1; } return 0; }
ssize_t vp_recvfrom(int fd, void* buf, size_t n, int flags, struct sockaddr* sa, socklen_t* alen);
ssize_t vp_recv(int fd, void* buf, size_t n, int flags) {
    vp_sched();
    VP_ASSERT(OPEN(fd), "receive on a descriptor that is not open");
    VP_ASSERT(VPFD(fd).kind == FD_STREAM || VPFD(fd).kind == FD_DGRAM, "receive on a descriptor that is not a connection");
    VP_ASSERT(VP_OK(buf, n), "the receive length exceeds the receive buffer: the peer can overflow it");
    if (vp_recv_hook) vp_recv_hook(fd, buf, n);
    if (VPFD(fd).kind == FD_DGRAM) return vp_recvfrom(fd, buf, n, flags, NULL, NULL);
    struct vp_fd* f = &VPFD(fd);
    if (f->nonblock) flags |= MSG_DONTWAIT;
    if (fails(&vp_recv_fail_budget)) { errno = ECONNRESET; return -1; }
    if (n == 0) return 0;
    int rem = f->in_len - f->in_pos;
    if (rem == 0 && !f->eof && !(flags & MSG_DONTWAIT) && vp_recv_idle && vp_recv_idle(fd)) rem = f->in_len - f->in_pos;
    if (rem == 0) {
        if (f->eof) return 0;
        if (flags & MSG_DONTWAIT) { errno = EAGAIN; return -1; }
        f->eof = 1;  /* a peer that never sends: it closes in the end */
        return 0;
    }
    int k = n < (size_t)rem ? (int)n : rem;
    k = (int)VP_CONCRETE(k);
    if (!((flags & MSG_WAITALL) && !(flags & MSG_DONTWAIT)) && vp_seg_budget > 0) {
        int lo = (flags & MSG_DONTWAIT) ? 0 : 1;
        int want = (int)vp_pick(lo, k);
        if (want < k) vp_seg_budget--;
        if (want == 0) { errno = EAGAIN; return -1; }
        k = want;
    }
    vp_touch(buf, k, 1);
    vp_acquire(f);
    memcpy(buf, f->in + f->in_pos, k);
    f->in_pos += k;
    return k;
}
ssize_t vp_recvfrom(int fd, void* buf, size_t n, int flags, struct sockaddr* sa, socklen_t* alen) {
    vp_sched();
    VP_ASSERT(OPEN(fd), "receive on a descriptor that is not open");
    VP_ASSERT(VP_OK(buf, n), "the receive length exceeds the receive buffer: the peer can overflow it");
    if (vp_recv_hook && sa) vp_recv_hook(fd, buf, n);
    if (sa) VP_ASSERT(VP_OK(sa, *alen), "the address length exceeds the address buffer");
    if (fails(&vp_recv_fail_budget)) { errno = ECONNRESET; return -1; }
    if (VPFD(fd).kind == FD_STREAM) { if (alen) *alen = 0; return vp_recv(fd, buf, n, flags); }
    for (int i = 0; i < vp_ndgrams; i++) {
        struct vp_dgram* d = &vp_dgrams[i];
        if (d->taken || d->fd != fd) continue;
        d->taken = 1;
        size_t k = n < (size_t)d->len ? n : (size_t)d->len;
        k = VP_CONCRETE(k);
        vp_touch(buf, k, 1);
        vp_acquire(&VPFD(fd));
        memcpy(buf, d->data, k);
        if (sa) {
            size_t m = *alen < (socklen_t)d->alen ? *alen : (size_t)d->alen;
            vp_touch(sa, m, 1);
            memcpy(sa, d->addr, m);
            *alen = d->alen;
        }
        return (ssize_t)k;
    }
    if (!(flags & MSG_DONTWAIT) && !VPFD(fd).nonblock && vp_recv_idle && vp_recv_idle(fd)) return vp_recvfrom(fd, buf, n, flags, sa, alen);
    errno = EAGAIN;
    return -1;
}
static ssize_t do_send(int fd, const void* buf, size_t n, int flags, const struct sockaddr* sa, socklen_t alen) {
    vp_sched();
    VP_ASSERT(OPEN(fd), "send on a descriptor that is not open");
    VP_ASSERT(VPFD(fd).kind == FD_STREAM || VPFD(fd).kind == FD_DGRAM, "send on a descriptor that is not a connection");
    VP_ASSERT(VP_OK(buf, n), "the send length exceeds the message buffer");
    if (VPFD(fd).nonblock) flags |= MSG_DONTWAIT;
    /* no room: a send that may wait does, one that may not sends a part or nothing */
    if ((flags & MSG_DONTWAIT) && fails(&vp_send_full_budget)) {
        if (VPFD(fd).kind == FD_STREAM && n > 1 && vp_bool()) return (ssize_t)n - 1;
        errno = EAGAIN; return -1;
    }
    if (fails(&vp_send_fail_budget)) {
        VP_ASSERT(VPFD(fd).kind != FD_STREAM || (flags & MSG_NOSIGNAL) || vp_sigpipe_ignored, "sending to a peer that closed its connection raises SIGPIPE and ends the process");
        if (n > 1 && vp_bool()) return (ssize_t)n - 1;
        errno = EPIPE; return -1;
    }
    if (VPFD(fd).kind == FD_DGRAM && !sa && !VPFD(fd).owner) { errno = EDESTADDRREQ; return -1; } /* unconnected datagram socket */
    if (vp_sent_discard) { vp_touch(buf, n, 0); vp_sched(); return (ssize_t)n; }
    VP_ASSUME(vp_nsent < VP_SENTMAX);
    struct vp_sent* s = &vp_sents[vp_nsent++];
    n = VP_CONCRETE(n);
    s->fd = fd; s->n = (int)n; s->flags = flags; s->tid = vp_self();
    vp_touch(buf, n, 0);
    vp_release(&VPFD(fd));
    memcpy(s->data, buf, n < VP_SENTCAP ? n : VP_SENTCAP);
    s->has_addr = sa != NULL; s->alen = (int)alen;
    if (sa) { VP_ASSERT(VP_OK(sa, alen), "the address length exceeds the address buffer"); vp_touch(sa, VP_CONCRETE(alen), 0); memcpy(s->addr, sa, alen < VP_ADDRCAP ? alen : VP_ADDRCAP); }
    if (vp_send_hook) vp_send_hook(s);
    vp_sched();
    return (ssize_t)n;
}
ssize_t vp_send(int fd, const void* buf, size_t n, int flags) { return do_send(fd, buf, n, flags, NULL, 0); }
ssize_t vp_sendto(int fd, const void* buf, size_t n, int flags, const struct sockaddr* sa, socklen_t alen) { return do_send(fd, buf, n, flags, sa, alen); }
int vp_socket(int d, int t, int p) {
    if (fails(&vp_sock_fail_budget)) { errno = EMFILE; return -1; }
    int fd = vp_fd_open((t & 15) == SOCK_DGRAM ? FD_DGRAM : FD_NEW);
    VPFD(fd).domain = d; VPFD(fd).type = t & 15; VPFD(fd).proto = p;
    return fd;
}
static void remember(int fd, const struct sockaddr* a, socklen_t n) {
    int k = n < 128 ? (int)n : 128;
    VPFD(fd).alen = (int)n;
    memcpy(VPFD(fd).addr, a, VP_CONCRETE(k));
}
int vp_bind(int fd, const struct sockaddr* a, socklen_t n) {
    VP_ASSERT(OPEN(fd), "bind on a descriptor that is not open");
    VP_ASSERT(VP_OK(a, n), "the address length exceeds the address buffer");
    if (fails(&vp_sock_fail_budget)) { errno = EADDRINUSE; return -1; }
    VPFD(fd).bound++; remember(fd, a, n);
    return 0;
}
int vp_listen(int fd, int b) {
    (void)b;
    VP_ASSERT(OPEN(fd), "listen on a descriptor that is not open");
    if (fails(&vp_sock_fail_budget)) { errno = EADDRINUSE; return -1; }
    VPFD(fd).kind = FD_LISTEN; VPFD(fd).listening++; return 0;
}
int vp_accept(int fd, struct sockaddr* a, socklen_t* n) {
    VP_ASSERT(OPEN(fd) && VPFD(fd).kind == FD_LISTEN, "accept on a descriptor that is not listening");
    if (vp_pending_accepts <= 0 || fails(&vp_accept_fail_budget)) { errno = ECONNABORTED; return -1; }
    vp_pending_accepts--;
    if (a) { VP_ASSERT(VP_OK(a, *n), "the address length exceeds the address buffer"); if (*n > 2) *n = 2; memset(a, 0, *n); }
    return vp_fd_open(FD_STREAM);
}
int vp_connect(int fd, const struct sockaddr* a, socklen_t n) {
    VP_ASSERT(OPEN(fd), "connect on a descriptor that is not open");
    VP_ASSERT(VP_OK(a, n), "the address length exceeds the address buffer");
    if (fails(&vp_sock_fail_budget)) { errno = ECONNREFUSED; return -1; }
    if (VPFD(fd).kind == FD_NEW) VPFD(fd).kind = FD_STREAM;
    VPFD(fd).owner = 1; remember(fd, a, n);
    return 0;
}
int vp_close(int fd) {
    VP_ASSERT(OPEN(fd), "close of a descriptor that is not open (closed twice, or never opened)");
    VPFD(fd).kind = FD_FREE; VPFD(fd).registered = 0; vp_fds_closed++;
    if (fails(&vp_cleanup_fail_budget)) { errno = EIO; return -1; } /* the descriptor is gone all the same */
    return 0;
}
int vp_epoll_create1(int f) { (void)f; if (fails(&vp_sock_fail_budget)) { errno = EMFILE; return -1; } return vp_aio_handle = vp_fd_open(FD_EPOLL); }
int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
    VP_ASSERT(ep == vp_aio_handle, "the event set handle is the server's");
    if (!OPEN(fd)) { errno = EBADF; return -1; }
    if (op == EPOLL_CTL_ADD) {
        if (VPFD(fd).registered) { errno = EEXIST; return -1; }
        VP_ASSERT(ev && ev->data.fd == fd && (ev->events & EPOLLIN), "the descriptor is registered for input under its own number");
        if (fails(VPFD(fd).kind == FD_STREAM ? &vp_accept_fail_budget : &vp_sock_fail_budget)) { errno = ENOSPC; return -1; }
        VPFD(fd).registered = 1; VPFD(fd).mask = ev->events; VPFD(fd).news = 1; return 0;
    }
    if (!VPFD(fd).registered) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_MOD) { VPFD(fd).mask = ev->events; VPFD(fd).news = 1; }
    if (op == EPOLL_CTL_DEL) {
        VPFD(fd).registered = 0;
        if (fails(&vp_cleanup_fail_budget)) { errno = ENOENT; return -1; } /* somebody else took it out */
    }
    return 0;
}
uint32_t vp_events(int fd, uint32_t happened) {
    if (fd < VP_FD0 || fd >= VP_FD0 + VP_NFD || !VPFD(fd).registered) return happened;
    struct vp_fd* f = &VPFD(fd);
    uint32_t e = happened & (f->mask | EPOLLERR | EPOLLHUP);
    if (f->kind != FD_LISTEN && (f->mask & (EPOLLET | EPOLLONESHOT)) && !f->news && !(e & ~(uint32_t)EPOLLIN)) e = 0;  /* told already */
    f->news = 0;
    return e;
}
int vp_epoll_wait(int ep, struct epoll_event* ev, int n, int to) {
    (void)to;
    VP_ASSERT(ep == vp_aio_handle && n > 0, "the event set handle is the server's");
    VP_ASSUME(vp_epoll_next != NULL);
    int k = vp_epoll_next(ev, n);
    VP_ASSERT(k <= n, "the world gives no more events than asked for");
    for (int i = 0; i < k; i++) ev[i].events = vp_events(ev[i].data.fd, ev[i].events);
    return k;
}
int vp_accept4(int fd, struct sockaddr* a, socklen_t* n, int flags) {
    int c = vp_accept(fd, a, n);
    if (c >= 0 && (flags & SOCK_NONBLOCK)) VPFD(c).nonblock = 1;
    return c;
}
ssize_t vp_read(int fd, void* b, size_t n) { return vp_recv(fd, b, n, 0); }
ssize_t vp_write(int fd, const void* b, size_t n) { return vp_send(fd, b, n, 0); }
/* gathers and scatters through one buffer, as one operation */
static uint8_t iob[1024];
ssize_t vp_sendmsg(int fd, const struct msghdr* m, int flags) {
    size_t n = 0;
    if (m->msg_iovlen == 1) return do_send(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags, m->msg_name, m->msg_namelen);
    for (size_t i = 0; i < m->msg_iovlen; i++) {
        size_t k = VP_CONCRETE(m->msg_iov[i].iov_len);
        VP_ASSERT(VP_OK(m->msg_iov[i].iov_base, k), "the send length exceeds the message buffer");
        VP_ASSUME(n + k <= sizeof(iob));
        memcpy(iob + n, m->msg_iov[i].iov_base, k);
        n += k;
    }
    return do_send(fd, iob, n, flags, m->msg_name, m->msg_namelen);
}
ssize_t vp_recvmsg(int fd, struct msghdr* m, int flags) {
    size_t n = 0, at = 0;
    for (size_t i = 0; i < m->msg_iovlen; i++) {
        VP_ASSERT(VP_OK(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len), "the receive length exceeds the receive buffer: the peer can overflow it");
        n += m->msg_iov[i].iov_len;
    }
    m->msg_flags = 0;
    if (m->msg_iovlen == 1) return vp_recvfrom(fd, m->msg_iov[0].iov_base, n, flags, m->msg_name, m->msg_name ? &m->msg_namelen : NULL);
    n = VP_CONCRETE(n);
    VP_ASSUME(n <= sizeof(iob));
    ssize_t r = vp_recvfrom(fd, iob, n, flags, m->msg_name, m->msg_name ? &m->msg_namelen : NULL);
    for (size_t i = 0; i < m->msg_iovlen && r > 0 && at < (size_t)r; i++) {
        size_t k = VP_CONCRETE(m->msg_iov[i].iov_len);
        if (k > (size_t)r - at) k = (size_t)r - at;
        memcpy(m->msg_iov[i].iov_base, iob + at, k);
        at += k;
    }
    return r;
}
ssize_t vp_writev(int fd, const struct iovec* v, int n) { struct msghdr m; memset(&m, 0, sizeof(m)); m.msg_iov = (struct iovec*)v; m.msg_iovlen = n; return vp_sendmsg(fd, &m, 0); }
ssize_t vp_readv(int fd, const struct iovec* v, int n) { struct msghdr m; memset(&m, 0, sizeof(m)); m.msg_iov = (struct iovec*)v; m.msg_iovlen = n; return vp_recvmsg(fd, &m, 0); }
int vp_shutdown(int fd, int how) { (void)how; if (!OPEN(fd)) { errno = EBADF; return -1; } return 0; }
int vp_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { (void)l; (void)o; VP_ASSERT(VP_OK(v, n), "the option length exceeds the option"); if (!OPEN(fd)) { errno = EBADF; return -1; } return 0; }
int vp_getsockopt(int fd, int l, int o, void* v, socklen_t* n) { (void)l; (void)o; if (!OPEN(fd)) { errno = EBADF; return -1; } memset(v, 0, *n); return 0; }
int vp_fcntl(int fd, int op, ...) {
    va_list a;
    if (!OPEN(fd)) { errno = EBADF; return -1; }
    if (op == F_GETFL) return VPFD(fd).nonblock ? O_NONBLOCK : 0;
    if (op == F_SETFL) { va_start(a, op); VPFD(fd).nonblock = (va_arg(a, int) & O_NONBLOCK) != 0; va_end(a); }
    return 0;
}
int vp_ioctl(int fd, unsigned long op, ...) {
    va_list a;
    if (!OPEN(fd)) { errno = EBADF; return -1; }
    if (op == FIONBIO) { va_start(a, op); VPFD(fd).nonblock = *va_arg(a, int*) != 0; va_end(a); }
    return 0;
}
void (*vp_signal(int n, void (*h)(int)))(int) { if (n == SIGPIPE) vp_sigpipe_ignored = h != SIG_DFL; return SIG_DFL; }
int vp_sigaction(int n, const struct sigaction* h, struct sigaction* o) { (void)o; if (n == SIGPIPE && h) vp_sigpipe_ignored = h->sa_handler != SIG_DFL; return 0; }
