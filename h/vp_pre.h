/* Force-included before every translation unit (real sources and harness).
 * Pulls in the system declarations, then redirects system calls, allocation and
 * logging to the harness world so that they become symbolic environment steps. */
#ifndef VP_PRE_H
#define VP_PRE_H
#define _GNU_SOURCE 1
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <sched.h>
#include <malloc.h>
#include <alloca.h>
#ifndef VP_NO_RENAME
#undef errno
int* vp_errno_location(void);
#define errno   (*vp_errno_location())
#define malloc  vp_malloc
#define calloc  vp_calloc
#define realloc vp_realloc
#define free    vp_free
#define strdup  vp_strdup
#define printf  vp_printf
#define puts    vp_puts
#define recv    vp_recv
#define recvfrom vp_recvfrom
#define send    vp_send
#define sendto  vp_sendto
#define socket  vp_socket
#define bind    vp_bind
#define listen  vp_listen
#define accept  vp_accept
#define connect vp_connect
#define close   vp_close
#define epoll_create1 vp_epoll_create1
#define epoll_ctl     vp_epoll_ctl
#define epoll_wait    vp_epoll_wait
#define epoll_pwait(a, b, c, d, e) vp_epoll_wait(a, b, c, d)
#define epoll_create(n) vp_epoll_create1(0)
#define accept4 vp_accept4
#define read    vp_read
#define write   vp_write
#define readv   vp_readv
#define writev  vp_writev
#define recvmsg vp_recvmsg
#define sendmsg vp_sendmsg
#define shutdown vp_shutdown
#define setsockopt vp_setsockopt
#define getsockopt vp_getsockopt
#define fcntl   vp_fcntl
#define ioctl   vp_ioctl
#define signal  vp_signal
#define sigaction(a, b, c) vp_sigaction(a, b, c)
#define fprintf vp_fprintf
#define vfprintf vp_vfprintf
#define vprintf vp_vprintf
#define snprintf vp_snprintf
#define perror  vp_perror
#define fputs   vp_fputs
#define fflush  vp_fflush
#define strerror vp_strerror
#define strndup vp_strndup
#define reallocarray vp_reallocarray
#define usleep  vp_usleep
#define nanosleep vp_nanosleep
#define sched_yield vp_yield
int     vp_accept4(int, struct sockaddr*, socklen_t*, int);
ssize_t vp_read(int, void*, size_t);
ssize_t vp_write(int, const void*, size_t);
ssize_t vp_readv(int, const struct iovec*, int);
ssize_t vp_writev(int, const struct iovec*, int);
ssize_t vp_recvmsg(int, struct msghdr*, int);
ssize_t vp_sendmsg(int, const struct msghdr*, int);
int     vp_shutdown(int, int);
int     vp_setsockopt(int, int, int, const void*, socklen_t);
int     vp_getsockopt(int, int, int, void*, socklen_t*);
int     vp_fcntl(int, int, ...);
int     vp_ioctl(int, unsigned long, ...);
void    (*vp_signal(int, void (*)(int)))(int);
int     vp_sigaction(int, const struct sigaction*, struct sigaction*);
int     vp_fprintf(FILE*, const char*, ...);
int     vp_vfprintf(FILE*, const char*, va_list);
int     vp_vprintf(const char*, va_list);
int     vp_snprintf(char*, size_t, const char*, ...);
void    vp_perror(const char*);
int     vp_fputs(const char*, FILE*);
int     vp_fflush(FILE*);
char*   vp_strerror(int);
char*   vp_strndup(const char*, size_t);
int     vp_usleep(unsigned);
int     vp_nanosleep(const struct timespec*, struct timespec*);
int     vp_yield(void);
void*   vp_reallocarray(void*, size_t, size_t);
void*   vp_malloc(size_t);
void*   vp_calloc(size_t, size_t);
void*   vp_realloc(void*, size_t);
void    vp_free(void*);
char*   vp_strdup(const char*);
int     vp_printf(const char*, ...);
int     vp_puts(const char*);
ssize_t vp_recv(int, void*, size_t, int);
ssize_t vp_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
ssize_t vp_send(int, const void*, size_t, int);
ssize_t vp_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
int     vp_socket(int, int, int);
int     vp_bind(int, const struct sockaddr*, socklen_t);
int     vp_listen(int, int);
int     vp_accept(int, struct sockaddr*, socklen_t*);
int     vp_connect(int, const struct sockaddr*, socklen_t);
int     vp_close(int);
int     vp_epoll_create1(int);
int     vp_epoll_ctl(int, int, int, struct epoll_event*);
int     vp_epoll_wait(int, struct epoll_event*, int, int);
#endif
#endif
