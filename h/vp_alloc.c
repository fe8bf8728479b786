/* Allocation, logging and libc stand-ins.  Allocation fails only when the harness
 * enables it (vp_alloc_may_fail); live allocations are counted for leak checks. */
#include "vp.h"
#include "vp_world.h"
#undef malloc
#undef free
#undef errno
#ifdef VP_SYM
void* vp_sym_malloc(size_t n);
void  vp_sym_free(void* p);
size_t vp_sym_size(void* p);
#define SYS_MALLOC vp_sym_malloc
#define SYS_FREE   vp_sym_free
#define SYS_SIZE   vp_sym_size
#else
#include <malloc.h>
#define SYS_MALLOC malloc
#define SYS_FREE   free
#define SYS_SIZE   malloc_usable_size
#endif
static int errnos[8];
int* vp_errno_location(void) { return &errnos[vp_self() & 7]; }
#define errno (*vp_errno_location())
int vp_alloc_may_fail, vp_alloc_fail_budget;
long vp_live_allocs;
int vp_alloc_failures;
void* vp_malloc(size_t n) {
    if ((vp_alloc_may_fail || vp_alloc_fail_budget > 0) && vp_bool()) {
        if (vp_alloc_fail_budget > 0) vp_alloc_fail_budget--;
        vp_alloc_failures++; errno = ENOMEM; return NULL; }
    void* p = SYS_MALLOC(n);
#ifndef VP_SYM
    if (p) { memset(p, 0xA5, n); vp_race_alloc(p, n); }
#endif
    vp_live_allocs++;
    return p;
}
void* vp_calloc(size_t a, size_t b) {
    void* p = vp_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void vp_free(void* p) {
    if (p) vp_live_allocs--;
#ifndef VP_SYM
    if (p) vp_touch(p, SYS_SIZE(p), 1);
#endif
    SYS_FREE(p);
}
void* vp_realloc(void* p, size_t n) {
    void* q;
    if (!p) return vp_malloc(n);
    q = vp_malloc(n);
    if (!q) return NULL;
    size_t o = SYS_SIZE(p);
    memcpy(q, p, o < n ? o : n);
    vp_free(p);
    return q;
}
void* vp_reallocarray(void* p, size_t a, size_t b) { return vp_realloc(p, a * b); }
char* vp_strdup(const char* s) {
    size_t n = strlen(s) + 1;
    char* p = vp_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
int vp_printf(const char* f, ...) { (void)f; return 0; }
int vp_puts(const char* f) { (void)f; return 0; }
int vp_fprintf(FILE* o, const char* f, ...) { (void)o; (void)f; return 0; }
int vp_vfprintf(FILE* o, const char* f, va_list a) { (void)o; (void)f; (void)a; return 0; }
int vp_vprintf(const char* f, va_list a) { (void)f; (void)a; return 0; }
int vp_snprintf(char* d, size_t n, const char* f, ...) { (void)f; if (n) d[0] = 0; return 0; }
void vp_perror(const char* f) { (void)f; }
int vp_fputs(const char* f, FILE* o) { (void)f; (void)o; return 0; }
int vp_fflush(FILE* o) { (void)o; return 0; }
char* vp_strerror(int e) { static char t[] = "error"; (void)e; return t; }
char* vp_strndup(const char* s, size_t m) {
    size_t n = 0;
    while (n < m && s[n]) n++;
    char* p = vp_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
int vp_usleep(unsigned u) { (void)u; vp_sched(); return 0; }
int vp_nanosleep(const struct timespec* a, struct timespec* b) { (void)a; (void)b; vp_sched(); return 0; }
int vp_yield(void) { vp_sched(); return 0; }
#ifdef VP_SYM
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = a, *y = b; while (n) { if (*x != *y) return *x - *y; x++; y++; n--; } return 0; }
char* strcpy(char* d, const char* s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; } }
char* strrchr(const char* s, int c) { const char* r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void*)s; return NULL; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
void bzero(void* d, size_t n) { memset(d, 0, n); }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
#endif
