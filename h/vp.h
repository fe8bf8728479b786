/* Verification vocabulary shared by every harness.
 *
 * Under the symbolic executor (VP_SYM) every vp_* input is a free bit-vector variable
 * and every VP_ASSERT is an obligation for the solver.  Compiled natively (replay) the
 * same calls read the values of a solver counterexample from a file, so the very same
 * harness plus the real sources re-executes that counterexample. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

uint64_t vp_nd_bits(unsigned bits);              /* any value of that width */
#define vp_u8()   ((uint8_t)vp_nd_bits(8))
#define vp_u16()  ((uint16_t)vp_nd_bits(16))
#define vp_u32()  ((uint32_t)vp_nd_bits(32))
#define vp_u64()  ((uint64_t)vp_nd_bits(64))
#define vp_bool() ((vp_nd_bits(8) & 1) != 0)

#ifdef VP_SYM
void vp_sym_assume(int c);
void vp_sym_stop(void);
void vp_sym_assert(int c, const char* m);
void vp_sym_witness(int c, const char* m);
int  vp_sym_ok(const void* p, size_t n);
int  vp_sym_fork(int c);
uint64_t vp_sym_concrete(uint64_t v);
void vp_sym_note(const char* s);
#define VP_ASSUME(c)        vp_sym_assume(!!(c))
#define VP_ASSERT(c, m)     vp_sym_assert(!!(c), m)
#define VP_WITNESS_IF(c, m) vp_sym_witness(!!(c), m)
#define VP_STOP()           vp_sym_stop()
#define VP_OK(p, n)         vp_sym_ok((p), (n))
#define VP_CONCRETE(v)      vp_sym_concrete((uint64_t)(v))
#define VP_NOTE(s)          vp_sym_note(s)
#else
void vp_native_assume(int c, const char* what);
void vp_native_assert(int c, const char* what, const char* file, int line);
void vp_native_witness(int c, const char* what);
int  vp_native_ok(const void* p, size_t n);
void vp_native_stop(void);
#define VP_ASSUME(c)        vp_native_assume(!!(c), #c)
#define VP_ASSERT(c, m)     vp_native_assert(!!(c), m, __FILE__, __LINE__)
#define VP_WITNESS_IF(c, m) vp_native_witness(!!(c), m)
#define VP_STOP()           vp_native_stop()
#define VP_OK(p, n)         vp_native_ok((p), (n))
#define VP_CONCRETE(v)      ((uint64_t)(v))
#define VP_NOTE(s)          ((void)0)
#endif
#define VP_WITNESS(m)       VP_WITNESS_IF(1, m)

static inline uint32_t vp_range(uint32_t lo, uint32_t hi) {
    uint32_t v = vp_u32();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}
/* a symbolic value in [lo,hi] over whose values the exploration forks */
static inline uint32_t vp_pick(uint32_t lo, uint32_t hi) {
    uint32_t v = vp_u8();
    VP_ASSUME(v >= lo && v <= hi);
    return (uint32_t)VP_CONCRETE(v);
}
void vp_main(void);  /* entry point every harness defines */
#endif
