/* Stand-in for <stdatomic.h>: sequentially consistent operations, each one a scheduling
 * point of the harness (vp_sched).  The types are atomic ones, so that an access without
 * these operations is an atomic access as well (it synchronises, but is no scheduling point). */
#ifndef VP_STDATOMIC_H
#define VP_STDATOMIC_H
#include <stdint.h>
#include <stddef.h>
void vp_sched(void);
void vp_acquire(const volatile void*);
void vp_release(const volatile void*);
void vp_atomic(int);
typedef _Atomic(_Bool) atomic_bool;
typedef _Atomic(char) atomic_char;
typedef _Atomic(int) atomic_int;
typedef _Atomic(unsigned int) atomic_uint;
typedef _Atomic(long) atomic_long;
typedef _Atomic(unsigned long) atomic_ulong;
typedef _Atomic(long long) atomic_llong;
typedef _Atomic(unsigned long long) atomic_ullong;
typedef _Atomic(uintptr_t) atomic_uintptr_t;
typedef _Atomic(intptr_t) atomic_intptr_t;
typedef _Atomic(size_t) atomic_size_t;
typedef struct { int v; }  atomic_flag;
typedef enum { memory_order_relaxed, memory_order_consume, memory_order_acquire,
    memory_order_release, memory_order_acq_rel, memory_order_seq_cst } memory_order;
#define ATOMIC_FLAG_INIT {0}
#define ATOMIC_VAR_INIT(v) (v)
#define atomic_init(o, v)             (*(o) = (v))
#define VP_AT(o, e) ({ vp_sched(); vp_acquire(o); vp_atomic(1); __typeof__((e) + 0) vp_r = (e); vp_atomic(0); vp_release(o); vp_r; })
#define atomic_thread_fence(m)        vp_sched()
#define atomic_load(o)                VP_AT(o, *(o))
#define atomic_load_explicit(o, m)    atomic_load(o)
#define atomic_store(o, v)            ((void)VP_AT(o, ({ *(o) = (v); 0; })))
#define atomic_store_explicit(o,v,m)  atomic_store(o, v)
#define atomic_exchange(o, v)         VP_AT(o, ({ __typeof__(*(o) + 0) vp_o = *(o); *(o) = (v); vp_o; }))
#define atomic_exchange_explicit(o,v,m) atomic_exchange(o, v)
#define atomic_fetch_add(o, v)        VP_AT(o, ({ __typeof__(*(o) + 0) vp_o = *(o); *(o) = vp_o + (v); vp_o; }))
#define atomic_fetch_sub(o, v)        VP_AT(o, ({ __typeof__(*(o) + 0) vp_o = *(o); *(o) = vp_o - (v); vp_o; }))
#define atomic_fetch_or(o, v)         VP_AT(o, ({ __typeof__(*(o) + 0) vp_o = *(o); *(o) = vp_o | (v); vp_o; }))
#define atomic_fetch_and(o, v)        VP_AT(o, ({ __typeof__(*(o) + 0) vp_o = *(o); *(o) = vp_o & (v); vp_o; }))
#define atomic_fetch_add_explicit(o,v,m) atomic_fetch_add(o,v)
#define atomic_fetch_sub_explicit(o,v,m) atomic_fetch_sub(o,v)
#define atomic_fetch_or_explicit(o,v,m) atomic_fetch_or(o,v)
#define atomic_fetch_and_explicit(o,v,m) atomic_fetch_and(o,v)
#define atomic_compare_exchange_strong(o, e, d) \
    VP_AT(o, ({ int vp_q; if (*(o) == *(e)) { *(o) = (d); vp_q = 1; } else { *(e) = *(o); vp_q = 0; } vp_q; }))
#define atomic_compare_exchange_weak(o, e, d) atomic_compare_exchange_strong(o, e, d)
#define atomic_compare_exchange_strong_explicit(o,e,d,s,f) atomic_compare_exchange_strong(o,e,d)
#define atomic_compare_exchange_weak_explicit(o,e,d,s,f) atomic_compare_exchange_strong(o,e,d)
#define atomic_flag_test_and_set(o)   VP_AT(o, ({ int vp_o = (o)->v; (o)->v = 1; vp_o; }))
#define atomic_flag_clear(o)          ((void)VP_AT(o, ({ (o)->v = 0; 0; })))
#endif
