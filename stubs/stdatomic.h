/* Stand-in for <stdatomic.h>: sequentially consistent operations as plain accesses, with the other threads running (vp_env) before each
 * operation and after each load, that is at every point where another thread can be seen. */
#ifndef VP_STDATOMIC_H
#define VP_STDATOMIC_H
#include <string.h>
void vp_env(void);
#define _Atomic
enum { memory_order_relaxed, memory_order_consume, memory_order_acquire, memory_order_release, memory_order_acq_rel, memory_order_seq_cst };
typedef int memory_order;
#define ATOMIC_VAR_INIT(v) (v)
#define atomic_init(p, v) ((void)(*(p) = (v)))
#define atomic_store(p, v) ((void)(vp_env(), *(p) = (v), vp_env()))
#define atomic_store_explicit(p, v, o) ((void)(o), atomic_store(p, v))
#define atomic_load(p) ({ vp_env(); __typeof__(*(p)) vp_v_ = *(p); vp_env(); vp_v_; })
#define atomic_load_explicit(p, o) ((void)(o), atomic_load(p))
#define atomic_exchange(p, v) ({ vp_env(); __typeof__(*(p)) vp_v_ = *(p); *(p) = (v); vp_env(); vp_v_; })
#define atomic_compare_exchange_strong(p, e, d)                     \
  ({                                                                \
    vp_env();                                                       \
    int vp_ok_ = memcmp((p), (e), sizeof(*(p))) == 0;               \
    if (vp_ok_) *(p) = (d); else *(e) = *(p);                       \
    vp_env();                                                       \
    !!vp_ok_;                                                       \
  })
#define atomic_compare_exchange_weak(p, e, d) atomic_compare_exchange_strong(p, e, d)
#define atomic_compare_exchange_strong_explicit(p, e, d, s, f) ((void)(s), (void)(f), atomic_compare_exchange_strong(p, e, d))
#define atomic_compare_exchange_weak_explicit(p, e, d, s, f) atomic_compare_exchange_strong_explicit(p, e, d, s, f)
#define atomic_thread_fence(o) vp_env()
#endif
