/* Harness API: the same harness source is (a) encoded by CBMC, where every
 * vp_* draw is an unconstrained symbolic value, and (b) compiled natively with
 * -DVP_REPLAY, where draws come from the solver's counterexample. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

uint8_t vp_u8(void);
uint16_t vp_u16(void);
uint32_t vp_u32(void);
uint64_t vp_u64(void);
/* n <= max; the loop bound is the constant max */
void vp_bytes(void *dst, uint32_t n);
double vp_f64(void);  /* any bit pattern */
float vp_f32(void);
int32_t vp_range(int32_t lo, int32_t hi); /* inclusive */
#if defined(VP_LL) && !defined(VP_CBMC)
uint32_t vp_split(uint32_t v); /* IR engine: explore every feasible value of v separately; identity elsewhere */
#else
#define vp_split(v) (v)
#endif

#if defined(VP_REPLAY) || defined(VP_LL)
#ifdef VP_LL
#define VP_NOMERGE __attribute__((nomerge))
#else
#define VP_NOMERGE
#endif
VP_NOMERGE void vp_assert(int c, const char *msg);
VP_NOMERGE void vp_assume(int c);
VP_NOMERGE void vp_reach(const char *msg);
#define VP_ASSERT(c, msg) vp_assert(!!(c), msg)
#define VP_ASSUME(c) vp_assume(!!(c))
#define VP_REACH(msg) vp_reach("VP_REACH " msg)
#else
#define VP_ASSERT(c, msg) __CPROVER_assert((c), msg)
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_REACH(msg) __CPROVER_assert(0, "VP_REACH " msg)
#endif

void vp_main(void);
#ifdef __cplusplus
}
#endif
#endif
