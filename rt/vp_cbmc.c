#include <stdint.h>
#include <stddef.h>
uint8_t nondet_u8(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
uint64_t nondet_u64(void);
uint8_t vp_u8(void) { uint8_t vp_draw = nondet_u8(); return vp_draw; }
uint16_t vp_u16(void) { uint16_t vp_draw = nondet_u16(); return vp_draw; }
uint32_t vp_u32(void) { uint32_t vp_draw = nondet_u32(); return vp_draw; }
uint64_t vp_u64(void) { uint64_t vp_draw = nondet_u64(); return vp_draw; }
void vp_bytes(void *dst, uint32_t n) {
  uint8_t *d = dst;
  for (uint32_t i = 0; i < n; i++) d[i] = vp_u8();
}
double vp_f64(void) { union { uint64_t u; double d; } x; x.u = vp_u64(); return x.d; }
float vp_f32(void) { union { uint32_t u; float d; } x; x.u = vp_u32(); return x.d; }
int32_t vp_range(int32_t lo, int32_t hi) {
  int32_t v = (int32_t)vp_u32();
  __CPROVER_assume(v >= lo && v <= hi);
  return v;
}
#ifdef VP_LL
void vp_global_ctors(void);
void vp_main(void);
#endif
