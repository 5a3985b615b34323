/* Independent sequential bit reader used as the oracle for RTCM layouts: MSB first. */
#ifndef RSPEC_H
#define RSPEC_H
#include "vp.h"
#include <string.h>
#include <swiftnav/bitstream.h>
static const uint8_t *rs_p;
static uint32_t rs_pos;
static uint64_t rs_u(uint32_t n) {
  uint32_t end = rs_pos + n;
  uint64_t v = 0;
  if (n == 0) return 0;
  for (uint32_t b = rs_pos / 8; b <= (end - 1) / 8; b++) {
    uint32_t lo = b * 8 > rs_pos ? b * 8 : rs_pos, hi = (b + 1) * 8 < end ? (b + 1) * 8 : end; /* bits [lo,hi) of this byte */
    uint32_t part = ((uint32_t)rs_p[b] >> ((b + 1) * 8 - hi)) & ((1u << (hi - lo)) - 1);
    v = v << (hi - lo) | part;
  }
  rs_pos = end;
  return v;
}
static int64_t rs_s(uint32_t n) { return (int64_t)(rs_u(n) << (64 - n)) >> (64 - n); }
/* sign-magnitude */
static int64_t rs_m(uint32_t n) {
  uint64_t s = rs_u(1);
  int64_t m = (int64_t)rs_u(n - 1);
  return s ? -m : m;
}
static void rs_start(const uint8_t *p) { rs_p = p; rs_pos = 0; }
#define EQ(field, spec, what) VP_ASSERT((field) == (spec), what)
static inline void use_all(void) { (void)rs_u; (void)rs_s; (void)rs_m; (void)rs_start; }
/* big-endian bit writer for the fixed part of a message */
static inline void rs_put(uint8_t *p, uint32_t pos, uint32_t n, uint64_t v) {
  for (uint32_t i = 0; i < n; i++) {
    uint32_t q = pos + i;
    uint8_t bit = (uint8_t)(v >> (n - 1 - i) & 1);
    p[q / 8] = (uint8_t)((p[q / 8] & ~(1u << (7 - q % 8))) | (uint32_t)bit << (7 - q % 8));
  }
}
#endif
