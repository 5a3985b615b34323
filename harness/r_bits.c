/* rtcm_get/setbit*: MODE 0 reads, MODE 1 writes */
#include "rspec.h"
#include <rtcm3/bits.h>
#ifndef STEP
#define STEP 1
#endif
static uint8_t b[24], o[24], z[24];
void vp_main(void) {
  uint32_t pos = vp_split((uint32_t)vp_range(0, MAXPOS));
  uint32_t n = vp_split((uint32_t)vp_range(1, 64));
  VP_ASSUME(n % STEP == 0 || n == 1 || n == 31 || n == 33 || n == 63);
  vp_bytes(b, sizeof(b));
  memcpy(o, b, sizeof(b));
  rs_start(b); rs_pos = pos;
#if MODE == 0
  uint64_t u = rs_u(n);
  int64_t s = (int64_t)(u << (64 - n)) >> (64 - n);
  VP_ASSERT(rtcm_getbitul(b, pos, (uint8_t)n) == u, "unsigned long field");
  VP_ASSERT(rtcm_getbitsl(b, pos, (uint8_t)n) == s, "signed long field");
  if (n <= 32) {
    VP_ASSERT(rtcm_getbitu(b, pos, (uint8_t)n) == (uint32_t)u, "unsigned field");
    VP_ASSERT(rtcm_getbits(b, pos, (uint8_t)n) == (int32_t)s, "signed field");
  }
  if (n >= 2 && n <= 32) {
    int64_t mag = (int64_t)(u & ((1ull << (n - 1)) - 1));
    int32_t want = (int32_t)(u >> (n - 1) & 1 ? -mag : mag), got = 77;
    VP_ASSERT(rtcm_get_sign_magnitude_bit(b, pos, (uint8_t)n) == want, "sign-magnitude field");
    swiftnav_bitstream_t bs;
    swiftnav_bitstream_init(&bs, b, sizeof(b) * 8);
    swiftnav_bitstream_remove(&bs, pos);
    VP_ASSERT(rtcm_get_sign_magnitude_bitstream(&bs, (uint8_t)n, &got) == RC_OK && got == want, "sign-magnitude field of a bitstream");
  }
  VP_ASSERT(!memcmp(o, b, sizeof(b)), "reading does not modify");
#else
  uint64_t v = vp_u64(), mask = n < 64 ? (1ull << n) - 1 : ~0ull;
  const int kind = KIND;
  uint64_t field = v & mask;
  memcpy(z, b, sizeof(b));
  if (kind == 0) rtcm_setbitul(b, pos, n, v);
  else if (kind == 1) rtcm_setbitsl(b, pos, n, (int64_t)v);
  else {
    VP_ASSUME(n <= 32);
    if (kind == 2) rtcm_setbitu(b, pos, n, (uint32_t)v);
    else if (kind == 3) rtcm_setbits(b, pos, n, (int32_t)v);
    else {
      VP_ASSUME(n >= 2);
      int64_t sm = (int64_t)(int32_t)v;
      VP_ASSUME(sm < ((int64_t)1 << (n - 1)) && sm > -((int64_t)1 << (n - 1)));
      rtcm_set_sign_magnitude_bit(b, pos, (uint8_t)n, sm);
      field = sm < 0 ? (uint64_t)-sm | 1ull << (n - 1) : (uint64_t)sm;
    }
  }
  VP_ASSERT(rs_u(n) == field, "the field holds the value written");
  /* every other bit is untouched */
  for (uint32_t i = 0; i < sizeof(b); i++) {
    uint32_t m = 0;
    for (uint32_t k = 0; k < 8; k++)
      if (i * 8 + k < pos || i * 8 + k >= pos + n) m |= 0x80u >> k;
    VP_ASSERT((b[i] & m) == (o[i] & m), "bits outside the field are untouched");
  }
#endif
  VP_REACH("end");
}
