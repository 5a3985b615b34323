/* 8-bit Fletcher checksum of every length up to HI: RFC 1145 running sums */
#include "vp.h"
#include <stdlib.h>
#include <ubx/decode.h>
void ubx_checksum(const uint8_t buff[], size_t length, uint8_t *checksum);
void vp_main(void) {
  uint8_t spec[HI + 1];
  vp_bytes(spec, HI);
  uint32_t len = vp_u16();
  VP_ASSUME(len <= HI);
  len = vp_split(len);
  uint8_t *b = malloc(len + 1);
  for (uint32_t i = 0; i < len; i++) b[i] = spec[i];
  uint8_t ck[4] = {vp_u8(), vp_u8(), vp_u8(), vp_u8()}, before = ck[2];
  ubx_checksum(b, len, ck);
  uint8_t a = 0, w = 0;
  for (uint32_t i = 0; i < len; i++) {
    a += spec[i];
    w += a;
  }
  VP_ASSERT(ck[0] == (uint8_t)a, "first byte: sum of the bytes");
  VP_ASSERT(ck[1] == (uint8_t)w, "second byte: sum of the running sums");
  VP_ASSERT(ck[2] == before, "nothing else is written");
  VP_REACH("sum");
}
