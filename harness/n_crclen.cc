/* CRC over long buffers: concrete varied content with the last TAIL bytes symbolic, lengths from a list. */
#include "vp.h"
#include "crc_checker.h"
#ifndef TAIL
#define TAIL 1
#endif
static uint8_t b[4200];
static uint32_t step(uint32_t c, uint32_t v) {
  c ^= v & 0xFF;
  for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1;
  return c;
}
extern "C" void vp_main(void) {
  static const uint16_t L[] = {LENS};
  for (uint32_t i = 0; i < sizeof(b); i++) b[i] = (uint8_t)(i * 73 + (i >> 8) * 31 + 11);
  uint32_t n = L[vp_split((uint32_t)vp_range(0, sizeof(L) / sizeof(L[0]) - 1))];
  for (uint32_t i = 0; i < TAIL; i++) b[n - 1 - i] = vp_u8();
  uint32_t c = 0;
  for (uint32_t i = 0; i < n; i++) c = step(c, b[i]);
  VP_ASSERT(Novatel::CrcChecker::get_crc(b, n) == c, "CRC-32 of a long buffer");
  VP_REACH("end");
}
