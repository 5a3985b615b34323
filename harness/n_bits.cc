/* bit-field reads: for every (offset, width) and every content */
#include "vp.h"
#include <string.h>
#include "read_little_endian.h"
using namespace Novatel;
static uint8_t b[32];
static uint64_t ref(uint32_t off, uint32_t n) {
  /* independent oracle: gather bytes, then shift */
  uint64_t lo = 0, hi = 0;
  for (int i = 0; i < 8; i++) lo |= (uint64_t)b[off / 8 + i] << (8 * i);
  hi = b[off / 8 + 8];
  uint32_t s = off % 8;
  uint64_t v = lo >> s;
  if (s) v |= hi << (64 - s);
  return n >= 64 ? v : v & (((uint64_t)1 << n) - 1);
}
extern "C" void vp_main(void) {
  vp_bytes(b, 20);
  uint32_t off = vp_split((uint32_t)vp_range(0, MAXOFF)), n = vp_split((uint32_t)vp_range(0, 64));
#ifdef STEP
  VP_ASSUME(n % STEP == 0 || n == 63 || n == 28 || n == 21);
#endif
  uint64_t e = ref(off, n);
  VP_ASSERT(Util::read_le_bits64(b, off, n) == e, "64-bit field read");
  if (n <= 32) VP_ASSERT(Util::read_le_bits32(b, off, n) == (uint32_t)e, "32-bit field read");
  if (n <= 16) VP_ASSERT(Util::read_le_bits16(b, off, n) == (uint16_t)e, "16-bit field read");
  if (n <= 8) VP_ASSERT(Util::read_le_bits8(b, off, n) == (uint8_t)e, "8-bit field read");
  uint64_t w = ref(off & ~7u, 64);
  const uint8_t *p = b + off / 8;
  VP_ASSERT(Util::read_le_uint16(p) == (uint16_t)w, "16-bit integer read");
  VP_ASSERT(Util::read_le_uint32(p) == (uint32_t)w, "32-bit integer read");
  VP_ASSERT((uint32_t)Util::read_le_int32(p) == (uint32_t)w, "signed 32-bit integer read");
  double d = Util::read_le_double(p); float f = Util::read_le_float(p);
  uint64_t du; uint32_t fu; memcpy(&du, &d, 8); memcpy(&fu, &f, 4);
  VP_ASSERT(du == w, "double read");
  VP_ASSERT(fu == (uint32_t)w, "float read");
  VP_REACH("end");
}
