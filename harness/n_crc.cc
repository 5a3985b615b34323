/* CRC over every byte string up to N bytes == independent table-free reflected
 * CRC32 (poly 0xEDB88320, init 0, no final xor). */
#include "vp.h"
#include "crc_checker.h"
#ifndef N
#define N 6
#endif
extern "C" void vp_main(void) {
  uint8_t b[N];
  uint32_t n = vp_range(0, N);
  vp_bytes(b, N);
  uint32_t ref = 0;
  for (uint32_t i = 0; i < N; i++) {
    if (i >= n) break;
    ref ^= b[i];
    for (int k = 0; k < 8; k++) ref = (ref & 1) ? (ref >> 1) ^ 0xEDB88320u : ref >> 1;
  }
  uint32_t got = Novatel::CrcChecker::get_crc(b, n);
  VP_ASSERT(got == ref, "frame checksum equals reflected CRC-32 with zero init and no final xor");
  VP_REACH("end");
}
