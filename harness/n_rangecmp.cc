#include "vp.h"
#include "message_rangecmp.h"
using namespace Novatel;
#ifndef NREC
#define NREC 2
#endif
static uint8_t b[4 + 24 * NREC + 8];
static uint64_t le(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static void rec(const Message::RANGECMP_record_t &r, const uint8_t *p) {
  VP_ASSERT(r.tracking_status == le(p, 4), "tracking status");
  uint32_t dop = le(p + 4, 4) & 0xFFFFFFF;
  VP_ASSERT((uint32_t)r.doppler == (dop & 0x8000000 ? dop | 0xF0000000u : dop), "doppler is a signed 28-bit field");
  VP_ASSERT(r.pseudorange == le(p + 7, 5) >> 4, "pseudorange is a 36-bit field");
  VP_ASSERT((uint32_t)r.ADR == le(p + 12, 4), "accumulated doppler range");
  VP_ASSERT(r.stddev_psr == (p[16] & 15), "pseudorange deviation index");
  VP_ASSERT(r.stddev_adr == p[16] >> 4, "range deviation index");
  VP_ASSERT(r.prn_slot == p[17], "prn");
  uint32_t w = le(p + 18, 4);
  VP_ASSERT(r.lock_time == (w & 0x1FFFFF), "lock time");
  VP_ASSERT(r.CN0 == (w >> 21 & 31), "carrier to noise");
  VP_ASSERT(r.glo_freq_no == w >> 26, "GLONASS frequency");
  VP_ASSERT(r.reserved == le(p + 22, 2), "reserved");
}
extern "C" void vp_main(void) {
  static Message::RANGECMP_t m;
  b[0] = NREC; b[1] = b[2] = b[3] = 0;
  vp_bytes(b + 4, 24 * NREC);
  m.FromBytes(b, 4 + 24 * NREC);
  const uint32_t n = NREC > 63 ? 63 : NREC;
  VP_ASSERT(m.n_records == n, "record count, limited to the channels that are kept");
  for (uint32_t i = 0; i < n; i++) rec(m.records[i], b + 4 + 24 * i);
  VP_REACH("end");
}
