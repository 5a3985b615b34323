/* MSM4-7 decoding. TYPE 4..7, CONS index 0..6 (GPS GLO GAL SBAS QZSS BDS NAVIC), NS satellites, NG signals. Modes: decode, CUT, BIG. */
#include "rspec.h"
#include <stdlib.h>
#include <string.h>
#include <rtcm3/decode.h>
#include <rtcm3/constants.h>
#define CAT2(a, b, c) a##b##c
#define CAT(a, b, c) CAT2(a, b, c)
#define DECODE CAT(rtcm3_decode_msm, TYPE, _bitstream)
#define MSG (1070 + 10 * CONS + TYPE)
#define GLO (CONS == 1)
#define BDS (CONS == 5)
#define RATE (TYPE == 5 || TYPE == 7)
#define HI (TYPE >= 6)
static rtcm_msm_message m;
static double lock4(uint32_t i) { return i ? (double)(32u << (i - 1)) / 1000 : 0; }
static double lock10(uint32_t i) {
  uint32_t s = (i - 64) / 32 + 1;
  uint32_t v = i < 64 ? i : i > 704 ? 67108864u : (1u << ((s + 5) & 31)) + ((i - 64 - 32 * (s - 1)) << (s & 31));
  return (double)v / 1000;
}
/* a few placements of n ones in a mask of size w, so that both ends and neighbours occur */
static uint64_t place(uint32_t n, uint32_t w, uint32_t k) {
  uint64_t r = 0;
  for (uint32_t i = 0; i < n; i++) {
    uint32_t p = k == 0 ? i : k == 1 ? w - 1 - i : (i * (w - 1)) / (n > 1 ? n - 1 : 1);
    r |= 1ull << (w - 1 - p);
  }
  return r;
}
void vp_main(void) {
  static uint8_t spec[600];
  vp_bytes(spec, sizeof(spec));
  rs_put(spec, 0, 12, MSG);
  uint32_t k = vp_split(vp_u8() % 3);
  uint64_t sm = place(NS, 64, k), gm = place(NG, 32, (k + 1) % 3);
  rs_put(spec, 73, 64, sm);
  rs_put(spec, 137, 32, gm);
  uint32_t cells = 0;
#ifdef BIG
  uint32_t len = sizeof(spec);
#else
  uint8_t cm[NS * NG + 1];
  rs_start(spec);
  rs_pos = 169;
  for (uint32_t i = 0; i < NS * NG; i++) { cm[i] = (uint8_t)vp_split((uint32_t)rs_u(1)); cells += cm[i]; }
  uint32_t bits = 169 + NS * NG + NS * (18 + (RATE ? 18 : 0)) + cells * ((HI ? 20 + 24 + 10 + 1 + 10 : 15 + 22 + 4 + 1 + 6) + (RATE ? 15 : 0));
  uint32_t len = (bits + 7) / 8;
#ifdef CUT
  uint32_t cut = vp_u16();
  VP_ASSUME(cut >= 1 && cut <= len);
  len -= vp_split(cut);
#endif
#endif
#if TYPE >= 6 && NS * NG > 1
  /* the lock table is covered by the one-cell runs */
  for (uint32_t c = 0; c < cells; c++) rs_put(spec, 169 + NS * NG + NS * (18 + (RATE ? 18 : 0)) + cells * 44 + 10 * c, 4, 0);
#endif
#ifdef BIG
  memset(&m, 0x5A, sizeof(m));
#endif
  uint8_t *b = malloc(len ? len : 1);
  for (uint32_t i = 0; i < len; i++) b[i] = spec[i];
  swiftnav_bitstream_t s;
  swiftnav_bitstream_init(&s, b, len * 8);
  rtcm3_rc rc = DECODE(&s, &m);
#ifdef BIG
  VP_ASSERT(rc == RC_INVALID_MESSAGE, "impossible masks refused");
  for (uint32_t i = 0; i < sizeof(m.header.cell_mask); i++) VP_ASSERT(((const uint8_t *)m.header.cell_mask)[i] == 0x5A, "a refused cell mask is not stored");
  for (uint32_t i = 0; i < sizeof(m.signals); i++) VP_ASSERT(((const uint8_t *)m.signals)[i] == 0x5A, "a refused message has no signals");
  for (uint32_t i = 0; i < sizeof(m.sats); i++) VP_ASSERT(((const uint8_t *)m.sats)[i] == 0x5A, "a refused message has no satellites");
  VP_REACH("big");
  (void)lock4; (void)lock10; (void)cells;
#else
  rs_start(spec);
  rs_pos = 24;
  uint32_t tow;
  if (GLO) { rs_pos += 3; tow = (uint32_t)rs_u(27); }
  else {
    tow = (uint32_t)rs_u(30);
    /* negative BeiDou times are wrapped into the week */
    if (BDS) tow = tow >= (1u << 30) - 14000 ? 604800000u - ((1u << 30) - tow) : tow;
  }
#ifdef CUT
  VP_ASSERT(rc == RC_INVALID_MESSAGE, "a truncated message is rejected");
  VP_REACH("cut");
  (void)lock4; (void)lock10; (void)tow;
#else
  if (tow > (GLO ? 86399999u : 604799999u)) { VP_ASSERT(rc == RC_INVALID_MESSAGE, "impossible time refused"); return; }
  VP_ASSERT(rc == RC_OK, "complete message accepted");
  EQ(m.header.msg_num, MSG, "message number");
  uint32_t at = rs_pos;
  rs_pos = 12;
  EQ(m.header.stn_id, rs_u(12), "station id");
  rs_pos = at;
  EQ(m.header.tow_ms, tow, "time");
  EQ(m.header.multiple, rs_u(1), "multiple message flag");
  EQ(m.header.iods, rs_u(3), "issue of data");
  EQ(m.header.reserved, rs_u(7), "reserved");
  EQ(m.header.steering, rs_u(2), "clock steering");
  EQ(m.header.ext_clock, rs_u(2), "external clock");
  EQ(m.header.div_free, rs_u(1), "divergence-free flag");
  EQ(m.header.smooth, rs_u(3), "smoothing interval");
  for (uint32_t i = 0; i < 64; i++) EQ(m.header.satellite_mask[i], (sm >> (63 - i) & 1), "satellite mask");
  for (uint32_t i = 0; i < 32; i++) EQ(m.header.signal_mask[i], (gm >> (31 - i) & 1), "signal mask");
  for (uint32_t i = 0; i < NS * NG; i++) EQ(m.header.cell_mask[i], cm[i], "cell mask");
  rs_pos = 169 + NS * NG;
  double rr[NS + 1], rv[NS + 1];
  int rok[NS + 1], vok[NS + 1];
  uint32_t ms[NS + 1];
  for (uint32_t i = 0; i < NS; i++) { ms[i] = (uint32_t)rs_u(8); rok[i] = ms[i] != 255; }
  for (uint32_t i = 0; i < NS; i++) {
    uint32_t info = RATE ? (uint32_t)rs_u(4) : GLO ? 255 : 0;
    EQ(m.sats[i].glo_fcn, info, "satellite information");
  }
  for (uint32_t i = 0; i < NS; i++) {
    rr[i] = ms[i] + (double)rs_u(10) / 1024;
    VP_ASSERT(!rok[i] | (m.sats[i].rough_range_ms == rr[i]), "rough range");
  }
  for (uint32_t i = 0; i < NS; i++) {
    int32_t v = RATE ? (int32_t)rs_s(14) : -8192;
    rv[i] = v;
    vok[i] = v != -8192;
    VP_ASSERT(!vok[i] | (m.sats[i].rough_range_rate_m_s == rv[i]), "rough range rate");
  }
  uint32_t base = rs_pos, wpr = HI ? 20 : 15, wcp = HI ? 24 : 22, wl = HI ? 10 : 4, wc = HI ? 10 : 6, j = 0;
  for (uint32_t c = 0; c < NS * NG; c++) {
    if (!cm[c]) continue;
    uint32_t sat = c / NG, off = base;
    const rtcm_msm_signal_data *g = &m.signals[j];
    rs_pos = off + j * wpr; off += cells * wpr;
    int32_t pr = (int32_t)rs_s(wpr);
    rs_pos = off + j * wcp; off += cells * wcp;
    int32_t cp = (int32_t)rs_s(wcp);
    rs_pos = off + j * wl; off += cells * wl;
    uint32_t lk = (uint32_t)rs_u(wl);
    rs_pos = off + j; off += cells;
    uint32_t hca = (uint32_t)rs_u(1);
    rs_pos = off + j * wc; off += cells * wc;
    uint32_t cn = (uint32_t)rs_u(wc);
    int32_t dv = -16384;
    if (RATE) { rs_pos = off + j * 15; dv = (int32_t)rs_s(15); }
    int pok = rok[sat] & (pr != (HI ? -524288 : -16384)), cok = rok[sat] & (cp != (HI ? -8388608 : -2097152)), dok = vok[sat] & (dv != -16384);
    VP_ASSERT(g->flags.fields.valid_pr == pok, "pseudorange validity");
    VP_ASSERT(g->flags.fields.valid_cp == cok, "phase validity");
    VP_ASSERT(g->flags.fields.valid_lock == 1, "lock time validity");
    VP_ASSERT(g->flags.fields.valid_cnr == (cn != 0), "signal strength validity");
    VP_ASSERT(g->flags.fields.valid_dop == dok, "Doppler validity");
    VP_ASSERT(!pok | (g->pseudorange_ms == rr[sat] + pr * (HI ? 0x1p-29 : 0x1p-24)), "pseudorange");
    VP_ASSERT(!cok | (g->carrier_phase_ms == rr[sat] + cp * (HI ? 0x1p-31 : 0x1p-29)), "phase range");
    VP_ASSERT(!dok | (g->range_rate_m_s == rv[sat] + dv * 0.0001), "phase range rate");
    VP_ASSERT(g->lock_time_s == (HI ? lock10(lk) : lock4(lk)), "lock time");
    EQ(g->hca_indicator, hca, "half-cycle ambiguity");
    VP_ASSERT(g->cnr == cn * (HI ? 0.0625 : 1.0), "signal strength");
    j++;
  }
  VP_REACH("decode");
#endif
#endif
}
