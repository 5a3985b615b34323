/* MSM4/5 encoding. TYPE 4/5, CONS index, NS satellites, NG signals. RR: any rough range rate, phases and range rates invalid. OVER: masks beyond the limits. */
#include "rspec.h"
#include <math.h>
#include <rtcm3/encode.h>
#include <rtcm3/constants.h>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define ENCODE CAT(rtcm3_encode_msm, TYPE)
#define MSG (1070 + 10 * CONS + TYPE)
#define RATE (TYPE == 5)
static rtcm_msm_message m;
static void mask(bool *d, uint32_t n, uint32_t w, uint32_t k) {
  for (uint32_t i = 0; i < n; i++) d[k == 0 ? i : k == 1 ? w - 1 - i : (i * (w - 1)) / (n > 1 ? n - 1 : 1)] = true;
}
static uint32_t lock4(double t) {
  uint32_t r = 0;
  for (uint32_t i = 1; i < 16; i++) r += t >= (32u << (i - 1)) / 1000.0;
  return r;
}
/* any multiple of 2^-sh in [-2^(w-1-sh), 2^(w-1-sh)) */
static double grid(uint32_t w, uint32_t sh) { return ((double)(vp_u64() & ((1ull << w) - 1)) - (double)(1ull << (w - 1))) / (double)(1ull << sh); }
void vp_main(void) {
  static uint8_t buf[750];
  vp_bytes(buf, sizeof(buf)); /* the encoder does not rely on a cleared buffer */
  m.header.msg_num = MSG;
  m.header.stn_id = vp_u16() & 4095;
  m.header.tow_ms = vp_u32();
  VP_ASSUME(m.header.tow_ms < 604800000u);
  m.header.multiple = vp_u8() & 1;
  m.header.iods = vp_u8() & 7;
  m.header.reserved = vp_u8() & 127;
  m.header.steering = vp_u8() & 3;
  m.header.ext_clock = vp_u8() & 3;
  m.header.div_free = vp_u8() & 1;
  m.header.smooth = vp_u8() & 7;
#if defined(RR) || defined(OVER)
  uint32_t k = vp_split(vp_u8() % 3);
#else
  uint32_t k = 2;
#endif
  mask(m.header.satellite_mask, NS, 64, k);
  mask(m.header.signal_mask, NG, 32, (k + 1) % 3);
#ifdef OVER
  for (uint32_t i = 0; i < 64; i++) m.header.cell_mask[i] = 1;
  uint8_t first = buf[0];
  VP_ASSERT(ENCODE(&m, buf) == 0 && buf[0] == first, "a message beyond the limits is not encoded");
  VP_REACH("over");
  (void)lock4; (void)grid;
#else
  uint32_t cells = 0;
  uint8_t cm[NS * NG + 1];
  for (uint32_t i = 0; i < NS * NG; i++) { cm[i] = (uint8_t)vp_split(vp_u8() & 1); m.header.cell_mask[i] = cm[i]; cells += cm[i]; }
  for (uint32_t i = 0; i < NS; i++) {
    m.sats[i].glo_fcn = vp_u8() & 15;
#ifdef RR
    /* up to 512 ms in steps of 2^-20 ms, so that every rounding case of the field occurs */
    m.sats[i].rough_range_ms = grid(30, 20);
    m.sats[i].rough_range_rate_m_s = grid(16, 0);
#else
    static const double rates[4] = {0, 731, -8191, 8191}, ranges[4] = {0, 72 + 1023 / 1024.0, 81.99990234375, 254.9990234375};
#ifdef SMALL
    uint32_t pick = 1 + i;
#else
    uint32_t pick = vp_split(vp_u8() & 3);
#endif
    m.sats[i].rough_range_ms = ranges[pick];
    m.sats[i].rough_range_rate_m_s = rates[pick];
#endif
  }
  for (uint32_t j = 0; j < cells; j++) {
    rtcm_msm_signal_data *g = &m.signals[j];
#ifdef SMALL
    g->pseudorange_ms = m.sats[0].rough_range_ms + grid(9, 26);
    g->carrier_phase_ms = m.sats[0].rough_range_ms + grid(9, 30);
    g->lock_time_s = vp_u8() / 256.0;
    g->cnr = vp_u8() / 4.0;
    g->range_rate_m_s = m.sats[0].rough_range_rate_m_s + (vp_split(vp_u8() & 1) ? 0.75 : -1.25 - j);
#else
    g->pseudorange_ms = grid(36, 26);
    g->carrier_phase_ms = grid(40, 30);
    g->lock_time_s = (double)vp_u32() / 4096;
    g->cnr = (double)vp_u16() / 256;
    g->range_rate_m_s = grid(30, 14);
#endif
    g->hca_indicator = vp_u8() & 1;
    g->flags.data = vp_u8() & 31;
#ifdef RR
    g->flags.fields.valid_dop = 0;
    g->flags.fields.valid_cp = 0;
#endif
  }
  uint32_t bits = 169 + NS * NG + NS * (18 + (RATE ? 18 : 0)) + cells * (48 + (RATE ? 15 : 0));
  uint16_t n = ENCODE(&m, buf);
  VP_ASSERT(n == (bits + 7) / 8, "message length");
  rs_start(buf);
  EQ(rs_u(12), MSG, "message number");
  EQ(rs_u(12), m.header.stn_id, "station id");
  if (CONS == 1) {
    EQ(rs_u(3), m.header.tow_ms / 86400000, "day of week");
    EQ(rs_u(27), m.header.tow_ms % 86400000, "time of day");
  } else EQ(rs_u(30), m.header.tow_ms, "time of week");
  EQ(rs_u(1), m.header.multiple, "multiple message flag");
  EQ(rs_u(3), m.header.iods, "issue of data");
  EQ(rs_u(7), m.header.reserved, "reserved");
  EQ(rs_u(2), m.header.steering, "clock steering");
  EQ(rs_u(2), m.header.ext_clock, "external clock");
  EQ(rs_u(1), m.header.div_free, "divergence-free flag");
  EQ(rs_u(3), m.header.smooth, "smoothing interval");
  for (uint32_t i = 0; i < 64; i++) EQ(rs_u(1), m.header.satellite_mask[i], "satellite mask");
  for (uint32_t i = 0; i < 32; i++) EQ(rs_u(1), m.header.signal_mask[i], "signal mask");
  for (uint32_t i = 0; i < NS * NG; i++) EQ(rs_u(1), cm[i], "cell mask");
  double rr[NS + 1], rv[NS + 1];
  int ok[NS + 1], rok[NS + 1];
  uint32_t ms[NS + 1], info, md;
  for (uint32_t i = 0; i < NS; i++) ms[i] = (uint32_t)rs_u(8);
  if (RATE) for (uint32_t i = 0; i < NS; i++) { info = (uint32_t)rs_u(4); EQ(info, m.sats[i].glo_fcn, "satellite information"); }
  for (uint32_t i = 0; i < NS; i++) {
    md = (uint32_t)rs_u(10);
    double want = round(m.sats[i].rough_range_ms * 1024);
    ok[i] = (want >= 0) & (want < 255 * 1024);
    rr[i] = (double)((uint32_t)(ok[i] ? want : 0) & 0x3ffff) / 1024;
    VP_ASSERT(ok[i] ? ms[i] * 1024 + md == (uint32_t)want : ms[i] == 255, "rough range to the nearest 1/1024 ms, invalid when it does not fit");
  }
  for (uint32_t i = 0; i < NS && RATE; i++) {
    int32_t v = (int32_t)rs_s(14);
    rv[i] = v;
    double want = m.sats[i].rough_range_rate_m_s;
    rok[i] = fabs(want) < 8192;
    VP_ASSERT(rok[i] ? rv[i] == want : v == -8192, "rough range rate");
  }
  uint32_t c, j;
  for (c = 0, j = 0; c < NS * NG; c++) if (cm[c]) {
    const rtcm_msm_signal_data *g = &m.signals[j++];
    int32_t v = (int32_t)rs_s(15);
    double want = round((g->pseudorange_ms - rr[c / NG]) * 0x1p24);
    int fit = g->flags.fields.valid_pr & (fabs(want) < 16384);
    VP_ASSERT(!ok[c / NG] | (fit ? v == want : v == -16384), "fine pseudorange to the nearest unit, invalid when it does not fit");
  }
  for (c = 0, j = 0; c < NS * NG; c++) if (cm[c]) {
    const rtcm_msm_signal_data *g = &m.signals[j++];
    int32_t v = (int32_t)rs_s(22);
    double want = round((g->carrier_phase_ms - rr[c / NG]) * 0x1p29);
    int fit = g->flags.fields.valid_cp & (fabs(want) < 2097152);
    VP_ASSERT(!ok[c / NG] | (fit ? v == want : v == -2097152), "fine phase range to the nearest unit, invalid when it does not fit");
  }
  for (c = 0, j = 0; c < NS * NG; c++) if (cm[c]) {
    const rtcm_msm_signal_data *g = &m.signals[j++];
    EQ(rs_u(4), (g->flags.fields.valid_lock ? lock4(g->lock_time_s) : 0), "lock time indicator");
  }
  for (c = 0, j = 0; c < NS * NG; c++) if (cm[c]) EQ(rs_u(1), m.signals[j++].hca_indicator, "half-cycle ambiguity");
  for (c = 0, j = 0; c < NS * NG; c++) if (cm[c]) {
    const rtcm_msm_signal_data *g = &m.signals[j++];
    uint32_t v = (uint32_t)rs_u(6), want = (uint32_t)(g->cnr + 0.5);
    EQ(v, (!g->flags.fields.valid_cnr ? 0 : want > 63 ? 63 : want), "signal strength");
  }
  for (c = 0, j = 0; c < NS * NG && RATE; c++) if (cm[c]) {
    const rtcm_msm_signal_data *g = &m.signals[j++];
    int32_t v = (int32_t)rs_s(15);
    double fine = g->range_rate_m_s - m.sats[c / NG].rough_range_rate_m_s;
    int in = g->flags.fields.valid_dop & (fabs(fine) < 1.63832), out = !g->flags.fields.valid_dop | (fabs(fine) > 1.63838);
    VP_ASSERT(!rok[c / NG] | !in | ((v & 0x7fff) == ((int32_t)round(fine / 0.0001) & 0x7fff)), "fine range rate to the nearest unit");
    VP_ASSERT(!rok[c / NG] | !out | (v == -16384), "range rate that is invalid or does not fit");
  }
  VP_REACH("encode");
#endif
}
