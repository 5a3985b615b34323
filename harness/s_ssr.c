/* SSR corrections to SBP through rtcm2sbp_decode_payload. CONS 0 GPS 1 GLONASS 2 Galileo 3 QZSS 4 BeiDou 5 SBAS.
   A 1 combined orbit and clock, 2 orbit and clock in two messages, 3 code biases, 4 phase biases, 5 messages cut short, 6 time, 7 sequences of orbit and clock messages, 8 different satellites in the two messages. */
#include <gnss-converters/rtcm3_sbp.h>
#include "rspec.h"
#include "rtcmconv.h"
static struct rtcm3_sbp_state st;
static time_truth_t tt;
static int ctx, bad, n_msg;
void vp_env(void) {}
static sbp_msg_ssr_orbit_clock_t oc[8];
static sbp_msg_ssr_code_biases_t cbi[3];
static sbp_msg_ssr_phase_biases_t pb[5];
static void cb(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m, void *c) {
  bad |= c != &ctx || sender != 0;
  int k = n_msg++;
  if (t == SbpMsgSsrOrbitClock) { if (k < 8) oc[k] = m->ssr_orbit_clock; }
  else if (t == SbpMsgSsrCodeBiases) { if (k < 3) cbi[k] = m->ssr_code_biases; }
  else if (t == SbpMsgSsrPhaseBiases) { if (k < 5) pb[k] = m->ssr_phase_biases; }
  else bad = 1;
}
static const uint16_t base[] = {1057, 1063, 1240, 1246, 1258};
static const uint16_t pbn[] = {1265, 1266, 1267, 1268, 1270, 1269};
static const uint8_t l1[] = {CODE_GPS_L1CA, CODE_GLO_L1OF, CODE_GAL_E1B, CODE_QZS_L1CA, CODE_BDS2_B1, CODE_SBAS_L1CA};
static uint8_t p[1100];
#define EB (CONS == 1 ? 17 : 20)
#define SB (CONS == 1 ? 5 : CONS == 3 ? 4 : 6)
#define IB (CONS == 2 || CONS == 4 ? 10 : 8)
#define OB (SB + IB + (CONS == 4 ? 8 : 0) + 22 + 20 + 20 + 21 + 19 + 19)
#define CB_ (22 + 21 + 27)
static uint32_t ep0 = CONS == 1 ? 10860 : CONS == 4 ? 345664 : 345678;
/* kind 0 orbit 1 clock 2 code 3 both 4 phase; returns the bit after the header */
static uint32_t head(int kind, uint32_t ep, uint32_t nsat) {
  int num = kind == 4 ? pbn[CONS] : base[CONS % 5] + kind;
  rs_put(p, 0, 12, (uint64_t)num);
  rs_put(p, 12, EB, ep);
  uint32_t q = 12 + EB + 4 + 1 + (kind == 0 || kind == 3) + 4 + 16 + 4 + (kind == 4 ? 2 : 0);
  rs_put(p, q, 6, nsat);
  return q + 6;
}
static void solved(void) {
  time_truth_init(&tt);
  rtcm2sbp_init(&st, &tt, cb, NULL, &ctx);
  st.use_time_from_input_obs = true;
  st.time_from_input_data.wn = 2250;
  st.time_from_input_data.tow = 345678.5;
}
static uint32_t ui, iod, disp, mw;
static void rhead(int kind) {
  rs_start(p);
  rs_pos = 12 + EB;
  ui = (uint32_t)rs_u(4);
  rs_pos += 1 + (kind == 0 || kind == 3);
  iod = (uint32_t)rs_u(4);
  rs_pos += 20;
  if (kind == 4) { disp = (uint32_t)rs_u(1); mw = (uint32_t)rs_u(1); }
  rs_pos += 6;
}
static int w;
#define NE(a, b) w |= (a) != (b)
static void horb(sbp_msg_ssr_orbit_clock_t *o) {
  NE(o->time.wn, 2250);
  NE(o->time.tow, 345678);
  NE(o->sid.code, l1[CONS]);
  NE(o->update_interval, ui);
  NE(o->iod_ssr, iod);
}
static void rorb(sbp_msg_ssr_orbit_clock_t *o, uint32_t sat) {
  NE(o->sid.sat, sat);
  uint32_t i = (uint32_t)rs_u(IB);
  if (CONS == 4) i = (uint32_t)rs_u(8);
  NE(o->iod, i);
  NE(o->radial, (int32_t)rs_s(22));
  NE(o->along, (int32_t)rs_s(20));
  NE(o->cross, (int32_t)rs_s(20));
  NE(o->dot_radial, (int32_t)rs_s(21));
  NE(o->dot_along, (int32_t)rs_s(19));
  NE(o->dot_cross, (int32_t)rs_s(19));
}
static void rclk(sbp_msg_ssr_orbit_clock_t *o) {
  NE(o->c0, (int32_t)rs_s(22));
  NE(o->c1, (int32_t)rs_s(21));
  NE(o->c2, (int32_t)rs_s(27));
}
void vp_main(void) {
  use_all();
  (void)horb; (void)rorb; (void)rclk; (void)rhead; (void)head;
  solved();
#if A == 1
  uint32_t n = vp_split(vp_range(0, 3));
  vp_bytes(p, 120);
  uint32_t q = head(3, ep0, n);
  rtcm2sbp_decode_payload(p, (q + n * (OB + CB_) + 7) / 8, &st);
  VP_ASSERT(n_msg == (int)n && !bad, "a correction for each satellite");
  rhead(3);
  for (uint32_t i = 0; i < n; i++) {
    uint32_t s = (uint32_t)rs_u(SB);
    horb(&oc[i]);
    rorb(&oc[i], s);
    rclk(&oc[i]);
  }
  VP_ASSERT(!w, "fields of the corrections");
  VP_REACH("both");
#elif A == 2
  /* the same satellites in both messages, in any order; either message first */
  static const uint8_t perm[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  static const uint8_t ids[] = {3, 14, 1};
  const uint8_t *po = perm[vp_split(vp_range(0, 5))];
  uint32_t first = vp_split(vp_range(0, 1));
  vp_bytes(p, 120);
  uint8_t c[100], o[120];
  uint32_t q = head(1, ep0, 3);
  for (int i = 0; i < 3; i++) rs_put(p, q + (uint32_t)i * (SB + CB_), SB, ids[i]);
  memcpy(c, p, 100);
  vp_bytes(p, 120);
  uint32_t qo = head(0, ep0, 3);
  uint32_t ip = q - 6 - 24, io = ip + 1;
  for (uint32_t k = 0; k < 4; k++) rs_put(p, io + k, 1, c[(ip + k) / 8] >> (7 - (ip + k) % 8) & 1); /* the same issue of data */
  for (int i = 0; i < 3; i++) rs_put(p, qo + (uint32_t)i * OB, SB, ids[po[i]]);
  memcpy(o, p, 120);
  for (uint32_t k = 0; k < 2; k++) {
    VP_ASSERT(n_msg == 0, "nothing after one of the two");
    if (k == first) rtcm2sbp_decode_payload(c, (q + 3 * (SB + CB_) + 7) / 8, &st);
    else rtcm2sbp_decode_payload(o, (qo + 3 * OB + 7) / 8, &st);
  }
  VP_ASSERT(n_msg == 3 && !bad, "a correction for each satellite");
  memcpy(p, o, 120);
  rhead(0);
  for (int i = 0; i < 3; i++) {
    horb(&oc[po[i]]);
    VP_ASSERT(rs_u(SB) == ids[po[i]], "spec");
    rorb(&oc[po[i]], ids[po[i]]);
  }
  memcpy(p, c, 100);
  rs_pos = q;
  for (int i = 0; i < 3; i++) {
    rs_pos += SB;
    rclk(&oc[i]);
  }
  VP_ASSERT(!w, "orbit and clock of the same satellite");
  VP_REACH("pair");
#elif A == 3
  static const uint8_t cnt[][2] = {{0, 1}, {1, 0}, {2, 3}, {31, 1}, {1, 31}};
  const uint8_t *n = cnt[vp_split(vp_range(0, 4))];
  vp_bytes(p, 120);
  uint32_t q = head(2, ep0, 2);
  rs_put(p, q + SB, 5, n[0]);
  rs_put(p, q + SB + 5 + 19 * (uint32_t)n[0] + SB, 5, n[1]);
  rtcm2sbp_decode_payload(p, (q + 2 * (SB + 5) + 19u * (n[0] + n[1]) + 7) / 8, &st);
  VP_ASSERT(n_msg == 2 && !bad, "code biases of each satellite");
  rhead(2);
  for (int i = 0; i < 2; i++) {
    NE(cbi[i].time.wn, 2250);
    NE(cbi[i].time.tow, 345678);
    NE(cbi[i].sid.code, l1[CONS]);
    NE(cbi[i].update_interval, ui);
    NE(cbi[i].iod_ssr, iod);
    NE(cbi[i].sid.sat, rs_u(SB));
    rs_pos += 5;
    NE(cbi[i].n_biases, n[i]);
    for (int k = 0; k < n[i]; k++) {
      NE(cbi[i].biases[k].code, rs_u(5));
      NE(cbi[i].biases[k].value, (int16_t)rs_s(14));
    }
  }
  VP_ASSERT(!w, "fields of the code biases");
  VP_REACH("code");
#elif A == 4
  static const uint8_t cnt[][2] = {{0, 1}, {1, 0}, {2, 29}, {30, 1}, {1, 30}, {31, 31}};
  const uint8_t *n = cnt[vp_split(vp_range(0, 5))];
  vp_bytes(p, 300);
  uint32_t q = head(4, ep0, 2);
  rs_put(p, q + SB, 5, n[0]);
  rs_put(p, q + SB + 22 + 32 * (uint32_t)n[0] + SB, 5, n[1]);
  rtcm2sbp_decode_payload(p, (q + 2 * (SB + 22) + 32u * (n[0] + n[1]) + 7) / 8, &st);
  VP_ASSERT(n_msg == 2 + (n[0] > 30) + (n[1] > 30) && !bad, "phase biases of each satellite, 30 in a message");
  rhead(4);
  int m = 0;
  for (int i = 0; i < 2; i++) {
    uint32_t sat = (uint32_t)rs_u(SB);
    rs_pos += 5;
    uint32_t yaw = (uint32_t)rs_u(9);
    int rate = (int)rs_s(8), left = n[i];
    do {
      sbp_msg_ssr_phase_biases_t *o = &pb[m++];
      int here = left > 30 ? 30 : left;
      left -= here;
      NE(o->time.wn, 2250);
      NE(o->time.tow, 345678);
      NE(o->sid.code, l1[CONS]);
      NE(o->update_interval, ui);
      NE(o->iod_ssr, iod);
      NE(o->dispersive_bias, disp);
      NE(o->mw_consistency, mw);
      NE(o->sid.sat, sat);
      NE(o->yaw, yaw);
      NE(o->yaw_rate, rate);
      NE(o->n_biases, here);
      for (int k = 0; k < here; k++) {
        NE(o->biases[k].code, rs_u(5));
        NE(o->biases[k].integer_indicator, rs_u(1));
        NE(o->biases[k].widelane_integer_indicator, rs_u(2));
        NE(o->biases[k].discontinuity_counter, rs_u(4));
        NE(o->biases[k].bias, (int32_t)rs_s(20));
      }
    } while (left);
  }
  VP_ASSERT(!w, "fields of the phase biases");
  VP_REACH("phase");
#elif A == 5
  vp_bytes(p, 120);
  uint32_t q = head(KIND, ep0, 2), len;
  if (KIND == 2) { rs_put(p, q + SB, 5, 2); rs_put(p, q + SB + 5 + 38 + SB, 5, 1); len = q + 2 * (SB + 5) + 3 * 19; }
  else if (KIND == 4) { rs_put(p, q + SB, 5, 1); rs_put(p, q + SB + 22 + 32 + SB, 5, 1); len = q + 2 * (SB + 22) + 64; }
  else len = q + 2 * (KIND == 0 ? OB : KIND == 1 ? SB + CB_ : OB + CB_);
  uint32_t cut = vp_split(vp_range(1, (len + 7) / 8 - 1));
  uint8_t *x = __builtin_alloca(cut);
  memcpy(x, p, cut);
  rtcm2sbp_decode_payload(x, cut, &st);
  if (KIND < 2) { /* the other half of the pair */
    uint32_t ip = q - 6 - 24;
    uint8_t v[4];
    for (uint32_t k = 0; k < 4; k++) v[k] = p[(ip + k) / 8] >> (7 - (ip + k) % 8) & 1;
    vp_bytes(p, 120);
    q = head(1 - KIND, ep0, 2);
    ip = q - 6 - 24;
    for (uint32_t k = 0; k < 4; k++) rs_put(p, ip + k, 1, v[k]);
    if (KIND == 0) ip = SB + CB_; else ip = OB;
    rs_put(p, q, SB, 3);
    rs_put(p, q + ip, SB, 4);
    rtcm2sbp_decode_payload(p, (q + 2 * ip + 7) / 8, &st);
  }
  VP_ASSERT(n_msg == 0, "a message cut short gives nothing");
  VP_REACH("cut");
#elif A == 6
  static const double ref[] = {345678.5, 0.0, 3.25, 604799.5, 302000, 86399.5, 86400.5, 75618, 75600};
  static const int off[] = {0, -1, 1, -300, 300, 12, -43000, 43000};
  double r = ref[vp_split(vp_range(0, 8))];
  int t = (int)r + off[vp_split(vp_range(0, 7))], wn = 2250;
  st.time_from_input_data.tow = r;
  if (t < 0) { t += 604800; wn--; }
  if (t >= 604800) { t -= 604800; wn++; }
  uint32_t ep = CONS == 1 ? (uint32_t)(t + 86400 - 18 + 10800) % 86400 : CONS == 4 ? (uint32_t)(t + 604800 - 14) % 604800 : (uint32_t)t;
  uint32_t q = head(2, ep, 1);
  rtcm2sbp_decode_payload(p, (q + SB + 5 + 7) / 8, &st);
  VP_ASSERT(n_msg == 1 && !bad, "code biases");
  VP_ASSERT(cbi[0].time.tow == (uint32_t)t && cbi[0].time.wn == wn, "GPS time of the corrections");
  VP_REACH("time");
  /* impossible times of week or day */
  static const uint32_t imp[] = {604800, 604801, 1048575};
  uint32_t b = vp_split(vp_range(0, 2));
  n_msg = 0;
  q = head(2, CONS == 1 ? 86401 + b * 300 : imp[b], 1);
  rtcm2sbp_decode_payload(p, (q + SB + 5 + 7) / 8, &st);
  VP_ASSERT(n_msg == 0, "nothing at an impossible time");
#elif A == 8
  /* different satellites in the two messages: those in both are converted */
  static const uint8_t sets[][4] = {{3, 0, 0, 0}, {3, 14, 0, 0}, {14, 5, 3, 0}, {5, 3, 14, 9}, {9, 5, 0, 0}};
  const uint8_t *sc = sets[vp_split(vp_range(0, 4))], *so = sets[vp_split(vp_range(0, 4))];
  uint32_t first = vp_split(vp_range(0, 1)), nc = 0, no = 0;
  while (nc < 4 && sc[nc]) nc++;
  while (no < 4 && so[no]) no++;
  for (uint32_t k = 0; k < 2; k++) {
    memset(p, 0, sizeof p);
    int kind = k == first;
    uint32_t q = head(kind, ep0, kind ? nc : no), sz = kind ? SB + CB_ : OB;
    for (uint32_t i = 0; i < (kind ? nc : no); i++) {
      rs_put(p, q + i * sz, SB, kind ? sc[i] : so[i]);
      rs_put(p, q + i * sz + SB + (kind ? 0 : IB + (CONS == 4 ? 8 : 0)), 22, 100 * (kind ? sc[i] : so[i]));
    }
    rtcm2sbp_decode_payload(p, (q + sz * (kind ? nc : no) + 7) / 8, &st);
  }
  int m = 0;
  for (uint32_t i = 0; i < nc; i++)
    for (uint32_t k = 0; k < no; k++)
      if (sc[i] == so[k]) {
        w |= m >= n_msg || oc[m].sid.sat != sc[i] || oc[m].c0 != 100 * sc[i] || oc[m].radial != 100 * sc[i];
        m++;
      }
  VP_ASSERT(n_msg == m && !bad && !w, "the satellites in both messages");
  VP_REACH("different");
#elif A == 7
  /* reference: one half is kept until its counterpart of the same time and issue comes */
  int have = 0; /* 1 orbit 2 clock */
  uint32_t ht = 0, hi = 0;
  for (int i = 0; i < 4; i++) {
    uint32_t k = vp_split(vp_range(0, 7)), kind = k & 1, ep = ep0 + (k >> 1 & 1), is = k >> 2;
    memset(p, 0, sizeof p);
    uint32_t q = head((int)kind, ep, 1);
    rs_put(p, q - 6 - 24, 4, is ? 9 : 8);
    rs_put(p, q, SB, 7);
    n_msg = 0;
    rtcm2sbp_decode_payload(p, (q + (kind ? SB + CB_ : OB) + 7) / 8, &st);
    int match = have == (kind ? 1 : 2) && ht == ep && hi == is;
    VP_ASSERT(n_msg == match && !bad, "a correction when the second half comes");
    if (match) have = 0;
    else { have = kind ? 2 : 1; ht = ep; hi = is; }
  }
  VP_REACH("sequence");
#endif
}
