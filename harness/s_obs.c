/* RTCM MSM4-7 observations to SBP through rtcm2sbp_decode_payload. One satellite and one signal.
   TYPE 4..7, CONS 0 GPS 1 GLONASS 2 Galileo 5 BeiDou; SUB 1 every signal number, 2 values, 3 every satellite number. */
#include <gnss-converters/options.h>
#include <gnss-converters/rtcm3_sbp.h>
#include <math.h>
#include <rtcm3/decode.h>
#include "rspec.h"
#include "rtcmconv.h"
static struct rtcm3_sbp_state st;
static time_truth_t tt;
static int ctx, n_obs, n_log, bad;
static uint16_t snd;
static sbp_msg_obs_t got;
void vp_env(void) {}
static void cb(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m, void *c) {
  bad |= c != &ctx;
  if (t == SbpMsgLog) { n_log++; return; }
  bad |= t != SbpMsgObs;
  n_obs++;
  snd = sender;
  got = m->obs;
}
#define GLO (CONS == 1)
#define RATE (TYPE == 5 || TYPE == 7)
#define HI (TYPE >= 6)
#define LIGHT 299792458.0
static uint8_t p[64];
typedef struct { int range, mod, pr, cp, lock, hca, cnr, rr, frr, fcn; } V;
static V vals(int k) {
  static const V t[] = {
      {70, 0, 0, 0, 0, 0, 40, 0, 0, 7},
      {79, 1023, 16383, 2097151, 15, 0, 63, 100, 16383, 0},
      {66, 512, -16383, -2097151, 7, 1, 1, -8191, -16383, 13},
      {254, 1023, 1, -1, 3, 0, 45, 800, 1, 6},
      {255, 17, 5, 5, 5, 0, 45, 800, 1, 6}, /* no rough range */
      {80, 17, -16384, 5, 5, 0, 45, 8, 1, 6}, /* no pseudorange */
      {80, 18, 400, -2097152, 5, 0, 45, 700, 1, 6}, /* no carrier phase */
      {81, 19, 300, 50000, 9, 0, 0, 700, 1, 8}, /* no signal strength */
      {82, 20, -200, 60000, 9, 1, 31, -8192, 2, 9}, /* no rough range rate */
      {83, 21, -100, 70000, 1, 1, 31, -340, -16384, 10}, /* no fine range rate */
      {0, 0, 0, 0, 2, 0, 20, 1, 0, 11},
      {71, 333, 777, 31333, 11, 0, 33, -250, 4444, 12},
      {72, 334, -778, -31337, 12, 1, 34, 251, -4447, 5},
      {73, 335, 8191, 1031, 13, 0, 35, 5, 9999, 4},
      {74, 336, -8190, -2055, 14, 0, 36, -5, -9998, 3},
      {0, 1, -16383, -2097151, 14, 0, 36, 8191, -9998, 2},
  };
  return t[k];
}
/* code of a signal number of the standard's tables; -1 if it has none here */
static int code_of(int id) {
#define S(n, c) if (id == n) return c
#if CONS == 0
  S(2, CODE_GPS_L1CA); S(3, CODE_GPS_L1P); S(4, CODE_GPS_L1P); S(9, CODE_GPS_L2P); S(10, CODE_GPS_L2P); S(15, CODE_GPS_L2CM); S(16, CODE_GPS_L2CL); S(17, CODE_GPS_L2CX);
  S(22, CODE_GPS_L5I); S(23, CODE_GPS_L5Q); S(24, CODE_GPS_L5X); S(30, CODE_GPS_L1CI); S(31, CODE_GPS_L1CQ); S(32, CODE_GPS_L1CX);
#elif CONS == 1
  S(2, CODE_GLO_L1OF); S(8, CODE_GLO_L2OF);
#elif CONS == 2
  S(2, CODE_GAL_E1C); S(4, CODE_GAL_E1B); S(5, CODE_GAL_E1X); S(8, CODE_GAL_E6C); S(10, CODE_GAL_E6B); S(11, CODE_GAL_E6X); S(14, CODE_GAL_E7I); S(15, CODE_GAL_E7Q); S(16, CODE_GAL_E7X);
  S(18, CODE_GAL_E8I); S(19, CODE_GAL_E8Q); S(20, CODE_GAL_E8X); S(22, CODE_GAL_E5I); S(23, CODE_GAL_E5Q); S(24, CODE_GAL_E5X);
#else
  S(2, CODE_BDS2_B1); S(14, CODE_BDS2_B2); S(22, CODE_BDS3_B5I); S(23, CODE_BDS3_B5Q); S(24, CODE_BDS3_B5X);
#endif
  return -1;
}
static double freq_of(int id, int fcn) {
#if CONS == 0
  return (id < 8 || id >= 30 ? 154 : id < 22 ? 120 : 115) * 10.23e6;
#elif CONS == 1
  return id == 2 ? 1602.0e6 + (fcn - 7) * 562500.0 : 1246.0e6 + (fcn - 7) * 437500.0;
#elif CONS == 2
  (void)fcn;
  return id < 8 ? 1575.42e6 : id < 14 ? 1278.75e6 : id < 18 ? 1207.14e6 : id < 22 ? 1191.795e6 : 1176.45e6;
#else
  (void)fcn;
  return id == 2 ? 1561.098e6 : id == 14 ? 1207.14e6 : 1176.45e6;
#endif
}
static int lock_sbp(double s) { /* SBP lock indicator, DF402 */
  int i = 0;
  for (double t = 0.032; i < 15 && s >= t; t *= 2) i++;
  return i;
}
static double lock4(uint32_t i) { return i ? (double)(32u << (i - 1)) / 1000 : 0; }
static double lock10(uint32_t i) {
  uint32_t s = (i - 64) / 32 + 1;
  uint32_t v = i < 64 ? i : i > 704 ? 67108864u : (1u << ((s + 5) & 31)) + ((i - 64 - 32 * (s - 1)) << (s & 31));
  return (double)v / 1000;
}
void vp_main(void) {
  use_all();
  (void)lock4; (void)lock10;
  time_truth_init(&tt);
  rtcm2sbp_init(&st, &tt, cb, NULL, &ctx);
  st.use_time_from_input_obs = true;
  st.time_from_input_data.wn = 2250;
  st.time_from_input_data.tow = 345678.5;
  for (int i = 0; i < CODE_COUNT; i++) sbp_signal_biases[i] = 0.25f * (float)i;
  int id = SUB == 1 ? (int)vp_split(vp_range(1, 32)) : 2;
  int k = SUB == 1 ? (int)vp_split(vp_range(11, 12)) : SUB == 2 ? (int)vp_split(vp_range(0, 15)) : 0;
  int sat = SUB == 3 ? (int)vp_split(vp_range(1, 64)) : 1 + (int)vp_split(vp_range(0, 1)) * 19;
  int known = 1;
#if CONS == 1 && SUB == 2
  sbp_glo_code_bias[0] = 0.5f;
  sbp_glo_phase_bias[0] = 0.125f;
  known = (int)vp_split(vp_range(0, 1));
#endif
  V v = vals(k);
  uint16_t stn = vp_u16() & 0xFFF;
  rs_put(p, 0, 12, 1070 + 10 * CONS + TYPE);
  rs_put(p, 12, 12, stn);
#if GLO
  rs_put(p, 24, 3, 4);
  rs_put(p, 27, 27, 10860000);
#else
  rs_put(p, 24, 30, 345678000 - (CONS == 5 ? 14000 : 0));
#endif
  rs_put(p, 73, 64, 1ull << (64 - sat));
  rs_put(p, 137, 32, 1ull << (32 - id));
  rs_put(p, 169, 1, 1);
  uint32_t q = 170;
#define PUT(n, x) do { rs_put(p, q, n, (uint64_t)(int64_t)(x)); q += n; } while (0)
  int inforaw = 0;
  /* in MSM5 and 7 the satellite information holds the channel, else it is known from an ephemeris */
  PUT(8, v.range);
  if (RATE) {
    inforaw = known ? v.fcn : 15;
    PUT(4, inforaw);
  }
  PUT(10, v.mod);
  if (RATE) PUT(14, v.rr);
  int64_t pr = HI ? (v.pr == -16384 ? -524288 : (int64_t)v.pr * 32 + (v.pr & 31)) : v.pr;
  if (HI && v.pr == -16383) pr = -524287;
  int64_t cp = HI ? (v.cp == -2097152 ? -8388608 : (int64_t)v.cp * 4 + (v.cp & 3)) : v.cp;
  int lk = HI ? v.lock * 47 : v.lock, cn = HI ? v.cnr * 16 + (v.cnr ? v.pr & 15 : 0) : v.cnr;
  PUT((HI ? 20 : 15), pr);
  PUT((HI ? 24 : 22), cp);
  PUT((HI ? 10 : 4), lk);
  PUT(1, v.hca);
  PUT((HI ? 10 : 6), cn);
  if (RATE) PUT(15, v.frr);
#if GLO
  if (!RATE && known) {
    sbp_v4_gnss_signal_t s = {(uint8_t)sat, CODE_GLO_L1OF};
    if (sat <= 28) rtcm2sbp_set_glo_fcn(s, (uint8_t)(v.fcn + 1), &st);
  }
#endif
#if GLO && SUB == 2
  VP_ASSUME(!RATE || known); /* reserved channel numbers in the satellite information are outside */
#endif
  rtcm2sbp_decode_payload(p, (q + 7) / 8, &st);
  int code = code_of(id);
  int okprn = sat <= (CONS == 0 ? 32 : CONS == 1 ? 28 : CONS == 2 ? 36 : 63);
  int vpr = v.range != 255 && v.pr != -16384;
  int one = code >= 0 && okprn && vpr;
  VP_ASSERT(!bad && n_obs == 1 && snd == (stn | 0xF080), "one observation message from the station");
  VP_ASSERT(got.header.n_obs == 0x10 && got.header.t.wn == 2250 && got.header.t.tow == 345678000 && got.header.t.ns_residual == 0, "time stamp and sequence");
  VP_ASSERT(got.n_obs == one, "an observation for each usable cell only");
  if (!one) { VP_REACH("none"); return; }
  sbp_packed_obs_content_t *o = &got.obs[0];
  double rough = v.range + v.mod / 1024.0;
  double pms = rough + (double)pr / (double)(HI ? 1 << 29 : 1 << 24), cms = rough + (double)cp / (double)(HI ? 1u << 31 : 1 << 29);
  double fb = 0, fp = 0;
#if CONS == 1 && SUB == 2
  if (known) { fb = (v.fcn - 7) * 0.5; fp = (v.fcn - 7) * 0.125; }
#endif
  VP_ASSERT(o->sid.code == code && o->sid.sat == sat, "signal");
  VP_ASSERT(o->P == (uint32_t)rint((pms * LIGHT / 1000 + 0.25 * code + fb) * 50), "pseudorange in 2 cm");
  int vcp = v.range != 255 && v.cp != -2097152 && known;
  int vdp = RATE && v.rr != -8192 && v.frr != -16384 && known;
  double f = freq_of(id, v.fcn), cyc = cms * f / 1000 + fp, l256 = vcp ? rint(cyc * 256) : 0;
  double dop = -((double)v.rr + v.frr * 0.0001) * f / LIGHT, d256 = rint(dop * 256);
  if (vdp && (dop < -32768 || dop >= 32767.5)) vdp = 0; /* cannot be expressed */
  if (!vdp) d256 = 0;
  VP_ASSERT((double)o->L.i * 256 + o->L.f == l256, "carrier phase in 1/256 cycle");
  VP_ASSERT((double)o->D.i * 256 + o->D.f == d256, "Doppler in 1/256 Hz");
  VP_ASSERT(o->flags == (1 | (vcp ? 2 | (v.hca ? 0 : 4) : 0) | (vdp ? 8 : 0)), "flags");
  VP_ASSERT(o->cn0 == (cn ? (int)fmin(255, rint(HI ? cn * 0.0625 * 4 : cn * 4.0)) : 0), "signal strength in quarter dB");
  VP_ASSERT(o->lock == lock_sbp(HI ? lock10((uint32_t)lk) : lock4((uint32_t)lk)), "lock time");
  VP_REACH("one");
}
