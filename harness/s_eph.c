/* RTCM ephemerides to SBP through rtcm2sbp_decode_payload. MSG selects the message; PT the part: 0 orbit and clock fields, 1 accuracy, fit interval and validity, 2 times. */
#include <gnss-converters/rtcm3_sbp.h>
#include <rtcm3/eph_decode.h>
#include <math.h>
#ifndef TBS
#define TBS 5
#endif
#include <string.h>
#include "rspec.h"
#include "rtcmconv.h"
static struct rtcm3_sbp_state st;
static time_truth_t tt;
static int ctx, n_msg, bad;
static sbp_msg_type_t type;
static uint16_t snd;
static sbp_msg_t got;
void vp_env(void) {}
#if MSG == 1019
#define T ephemeris_gps
#define TY SbpMsgEphemerisGps
#define DECODE rtcm3_decode_gps_eph_bitstream
#define NB 61
#elif MSG == 1020
#define T ephemeris_glo
#define TY SbpMsgEphemerisGlo
#define DECODE rtcm3_decode_glo_eph_bitstream
#define NB 45
#elif MSG == 1042
#define T ephemeris_bds
#define TY SbpMsgEphemerisBds
#define DECODE rtcm3_decode_bds_eph_bitstream
#define NB 64
#elif MSG == 1044
#define T ephemeris_qzss
#define TY SbpMsgEphemerisQzss
#define DECODE rtcm3_decode_qzss_eph_bitstream
#define NB 61
#elif MSG == 1045
#define T ephemeris_gal
#define TY SbpMsgEphemerisGal
#define DECODE rtcm3_decode_gal_eph_fnav_bitstream
#define NB 62
#else
#define T ephemeris_gal
#define TY SbpMsgEphemerisGal
#define DECODE rtcm3_decode_gal_eph_inav_bitstream
#define NB 63
#endif
static void cb(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m, void *c) {
  (void)c;
  bad |= c != &ctx || t != TY;
  n_msg++;
  snd = sender;
  got.T = m->T;
}
static uint8_t p[80];
static int neq;
#define FD(f, x) do { double v_ = (x), g_ = g->f; neq |= memcmp(&v_, &g_, 8) != 0; } while (0)
#define FF(f, x) do { float v_ = (float)(x), g_ = g->f; neq |= memcmp(&v_, &g_, 4) != 0; } while (0)
#define PI_ 3.14159265358979323846
#define P2(n) (1.0 / (double)(1ull << (n)))
static int week_near(double tow, s16 wn, double ref) { return tow - ref > 302400 ? wn - 1 : tow - ref < -302400 ? wn + 1 : wn; }
void vp_main(void) {
  use_all();
  time_truth_init(&tt);
  rtcm2sbp_init(&st, &tt, cb, NULL, &ctx);
  static const double refs[] = {345678.5, 0, 100, 604799.75, 259200, 86400.25, 604784};
  double ref = refs[PT == 2 ? vp_split(vp_range(0, 6)) : 0];
  s16 wn = 2250;
  st.use_time_from_input_obs = true;
  st.time_from_input_data.wn = wn;
  st.time_from_input_data.tow = ref;
  vp_bytes(p, NB);
  rs_put(p, 0, 12, MSG);
  rtcm_msg_eph d;
  swiftnav_bitstream_t b;
  swiftnav_bitstream_init(&b, p, NB * 8);
#if MSG == 1020
  rs_put(p, 41, 7, PT == 2 ? vp_split(vp_range(0, 95 / TBS)) * TBS : 40);
#endif
#if PT == 1 /* accuracy index: each value separately */
#if MSG == 1019
  rs_put(p, 28, 4, vp_split(vp_range(0, 15)));
#elif MSG == 1042
  rs_put(p, 31, 4, vp_split(vp_range(0, 15)));
#elif MSG == 1020
  rs_put(p, 264, 4, vp_split(vp_range(0, 15)));
#elif MSG == 1044
  rs_put(p, 12 + 4 + 16 + 8 + 16 + 22 + 8 + 16 * 2 + 32 + 16 + 32 + 16 + 32 + 16 + 16 + 32 + 16 + 32 + 16 + 32 + 24 + 14 + 2 + 10, 4, vp_split(vp_range(0, 15)));
#else
  rs_put(p, 12 + 6 + 12 + 10, 8, vp_split(vp_range(0, 255)));
#endif
#endif
#if MSG == 1042
  rs_put(p, 12, 1, 1); /* not geostationary */
#endif
  VP_ASSERT(DECODE(&b, &d) == RC_OK, "decodes");
#define K d.data.kepler
#if PT != 2 && (MSG == 1019 || MSG == 1045 || MSG == 1046)
  VP_ASSUME(d.toe < (MSG == 1019 ? 37800 : 10080) && K.toc < (MSG == 1019 ? 37800 : 10080)); /* times inside the week */
#endif
  rtcm2sbp_decode_payload(p, NB, &st);
#if MSG == 1019 || MSG == 1044
  sbp_msg_ephemeris_gps_t *g = &got.T;
#elif MSG == 1042
  sbp_msg_ephemeris_bds_t *g = &got.T;
#elif MSG == 1020
  sbp_msg_ephemeris_glo_t *g = &got.T;
#else
  sbp_msg_ephemeris_gal_t *g = &got.T;
#endif
  sbp_ephemeris_common_content_t *q = &g->common;
#if PT != 2
#if MSG == 1020
  VP_ASSERT(n_msg == (d.sat_id != 0), "one ephemeris unless the slot is unknown");
  VP_ASSUME(d.sat_id != 0);
#else
  VP_ASSERT(n_msg == 1, "one ephemeris");
#endif
  VP_ASSERT(!bad && snd == 0xF080, "type and sender");
#endif
#if PT == 0
  u8 code = MSG == 1019 ? CODE_GPS_L1CA : MSG == 1044 ? CODE_QZS_L1CA : MSG == 1042 ? CODE_BDS2_B1 : MSG == 1020 ? CODE_GLO_L1OF : CODE_GAL_E1B;
  VP_ASSERT(q->sid.code == code && q->sid.sat == (u8)(d.sat_id + (MSG == 1044 ? 192 : 0)), "satellite");
  VP_ASSERT(q->health_bits == d.health_bits, "health bits");
#if MSG == 1020
  FF(gamma, d.data.glo.gamma * P2(40));
  FF(tau, d.data.glo.tau * P2(30));
  FF(d_tau, d.data.glo.d_tau * P2(30));
  VP_ASSERT(!neq, "clock terms");
  neq = 0;
  for (int i = 0; i < 3; i++) {
    FD(pos[i], d.data.glo.pos[i] * P2(11) * 1000);
    FD(vel[i], d.data.glo.vel[i] * P2(20) * 1000);
    FF(acc[i], d.data.glo.acc[i] * P2(30) * 1000);
  }
  VP_ASSERT(!neq, "position, velocity, acceleration");
  VP_ASSERT(g->fcn == (u8)(d.data.glo.fcn + 1), "frequency channel");
  VP_ASSERT(g->iod == ((d.data.glo.t_b * 900) & 127), "issue of data");
  VP_ASSERT(d.sat_id > 24 || st.glo_sv_id_fcn_map[d.sat_id] == (d.data.glo.fcn <= 13 ? d.data.glo.fcn : 255), "channel kept for the observations of the satellite");
#else
#if MSG == 1042
#define ER 6
#define EU 31
  FF(tgd1, K.tgd.bds_s[0] * 1e-10);
  FF(tgd2, K.tgd.bds_s[1] * 1e-10);
  FD(af0, K.af0 * P2(33));
  FF(af1, K.af1 * P2(50));
  FF(af2, K.af2 * (P2(33) * P2(33)));
  VP_ASSERT(g->iode == (u8)K.iode && g->iodc == K.iodc, "issues of data");
#elif MSG == 1019 || MSG == 1044
#define ER 5
#define EU 29
  FD(tgd, (float)(K.tgd.gps_s * P2(31)));
  FF(af0, K.af0 * P2(31));
  FF(af1, K.af1 * P2(43));
  FF(af2, K.af2 * P2(55));
  VP_ASSERT(g->iode == (u8)K.iode && g->iodc == K.iodc, "issues of data");
#else
#define ER 5
#define EU 29
  FF(bgd_e1e5a, K.tgd.gal_s[0] * P2(32));
  FF(bgd_e1e5b, MSG == 1045 ? 0.0 : K.tgd.gal_s[1] * P2(32));
  FD(af0, K.af0 * P2(34));
  FF(af1, K.af1 * P2(46));
  FF(af2, K.af2 * P2(59));
  VP_ASSERT(g->iode == K.iode && g->iodc == K.iode, "issues of data");
  VP_ASSERT(g->source == (MSG == 1045 ? EPH_SOURCE_GAL_FNAV : EPH_SOURCE_GAL_INAV), "source");
#endif
  VP_ASSERT(!neq, "clock terms");
  neq = 0;
  FF(c_rs, K.crs * P2(ER));
  FF(c_rc, K.crc * P2(ER));
  FF(c_uc, K.cuc * P2(EU));
  FF(c_us, K.cus * P2(EU));
  FF(c_ic, K.cic * P2(EU));
  FF(c_is, K.cis * P2(EU));
  VP_ASSERT(!neq, "harmonic terms");
  neq = 0;
  FD(dn, K.dn * P2(43) * PI_);
  FD(m0, K.m0 * P2(31) * PI_);
  FD(ecc, K.ecc * P2(33));
  FD(sqrta, K.sqrta * P2(19));
  FD(omega0, K.omega0 * P2(31) * PI_);
  FD(omegadot, K.omegadot * P2(43) * PI_);
  FD(w, K.w * P2(31) * PI_);
  FD(inc, K.inc * P2(31) * PI_);
  FD(inc_dot, K.inc_dot * P2(43) * PI_);
  VP_ASSERT(!neq, "orbit terms");
#endif
#elif PT == 1
#if MSG == 1019 || MSG == 1044
  static const float ura[] = {2, 2.8f, 4, 5.7f, 8, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144};
  u16 i = K.iodc;
  u32 h = !d.fit_interval ? 4 : i >= 240 && i <= 247 ? 8 : (i >= 248 && i <= 255) || i == 496 ? 14 : (i >= 497 && i <= 503) || i >= 1021 ? 26 : i >= 504 && i <= 510 ? 50 : i == 511 || (i >= 752 && i <= 756) ? 74 : i == 757 ? 98 : 6;
  VP_ASSERT(q->fit_interval == h * 3600, "fit interval");
  VP_ASSERT(q->valid == ((i & 255) == K.iode), "valid when the issues of data agree");
  VP_ASSERT(q->ura == ura[d.ura], "accuracy");
#elif MSG == 1042
  static const float ura[] = {2, 2.8f, 4, 5.7f, 8, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192};
  VP_ASSERT(q->fit_interval == 3 * 3600 && q->valid == 1, "fit interval, validity");
  VP_ASSERT(q->ura == ura[d.ura], "accuracy");
#elif MSG == 1020
  static const float ura[] = {1, 2, 2.5f, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, 6144};
  VP_ASSERT(q->valid == 1 && q->fit_interval == (d.fit_interval == 1 ? 2400 : d.fit_interval == 2 ? 3300 : 4200), "fit interval, validity");
  VP_ASSERT(q->ura == ura[d.ura], "accuracy");
#else
  int s = d.ura;
  double w = s <= 50 ? 0.01 * s : s <= 75 ? 0.5 + 0.02 * (s - 50) : s <= 100 ? 1 + 0.04 * (s - 75) : s <= 125 ? 2 + 0.16 * (s - 100) : -1;
  VP_ASSERT(q->fit_interval == 4 * 3600 && q->valid == 1, "fit interval, validity");
  VP_ASSERT(fabs(q->ura - w) < 1e-4, "accuracy");
#endif
#else
#if MSG == 1020
  d.sat_id = 1;
  uint32_t tb = d.data.glo.t_b;
  rs_start(p);
  rs_pos = 12;
  VP_ASSUME(rs_u(6) != 0);
  /* seconds from the reference to the time of ephemeris: Moscow time of day to GPS time */
  double x = (double)tb * 900 - 10800 + 18 - ref;
  VP_ASSERT(n_msg == 1, "one ephemeris");
  double off = ((int)q->toe.wn - wn) * 604800.0 + q->toe.tow - ref;
  VP_ASSERT(q->toe.tow < 604800, "time of week");
  double days = (off - x) / 86400;
  VP_ASSERT(fabs(off) <= 43200.5, "the day is the nearest to the reference");
  VP_ASSERT(fabs(days - rint(days)) * 86400 <= 0.5, "time of day");
#elif MSG == 1019 || MSG == 1045 || MSG == 1046
  u32 toe = d.toe * (MSG == 1019 ? 16 : 60), toc = K.toc * (MSG == 1019 ? 16u : 60u);
  bool ok = toe < 604800 && toc < 604800;
  VP_ASSERT(n_msg == ok, "ephemerides of invalid time are left out");
  if (ok) {
    VP_ASSERT(q->toe.tow == toe && g->toc.tow == toc, "times of week");
    VP_ASSERT(q->toe.wn == week_near(toe, wn, ref) && g->toc.wn == week_near(toc, wn, ref), "the week nearest to the present");
  }
#elif MSG == 1044
  VP_ASSERT(n_msg == 1 && q->toe.tow == d.toe * 16 && g->toc.tow == K.toc * 16u, "times of week");
  VP_ASSERT(((q->toe.wn - d.wn) & 1023) == 0 && q->toe.wn >= 2000 && q->toe.wn < 3024 && g->toc.wn == q->toe.wn, "week");
#else
  VP_ASSUME(d.wn >= 650 && d.wn < 8000 && d.toe < 75600 && K.toc < 75600);
  u32 toe = d.toe * 8 + 14, toc = K.toc * 8u + 14;
  VP_ASSERT(n_msg == 1 && q->toe.tow == toe % 604800 && g->toc.tow == toc % 604800, "times of week in GPS time");
  VP_ASSERT(q->toe.wn == d.wn + 1356 + toe / 604800 && g->toc.wn == d.wn + 1356 + toc / 604800, "weeks in GPS time");
#endif
#endif
  VP_REACH("end");
}
