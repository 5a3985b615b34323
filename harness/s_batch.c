/* Collecting RTCM observations into SBP epochs through rtcm2sbp_decode_payload. A 1 one MSM of many cells, 2 an epoch of several MSMs, 3 sequences of N MSMs, 4 sequences of N legacy and MSM messages,
   5 one legacy message of one satellite, 6 MSM time stamps, 7 QZSS and SBAS, masked systems. */
#include <gnss-converters/options.h>
#include <gnss-converters/rtcm3_sbp.h>
#include <math.h>
#include <rtcm3/decode.h>
#include "rspec.h"
#include "rtcmconv.h"
#ifndef N
#define N 3
#endif
static struct rtcm3_sbp_state st;
static time_truth_t tt;
static int ctx, bad, n_inv;
void vp_env(void) {}
#define LIGHT 299792458.0
/* what came out: epochs of numbered observations and logs */
static int n_ev, n_rec, part, parts;
static struct { int log, level, n, from; uint16_t snd; uint32_t tow; int16_t wn; } ev[12];
static struct { uint8_t sat, code; uint32_t P; } rec[260];
static sbp_packed_obs_content_t last;
static char text[260];
static void inv(double d, void *c) { (void)d; (void)c; n_inv++; }
static void cb(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m, void *c) {
  bad |= c != &ctx;
  if (n_ev >= 12) { bad = 1; return; }
  if (t == SbpMsgLog) {
    ev[n_ev].log = 1;
    ev[n_ev].level = m->log.level;
    memcpy(text, m->log.text.data, 255);
    n_ev++;
    bad |= part != 0;
    return;
  }
  if (t != SbpMsgObs) { bad = 1; return; }
  int tot = m->obs.header.n_obs >> 4, i = m->obs.header.n_obs & 15;
  if (part == 0) {
    parts = tot;
    ev[n_ev].log = 0;
    ev[n_ev].n = 0;
    ev[n_ev].from = n_rec;
    ev[n_ev].snd = sender;
    ev[n_ev].tow = m->obs.header.t.tow;
    ev[n_ev].wn = m->obs.header.t.wn;
  }
  bad |= tot != parts || i != part || ev[n_ev].snd != sender || ev[n_ev].tow != m->obs.header.t.tow || ev[n_ev].wn != m->obs.header.t.wn || m->obs.header.t.ns_residual != 0;
  bad |= m->obs.n_obs > 14 || (i + 1 < tot && m->obs.n_obs != 14);
  for (int k = 0; k < m->obs.n_obs && n_rec < 260; k++) {
    rec[n_rec].sat = m->obs.obs[k].sid.sat;
    rec[n_rec].code = m->obs.obs[k].sid.code;
    rec[n_rec].P = m->obs.obs[k].P;
    n_rec++;
    last = m->obs.obs[k];
  }
  ev[n_ev].n += m->obs.n_obs;
  if (++part == parts) {
    part = 0;
    bad |= parts > 1 && ev[n_ev].n <= 14 * (parts - 1);
    n_ev++;
  }
}
static uint8_t p[700];
#define T0 345678000u
static const uint8_t ids[6][4] = {{2, 9, 15, 22}, {2, 8, 0, 0}, {2, 8, 14, 22}, {2, 22, 23, 24}, {2, 15, 16, 22}, {2, 14, 22, 23}};
static const uint8_t codes[6][4] = {{CODE_GPS_L1CA, CODE_GPS_L2P, CODE_GPS_L2CM, CODE_GPS_L5I}, {CODE_GLO_L1OF, CODE_GLO_L2OF}, {CODE_GAL_E1C, CODE_GAL_E6C, CODE_GAL_E7I, CODE_GAL_E5I}, {0}, {0}, {CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B5I, CODE_BDS3_B5Q}};
static uint32_t tod_of(uint32_t tow) { return (tow + (86400u - 18 + 10800) * 1000u) % 86400000u; }
static void msm(int cons, uint16_t stn, uint32_t tow, int more, int ns, int ng) {
  memset(p, 0, sizeof p);
  rs_put(p, 0, 12, 1074 + 10 * cons);
  rs_put(p, 12, 12, stn);
  if (cons == 1) {
    rs_put(p, 24, 3, 4);
    rs_put(p, 27, 27, tod_of(tow));
  } else {
    rs_put(p, 24, 30, cons == 5 ? (tow + 604800000u - 14000u) % 604800000u : tow);
  }
  rs_put(p, 54, 1, (uint64_t)more);
  for (int s = 0; s < ns; s++) rs_put(p, 73 + s, 1, 1);
  for (int g = 0; g < ng; g++) rs_put(p, 136 + ids[cons][g], 1, 1);
  uint32_t q = 169;
  int nc = ns * ng;
  for (int c = 0; c < nc; c++) rs_put(p, q++, 1, 1);
  for (int s = 0; s < ns; s++, q += 8) rs_put(p, q, 8, 60 + s);
  q += 10 * ns;
  for (int c = 0; c < nc; c++, q += 15) rs_put(p, q, 15, 16 * c);
  q += (22 + 4 + 1 + 6) * nc;
  rtcm2sbp_decode_payload(p, (q + 7) / 8, &st);
}
static uint32_t p_of(int s, int c) { return (uint32_t)rint((60 + s + c * 16 / 16777216.0) * LIGHT / 1000 * 50); }
static void legacy(int num, uint16_t stn, uint32_t tow, int sync) {
  memset(p, 0, sizeof p);
  uint32_t q = 24;
  rs_put(p, 0, 12, (uint64_t)num);
  rs_put(p, 12, 12, stn);
  if (num >= 1009) {
    rs_put(p, q, 27, tod_of(tow));
    q += 27;
  } else {
    rs_put(p, q, 30, tow);
    q += 30;
  }
  rs_put(p, q, 1, (uint64_t)sync);
  rs_put(p, q + 1, 5, 1);
  q += 10;
  rs_put(p, q, 6, 5); /* satellite */
  if (num >= 1009) {
    rs_put(p, q + 7, 5, 9);    /* channel */
    rs_put(p, q + 12, 25, 800000);
    rs_put(p, q + 37, 20, 44);
    q += 79;
  } else {
    rs_put(p, q + 7, 24, 800000);
    rs_put(p, q + 31, 20, 44);
    q += 74;
  }
  rtcm2sbp_decode_payload(p, (q + 7) / 8, &st);
}
static void start(void) {
  use_all();
  time_truth_init(&tt);
  rtcm2sbp_init(&st, &tt, cb, inv, &ctx);
  st.use_time_from_input_obs = true;
  st.time_from_input_data.wn = 2250;
  st.time_from_input_data.tow = 345678.5;
  (void)msm; (void)legacy; (void)p_of; (void)codes;
}
#define LOGIS(e, l, s) (ev[e].log && ev[e].level == (l) && strncmp(text, s, sizeof(s) - 1) == 0)
void vp_main(void) {
  start();
#if A == 1
  static const uint8_t shape[][3] = {{0, 1, 1}, {0, 7, 2}, {0, 5, 3}, {0, 16, 4}, {2, 16, 4}, {1, 14, 2}, {5, 13, 1}, {5, 14, 4}, {2, 27, 2}, {1, 28, 2}, {0, 32, 2}, {2, 29, 1}, {0, 14, 3}};
  int k = (int)vp_split(vp_range(0, sizeof shape / 3 - 1)), cons = shape[k][0], ns = shape[k][1], ng = shape[k][2];
  uint16_t stn = vp_u16() & 0xFFF;
  msm(cons, stn, T0, 0, ns, ng);
  VP_ASSERT(!bad && part == 0 && n_ev == 1 && !ev[0].log, "one epoch, in messages of 14 numbered from 0");
  VP_ASSERT(ev[0].n == ns * ng && n_rec == ns * ng && parts == (ns * ng + 13) / 14, "an observation for each cell");
  VP_ASSERT(ev[0].snd == (stn | 0xF080) && ev[0].tow == T0 && ev[0].wn == 2250, "station and time");
  int w = 0;
  for (int s = 0; s < ns; s++)
    for (int g = 0; g < ng; g++) w |= rec[s * ng + g].sat != s + 1 || rec[s * ng + g].code != codes[cons][g] || rec[s * ng + g].P != p_of(s, s * ng + g);
  VP_ASSERT(!w, "each observation once, in order");
  VP_REACH("epoch");
#elif A == 2
  static const uint8_t sets[][4][3] = {{{0, 1, 1}, {1, 1, 1}, {2, 1, 1}, {5, 1, 1}}, {{0, 12, 3}, {1, 10, 2}, {2, 10, 4}, {5, 20, 2}}, {{0, 32, 2}, {2, 16, 4}, {5, 16, 4}, {1, 9, 2}}, {{0, 32, 2}, {2, 16, 4}, {5, 16, 4}, {1, 10, 2}}, {{0, 32, 2}, {2, 16, 4}, {5, 16, 4}, {1, 28, 2}}, {{0, 0, 0}, {2, 3, 2}, {5, 0, 0}, {1, 2, 1}}};
  int k = (int)vp_split(vp_range(0, sizeof sets / 12 - 1)), total = 0;
  for (int i = 0; i < 4; i++) {
    total += sets[k][i][1] * sets[k][i][2];
    if (sets[k][i][1]) msm(sets[k][i][0], 77, T0, i < 3, sets[k][i][1], sets[k][i][2]);
  }
  int full = total > 210, e = full ? 1 : 0;
  if (full) total = 210;
  VP_ASSERT(!bad && part == 0 && n_ev == e + 1 && (!full || LOGIS(0, 3, "Too many RTCM observations received!")), "one epoch, and a log if observations are too many");
  VP_ASSERT(ev[e].n == total && ev[e].tow == T0, "all the observations of the epoch");
  int w = 0, j = 0;
  for (int i = 0; i < 4; i++)
    for (int c = 0; c < sets[k][i][1] * sets[k][i][2] && j < total; c++, j++) {
      int s = c / sets[k][i][2], g = c % sets[k][i][2];
      w |= rec[j].sat != s + 1 || rec[j].code != codes[sets[k][i][0]][g] || rec[j].P != p_of(s, c);
    }
  VP_ASSERT(!w, "each observation once, in order");
  VP_REACH("epoch");
#elif A == 3 || A == 4
  /* reference: a buffer flushed when the epoch or station changes or ends */
  int nb = 0, wn = 0, bi[12], logw = 0;
  uint32_t bt = 0;
  uint16_t bs = 0;
  uint32_t lg = 0, lr = 0, lm = 0;
  int have = 0;
  static const uint32_t dt[] = {0, 1000, 200};
  for (int i = 0; i < N; i++) {
    uint32_t pick = vp_split(vp_range(0, A == 3 ? 11 : 11));
#if A == 3
    int kind = 2, cons = i % 3 == 1 ? 1 : i % 3 == 2 ? 5 : 0, more = pick & 1;
    uint16_t stn = pick & 2 ? 8 : 7;
    uint32_t t = T0 + dt[pick >> 2];
#else
    int kind = (int)pick / 4, cons = kind == 1, more = pick & 1; /* GPS, GLONASS, MSM */
    uint16_t stn = 7;
    uint32_t t = T0 + (pick & 2 ? GAP : 0);
#endif
    int use = 1, before = n_ev, flush1 = 0, flush2 = 0, ow = wn;
    int msm_on = have && (int64_t)t - (int64_t)lm < 5000;
    uint32_t *l = kind == 1 ? &lr : &lg;
    if (kind != 2) {
      if (msm_on || (*l && t <= *l)) use = 0;
    } else if (!msm_on) {
      nb = 0; /* the first MSM drops what legacy messages left */
    }
    uint16_t os = bs;
    uint32_t ot = bt;
    if (use) {
      *l = t;
      if (kind == 2) { lg = lr = lm = t; have = 1; }
      if (nb && (bt != t || bs != stn)) { flush1 = nb; nb = 0; logw = kind == 2; }
      bt = t;
      bs = stn;
      bi[nb++] = i;
    }
    uint16_t ns_ = bs;
    uint32_t nt_ = bt;
    if (kind == 2 ? !more : use && !more) { flush2 = nb; wn += nb; nb = 0; }
    if (kind == 2) msm(cons, stn, t, more, 1, 1);
    else legacy(kind ? 1010 : 1002, stn, t, more);
    int e = before;
    if (flush1) {
      if (logw) { VP_ASSERT(e < n_ev && LOGIS(e, 4, "RTCM MSM sequence not properly finished, sending incomplete message"), "an unfinished MSM epoch is reported"); e++; }
      logw = 0;
      VP_ASSERT(e < n_ev && !ev[e].log && ev[e].n == flush1 && ev[e].snd == (os | 0xF080) && ev[e].tow == ot, "an unfinished epoch is sent when the next begins");
      e++;
    }
    if (flush2) {
      VP_ASSERT(e < n_ev && !ev[e].log && ev[e].n == flush2 && ev[e].snd == (ns_ | 0xF080) && ev[e].tow == nt_, "a finished epoch is sent");
      e++;
    }
    VP_ASSERT(e == n_ev && !bad && part == 0, "nothing else is sent");
    (void)ow; (void)bi;
  }
  VP_REACH("sequence");
#elif A == 5
  static const uint16_t nums[] = {1002, 1004, 1010, 1012};
  int num = nums[NUM], glo = NUM >= 2, two = NUM & 1;
  static const int sats[] = {0, 1, 32, 33, 39, 40, 58, 59, 63, 24, 25, 5};
  int sat = sats[vp_split(vp_range(0, 11))];
  uint32_t k = vp_split(vp_range(0, 7));
  static const int vv[8][8] = { /* code, pr, phase, lock, amb, cnr, code2, diff */
      {0, 800000, 44, 0, 60, 180, 0, 100}, {1, 14989622, -262143, 127, 77, 255, 1, -8191}, {0, 1, 262143, 23, 3, 0, 0, 8191}, {1, 12345, -1, 24, 70, 1, 3, -3},
      {0, 900000, -524288, 50, 71, 100, 2, 7}, {0, 900001, 60, 72, 70, 101, 0, -8192}, {0, 0, 0, 100, 0, 99, 0, 0}, {1, 5555555, 7777, 120, 79, 66, 1, 444}};
  for (int i = 0; i < CODE_COUNT; i++) sbp_signal_biases[i] = 0.25f * (float)i;
  const int *v = vv[k];
  memset(p, 0, sizeof p);
  uint32_t q = 24;
  uint16_t stn = vp_u16() & 0xFFF;
#define PUT(n, x) do { rs_put(p, q, n, (uint64_t)(int64_t)(x)); q += n; } while (0)
  rs_put(p, 0, 12, (uint64_t)num);
  rs_put(p, 12, 12, stn);
  if (glo) PUT(27, tod_of(T0)); else PUT(30, T0);
  PUT(1, 0);
  PUT(5, 1);
  q += 4;
  PUT(6, sat);
  PUT(1, v[0]);
  if (glo) PUT(5, 3 + k);
  PUT(glo ? 25 : 24, v[1]);
  PUT(20, v[2]);
  PUT(7, v[3]);
  PUT(glo ? 7 : 8, v[4]);
  PUT(8, v[5]);
  if (two) {
    PUT(2, v[6]);
    PUT(14, v[7]);
    PUT(20, v[2] == -524288 ? -524288 : v[2] + 99);
    PUT(7, v[3]);
    PUT(8, v[5] ^ 1);
  }
  static rtcm_obs_message d;
  swiftnav_bitstream_t b;
  swiftnav_bitstream_init(&b, p, (q + 7) / 8 * 8);
  rtcm3_rc rc = NUM == 0 ? rtcm3_decode_1002_bitstream(&b, &d) : NUM == 1 ? rtcm3_decode_1004_bitstream(&b, &d) : NUM == 2 ? rtcm3_decode_1010_bitstream(&b, &d) : rtcm3_decode_1012_bitstream(&b, &d);
  VP_ASSERT(rc == RC_OK && d.header.n_sat == 1, "decodes");
  rtcm2sbp_decode_payload(p, (q + 7) / 8, &st);
  int n = 0, w = 0, nlog = 0;
  for (int i = 0; i < n_ev; i++) nlog += ev[i].log;
  for (int f = 0; f < 1 + two; f++) {
    const rtcm_freq_data *x = &d.sats[0].obs[f];
    if (!x->flags.fields.valid_pr || !x->flags.fields.valid_cp) continue;
    int code, s = sat;
    if (glo) {
      if (sat < 1 || sat > 24) continue;
      code = f ? CODE_GLO_L2OF : CODE_GLO_L1OF;
    } else if (sat >= 1 && sat <= 32) {
      code = f ? (x->code == 0 ? CODE_GPS_L2CM : CODE_GPS_L2P) : (x->code == 0 ? CODE_GPS_L1CA : CODE_GPS_L1P);
    } else if (sat >= 40 && sat <= 58 && f == 0) {
      code = CODE_SBAS_L1CA;
      s += 80;
    } else {
      continue;
    }
    double l256 = rint(x->carrier_phase * 256);
    w |= n >= n_rec || rec[n].sat != s || rec[n].code != code || rec[n].P != (uint32_t)rint((x->pseudorange + 0.25 * code) * 50);
    n++;
    if (n == n_rec) {
      int lk = 0;
      for (double t = 0.032; lk < 15 && x->lock >= t; t *= 2) lk++;
      w |= (double)last.L.i * 256 + last.L.f != l256 || last.flags != 7 || last.D.i || last.D.f || last.cn0 != (x->flags.fields.valid_cnr ? (int)rint(x->cnr * 4) : 0) || last.lock != (x->flags.fields.valid_lock ? lk : 0);
    }
  }
  VP_ASSERT(!bad && n_ev == 1 + nlog && n_rec == n, "one epoch of the usable observations");
  VP_ASSERT(!w, "values of the observations");
  VP_ASSERT(ev[nlog].snd == (stn | 0xF080) && ev[nlog].tow == T0 && ev[nlog].wn == 2250, "station and time");
  VP_REACH("legacy");
#elif A == 6
  /* any reference time within the week of the epoch and about its ends */
  static const double ref[] = {345678.5, 0.0, 3.25, 604799.5, 302000, 86399.5, 86400.5};
  static const int off[] = {0, -1000, 1000, -10000, 11000, 12, -11600}; /* ms from the reference, rounded */
  double r = ref[vp_split(vp_range(0, 6))];
  int o = off[vp_split(vp_range(0, 6))];
  st.time_from_input_data.tow = r;
  int cons = CONS;
  if (cons == 1 && o == -11600) o = -10900; /* older GLONASS epochs fail its sanity check */
  int64_t t = (int64_t)floor(r) * 1000 + o;
  int wn = 2250;
  if (t < 0) { t += 604800000; wn--; }
  if (t >= 604800000) { t -= 604800000; wn++; }
  if (t == 0) { /* as a first epoch the start of the week is taken for a start-up value */
    msm(cons, 7, 0, 0, 1, 1);
    VP_ASSERT(n_rec == 0, "time 0 at start-up is ignored");
    msm(0, 7, 604799000, 0, 1, 1);
    n_ev = 0;
    n_inv = 0;
    part = 0;
  }
  msm(cons, 7, (uint32_t)t, 0, 1, 1);
  VP_ASSERT(!bad && n_ev == 1 && ev[0].n == 1, "one epoch");
  VP_ASSERT(ev[0].tow == (uint32_t)t && ev[0].wn == wn, "GPS time of the epoch");
  VP_ASSERT(n_inv == (cons != 1 && r - floor(r) - o / 1000.0 >= 10), "an epoch older than 10 s is reported");
  VP_REACH("time");
#elif A == 7
  int k = (int)vp_split(vp_range(0, 9));
  if (k < 8) {
    int c = 3 + k / 4;
    memset(p, 0, sizeof p);
    msm(c, 7, T0, 0, 2, 2);
    VP_ASSERT(n_rec == 0 && !bad, "no observation of QZSS or SBAS");
    VP_REACH("none");
  } else {
    constellation_mask[k == 8 ? CONSTELLATION_GPS : CONSTELLATION_GAL] = true;
    msm(0, 7, T0, 1, 2, 2);
    msm(2, 7, T0, 0, 3, 1);
    VP_ASSERT(!bad && n_rec == (k == 8 ? 3 : 4) && n_ev == 1, "an excluded system gives no observation");
    VP_REACH("mask");
  }
#endif
}
