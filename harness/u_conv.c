/* UBX navigation, raw measurement and sensor messages to SBP, through ubx_handle_frame. T_*: which conversion. */
#include "vp.h"
#include <math.h>
#include <string.h>
#include <gnss-converters/ubx_sbp.h>
#include <swiftnav/bytestream.h>
#include <ubx/ubx_messages.h>
#ifndef MAXO
#define MAXO 4
#endif
static struct ubx_sbp_state s;
static int n, ctx_ok = 1, ctx;
static struct { uint16_t id; uint32_t t; sbp_msg_t m; } o[MAXO];
static uint16_t sid_;
static void cb(uint16_t id, sbp_msg_type_t t, const sbp_msg_t *m, void *c) {
  ctx_ok &= c == &ctx && id == sid_;
  if (n < MAXO) {
    o[n].t = t;
    o[n].m = *m;
  }
  n++;
}
static void feed(uint8_t *f, uint32_t len) {
  swiftnav_bytestream_t b;
  swiftnav_bytestream_init(&b, f, len);
  ubx_handle_frame(&b, &s);
}
static uint64_t le(const uint8_t *p, uint32_t k) {
  uint64_t v = 0;
  for (uint32_t i = 0; i < k; i++) v |= (uint64_t)p[i] << 8 * i;
  return v;
}
#define U1(f, o) (f[o])
#define U2(f, o) ((uint16_t)le(f + (o), 2))
#define U4(f, o) ((uint32_t)le(f + (o), 4))
#define I4(f, o) ((int32_t)U4(f, o))
static void put(uint8_t *p, uint64_t v, uint32_t k) {
  for (uint32_t i = 0; i < k; i++) p[i] = v >> 8 * i;
}
static void putd(uint8_t *p, double d) {
  uint64_t v;
  memcpy(&v, &d, 8);
  put(p, v, 8);
}
static uint32_t sat16(uint32_t v) { return v > 65535 ? 65535 : v; }
/* fix type of NAV-PVT -> SBP position flags */
static uint32_t fixflags(uint32_t fix, uint32_t fl) {
  uint32_t carr = fl >> 6;
  uint32_t sol = !(fl & 2) ? 1 : carr == 0 ? 2 : carr == 1 ? 3 : carr == 2 ? 4 : 0;
  uint32_t m = fix == 1 ? 5 : fix >= 2 && fix <= 4 ? sol : 0;
  return m | (fix == 1 || fix == 4 ? 8 : 0);
}
static void start(void) {
  sid_ = vp_u16();
  ubx_sbp_init(&s, cb, &ctx);
  ubx_set_sender_id(&s, sid_);
}
static uint8_t pvt[96];
static void draw_pvt(void) {
  vp_bytes(pvt, 96);
  pvt[0] = 1;
  pvt[1] = 7;
}
static int code_of(uint32_t g, uint32_t sg) {
  switch (g << 8 | sg) {
    case 0x000: return CODE_GPS_L1CA;
    case 0x003: return CODE_GPS_L2CL;
    case 0x004: return CODE_GPS_L2CM;
    case 0x100: return CODE_SBAS_L1CA;
    case 0x200: return CODE_GAL_E1C;
    case 0x201: return CODE_GAL_E1B;
    case 0x205: return CODE_GAL_E7I;
    case 0x206: return CODE_GAL_E7Q;
    case 0x300: case 0x301: return CODE_BDS2_B1;
    case 0x302: case 0x303: return CODE_BDS2_B2;
    case 0x500: return CODE_QZS_L1CA;
    case 0x504: return CODE_QZS_L2CM;
    case 0x505: return CODE_QZS_L2CL;
    case 0x600: return CODE_GLO_L1OF;
    case 0x602: return CODE_GLO_L2OF;
    default: return CODE_INVALID;
  }
}
#ifdef T_PVT
void vp_main(void) {
  start();
  int hnr = vp_split(vp_range(0, 1));
  ubx_set_hnr_flag(&s, hnr);
  draw_pvt();
  feed(pvt, 96);
  VP_ASSERT(ctx_ok, "context and sender");
  VP_ASSERT(n == !hnr, "one position per NAV-PVT unless the high rate solution is used");
  if (n == 1) {
    sbp_msg_pos_llh_t *m = &o[0].m.pos_llh;
    VP_ASSERT(o[0].t == SbpMsgPosLlh, "type");
    VP_ASSERT(m->tow == U4(pvt, 4), "tow");
    VP_ASSERT(m->lat == 1e-7 * I4(pvt, 32), "latitude");
    VP_ASSERT(m->lon == 1e-7 * I4(pvt, 28), "longitude");
    VP_ASSERT(m->height == 1e-3 * I4(pvt, 36), "height");
    VP_ASSERT(m->h_accuracy == sat16(U4(pvt, 44)), "horizontal accuracy");
    VP_ASSERT(m->v_accuracy == sat16(U4(pvt, 48)), "vertical accuracy");
    VP_ASSERT(m->n_sats == U1(pvt, 27), "satellites");
    VP_ASSERT(m->flags == fixflags(U1(pvt, 24), U1(pvt, 25)), "flags");
    VP_REACH("position");
  }
  VP_REACH("done");
}
#elif defined(T_VEL)
void vp_main(void) {
  static uint8_t f[24];
  start();
  int hnr = vp_split(vp_range(0, 1));
  ubx_set_hnr_flag(&s, hnr);
  draw_pvt();
  feed(pvt, 96);
  n = 0;
  vp_bytes(f, 24);
  f[0] = 1;
  f[1] = 0x11;
  for (int i = 0; i < 3; i++) VP_ASSUME(I4(f, 8 + 4 * i) <= 200000000 && I4(f, 8 + 4 * i) >= -200000000);
  feed(f, 24);
  VP_ASSERT(ctx_ok && n == 1 && o[0].t == SbpMsgVelEcef, "one velocity");
  sbp_msg_vel_ecef_t *m = &o[0].m.vel_ecef;
  VP_ASSERT(m->tow == U4(f, 4), "tow");
  VP_ASSERT(m->x == I4(f, 8) * 10, "x");
  VP_ASSERT(m->y == I4(f, 12) * 10, "y");
  VP_ASSERT(m->z == I4(f, 16) * 10, "z");
  VP_ASSERT(m->accuracy == U2(f, 20) || U4(f, 20) > 65535, "accuracy");
  VP_ASSERT(m->n_sats == U1(pvt, 27), "satellites of the last fix");
  VP_ASSERT(m->flags == (U1(pvt, 24) ? 13 : 8), "flags");
  VP_REACH("done");
}
#elif defined(T_ATT)
void vp_main(void) {
  static uint8_t f[36], h[76];
  start();
  int hnr = vp_split(vp_range(0, 1));
  ubx_set_hnr_flag(&s, hnr);
  draw_pvt();
  feed(pvt, 96);
  n = 0;
  vp_bytes(f, 36);
  f[0] = 1;
  f[1] = 5;
  for (int i = 0; i < 3; i++) VP_ASSUME(I4(f, 12 + 4 * i) <= 200000000 && I4(f, 12 + 4 * i) >= -200000000);
  feed(f, 36);
  int k = 0;
  uint32_t fl = U1(pvt, 24) == 1 || U1(pvt, 24) == 4;
  sbp_msg_orient_euler_t *m;
  if (!hnr) {
    VP_ASSERT(ctx_ok && n == 1 && o[0].t == SbpMsgOrientEuler, "one attitude");
    m = &o[0].m.orient_euler;
    VP_ASSERT(m->tow == U4(f, 4), "tow");
    VP_ASSERT(m->yaw == I4(f, 20) * 10, "yaw");
    VP_ASSERT(m->yaw_accuracy == (float)(U4(f, 32) * 1e-5), "yaw accuracy");
  } else {
    VP_ASSERT(n == 0, "nothing until the next high rate solution");
    vp_bytes(h, 76);
    h[0] = 0x28;
    h[1] = 0;
    VP_ASSUME(I4(h, 52) <= 200000000 && I4(h, 52) >= -200000000);
    feed(h, 76);
    VP_ASSERT(ctx_ok && n == 2 && o[0].t == SbpMsgPosLlh && o[1].t == SbpMsgOrientEuler, "a position and an attitude");
    sbp_msg_pos_llh_t *p = &o[0].m.pos_llh;
    VP_ASSERT(p->tow == U4(h, 4), "tow");
    VP_ASSERT(p->lat == 1e-7 * I4(h, 28), "latitude");
    VP_ASSERT(p->lon == 1e-7 * I4(h, 24), "longitude");
    VP_ASSERT(p->height == 1e-3 * I4(h, 32), "height");
    VP_ASSERT(p->h_accuracy == sat16(U4(h, 56)), "horizontal accuracy");
    VP_ASSERT(p->v_accuracy == sat16(U4(h, 60)), "vertical accuracy");
    VP_ASSERT(p->n_sats == U1(pvt, 27), "satellites of the last fix");
    VP_ASSERT(p->flags == fixflags(U1(pvt, 24), U1(pvt, 25)), "flags of the last fix");
    m = &o[1].m.orient_euler;
    VP_ASSERT(m->tow == U4(h, 4), "tow");
    VP_ASSERT(m->yaw == I4(h, 52) * 10, "vehicle heading");
    VP_ASSERT(m->yaw_accuracy == (float)(U4(h, 68) * 1e-5), "heading accuracy");
    VP_REACH("high rate");
  }
  VP_ASSERT(m->roll == I4(f, 12) * 10, "roll");
  VP_ASSERT(m->pitch == I4(f, 16) * 10, "pitch");
  VP_ASSERT(m->roll_accuracy == (float)(U4(f, 24) * 1e-5), "roll accuracy");
  VP_ASSERT(m->pitch_accuracy == (float)(U4(f, 28) * 1e-5), "pitch accuracy");
  VP_ASSERT(m->flags == fl, "flags");
  VP_REACH("done");
}
#elif defined(T_SAT)
/* NS satellites; those from NFREE on are fixed */
void vp_main(void) {
  static uint8_t f[12 + 12 * NS];
  start();
  vp_bytes(f, 12);
  for (int i = 0; i < NS; i++) {
    uint8_t *b = f + 12 + 12 * i;
    b[0] = 6;
    b[1] = i;
    b[2] = 30;
    b[3] = i;
    b[4] = i;
  }
  for (int i = 0; i < NFREE; i++) {
    vp_bytes(f + 12 + 12 * (FROM + i), 12);
    VP_ASSUME(f[12 + 12 * (FROM + i) + 2] <= 63 && U2(f, 12 + 12 * (FROM + i) + 4) <= 360);
  }
  f[0] = 1;
  f[1] = 0x35;
  f[9] = NS;
  feed(f, 12 + 12 * NS);
  VP_ASSERT(ctx_ok, "context and sender");
  uint32_t ia = 0, is = 0;
  for (int k = 0; k < n && k < MAXO; k++) {
    if (o[k].t == SbpMsgSvAzEl) {
      sbp_msg_sv_az_el_t *m = &o[k].m.sv_az_el;
      VP_ASSERT(m->n_azel >= 1 && m->n_azel <= 63 && ia + m->n_azel <= NS, "chunk");
      for (uint32_t j = 0; j < m->n_azel && j < 63; j++, ia++) {
        uint8_t *b = f + 12 + 12 * ia;
        VP_ASSERT(m->azel[j].sid.sat == b[1] && m->azel[j].sid.code == (uint8_t)code_of(b[0], 0), "signal");
        VP_ASSERT(m->azel[j].az == (U2(b, 4) + 1) / 2, "azimuth");
        VP_ASSERT(m->azel[j].el == (int8_t)b[3], "elevation");
      }
    } else {
      sbp_msg_measurement_state_t *m = &o[k].m.measurement_state;
      VP_ASSERT(o[k].t == SbpMsgMeasurementState, "type");
      VP_ASSERT(m->n_states >= 1 && m->n_states <= 85 && is + m->n_states <= NS, "chunk");
      for (uint32_t j = 0; j < m->n_states && j < 85; j++, is++) {
        uint8_t *b = f + 12 + 12 * is;
        VP_ASSERT(m->states[j].mesid.sat == b[1] && m->states[j].mesid.code == (uint8_t)code_of(b[0], 0), "signal");
        VP_ASSERT(m->states[j].cn0 == b[2] * 4, "signal strength");
      }
    }
  }
  VP_ASSERT(n <= MAXO && ia == NS && is == NS, "every satellite once, in order");
  VP_REACH("done");
}
#elif defined(T_RAWX)
/* NM measurements; NFREE of them, from FROM on, are arbitrary. FLD: which part is arbitrary (keeps floating point apart): 0 integers, 1 pseudorange and phase, 2 Doppler and time */
void vp_main(void) {
  static uint8_t f[20 + 32 * NM + 1];
  start();
  vp_bytes(f + 12, 8);
  double tow = 1000.25;
#if FLD == 4
  uint32_t ms = vp_u32(), fr = vp_range(0, 15);
  VP_ASSUME(ms < 604800000);
  uint32_t last = vp_split(vp_range(0, 1));
  if (last) ms = 604799999; else VP_ASSUME(ms % 1000 == 0 && ms < 8000), ms = vp_split(ms);
  fr = vp_split(fr);
  tow = (ms + fr / 16.0) / 1000;
#endif
  putd(f + 4, tow);
  f[0] = 2;
  f[1] = 0x15;
  f[15] = NM;
  for (int i = 0; i < NM; i++) {
    uint8_t *b = f + 20 + 32 * i;
    putd(b, 22000000.0);
    putd(b + 8, 1000.5 + i);
    b[21] = i;
    b[30] = 7;
  }
  for (int i = 0; i < NFREE; i++) {
    uint8_t *b = f + 20 + 32 * (FROM + i);
#if FLD == 0
    vp_bytes(b + 20, 12);
    /* lock time: around every boundary of the SBP code */
    static const uint16_t lt[] = {0, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 64500, 65535};
    put(b + 24, i ? 500 : lt[vp_split(vp_range(0, 24))], 2);
#elif FLD == 1
    vp_bytes(b, 8);
#elif FLD == 3
    vp_bytes(b + 8, 8);
#elif FLD == 2
    vp_bytes(b + 16, 4);
#endif
  }
  feed(f, 20 + 32 * NM);
  VP_ASSERT(ctx_ok, "context and sender");
  uint32_t nm = NM > 210 ? 210 : NM, tot = nm ? (nm + 13) / 14 : 1, k = 0;
  VP_ASSERT((uint32_t)n == tot, "number of messages");
  double fms;
  double ns = 1e6 * modf(1e3 * tow, &fms);
  int32_t et = (int32_t)fms, ens = (int32_t)ns;
  uint16_t wn = U2(f, 12), ewn = wn ? wn : 65535;
  if (ens > 500000) {
    ens -= 1000000;
    et++;
    if (et == 604800000) {
      et = 0;
      if (wn) ewn++;
    }
  }
  for (uint32_t i = 0; i < tot && i < MAXO; i++) {
    sbp_msg_obs_t *m = &o[i].m.obs;
    VP_ASSERT(o[i].t == SbpMsgObs, "type");
    VP_ASSERT(m->header.n_obs == (tot << 4 | i), "message count and index");
    VP_ASSERT(m->header.t.tow == (uint32_t)et && m->header.t.ns_residual == ens && m->header.t.wn == ewn, "time");
    VP_ASSERT(m->n_obs == (nm - k > 14 ? 14 : nm - k), "measurements in the message");
    for (uint32_t j = 0; j < m->n_obs && j < 14; j++, k++) {
      uint8_t *b = f + 20 + 32 * k;
      sbp_packed_obs_content_t *p = &m->obs[j];
      VP_ASSERT(p->sid.sat == b[21] && p->sid.code == (uint8_t)code_of(b[20], b[22]), "signal");
      VP_ASSERT(p->cn0 == (b[26] > 63 ? 255 : 4 * b[26]), "signal strength");
      uint32_t lk = U2(b, 24), e = 0;
      while (e < 15 && lk >= 32u << e) e++;
      VP_ASSERT(p->lock == e, "lock time");
      uint64_t vp_, vl;
      double P, L;
      float D;
      vp_ = le(b, 8);
      vl = le(b + 8, 8);
      uint32_t vd = le(b + 16, 4);
      memcpy(&P, &vp_, 8);
      memcpy(&L, &vl, 8);
      memcpy(&D, &vd, 4);
      uint32_t fl = 8 | (b[30] & 7);
      double p50 = 50 * P;
      if (!(p50 >= 0 && p50 <= 4294967295.0)) {
        fl &= ~1u;
      } else
        VP_ASSERT(p->P == (uint32_t)p50, "pseudorange");
      double fl_ = floor(L), fd = floor(D);
      int okl = fl_ >= -2147483648.0 && fl_ <= 2147483646.0, okd = fd >= -32768 && fd <= 32766;
      if (okl) {
        double r = round((L - fl_) * 256);
        VP_ASSERT(r > 255 ? p->L.f == 0 && p->L.i == (int32_t)fl_ + 1 : p->L.f == r && p->L.i == (int32_t)fl_, "carrier phase");
      }
      if (okd) {
        double r = round((D - fd) * 256);
        VP_ASSERT(r > 255 ? p->D.f == 0 && p->D.i == (int32_t)fd + 1 : p->D.f == r && p->D.i == (int32_t)fd, "Doppler");
      }
      if (fl_ == 2147483647.0) okl = (p->flags & 6) == (fl & 6);
      if (fd == 32767.0) okd = !!(p->flags & 8);
      if (fl_ == 2147483647.0 && okl && (fl & 2)) VP_ASSERT(p->L.i == 2147483647 && p->L.f == round((L - fl_) * 256), "largest carrier phase");
      if (fd == 32767.0 && okd) VP_ASSERT(p->D.i == 32767 && p->D.f == round((D - fd) * 256), "largest Doppler");
      if (!okl) fl &= ~6u;
      if (!okd) fl &= ~8u;
      VP_ASSERT(p->flags == fl, "flags: a value that does not fit is not valid");
    }
  }
  VP_ASSERT(k == nm, "every measurement once, in order");
  VP_REACH("done");
}
#elif defined(T_IMU) || defined(T_IMUSEQ) || defined(T_IMUBAD) || defined(T_IMUAUX) || defined(T_TEMP)
static const uint8_t axis[6] = {14, 13, 5, 16, 17, 18};
static uint8_t r[8 + 8 * 14];
static uint32_t ni;
static void item(uint32_t type, uint32_t v, uint32_t tag) {
  put(r + 8 + 8 * ni, (v & 0xFFFFFF) | type << 24, 4);
  put(r + 12 + 8 * ni, tag, 4);
  ni++;
}
static void send(uint32_t msss) {
  r[0] = 0x10;
  r[1] = 3;
  put(r + 2, 4 + 8 * ni, 2);
  put(r + 4, msss, 4);
  feed(r, 8 + 8 * ni);
  ni = 0;
}
static int32_t s24(uint32_t v) {
  int32_t x = v & 0xFFFFFF;
  if (x > 8388607) x -= 1 << 24;
  return x;
}
static int16_t scaled(uint32_t v, int gyro) {
  const float k = gyro ? 1.0f / 4096 : 1.0f / 1024, u = gyro ? (float)(125.0 / 32768.0) : (float)(4.0 * 9.80665 / 32768.0);
  float x = k * s24(v) / u;
  return x < -32768 ? -32768 : x > 32767 ? 32767 : (int16_t)lroundf(x);
}
/* ms: time of the first sample since start-up, dt: sensor ticks since the first sample of the frame */
static int time_ok(const sbp_msg_imu_raw_t *m, int64_t ms, uint32_t dt) {
  int64_t week = 604800000LL * 256, e = ((ms - 50) * 256 + 10 * (int64_t)dt) % week;
  if (e < 0) e += week;
  int64_t d = (int64_t)(m->tow & 0x3FFFFFFF) * 256 + m->tow_f - e;
  return m->tow >> 30 == 1 && (d == 0 || d == -1 || d == 1 || d == week - 1 || d == 1 - week);
}
static void six(uint32_t tag0) {
  for (int i = 0; i < 6; i++) item(axis[i], 4096 * i, tag0 + i);
}
#if defined(T_IMU)
void vp_main(void) {
  start();
#if DATA
  uint32_t rot = 2, tp = 7, v[6], tv = vp_u32(), tag0 = 1000, msss = 1000, one = vp_split(vp_range(0, 5));
#else
  static const uint32_t ms[] = {0, 49, 50, 51, 1000, 604800049, 604800050, 1209600000, 4294967295u};
  uint32_t rot = 2 * vp_split(vp_range(0, 2)), tp = vp_split(vp_range(0, 7)), v[6], tv = 1000, tag0 = vp_split(vp_range(0, 1)) ? 0xFFFFF0 : 1000, msss = ms[vp_split(vp_range(0, 8))], one = 6;
#endif
  uint32_t step = 400, i = 0, last = 0;
  uint32_t sg = vp_split(vp_range(0, DATA));
  for (uint32_t k = 0; k < 6; k++) v[k] = k == one ? (vp_u32() & 0x7FFFFF) | sg << 23 : 77777 * (k + 1);
  for (uint32_t k = 0; k < 7; k++) {
    uint32_t tag = (tag0 + step * k) & 0xFFFFFF;
    if (k == tp)
      item(12, tv, tag);
    else if (i < 6) {
      item(axis[(i + rot) % 6], v[(i + rot) % 6], tag);
      last = step * k;
      i++;
    }
  }
  if (i < 6) return;
  send(msss);
  VP_ASSERT(ctx_ok && n == 2 && o[0].t == SbpMsgImuAux && o[1].t == SbpMsgImuRaw, "the settings, then one sample of the six axes");
  sbp_msg_imu_aux_t *a = &o[0].m.imu_aux;
  VP_ASSERT(a->imu_type == 0 && a->imu_conf == 0x41, "type and ranges");
  if (tp > 6) VP_ASSERT(a->temp == -32768, "no temperature yet");
  sbp_msg_imu_raw_t *m = &o[1].m.imu_raw;
  VP_ASSERT(m->gyr_x == scaled(v[0], 1) && m->gyr_y == scaled(v[1], 1) && m->gyr_z == scaled(v[2], 1), "angular rates");
  VP_ASSERT(m->acc_x == scaled(v[3], 0) && m->acc_y == scaled(v[4], 0) && m->acc_z == scaled(v[5], 0), "accelerations");
  VP_ASSERT(time_ok(m, msss, last), "time since start-up");
  VP_REACH("done");
}
#elif defined(T_TEMP)
void vp_main(void) {
  start();
  uint32_t tv = vp_u32();
  item(12, tv, 0);
  six(0);
  send(1000);
  VP_ASSERT(n == 2 && o[0].t == SbpMsgImuAux, "settings");
  double t = 0.01 * s24(tv);
  int16_t e = t >= 87.0 - 1.0 / 512 ? 32767 : t <= -41.0 + 1.0 / 512 ? -32767 : (int16_t)((t - 23.0) * 512.0);
  VP_ASSERT(o[0].m.imu_aux.temp == e, "temperature in 1/512 degree above 23, saturated");
  VP_REACH("done");
}
#elif defined(T_IMUSEQ)
void vp_main(void) {
  start();
  static const uint32_t ms[] = {0, 1000, 604799990, 4294967290u};
  static const uint32_t dl[] = {0, 10, 1000, 1001, 5000, 0xFFFFFFFBu};
  uint32_t m0 = ms[vp_split(vp_range(0, 3))], d1 = dl[vp_split(vp_range(0, 5))], d2 = dl[vp_split(vp_range(0, 5))];
  int64_t run = m0;
  six(0);
  send(m0);
  VP_ASSERT(n == 2 && time_ok(&o[1].m.imu_raw, m0, 5), "first frame");
  n = 0;
  six(0x00FFFFFE);
  send(m0 + d1);
  if (d1 > 1000) {
    VP_ASSERT(n == 0, "the frame after a gap is dropped");
    run = -1;
  } else {
    run += d1;
    VP_ASSERT(n == 1 && time_ok(&o[0].m.imu_raw, run, 5), "time runs on");
  }
  n = 0;
  six(0);
  send(m0 + d1 + d2);
  if (run < 0) {
    VP_ASSERT(n == 1 && time_ok(&o[0].m.imu_raw, (uint32_t)(m0 + d1 + d2), 5), "time restarts after a gap");
    VP_REACH("restart");
  } else if (d2 > 1000)
    VP_ASSERT(n == 0, "the frame after a gap is dropped");
  else {
    VP_ASSERT(n == 1 && time_ok(&o[0].m.imu_raw, run + d2, 5), "time runs on");
    VP_REACH("run");
  }
}
#elif defined(T_IMUBAD)
/* one of twelve samples replaced by another */
void vp_main(void) {
  start();
  uint32_t pos = vp_split(vp_range(0, 11)), by = vp_split(vp_range(0, 6)), x = 123456, t = by < 6 ? axis[by] : 11;
  for (uint32_t i = 0; i < 12; i++) item(i == pos ? t : axis[i % 6], i == pos ? x : 4096 * i, i);
  send(1000);
  int same = t == axis[pos % 6];
  /* the sample before the replaced one is complete; a missing axis never completes */
  int e = same ? 2 : pos >= 6 || (pos == 0 && by == 6) ? 1 : 0; /* without its first axis the first sample takes that of the second */
  VP_ASSERT(n == e + (e > 0), "samples sent");
  for (int k = 1; k <= e; k++) VP_ASSERT(o[k].t == SbpMsgImuRaw && o[k].m.imu_raw.gyr_y == (pos == 6u * (k - 1) + 1 && same ? scaled(x, 1) : scaled(4096 * (6 * (k - 1) + 1), 1)), "values of one sample");
  VP_REACH("done");
}
#else
void vp_main(void) {
  start();
  for (uint32_t k = 0; k < 43; k++) {
    six(0);
    send(1000 + 10 * k);
    VP_ASSERT(ctx_ok && n == (k % 20 == 0 ? 2 : 1) && o[n - 1].t == SbpMsgImuRaw, "settings with every twentieth sample");
    if (n == 2) VP_ASSERT(o[0].t == SbpMsgImuAux, "settings");
    n = 0;
  }
  VP_REACH("done");
}
#endif
#elif defined(T_WHEEL)
static uint8_t r[12 + 4 * 3 + 4];
static uint32_t cal;
static void meas(uint32_t flags, uint32_t ni, uint32_t a, uint32_t b, uint32_t tag) {
  r[0] = 0x10;
  r[1] = 2;
  put(r + 2, 8 + 4 * ni + (flags & 8 ? 4 : 0), 2);
  put(r + 4, vp_u32(), 4);
  put(r + 8, (flags & 0x7FF) | ni << 11, 2);
  put(r + 10, vp_u16(), 2);
  put(r + 12, a, 4);
  if (ni > 1) put(r + 16, b, 4);
  if (flags & 8) put(r + 12 + 4 * ni, tag, 4);
  feed(r, 12 + 4 * ni + (flags & 8 ? 4 : 0));
}
static const uint8_t src[] = {2, 3, 1, 0, 0};
void vp_main(void) {
  start();
  uint32_t ty = vp_split(vp_range(5, 12)), junk = vp_u32(), t0, t1, d, rev = vp_split(vp_range(0, 1)), v = vp_u32() & 0x3FFFFF, inc = vp_u32() & 0x3FFFFF, fl = vp_u16();
  static const uint32_t ms[] = {0, 7, 604799999, 604800000, 4294960000u};
  static const uint32_t dl[] = {0, 10, 1000, 1001, 5000};
  t0 = ms[vp_split(vp_range(0, 4))];
  d = dl[vp_split(vp_range(0, 4))];
  t1 = t0 + d;
  fl = vp_split(fl & 8) | (fl & 0x7F7 & ~8u);
  VP_ASSUME(v + inc < 0x400000);
  uint32_t top = junk & 0xC0000000u;
  meas(fl, 1, top | ty << 24 | v, 0, t0);
  int odo = ty >= 6 && ty <= 11 && (fl & 8);
  VP_ASSERT(ctx_ok && n == odo, "one message for a wheel or speed measurement with a calibrated time");
  int64_t us = (int64_t)(t0 % 604800000u) * 1000;
  if (odo && ty < 11) {
    sbp_msg_wheeltick_t *m = &o[0].m.wheeltick;
    int64_t e = (int64_t)m->time - us;
    VP_ASSERT(o[0].t == SbpMsgWheeltick && m->flags == 2 && m->source == src[ty - 6], "wheel");
    VP_ASSERT(m->ticks == (int32_t)v, "ticks");
    VP_ASSERT(e >= -1 && e <= 1, "time");
    VP_REACH("wheel");
  }
  n = 0;
  meas(fl | 8, 1, top | ty << 24 | (v + inc) | rev << 23, 0, t1);
  odo = ty >= 6 && ty <= 11;
  if (odo && (fl & 8) && d > 1000) {
    VP_ASSERT(n == 0, "the message after a gap is dropped");
    return;
  }
  VP_ASSERT(ctx_ok && n == odo, "second message");
  us = (int64_t)(t1 % 604800000u) * 1000;
  if (odo && ty < 11) {
    sbp_msg_wheeltick_t *m = &o[0].m.wheeltick;
    int64_t e = (int64_t)m->time - us;
    VP_ASSERT(o[0].t == SbpMsgWheeltick && m->flags == 2 && m->source == src[ty - 6], "wheel");
    VP_ASSERT(m->ticks == (fl & 8 ? (rev ? (int32_t)(v - inc) : (int32_t)(v + inc)) : (int32_t)(v + inc)), "ticks go up forwards and down backwards");
    VP_ASSERT(e >= -1 && e <= 1, "time");
    VP_REACH("wheel 2");
  } else if (odo) {
    sbp_msg_odometry_t *m = &o[0].m.odometry;
    int64_t e = (int64_t)m->tow - us / 1000;
    VP_ASSERT(o[0].t == SbpMsgOdometry, "speed");
    VP_ASSERT(m->velocity == (int32_t)((v + inc) | (rev ? 0xFF800000u : 0)), "signed velocity");
    VP_ASSERT(m->flags == (2 | 3 << 3 | rev << 5), "flags");
    VP_ASSERT(e >= -1 && e <= 0, "time");
    VP_REACH("speed");
  }
}
#elif defined(T_STATUS)
static uint8_t g[20], r[20 + 32], st[20];
static void status(uint32_t itow, uint32_t msss, uint32_t fix, uint32_t fl) {
  st[0] = 1;
  st[1] = 3;
  put(st + 4, itow, 4);
  st[8] = fix;
  st[9] = fl;
  put(st + 16, msss, 4);
  feed(st, 20);
}
void vp_main(void) {
  static uint8_t im[16];
  start();
  static const uint32_t tows[] = {0, 302400001, 604799999};
  static const uint32_t ms[] = {60, 302400061, 604799999, 604800060, 4294967000u};
  uint32_t wn = vp_range(1, 4000), have = vp_split(vp_range(0, 3)), e = have == 3, ot = tows[e ? vp_split(vp_range(0, 2)) : 0], it = tows[e ? vp_split(vp_range(0, 2)) : 0], m0 = ms[e ? vp_split(vp_range(0, 4)) : 0], dm = e ? vp_split(vp_range(0, 3)) : 0;
  uint32_t fl = vp_u8(), fix = vp_u8();
  status(0, 0, 0, 0x0C); /* week number known from here on */
  if (have & 1) {
    r[0] = 2;
    r[1] = 0x15;
    putd(r + 4, ot / 1000.0);
    put(r + 12, wn, 2);
    r[15] = 1;
    feed(r, 52);
  }
  if (have & 2) {
    im[0] = 0x10;
    im[1] = 3;
    put(im + 2, 12, 2);
    put(im + 4, m0, 4);
    put(im + 8, 16u << 24, 4);
    feed(im, 16);
  }
  n = 0;
  uint32_t m1 = dm == 0 ? m0 : dm == 1 ? m0 + 30 : dm == 2 ? m0 - 60 : m0 + 200;
  status(it, m1, fix, fl);
  int ok = have == 3 && (fl & 0xD) == 0xD && (fix == 3 || fix == 4);
  VP_ASSERT(ctx_ok && n == ok, "an offset when the fix and time are good and both clocks have been seen");
  if (n) {
    sbp_msg_gnss_time_offset_t *m = &o[0].m.gnss_time_offset;
    VP_ASSERT(o[0].t == SbpMsgGnssTimeOffset && m->flags == 0 && m->microseconds == 0, "type");
    /* weeks of the two clocks: those closest to what was last seen */
    int64_t W = 604800000, gw = wn, dg = (int64_t)it - ot, li = ((int64_t)m0 - 50) % W, l1 = m1 % W;
    if (dg > W / 2) gw--;
    if (dg < -W / 2) gw++;
    int64_t lw = ((int64_t)m0 - 50) / W;
    if (l1 - li > W / 2) lw--;
    if (l1 - li < -W / 2) lw++;
    int dw = m->weeks - (int)(gw - lw);
    VP_ASSERT(m->milliseconds + (dw == 0 ? 0 : dw == 1 ? W : dw == -1 ? -W : 5 * W) == it - l1, "GNSS time minus local time");
    VP_REACH("offset");
  }
  VP_REACH("done");
}
#endif
