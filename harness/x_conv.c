/* IXCOM to SBP conversion through ixcom_handle_frame. M: 0 IMU, 1 wheel, 2 counting */
#include "vp.h"
#include <math.h>
#include <string.h>
#include <gnss-converters/ixcom_sbp.h>
#include <ixcom/decode.h>
static struct ixcom_sbp_state s;
static int n, ctx, ctx_ok = 1;
static uint16_t sid_;
static struct { sbp_msg_type_t t; sbp_msg_t m; } o[4];
static void cb(uint16_t id, sbp_msg_type_t t, const sbp_msg_t *m, void *c) {
  ctx_ok &= c == &ctx && id == sid_;
  if (n < 4) {
    o[n].t = t;
    o[n].m = *m;
  }
  n++;
}
static void p4(uint8_t *p, uint32_t v) { p[0] = v, p[1] = v >> 8, p[2] = v >> 16, p[3] = v >> 24; }
static void pf(uint8_t *p, float v) { uint32_t b; memcpy(&b, &v, 4); p4(p, b); }
static uint32_t sec, us;
static void feed(uint32_t id, uint32_t len) {
  uint8_t *p = s.read_buffer;
  p[0] = 0x7E, p[1] = id, p[2] = 1, p[3] = 0, p[4] = len, p[5] = 0, p[6] = 0x34, p[7] = 8;
  p4(p + 8, sec);
  p4(p + 12, us);
  p[len - 4] = 0, p[len - 3] = 0;
  uint16_t c = ixcom_checksum(p, len - 2);
  p[len - 2] = c, p[len - 1] = c >> 8;
  s.index = len;
  ixcom_handle_frame(&s);
  VP_ASSERT(s.index == 0, "the frame is consumed");
}
static void aux(int i) {
  VP_ASSERT(o[i].t == SbpMsgImuAux && o[i].m.imu_aux.temp == 0 && o[i].m.imu_aux.imu_conf == 0x41 && o[i].m.imu_aux.imu_type == 255, "declared ranges: 4 g and 125 degrees per second");
}
void vp_main(void) {
  sid_ = vp_u16();
  ixcom_sbp_init(&s, cb, &ctx);
  ixcom_set_sender_id(&s, sid_);
  sec = vp_range(0, 604799);
  us = vp_range(0, 999999);
#if M == 2
  sec = 604799, us = 999999;
#endif
#if M == 0
  uint32_t at = AX;
  /* a value on a grid, and the ideal in hundredths of the unit sent */
  float v[6] = {9.80665f, -4.9f, 0.f, 0.01f, -0.02f, 1.0f};
  static const float V[] = {0.f, 0.0005f, 0.00061f, -0.0025f, 1.f, 9.80665f, -9.80665f, 39.2f, 39.22f, 39.2266f, 39.23f, -39.226f, -39.23f, 100.f, 1e9f, -1e30f, 0.001f, 2.18f, 2.1815f, 2.182f, -2.1816f, -2.19f, 3e-5f, -1e-4f};
  v[at] = V[vp_split(vp_range(0, 23))];
  for (int i = 0; i < 6; i++) pf(s.read_buffer + 16 + 4 * i, v[i]);
  feed(0, 44);
  VP_ASSERT(n == 2 && o[0].t == SbpMsgImuRaw, "one sample, with the first the ranges");
  sbp_msg_imu_raw_t *m = &o[0].m.imu_raw;
  VP_ASSERT((m->tow == sec * 1000 + us / 1000) & (m->tow_f == us % 1000 * 256 / 1000), "time in ms and 256ths of it");
  int16_t g[6] = {m->acc_x, m->acc_y, m->acc_z, m->gyr_x, m->gyr_y, m->gyr_z};
  for (int i = 0; i < 6; i++) {
    double u = i < 3 ? (double)v[i] / (4.0 * 9.80665 / 32768.0) : (double)v[i] * (180.0 / M_PI) / (125.0 / 32768.0);
    if (u > 32767) u = 32767;
    if (u < -32768) u = -32768;
    VP_ASSERT(fabs(g[i] - u) <= 0.51, "acceleration and rate in units of the declared ranges, rounded and saturated");
  }
  aux(1);
#elif M == 1
  int32_t q = vp_range(-16000, 16000);
  pf(s.read_buffer + 16, (float)q / 128.0f);
  uint32_t tk = vp_u32();
  p4(s.read_buffer + 20, tk);
  feed(0x16, 28);
  VP_ASSERT(n == 2 && o[0].t == SbpMsgOdometry && o[1].t == SbpMsgWheeltick, "odometry and wheel ticks");
  VP_ASSERT((o[0].m.odometry.tow == sec * 1000 + us / 1000) & (o[0].m.odometry.flags == 1), "time of the speed");
  int64_t d = (int64_t)o[0].m.odometry.velocity * 128 - (int64_t)q * 1000;
  VP_ASSERT((d < 128 + 64) & (d > -128 - 64), "speed in mm/s");
  VP_ASSERT((o[1].m.wheeltick.time == (uint64_t)sec * 1000000 + us) & (o[1].m.wheeltick.flags == 1) & (o[1].m.wheeltick.source == 0) & ((uint32_t)o[1].m.wheeltick.ticks == tk), "ticks and their time in us");
#else
  uint32_t mixed = vp_split(vp_range(0, 1));
  int total = 0;
  for (int i = 0; i < 302; i++) {
    n = 0;
    feed(0, 44);
    int want = i % 100 == 0;
    VP_ASSERT(n == 1 + want && o[0].t == SbpMsgImuRaw, "one sample per message");
    if (want) aux(1);
    if (mixed && i % 3 == 0) {
      n = 0;
      feed(0x16, 28);
      VP_ASSERT(n == 2, "wheel messages do not count");
    }
    total++;
  }
#endif
  VP_ASSERT(ctx_ok, "sender and context");
  VP_REACH("end");
}
