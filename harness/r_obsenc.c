/* Encoding of the legacy observation messages. MSG selects the message; N satellites offered. */
#include "rspec.h"
#include <math.h>
#include <stdlib.h>
#include <rtcm3/encode.h>
#include <rtcm3/constants.h>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define ENCODE CAT(rtcm3_encode_, MSG)
#define GLO (MSG >= 1010)
#define EXT (MSG == 1002 || MSG == 1004 || GLO)
#define DUAL (MSG == 1003 || MSG == 1004 || MSG == 1012)
#define HDR (GLO ? 61 : 64)
#define SAT (6 + 1 + (GLO ? 5 : 0) + (GLO ? 25 : 24) + 20 + 7 + (EXT ? (GLO ? 7 : 8) + 8 : 0) + (DUAL ? 2 + 14 + 20 + 7 + (EXT ? 8 : 0) : 0))
#define UNIT (GLO ? 599584.916 : 299792.458)
static rtcm_obs_message m;
static uint32_t lock_ind(double s) {
  return s < 24 ? (uint32_t)s : s < 72 ? (uint32_t)((s + 24) / 2) : s < 168 ? (uint32_t)((s + 120) / 4) : s < 360 ? (uint32_t)((s + 408) / 8)
       : s < 744 ? (uint32_t)((s + 1176) / 16) : s < 937 ? (uint32_t)((s + 3096) / 32) : 127;
}
/* phaserange minus pseudorange in units of 0.5 mm, moved by multiples of 1500 cycles into the open range of 20 bits */
static int64_t ppr(double c, double f) {
  double u = (299792458.0 / f) / 0.0005, lim = 524287;
  int64_t p = lround(c * u);
  if (p <= -524288) { c += 1500 * ceil((-lim / u - c) / 1500); p = lround(c * u); }
  else if (p >= 524288) { c -= 1500 * ceil((c - lim / u) / 1500); p = lround(c * u); }
  return p;
}
static void freq(rtcm_freq_data *o, int64_t maxpr) {
  uint64_t k = vp_u64();
  VP_ASSUME(k <= (uint64_t)maxpr);
  o->pseudorange = (double)k / 1024;
  int64_t c = (int64_t)vp_u64();
  VP_ASSUME(c >= -(1ll << 43) && c <= 1ll << 43);
  o->carrier_phase = (double)c / 256;
  o->lock = (double)vp_u32() / 64;
  o->cnr = (double)vp_u8() / 4;
  o->flags.data = vp_u8() & 0x1f;
}
void vp_main(void) {
  static uint8_t buf[(64 + N * 130) / 8 + 9];
  vp_bytes(buf, sizeof(buf)); /* the encoder does not rely on a cleared buffer */
  m.header.msg_num = MSG;
  m.header.stn_id = vp_u16() & 4095;
  m.header.tow_ms = vp_u32();
  VP_ASSUME(m.header.tow_ms < (GLO ? 86401000u : 604800000u));
  m.header.sync = vp_u8() & 1;
  m.header.div_free = vp_u8() & 1;
  m.header.smooth = vp_u8() & 7;
  m.header.n_sat = N;
  uint32_t used = 0;
  int use[N];
  for (uint32_t i = 0; i < N; i++) {
    rtcm_sat_data *d = &m.sats[i];
    d->svId = vp_u8() & 63;
    d->fcn = vp_u8();
    VP_ASSUME(d->fcn < 21);
    freq(&d->obs[0], (int64_t)((GLO ? 128 : 256) * UNIT * 1024) - 20480);
    freq(&d->obs[1], (int64_t)((GLO ? 128 : 256) * UNIT * 1024) - 20480);
    use[i] = d->obs[0].flags.fields.valid_pr & d->obs[0].flags.fields.valid_cp & (MSG != 1003 || (d->obs[1].flags.fields.valid_pr & d->obs[1].flags.fields.valid_cp));
    use[i] = (int)vp_split((uint32_t)use[i]);
    used += use[i];
  }
  uint32_t len = ENCODE(&m, buf);
  VP_ASSERT(len == (HDR + used * SAT + 7) / 8, "message length");
  rs_start(buf);
  EQ(rs_u(12), MSG, "message number");
  EQ(rs_u(12), m.header.stn_id, "station id");
  EQ(rs_u(GLO ? 27 : 30), m.header.tow_ms, "time");
  EQ(rs_u(1), m.header.sync, "synchronous flag");
  EQ(rs_u(5), used, "number of satellites");
  EQ(rs_u(1), m.header.div_free, "divergence-free flag");
  EQ(rs_u(3), m.header.smooth, "smoothing interval");
  for (uint32_t i = 0; i < N; i++) {
    if (!use[i]) continue;
    const rtcm_sat_data *d = &m.sats[i];
    const rtcm_freq_data *o = &d->obs[0];
    double f1 = 1.57542e9, f2 = 1.22760e9;
    EQ(rs_u(6), d->svId, "satellite id");
    EQ(rs_u(1), 0, "L1 code");
    if (GLO) {
      EQ(rs_u(5), d->fcn, "frequency channel");
      f1 = 1.602e9 + (d->fcn - 7) * 5.625e5;
      f2 = 1.246e9 + (d->fcn - 7) * 4.375e5;
    }
    uint8_t amb = (uint8_t)(o->pseudorange / UNIT);
    uint32_t pr1 = (uint32_t)round((o->pseudorange - amb * UNIT) / 0.02);
    VP_ASSUME((pr1 < (GLO ? 1u << 25 : 1u << 24)) & (!GLO | (amb < 128))); /* true for every input, not decided here */
    EQ(rs_u(GLO ? 25 : 24), pr1, "L1 pseudorange");
    double p1 = pr1 * 0.02 + amb * UNIT;
    EQ(rs_u(20), (uint64_t)ppr(o->carrier_phase - p1 / (299792458.0 / f1), f1) & 0xfffff, "L1 phase");
    EQ(rs_u(7), o->flags.fields.valid_lock ? lock_ind(o->lock) : 0, "L1 lock");
    if (EXT) {
      EQ(rs_u(GLO ? 7 : 8), amb, "ambiguity");
      EQ(rs_u(8), (uint8_t)round(o->cnr * 4.0), "L1 signal strength");
    }
    if (!DUAL) continue;
    o = &d->obs[1];
    EQ(rs_u(2), 0, "L2 code");
    int64_t dp = (int64_t)round((o->pseudorange - amb * UNIT) / 0.02) - (int64_t)pr1;
    int64_t got = rs_s(14);
    int fits = (dp > -8192) & (dp < 8192) & o->flags.fields.valid_pr;
    VP_ASSERT(!fits | (got == dp), "L2 pseudorange");
    VP_ASSERT(fits | (got == -8192), "L2 pseudorange out of range or invalid");
    uint64_t gp = rs_u(20), wp = (uint64_t)ppr(o->carrier_phase - p1 / (299792458.0 / f2), f2) & 0xfffff;
    VP_ASSERT(gp == (o->flags.fields.valid_cp ? wp : 0x80000), "L2 phase");
    EQ(rs_u(7), o->flags.fields.valid_lock ? lock_ind(o->lock) : 0, "L2 lock");
    if (EXT) EQ(rs_u(8), (uint8_t)round(o->cnr * 4.0), "L2 signal strength");
  }
  VP_REACH("encoded");
}
