/* Legacy observation messages 1001-1004, 1010, 1012. MSG selects the message; N the satellites; modes: decode, CUT, ANYNUM. */
#include "rspec.h"
#include <stdlib.h>
#include <rtcm3/decode.h>
#include <rtcm3/constants.h>
#define CAT2(a, b, c) a##b##c
#define CAT(a, b, c) CAT2(a, b, c)
#define DECODE CAT(rtcm3_decode_, MSG, _bitstream)
#define GLO (MSG >= 1010)
#define EXT (MSG == 1002 || MSG == 1004 || GLO)
#define DUAL (MSG == 1003 || MSG == 1004 || MSG == 1012)
#define HDR (GLO ? 61 : 64)
#define SAT (6 + 1 + (GLO ? 5 : 0) + (GLO ? 25 : 24) + 20 + 7 + (EXT ? (GLO ? 7 : 8) + 8 : 0) + (DUAL ? 2 + 14 + 20 + 7 + (EXT ? 8 : 0) : 0))
#ifndef LO
#define LO 0
#define HI 31
#endif
static rtcm_obs_message m;
/* RTCM 10403.3 table 3.4-2: six segments of 24 indicators with doubling steps, then a saturated last value */
static double lock_s(uint32_t i) {
  uint32_t seg = i / 24, start = 24 * ((1u << seg) - 1);
  uint32_t v = start + ((i - 24 * seg) << seg);
  return i == 127 ? 937 : v;
}
void vp_main(void) {
  uint8_t spec[(64 + 31 * 130) / 8 + 8];
  vp_bytes(spec, sizeof(spec));
#ifdef ANYNUM
  uint32_t num = (uint32_t)spec[0] << 4 | spec[1] >> 4;
  VP_ASSUME(num != MSG);
  rs_put(spec, HDR - 9, 5, 1);
  uint32_t n = 1;
#else
  rs_put(spec, 0, 12, MSG);
  uint32_t n = LO + vp_u8();
  VP_ASSUME(n >= LO && n <= HI);
  n = vp_split(n);
  rs_put(spec, HDR - 9, 5, n);
#endif
  uint32_t len = (HDR + n * SAT + 7) / 8;
#ifdef CUT
  uint32_t cut = vp_u16();
  VP_ASSUME(cut >= 1 && cut <= len);
  len -= vp_split(cut);
#endif
#ifdef LOCKFREE
  /* every lock indicator of the first satellite; the others from the first segment */
  for (uint32_t i = 1; i < n; i++) rs_put(spec, HDR + i * SAT + 6 + 1 + (GLO ? 30 : 24) + 20, 2, 0);
#endif
  uint8_t *b = malloc(len ? len : 1);
  for (uint32_t i = 0; i < len; i++) b[i] = spec[i];
  swiftnav_bitstream_t s;
  swiftnav_bitstream_init(&s, b, len * 8);
  rtcm3_rc rc = DECODE(&s, &m);
#ifdef ANYNUM
  VP_ASSERT(rc == RC_MESSAGE_TYPE_MISMATCH, "a different message number is a type mismatch");
  VP_REACH("other number");
#else
  rs_start(spec);
  rs_pos = 24;
  uint32_t tow = (uint32_t)rs_u(GLO ? 27 : 30);
  if (tow >= (GLO ? 86400000u : 604800000u)) { VP_ASSERT(rc == RC_INVALID_MESSAGE, "impossible time refused"); return; }
#ifdef CUT
  VP_ASSERT(rc == RC_INVALID_MESSAGE, "a truncated message is rejected");
  VP_REACH("cut");
#else
  rs_pos = 12;
  VP_ASSERT(rc == RC_OK, "complete message accepted");
  EQ(m.header.msg_num, MSG, "message number");
  EQ(m.header.stn_id, rs_u(12), "station id");
  EQ(m.header.tow_ms, rs_u(GLO ? 27 : 30), "time");
  EQ(m.header.sync, rs_u(1), "synchronous flag");
  EQ(m.header.n_sat, rs_u(5), "number of satellites");
  EQ(m.header.div_free, rs_u(1), "divergence-free flag");
  EQ(m.header.smooth, rs_u(3), "smoothing interval");
  for (uint32_t i = 0; i < n; i++) {
    rtcm_sat_data *d = &m.sats[i];
    rtcm_freq_data *o = &d->obs[L1_FREQ];
    double f1 = 1.57542e9, f2 = 1.22760e9;
    EQ(d->svId, rs_u(6), "satellite id");
    EQ(o->code, rs_u(1), "L1 code");
    int fcnok = 1;
    if (GLO) {
      uint32_t fcn = (uint32_t)rs_u(5);
      EQ(d->fcn, fcn, "frequency channel");
      fcnok = fcn <= 20;
      f1 = 1.602e9 + (int8_t)(fcn - 7) * 5.625e5;
      f2 = 1.246e9 + (int8_t)(fcn - 7) * 4.375e5;
    }
    int32_t pr = (int32_t)rs_u(GLO ? 25 : 24);
    int32_t ppr = (int32_t)rs_s(20);
    uint32_t lock = (uint32_t)rs_u(7);
    uint32_t amb = 0, cnr = 0;
    if (EXT) { amb = (uint32_t)rs_u(GLO ? 7 : 8); cnr = (uint32_t)rs_u(8); }
    int prok = pr != 0x80000, cpok = (ppr != -524288) & fcnok;
    VP_ASSERT(o->flags.fields.valid_pr == prok, "L1 pseudorange validity");
    double p1 = 0.02 * pr + amb * (GLO ? 599584.916 : 299792.458);
    VP_ASSERT(!prok | (o->pseudorange == p1), "L1 pseudorange");
    VP_ASSERT(!prok | (o->flags.fields.valid_cp == cpok), "L1 phase validity");
    VP_ASSERT(!(prok & cpok) | (o->carrier_phase == (p1 + 0.0005 * ppr) / (299792458.0 / f1)), "L1 phase");
    VP_ASSERT(cpok | !o->flags.fields.valid_cp, "L1 phase marked invalid");
    VP_ASSERT(o->flags.fields.valid_lock == o->flags.fields.valid_cp, "lock time valid with the phase");
    EQ(o->lock, lock_s(lock), "L1 lock time");
    VP_ASSERT(o->flags.fields.valid_cnr == (cnr != 0), "L1 signal strength validity");
    VP_ASSERT(!cnr | (o->cnr == 0.25 * cnr), "L1 signal strength");
    VP_ASSERT(!o->flags.fields.valid_dop, "no Doppler");
    o = &d->obs[L2_FREQ];
    if (!DUAL) { VP_ASSERT(o->flags.data == 0, "no L2 data"); continue; }
    EQ(o->code, rs_u(2), "L2 code");
    int32_t pd = (int32_t)rs_s(14), ppr2 = (int32_t)rs_s(20);
    uint32_t lock2 = (uint32_t)rs_u(7), cnr2 = EXT ? (uint32_t)rs_u(8) : 0;
    int pr2ok = pd != -8192, cp2ok = ppr2 != -524288;
    VP_ASSERT(pr2ok | !o->flags.fields.valid_pr, "L2 pseudorange marked invalid");
    VP_ASSERT(cp2ok | !o->flags.fields.valid_cp, "L2 phase marked invalid");
    int ok = prok & fcnok;
    VP_ASSERT(!ok | (o->flags.fields.valid_pr == pr2ok), "L2 pseudorange validity");
    VP_ASSERT(!ok | (o->flags.fields.valid_cp == cp2ok), "L2 phase validity");
    VP_ASSERT(!(ok & pr2ok) | (o->pseudorange == 0.02 * pd + p1), "L2 pseudorange");
    VP_ASSERT(!(ok & cp2ok) | (o->carrier_phase == (p1 + 0.0005 * ppr2) / (299792458.0 / f2)), "L2 phase");
    VP_ASSERT(o->flags.fields.valid_lock == o->flags.fields.valid_cp, "L2 lock time valid with the phase");
    EQ(o->lock, lock_s(lock2), "L2 lock time");
    VP_ASSERT(o->flags.fields.valid_cnr == (cnr2 != 0), "L2 signal strength validity");
    VP_ASSERT(!cnr2 | (o->cnr == 0.25 * cnr2), "L2 signal strength");
    VP_ASSERT(!o->flags.fields.valid_dop, "no L2 Doppler");
  }
  VP_REACH("decode");
#endif
#endif
}
