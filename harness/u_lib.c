/* libubx messages. MSG: name; ENC: encoder's name suffix; MODE 0 decode + re-encode, 1 cut short, 2 another class or id, 3 too many repetitions. LO..HI repetitions for the repeated ones (REP). */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <ubx/decode.h>
#include <ubx/encode.h>
#include "ubxspec.h"
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#define DECODE CAT(ubx_decode_, MSG, _bytestream)
#define ENCODE CAT(ubx_encode_, ENC, )
#define FIX CAT(T_, MSG, )
#define FIELDS CAT(F_, MSG, )
#ifdef REP
#define BLK CAT(B_, MSG, )
#define CNT CAT(N_, MSG, )
#define RFIELDS CAT(R_, MSG, )
#else
#define BLK 0
#define LO 0
#define HI 0
#endif
#define MAXLEN (FIX + (HI)*BLK + 4)
static CAT(ubx_, MSG, ) m;
static uint64_t le(const uint8_t *p, uint32_t n) {
  uint64_t v = 0;
  for (uint32_t i = 0; i < n; i++) v |= (uint64_t)p[i] << 8 * i;
  return v;
}
#define CHK(f, o, n) VP_ASSERT(sizeof(m.f) == (n), #f " size"); VP_ASSERT(((uint64_t)m.f & (~0ull >> (64 - 8 * (n)))) == le(base + (o), n), #f);
void vp_main(void) {
  static const uint8_t ci[2] = {CAT(C_, MSG, )};
  uint8_t spec[MAXLEN + 600 + 8];
  memset(spec, 0, sizeof(spec));
  vp_bytes(spec, MAXLEN);
  uint32_t len = FIX;
#if MODE == 2
  VP_ASSUME(spec[0] != ci[0] || spec[1] != ci[1]);
  uint32_t n = 0;
#else
  spec[0] = ci[0];
  spec[1] = ci[1];
#ifdef REP
  uint32_t n = CNT(spec);
#if MODE == 3
  VP_ASSUME(n > CAT(MAXN_, MSG, ));
#else
  VP_ASSUME(n >= LO && n <= HI);
  n = vp_split(n);
#endif
  len = FIX + n * BLK;
#ifdef CALIB
  if (spec[8] & 8) len += 4;
#endif
#if MODE == 3
  len = FIX + 600;
#endif
#else
  uint32_t n = 0;
#endif
#endif
  uint32_t cut = 0;
#if MODE == 1
  cut = vp_u16();
  VP_ASSUME(cut >= 1 && cut <= len);
  cut = vp_split(cut);
#endif
  /* the buffer holds exactly the bytes handed over: reading beyond them is a memory error */
  uint8_t *b = malloc(len - cut ? len - cut : 1);
  for (uint32_t i = 0; i < len - cut; i++) b[i] = spec[i];
  swiftnav_bytestream_t s;
  swiftnav_bytestream_init(&s, b, len - cut);
  ubx_rc rc = DECODE(&s, &m);
#if MODE == 1
  VP_ASSERT(rc == RC_INVALID_MESSAGE, "a message that ends early is invalid");
  VP_REACH("cut");
#elif MODE == 2
  VP_ASSERT(rc == RC_MESSAGE_TYPE_MISMATCH, "another class or message is a type mismatch");
  VP_REACH("other message");
#elif MODE == 3
  VP_ASSERT(rc == RC_INVALID_MESSAGE, "more repetitions than the structure holds are refused");
  VP_REACH("too many");
#else
  VP_ASSERT(rc == RC_OK, "a complete message decodes");
  const uint8_t *base = spec;
  VP_ASSERT(m.class_id == spec[0] && m.msg_id == spec[1] && m.length == le(spec + 2, 2), "header");
  FIELDS(CHK)
#ifdef RAWX
  uint64_t w;
  memcpy(&w, &m.rcv_tow, 8);
  VP_ASSERT(w == le(spec + 4, 8), "receiver time");
#endif
#ifdef REP
  for (uint32_t i = 0; i < n; i++) {
    base = spec + FIX + i * BLK;
    RFIELDS(CHK)
#ifdef RAWX
    memcpy(&w, &m.pseudorange_m[i], 8);
    VP_ASSERT(w == le(base, 8), "pseudorange");
    memcpy(&w, &m.carrier_phase_cycles[i], 8);
    VP_ASSERT(w == le(base + 8, 8), "carrier phase");
    uint32_t v;
    memcpy(&v, &m.doppler_hz[i], 4);
    VP_ASSERT(v == le(base + 16, 4), "doppler");
#endif
  }
#endif
#ifdef CALIB
  if (spec[8] & 8) VP_ASSERT(m.calib_tag == le(spec + FIX + n * BLK, 4), "calibration tag");
#endif
  uint8_t out[MAXLEN + 64];
  for (uint32_t i = 0; i < sizeof(out); i++) out[i] = 0xA5;
  uint32_t used = ENCODE(&m, out);
  VP_ASSERT(used == len, "encoded length");
  for (uint32_t i = 0; i < len; i++) VP_ASSERT(out[i] == spec[i], "encoding gives back the received bytes");
  VP_REACH("decoded");
#endif
}
