/* Ephemeris messages: field by field against the standard's layouts, both directions. MSG selects the message;
 * modes: decode (default), CUT (truncated by a symbolic number of bytes), ENC (encoder). */
#include "rspec.h"
#include <stdlib.h>
#include <rtcm3/eph_decode.h>
#include <rtcm3/eph_encode.h>
#define K m.data.kepler.
#define G m.data.glo.
/* X(kind, width, field): U unsigned, S two's complement, M sign magnitude, Z ignored bits */
#define ORBIT(n) X(S, n, K crs) X(S, 16, K dn) X(S, 32, K m0) X(S, n, K cuc) X(U, 32, K ecc) X(S, n, K cus) X(U, 32, K sqrta)
#define ORBIT2(n) X(S, n, K cic) X(S, 32, K omega0) X(S, n, K cis) X(S, 32, K inc) X(S, n, K crc) X(S, 32, K w) X(S, 24, K omegadot)
#define GALCOMMON X(U, 6, m.sat_id) X(U, 12, m.wn) X(U, 10, K iode) X(U, 8, m.ura) X(S, 14, K inc_dot) X(U, 14, K toc) X(S, 6, K af2) X(S, 21, K af1) X(S, 31, K af0) \
  ORBIT(16) X(U, 14, m.toe) ORBIT2(16)
#if MSG == 1019
#define LAYOUT X(U, 6, m.sat_id) X(U, 10, m.wn) X(U, 4, m.ura) X(U, 2, K codeL2) X(S, 14, K inc_dot) X(U, 8, K iode) X(U, 16, K toc) X(S, 8, K af2) X(S, 16, K af1) X(S, 22, K af0) \
  X(U, 10, K iodc) ORBIT(16) X(U, 16, m.toe) ORBIT2(16) X(S, 8, K tgd.gps_s) X(U, 6, m.health_bits) X(B, 1, K L2_data_bit) X(U, 1, m.fit_interval)
#define NBITS 488
#define DECODE rtcm3_decode_gps_eph_bitstream
#define ENCODE rtcm3_encode_gps_eph
#define CONS RTCM_CONSTELLATION_GPS
#elif MSG == 1044
#define LAYOUT X(U, 4, m.sat_id) X(U, 16, K toc) X(S, 8, K af2) X(S, 16, K af1) X(S, 22, K af0) X(U, 8, K iode) ORBIT(16) X(U, 16, m.toe) ORBIT2(16) X(S, 14, K inc_dot) X(Z, 2, 0) \
  X(U, 10, m.wn) X(U, 4, m.ura) X(U, 6, m.health_bits) X(S, 8, K tgd.qzss_s) X(U, 10, K iodc) X(U, 1, m.fit_interval)
#define NBITS 485
#define DECODE rtcm3_decode_qzss_eph_bitstream
#define CONS RTCM_CONSTELLATION_QZS
#elif MSG == 1042
#define LAYOUT X(U, 6, m.sat_id) X(U, 13, m.wn) X(U, 4, m.ura) X(S, 14, K inc_dot) X(U, 5, K iode) X(U, 17, K toc) X(S, 11, K af2) X(S, 22, K af1) X(S, 24, K af0) X(U, 5, K iodc) \
  ORBIT(18) X(U, 17, m.toe) ORBIT2(18) X(S, 10, K tgd.bds_s[0]) X(S, 10, K tgd.bds_s[1]) X(U, 1, m.health_bits)
#define NBITS 511
#define DECODE rtcm3_decode_bds_eph_bitstream
#define ENCODE rtcm3_encode_bds_eph
#define CONS RTCM_CONSTELLATION_BDS
#elif MSG == 1046
#define LAYOUT GALCOMMON X(S, 10, K tgd.gal_s[0]) X(S, 10, K tgd.gal_s[1]) X(U, 6, m.health_bits) X(Z, 2, 0)
#define NBITS 504
#define DECODE rtcm3_decode_gal_eph_inav_bitstream
#define ENCODE rtcm3_encode_gal_eph_inav
#define CONS RTCM_CONSTELLATION_GAL
#elif MSG == 1045
#define LAYOUT GALCOMMON X(S, 10, K tgd.gal_s[0]) X(U, 3, m.health_bits) X(Z, 7, 0)
#define NBITS 496
#define DECODE rtcm3_decode_gal_eph_fnav_bitstream
#define ENCODE rtcm3_encode_gal_eph_fnav
#define CONS RTCM_CONSTELLATION_GAL
#elif MSG == 1020
#define AXIS(i) X(M, 24, G vel[i]) X(M, 27, G pos[i]) X(M, 5, G acc[i])
#define LAYOUT X(U, 6, m.sat_id) X(U, 5, G fcn) X(Z, 2, 0) X(U, 2, m.fit_interval) X(Z, 12, 0) X(H, 1, h0) X(Z, 1, 0) X(U, 7, G t_b) AXIS(0) AXIS(1) AXIS(2) X(Z, 1, 0) X(M, 11, G gamma) \
  X(Z, 2, 0) X(H, 1, h1) X(M, 22, G tau) X(M, 5, G d_tau) X(Z, 6, 0) X(U, 4, m.ura) X(Z, 13, 0)
#define NBITS 360
#define DECODE rtcm3_decode_glo_eph_bitstream
#define ENCODE rtcm3_encode_glo_eph
#define CONS RTCM_CONSTELLATION_GLO
#endif
#define BYTES ((NBITS + 7) / 8)
#define S64(w, v) ((int64_t)((uint64_t)(v) << (64 - (w))) >> (64 - (w)))
void vp_main(void) {
  static rtcm_msg_eph m;
  uint8_t spec[BYTES + 8];
#ifdef ENC
  /* any message whose fields fit their width in the standard */
  vp_bytes(&m, sizeof(m));
#define X(k, w, f) X_##k(w, f)
#define X_U(w, f) f = f & (uint32_t)((1ull << (w)) - 1);
#define X_B(w, f) f = vp_u8() & 1;
#define X_S(w, f) f = (int32_t)S64(w, f);
#define X_M(w, f) f = (int32_t)S64((w), f); VP_ASSUME(f > -(1 << ((w) - 1)));
#define X_Z(w, f)
#define X_H(w, f)
  LAYOUT
#undef X_U
#undef X_B
#undef X_S
#undef X_M
#undef X_Z
#undef X_H
#if MSG == 1020
  m.health_bits &= 1;
#endif
  m.constellation = CONS;
  uint8_t *b = malloc(BYTES);
  vp_bytes(b, BYTES);
  uint16_t n = ENCODE(&m, b);
  VP_ASSERT(n == BYTES, "encoded length");
  rs_start(b);
  EQ(rs_u(12), MSG, "message number");
#define X_U(w, f) EQ(rs_u(w), f, "encoded " #f);
#define X_B(w, f) EQ(rs_u(w), (uint8_t)f, "encoded " #f);
#define X_S(w, f) EQ(rs_s(w), (int64_t)f, "encoded " #f);
#define X_M(w, f) EQ(rs_m(w), (int64_t)f, "encoded " #f);
#define X_Z(w, f) rs_pos += w;
#define X_H(w, f) EQ(rs_u(1), m.health_bits, "encoded health");
  LAYOUT
#if MSG == 1020
  EQ(rs_u(1), 0, "no additional data");
  rs_pos += 78; 
#endif
  VP_ASSERT(rs_pos == NBITS, "layout covers the message");
  (void)spec;
  VP_REACH("encode");
#else
  uint64_t h0 = 0, h1 = 0, h2 = 0;
  vp_bytes(spec, BYTES);
#ifdef ANYNUM
  /* any other message number is refused */
  uint32_t num = (uint32_t)spec[0] << 4 | spec[1] >> 4;
  VP_ASSUME(num != MSG);
#else
  rs_put(spec, 0, 12, MSG);
#endif
  uint32_t len = BYTES;
#ifdef CUT
  uint32_t cut = vp_u8();
  VP_ASSUME(cut >= 1 && cut <= BYTES);
  len -= vp_split(cut);
#if MSG == 1020
  VP_ASSUME(spec[34] >> 0 & 1 || len < 36);
  VP_ASSUME(len < 36);
#endif
#endif
  uint8_t *b = malloc(len ? len : 1);
  for (uint32_t i = 0; i < len; i++) b[i] = spec[i];
  swiftnav_bitstream_t s;
  swiftnav_bitstream_init(&s, b, len * 8);
  memset(&m, 0x5a, sizeof(m));
  rtcm3_rc rc = DECODE(&s, &m);
#ifdef ANYNUM
  VP_ASSERT(rc == RC_MESSAGE_TYPE_MISMATCH, "a different message number is a type mismatch");
#elif defined(CUT)
  VP_ASSERT(rc == RC_INVALID_MESSAGE, "a truncated message is rejected");
#else
  rs_start(spec);
  rs_pos = 12;
#if MSG == 1042
  if ((spec[1] & 15) == 0 && (spec[2] >> 6) == 0) {} /* sat id is bits 12..17 */
  uint32_t sat = (uint32_t)rs_u(6);
  rs_pos = 12;
  if (sat <= 5) { VP_ASSERT(rc == RC_INVALID_MESSAGE, "geostationary BeiDou refused"); VP_REACH("geo"); return; }
#endif
  VP_ASSERT(rc == RC_OK, "complete message accepted");
  VP_ASSERT(m.constellation == CONS, "constellation");
#define X(k, w, f) X_##k(w, f)
#define X_U(w, f) EQ(f, rs_u(w), #f);
#define X_B(w, f) EQ((uint8_t)f, rs_u(w), #f);
#define X_S(w, f) EQ((int64_t)f, rs_s(w), #f);
#define X_M(w, f) EQ((int64_t)f, rs_m(w), #f);
#define X_Z(w, f) rs_pos += w;
#define X_H(w, f) f = rs_u(1);
  LAYOUT
#if MSG == 1020
  if (rs_u(1)) { rs_pos += 70; h2 = rs_u(1); rs_pos += 7; } else rs_pos += 78;
  VP_ASSERT(m.health_bits == (h0 | h1 | h2), "unhealthy when any health flag is set");
#endif
  VP_ASSERT(rs_pos == NBITS, "layout covers the message");
#endif
  (void)h0; (void)h1; (void)h2;
  VP_REACH("decode");
#endif
}
