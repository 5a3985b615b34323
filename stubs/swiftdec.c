/* Stand-ins for the ephemeris decoders and checksums of libswiftnav: what they are given is recorded, what they give back is drawn by the harness (vp_eph). */
#include <swiftnav/vp_swift.h>
#include "swiftdec.h"
struct vp_dec vp_dec;
ephemeris_t vp_eph;
void decode_ephemeris(const u32 w[3][8], ephemeris_t *e, double tot) {
  vp_dec.n++;
  vp_dec.kind = 0;
  memcpy(vp_dec.words, w, sizeof(u32) * 24);
  vp_dec.tot = tot;
  gnss_signal_t sid = e->sid;
  *e = vp_eph;
  e->sid = sid;
}
void decode_bds_d1_ephemeris(const u32 w[3][10], gnss_signal_t sid, ephemeris_t *e) {
  vp_dec.n++;
  vp_dec.kind = 1;
  memcpy(vp_dec.words, w, sizeof(u32) * 30);
  *e = vp_eph;
  e->sid = sid;
}
bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e) {
  vp_dec.n++;
  vp_dec.kind = 2;
  memcpy(vp_dec.words, page, 5 * GAL_INAV_CONTENT_BYTE);
  *e = vp_eph;
  return vp_dec.gal_ok;
}
void decode_glo_ephemeris(const glo_string_t *s, gnss_signal_t sid, const utc_params_t *p, ephemeris_t *e) {
  vp_dec.n++;
  vp_dec.kind = 3;
  memcpy(vp_dec.words, s, 5 * sizeof(glo_string_t));
  vp_dec.leap = p->dt_ls;
  *e = vp_eph;
  e->sid = sid;
}
u32 getbitu(const u8 *b, u32 pos, u8 len) {
  u32 v = 0;
  for (u32 i = pos; i < pos + len; i++) v = v << 1 | ((b[i / 8] >> (7 - i % 8)) & 1);
  return v;
}
void setbitu(u8 *b, u32 pos, u32 len, u32 data) {
  for (u32 i = 0; i < len; i++) {
    u32 p = pos + i;
    u8 m = (u8)(1u << (7 - p % 8));
    b[p / 8] = (u8)((b[p / 8] & ~m) | (((data >> (len - 1 - i)) & 1) << (7 - p % 8)));
  }
}
void bitshl(void *buf, u32 size, u32 shift) {
  u8 *b = buf;
  for (u32 i = 0; i < size; i++) b[i] = (u8)(b[i] << shift | (i + 1 < size ? b[i + 1] >> (8 - shift) : 0));
}
void bitcopy(void *dst, u32 dp, const void *src, u32 sp, u32 n) {
  for (u32 i = 0; i < n; i++) setbitu(dst, dp + i, 1, getbitu(src, sp + i, 1));
}
/* bitwise CRC-24Q over n bits */
u32 crc24q_bits(u32 crc, const u8 *b, u32 n, bool invert) {
  (void)invert;
  for (u32 i = 0; i < n; i++) {
    crc ^= (u32)getbitu(b, i, 1) << 23;
    crc <<= 1;
    if (crc & 0x1000000) crc ^= 0x1864CFB;
  }
  return crc & 0xFFFFFF;
}
