/* libixcom: message codec and checksum. */
#include "vp.h"
#include <string.h>
#include <ixcom/decode.h>
#include <ixcom/encode.h>
static uint8_t f[64];
static uint16_t crc(const uint8_t *p, uint32_t n) { /* x^16 + x^12 + x^5 + 1, start 0, most significant bit first */
  uint32_t c = 0;
  for (uint32_t i = 0; i < n; i++) {
    c ^= (uint32_t)p[i] << 8;
    for (int k = 0; k < 8; k++) c = (c << 1 ^ (c & 0x8000 ? 0x1021 : 0)) & 0xFFFF;
  }
  return c;
}
static uint32_t le(const uint8_t *p, int k) { uint32_t v = 0; for (int i = 0; i < k; i++) v |= (uint32_t)p[i] << 8 * i; return v; }
static uint32_t fb(float x) { uint32_t v; memcpy(&v, &x, 4); return v; }
#if M == 1
void vp_main(void) {
  vp_bytes(f, NB);
  VP_ASSERT(ixcom_checksum(f, NB) == crc(f, NB), "checksum is the CRC-16 with polynomial 1021, start 0");
  VP_REACH("end");
}
#elif M == 2 /* the table and the byte step, behind prefixes of every length */
void vp_main(void) {
  for (uint32_t i = 0; i < 43; i++) f[i] = (uint8_t)(i * 37 + 11);
  for (uint32_t n = 1; n < 44; n++) {
    uint8_t keep = f[n - 1];
    f[n - 1] = vp_u8();
    VP_ASSERT(ixcom_checksum(f, n) == crc(f, n), "checksum of every length");
    f[n - 1] = keep;
  }
  VP_REACH("end");
}
#else
#if TY == 0
#define LEN 44
typedef XCOMmsg_IMURAW msg_t;
#define ID 0x00
#define DEC ixcom_decode_imuraw
#define ENC ixcom_encode_imuraw
#else
#define LEN 28
typedef XCOMmsg_WHEELDATA msg_t;
#define ID 0x16
#define DEC ixcom_decode_wheeldata
#define ENC ixcom_encode_wheeldata
#endif
static int fields(const msg_t *m) {
  int ok = (m->header.sync == f[0]) & (m->header.msg_id == f[1]) & (m->header.frame_counter == f[2]) & (m->header.trigger_source == f[3]) & (m->header.msg_len == le(f + 4, 2)) &
           (m->header.gps_week == le(f + 6, 2)) & (m->header.gps_time_sec == le(f + 8, 4)) & (m->header.gps_time_usec == le(f + 12, 4)) & (m->footer.global_status.value == le(f + LEN - 4, 2)) &
           (m->footer.crc16 == le(f + LEN - 2, 2));
#if TY == 0
  for (int i = 0; i < 3; i++) ok &= (fb(m->acc[i]) == le(f + 16 + 4 * i, 4)) & (fb(m->omg[i]) == le(f + 28 + 4 * i, 4));
#else
  ok &= (fb(m->speed) == le(f + 16, 4)) & ((uint32_t)m->ticks == le(f + 20, 4));
#endif
  return ok;
}
#if M == 3 /* decode: any content; the checksum right or wrong, the length right or wrong */
void vp_main(void) {
  msg_t m;
  vp_bytes(f, LEN);
  uint32_t bad = vp_split(vp_range(0, 4));
  f[0] = 0x7E, f[1] = ID, f[4] = LEN, f[5] = 0;
  if (bad == 1) { f[0] = vp_u8(); VP_ASSUME(f[0] != 0x7E); }
  if (bad == 2) { f[1] = vp_u8(); VP_ASSUME(f[1] != ID); }
  uint16_t e = 0;
  if (bad == 3) { e = vp_u16(); VP_ASSUME(e != 0); }
  uint32_t len = LEN;
  if (bad == 4) { static const uint16_t L[] = {0, 1, 2, 16, 20, LEN - 1, LEN + 1, LEN + 16, 4095, 65535}; len = L[vp_split(vp_range(0, 9))]; f[4] = len; f[5] = len >> 8; }
  uint16_t c = ixcom_checksum(f, LEN - 2) ^ e;
  f[LEN - 2] = c;
  f[LEN - 1] = c >> 8;
  ixcom_rc r = DEC(f, &m);
  VP_ASSERT((r == IXCOM_RC_OK) == (bad == 0), "accepted exactly when sync byte, type, length and checksum are right");
  if (bad == 0) VP_ASSERT(fields(&m), "every field comes from its documented place");
  VP_REACH("end");
}
#else /* encode: any fields */
void vp_main(void) {
  msg_t m;
  uint8_t c[LEN];
  vp_bytes(c, LEN);
  memcpy(&m, c, LEN);
  memset(f, 0x55, sizeof f);
  VP_ASSERT(ENC(&m, f) == LEN, "encoded length");
  VP_ASSERT(fields(&m), "every field goes to its documented place");
  int over = 0;
  for (uint32_t i = LEN; i < sizeof f; i++) over |= f[i] != 0x55;
  VP_ASSERT(!over, "nothing is written behind the message");
  VP_REACH("end");
}
#endif
#endif
