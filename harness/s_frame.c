/* RTCM stream framing through rtcm2sbp_process. A: what comes before the good frame; CH: how the stream is cut into reads. */
#include <gnss-converters/rtcm3_sbp.h>
#include <string.h>
#include "rspec.h"
#include "rtcmconv.h"
static struct rtcm3_sbp_state st;
static time_truth_t tt;
static int ctx, n_msg, other;
static uint16_t got[8];
void vp_env(void) {}
static void cb(uint16_t sender, sbp_msg_type_t type, const sbp_msg_t *m, void *c) {
  (void)m;
  other |= c != &ctx || type != SbpMsgBasePosEcef;
  if (n_msg < 8) got[n_msg] = sender;
  n_msg++;
}
#ifndef PAD
#define PAD 0
#endif
static uint8_t str[6000];
static uint32_t len, at, first;
static int rd(uint8_t *b, size_t n, void *c) {
  (void)c;
  uint32_t m = len - at;
  if (m > n) m = (uint32_t)n;
#if CH == 0
  if (at == 0 && m > first) m = first;
#elif CH == 1
  if (m > 1 && at < len - PAD) m = 1;
#endif
  for (uint32_t i = 0; i < m; i++) b[i] = str[at + i];
  at += m;
  return (int)m;
}
/* a 1005 frame with n payload bytes (19 or more) */
static int k;
static uint16_t frame(uint32_t n, uint8_t res) {
  uint8_t *f = str + len;
#if A == 6
  uint16_t stn = vp_u16() & 0xFFF;
#else
  static const uint16_t stns[] = {0x0A5, 0xF12, 0x07F};
  uint16_t stn = stns[k++ % 3];
#endif
  f[0] = 0xD3;
  f[1] = (uint8_t)(res << 2 | n >> 8);
  f[2] = (uint8_t)n;
  memset(f + 3, 0, n);
  f[3] = 1005 >> 4;
  f[4] = (uint8_t)(1005 << 4 | stn >> 8);
  f[5] = (uint8_t)stn;
  f[8] = f[12] = f[20] = 0x11;
  uint32_t c = crc24q(f, 3 + n, 0);
  f[n + 3] = (uint8_t)(c >> 16);
  f[n + 4] = (uint8_t)(c >> 8);
  f[n + 5] = (uint8_t)c;
  len += n + 6;
  return stn;
}
void vp_main(void) {
  time_truth_init(&tt);
  rtcm2sbp_init(&st, &tt, cb, NULL, &ctx);
  uint16_t want[4];
  int nw = 0;
  for (int i = 0; i < JUNK; i++) str[len++] = (uint8_t)(i * 37 + 1);
#if A == 6 /* a good frame of any station and reserved bits */
  want[nw++] = frame(19, vp_u8() & 0x3F);
#elif A == 1 /* a frame with any reserved bits and any checksum */
  uint32_t s = len;
  uint16_t a = frame(19, 0x2A);
  uint32_t ok = 1;
  for (int i = 0; i < 3; i++) {
    uint8_t e = vp_u8();
    ok &= e == 0;
    str[s + 22 + i] ^= e;
    VP_ASSUME(str[s + 22 + i] != 0xD3);
  }
  if (vp_split(ok)) want[nw++] = a;
#elif A == 2 /* something that looks like the start of a frame of LL bytes */
  str[len++] = 0xD3;
  str[len++] = (uint8_t)(LL >> 8);
  str[len++] = (uint8_t)LL;
#elif A == 3 /* an intact frame of LL bytes of another type */
  uint32_t s = len;
  frame(LL < 19 ? 19 : LL, 0);
  len = s + LL + 6;
  str[s + 1] = LL >> 8;
  str[s + 2] = (uint8_t)LL;
  if (LL > 1) str[s + 3] = 0, str[s + 4] = 0x10; /* message number 1 */
  uint32_t c = crc24q(str + s, 3 + LL, 0);
  str[s + LL + 3] = (uint8_t)(c >> 16);
  str[s + LL + 4] = (uint8_t)(c >> 8);
  str[s + LL + 5] = (uint8_t)c;
#elif A == 4 /* a frame of LL bytes */
  want[nw++] = frame(LL, 0);
#elif A == 5 /* a frame whose announced length is changed: any value of the length's low bits */
  uint32_t s = len;
  frame(19, 0);
  str[s + 2] ^= (uint8_t)vp_split(vp_range(1, 63));
#endif
  want[nw++] = frame(19, 0);
  len += PAD; /* zeros, so that every announced length is complete */
#if CH == 0
  first = vp_split(vp_range(1, (int)len - PAD));
#endif
  int r;
  while ((r = rtcm2sbp_process(&st, rd)) > 0) {}
  VP_ASSERT(r == 0 && at == len, "the whole stream is read");
  VP_ASSERT(n_msg == nw && !other, "one message for each good frame");
  for (int i = 0; i < nw && i < n_msg; i++) VP_ASSERT(got[i] == (want[i] | 0xF080), "messages in order, with the station as sender");
  VP_REACH("end");
}
