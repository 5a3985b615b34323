/* UBX framing through ubx_sbp_process: junk, a frame A of any class, id, content and checksum, then a good MON-HW frame B (forwarded verbatim, so that what was framed is visible).
   CH: how the stream is cut into reads. LEN: A's announced length mode: 0 short frames, 1 larger than a frame can be, 2 the largest possible. */
#include "vp.h"
#include <string.h>
#include <gnss-converters/ubx_sbp.h>
#ifndef LB0
#define LB0 0
#define LB1 2
#endif
#ifndef LAN
#define LAN 3
#define LAS 1
#endif
#define N (LEN == 2 ? 4130 : 32)
static uint8_t st[N];
static uint32_t total, pos, first;
static struct ubx_sbp_state s;
static int calls;
static uint8_t got[2][300], gotn[2];
static uint16_t sender[2];
static int types_ok = 1, ctx_ok = 1, ctx;
static int rd(u8 *buf, size_t len, void *c) {
  ctx_ok &= c == &ctx;
  uint32_t n = total - pos;
#if CH == 0
  if (pos == 0 && first < n) n = first;
#elif CH == 1
  if (n > 1) n = 1;
#endif
  if (n > len) n = len;
  memcpy(buf, st + pos, n);
  pos += n;
  return (int)n;
}
static void cb(uint16_t id, sbp_msg_type_t t, const sbp_msg_t *m, void *c) {
  ctx_ok &= c == &ctx;
  types_ok &= t == SbpMsgFwd;
  if (calls < 2) {
    gotn[calls] = m->fwd.n_fwd_payload;
    memcpy(got[calls], m->fwd.fwd_payload, 16);
    sender[calls] = id;
  }
  calls++;
}
static uint32_t sum(uint8_t *f, uint32_t n) {
  uint8_t a = 0, b = 0;
  for (uint32_t i = 0; i < n; i++) {
    a += f[i];
    b += a;
  }
  return a | b << 8;
}
void vp_main(void) {
  uint32_t j = vp_split(vp_range(0, J)), la, lb = vp_split(vp_range(LB0, LB1));
  uint32_t o = 0;
  vp_bytes(st, J);
  /* junk: anything without the two sync bytes in a row */
  for (uint32_t i = 0; i + 1 < J; i++) VP_ASSUME(!(st[i] == 0xB5 && st[i + 1] == 0x62));
  o = j;
  st[o++] = 0xB5;
  st[o++] = 0x62;
  uint8_t *a = st + o;
#if LEN == 0
  vp_bytes(a, 12);
  la = vp_split(vp_range(0, LAN)) * LAS;
  a[2] = la;
  a[3] = 0;
  o += 4 + la + 2;
  int good = (a[4 + la] | a[5 + la] << 8) == sum(a, 4 + la);
  int show = good && a[0] == 0x0A && a[1] == 0x09;
#elif LEN == 1
  vp_bytes(a, 4);
  VP_ASSUME((a[2] | a[3] << 8) > 4090);
  la = 0;
  o += 4;
  int show = 0;
#else
  la = vp_split(vp_range(4088, 4090));
  a[0] = 0x0A;
  a[1] = 0x09;
  a[2] = la & 255;
  a[3] = la >> 8;
  a[4] = vp_u8();
  uint32_t ck = sum(a, 4 + la);
  a[4 + la] = ck & 255;
  a[5 + la] = ck >> 8;
  o += 4 + la + 2;
  int show = 0; /* too long to be forwarded */
#endif
  st[o++] = 0xB5;
  st[o++] = 0x62;
  uint8_t *b = st + o;
  vp_bytes(b + 4, 2);
  b[0] = 0x0A;
  b[1] = 0x09;
  b[2] = lb;
  b[3] = 0;
  uint32_t c2 = sum(b, 4 + lb);
  b[4 + lb] = c2 & 255;
  b[5 + lb] = c2 >> 8;
  total = o + 4 + lb + 2;
#ifdef CUT
  uint32_t cut = vp_split(vp_range(1, 4 + lb + 1 + 2));
  total -= cut;
#endif
#if CH == 0
  first = vp_split(vp_range(1, LEN == 2 ? 8 : 24));
#endif
  uint16_t id = vp_u16();
  ubx_sbp_init(&s, cb, &ctx);
  ubx_set_sender_id(&s, id);
  int r = 1, steps = 0;
  while (r > 0 && steps < 5) {
    r = ubx_sbp_process(&s, rd);
    steps++;
  }
  VP_ASSERT(r <= 0, "the stream ends");
  VP_ASSERT(types_ok, "only forwarded frames are sent");
  VP_ASSERT(ctx_ok, "callbacks get the caller's context");
#ifdef CUT
  VP_ASSERT(calls == show, "a frame cut by the end of the stream is not handled");
  VP_REACH("cut");
#else
  VP_ASSERT(calls == 1 + show, "exactly the frames whose checksum matches are handled");
  if (show) {
    VP_ASSERT(gotn[0] == 4 + la, "length of the first frame");
    VP_ASSERT(sender[0] == id, "sender of the first frame");
    for (uint32_t i = 0; i < 4 + la && i < 16; i++) VP_ASSERT(got[0][i] == a[i], "bytes of the first frame");
    VP_REACH("first frame handled");
  } else {
    VP_REACH("first frame skipped");
  }
  if (calls == 1 + show) {
    VP_ASSERT(gotn[show] == 4 + lb, "length of the second frame");
    VP_ASSERT(sender[show] == id, "sender of the second frame");
    for (uint32_t i = 0; i < 4 + lb; i++) VP_ASSERT(got[show][i] == b[i], "bytes of the second frame");
  }
#endif
}
