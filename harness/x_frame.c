/* IXCOM framing through ixcom_sbp_process: junk, frame A (any type, length in a table, any content), then a good wheel frame B. CH: how the stream is cut into reads. */
#include "vp.h"
#include <string.h>
#include <gnss-converters/ixcom_sbp.h>
#include <ixcom/decode.h>
#ifndef NA
#define NA 0
#endif
static uint8_t st[200 + NA];
static uint32_t total, pos, first;
static struct ixcom_sbp_state s;
static int calls, ctx_ok = 1, ctx, over;
static sbp_msg_type_t ty[4];
static s32 ticks[4];
static int rd(u8 *buf, size_t len, void *c) {
  ctx_ok &= c == &ctx;
  over |= buf < s.read_buffer || len > (size_t)(s.read_buffer + sizeof s.read_buffer - buf);
  VP_ASSERT(!over, "the reader is only offered memory of the buffer");
  uint32_t n = total - pos;
#if CH == 0
  if (pos < first && n > first - pos) n = first - pos;
#elif CH == 1
  if (n > 1) n = 1;
#endif
  if (n > len) n = len;
  memcpy(buf, st + pos, n);
  pos += n;
  return (int)n;
}
static void cb(uint16_t id, sbp_msg_type_t t, const sbp_msg_t *m, void *c) {
  ctx_ok &= c == &ctx && id == 4711;
  if (calls < 4) {
    ty[calls] = t;
    if (t == SbpMsgWheeltick) ticks[calls] = m->wheeltick.ticks;
  }
  calls++;
}
static uint32_t frame(uint8_t *p, uint32_t id, uint32_t len, uint16_t err) {
  p[0] = 0x7E, p[1] = id, p[4] = len, p[5] = len >> 8;
  if (len >= 20) {
    uint16_t c = ixcom_checksum(p, len - 2) ^ err;
    p[len - 2] = c, p[len - 1] = c >> 8;
  }
  return len;
}
void vp_main(void) {
  uint32_t o = vp_split(vp_range(0, A == 3 && CH == 0 ? 0 : 2));
  for (uint32_t i = 0; i < o; i++) { st[i] = vp_u8(); VP_ASSUME(st[i] != 0x7E); }
  int a = 0;
#if A == 1 /* a wheel frame, right or wrong */
  uint16_t err = vp_u16();
  uint8_t id = vp_u8();
  for (int i = 0; i < 28; i++) st[o + i] = 3 * i;
  memset(st + o + 16, 0, 8);
  uint32_t tk = vp_u16() & 0x7FFF;
  st[o + 20] = tk, st[o + 21] = tk >> 8;
  o += frame(st + o, id, 28, err);
  a = id == 0x16 && err == 0;
  VP_ASSUME(id != 0);
#elif A == 2 /* a frame of a type that is not converted, or of the wrong size for its type */
  static const uint8_t SZ[] = {20, 24, 27, 28, 29, 43, 44, 45, 50};
  static const uint8_t I[] = {0x00, 0x16, 0x05, 0xFF};
  uint32_t id = I[vp_split(vp_range(0, 3))], len = SZ[vp_split(vp_range(0, 8))];
  VP_ASSUME(!(id == 0 && len == 44) && !(id == 0x16 && len == 28));
  st[o + 2] = vp_u8();
  o += frame(st + o, id, len, 0);
#elif A == 3 /* a lookalike whose length no frame can have; none of its bytes is a sync byte */
  static const uint16_t L[] = {0, 1, 2, 5, 15, 16, 17, 19, 4096, 4097, 32767, 65535};
  uint32_t len = L[vp_split(vp_range(0, 11))], k = vp_split(vp_range(CH == 0 ? 2 : 1, 3));
  frame(st + o, vp_u8(), 0, 0);
  VP_ASSUME(st[o + 1] != 0x7E);
  st[o + 2] = vp_u8(); VP_ASSUME(st[o + 2] != 0x7E);
  st[o + 4] = len, st[o + 5] = len >> 8;
  o += k == 1 ? 6 : k == 2 ? 16 : 17;
#elif A == 4 /* the longest frame */
  o += frame(st + o, 0x77, NA, vp_u16());
#endif
  uint32_t tb = vp_u16() & 0x7FFF;
  st[o + 6] = 1;
  st[o + 20] = tb, st[o + 21] = tb >> 8;
  o += frame(st + o, 0x16, 28, 0);
  total = o;
#if CH == 0
  first = vp_split(vp_range(0, NA ? 3 : (int32_t)(o - 1)));
#if NA
  static const uint16_t F[] = {0, 2000, NA - 1, NA + 5};
  first = F[first];
#endif
#endif
  ixcom_sbp_init(&s, cb, &ctx);
  for (int i = 0; i < 3; i++) ixcom_sbp_process(&s, rd);
  VP_ASSERT(ixcom_sbp_process(&s, rd) <= 0 && pos == total, "everything is read");
  VP_ASSERT(ctx_ok, "context and sender");
#if A == 1
  VP_ASSERT(calls == (a ? 4 : 2), "each good frame is delivered once, a wrong one not at all");
  VP_ASSERT(!a || (ticks[1] == (s32)tk && ticks[3] == (s32)tb), "in order");
  if (!a) VP_ASSERT(ticks[1] == (s32)tb, "the good frame is the one delivered");
#else
  VP_ASSERT(calls == 2 && ticks[1] == (s32)tb, "the good frame is delivered once, the other one not at all");
#endif
  VP_REACH("end");
}
