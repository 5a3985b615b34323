#include "vp.h"
#include <rtcm3/logging.h>
static int calls, ca, cb;
static uint8_t glevel; static uint8_t *gmsg; static uint16_t glen; static void *gctx;
static void cb1(uint8_t level, uint8_t *msg, uint16_t len, void *ctx) { ca++; calls++; glevel = level; gmsg = msg; glen = len; gctx = ctx; }
static void cb2(uint8_t level, uint8_t *msg, uint16_t len, void *ctx) { cb++; calls++; glevel = level; gmsg = msg; glen = len; gctx = ctx; }
void vp_main(void) {
  static uint8_t buf[4], ctx1, ctx2;
  calls = ca = cb = 0;
  /* nothing registered */
  rtcm_log(vp_u8(), buf, vp_u16());
  VP_ASSERT(calls == 0, "no callback registered: nothing happens");
  /* any STEPS-step history of registrations */
  int want = 0; void *wctx = 0;
  for (int i = 0; i < STEPS; i++) {
    uint8_t k = vp_split(vp_u8() & 3);
    void *c = vp_split(vp_u8() & 1) ? &ctx1 : &ctx2;
    if (k == 0) { rtcm_init_logging(cb1, c); want = 1; wctx = c; }
    else if (k == 1) { rtcm_init_logging(cb2, c); want = 2; wctx = c; }
    else if (k == 2) { rtcm_init_logging(0, c); want = 0; }
    uint8_t level = vp_u8(), off = (uint8_t)(i & 3); uint16_t len = vp_u16();
    int c0 = ca, c1 = cb;
    rtcm_log(level, buf + off, len);
    VP_ASSERT(ca == c0 + (want == 1) && cb == c1 + (want == 2), "exactly the registered callback is called, once");
    if (want) VP_ASSERT(glevel == level && gmsg == buf + off && glen == len && gctx == wctx, "level, message, length and context are passed on unchanged");
  }
  VP_REACH("end");
}
