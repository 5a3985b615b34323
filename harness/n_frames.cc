/* Parser::process on streams with concrete framing structure and symbolic
 * contents.  SCEN selects the structure; every payload/CRC value is symbolic. */
#include "vp.h"
#include "crc_checker.h"
#include "parser.h"
#include "message_insatt.h"
#include "message_bestvel.h"
#include "message_rangecmp.h"
using namespace Novatel;
#ifndef SYMB
#define SYMB 4
#endif
#define MAXS 400
static uint8_t st[MAXS];
static uint32_t slen, spos;
/* expectations: offset of the frame start of each delivery */
static uint32_t exp_off[6], nexp, ncb;
static int in_ctx;

static int readfn(uint8_t *buf, uint32_t n, void *ctx) {
  VP_ASSERT(ctx == &in_ctx, "reader gets the caller's context");
  uint32_t k = 0;
  while (k < n && spos < slen) buf[k++] = st[spos++];
  return (int)k;
}
static uint32_t u16(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8; }
static uint32_t u32(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }

static void cb(const BinaryHeader *h, const void *body) {
  VP_ASSERT(ncb < nexp, "no frame is delivered that the stream does not contain");
  const uint8_t *p = st + exp_off[ncb++];
  bool reg = p[2] == 0x12;
  VP_ASSERT(h->message_id == u16(p + 4), "frames delivered in stream order, each once (id)");
  VP_ASSERT(h->message_len == (reg ? u16(p + 8) : p[3]), "delivered length is the frame's");
  VP_ASSERT(h->week == u16(p + (reg ? 14 : 6)), "delivered week is the frame's");
  VP_ASSERT((uint32_t)h->ms == u32(p + (reg ? 16 : 8)), "delivered time is the frame's");
  const uint8_t *b = p + (reg ? 28 : 12);
  if (h->message_id == Message::INSATT) {
    const Message::INSATT_t *m = (const Message::INSATT_t *)body;
    VP_ASSERT(m->gnss_week == u32(b) && m->status == u32(b + 36), "delivered body is the frame's");
  }
  if (h->message_id == Message::BESTVEL) {
    const Message::BESTVEL_t *m = (const Message::BESTVEL_t *)body;
    VP_ASSERT(m->sol_stat == u32(b) && m->vel_type == u32(b + 4), "delivered body is the frame's (BESTVEL)");
  }
  if (h->message_id == Message::RANGECMP) {
    const Message::RANGECMP_t *m = (const Message::RANGECMP_t *)body;
    VP_ASSERT(m->n_records == u32(b), "delivered body is the frame's (RANGECMP)");
  }
}

static void put(uint8_t v) { st[slen++] = v; }
static void put32(uint32_t v) { put(v); put(v >> 8); put(v >> 16); put(v >> 24); }
static void garbage(const char *s, uint32_t n) { for (uint32_t i = 0; i < n; i++) put((uint8_t)s[i]); }

/* header with concrete sync/id/length; SYMB symbolic bytes at the end of the body (or header) */
static uint32_t head(bool reg, uint32_t id, uint32_t blen) {
  uint32_t o = slen;
  put(0xAA); put(0x44);
  if (reg) {
    put(0x12); put(28); put(id); put(id >> 8); put(2); put(0x20); put(blen); put(blen >> 8);
    for (int i = 10; i < 28; i++) put(0x30 + i);
  } else {
    put(0x13); put(blen); put(id); put(id >> 8);
    for (int i = 6; i < 12; i++) put(0x30 + i);
  }
  return o;
}
static void symtail(void) { for (uint32_t i = 1; i <= SYMB; i++) st[slen - i] = vp_u8(); }
static void good_crc(uint32_t o) { put32(CrcChecker::get_crc(st + o, slen - o)); }
static void bad_crc(uint32_t o) {
  uint32_t c = CrcChecker::get_crc(st + o, slen - o), d = vp_u32();
  VP_ASSUME(d != 0);
  put32(c ^ d);
}
static void expect(uint32_t o) { exp_off[nexp++] = o; }
static void body(uint32_t n, uint8_t v) { for (uint32_t i = 0; i < n; i++) put(v); }

static void frame_insatt(bool reg) { uint32_t o = head(reg, 263, 40); body(40, 0x11); symtail(); good_crc(o); expect(o); }
static void frame_bestvel(bool reg) { uint32_t o = head(reg, 99, 44); body(44, 0x22); symtail(); good_crc(o); expect(o); }
static void frame_rangecmp(bool reg) { uint32_t o = head(reg, 140, 4); body(4, 0); good_crc(o); expect(o); }

extern "C" void vp_main(void) {
  slen = spos = nexp = ncb = 0;
#ifdef REG
  const bool reg = true;
#else
  const bool reg = false;
#endif
#if SCEN == 1 /* back to back frames, mixed kinds */
  frame_rangecmp(reg); frame_insatt(!reg); frame_bestvel(reg);
#elif SCEN == 2 /* garbage incl. partial syncs before, between and after */
  garbage("\xAA\xAA\x44\x00\xAA\x44", 6); frame_rangecmp(reg); garbage("\xAA", 1); frame_insatt(reg); garbage("\xAA\x44\x12\x1C", 4);
#elif SCEN == 3 /* corrupted frame, then a good one */
  { uint32_t o = head(reg, 140, 4); body(4, 0); bad_crc(o); } 
  frame_rangecmp(!reg);
#elif SCEN == 4 /* corrupted frame whose body contains a good one */
  { uint32_t o = head(reg, 263, 40); frame_rangecmp(false); body(20, 0x55); bad_crc(o); }
#elif SCEN == 5 /* unknown message type is skipped as a whole, embedded lookalike not delivered */
  { uint32_t o = head(reg, 9999, 40); frame_rangecmp(false); nexp = 0; body(20, 0x55); symtail(); good_crc(o); }
  frame_rangecmp(reg);
#elif SCEN == 6 /* regular sync with another header length (symbolic) is not a frame */
  { uint8_t hl = vp_split(vp_u8()); VP_ASSUME(hl != 28); uint32_t o = head(true, 140, 4); st[o + 3] = hl; body(4, 0); good_crc(o); }
  frame_rangecmp(reg);
#elif SCEN == 7 /* truncated frame at the end of the stream: length symbolic beyond what is left */
  frame_rangecmp(reg);
  { uint32_t l = vp_split((uint32_t)vp_range(5, 255)); uint32_t o = head(reg, 140, l); body(4, 0); good_crc(o); }
#elif SCEN == 8 /* empty stream */
#elif SCEN == 9 /* garbage shorter than any frame, symbolic length, symbolic bytes */
  { uint32_t n = vp_split((uint32_t)vp_range(0, 6)); vp_bytes(st, 6); slen = n; }
#endif
  VP_ASSUME(slen <= MAXS);
  Message::CallbackArray cbs{{Message::Callback{Message::INSATT, cb}, Message::Callback{Message::BESTVEL, cb}, Message::Callback{Message::RANGECMP, cb}}};
  Parser parser(readfn, nullptr, cbs, &in_ctx);
  parser.process();
  VP_ASSERT(spos == slen, "whole stream consumed");
  VP_ASSERT(ncb == nexp, "every valid frame delivered");
  VP_REACH("end");
}
