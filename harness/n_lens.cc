/* Parser robustness: a frame with a correct CRC and any declared length, and
 * arbitrary short streams, never make the parser read outside what it
 * received, abort, loop or deliver something of the wrong shape. */
#include "vp.h"
#include <string.h>
#include "crc_checker.h"
#include "parser.h"
#include "message_rangecmp.h"
#include <new>
using namespace Novatel;
#define MAXS 300
static uint8_t st[MAXS];
static uint32_t slen, spos, ncb, nlog, nreads;
static int readfn(uint8_t *buf, uint32_t n, void *) {
  VP_ASSERT(++nreads < 2 * MAXS + 10, "parser terminates");
  VP_ASSERT(n > 0 && n <= 4096, "a read of sane size is requested");
  uint32_t k = slen - spos < n ? slen - spos : n;
  memcpy(buf, st + spos, k);
  spos += k;
  return (int)k;
}
static void logfn(const char *s) { VP_ASSERT(s != nullptr && strnlen(s, 256) < 256, "log line terminated"); nlog++; }
static uint32_t blen(uint32_t id) {
  switch (id) { case 7: return 224; case 42: return 72; case 99: return 44; case 263: return 40; case 723: return 144; case 1462: return 40; }
  return 0;
}
static uint32_t okframe;
static void cb(const BinaryHeader *h, const void *) {
  ncb++;
  if (h->message_id == 140) return;
  VP_ASSERT(h->message_len == blen(h->message_id), "only bodies of the message's own length are delivered");
}
extern "C" void vp_main(void) {
  slen = spos = ncb = nlog = nreads = 0;
#if MODE == 1 /* one frame, correct CRC, symbolic length and message id among the known ones and one unknown */
  static const uint32_t ids[8] = {7, 42, 99, 140, 263, 723, 1462, 5000};
  uint32_t id = ids[ID], L = vp_split((uint32_t)vp_range(LO, HI));
#ifdef REG
  const uint32_t hl = 28;
  st[0] = 0xAA; st[1] = 0x44; st[2] = 0x12; st[3] = 28; st[4] = id; st[5] = id >> 8; st[8] = L; st[9] = L >> 8;
#else
  const uint32_t hl = 12;
  st[0] = 0xAA; st[1] = 0x44; st[2] = 0x13; st[3] = L; st[4] = id; st[5] = id >> 8;
#endif
  for (uint32_t i = 0; i < L && i < 4; i++) st[hl + i] = vp_u8();
  if (L > 0) { /* no accidental frame start inside */ VP_ASSUME(st[hl] != 0xAA); if (L > 1) VP_ASSUME(st[hl+1] != 0xAA); if (L > 2) VP_ASSUME(st[hl+2] != 0xAA); if (L > 3) VP_ASSUME(st[hl+3] != 0xAA); }
  uint32_t c = CrcChecker::get_crc(st, hl + L);
  for (int i = 0; i < 4; i++) st[hl + L + i] = c >> (8 * i);
  slen = hl + L + 4;
  uint32_t want = 0;
  if (id == 140) { uint32_t n = st[hl] | st[hl + 1] << 8 | st[hl + 2] << 16 | (uint32_t)st[hl + 3] << 24; want = L >= 4 && n < 1000 && L == 4 + 24 * n; }
  else want = L == blen(id) && id != 5000;
#else /* arbitrary short stream */
  slen = N;
  vp_bytes(st, N);
#ifdef START
  st[0] = 0xAA; st[1] = 0x44; st[2] = START;
  uint32_t want = 99;
#else
  uint32_t want = 0;
#endif
#endif
  Message::CallbackArray cbs{{Message::Callback{Message::GPSEPHEM, cb}, Message::Callback{Message::BESTPOS, cb}, Message::Callback{Message::BESTVEL, cb},
     Message::Callback{Message::RANGECMP, cb}, Message::Callback{Message::INSATT, cb}, Message::Callback{Message::GLOEPHEMERIS, cb}, Message::Callback{Message::RAWIMUSX, cb}}};
  static uint64_t raw[(sizeof(Parser) + 7) / 8];
  Parser *parser = new (raw) Parser(readfn, LOGF, cbs, nullptr);
  parser->process();
  VP_ASSERT(spos == slen, "whole stream consumed");
  if (want != 99) VP_ASSERT(ncb == want, "delivered exactly when the body length is the message's");
  VP_REACH("end");
}
