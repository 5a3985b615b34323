/* UBX broadcast navigation data (RXM-SFRBX) to SBP ephemerides. SYS: 0 GPS, 1 BDS, 2 GAL, 3 GLO, 4 SBAS; K frames.
   The bit-level ephemeris decoders belong to libswiftnav: the stand-in records what it is given and returns an arbitrary ephemeris (vp_eph). */
#include "vp.h"
#include <math.h>
#include <string.h>
#include <gnss-converters/ubx_sbp.h>
#include <swiftnav/bytestream.h>
#include "../stubs/swiftdec.h"
static struct ubx_sbp_state s;
static int n, ctx_ok = 1, ctx;
static uint16_t snd;
static uint32_t ty;
static sbp_msg_t out;
static void cb(uint16_t id, sbp_msg_type_t t, const sbp_msg_t *m, void *c) {
  ctx_ok &= c == &ctx && id == snd;
  ty = t;
  out = *m;
  n++;
}
static uint8_t f[12 + 40];
static uint32_t w[10];
static void feed(uint8_t *p, uint32_t len) {
  swiftnav_bytestream_t b;
  swiftnav_bytestream_init(&b, p, len);
  ubx_handle_frame(&b, &s);
}
static void sfrbx(uint32_t gnss, uint32_t sat, uint32_t freq, uint32_t nw) {
  f[0] = 2;
  f[1] = 0x13;
  f[4] = gnss;
  f[5] = sat;
  f[7] = freq;
  f[8] = nw;
  for (uint32_t i = 0; i < nw; i++)
    for (uint32_t k = 0; k < 4; k++) f[12 + 4 * i + k] = w[i] >> 8 * k;
  feed(f, 12 + 4 * nw);
}
static void start(void) {
  snd = vp_u16();
  ubx_sbp_init(&s, cb, &ctx);
  ubx_set_sender_id(&s, snd);
}
#define KEP(X) X(c_rs, crs) X(c_rc, crc) X(c_uc, cuc) X(c_us, cus) X(c_ic, cic) X(c_is, cis) X(dn, dn) X(m0, m0) X(ecc, ecc) X(sqrta, sqrta) X(omega0, omega0) X(omegadot, omegadot) \
  X(w, w) X(inc, inc) X(inc_dot, inc_dot) X(af0, af0) X(af1, af1) X(af2, af2)
static double grid(void) { return (int32_t)vp_u32() / 1048576.0; }
static void draw_eph(void) {
  vp_eph.toe.tow = vp_range(0, 604799);
  vp_eph.toe.wn = vp_range(0, 4000);
  vp_eph.fit_interval = vp_u32();
  vp_eph.health_bits = vp_u8();
  vp_eph.ura = vp_range(0, 6000);
  vp_eph.valid = SYS == 0 ? vp_split(vp_range(0, 1)) : vp_u8();
#if SYS < 3
#define D(a, b) vp_eph.data.kepler.b = grid();
  KEP(D)
  vp_eph.data.kepler.tgd.gps_s[0] = grid();
  vp_eph.data.kepler.tgd.gps_s[1] = grid();
  vp_eph.data.kepler.toc.tow = vp_range(0, 604799);
  vp_eph.data.kepler.toc.wn = vp_range(0, 4000);
  vp_eph.data.kepler.iode = vp_u16();
  vp_eph.data.kepler.iodc = vp_u16();
#else
  ephemeris_glo_t *g = &vp_eph.data.glo;
  g->gamma = grid(), g->tau = grid(), g->d_tau = grid();
  for (int i = 0; i < 3; i++) g->pos[i] = grid(), g->vel[i] = grid(), g->acc[i] = grid();
  g->iod = vp_u8();
#endif
}
#define CLOSE(a, b) ((a) == (__typeof__(a))(b))
static void common(const sbp_ephemeris_common_content_t *c, int sat, int code, double toe, int wn, uint32_t fit, int valid) {
  VP_ASSERT(ctx_ok, "context and sender");
  VP_ASSERT(c->sid.sat == sat && c->sid.code == code, "signal");
  VP_ASSERT(c->toe.tow == (uint32_t)toe && c->toe.wn == wn, "time of ephemeris");
  VP_ASSERT(c->ura == vp_eph.ura, "accuracy");
  VP_ASSERT(c->fit_interval == fit, "fit interval");
  VP_ASSERT(c->valid == valid, "valid");
  VP_ASSERT(c->health_bits == vp_eph.health_bits, "health");
}
#define KCHK(a, b) VP_ASSERT(CLOSE(m->a, vp_eph.data.kepler.b), #a);
#if SYS == 0
void vp_main(void) {
  start();
  draw_eph();
  static uint32_t sf[3][10];
  uint32_t have = 0;
  int sat = vp_split(vp_range(0, 1)) ? 32 : 1, foreign = vp_split(vp_range(0, K));
  for (int k = 0; k < K; k++) {
    for (int i = 0; i < 10; i++) w[i] = vp_u32();
    VP_ASSUME((w[0] >> 22 & 255) == 0x8b);
    uint32_t id;
    if (k == foreign) { /* another satellite, another signal or another subframe */
      id = vp_split(vp_range(0, 3));
      if (id == 3) w[0] ^= 1u << 22;
      w[1] = (w[1] & ~0x700u) | (id == 2 ? 4u : 1u) << 8;
      sfrbx(0, id == 0 ? 33 - sat : id == 1 ? 33 : sat, 0, 10);
      VP_ASSERT(n == 0, "other frames give nothing");
      continue;
    }
    id = vp_split(vp_range(0, 2));
    w[1] = (w[1] & ~0x700u) | (id + 1) << 8;
    sfrbx(0, sat, 0, 10);
    memcpy(sf[id], w, 40);
    have |= 1u << id;
    int emit = 0;
    double tot = 0;
    if (have == 7) {
      uint32_t a = sf[0][7] >> 22 & 255, b = sf[1][2] >> 22 & 255, c = sf[2][9] >> 22 & 255, z = sf[0][1] >> 13 & 0x1ffff;
      if (a != b || b != c)
        have = 1u << id;
      else if (z >= 100800)
        have = 6;
      else {
        emit = 1;
        tot = z ? ((int32_t)z - 1) * 6 : 604794;
        have = 0;
      }
    }
    VP_ASSERT(vp_dec.n == emit, "decoded when and only when subframes 1 to 3 of one issue are there");
    VP_ASSERT(n == (emit && vp_eph.valid), "one ephemeris for each valid set");
    if (emit) {
      VP_REACH("decoded");
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 8; j++) VP_ASSERT(vp_dec.words[8 * i + j] == sf[i][2 + j], "words of the subframes");
      VP_ASSERT(vp_dec.tot == tot, "time of transmission");
      if (n == 1) {
        VP_ASSERT(ty == SbpMsgEphemerisGps, "type");
        sbp_msg_ephemeris_gps_t *m = &out.ephemeris_gps;
        common(&m->common, sat, CODE_GPS_L1CA, vp_eph.toe.tow, vp_eph.toe.wn, vp_eph.fit_interval, 1);
        KEP(KCHK)
        VP_ASSERT(m->tgd == vp_eph.data.kepler.tgd.gps_s[0], "group delay");
        VP_ASSERT(m->toc.tow == (uint32_t)vp_eph.data.kepler.toc.tow && m->toc.wn == vp_eph.data.kepler.toc.wn, "time of clock");
        VP_ASSERT(m->iode == (uint8_t)vp_eph.data.kepler.iode && m->iodc == vp_eph.data.kepler.iodc, "issue of data");
        VP_REACH("sent");
      }
    }
    vp_dec.n = n = 0;
  }
}
#elif SYS == 1
static uint32_t sow(uint32_t *p) { return (p[0] >> 4 & 255) << 12 | (p[1] >> 18 & 0xfff); }
void vp_main(void) {
  start();
  draw_eph();
  static uint32_t sf[3][10];
  uint32_t have = 0;
  int sat = 6 + 52 * vp_split(vp_range(0, 1)), foreign = vp_split(vp_range(0, K));
  for (int k = 0; k < K; k++) {
    for (int i = 0; i < 10; i++) w[i] = vp_u32();
    uint32_t id;
    if (k == foreign) {
      id = vp_split(vp_range(0, 3));
      w[0] = (w[0] & ~0x7000u) | (id == 3 ? 4u : 1u) << 12;
      sfrbx(3, id == 0 ? 64 - sat : id == 1 ? 5 : id == 2 ? 59 : sat, 0, 10);
      VP_ASSERT(n == 0, "other frames give nothing");
      continue;
    }
    id = vp_split(vp_range(0, 2));
    w[0] = (w[0] & ~0x7000u) | (id + 1) << 12;
    sfrbx(3, sat, 0, 10);
    memcpy(sf[id], w, 40);
    have |= 1u << id;
    int emit = 0;
    if (have == 7) {
      uint32_t a = sow(sf[0]), b = sow(sf[1]), c = sow(sf[2]);
      if (a >= 604800)
        have &= ~1u;
      else if (b >= 604800)
        have &= ~2u;
      else if (c >= 604800)
        have &= ~4u;
      else if (b == a + 6 && c == b + 6) {
        emit = 1;
        have = 0;
      }
    }
    VP_ASSERT(vp_dec.n == emit && n == emit, "one ephemeris when and only when subframes 1 to 3 in sequence are there");
    if (emit) {
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 10; j++) VP_ASSERT(vp_dec.words[10 * i + j] == sf[i][j], "words of the subframes");
      VP_ASSERT(ty == SbpMsgEphemerisBds, "type");
      sbp_msg_ephemeris_bds_t *m = &out.ephemeris_bds;
      uint32_t toe = (uint32_t)vp_eph.toe.tow + 14, toc = (uint32_t)vp_eph.data.kepler.toc.tow + 14;
      common(&m->common, sat, CODE_BDS2_B1, toe % 604800, vp_eph.toe.wn + (toe >= 604800), 10800, 1);
      KEP(KCHK)
      VP_ASSERT(m->tgd1 == (float)vp_eph.data.kepler.tgd.bds_s[0] && m->tgd2 == (float)vp_eph.data.kepler.tgd.bds_s[1], "group delays");
      VP_ASSERT(m->toc.tow == toc % 604800 && m->toc.wn == vp_eph.data.kepler.toc.wn + (toc >= 604800), "time of clock");
      VP_ASSERT(m->iode == (uint8_t)vp_eph.data.kepler.iode && m->iodc == vp_eph.data.kepler.iodc, "issue of data");
      VP_REACH("sent");
    }
    vp_dec.n = n = 0;
  }
}
#elif SYS == 2
void vp_main(void) {
  start();
  draw_eph();
  vp_eph.sid.sat = vp_range(1, 36);
  vp_dec.gal_ok = vp_split(vp_range(0, 1));
  static uint32_t pg[5][9];
  uint32_t have = 0;
  int sat = 36, extra = vp_split(vp_range(0, K)), rot = ROT, seq = 0;
  for (int k = 0; k < K; k++) {
    for (int i = 0; i < 9; i++) w[i] = vp_u32();
    int id = (rot + seq) % 5;
    if (k == extra) {
      id = vp_split(vp_range(0, 8));
    } else
      seq++;
    w[0] = (w[0] & 0x00ffffffu) | (uint32_t)(id + 1) << 24;
    w[4] |= 1u << 31;
    if (id >= 5) { /* an alert page, a page that starts odd, one that ends even, another word type */
      w[0] = (w[0] & 0x00ffffffu) | 1u << 24;
      if (id == 5) w[0] |= 1u << 30;
      if (id == 6) w[0] |= 1u << 31;
      if (id == 7) w[4] &= 0x7fffffffu;
      if (id == 8) w[0] ^= 7u << 24;
      sfrbx(2, sat, 0, 9);
      VP_ASSERT(n == 0 && vp_dec.n == 0, "other pages give nothing");
      continue;
    }
    sfrbx(2, sat, 0, 9);
    memcpy(pg[id], w, 36);
    have |= 1u << id;
    if (id != 4)
      for (int i = 0; i < 4; i++)
        if ((pg[i][0] >> 14 & 0x3ff) != (w[0] >> 14 & 0x3ff)) have &= ~(1u << i);
    int emit = have == 31;
    VP_ASSERT(vp_dec.n == emit, "decoded when and only when pages 1 to 5 of one issue are there");
    VP_ASSERT(n == (emit && vp_dec.gal_ok), "one ephemeris for each set");
    if (emit) {
      if (vp_dec.gal_ok) have = 0;
      const uint8_t *b = (const uint8_t *)vp_dec.words;
      for (int i = 0; i < 5; i++) {
        for (int j = 0; j < 14; j++) {
          uint32_t sh = j % 4, v = j % 4 < 3 ? pg[i][j / 4] >> (22 - 8 * sh) : pg[i][j / 4] << 2 | pg[i][j / 4 + 1] >> 30;
          VP_ASSERT(b[16 * i + j] == (v & 255), "word bits of the even part");
        }
        VP_ASSERT(b[16 * i + 14] == (pg[i][4] >> 22 & 255) && b[16 * i + 15] == (pg[i][4] >> 14 & 255), "word bits of the odd part");
      }
      VP_REACH("decoded");
      if (n == 1) {
        VP_ASSERT(ty == SbpMsgEphemerisGal, "type");
        sbp_msg_ephemeris_gal_t *m = &out.ephemeris_gal;
        common(&m->common, vp_eph.sid.sat, CODE_GAL_E1B, vp_eph.toe.tow, vp_eph.toe.wn, vp_eph.fit_interval, vp_eph.valid);
        KEP(KCHK)
        VP_ASSERT(m->bgd_e1e5a == (float)vp_eph.data.kepler.tgd.gal_s[0] && m->bgd_e1e5b == (float)vp_eph.data.kepler.tgd.gal_s[1], "group delays");
        VP_ASSERT(m->toc.tow == (uint32_t)vp_eph.data.kepler.toc.tow && m->toc.wn == vp_eph.data.kepler.toc.wn, "time of clock");
        VP_ASSERT(m->iode == vp_eph.data.kepler.iode && m->iodc == vp_eph.data.kepler.iodc, "issue of data");
        VP_ASSERT(m->source == 0, "I/NAV");
        VP_REACH("sent");
      }
    }
    vp_dec.n = n = 0;
  }
}
#elif SYS == 3
static void rawx(int known, int leap) {
  static uint8_t r[20];
  r[0] = 2;
  r[1] = 0x15;
  r[14] = leap;
  r[16] = known;
  feed(r, 20);
  n = 0;
}
void vp_main(void) {
  start();
  draw_eph();
  static uint32_t st[5][4];
  uint32_t have = 0, frame = 0;
  int known = vp_split(vp_range(0, 1)), late = vp_split(vp_range(0, 1));
  uint8_t leap = vp_u8();
  if (!late) rawx(known, leap);
  int sat = ROT == 1 ? 28 : 1, extra = vp_split(vp_range(0, K)), rot = ROT, seq = 0;
  uint8_t fcn = vp_range(0, 13);
  for (int k = 0; k < K; k++) {
    for (int i = 0; i < 4; i++) w[i] = vp_u32();
    int id = (rot + seq) % 5;
    if (k == extra)
      id = vp_split(vp_range(0, 8));
    else
      seq++;
    if (k == K - 1 && late) rawx(known, leap);
    w[0] = (w[0] & 0x07ffffffu) | (uint32_t)(id + 1) << 27;
    if (id >= 5) { /* string numbers 0, 6 and 15, an idle one */
      w[0] = (w[0] & 0x07ffffffu) | (id == 5 ? 0u : id == 6 ? 6u : id == 7 ? 15u : 17u) << 27;
      sfrbx(6, sat, fcn, 4);
      VP_ASSERT(n == 0 && vp_dec.n == 0, "other strings give nothing");
      continue;
    }
    sfrbx(6, sat, fcn, 4);
    memcpy(st[id], w, 16);
    if (frame != w[3] >> 16) have = 0;
    frame = w[3] >> 16;
    have |= 1u << id;
    int emit = have == 31 && known && (!late || k == K - 1);
    VP_ASSERT(vp_dec.n == emit && n == emit, "one ephemeris when and only when strings 1 to 5 of one superframe and the leap second are known");
    if (emit) {
      have = 0;
      for (int i = 0; i < 5; i++)
        for (int j = 0; j < 85; j++) {
          int q = 84 - j;
          VP_ASSERT((vp_dec.words[3 * i + j / 32] >> j % 32 & 1) == (st[i][q / 32] >> (31 - q % 32) & 1), "bits of the strings");
        }
      VP_ASSERT(vp_dec.leap == (int8_t)leap, "leap second");
      VP_ASSERT(ty == SbpMsgEphemerisGlo, "type");
      sbp_msg_ephemeris_glo_t *m = &out.ephemeris_glo;
      ephemeris_glo_t *g = &vp_eph.data.glo;
      common(&m->common, sat, CODE_GLO_L1OF, vp_eph.toe.tow, vp_eph.toe.wn, vp_eph.fit_interval, vp_eph.valid);
      for (int i = 0; i < 3; i++) VP_ASSERT(m->pos[i] == g->pos[i] && m->vel[i] == g->vel[i] && m->acc[i] == (float)g->acc[i], "state vector");
      VP_ASSERT(m->gamma == (float)g->gamma && m->tau == (float)g->tau && m->d_tau == (float)g->d_tau, "clock");
      VP_ASSERT(m->iod == g->iod, "issue of data");
      VP_ASSERT(m->fcn == fcn + 1, "frequency");
      VP_REACH("sent");
    }
    vp_dec.n = n = 0;
  }
}
#else
static uint32_t crc(void) {
  uint32_t c = 0;
  for (uint32_t i = 0; i < 226; i++) {
    c = c << 1 ^ (w[i / 32] >> (31 - i % 32) & 1) << 24;
    if (c & 0x1000000) c ^= 0x1864CFB;
  }
  return c & 0xFFFFFF;
}
void vp_main(void) {
  static uint8_t p[96];
  start();
  uint32_t known = vp_split(vp_range(0, 1)), tow = vp_u32(), nw = vp_split(vp_range(7, 10)), sat = vp_split(vp_range(0, 3));
  sat = sat == 0 ? 119 : sat == 1 ? 120 : sat == 2 ? 158 : 159;
  if (known) {
    p[0] = 1;
    p[1] = 7;
    for (int i = 0; i < 4; i++) p[4 + i] = tow >> 8 * i;
    VP_ASSUME(tow != 604800000);
    feed(p, 96);
    n = 0;
  }
  for (int i = 0; i < 10; i++) w[i] = vp_u32();
#ifdef GOOD
  w[7] = (w[7] & 0xC000003F) | crc() << 6;
#endif
  sfrbx(1, sat, 0, nw);
  uint32_t pre = w[0] >> 24;
  int ok = known && tow < 604800000 && (nw == 8 || nw == 9) && sat >= 120 && sat <= 158 && (pre == 0x53 || pre == 0x9A || pre == 0xC6) && (w[7] >> 6 & 0xFFFFFF) == crc();
  VP_ASSERT(n == ok, "one message for each frame with a preamble and a matching checksum");
  if (n) {
    VP_ASSERT(ctx_ok && ty == SbpMsgSbasRaw, "context, sender and type");
    sbp_msg_sbas_raw_t *m = &out.sbas_raw;
    VP_ASSERT(m->sid.sat == sat && m->sid.code == CODE_SBAS_L1CA, "signal");
    VP_ASSERT(m->tow == (tow >= 1120 ? tow - 1120 : tow + 604800000 - 1120), "time: 1.12 s before the last solution");
    VP_ASSERT(m->message_type == (w[0] >> 18 & 63), "message type");
    for (uint32_t i = 0; i < 212; i++) VP_ASSERT((m->data[i / 8] >> (7 - i % 8) & 1) == (w[(i + 14) / 32] >> (31 - (i + 14) % 32) & 1), "data bits");
    VP_ASSERT((m->data[26] & 15) == 0, "padding");
    VP_REACH("sent");
  }
  VP_REACH("done");
}
#endif
