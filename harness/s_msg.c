/* Conversion of the station, text and proprietary RTCM messages to SBP through rtcm2sbp_decode_payload / rtcm2sbp_decode_frame. A selects the case. */
#include <gnss-converters/rtcm3_sbp.h>
#include <rtcm3/decode.h>
#include <stdlib.h>
#include <string.h>
#include "rspec.h"
#include "rtcmconv.h"
static struct rtcm3_sbp_state st;
static time_truth_t tt;
static int ctx, n_msg, n_log, bad;
static struct { uint16_t sender; sbp_msg_type_t type; sbp_msg_t m; } rec[3];
void vp_env(void) {}
static sbp_msg_sbas_raw_t raw;
static void cb(uint16_t sender, sbp_msg_type_t type, const sbp_msg_t *m, void *c) {
  bad |= c != &ctx;
  if (type == SbpMsgLog) n_log++;
#if A == 8
  if (type != SbpMsgLog) return;
#endif
  if (n_msg < 3) {
    rec[n_msg].sender = sender;
    rec[n_msg].type = type;
    if (type == SbpMsgBasePosEcef) rec[n_msg].m.base_pos_ecef = m->base_pos_ecef;
    if (type == SbpMsgGloBiases) rec[n_msg].m.glo_biases = m->glo_biases;
    if (type == SbpMsgSbasRaw) raw = m->sbas_raw;
    if (type == SbpMsgLog) rec[n_msg].m.log = m->log;
#if A == 7
    rec[n_msg].m.base_pos_ecef.x = m->base_pos_ecef.x;
#endif
  }
  n_msg++;
}
static uint8_t p[1100];
static void solved(s16 wn, double tow) {
  st.use_time_from_input_obs = true;
  st.time_from_input_data.wn = wn;
  st.time_from_input_data.tow = tow;
}
static uint16_t head(uint16_t num) {
  uint16_t stn = vp_u16() & 0xFFF;
  rs_put(p, 0, 12, num);
  rs_put(p, 12, 12, stn);
  return stn | 0xF080;
}
#if A == 5 || A == 6
static uint32_t m1033(const char *rcv) {
  uint32_t pos = 24, n = (uint32_t)strlen(rcv);
  static const char *f[] = {"TRM59800.00 SCIS", "5037", NULL, "NAVCOM 5.2", "LEICA"}; /* names in other fields do not count */
  for (int i = 0; i < 5; i++) {
    const char *s = f[i] ? f[i] : rcv;
    uint32_t l = (uint32_t)strlen(s);
    rs_put(p, pos, 8, l);
    pos += 8;
    for (uint32_t k = 0; k < l; k++, pos += 8) rs_put(p, pos, 8, (uint8_t)s[k]);
    if (i == 0) {
      rs_put(p, pos, 8, 3);
      pos += 8;
    }
  }
  (void)n;
  return pos / 8;
}
#endif
void vp_main(void) {
  use_all();
  time_truth_init(&tt);
  rtcm2sbp_init(&st, &tt, cb, NULL, &ctx);
#if A == 1 /* nothing but the listed messages goes through before the time is known */
  static const uint16_t ok[] = {1005, 1006, 1029, 4062, 4075, 1019, 1042, 1045, 1046};
  uint16_t num = vp_u16() & 0xFFF;
  for (unsigned i = 0; i < sizeof ok / 2; i++) VP_ASSUME(num != ok[i]);
  for (int s = 107; s <= 112; s++) VP_ASSUME(num < s * 10 + 1 || num > s * 10 + 3);
  vp_bytes(p, 64);
  rs_put(p, 0, 12, num);
  rtcm2sbp_decode_payload(p, 64, &st);
  VP_ASSERT(n_msg == 0, "no output before the time is known");
#elif A == 2
  if (vp_split(vp_u8() & 1)) solved(2100, 345678.5);
  bool six = vp_split(vp_u8() & 1);
  uint32_t n = six ? 21 : 19;
  vp_bytes(p, 21);
  uint16_t sender = head(six ? 1006 : 1005);
  swiftnav_bitstream_t b;
  swiftnav_bitstream_init(&b, p, n * 8);
  rtcm_msg_1005 d;
  rtcm_msg_1006 d6;
  if (six) {
    VP_ASSERT(rtcm3_decode_1006_bitstream(&b, &d6) == RC_OK, "decodes");
    d = d6.msg_1005;
  } else {
    VP_ASSERT(rtcm3_decode_1005_bitstream(&b, &d) == RC_OK, "decodes");
  }
  rtcm2sbp_decode_payload(p, n, &st);
  VP_ASSERT(n_msg == 1 && !bad && rec[0].type == SbpMsgBasePosEcef, "one base position");
  VP_ASSERT(rec[0].sender == sender, "sender of the station");
  sbp_msg_base_pos_ecef_t *e = &rec[0].m.base_pos_ecef;
  VP_ASSERT(!memcmp(&e->x, &d.arp_x, 8) && !memcmp(&e->y, &d.arp_y, 8) && !memcmp(&e->z, &d.arp_z, 8), "the reference point");
  rtcm2sbp_decode_payload(p, n - 1, &st);
  VP_ASSERT(n_msg == 1, "a message cut short gives nothing");
#elif A == 3 /* text */
  static const uint8_t lens[] = {0, 1, 2, 246, 247, 248, 249, 250, 251, 255};
  uint32_t n = lens[vp_split(vp_range(0, 9))], want = n;
  uint16_t sender = head(1029);
  rs_put(p, 24, 16, vp_u16());
  rs_put(p, 57, 7, 5);
  rs_put(p, 64, 8, n);
  uint8_t *u = p + 9;
  memset(u, 'a', n);
  if (n > 248)
    for (uint32_t i = 243; i < n; i++) u[i] = vp_u8();
  else if (n > 0)
    u[n - 1] = vp_u8();
  if (n > 248) {
    /* at most three continuation bytes in a row, as in every UTF-8 text */
    VP_ASSUME((u[245] & 0xC0) != 0x80 || (u[246] & 0xC0) != 0x80 || (u[247] & 0xC0) != 0x80 || (u[248] & 0xC0) != 0x80);
    want = 248;
    while ((u[want] & 0xC0) == 0x80) want--;
  }
  want = vp_split(want);
  rtcm2sbp_decode_payload(p, 9 + n, &st);
  VP_ASSERT(n_msg == 1 && !bad && rec[0].type == SbpMsgLog && rec[0].sender == sender, "one log message of the station");
  sbp_msg_log_t *l = &rec[0].m.log;
  VP_ASSERT(l->level == 6, "information level");
  VP_ASSERT(l->text.encoded_len == 6 + want, "the text is cut only where it is too long and only between characters");
  VP_ASSERT(!memcmp(l->text.data, "RTCM: ", 6), "prefix");
  uint32_t ne = 0;
  for (uint32_t i = 0; i < want; i++) ne |= (uint8_t)l->text.data[6 + i] ^ u[i];
  VP_ASSERT(ne == 0, "text unchanged");
#elif A == 4 /* GLONASS biases */
  solved(2100, 345678.5);
  uint16_t sender = head(1230);
  uint8_t mask = (uint8_t)vp_split(vp_u8() & 15);
  bool aligned = vp_u8() & 1;
  rs_put(p, 24, 1, aligned);
  rs_put(p, 25, 3, vp_u8());
  rs_put(p, 28, 4, mask);
  static const int16_t v[] = {0, 1, -1, 953, -3597, 5850, 9350, 32767, -32768, 49, 50, -51, 12345, -20000, 257, -256};
  int16_t want[4] = {0};
  uint32_t pos = 32, r = vp_split(vp_range(0, 15));
  for (uint32_t i = 0; i < 4; i++)
    if (mask >> (3 - i) & 1) {
      want[i] = v[(r + i) * 5 % 16];
      rs_put(p, pos, 16, (uint16_t)want[i]);
      pos += 16;
    }
  rtcm2sbp_decode_payload(p, pos / 8, &st);
  VP_ASSERT(n_msg == 1 && !bad && rec[0].type == SbpMsgGloBiases && rec[0].sender == sender, "one bias message of the station");
  sbp_msg_glo_biases_t *g = &rec[0].m.glo_biases;
  VP_ASSERT(g->mask == mask, "mask");
  VP_ASSERT(g->l1ca_bias == (aligned ? 0 : want[0]) && g->l1p_bias == (aligned ? 0 : want[1]) && g->l2ca_bias == (aligned ? 0 : want[2]) && g->l2p_bias == (aligned ? 0 : want[3]), "biases in 2 cm steps, zero when the station has aligned its measurements");
#elif A == 5 /* 1230 within two minutes silences 1033 */
  static const double dt[] = {0, 1, 119.75, 120, 120.25, 200, 86400, -1, -604800, 604000};
  static const double t0[] = {1000, 604799.5};
  double tow = t0[vp_split(vp_range(0, 1))], d = dt[vp_split(vp_range(0, 9))];
  solved(2100, tow);
  bool first = vp_split(vp_u8() & 1);
  uint32_t n = 0;
  if (first) {
    head(1230);
    rs_put(p, 24, 8, vp_split(vp_u8() & 1) ? 0x80 : 0);
    rtcm2sbp_decode_payload(p, 4, &st);
    VP_ASSERT(n_msg == 1, "1230 is converted");
    n_msg = 0;
    tow += d;
    s16 wn = 2100;
    while (tow < 0) tow += 604800, wn--;
    while (tow >= 604800) tow -= 604800, wn++;
    solved(wn, tow);
  }
  uint16_t sender = head(1033);
  n = m1033("TRIMBLE NETR9");
  rtcm2sbp_decode_payload(p, n, &st);
  bool want = !first || d > 120;
  VP_ASSERT(n_msg == (want ? 1 : 0), "1033 counts only without a 1230 in the last two minutes");
  if (want) VP_ASSERT(rec[0].type == SbpMsgGloBiases && rec[0].sender == sender, "bias message of the station");
#elif A == 6 /* receiver names */
  static const struct { const char *n; u8 mask; s16 a, b, c, d; } T[] = {
    {"Geo++ GNSMART (GLO=ASH)", 9, -735, 0, 0, -810}, {"Geo++ GNSMART (GLO=HEM)", 9, -15, 0, 0, 175}, {"Geo++ GNSMART (GLO=JAV)", 9, -75, 0, 0, -405},
    {"Geo++ GNSMART (GLO=JPS)", 9, -185, 0, 0, 35}, {"Geo++ GNSMART (GLO=LEI)", 9, -3535, 0, 0, -3315}, {"Geo++ GNSMART (GLO=NOV)", 9, -3535, 0, 0, -3315},
    {"Geo++ GNSMART (GLO=NAV)", 9, 20, 0, 0, 105}, {"Geo++ GNSMART (GLO=NVR)", 9, 5835, 0, 0, 9350}, {"Geo++ GNSMART (GLO=SEP)", 9, 0, 0, 0, 0},
    {"Geo++ GNSMART (GLO=SOK)", 9, -3535, 0, 0, -3315}, {"Geo++ GNSMART (GLO=TPS)", 9, -128, 0, 0, 187}, {"Geo++ GNSMART (GLO=TRM)", 9, 940, 0, 0, 1160},
    {"TRIMBLE NETR9", 15, 953, 953, 953, 953}, {"ASHTECH Z-XII3", 15, 953, 953, 953, 953}, {"LEICA GRX1200+GNSS", 15, -3597, -3597, -3597, -3597}, {"NOV OEM6", 15, -3597, -3597, -3597, -3597},
    {"GEOMAX ZENITH", 15, -3597, -3597, -3597, -3597}, {"SEPT POLARX5", 15, 0, 0, 0, 0}, {"TPS NET-G5", 9, 0, 0, 0, 0}, {"JAVAD TRE_G3TH", 9, -75, 0, 0, -405},
    {"NAVCOM SF-3050", 9, 20, 0, 0, 105}, {"HEMISPHERE P307", 9, -10, 0, 0, 170}, {"SWIFT PIKSI MULTI", 0, 0, 0, 0, 0}, {"", 0, 0, 0, 0, 0}, {"Geo++ GNSMART", 0, 0, 0, 0, 0}, {"trimble", 0, 0, 0, 0, 0}};
  int i = (int)vp_split(vp_range(0, (int)(sizeof T / sizeof *T) - 1)), pre = (int)vp_split(vp_range(0, 2));
  solved(2100, 345678.5);
  char s[40] = {0};
  memset(s, 'x', (size_t)pre);
  strcpy(s + pre, T[i].n);
  if (pre == 2) strcat(s, " 1");
  uint16_t sender = head(1033);
  uint32_t n = m1033(s);
  rtcm2sbp_decode_payload(p, n, &st);
  VP_ASSERT(n_msg == 1 && !bad && rec[0].type == SbpMsgGloBiases && rec[0].sender == sender, "one bias message of the station");
  sbp_msg_glo_biases_t *g = &rec[0].m.glo_biases;
  VP_ASSERT(g->mask == T[i].mask && g->l1ca_bias == T[i].a && g->l1p_bias == T[i].b && g->l2ca_bias == T[i].c && g->l2p_bias == T[i].d, "biases of the receiver");
#elif A == 7 /* SBP carried in 4062 */
  if (vp_split(vp_u8() & 1)) solved(2100, 345678.5);
  static const uint8_t lens[] = {0, 1, 9, 254, 255};
  uint32_t n = lens[vp_split(vp_range(0, 4))];
  uint16_t type = vp_u16(), sender = vp_u16();
  VP_ASSUME(type != SbpMsgLog && type != SbpMsgGloBiases && type != SbpMsgSbasRaw);
  uint8_t res = vp_split(vp_u8() & 15);
  VP_ASSUME(res <= 1 || res == 8);
  rs_put(p, 0, 12, 4062);
  rs_put(p, 12, 4, res);
  rs_put(p, 16, 16, type);
  rs_put(p, 32, 16, sender);
  rs_put(p, 48, 8, n);
  vp_bytes(p + 7, n);
  vp_rc.dec_ret = vp_split(vp_u8() & 1) ? SBP_OK : -1;
  vp_rc.dec_mark = 7.25;
  rtcm2sbp_decode_payload(p, 7 + n, &st);
  VP_ASSERT(vp_rc.dec_n == (res == 0), "decoded once when the format is known");
  VP_ASSERT(n_msg == (res == 0 && vp_rc.dec_ret == SBP_OK), "delivered when it decodes");
  if (res == 0) {
    uint32_t ne = 0;
    for (uint32_t i = 0; i < n; i++) ne |= vp_rc.dec_buf[i] ^ p[7 + i];
    VP_ASSERT(vp_rc.dec_len == n && vp_rc.dec_type == type && ne == 0, "payload and type unchanged");
    if (vp_rc.dec_ret == SBP_OK) VP_ASSERT(!bad && rec[0].type == type && rec[0].sender == sender && rec[0].m.base_pos_ecef.x == 7.25, "its own type, sender and contents");
  }
  int k = n_msg;
  if (n > 0) rtcm2sbp_decode_payload(p, 6 + n, &st);
  VP_ASSERT(n_msg == k, "a message cut short gives nothing");
#elif A == 8 /* MSM1-3 */
  if (vp_split(vp_u8() & 1)) solved(2100, 345678.5);
  static const char txt[] = "MSM1-3 Messages currently not supported";
  uint16_t want = 0;
  for (int i = 0; i < 3; i++) {
    vp_bytes(p, 12);
    uint16_t s = head((uint16_t)(1071 + 10 * vp_split(vp_range(0, 5)) + vp_split(vp_range(0, i == 0 ? 2 : 0))));
    if (i == 0) want = s;
    rtcm2sbp_decode_payload(p, 12, &st);
  }
  VP_ASSERT(n_log == 1 && n_msg == 1 && !bad && rec[0].sender == want, "one warning only, from the station");
  VP_ASSERT(rec[0].m.log.level == 4 && rec[0].m.log.text.encoded_len == 39 && !memcmp(rec[0].m.log.text.data, txt, 39), "warning text");
#elif A == 9 /* frames of any length */
  solved(2100, 345678.5);
  uint32_t n = vp_split(vp_range(0, 9));
  uint8_t *f = malloc(n ? n : 1);
  vp_bytes(f, n);
  if (n >= 5) {
    VP_ASSUME((f[1] & 3) == 0 && f[2] <= 7);
    VP_ASSUME(f[3] == (CUTNUM >> 4) && f[4] >> 4 == (CUTNUM & 15));
  }
  bool whole = n >= 3 && (uint32_t)((f[1] & 3) << 8 | f[2]) + 3 <= n;
  rtcm2sbp_decode_frame(f, n, &st);
  VP_ASSERT(whole || n_msg == 0, "nothing from a frame cut short");
  free(f);
#elif A == 10 /* payloads of any length and contents */
  solved(2100, 345678.5);
  uint32_t n = vp_split(vp_range(0, 7));
  uint8_t *f = malloc(n ? n : 1);
  vp_bytes(f, n);
  rtcm2sbp_decode_payload(f, n, &st);
  free(f);
#elif A == 11 /* navigation frames: lengths */
  uint32_t n = vp_split(vp_range(4, 20)) * 4;
  uint8_t *f = malloc(n);
  for (uint32_t i = 0; i < n; i++) f[i] = (uint8_t)(i * 7);
  f[0] = 4075 >> 4;
  f[1] = (uint8_t)((4075 & 15) << 4 | (vp_u8() & 15));
  f[2] = vp_u8();
  uint32_t k = vp_split(vp_range(0, 2)), w = 32 * vp_split(vp_range(0, 9));
  rs_put(f, 24, 8, k);
  if (n >= 12) {
    rs_put(f, 32, 4, vp_u8());
    rs_put(f, 82, 12, w);
  }
  rtcm2sbp_decode_payload(f, n, &st);
  VP_ASSERT(n_msg == 0, "no output without a frame of right checksum");
  free(f);
#elif A == 12 /* SBAS raw data in navigation frames */
  if (vp_split(vp_u8() & 1)) solved(2100, 345678.5);
  static const uint8_t pre[] = {0x53, 0x9A, 0xC6, 0x54, 0};
  uint8_t msg[32], pr = pre[vp_split(vp_range(0, 4))], mt = (uint8_t)vp_split(vp_range(0, 3)) * 21;
  for (int i = 0; i < 32; i++) msg[i] = (uint8_t)(i * 91 + 7);
  rs_put(msg, 0, 8, pr);
  rs_put(msg, 8, 6, mt);
  uint32_t c = 0; /* CRC-24Q over the first 226 bits */
  for (int i = 0; i < 226; i++) {
    c = c << 1 ^ ((((c >> 23) ^ (msg[i / 8] >> (7 - i % 8))) & 1) ? 0x864CFB : 0);
    c &= 0xFFFFFF;
  }
  uint32_t e = vp_u32() & 0xFFFFFF;
  rs_put(msg, 226, 24, c ^ e);
  uint8_t sys = vp_u8() & 15, num = vp_u8() & 63;
  uint32_t ep = vp_u32() & 0x3FFFFFFF, nw = 7 + vp_split(vp_range(0, 3));
  uint16_t sender = head(4075);
  rs_put(p, 24, 2, 0);
  rs_put(p, 26, 6, 2);
  uint32_t pos = 32;
  rs_put(p, pos, 4, 0); /* a GPS frame of 40 bits first */
  rs_put(p, pos + 50, 12, 40);
  pos += 62 + 40;
  rs_put(p, pos, 4, sys);
  rs_put(p, pos + 4, 6, num);
  rs_put(p, pos + 19, 30, ep);
  rs_put(p, pos + 50, 12, nw * 32);
  for (int i = 0; i < 32; i++) rs_put(p, pos + 62 + 8u * (uint32_t)i, 8, msg[i]);
  pos += 62 + nw * 32;
  rtcm2sbp_decode_payload(p, (pos + 7) / 8, &st);
  bool want = sys == 3 && num < 39 && e == 0 && pr != 0x54 && pr != 0 && (nw == 8 || nw == 9);
  VP_ASSERT(n_msg == want, "an SBAS message of good preamble and checksum goes through once, nothing else does");
  if (want) {
    VP_ASSERT(!bad && rec[0].type == SbpMsgSbasRaw && rec[0].sender == sender, "type and sender");
    sbp_msg_sbas_raw_t *r = &raw;
    VP_ASSERT(r->sid.code == CODE_SBAS_L1CA && r->sid.sat == 120 + num && r->tow == ep && r->message_type == mt, "satellite, time and type");
    uint32_t ne = 0;
    rs_start(msg);
    rs_pos = 14;
    for (int i = 0; i < 26; i++) ne |= r->data[i] ^ (uint8_t)rs_u(8);
    ne |= (r->data[26] >> 4) ^ (uint8_t)rs_u(4);
    VP_ASSERT(ne == 0, "data");
  }
#endif
  VP_REACH("end");
}
