/* Decoding of the fixed and string messages: every field, truncation, message number. MSG selects the message. */
#include "rspec.h"
#include <stdlib.h>
#include <rtcm3/decode.h>
#define CAT2(a, b, c) a##b##c
#define CAT(a, b, c) CAT2(a, b, c)
#define DECODE CAT(rtcm3_decode_, MSG, _bitstream)
#if MSG == 4062
typedef rtcm_msg_swift_proprietary msg_t;
#else
typedef CAT(rtcm_msg_, MSG, ) msg_t;
#endif
static uint8_t spec[600];
static uint32_t nbits; /* message length in bits */
/* which lengths of a counted part are explored */
static uint32_t count(uint32_t max) {
  uint32_t n = vp_u8();
  VP_ASSUME(n <= max);
  VP_ASSUME(n <= 4 || (n > 29 && n <= 36) || (n > 126 && n < 130) || n > max - 3);
  return vp_split(n);
}
static void string_eq(const char *got, uint8_t n, uint8_t counter) {
  VP_ASSERT(counter == n, "string length");
  for (uint32_t i = 0; i < n; i++) VP_ASSERT((uint8_t)got[i] == (uint8_t)rs_u(8), "string content");
}
void vp_main(void) {
  static msg_t m;
  uint32_t n[5] = {0, 0, 0, 0, 0}, ns = 0;
  vp_bytes(spec, sizeof(spec));
  rs_put(spec, 0, 12, MSG);
  (void)string_eq; (void)ns; (void)n;
  /* lay out the counted parts */
#if MSG == 1005
  nbits = 152;
#elif MSG == 1006
  nbits = 168;
#elif MSG == 1007 || MSG == 1008 || MSG == 1033
  nbits = 24;
#if MSG == 1007
  ns = 1;
#elif MSG == 1008
  ns = 2;
#else
  ns = 5;
#endif
  for (uint32_t i = 0; i < ns; i++) {
    if (ns < 5) n[i] = count(255);
    else { n[i] = i == WHICH ? count(255) : i; }
    rs_put(spec, nbits, 8, n[i]);
    nbits += 8;
    if (n[i] > 32) { ns = i + 1; break; } /* rejected here */
    nbits += 8 * n[i] + (i == 0 ? 8 : 0);
  }
#elif MSG == 1029
  n[0] = count(255);
  rs_put(spec, 64, 8, n[0]);
  nbits = 72 + 8 * n[0];
#elif MSG == 1230
  n[0] = vp_split(vp_u8() & 15);
  rs_put(spec, 28, 4, n[0]);
  nbits = 32 + 16 * ((n[0] & 1) + (n[0] >> 1 & 1) + (n[0] >> 2 & 1) + (n[0] >> 3 & 1));
#elif MSG == 4062
  n[0] = count(255);
  rs_put(spec, 48, 8, n[0]);
  nbits = 56 + 8 * n[0];
#endif
  uint32_t full = (nbits + 7) / 8, len = full;
  /* every shorter length for small messages, cuts at the ends for long ones */
#ifdef CUT
  uint32_t cut = vp_u16();
  VP_ASSUME(cut >= 1 && cut <= full);
  VP_ASSUME(full < 30 || cut < 4 || cut > full - 12);
  len = full - vp_split(cut);
#endif
  uint8_t *b = malloc(len ? len : 1);
  for (uint32_t i = 0; i < len; i++) b[i] = spec[i];
  swiftnav_bitstream_t s;
  swiftnav_bitstream_init(&s, b, len * 8);
  memset(&m, 0x5a, sizeof(m));
  int rc = DECODE(&s, &m);
#ifdef CUT
  VP_ASSERT(rc == RC_INVALID_MESSAGE, "a truncated message is rejected");
#else
  rs_start(spec);
  rs_pos = 12;
#if MSG == 1005 || MSG == 1006
#if MSG == 1006
  rtcm_msg_1005 *p = &m.msg_1005;
#else
  rtcm_msg_1005 *p = &m;
#endif
  VP_ASSERT(rc == RC_OK, "complete message accepted");
  EQ(p->stn_id, rs_u(12), "station id");
  EQ(p->ITRF, rs_u(6), "ITRF year");
  EQ(p->GPS_ind, rs_u(1), "GPS indicator");
  EQ(p->GLO_ind, rs_u(1), "GLONASS indicator");
  EQ(p->GAL_ind, rs_u(1), "Galileo indicator");
  EQ(p->ref_stn_ind, rs_u(1), "reference station indicator");
  EQ(p->arp_x, (double)rs_s(38) / 10000.0, "ARP x is tenths of millimetres");
  EQ(p->osc_ind, rs_u(1), "oscillator indicator");
  rs_u(1);
  EQ(p->arp_y, (double)rs_s(38) / 10000.0, "ARP y");
  EQ(p->quart_cycle_ind, rs_u(2), "quarter cycle indicator");
  EQ(p->arp_z, (double)rs_s(38) / 10000.0, "ARP z");
#if MSG == 1006
  EQ(m.ant_height, (double)(uint32_t)rs_u(16) / 10000.0, "antenna height");
#endif
#elif MSG == 1007 || MSG == 1008 || MSG == 1033
  int bad = 0;
  for (uint32_t i = 0; i < ns; i++) bad |= n[i] > 32;
  if (bad) VP_ASSERT(rc == RC_INVALID_MESSAGE, "an oversized string is rejected");
  else {
    VP_ASSERT(rc == RC_OK, "complete message accepted");
#if MSG == 1008
    rtcm_msg_1007 *p = &m.msg_1007;
#else
    msg_t *p = &m;
#endif
    EQ(p->stn_id, rs_u(12), "station id");
    rs_u(8);
    string_eq(p->ant_descriptor, (uint8_t)n[0], p->ant_descriptor_counter);
    EQ(p->ant_setup_id, rs_u(8), "setup id");
#if MSG != 1007
    rs_u(8);
    string_eq(m.ant_serial_num, (uint8_t)n[1], m.ant_serial_num_counter);
#endif
#if MSG == 1033
    rs_u(8);
    string_eq(m.rcv_descriptor, (uint8_t)n[2], m.rcv_descriptor_counter);
    rs_u(8);
    string_eq(m.rcv_fw_version, (uint8_t)n[3], m.rcv_fw_version_counter);
    rs_u(8);
    string_eq(m.rcv_serial_num, (uint8_t)n[4], m.rcv_serial_num_counter);
#endif
  }
#elif MSG == 1029
  VP_ASSERT(rc == RC_OK, "complete message accepted");
  EQ(m.stn_id, rs_u(12), "station id");
  EQ(m.mjd_num, rs_u(16), "modified Julian day");
  EQ(m.utc_sec_of_day, rs_u(17), "second of day");
  EQ(m.unicode_chars, rs_u(7), "number of characters");
  EQ(m.utf8_code_units_n, rs_u(8), "number of code units");
  for (uint32_t i = 0; i < n[0]; i++) EQ(m.utf8_code_units[i], rs_u(8), "text");
#elif MSG == 1230
  VP_ASSERT(rc == RC_OK, "complete message accepted");
  EQ(m.stn_id, rs_u(12), "station id");
  EQ(m.bias_indicator, rs_u(1), "bias indicator");
  rs_u(3);
  EQ(m.fdma_signal_mask, rs_u(4), "signal mask");
  EQ(m.L1_CA_cpb_meter, n[0] & 8 ? (double)(int32_t)rs_s(16) * 0.02 : 0.0, "L1 C/A bias");
  EQ(m.L1_P_cpb_meter, n[0] & 4 ? (double)(int32_t)rs_s(16) * 0.02 : 0.0, "L1 P bias");
  EQ(m.L2_CA_cpb_meter, n[0] & 2 ? (double)(int32_t)rs_s(16) * 0.02 : 0.0, "L2 C/A bias");
  EQ(m.L2_P_cpb_meter, n[0] & 1 ? (double)(int32_t)rs_s(16) * 0.02 : 0.0, "L2 P bias");
#elif MSG == 4062
  if (rs_u(4) != 0) VP_ASSERT(rc == RC_INVALID_MESSAGE, "non-zero reserved bits are rejected");
  else {
    VP_ASSERT(rc == RC_OK, "complete message accepted");
    EQ(m.msg_type, rs_u(16), "SBP type");
    EQ(m.sender_id, rs_u(16), "SBP sender");
    EQ(m.len, rs_u(8), "SBP length");
    for (uint32_t i = 0; i < n[0]; i++) EQ(m.data[i], rs_u(8), "SBP payload");
  }
#endif
#endif
  VP_REACH("end");
}
