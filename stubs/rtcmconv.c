/* Stand-ins for what the RTCM converters use of libswiftnav and libsbp: FIFO, signal tables, leap second, checksum, log text. */
#include <libsbp/vp_sbp.h>
#include <swiftnav/fifo_byte.h>
#include <swiftnav/vp_swift.h>
#include "rtcmconv.h"
struct vp_rc vp_rc = {.leap = 18};
void fifo_init(fifo_t *f, u8 *b, fifo_size_t n) {
  f->read_index = f->write_index = 0;
  f->buffer_size = n;
  f->buffer = b;
}
fifo_size_t fifo_length(fifo_t *f) { return f->write_index - f->read_index; }
fifo_size_t fifo_space(fifo_t *f) { return f->buffer_size - fifo_length(f); }
fifo_size_t fifo_write(fifo_t *f, const u8 *b, fifo_size_t n) {
  fifo_size_t sp = fifo_space(f);
  if (n > sp) n = sp;
  for (fifo_size_t i = 0; i < n; i++) f->buffer[(f->write_index + i) & (f->buffer_size - 1)] = b[i];
  f->write_index += n;
  return n;
}
fifo_size_t fifo_peek(fifo_t *f, u8 *b, fifo_size_t n) {
  fifo_size_t l = fifo_length(f);
  if (n > l) n = l;
  for (fifo_size_t i = 0; i < n; i++) b[i] = f->buffer[(f->read_index + i) & (f->buffer_size - 1)];
  return n;
}
fifo_size_t fifo_remove(fifo_t *f, fifo_size_t n) {
  fifo_size_t l = fifo_length(f);
  if (n > l) n = l;
  f->read_index += n;
  return n;
}
fifo_size_t fifo_read(fifo_t *f, u8 *b, fifo_size_t n) { return fifo_remove(f, fifo_peek(f, b, n)); }
constellation_t code_to_constellation(code_t c) {
  if (c <= CODE_INVALID || c >= CODE_COUNT) return CONSTELLATION_INVALID;
  switch (c) {
    case CODE_SBAS_L1CA: case CODE_SBAS_L5I: case CODE_SBAS_L5Q: case CODE_SBAS_L5X: case CODE_AUX_SBAS: return CONSTELLATION_SBAS;
    case CODE_GLO_L1OF: case CODE_GLO_L2OF: case CODE_GLO_L1P: case CODE_GLO_L2P: return CONSTELLATION_GLO;
    case CODE_AUX_GAL: return CONSTELLATION_GAL;
    case CODE_AUX_QZS: return CONSTELLATION_QZS;
    case CODE_AUX_BDS: case CODE_BDS2_B1: case CODE_BDS2_B2: return CONSTELLATION_BDS;
    default: break;
  }
  if (c >= CODE_GAL_E1B && c <= CODE_GAL_E5X) return CONSTELLATION_GAL;
  if (c >= CODE_QZS_L1CA && c <= CODE_QZS_L5X) return CONSTELLATION_QZS;
  if (c >= CODE_BDS3_B1CI && c <= CODE_BDS3_B3X) return CONSTELLATION_BDS;
  return CONSTELLATION_GPS;
}
constellation_t sid_to_constellation(gnss_signal_t s) { return code_to_constellation(s.code); }
bool is_gps(code_t c) { return code_to_constellation(c) == CONSTELLATION_GPS; }
bool is_glo(code_t c) { return code_to_constellation(c) == CONSTELLATION_GLO; }
bool is_gal(code_t c) { return code_to_constellation(c) == CONSTELLATION_GAL; }
bool is_bds2(code_t c) { return c == CODE_BDS2_B1 || c == CODE_BDS2_B2; }
code_t constellation_to_l1_code(constellation_t c) {
  switch (c) {
    case CONSTELLATION_GPS: return CODE_GPS_L1CA;
    case CONSTELLATION_SBAS: return CODE_SBAS_L1CA;
    case CONSTELLATION_GLO: return CODE_GLO_L1OF;
    case CONSTELLATION_BDS: return CODE_BDS2_B1;
    case CONSTELLATION_QZS: return CODE_QZS_L1CA;
    case CONSTELLATION_GAL: return CODE_GAL_E1B;
    default: return CODE_INVALID;
  }
}
const char *code_to_string(code_t c) { (void)c; return "?"; }
int sid_to_string(char *s, int n, const gnss_signal_t sid) { (void)sid; if (n > 0) s[0] = 0; return 0; }
bool float_equal(float a, float b) { return fabsf(a - b) < (float)FLOAT_EQUALITY_EPS; }
bool double_equal(double a, double b) { return fabs(a - b) < FLOAT_EQUALITY_EPS; }
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p) { (void)t; (void)p; return vp_rc.leap; }
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) { (void)t; (void)p; return vp_rc.leap_event; }
/* CRC-24Q, bit by bit */
u32 crc24q(const u8 *b, u32 n, u32 crc) {
  for (u32 i = 0; i < n; i++) {
    crc ^= (u32)b[i] << 16;
    for (int k = 0; k < 8; k++) crc = (crc << 1) ^ (0x1864CFBu & (0u - ((crc >> 23) & 1)));
    crc &= 0xFFFFFF;
  }
  return crc;
}
void sbp_state_init(sbp_state_t *s) { memset(s, 0, sizeof *s); }
void sbp_state_set_io_context(sbp_state_t *s, void *c) { s->io_context = c; }
bool sbp_msg_log_text_init(sbp_msg_log_t *m) {
  memset(&m->text, 0, sizeof m->text);
  return true;
}
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *m, const char *b, size_t n, bool trunc, size_t *w) {
  if (n > SBP_MSG_LOG_TEXT_MAX) {
    if (!trunc) return false;
    n = SBP_MSG_LOG_TEXT_MAX;
  }
  memcpy(m->text.data, b, n);
  m->text.data[n] = 0;
  m->text.encoded_len = n;
  if (w) *w = n;
  return true;
}
s8 sbp_message_decode(const u8 *b, u8 n, u8 *r, sbp_msg_type_t t, sbp_msg_t *m) {
  (void)r;
  vp_rc.dec_n++;
  vp_rc.dec_len = n;
  vp_rc.dec_type = t;
  memcpy(vp_rc.dec_buf, b, n);
  m->base_pos_ecef.x = vp_rc.dec_mark;
  return vp_rc.dec_ret;
}
/* plain search, in place of the C library's */
__attribute__((noinline)) char *strstr(const char *h, const char *n) {
  size_t l = strlen(n);
  for (; ; h++) {
    size_t i = 0;
    while (i < l && h[i] == n[i]) i++;
    if (i == l) return (char *)h;
    if (!*h) return NULL;
  }
}
