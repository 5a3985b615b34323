#include <swiftnav/bitstream.h>
void swiftnav_bitstream_init(swiftnav_bitstream_t *buf, const uint8_t *data, uint32_t len) {
  buf->data = data;
  buf->offset = 0;
  buf->len = len;
}
uint32_t swiftnav_bitstream_remaining(const swiftnav_bitstream_t *buf) { return buf->len - buf->offset; }
void swiftnav_bitstream_remove(swiftnav_bitstream_t *buf, uint32_t n) {
  if (n > buf->len - buf->offset) n = buf->len - buf->offset;
  buf->offset += n;
}
static bool get(const swiftnav_bitstream_t *b, uint64_t *out, uint32_t pos, uint8_t n, uint8_t max) {
  uint32_t left = b->len - b->offset;
  if (n > max || pos > left || n > left - pos) return false;
  if (n == 0) {
    *out = 0;
    return true;
  }
  uint32_t p = b->offset + pos, first = p / 8, last = (p + n - 1) / 8, sh = 7 - (p + n - 1) % 8;
  uint64_t v = 0;
  for (uint32_t i = first; i < last; i++) v = v << 8 | b->data[i];
  v = v << (8 - sh) | (b->data[last] >> sh);
  *out = n < 64 ? v & ((1ull << n) - 1) : v;
  return true;
}
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *b, uint64_t *out, uint32_t pos, uint8_t n) { return get(b, out, pos, n, 64); }
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *b, int64_t *out, uint32_t pos, uint8_t n) {
  uint64_t v;
  if (!get(b, &v, pos, n, 64)) return false;
  *out = n ? (int64_t)(v << (64 - n)) >> (64 - n) : 0;
  return true;
}
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *b, uint32_t *out, uint32_t pos, uint8_t n) {
  uint64_t v;
  if (!get(b, &v, pos, n, 32)) return false;
  *out = (uint32_t)v;
  return true;
}
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *b, int32_t *out, uint32_t pos, uint8_t n) {
  int64_t v;
  if (n > 32 || !swiftnav_bitstream_getbitsl(b, &v, pos, n)) return false;
  *out = (int32_t)v;
  return true;
}
