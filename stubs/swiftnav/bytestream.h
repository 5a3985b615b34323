/* Stand-in for libswiftnav's bytestream (submodule absent). Documented behaviour: a bounded little window over a byte buffer. */
#ifndef VP_SWIFTNAV_BYTESTREAM_H
#define VP_SWIFTNAV_BYTESTREAM_H
#include <stdbool.h>
#include <stdint.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const uint8_t *data;
  uint32_t offset;
  uint32_t len;
} swiftnav_bytestream_t;
static inline void swiftnav_bytestream_init(swiftnav_bytestream_t *b, const uint8_t *data, uint32_t len) {
  b->data = data;
  b->offset = 0;
  b->len = len;
}
static inline uint32_t swiftnav_bytestream_remaining(const swiftnav_bytestream_t *b) { return b->len - b->offset; }
static inline bool swiftnav_bytestream_get_bytes(swiftnav_bytestream_t *b, uint32_t pos, uint32_t len, uint8_t *dst) {
  if ((uint64_t)pos + len > swiftnav_bytestream_remaining(b)) return false;
  memcpy(dst, b->data + b->offset + pos, len);
  return true;
}
static inline void swiftnav_bytestream_remove(swiftnav_bytestream_t *b, uint32_t len) { b->offset += len; }
#ifdef __cplusplus
}
#endif
#endif
