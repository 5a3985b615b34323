/* Subset of libswiftnav's bitstream API (the submodule is empty in this tree). */
#ifndef VP_SWIFTNAV_BITSTREAM_H
#define VP_SWIFTNAV_BITSTREAM_H
#include <stdbool.h>
#include <stdint.h>
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const uint8_t *data;
  uint32_t offset; /* bits */
  uint32_t len;    /* bits remaining */
} swiftnav_bitstream_t;
void swiftnav_bitstream_init(swiftnav_bitstream_t *buf, const uint8_t *data, uint32_t len_bits);
uint32_t swiftnav_bitstream_remaining(const swiftnav_bitstream_t *buf);
void swiftnav_bitstream_remove(swiftnav_bitstream_t *buf, uint32_t n);
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *buf, uint32_t *out, uint32_t pos, uint8_t n);
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *buf, int32_t *out, uint32_t pos, uint8_t n);
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *buf, uint64_t *out, uint32_t pos, uint8_t n);
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *buf, int64_t *out, uint32_t pos, uint8_t n);
#ifdef __cplusplus
}
#endif
#endif
