#ifndef VP_SWIFTNAV_COMMON_H
#define VP_SWIFTNAV_COMMON_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <swiftnav/macros.h>
typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
#endif
