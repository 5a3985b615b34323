#ifndef VP_SWIFTNAV_BITS_H
#define VP_SWIFTNAV_BITS_H
#include <assert.h>
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
u32 getbitu(const u8 *buff, u32 pos, u8 len);
s32 getbits(const u8 *buff, u32 pos, u8 len);
u64 getbitul(const u8 *buff, u32 pos, u8 len);
s64 getbitsl(const u8 *buff, u32 pos, u8 len);
void setbitu(u8 *buff, u32 pos, u32 len, u32 data);
void setbits(u8 *buff, u32 pos, u32 len, s32 data);
#ifdef __cplusplus
}
#endif
#endif
