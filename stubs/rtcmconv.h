#include <swiftnav/vp_swift.h>
struct vp_rc { double leap; bool leap_event; int dec_n; u8 dec_len; u32 dec_type; u8 dec_buf[256]; double dec_mark; s8 dec_ret; };
extern struct vp_rc vp_rc;
