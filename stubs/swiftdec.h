#include <swiftnav/vp_swift.h>
struct vp_dec { int n, kind; u32 words[40]; double tot; s8 leap; bool gal_ok; };
extern struct vp_dec vp_dec;
extern ephemeris_t vp_eph;
