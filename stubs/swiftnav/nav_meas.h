#include <swiftnav/vp_swift.h>
