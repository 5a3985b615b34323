#include "vp.h"
#include "binary_header.h"
using namespace Novatel;
static uint8_t b[32];
static uint32_t u16(int o) { return b[o] | b[o + 1] << 8; }
static uint32_t u32(int o) { return u16(o) | u16(o + 2) << 16; }
extern "C" void vp_main(void) {
  vp_bytes(b, 24);
#ifdef SHORT
  BinaryHeaderShort h;
  h.read(b);
  VP_ASSERT(h.message_len == b[0], "short header: length byte");
  VP_ASSERT(h.message_id == u16(1), "short header: message id");
  VP_ASSERT(h.week == u16(3), "short header: week");
  VP_ASSERT((uint32_t)h.ms == u32(5), "short header: milliseconds");
#else
  BinaryHeaderRegular h;
  h.read(b);
  VP_ASSERT(h.message_id == u16(0), "regular header: message id");
  VP_ASSERT(h.message_type == b[2], "regular header: message type");
  VP_ASSERT(h.port_addr == b[3], "regular header: port address");
  VP_ASSERT(h.message_len == u16(4), "regular header: message length");
  VP_ASSERT(h.sequence == u16(6), "regular header: sequence");
  VP_ASSERT(h.idle_time == b[8], "regular header: idle time");
  VP_ASSERT(h.time_status == b[9], "regular header: time status");
  VP_ASSERT(h.week == u16(10), "regular header: week");
  VP_ASSERT((uint32_t)h.ms == u32(12), "regular header: milliseconds");
  VP_ASSERT(h.rx_status == u32(16), "regular header: receiver status");
  VP_ASSERT(h.reserved == u16(20), "regular header: reserved");
  VP_ASSERT(h.rx_software_version == u16(22), "regular header: software version");
#endif
  VP_REACH("end");
}
