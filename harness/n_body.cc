/* Message body readers: every field equals its bytes in the message, in the
 * documented order and width, for every body content. */
#include "vp.h"
#include <string.h>
#include "message_bestpos.h"
#include "message_bestvel.h"
#include "message_gloephemeris.h"
#include "message_gpsephem.h"
#include "message_insatt.h"
#include "message_rawimusx.h"
using namespace Novatel;
static uint8_t b[256];
static uint32_t o;
static uint64_t le(uint32_t off, uint32_t n) {
  uint64_t v = 0;
  for (uint32_t i = 0; i < n; i++) v |= (uint64_t)b[off + i] << (8 * i);
  return v;
}
static uint64_t nx(uint32_t n) { uint64_t v = le(o, n); o += n; return v; }
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint8_t bits(uint8_t v) { return v; }
static uint16_t bits(uint16_t v) { return v; }
static uint32_t bits(uint32_t v) { return v; }
static uint32_t bits(int32_t v) { return (uint32_t)v; }
#define F(f) VP_ASSERT(bits(m.f) == nx(sizeof(m.f)), "field " #f " is read from its documented place")
extern "C" void vp_main(void) {
  uint32_t len = 0;
  vp_bytes(b, 224);
  o = 0;
#if BODY == 1
  Message::BESTPOS_t m; m.FromBytes(b, 72); len = 72;
  F(sol_stat); F(pos_type); F(lat); F(lon); F(hgt); F(undulation); F(datum_id); F(lat_stddev); F(lon_stddev); F(hgt_stddev);
  for (int i = 0; i < 4; i++) VP_ASSERT((uint8_t)m.stn_id[i] == nx(1), "station id read in order");
  F(diff_age); F(sol_age); F(num_sv_tracked); F(num_sv_in_soln); F(num_sv_in_soln_L1); F(num_sv_in_soln_multi); F(reserved);
  F(ext_sol_stat); F(galileo_beidou_mask); F(gps_glonass_mask);
#elif BODY == 2
  Message::BESTVEL_t m; m.FromBytes(b, 44); len = 44;
  F(sol_stat); F(vel_type); F(latency); F(diff_age); F(hor_speed); F(trk_gnd); F(vert_speed); F(reserved);
#elif BODY == 3
  Message::GLOEPHEMERIS_t m; m.FromBytes(b, 144); len = 144;
  F(sloto); F(freqo); F(sat_type); F(reserved_1); F(e_week); F(e_time); F(t_offset); F(Nt); F(reserved_2); F(issue); F(health);
  F(pos_x); F(pos_y); F(pos_z); F(vel_x); F(vel_y); F(vel_z); F(LS_acc_x); F(LS_acc_y); F(LS_acc_z); F(tau_n); F(delta_tau_n);
  F(gamma); F(Tk); F(P); F(Ft); F(age); F(flags);
#elif BODY == 4
  Message::GPSEPHEM_t m; m.FromBytes(b, 224); len = 224;
  F(prn); F(tow); F(health); F(iode1); F(iode2); F(week); F(z_week); F(toe); F(A); F(delta_N); F(M0); F(ecc); F(omega); F(cuc);
  F(cus); F(crc); F(crs); F(cic); F(cis); F(I0); F(I_dot); F(omega0); F(omega_dot); F(iodc); F(toc); F(tgd); F(af0); F(af1);
  F(af2); F(AS); F(N); F(URA);
#elif BODY == 5
  Message::INSATT_t m; m.FromBytes(b, 40); len = 40;
  F(gnss_week); F(tow); F(roll); F(pitch); F(azimuth); F(status);
#elif BODY == 6
  VP_ASSUME(le(20, 4) != 0x80000000u && le(32, 4) != 0x80000000u);
  Message::RAWIMUSX_t m; m.FromBytes(b, 40); len = 40;
  F(imu_info); F(imu_type); F(gnss_week); F(gnss_week_seconds); F(imu_status); F(z_accel);
  VP_ASSERT(bits(m.y_accel) == (uint32_t)-nx(4), "the y acceleration is negated on reading");
  F(x_accel); F(z_gyro);
  VP_ASSERT(bits(m.y_gyro) == (uint32_t)-nx(4), "the y rotation is negated on reading");
  F(x_gyro);
#endif
  VP_ASSERT(o == len, "all body bytes are accounted for");
  VP_REACH("end");
}
