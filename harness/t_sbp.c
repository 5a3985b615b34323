/* time_truth_update_from_sbp: only healthy GPS ephemerides count. */
#include <gnss-converters/time_truth.h>
#include <libsbp/v4/observation.h>
#include <libsbp/v4/gnss.h>
#include <stdatomic.h>
#include <string.h>
#include "vp.h"
void vp_env(void) {}
void vp_main(void) {
  time_truth_t T;
  time_truth_init(&T);
  sbp_msg_t m;
  memset(&m, 0, sizeof m);
  static const sbp_msg_type_t ty[] = {SbpMsgEphemerisGps, SbpMsgEphemerisGal, SbpMsgEphemerisBds, SbpMsgEphemerisQzss, SbpMsgEphemerisGlo, SbpMsgObs};
  sbp_msg_type_t t = ty[vp_split(vp_range(0, 5))];
  u16 wn = vp_u16();
  u32 tow = vp_u32();
  u8 health = vp_u8(), valid = vp_u8();
  sbp_ephemeris_common_content_t c;
  memset(&c, 0, sizeof c);
  c.toe.wn = wn;
  c.toe.tow = tow;
  c.health_bits = health;
  c.valid = valid;
  if (t == SbpMsgEphemerisGps || t == SbpMsgObs) m.ephemeris_gps.common = c;
  if (t == SbpMsgEphemerisGal) m.ephemeris_gal.common = c;
  if (t == SbpMsgEphemerisBds) m.ephemeris_bds.common = c;
  if (t == SbpMsgEphemerisQzss) m.ephemeris_qzss.common = c;
  if (t == SbpMsgEphemerisGlo) m.ephemeris_glo.common = c;
  bool r = time_truth_update_from_sbp(&T, t, &m);
  enum time_truth_state s;
  gps_time_t g;
  time_truth_get(&T, &s, &g);
  bool want = t == SbpMsgEphemerisGps && health == 0 && wn >= 2000 && wn <= 32767 && tow < 604800;
  VP_ASSERT(r == want, "accepted exactly for a healthy GPS ephemeris of a valid time");
  VP_ASSERT(s == (want ? TIME_TRUTH_SOLVED : TIME_TRUTH_UNKNOWN), "state follows");
  if (want) VP_ASSERT(g.wn == (s16)wn && g.tow == (double)tow, "the truth is the time of ephemeris");
  VP_REACH("end");
}
