/* to_msm_type / to_constellation over every message number */
#include "vp.h"
#include <rtcm3/msm_utils.h>
struct rng { uint16_t lo, hi; int cons; };
static const struct rng T[] = {
    {1071, 1077, RTCM_CONSTELLATION_GPS}, {1081, 1087, RTCM_CONSTELLATION_GLO}, {1091, 1097, RTCM_CONSTELLATION_GAL},
    {1101, 1107, RTCM_CONSTELLATION_SBAS}, {1111, 1117, RTCM_CONSTELLATION_QZS}, {1121, 1127, RTCM_CONSTELLATION_BDS},
    {1057, 1062, RTCM_CONSTELLATION_GPS}, {1063, 1068, RTCM_CONSTELLATION_GLO}, {1240, 1245, RTCM_CONSTELLATION_GAL},
    {1246, 1251, RTCM_CONSTELLATION_QZS}, {1258, 1263, RTCM_CONSTELLATION_BDS},
    {1265, 1265, RTCM_CONSTELLATION_GPS}, {1266, 1266, RTCM_CONSTELLATION_GLO}, {1267, 1267, RTCM_CONSTELLATION_GAL},
    {1268, 1268, RTCM_CONSTELLATION_QZS}, {1269, 1269, RTCM_CONSTELLATION_SBAS}, {1270, 1270, RTCM_CONSTELLATION_BDS}};
void vp_main(void) {
  uint16_t n = vp_u16();
  int cons = RTCM_CONSTELLATION_INVALID, msm = MSM_UNKNOWN;
  for (unsigned i = 0; i < sizeof(T) / sizeof(T[0]); i++)
    if (n >= T[i].lo && n <= T[i].hi) {
      cons = T[i].cons;
      if (i < 6) msm = n - T[i].lo + 1;
    }
  VP_ASSERT((int)to_constellation(n) == cons, "constellation of a message number");
  VP_ASSERT((int)to_msm_type(n) == msm, "MSM type of a message number");
  VP_REACH("end");
}
