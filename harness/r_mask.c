/* count_mask_values / find_nth_mask_value over every mask content; size enumerated from LO..HI */
#include "vp.h"
#include <rtcm3/msm_utils.h>
void vp_main(void) {
  static bool m[255];
  uint32_t size = vp_split((uint32_t)vp_range(LO, HI));
  uint8_t cnt = 0;
  for (uint32_t i = 0; i < size; i++) {
    uint8_t v = vp_u8();
    VP_ASSUME(v <= 1);
    m[i] = v;
  }
  for (uint32_t i = 0; i < size; i++) cnt = (uint8_t)(cnt + (m[i] ? 1 : 0));
  VP_ASSERT(count_mask_values((uint8_t)size, m) == cnt, "number of set mask entries");
#ifdef NTH
  uint32_t n = vp_split((uint32_t)vp_range(1, HI));
  VP_ASSUME(n <= cnt);
  uint8_t pos = find_nth_mask_value((uint8_t)size, m, (uint8_t)n);
  VP_ASSERT(pos < size, "position of the nth entry lies in the mask");
  VP_ASSERT(m[pos], "the nth entry is set");
  uint8_t run = 0, want = 255;
  for (uint32_t i = 0; i < size; i++) {
    run = (uint8_t)(run + (m[i] ? 1 : 0));
    if (run == n && want == 255) want = (uint8_t)i;
  }
  VP_ASSERT(pos == want, "exactly n-1 entries before the nth are set");
#endif
  VP_REACH("end");
}
