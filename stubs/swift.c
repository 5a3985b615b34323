/* Stand-ins for the libswiftnav functions the converters call, following the documentation of that library. */
#include <math.h>
#include <swiftnav/vp_swift.h>
bool gps_time_valid(const gps_time_t *t) { return t->tow >= 0 && t->tow < WEEK_SECS && t->wn >= 0; }
void normalize_gps_time(gps_time_t *t) {
  while (t->tow < 0) {
    t->tow += WEEK_SECS;
    t->wn--;
  }
  while (t->tow >= WEEK_SECS) {
    t->tow -= WEEK_SECS;
    t->wn++;
  }
}
bool normalize_gps_time_safe(gps_time_t *t) {
  if (!isfinite(t->tow)) return false;
  normalize_gps_time(t);
  return true;
}
double gpsdifftime(const gps_time_t *end, const gps_time_t *beginning) { return (end->wn - beginning->wn) * (double)WEEK_SECS + end->tow - beginning->tow; }
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref) {
  if (!gps_time_valid(ref)) return false;
  double dt = t->tow - ref->tow;
  t->wn = ref->wn;
  if (dt > WEEK_SECS / 2)
    t->wn--;
  else if (dt < -WEEK_SECS / 2)
    t->wn++;
  return true;
}
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref) {
  if (wn_raw >= wn_ref) return wn_raw;
  return (u16)(wn_raw + 1024 * ((wn_ref + 1023 - wn_raw) / 1024));
}
void add_secs(gps_time_t *t, double secs) {
  t->tow += secs;
  normalize_gps_time(t);
}
u8 encode_lock_time(double s) {
  u32 ms = s < 0 ? 0 : s >= 4294967.296 ? UINT32_MAX : (u32)(s * 1000);
  if (ms < 32) return 0;
  for (u8 i = 0; i < 16; i++)
    if (32u > (ms >> 0) / (1u << i)) return i;
  return 15;
}
