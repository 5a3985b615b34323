#ifndef VP_GEOID_H
#define VP_GEOID_H
#ifdef __cplusplus
extern "C" {
#endif
float get_geoid_offset(double lat, double lon);
#ifdef __cplusplus
}
#endif
#endif
