/* Stand-in for the parts of libswiftnav (submodule absent) that the converters use: names, types and constants of its public headers. */
#ifndef VP_SWIFT_H
#define VP_SWIFT_H
#include <assert.h>
#include <inttypes.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <swiftnav/common.h>
#ifndef __cplusplus
#include <assert.h>
#else
extern "C" {
#endif
#ifndef ARRAY_SIZE
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))
#endif
#ifndef MIN
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#endif
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
#define GPS_PI 3.1415926535898
#define R2D (180.0 / M_PI)
#define D2R (M_PI / 180.0)
#define GPS_C 299792458.0
/* time */
#define MINUTE_SECS 60
#define HOUR_MINUTES 60
#define HOUR_SECS 3600
#define DAY_HOURS 24
#define DAY_SECS 86400
#define WEEK_DAYS 7
#define WEEK_SECS 604800
#define WEEK_MS 604800000
#define SECS_MS 1000
#define SECS_US 1000000
#define SECS_NS 1000000000
#define TOW_UNKNOWN (-1)
#define WN_UNKNOWN (-1)
#define TOW_INVALID 0xffffffffu
typedef struct { double tow; s16 wn; } gps_time_t;
#define GPS_TIME_UNKNOWN ((gps_time_t){TOW_UNKNOWN, WN_UNKNOWN})
#define BDS_WEEK_TO_GPS_WEEK 1356
#define BDS_SECOND_TO_GPS_SECOND 14
#define GAL_WEEK_TO_GPS_WEEK 1024
#define GLO_UTC_DIFF 3
#define UTC_SU_OFFSET 3
#define GPS_WEEK_REFERENCE 2000
typedef struct { double a0, a1, a2; gps_time_t tot; gps_time_t t_lse; s8 dt_ls; s8 dt_lsf; } utc_params_t;
bool gps_time_valid(const gps_time_t *t);
void normalize_gps_time(gps_time_t *t);
bool normalize_gps_time_safe(gps_time_t *t);
double gpsdifftime(const gps_time_t *end, const gps_time_t *beginning);
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref);
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref);
void add_secs(gps_time_t *t, double secs);
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p);
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p);
/* signals */
typedef enum {
  CODE_INVALID = -1, CODE_GPS_L1CA = 0, CODE_GPS_L2CM, CODE_SBAS_L1CA, CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GPS_L1P, CODE_GPS_L2P, CODE_GPS_L2CL, CODE_GPS_L2CX, CODE_GPS_L5I, CODE_GPS_L5Q, CODE_GPS_L5X,
  CODE_BDS2_B1, CODE_BDS2_B2, CODE_GAL_E1B, CODE_GAL_E1C, CODE_GAL_E1X, CODE_GAL_E6B, CODE_GAL_E6C, CODE_GAL_E6X, CODE_GAL_E7I, CODE_GAL_E7Q, CODE_GAL_E7X, CODE_GAL_E8I, CODE_GAL_E8Q, CODE_GAL_E8X,
  CODE_GAL_E5I, CODE_GAL_E5Q, CODE_GAL_E5X, CODE_GLO_L1P, CODE_GLO_L2P, CODE_QZS_L1CA, CODE_QZS_L1CI, CODE_QZS_L1CQ, CODE_QZS_L1CX, CODE_QZS_L2CM, CODE_QZS_L2CL, CODE_QZS_L2CX, CODE_QZS_L5I, CODE_QZS_L5Q, CODE_QZS_L5X,
  CODE_SBAS_L5I, CODE_SBAS_L5Q, CODE_SBAS_L5X, CODE_BDS3_B1CI, CODE_BDS3_B1CQ, CODE_BDS3_B1CX, CODE_BDS3_B5I, CODE_BDS3_B5Q, CODE_BDS3_B5X, CODE_BDS3_B7I, CODE_BDS3_B7Q, CODE_BDS3_B7X, CODE_BDS3_B3I, CODE_BDS3_B3Q, CODE_BDS3_B3X,
  CODE_GPS_L1CI, CODE_GPS_L1CQ, CODE_GPS_L1CX, CODE_AUX_GPS, CODE_AUX_SBAS, CODE_AUX_GAL, CODE_AUX_QZS, CODE_AUX_BDS, CODE_COUNT
} code_t;
typedef enum constellation_e { CONSTELLATION_INVALID = -1, CONSTELLATION_GPS, CONSTELLATION_SBAS, CONSTELLATION_GLO, CONSTELLATION_BDS, CONSTELLATION_QZS, CONSTELLATION_GAL, CONSTELLATION_COUNT } constellation_t;
typedef struct { u16 sat; code_t code; } gnss_signal_t;
#define NUM_SATS_GPS 32
#define NUM_SATS_SBAS 39
#define NUM_SATS_GLO 28
#define NUM_SATS_BDS 63
#define NUM_SATS_QZS 10
#define NUM_SATS_GAL 36
#define GPS_FIRST_PRN 1
#define SBAS_FIRST_PRN 120
#define GLO_FIRST_PRN 1
#define BDS_FIRST_PRN 1
#define GAL_FIRST_PRN 1
#define QZS_FIRST_PRN 193
#define GLO_MAX_FCN_ 14
#ifndef GPS_L1_HZ
#define GPS_L1_HZ 1575.42e6
#define GPS_L2_HZ 1227.60e6
#endif
#ifndef GLO_L1_HZ
#define GLO_L1_HZ 1602.0e6
#define GLO_L2_HZ 1246.0e6
#endif
#define GPS_L5_HZ 1176.45e6
#define GLO_L1_DELTA_HZ 5.625e5
#define GLO_L2_DELTA_HZ 4.375e5
#define GAL_E1_HZ 1575.42e6
#define GAL_E5_HZ 1176.45e6
#define GAL_E6_HZ 1278.75e6
#define GAL_E7_HZ 1207.14e6
#define GAL_E8_HZ 1191.795e6
#define BDS2_B11_HZ 1561.098e6
#define BDS2_B2_HZ 1207.14e6
#define BDS3_B1C_HZ 1575.42e6
#define BDS3_B3_HZ 1268.52e6
#define BDS3_B5_HZ 1176.45e6
#define BDS3_B7_HZ 1207.14e6
#define QZS_L1_HZ 1575.42e6
#define QZS_L2_HZ 1227.60e6
#define QZS_L5_HZ 1176.45e6
#define SBAS_L1_HZ 1575.42e6
#define SBAS_L5_HZ 1176.45e6
#define GNSS_CAPB_BDS_D2NAV 0x7c0000000000001full
constellation_t code_to_constellation(code_t code);
constellation_t sid_to_constellation(gnss_signal_t sid);
code_t constellation_to_l1_code(constellation_t cons);
bool is_gps(code_t code);
bool is_glo(code_t code);
bool is_gal(code_t code);
bool is_bds2(code_t code);
/* powers of two */
#ifndef C_1_2P5
#define C_1_2P5 0.03125
#endif
#ifndef C_1_2P6
#define C_1_2P6 0.015625
#endif
#ifndef C_1_2P11
#define C_1_2P11 0.00048828125
#endif
#ifndef C_1_2P19
#define C_1_2P19 1.9073486328125e-06
#endif
#ifndef C_1_2P20
#define C_1_2P20 9.5367431640625e-07
#endif
#ifndef C_1_2P29
#define C_1_2P29 1.862645149230957e-09
#endif
#ifndef C_1_2P30
#define C_1_2P30 9.313225746154785e-10
#endif
#ifndef C_1_2P31
#define C_1_2P31 4.656612873077393e-10
#endif
#ifndef C_1_2P32
#define C_1_2P32 2.3283064365386963e-10
#endif
#ifndef C_1_2P33
#define C_1_2P33 1.1641532182693481e-10
#endif
#ifndef C_1_2P34
#define C_1_2P34 5.820766091346741e-11
#endif
#ifndef C_1_2P40
#define C_1_2P40 9.094947017729282e-13
#endif
#ifndef C_1_2P43
#define C_1_2P43 1.1368683772161603e-13
#endif
#ifndef C_1_2P46
#define C_1_2P46 1.4210854715202004e-14
#endif
#ifndef C_1_2P50
#define C_1_2P50 8.881784197001252e-16
#endif
#ifndef C_1_2P55
#define C_1_2P55 2.7755575615628914e-17
#endif
#ifndef C_1_2P59
#define C_1_2P59 1.734723475976807e-18
#endif
#ifndef C_1_2P66
#define C_1_2P66 1.3552527156068805e-20
#endif
static const float g_bds_ura_table[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, -1};
enum { EPH_SOURCE_GAL_INAV, EPH_SOURCE_GAL_FNAV };
/* ephemerides */
typedef struct { union { double gps_s[2]; double bds_s[2]; double gal_s[2]; double qzss_s[2]; } tgd; double crc, crs, cuc, cus, cic, cis, dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot, af0, af1, af2; gps_time_t toc; u16 iodc; u16 iode; } ephemeris_kepler_t;
typedef struct { double gamma, tau, d_tau; double pos[3], vel[3], acc[3]; u16 fcn; u8 iod; } ephemeris_glo_t;
typedef struct { gnss_signal_t sid; gps_time_t toe; float ura; u32 fit_interval; u8 valid; u8 health_bits; u8 source; union { ephemeris_kepler_t kepler; ephemeris_glo_t glo; } data; } ephemeris_t;
#define INVALID_URA_VALUE (-1)
#define BDS_FIT_INTERVAL_SECONDS (3 * HOUR_SECS)
#define GAL_INAV_CONTENT_BYTE 16
#define GLO_NAV_STR_BITS 85
#define GLO_NAV_STR_WORDS 3
typedef struct { u32 word[GLO_NAV_STR_WORDS]; } glo_string_t;
void decode_ephemeris(const u32 frame_words[3][8], ephemeris_t *e, double tot_tow);
void decode_bds_d1_ephemeris(const u32 words[3][10], gnss_signal_t sid, ephemeris_t *e);
bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e);
void decode_glo_ephemeris(const glo_string_t *strs, gnss_signal_t sid, const utc_params_t *p, ephemeris_t *e);
/* measurements, crc, bits */
typedef u16 nav_meas_flags_t;
#define NAV_MEAS_FLAG_CODE_VALID ((nav_meas_flags_t)(1 << 0))
#define NAV_MEAS_FLAG_PHASE_VALID ((nav_meas_flags_t)(1 << 1))
#define NAV_MEAS_FLAG_MEAS_DOPPLER_VALID ((nav_meas_flags_t)(1 << 2))
#define NAV_MEAS_FLAG_COMP_DOPPLER_VALID ((nav_meas_flags_t)(1 << 3))
#define NAV_MEAS_FLAG_HALF_CYCLE_KNOWN ((nav_meas_flags_t)(1 << 4))
#define NAV_MEAS_FLAG_CN0_VALID ((nav_meas_flags_t)(1 << 5))
#define NAV_MEAS_FLAG_RAIM_EXCLUSION ((nav_meas_flags_t)(1 << 6))
typedef enum { POSITION_MODE_NONE, POSITION_MODE_SPP, POSITION_MODE_DGNSS, POSITION_MODE_FLOAT, POSITION_MODE_FIXED, POSITION_MODE_DEAD_RECKONING, POSITION_MODE_SBAS } vp_position_mode_t;
bool sid_valid(gnss_signal_t sid);

#define FLOAT_EQUALITY_EPS 1e-12
bool float_equal(float a, float b);
bool double_equal(double a, double b);
const char *code_to_string(code_t code);
u8 encode_lock_time(double nm_lock_time);
double decode_lock_time(u8 sbp_lock_time);
u32 crc24q(const u8 *buf, u32 len, u32 crc);
u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert);
void bitcopy(void *dst, u32 dst_pos, const void *src, u32 src_pos, u32 n);
void bitshl(void *buf, u32 size, u32 shift);
#ifdef __cplusplus
}
#endif
#define SID_STR_LEN_MAX 16
int sid_to_string(char *s, int n, const gnss_signal_t sid);
#include <swiftnav/bits.h>
#include <swiftnav/logging.h>
#endif
