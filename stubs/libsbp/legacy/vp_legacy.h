/* Stand-in for the packed wire structures of libsbp's legacy headers that nov2sbp uses (SBP message specification). */
#ifndef VP_LEGACY_H
#define VP_LEGACY_H
#include <libsbp/vp_sbp.h>
#ifdef __cplusplus
extern "C" {
#endif
#pragma pack(push, 1)
#define SBP_MSG_OBS 0x004A
#define SBP_MSG_EPHEMERIS_GPS 0x008A
#define SBP_MSG_GPS_TIME 0x0102
#define SBP_MSG_POS_LLH 0x020A
#define SBP_MSG_VEL_NED 0x020E
#define SBP_MSG_ORIENT_EULER 0x0221
#define SBP_MSG_ANGULAR_RATE 0x0222
#define SBP_MSG_IMU_RAW 0x0900
#define SBP_MSG_IMU_AUX 0x0901
typedef struct { u8 sat, code; } sbp_gnss_signal_t;
typedef struct { u32 tow; u16 wn; } gps_time_sec_t;
typedef struct { u32 tow; s32 ns_residual; u16 wn; } sbp_gps_time_t;
typedef struct { s32 i; u8 f; } carrier_phase_t;
typedef struct { s16 i; u8 f; } doppler_t;
typedef struct { sbp_gps_time_t t; u8 n_obs; } observation_header_t;
typedef struct { u32 P; carrier_phase_t L; doppler_t D; u8 cn0, lock, flags; sbp_gnss_signal_t sid; } packed_obs_content_t;
typedef struct { sbp_gnss_signal_t sid; gps_time_sec_t toe; float ura; u32 fit_interval; u8 valid, health_bits; } ephemeris_common_content_t;
typedef struct { ephemeris_common_content_t common; float tgd, c_rs, c_rc, c_uc, c_us, c_ic, c_is; double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot; float af0, af1, af2; gps_time_sec_t toc; u8 iode; u16 iodc; } msg_ephemeris_gps_t;
typedef struct { ephemeris_common_content_t common; float gamma, tau, d_tau; double pos[3], vel[3]; float acc[3]; u8 fcn, iod; } msg_ephemeris_glo_t;
typedef struct { u16 wn; u32 tow; s32 ns_residual; u8 flags; } msg_gps_time_t;
typedef struct { u32 tow; double lat, lon, height; u16 h_accuracy, v_accuracy; u8 n_sats, flags; } msg_pos_llh_t;
typedef struct { u32 tow; s32 n, e, d; u16 h_accuracy, v_accuracy; u8 n_sats, flags; } msg_vel_ned_t;
typedef struct { u32 tow; s32 roll, pitch, yaw; float roll_accuracy, pitch_accuracy, yaw_accuracy; u8 flags; } msg_orient_euler_t;
typedef struct { u32 tow; s32 x, y, z; u8 flags; } msg_angular_rate_t;
typedef struct { u32 tow; u8 tow_f; s16 acc_x, acc_y, acc_z, gyr_x, gyr_y, gyr_z; } msg_imu_raw_t;
typedef struct { u8 imu_type; s16 temp; u8 imu_conf; } msg_imu_aux_t;
#pragma pack(pop)
#ifdef __cplusplus
}
#endif
#endif
