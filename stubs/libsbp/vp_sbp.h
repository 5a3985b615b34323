/* Stand-in for the parts of libsbp v4 (submodule absent) that the converters use; field names, types and array sizes of the SBP message specification. */
#ifndef VP_SBP_H
#define VP_SBP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
#define SBP_OK 0
#define SBP_MAX_PAYLOAD_LEN 255
typedef struct { u8 sat, code; } sbp_v4_gnss_signal_t;
typedef struct { u16 sat; u8 code; } sbp_gnss_signal_dep_t;
typedef struct { u32 tow; u16 wn; } sbp_gps_time_sec_t;
typedef struct { u32 tow; s32 ns_residual; u16 wn; } sbp_v4_gps_time_t;
typedef struct { s32 i; u8 f; } sbp_carrier_phase_t;
typedef struct { s16 i; u8 f; } sbp_doppler_t;
typedef struct { u32 P; sbp_carrier_phase_t L; sbp_doppler_t D; u8 cn0, lock, flags; sbp_v4_gnss_signal_t sid; } sbp_packed_obs_content_t;
typedef struct { sbp_v4_gps_time_t t; u8 n_obs; } sbp_observation_header_t;
#define SBP_MSG_OBS_OBS_MAX 14u
typedef struct { sbp_observation_header_t header; sbp_packed_obs_content_t obs[SBP_MSG_OBS_OBS_MAX]; u8 n_obs; } sbp_msg_obs_t;
typedef struct { sbp_v4_gnss_signal_t sid; sbp_gps_time_sec_t toe; double ura; u32 fit_interval; u8 valid, health_bits; } sbp_ephemeris_common_content_t;
typedef struct { sbp_ephemeris_common_content_t common; double tgd; float c_rs, c_rc, c_uc, c_us, c_ic, c_is; double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot; float af0, af1, af2; sbp_gps_time_sec_t toc; u8 iode; u16 iodc; } sbp_msg_ephemeris_gps_t;
typedef sbp_msg_ephemeris_gps_t sbp_msg_ephemeris_qzss_t;
typedef struct { sbp_ephemeris_common_content_t common; float tgd1, tgd2; float c_rs, c_rc, c_uc, c_us, c_ic, c_is; double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot, af0; float af1, af2; sbp_gps_time_sec_t toc; u8 iode; u16 iodc; } sbp_msg_ephemeris_bds_t;
typedef struct { sbp_ephemeris_common_content_t common; float bgd_e1e5a, bgd_e1e5b; float c_rs, c_rc, c_uc, c_us, c_ic, c_is; double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot, af0; float af1, af2; sbp_gps_time_sec_t toc; u16 iode, iodc; u8 source; } sbp_msg_ephemeris_gal_t;
typedef struct { sbp_ephemeris_common_content_t common; float gamma, tau, d_tau; double pos[3], vel[3]; float acc[3]; u8 fcn, iod; } sbp_msg_ephemeris_glo_t;
typedef struct { double x, y, z; } sbp_msg_base_pos_ecef_t;
typedef struct { u8 mask; s16 l1ca_bias, l1p_bias, l2ca_bias, l2p_bias; } sbp_msg_glo_biases_t;
typedef struct { u8 az_; } sbp_unused_t;
typedef struct { sbp_v4_gnss_signal_t sid; u8 az; s8 el; } sbp_sv_az_el_t;
#define SBP_MSG_SV_AZ_EL_AZEL_MAX 63u
typedef struct { sbp_sv_az_el_t azel[SBP_MSG_SV_AZ_EL_AZEL_MAX]; u8 n_azel; } sbp_msg_sv_az_el_t;
typedef struct { sbp_v4_gnss_signal_t mesid; u8 cn0; } sbp_measurement_state_t;
#define SBP_MSG_MEASUREMENT_STATE_STATES_MAX 85u
typedef struct { sbp_measurement_state_t states[SBP_MSG_MEASUREMENT_STATE_STATES_MAX]; u8 n_states; } sbp_msg_measurement_state_t;
typedef struct { u8 source, protocol; u8 fwd_payload[253]; u8 n_fwd_payload; } sbp_msg_fwd_t;
typedef struct { s16 weeks; s32 milliseconds; s16 microseconds; u8 flags; } sbp_msg_gnss_time_offset_t;
typedef struct { sbp_v4_gnss_signal_t sid; u32 tow; u8 message_type; u8 data[27]; } sbp_msg_sbas_raw_t;
typedef struct { u32 tow; u8 tow_f; s16 acc_x, acc_y, acc_z, gyr_x, gyr_y, gyr_z; } sbp_msg_imu_raw_t;
typedef struct { u8 imu_type; s16 temp; u8 imu_conf; } sbp_msg_imu_aux_t;
typedef struct { u64 time; u8 flags, source; s32 ticks; } sbp_msg_wheeltick_t;
typedef struct { u32 tow; s32 velocity; u8 flags; } sbp_msg_odometry_t;
typedef struct { u32 tow; double lat, lon, height; u16 h_accuracy, v_accuracy; u8 n_sats, flags; } sbp_msg_pos_llh_t;
typedef struct { u32 tow; double lat, lon, height; float cov_n_n, cov_n_e, cov_n_d, cov_e_e, cov_e_d, cov_d_d; u8 n_sats, flags; } sbp_msg_pos_llh_cov_t;
typedef struct { u32 tow; s32 x, y, z; u16 accuracy; u8 n_sats, flags; } sbp_msg_vel_ecef_t;
typedef struct { u32 tow; s32 n, e, d; u16 h_accuracy, v_accuracy; u8 n_sats, flags; } sbp_msg_vel_ned_t;
typedef struct { u32 tow; s32 roll, pitch, yaw; float roll_accuracy, pitch_accuracy, yaw_accuracy; u8 flags; } sbp_msg_orient_euler_t;
typedef struct { u32 tow; u32 heading; u8 n_sats, flags; } sbp_msg_baseline_heading_t;
typedef struct { u32 tow; u16 gdop, pdop, tdop, hdop, vdop; u8 flags; } sbp_msg_dops_t;
typedef struct { u32 tow; u16 age; } sbp_msg_age_corrections_t;
typedef struct { u16 wn; u32 tow; s32 ns_residual; u8 flags; } sbp_msg_gps_time_t;
typedef struct { u8 flags; u32 tow; u16 year; u8 month, day, hours, minutes, seconds; u32 ns; } sbp_msg_utc_time_t;
typedef struct { u8 sensor_type, flags; } sbp_solution_input_type_t;
typedef struct { u32 tow; u16 pdop, hdop, vdop, age_corrections; u8 alignment_status; u32 last_used_gnss_pos_tow, last_used_gnss_vel_tow; sbp_solution_input_type_t sol_in[119]; u8 n_sol_in; } sbp_msg_soln_meta_t;
typedef struct { u8 group_id, flags, n_group_msgs; u16 group_msgs[126]; } sbp_msg_group_meta_t;
typedef struct { u8 code; s16 value; } sbp_code_biases_content_t;
typedef struct { u8 code, integer_indicator, widelane_integer_indicator, discontinuity_counter; s32 bias; } sbp_phase_biases_content_t;
#define SBP_MSG_SSR_CODE_BIASES_BIASES_MAX 81u
#define SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX 30u
typedef struct { sbp_gps_time_sec_t time; sbp_v4_gnss_signal_t sid; u8 update_interval, iod_ssr; u32 iod; s32 radial, along, cross, dot_radial, dot_along, dot_cross, c0, c1, c2; } sbp_msg_ssr_orbit_clock_t;
typedef struct { sbp_gps_time_sec_t time; sbp_v4_gnss_signal_t sid; u8 update_interval, iod_ssr; sbp_code_biases_content_t biases[SBP_MSG_SSR_CODE_BIASES_BIASES_MAX]; u8 n_biases; } sbp_msg_ssr_code_biases_t;
typedef struct { sbp_gps_time_sec_t time; sbp_v4_gnss_signal_t sid; u8 update_interval, iod_ssr, dispersive_bias, mw_consistency; u16 yaw; s8 yaw_rate; sbp_phase_biases_content_t biases[SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX]; u8 n_biases; } sbp_msg_ssr_phase_biases_t;
#define SBP_MSG_LOG_TEXT_MAX 254u
typedef struct { char data[SBP_MAX_PAYLOAD_LEN]; size_t encoded_len; } sbp_string_t;
typedef struct { u8 level; sbp_string_t text; } sbp_msg_log_t;
bool sbp_msg_log_text_init(sbp_msg_log_t *msg);
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *msg, const char *buf, size_t len, bool should_trunc, size_t *n_written);
typedef enum {
  SbpMsgObs = 0x004A, SbpMsgEphemerisGps = 0x008A, SbpMsgEphemerisQzss = 0x008E, SbpMsgEphemerisBds = 0x0089, SbpMsgEphemerisGal = 0x008D, SbpMsgEphemerisGlo = 0x008B,
  SbpMsgBasePosEcef = 0x0048, SbpMsgGloBiases = 0x0075, SbpMsgLog = 0x0401, SbpMsgPosLlh = 0x020A, SbpMsgPosLlhCov = 0x0211, SbpMsgVelEcef = 0x020D, SbpMsgVelNed = 0x020E,
  SbpMsgOrientEuler = 0x0221, SbpMsgImuRaw = 0x0900, SbpMsgImuAux = 0x0901, SbpMsgWheeltick = 0x0904, SbpMsgOdometry = 0x0903, SbpMsgSvAzEl = 0x0097, SbpMsgMeasurementState = 0x0061,
  SbpMsgFwd = 0x0402, SbpMsgGnssTimeOffset = 0xFF07, SbpMsgSbasRaw = 0x7777, SbpMsgSsrOrbitClock = 0x05DD, SbpMsgSsrCodeBiases = 0x05E1, SbpMsgSsrPhaseBiases = 0x05E6,
  SbpMsgUtcTime = 0x0103, SbpMsgGpsTime = 0x0102, SbpMsgDops = 0x0208, SbpMsgAgeCorrections = 0x0210, SbpMsgSolnMeta = 0xFF0E, SbpMsgGroupMeta = 0xFF0A, SbpMsgBaselineHeading = 0x020F
} sbp_msg_type_t;
typedef union {
  sbp_msg_obs_t obs; sbp_msg_ephemeris_gps_t ephemeris_gps; sbp_msg_ephemeris_qzss_t ephemeris_qzss; sbp_msg_ephemeris_bds_t ephemeris_bds; sbp_msg_ephemeris_gal_t ephemeris_gal;
  sbp_msg_ephemeris_glo_t ephemeris_glo; sbp_msg_base_pos_ecef_t base_pos_ecef; sbp_msg_glo_biases_t glo_biases; sbp_msg_sv_az_el_t sv_az_el; sbp_msg_measurement_state_t measurement_state;
  sbp_msg_fwd_t fwd; sbp_msg_gnss_time_offset_t gnss_time_offset; sbp_msg_sbas_raw_t sbas_raw; sbp_msg_imu_raw_t imu_raw; sbp_msg_imu_aux_t imu_aux; sbp_msg_wheeltick_t wheeltick;
  sbp_msg_odometry_t odometry; sbp_msg_pos_llh_t pos_llh; sbp_msg_pos_llh_cov_t pos_llh_cov; sbp_msg_vel_ecef_t vel_ecef; sbp_msg_vel_ned_t vel_ned; sbp_msg_orient_euler_t orient_euler;
  sbp_msg_baseline_heading_t baseline_heading; sbp_msg_dops_t dops; sbp_msg_age_corrections_t age_corrections; sbp_msg_gps_time_t gps_time; sbp_msg_utc_time_t utc_time;
  sbp_msg_soln_meta_t soln_meta; sbp_msg_group_meta_t group_meta; sbp_msg_ssr_orbit_clock_t ssr_orbit_clock; sbp_msg_ssr_code_biases_t ssr_code_biases; sbp_msg_ssr_phase_biases_t ssr_phase_biases;
  sbp_msg_log_t log;
} sbp_msg_t;
typedef struct sbp_state { void *io_context; void *vp_callbacks; } sbp_state_t;
void sbp_state_init(sbp_state_t *s);
void sbp_state_set_io_context(sbp_state_t *s, void *context);
s8 sbp_send_message(sbp_state_t *s, u16 msg_type, u16 sender_id, u8 len, u8 *payload, s32 (*write)(u8 *buff, u32 n, void *context));
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t msg_type, u16 sender_id, const sbp_msg_t *msg, s32 (*write)(u8 *buff, u32 n, void *context));
s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t msg_type, sbp_msg_t *msg);
#ifdef __cplusplus
}
#endif
#endif
