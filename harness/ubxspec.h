/* Layouts of the UBX messages (u-blox M8 protocol specification): X(field, offset of the field in the frame from the class byte, width). */
#define T_hnr_pvt 76
#define C_hnr_pvt 0x28, 0x00
#define F_hnr_pvt(X) X(i_tow, 4, 4) X(year, 8, 2) X(month, 10, 1) X(day, 11, 1) X(hour, 12, 1) X(min, 13, 1) X(sec, 14, 1) X(valid, 15, 1) X(nano, 16, 4) \
  X(fix_type, 20, 1) X(flags, 21, 1) X(lon, 24, 4) X(lat, 28, 4) X(height, 32, 4) X(height_mean_sea_level, 36, 4) X(ground_speed, 40, 4) X(speed, 44, 4) \
  X(heading_of_motion, 48, 4) X(heading_vehicle, 52, 4) X(horizontal_accuracy, 56, 4) X(vertical_accuracy, 60, 4) X(speed_acc, 64, 4) X(heading_acc, 68, 4)
#define T_nav_att 36
#define C_nav_att 0x01, 0x05
#define F_nav_att(X) X(i_tow, 4, 4) X(version, 8, 1) X(roll, 12, 4) X(pitch, 16, 4) X(heading, 20, 4) X(acc_roll, 24, 4) X(acc_pitch, 28, 4) X(acc_heading, 32, 4)
#define T_nav_clock 24
#define C_nav_clock 0x01, 0x22
#define F_nav_clock(X) X(i_tow, 4, 4) X(clk_bias, 8, 4) X(clk_drift, 12, 4) X(time_acc, 16, 4) X(freq_acc, 20, 4)
#define T_nav_pvt 96
#define C_nav_pvt 0x01, 0x07
#define F_nav_pvt(X) X(i_tow, 4, 4) X(year, 8, 2) X(month, 10, 1) X(day, 11, 1) X(hour, 12, 1) X(min, 13, 1) X(sec, 14, 1) X(valid, 15, 1) X(time_acc, 16, 4) X(nano, 20, 4) \
  X(fix_type, 24, 1) X(flags, 25, 1) X(flags2, 26, 1) X(num_sats, 27, 1) X(lon, 28, 4) X(lat, 32, 4) X(height, 36, 4) X(height_mean_sea_level, 40, 4) \
  X(horizontal_accuracy, 44, 4) X(vertical_accuracy, 48, 4) X(vel_north, 52, 4) X(vel_east, 56, 4) X(vel_down, 60, 4) X(ground_speed, 64, 4) X(heading_of_motion, 68, 4) \
  X(speed_acc, 72, 4) X(heading_acc, 76, 4) X(PDOP, 80, 2) X(flags3, 82, 1) X(heading_vehicle, 88, 4) X(magnetic_declination, 92, 2) X(magnetic_declination_accuracy, 94, 2)
#define T_nav_velecef 24
#define C_nav_velecef 0x01, 0x11
#define F_nav_velecef(X) X(i_tow, 4, 4) X(ecefVX, 8, 4) X(ecefVY, 12, 4) X(ecefVZ, 16, 4) X(speed_acc, 20, 4)
#define T_nav_status 20
#define C_nav_status 0x01, 0x03
#define F_nav_status(X) X(i_tow, 4, 4) X(fix_type, 8, 1) X(status_flags, 9, 1) X(fix_status, 10, 1) X(status_flags_ext, 11, 1) X(ttff_ms, 12, 4) X(msss, 16, 4)
#define T_mga_gps_eph 72
#define C_mga_gps_eph 0x13, 0x00
#define F_mga_gps_eph(X) X(msg_type, 4, 1) X(version, 5, 1) X(sat_id, 6, 1) X(fit_interval, 8, 1) X(ura_index, 9, 1) X(sat_health, 10, 1) X(tgd, 11, 1) X(iodc, 12, 2) \
  X(toc, 14, 2) X(af2, 17, 1) X(af1, 18, 2) X(af0, 20, 4) X(crs, 24, 2) X(delta_N, 26, 2) X(m0, 28, 4) X(cuc, 32, 2) X(cus, 34, 2) X(e, 36, 4) X(sqrt_A, 40, 4) X(toe, 44, 2) \
  X(cic, 46, 2) X(omega0, 48, 4) X(cis, 52, 2) X(crc, 54, 2) X(i0, 56, 4) X(omega, 60, 4) X(omega_dot, 64, 4) X(i_dot, 68, 2)
#define T_esf_ins 40
#define C_esf_ins 0x10, 0x15
#define F_esf_ins(X) X(bitfield0, 4, 4) X(i_tow, 12, 4) X(x_ang_rate, 16, 4) X(y_ang_rate, 20, 4) X(z_ang_rate, 24, 4) X(x_accel, 28, 4) X(y_accel, 32, 4) X(z_accel, 36, 4)
/* repeated messages: fixed part, then n blocks of B bytes */
#define T_rxm_rawx 20
#define C_rxm_rawx 0x02, 0x15
#define F_rxm_rawx(X) X(rcv_wn, 12, 2) X(leap_second, 14, 1) X(num_meas, 15, 1) X(rec_status, 16, 1) X(version, 17, 1)
#define B_rxm_rawx 32
#define N_rxm_rawx(p) ((p)[15])
#define R_rxm_rawx(X) X(gnss_id[i], 20, 1) X(sat_id[i], 21, 1) X(sig_id[i], 22, 1) X(freq_id[i], 23, 1) X(lock_time[i], 24, 2) X(cno_dbhz[i], 26, 1) X(pr_std_m[i], 27, 1) \
  X(cp_std_cycles[i], 28, 1) X(doppler_std_hz[i], 29, 1) X(track_state[i], 30, 1)
#define T_nav_sat 12
#define C_nav_sat 0x01, 0x35
#define F_nav_sat(X) X(i_tow, 4, 4) X(version, 8, 1) X(num_svs, 9, 1)
#define B_nav_sat 12
#define N_nav_sat(p) ((p)[9] > 100 ? 100 : (p)[9])
#define R_nav_sat(X) X(data[i].gnss_id, 0, 1) X(data[i].sv_id, 1, 1) X(data[i].cno, 2, 1) X(data[i].elev, 3, 1) X(data[i].azim, 4, 2) X(data[i].pr_res, 6, 2) X(data[i].flags, 8, 4)
#define T_rxm_sfrbx 12
#define C_rxm_sfrbx 0x02, 0x13
#define F_rxm_sfrbx(X) X(gnss_id, 4, 1) X(sat_id, 5, 1) X(freq_id, 7, 1) X(num_words, 8, 1) X(channel, 9, 1) X(version, 10, 1)
#define B_rxm_sfrbx 4
#define N_rxm_sfrbx(p) ((p)[8])
#define MAXN_rxm_sfrbx 10
#define R_rxm_sfrbx(X) X(data_words[i], 0, 4)
#define T_esf_meas 12
#define C_esf_meas 0x10, 0x02
#define F_esf_meas(X) X(time_tag, 4, 4) X(flags, 8, 2) X(id, 10, 2)
#define B_esf_meas 4
#define N_esf_meas(p) ((p)[9] >> 3)
#define R_esf_meas(X) X(data[i], 0, 4)
#define T_esf_raw 8
#define C_esf_raw 0x10, 0x03
#define F_esf_raw(X) X(msss, 4, 4)
#define B_esf_raw 8
#define N_esf_raw(p) (((p)[2] | (p)[3] << 8) < 4 ? 0 : (((p)[2] | (p)[3] << 8) - 4) / 8)
#define MAXN_esf_raw 128
#define R_esf_raw(X) X(data[i], 0, 4) X(sensor_time_tag[i], 4, 4)
