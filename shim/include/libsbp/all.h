// Stand-in for libsbp (absent submodule): message types and the few functions called.
#ifndef SHIM_LIBSBP_H
#define SHIM_LIBSBP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define SBP_OK 0
#define SBP_OK_CALLBACK_EXECUTED 1
#define SBP_CALLBACK_ERROR -1
#define SBP_CRC_ERROR -2
#define SBP_NULL_ERROR -3
#define SBP_WRITE_ERROR -4
#define SBP_READ_ERROR -5
#define SBP_DECODE_ERROR -6
#define SBP_PREAMBLE 0x55
#define SBP_SENDER_ID 0x42
#define SBP_MAX_PAYLOAD_LEN 255
#define SBP_MAX_FRAME_LEN 263
#define SBP_FRAME_MSG_PREAMBLE 0x55

#define SHIM_SBP_IDS(X) \
 X(OBS,Obs,0x4A) X(BASE_POS_ECEF,BasePosEcef,0x48) X(EPHEMERIS_GPS,EphemerisGps,0x8A) X(EPHEMERIS_GLO,EphemerisGlo,0x8B) \
 X(EPHEMERIS_GAL,EphemerisGal,0x8D) X(EPHEMERIS_BDS,EphemerisBds,0x89) X(EPHEMERIS_QZSS,EphemerisQzss,0x8E) \
 X(GLO_BIASES,GloBiases,0x75) X(LOG,Log,0x401) X(FWD,Fwd,0x402) X(OSR,Osr,0x640) X(SSR_ORBIT_CLOCK,SsrOrbitClock,0x5DD) \
 X(SSR_CODE_BIASES,SsrCodeBiases,0x5E1) X(SSR_PHASE_BIASES,SsrPhaseBiases,0x5E6) X(IMU_RAW,ImuRaw,0x900) X(IMU_AUX,ImuAux,0x901) \
 X(ODOMETRY,Odometry,0x903) X(WHEELTICK,Wheeltick,0x904) X(GPS_TIME,GpsTime,0x102) X(UTC_TIME,UtcTime,0x103) X(DOPS,Dops,0x208) \
 X(POS_LLH,PosLlh,0x20A) X(VEL_ECEF,VelEcef,0x20D) X(VEL_NED,VelNed,0x20E) X(BASELINE_HEADING,BaselineHeading,0x20F) \
 X(AGE_CORRECTIONS,AgeCorrections,0x210) X(POS_LLH_COV,PosLlhCov,0x211) X(ORIENT_EULER,OrientEuler,0x221) \
 X(ANGULAR_RATE,AngularRate,0x222) X(SV_AZ_EL,SvAzEl,0x97) X(MEASUREMENT_STATE,MeasurementState,0x61) X(SBAS_RAW,SbasRaw,0x7777) \
 X(SOLN_META,SolnMeta,0xFF0E) X(GNSS_TIME_OFFSET,GnssTimeOffset,0xFF07) X(GROUP_META,GroupMeta,0xFF0A) \
 X(SSR_GRIDDED_CORRECTION_DEP_A,SsrGriddedCorrectionDepA,0x5F0) X(SSR_GRID_DEFINITION_DEP_A,SsrGridDefinitionDepA,0x5F5) \
 X(SSR_STEC_CORRECTION_DEP_A,SsrStecCorrectionDepA,0x5EB)
enum {
#define X(U,C,v) SBP_MSG_##U = v,
SHIM_SBP_IDS(X)
#undef X
};
typedef enum {
#define X(U,C,v) SbpMsg##C = v,
SHIM_SBP_IDS(X)
#undef X
  SbpMsgAll = 0x10000
} sbp_msg_type_t;

/* ------------------------------------------------------------ legacy, packed */
#pragma pack(push, 1)
typedef struct { u8 sat; u8 code; } sbp_gnss_signal_t;
typedef struct { u32 tow; u16 wn; } gps_time_sec_t;
typedef struct { u32 tow; s32 ns_residual; u16 wn; } sbp_gps_time_t;
typedef struct { s32 i; u8 f; } carrier_phase_t;
typedef struct { s16 i; u8 f; } doppler_t;
typedef struct { sbp_gps_time_t t; u8 n_obs; } observation_header_t;
typedef struct { u32 P; carrier_phase_t L; doppler_t D; u8 cn0; u8 lock; u8 flags; sbp_gnss_signal_t sid; } packed_obs_content_t;
typedef struct { observation_header_t header; packed_obs_content_t obs[0]; } msg_obs_t;
typedef struct { double x, y, z; } msg_base_pos_ecef_t;
typedef struct { u8 mask; s16 l1ca_bias, l1p_bias, l2ca_bias, l2p_bias; } msg_glo_biases_t;
typedef struct { sbp_gnss_signal_t sid; gps_time_sec_t toe; float ura; u32 fit_interval; u8 valid; u8 health_bits; } ephemeris_common_content_t;
typedef struct { ephemeris_common_content_t common; float tgd, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot; float af0, af1, af2; gps_time_sec_t toc; u8 iode; u16 iodc; } msg_ephemeris_gps_t;
typedef msg_ephemeris_gps_t msg_ephemeris_qzss_t;
typedef struct { ephemeris_common_content_t common; float tgd1, tgd2, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot, af0; float af1, af2; gps_time_sec_t toc; u8 iode; u16 iodc; } msg_ephemeris_bds_t;
typedef struct { ephemeris_common_content_t common; float bgd_e1e5a, bgd_e1e5b, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot, af0; float af1, af2; gps_time_sec_t toc; u16 iode; u16 iodc; u8 source; } msg_ephemeris_gal_t;
typedef struct { ephemeris_common_content_t common; float gamma, tau, d_tau; double pos[3]; double vel[3]; float acc[3]; u8 fcn; u8 iod; } msg_ephemeris_glo_t;
typedef struct { u8 level; char text[0]; } msg_log_t;
typedef struct { u16 wn; u32 tow; s32 ns_residual; u8 flags; } msg_gps_time_t;
typedef struct { u32 tow; double lat, lon, height; u16 h_accuracy, v_accuracy; u8 n_sats; u8 flags; } msg_pos_llh_t;
typedef struct { u32 tow; s32 n, e, d; u16 h_accuracy, v_accuracy; u8 n_sats; u8 flags; } msg_vel_ned_t;
typedef struct { u32 tow; s32 roll, pitch, yaw; float roll_accuracy, pitch_accuracy, yaw_accuracy; u8 flags; } msg_orient_euler_t;
typedef struct { u32 tow; s32 x, y, z; u8 flags; } msg_angular_rate_t;
typedef struct { u32 tow; u8 tow_f; s16 acc_x, acc_y, acc_z, gyr_x, gyr_y, gyr_z; } msg_imu_raw_t;
typedef struct { u8 imu_type; s16 temp; u8 imu_conf; } msg_imu_aux_t;
#pragma pack(pop)

/* ------------------------------------------------------------------------ v4 */
typedef struct { u8 sat; u8 code; } sbp_v4_gnss_signal_t;
typedef struct { u32 tow; s32 ns_residual; u16 wn; } sbp_v4_gps_time_t;
typedef struct { u32 tow; u16 wn; } sbp_gps_time_sec_t;
typedef struct { s32 i; u8 f; } sbp_carrier_phase_t;
typedef struct { s16 i; u8 f; } sbp_doppler_t;
typedef struct { sbp_v4_gps_time_t t; u8 n_obs; } sbp_observation_header_t;
typedef struct { u32 P; sbp_carrier_phase_t L; sbp_doppler_t D; u8 cn0; u8 lock; u8 flags; sbp_v4_gnss_signal_t sid; } sbp_packed_obs_content_t;
#define SBP_MSG_OBS_OBS_MAX 14
typedef struct { sbp_observation_header_t header; sbp_packed_obs_content_t obs[SBP_MSG_OBS_OBS_MAX]; u8 n_obs; } sbp_msg_obs_t;
typedef struct { double x, y, z; } sbp_msg_base_pos_ecef_t;
typedef struct { u8 mask; s16 l1ca_bias, l1p_bias, l2ca_bias, l2p_bias; } sbp_msg_glo_biases_t;
typedef struct { sbp_v4_gnss_signal_t sid; sbp_gps_time_sec_t toe; float ura; u32 fit_interval; u8 valid; u8 health_bits; } sbp_ephemeris_common_content_t;
typedef struct { sbp_ephemeris_common_content_t common; float tgd, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot; float af0, af1, af2; sbp_gps_time_sec_t toc; u8 iode; u16 iodc; } sbp_msg_ephemeris_gps_t;
typedef sbp_msg_ephemeris_gps_t sbp_msg_ephemeris_qzss_t;
typedef struct { sbp_ephemeris_common_content_t common; float tgd1, tgd2, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot, af0; float af1, af2; sbp_gps_time_sec_t toc; u8 iode; u16 iodc; } sbp_msg_ephemeris_bds_t;
typedef struct { sbp_ephemeris_common_content_t common; float bgd_e1e5a, bgd_e1e5b, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot, af0; float af1, af2; sbp_gps_time_sec_t toc; u16 iode; u16 iodc; u8 source; } sbp_msg_ephemeris_gal_t;
typedef struct { sbp_ephemeris_common_content_t common; float gamma, tau, d_tau; double pos[3]; double vel[3]; float acc[3]; u8 fcn; u8 iod; } sbp_msg_ephemeris_glo_t;
#define SBP_MSG_LOG_TEXT_MAX 254
typedef struct { char data[SBP_MSG_LOG_TEXT_MAX + 1]; size_t encoded_len; } sbp_string_t;
typedef struct { u8 level; sbp_string_t text; } sbp_msg_log_t;
typedef struct { u8 source; u8 protocol; u8 n_fwd_payload; u8 fwd_payload[253]; } sbp_msg_fwd_t;
typedef struct { u8 n; u8 raw[255]; } shim_raw_msg_t;
typedef struct { sbp_gps_time_sec_t time; sbp_v4_gnss_signal_t sid; u8 update_interval; u8 iod_ssr; u32 iod; s32 radial, along, cross, dot_radial, dot_along, dot_cross, c0, c1, c2; } sbp_msg_ssr_orbit_clock_t;
typedef struct { u8 code; s16 value; } sbp_code_biases_content_t;
#define SBP_MSG_SSR_CODE_BIASES_BIASES_MAX 81
typedef struct { sbp_gps_time_sec_t time; sbp_v4_gnss_signal_t sid; u8 update_interval; u8 iod_ssr; sbp_code_biases_content_t biases[81]; u8 n_biases; } sbp_msg_ssr_code_biases_t;
typedef struct { u8 code; u8 integer_indicator; u8 widelane_integer_indicator; u8 discontinuity_counter; s32 bias; } sbp_phase_biases_content_t;
#define SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX 30
typedef struct { sbp_gps_time_sec_t time; sbp_v4_gnss_signal_t sid; u8 update_interval; u8 iod_ssr; u8 dispersive_bias; u8 mw_consistency; u16 yaw; s8 yaw_rate; sbp_phase_biases_content_t biases[30]; u8 n_biases; } sbp_msg_ssr_phase_biases_t;
typedef struct { u32 tow; u8 tow_f; s16 acc_x, acc_y, acc_z, gyr_x, gyr_y, gyr_z; } sbp_msg_imu_raw_t;
typedef struct { u8 imu_type; s16 temp; u8 imu_conf; } sbp_msg_imu_aux_t;
typedef struct { u32 tow; s32 velocity; u8 flags; } sbp_msg_odometry_t;
typedef struct { u64 time; u8 flags; u8 source; s32 ticks; } sbp_msg_wheeltick_t;
typedef struct { u16 wn; u32 tow; s32 ns_residual; u8 flags; } sbp_msg_gps_time_t;
typedef struct { u8 flags; u32 tow; u16 year; u8 month, day, hours, minutes, seconds; u32 ns; } sbp_msg_utc_time_t;
typedef struct { u32 tow; u16 gdop, pdop, tdop, hdop, vdop; u8 flags; } sbp_msg_dops_t;
typedef struct { u32 tow; double lat, lon, height; u16 h_accuracy, v_accuracy; u8 n_sats; u8 flags; } sbp_msg_pos_llh_t;
typedef struct { u32 tow; double lat, lon, height; float cov_n_n, cov_n_e, cov_n_d, cov_e_e, cov_e_d, cov_d_d; u8 n_sats; u8 flags; } sbp_msg_pos_llh_cov_t;
typedef struct { u32 tow; s32 x, y, z; u16 accuracy; u8 n_sats; u8 flags; } sbp_msg_vel_ecef_t;
typedef struct { u32 tow; s32 n, e, d; u16 h_accuracy, v_accuracy; u8 n_sats; u8 flags; } sbp_msg_vel_ned_t;
typedef struct { u32 tow; u32 heading; u8 n_sats; u8 flags; } sbp_msg_baseline_heading_t;
typedef struct { u32 tow; u16 age; } sbp_msg_age_corrections_t;
typedef struct { u32 tow; s32 roll, pitch, yaw; float roll_accuracy, pitch_accuracy, yaw_accuracy; u8 flags; } sbp_msg_orient_euler_t;
typedef struct { u32 tow; s32 x, y, z; u8 flags; } sbp_msg_angular_rate_t;
typedef struct { sbp_v4_gnss_signal_t sid; u8 az; s8 el; } sbp_sv_az_el_t;
#define SBP_MSG_SV_AZ_EL_AZEL_MAX 63
typedef struct { sbp_sv_az_el_t azel[63]; u8 n_azel; } sbp_msg_sv_az_el_t;
typedef struct { sbp_v4_gnss_signal_t mesid; u8 cn0; } sbp_measurement_state_t;
#define SBP_MSG_MEASUREMENT_STATE_STATES_MAX 85
typedef struct { sbp_measurement_state_t states[85]; u8 n_states; } sbp_msg_measurement_state_t;
#define SBP_MSG_SBAS_RAW_DATA_MAX 27
typedef struct { sbp_v4_gnss_signal_t sid; u32 tow; u8 message_type; u8 data[27]; } sbp_msg_sbas_raw_t;
typedef struct { u8 sensor_type; u8 flags; } sbp_solution_input_type_t;
typedef struct { u32 tow; u16 pdop, hdop, vdop; u16 age_corrections; u8 alignment_status; u32 last_used_gnss_pos_tow; u32 last_used_gnss_vel_tow; sbp_solution_input_type_t sol_in[121]; u8 n_sol_in; } sbp_msg_soln_meta_t;
typedef struct { s16 weeks; s32 milliseconds; s16 microseconds; u8 flags; } sbp_msg_gnss_time_offset_t;
typedef struct { u8 group_id; u8 flags; u8 n_group_msgs; u16 group_msgs[126]; } sbp_msg_group_meta_t;
typedef union {
  sbp_msg_obs_t obs; sbp_msg_base_pos_ecef_t base_pos_ecef; sbp_msg_glo_biases_t glo_biases;
  sbp_msg_ephemeris_gps_t ephemeris_gps; sbp_msg_ephemeris_qzss_t ephemeris_qzss; sbp_msg_ephemeris_bds_t ephemeris_bds;
  sbp_msg_ephemeris_gal_t ephemeris_gal; sbp_msg_ephemeris_glo_t ephemeris_glo; sbp_msg_log_t log; sbp_msg_fwd_t fwd;
  sbp_msg_ssr_orbit_clock_t ssr_orbit_clock; sbp_msg_ssr_code_biases_t ssr_code_biases; sbp_msg_ssr_phase_biases_t ssr_phase_biases;
  sbp_msg_imu_raw_t imu_raw; sbp_msg_imu_aux_t imu_aux; sbp_msg_odometry_t odometry; sbp_msg_wheeltick_t wheeltick;
  sbp_msg_gps_time_t gps_time; sbp_msg_utc_time_t utc_time; sbp_msg_dops_t dops; sbp_msg_pos_llh_t pos_llh; sbp_msg_pos_llh_cov_t pos_llh_cov;
  sbp_msg_vel_ecef_t vel_ecef; sbp_msg_vel_ned_t vel_ned; sbp_msg_baseline_heading_t baseline_heading; sbp_msg_age_corrections_t age_corrections;
  sbp_msg_orient_euler_t orient_euler; sbp_msg_angular_rate_t angular_rate; sbp_msg_sv_az_el_t sv_az_el; sbp_msg_measurement_state_t measurement_state;
  sbp_msg_sbas_raw_t sbas_raw; sbp_msg_soln_meta_t soln_meta; sbp_msg_gnss_time_offset_t gnss_time_offset; sbp_msg_group_meta_t group_meta;
  sbp_msg_gps_time_t gps_time_gnss; sbp_msg_utc_time_t utc_time_gnss; sbp_msg_pos_llh_cov_t pos_llh_cov_gnss; sbp_msg_vel_ned_t vel_ned_gnss;
  shim_raw_msg_t raw;
} sbp_msg_t;

#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_MASK 0x7
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_GET(f) ((u8)((f) & 0x7))
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_INVALID 0
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_VALID 1

/* ------------------------------------------------------------------ functions */
typedef struct { void *io_context; } sbp_state_t;
typedef struct { int unused; } sbp_msg_callbacks_node_t;
typedef s32 (*sbp_write_fn_t)(u8 *buff, u32 n, void *context);
typedef s32 (*sbp_read_fn_t)(u8 *buff, u32 n, void *context);
void sbp_state_init(sbp_state_t *s);
void sbp_state_set_io_context(sbp_state_t *s, void *context);
s8 sbp_send_message(sbp_state_t *s, u16 msg_type, u16 sender, u8 len, u8 *payload, s32 (*write)(u8 *, u32, void *));
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t type, u16 sender, const sbp_msg_t *msg, s32 (*write)(u8 *, u32, void *));
s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t type, sbp_msg_t *msg);
s8 sbp_process(sbp_state_t *s, s32 (*read)(u8 *, u32, void *));
s8 sbp_register_callback(sbp_state_t *s, u16 msg_type, void *cb, void *context, sbp_msg_callbacks_node_t *node);
void sbp_msg_log_text_init(sbp_msg_log_t *m);
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *m, const char *buf, size_t len, bool should_trunc, size_t *n_written);
u16 crc16_ccitt(const u8 *buf, u32 len, u16 crc);
#ifdef __cplusplus
}
#endif
#endif
