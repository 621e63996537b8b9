/* Declarations of the part of libsbp (v4 C API) that gnss-converters uses;
 * analysis only (the library itself is an empty git submodule here). */
#ifndef VERIF_LIBSBP_H
#define VERIF_LIBSBP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <inttypes.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
#define SBP_ATTR_PACKED __attribute__((packed))

#define SBP_OK 0
#define SBP_OK_CALLBACK_EXECUTED 1
#define SBP_OK_CALLBACK_UNDEFINED 2
#define SBP_WRITE_ERROR (-5)
#define SBP_READ_ERROR (-6)
#define SBP_MAX_PAYLOAD_LEN 255
#define SBP_MAX_FRAME_LEN (SBP_MAX_PAYLOAD_LEN + 8)
#define SBP_SENDER_ID 0x42

/* message types */
#define SBP_MSG_OBS 0x004A
#define SBP_MSG_OSR 0x0640
#define SBP_MSG_BASE_POS_ECEF 0x0048
#define SBP_MSG_GLO_BIASES 0x0075
#define SBP_MSG_EPHEMERIS_GPS 0x008A
#define SBP_MSG_EPHEMERIS_GLO 0x008B
#define SBP_MSG_EPHEMERIS_BDS 0x0089
#define SBP_MSG_EPHEMERIS_GAL 0x008D
#define SBP_MSG_EPHEMERIS_QZSS 0x008E
#define SBP_MSG_LOG 0x0401
#define SBP_MSG_SSR_ORBIT_CLOCK 0x05DD
#define SBP_MSG_SSR_CODE_BIASES 0x05E1
#define SBP_MSG_SSR_PHASE_BIASES 0x05E6
#define SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A 0x05F0
#define SBP_MSG_SSR_GRID_DEFINITION_DEP_A 0x05F5
#define SBP_MSG_SSR_STEC_CORRECTION_DEP_A 0x05EB
#define SBP_MSG_GPS_TIME 0x0102
#define SBP_MSG_UTC_TIME 0x0103
#define SBP_MSG_DOPS 0x0208
#define SBP_MSG_POS_LLH 0x020A
#define SBP_MSG_POS_LLH_COV 0x0211
#define SBP_MSG_VEL_ECEF 0x020D
#define SBP_MSG_VEL_NED 0x020E
#define SBP_MSG_AGE_CORRECTIONS 0x0210
#define SBP_MSG_BASELINE_HEADING 0x020F
#define SBP_MSG_ORIENT_EULER 0x0221
#define SBP_MSG_ANGULAR_RATE 0x0222
#define SBP_MSG_IMU_RAW 0x0900
#define SBP_MSG_IMU_AUX 0x0901
#define SBP_MSG_ODOMETRY 0x0903
#define SBP_MSG_WHEELTICK 0x0904
#define SBP_MSG_SBAS_RAW 0x7777
#define SBP_MSG_FWD 0x0402
#define SBP_MSG_GNSS_TIME_OFFSET 0xFF07
#define SBP_MSG_SV_AZ_EL 0x0097
#define SBP_MSG_MEASUREMENT_STATE 0x0061
#define SBP_MSG_SOLN_META 0xFF0E
#define SBP_MSG_GROUP_META 0xFF0A

typedef enum {
  SbpMsgObs = SBP_MSG_OBS,
  SbpMsgOsr = SBP_MSG_OSR,
  SbpMsgBasePosEcef = SBP_MSG_BASE_POS_ECEF,
  SbpMsgGloBiases = SBP_MSG_GLO_BIASES,
  SbpMsgEphemerisGps = SBP_MSG_EPHEMERIS_GPS,
  SbpMsgEphemerisGlo = SBP_MSG_EPHEMERIS_GLO,
  SbpMsgEphemerisBds = SBP_MSG_EPHEMERIS_BDS,
  SbpMsgEphemerisGal = SBP_MSG_EPHEMERIS_GAL,
  SbpMsgEphemerisQzss = SBP_MSG_EPHEMERIS_QZSS,
  SbpMsgLog = SBP_MSG_LOG,
  SbpMsgSsrOrbitClock = SBP_MSG_SSR_ORBIT_CLOCK,
  SbpMsgSsrCodeBiases = SBP_MSG_SSR_CODE_BIASES,
  SbpMsgSsrPhaseBiases = SBP_MSG_SSR_PHASE_BIASES,
  SbpMsgGpsTime = SBP_MSG_GPS_TIME,
  SbpMsgUtcTime = SBP_MSG_UTC_TIME,
  SbpMsgDops = SBP_MSG_DOPS,
  SbpMsgPosLlh = SBP_MSG_POS_LLH,
  SbpMsgPosLlhCov = SBP_MSG_POS_LLH_COV,
  SbpMsgVelEcef = SBP_MSG_VEL_ECEF,
  SbpMsgVelNed = SBP_MSG_VEL_NED,
  SbpMsgAgeCorrections = SBP_MSG_AGE_CORRECTIONS,
  SbpMsgBaselineHeading = SBP_MSG_BASELINE_HEADING,
  SbpMsgOrientEuler = SBP_MSG_ORIENT_EULER,
  SbpMsgAngularRate = SBP_MSG_ANGULAR_RATE,
  SbpMsgImuRaw = SBP_MSG_IMU_RAW,
  SbpMsgImuAux = SBP_MSG_IMU_AUX,
  SbpMsgOdometry = SBP_MSG_ODOMETRY,
  SbpMsgWheeltick = SBP_MSG_WHEELTICK,
  SbpMsgSbasRaw = SBP_MSG_SBAS_RAW,
  SbpMsgFwd = SBP_MSG_FWD,
  SbpMsgGnssTimeOffset = SBP_MSG_GNSS_TIME_OFFSET,
  SbpMsgSvAzEl = SBP_MSG_SV_AZ_EL,
  SbpMsgMeasurementState = SBP_MSG_MEASUREMENT_STATE,
  SbpMsgSolnMeta = SBP_MSG_SOLN_META,
  SbpMsgGroupMeta = SBP_MSG_GROUP_META,
} sbp_msg_type_t;

/* ---- v4 message structures ---- */
typedef struct {
  u8 sat;
  u8 code;
} sbp_v4_gnss_signal_t;
typedef struct {
  u32 tow;
  u16 wn;
} sbp_gps_time_sec_t;
typedef struct {
  u32 tow;
  s32 ns_residual;
  u16 wn;
} sbp_v4_gps_time_t;
typedef struct {
  s32 i;
  u8 f;
} sbp_carrier_phase_t;
typedef struct {
  s16 i;
  u8 f;
} sbp_doppler_t;
typedef struct {
  sbp_v4_gps_time_t t;
  u8 n_obs;
} sbp_observation_header_t;
typedef struct {
  u32 P;
  sbp_carrier_phase_t L;
  sbp_doppler_t D;
  u8 cn0;
  u8 lock;
  u8 flags;
  sbp_v4_gnss_signal_t sid;
} sbp_packed_obs_content_t;
#define SBP_MSG_OBS_OBS_MAX 14u
typedef struct {
  sbp_observation_header_t header;
  sbp_packed_obs_content_t obs[SBP_MSG_OBS_OBS_MAX];
  u8 n_obs;
} sbp_msg_obs_t;
typedef struct {
  double x, y, z;
} sbp_msg_base_pos_ecef_t;
typedef struct {
  u8 mask;
  s16 l1ca_bias, l1p_bias, l2ca_bias, l2p_bias;
} sbp_msg_glo_biases_t;
typedef struct {
  sbp_v4_gnss_signal_t sid;
  sbp_gps_time_sec_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  u8 health_bits;
} sbp_ephemeris_common_content_t;
typedef struct {
  sbp_ephemeris_common_content_t common;
  float tgd, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  float af0, af1, af2;
  sbp_gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} sbp_msg_ephemeris_gps_t;
typedef sbp_msg_ephemeris_gps_t sbp_msg_ephemeris_qzss_t;
typedef struct {
  sbp_ephemeris_common_content_t common;
  float tgd1, tgd2, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  double af0;
  float af1, af2;
  sbp_gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} sbp_msg_ephemeris_bds_t;
typedef struct {
  sbp_ephemeris_common_content_t common;
  float bgd_e1e5a, bgd_e1e5b, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  double af0, af1;
  float af2;
  sbp_gps_time_sec_t toc;
  u16 iode;
  u16 iodc;
  u8 source;
} sbp_msg_ephemeris_gal_t;
typedef struct {
  sbp_ephemeris_common_content_t common;
  float gamma, tau, d_tau;
  double pos[3], vel[3];
  float acc[3];
  u8 fcn;
  u8 iod;
} sbp_msg_ephemeris_glo_t;
#define SBP_MSG_LOG_TEXT_MAX 254u
typedef struct {
  char data[255];
  size_t encoded_len;
} sbp_string_t;
typedef struct {
  u8 level;
  sbp_string_t text;
} sbp_msg_log_t;
typedef struct {
  sbp_gps_time_sec_t time;
  sbp_v4_gnss_signal_t sid;
  u8 update_interval;
  u8 iod_ssr;
  u32 iod;
  s32 radial, along, cross, dot_radial, dot_along, dot_cross, c0, c1, c2;
} sbp_msg_ssr_orbit_clock_t;
typedef struct {
  u8 code;
  s16 value;
} sbp_code_biases_content_t;
#define SBP_MSG_SSR_CODE_BIASES_BIASES_MAX 81u
typedef struct {
  sbp_gps_time_sec_t time;
  sbp_v4_gnss_signal_t sid;
  u8 update_interval;
  u8 iod_ssr;
  sbp_code_biases_content_t biases[SBP_MSG_SSR_CODE_BIASES_BIASES_MAX];
  u8 n_biases;
} sbp_msg_ssr_code_biases_t;
typedef struct {
  u8 code;
  u8 integer_indicator;
  u8 widelane_integer_indicator;
  u8 discontinuity_counter;
  s32 bias;
} sbp_phase_biases_content_t;
#define SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX 30u
typedef struct {
  sbp_gps_time_sec_t time;
  sbp_v4_gnss_signal_t sid;
  u8 update_interval;
  u8 iod_ssr;
  u8 dispersive_bias;
  u8 mw_consistency;
  u16 yaw;
  s8 yaw_rate;
  sbp_phase_biases_content_t biases[SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX];
  u8 n_biases;
} sbp_msg_ssr_phase_biases_t;
typedef struct {
  u16 wn;
  u32 tow;
  s32 ns_residual;
  u8 flags;
} sbp_msg_gps_time_t;
typedef struct {
  u8 flags;
  u32 tow;
  u16 year;
  u8 month, day, hours, minutes, seconds;
  u32 ns;
} sbp_msg_utc_time_t;
typedef struct {
  u32 tow;
  u16 gdop, pdop, tdop, hdop, vdop;
  u8 flags;
} sbp_msg_dops_t;
typedef struct {
  u32 tow;
  double lat, lon, height;
  u16 h_accuracy, v_accuracy;
  u8 n_sats, flags;
} sbp_msg_pos_llh_t;
typedef struct {
  u32 tow;
  double lat, lon, height;
  float cov_n_n, cov_n_e, cov_n_d, cov_e_e, cov_e_d, cov_d_d;
  u8 n_sats, flags;
} sbp_msg_pos_llh_cov_t;
typedef struct {
  u32 tow;
  s32 x, y, z;
  u16 accuracy;
  u8 n_sats, flags;
} sbp_msg_vel_ecef_t;
typedef struct {
  u32 tow;
  s32 n, e, d;
  u16 h_accuracy, v_accuracy;
  u8 n_sats, flags;
} sbp_msg_vel_ned_t;
typedef struct {
  u32 tow;
  u16 age;
} sbp_msg_age_corrections_t;
typedef struct {
  u32 tow;
  u32 heading;
  u8 n_sats, flags;
} sbp_msg_baseline_heading_t;
typedef struct {
  u32 tow;
  s32 roll, pitch, yaw;
  float roll_accuracy, pitch_accuracy, yaw_accuracy;
  u8 flags;
} sbp_msg_orient_euler_t;
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_MASK (0x7u)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_SHIFT (0u)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_GET(flags)                       \
  ((u8)((u8)((flags) >> SBP_ORIENT_EULER_INS_NAVIGATION_MODE_SHIFT) &         \
        SBP_ORIENT_EULER_INS_NAVIGATION_MODE_MASK))
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_INVALID (0)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_VALID (1)
typedef struct {
  u32 tow;
  u8 tow_f;
  s16 acc_x, acc_y, acc_z, gyr_x, gyr_y, gyr_z;
} sbp_msg_imu_raw_t;
typedef struct {
  u8 imu_type;
  s16 temp;
  u8 imu_conf;
} sbp_msg_imu_aux_t;
typedef struct {
  u32 tow;
  s32 velocity;
  u8 flags;
} sbp_msg_odometry_t;
typedef struct {
  u64 time;
  u8 flags;
  u8 source;
  s32 ticks;
} sbp_msg_wheeltick_t;
#define SBP_MSG_SBAS_RAW_DATA_MAX 27u
typedef struct {
  sbp_v4_gnss_signal_t sid;
  u32 tow;
  u8 message_type;
  u8 data[SBP_MSG_SBAS_RAW_DATA_MAX];
} sbp_msg_sbas_raw_t;
#define SBP_MSG_FWD_FWD_PAYLOAD_MAX 253u
typedef struct {
  u8 source;
  u8 protocol;
  u8 fwd_payload[SBP_MSG_FWD_FWD_PAYLOAD_MAX];
  u8 n_fwd_payload;
} sbp_msg_fwd_t;
typedef struct {
  s16 weeks;
  s32 milliseconds;
  s16 microseconds;
  u8 flags;
} sbp_msg_gnss_time_offset_t;
typedef struct {
  sbp_v4_gnss_signal_t sid;
  u8 az;
  s8 el;
} sbp_sv_az_el_t;
#define SBP_MSG_SV_AZ_EL_AZEL_MAX 63u
typedef struct {
  sbp_sv_az_el_t azel[SBP_MSG_SV_AZ_EL_AZEL_MAX];
  u8 n_azel;
} sbp_msg_sv_az_el_t;
typedef struct {
  sbp_v4_gnss_signal_t mesid;
  u8 cn0;
} sbp_measurement_state_t;
#define SBP_MSG_MEASUREMENT_STATE_STATES_MAX 85u
typedef struct {
  sbp_measurement_state_t states[SBP_MSG_MEASUREMENT_STATE_STATES_MAX];
  u8 n_states;
} sbp_msg_measurement_state_t;
#define SBP_MSG_GROUP_META_GROUP_MSGS_MAX 126u
typedef struct {
  u8 group_id;
  u8 flags;
  u8 n_group_msgs;
  u16 group_msgs[SBP_MSG_GROUP_META_GROUP_MSGS_MAX];
} sbp_msg_group_meta_t;
typedef struct {
  u8 sensor_type;
  u8 flags;
} sbp_solution_input_type_t;
typedef struct {
  u32 tow;
  u16 pdop, hdop, vdop;
  u16 age_corrections;
  u32 age_gnss;
  sbp_solution_input_type_t sol_in[120];
  u8 n_sol_in;
} sbp_msg_soln_meta_t;
typedef struct {
  u32 tow;
  s32 x, y, z;
  u8 flags;
} sbp_msg_angular_rate_t;

typedef union {
  sbp_msg_obs_t obs;
  sbp_msg_base_pos_ecef_t base_pos_ecef;
  sbp_msg_glo_biases_t glo_biases;
  sbp_msg_ephemeris_gps_t ephemeris_gps;
  sbp_msg_ephemeris_qzss_t ephemeris_qzss;
  sbp_msg_ephemeris_bds_t ephemeris_bds;
  sbp_msg_ephemeris_gal_t ephemeris_gal;
  sbp_msg_ephemeris_glo_t ephemeris_glo;
  sbp_msg_log_t log;
  sbp_msg_ssr_orbit_clock_t ssr_orbit_clock;
  sbp_msg_ssr_code_biases_t ssr_code_biases;
  sbp_msg_ssr_phase_biases_t ssr_phase_biases;
  sbp_msg_gps_time_t gps_time;
  sbp_msg_utc_time_t utc_time;
  sbp_msg_gps_time_t gps_time_gnss;
  sbp_msg_utc_time_t utc_time_gnss;
  sbp_msg_pos_llh_cov_t pos_llh_cov_gnss;
  sbp_msg_vel_ned_t vel_ned_gnss;
  sbp_msg_dops_t dops;
  sbp_msg_pos_llh_t pos_llh;
  sbp_msg_pos_llh_cov_t pos_llh_cov;
  sbp_msg_vel_ecef_t vel_ecef;
  sbp_msg_vel_ned_t vel_ned;
  sbp_msg_age_corrections_t age_corrections;
  sbp_msg_baseline_heading_t baseline_heading;
  sbp_msg_orient_euler_t orient_euler;
  sbp_msg_angular_rate_t angular_rate;
  sbp_msg_imu_raw_t imu_raw;
  sbp_msg_imu_aux_t imu_aux;
  sbp_msg_odometry_t odometry;
  sbp_msg_wheeltick_t wheeltick;
  sbp_msg_sbas_raw_t sbas_raw;
  sbp_msg_fwd_t fwd;
  sbp_msg_gnss_time_offset_t gnss_time_offset;
  sbp_msg_sv_az_el_t sv_az_el;
  sbp_msg_measurement_state_t measurement_state;
  sbp_msg_group_meta_t group_meta;
  sbp_msg_soln_meta_t soln_meta;
} sbp_msg_t;

void sbp_msg_log_text_init(sbp_msg_log_t *msg);
bool sbp_msg_log_text_set(sbp_msg_log_t *msg, const char *s, bool should_trunc, size_t *n_written);
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *msg, const char *buf, size_t len, bool should_trunc, size_t *n_written);

/* ---- legacy (packed) structures ---- */
typedef struct SBP_ATTR_PACKED {
  u8 sat;
  u8 code;
} sbp_gnss_signal_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 ns_residual;
  u16 wn;
} sbp_gps_time_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  u16 wn;
} gps_time_sec_t;
typedef struct SBP_ATTR_PACKED {
  s32 i;
  u8 f;
} carrier_phase_t;
typedef struct SBP_ATTR_PACKED {
  s16 i;
  u8 f;
} doppler_t;
typedef struct SBP_ATTR_PACKED {
  sbp_gps_time_t t;
  u8 n_obs;
} observation_header_t;
typedef struct SBP_ATTR_PACKED {
  u32 P;
  carrier_phase_t L;
  doppler_t D;
  u8 cn0;
  u8 lock;
  u8 flags;
  sbp_gnss_signal_t sid;
} packed_obs_content_t;
typedef struct SBP_ATTR_PACKED {
  u32 P;
  carrier_phase_t L;
  u8 lock;
  u8 flags;
  sbp_gnss_signal_t sid;
  u16 iono_std, tropo_std, range_std;
} packed_osr_content_t;
typedef struct SBP_ATTR_PACKED {
  observation_header_t header;
  packed_obs_content_t obs[0];
} msg_obs_t;
typedef struct SBP_ATTR_PACKED {
  observation_header_t header;
  packed_osr_content_t obs[0];
} msg_osr_t;
typedef struct SBP_ATTR_PACKED {
  double x, y, z;
} msg_base_pos_ecef_t;
typedef struct SBP_ATTR_PACKED {
  u8 mask;
  s16 l1ca_bias, l1p_bias, l2ca_bias, l2p_bias;
} msg_glo_biases_t;
typedef struct SBP_ATTR_PACKED {
  sbp_gnss_signal_t sid;
  gps_time_sec_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  u8 health_bits;
} ephemeris_common_content_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  float tgd, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  float af0, af1, af2;
  gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} msg_ephemeris_gps_t;
typedef msg_ephemeris_gps_t msg_ephemeris_qzss_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  float tgd1, tgd2, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  double af0;
  float af1, af2;
  gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} msg_ephemeris_bds_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  float bgd_e1e5a, bgd_e1e5b, c_rs, c_rc, c_uc, c_us, c_ic, c_is;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  double af0, af1;
  float af2;
  gps_time_sec_t toc;
  u16 iode;
  u16 iodc;
  u8 source;
} msg_ephemeris_gal_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  float gamma, tau, d_tau;
  double pos[3], vel[3];
  float acc[3];
  u8 fcn;
  u8 iod;
} msg_ephemeris_glo_t;
typedef struct SBP_ATTR_PACKED {
  u8 level;
  char text[0];
} msg_log_t;
typedef struct SBP_ATTR_PACKED {
  u16 wn;
  u32 tow;
  s32 ns_residual;
  u8 flags;
} msg_gps_time_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  double lat, lon, height;
  u16 h_accuracy, v_accuracy;
  u8 n_sats, flags;
} msg_pos_llh_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 n, e, d;
  u16 h_accuracy, v_accuracy;
  u8 n_sats, flags;
} msg_vel_ned_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 roll, pitch, yaw;
  float roll_accuracy, pitch_accuracy, yaw_accuracy;
  u8 flags;
} msg_orient_euler_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 x, y, z;
  u8 flags;
} msg_angular_rate_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  u8 tow_f;
  s16 acc_x, acc_y, acc_z, gyr_x, gyr_y, gyr_z;
} msg_imu_raw_t;
typedef struct SBP_ATTR_PACKED {
  u8 imu_type;
  s16 temp;
  u8 imu_conf;
} msg_imu_aux_t;

/* ---- sbp.h ---- */
typedef void (*sbp_msg_callback_t)(u16 sender_id, u8 len, u8 msg[], void *context);
typedef struct sbp_msg_callbacks_node {
  u16 msg_type;
  sbp_msg_callback_t cb;
  void *context;
  struct sbp_msg_callbacks_node *next;
} sbp_msg_callbacks_node_t;
typedef struct {
  int state;
  u16 msg_type, sender_id, crc;
  u8 msg_len, n_read;
  u8 msg_buff[SBP_MAX_FRAME_LEN];
  void *io_context;
  sbp_msg_callbacks_node_t *sbp_msg_callbacks_head;
} sbp_state_t;
typedef s32 (*sbp_read_fn_t)(u8 *buff, u32 n, void *context);
typedef s32 (*sbp_write_fn_t)(u8 *buff, u32 n, void *context);
void sbp_state_init(sbp_state_t *s);
void sbp_state_set_io_context(sbp_state_t *s, void *context);
s8 sbp_register_callback(sbp_state_t *s, u16 msg_type, sbp_msg_callback_t cb, void *context, sbp_msg_callbacks_node_t *node);
s8 sbp_process(sbp_state_t *s, sbp_read_fn_t read);
s8 sbp_send_message(sbp_state_t *s, u16 msg_type, u16 sender_id, u8 len, u8 *payload, sbp_write_fn_t write);
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t msg_type, u16 sender_id, const sbp_msg_t *msg, sbp_write_fn_t write);
s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t msg_type, sbp_msg_t *msg);
s8 sbp_message_process(sbp_state_t *s, sbp_read_fn_t read);
u16 crc16_ccitt(const u8 *buf, u32 len, u16 crc);
#ifdef __cplusplus
}
#endif
#endif
