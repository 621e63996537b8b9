/* Declarations of the part of libswiftnav that gnss-converters uses.
 * The real library is an empty git submodule here; these are the types,
 * constants and prototypes its public headers give, written down for analysis
 * only.  Function behaviour is given by /verif/stubs/models (C models) or by the
 * analyser's built-in summaries. */
#ifndef VERIF_SWIFTNAV_H
#define VERIF_SWIFTNAV_H
#include <assert.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

#define SWIFT_ATTR_PACKED __attribute__((packed))
#define SWIFT_ATTR_WARN_UNUSED_RESULT __attribute__((warn_unused_result))
#define SWIFT_ATTR_FORMAT(a, b) __attribute__((format(printf, a, b)))
#define SWIFT_ATTR_WEAK __attribute__((weak))

#ifndef MIN
#define MIN(a, b) (((a) < (b)) ? (a) : (b))
#endif
#ifndef MAX
#define MAX(a, b) (((a) > (b)) ? (a) : (b))
#endif
#define ARRAY_SIZE(arr) (sizeof(arr) / sizeof((arr)[0]))
#define COMPILER_ASSERT(x)
#define FLOAT_EQUALITY_EPS (1e-9)
#define FILENAME_FIELD

/* constants.h */
#define R2D (180.0 / M_PI)
#define D2R (M_PI / 180.0)
#define GPS_PI 3.1415926535898
#define GPS_L1_HZ 1.57542e9
#define GPS_L2_HZ 1.22760e9
#define GPS_L5_HZ 1.17645e9
#define GPS_C 299792458.0
#define GLO_L1_HZ 1.602e9
#define GLO_L2_HZ 1.246e9
#define GLO_L1_DELTA_HZ 5.625e5
#define GLO_L2_DELTA_HZ 4.375e5
#define SBAS_L1_HZ 1.57542e9
#define SBAS_L5_HZ 1.17645e9
#define BDS2_B11_HZ 1.561098e9
#define BDS2_B2_HZ 1.207140e9
#define BDS3_B1C_HZ 1.57542e9
#define BDS3_B5_HZ 1.17645e9
#define BDS3_B7_HZ 1.207140e9
#define BDS3_B3_HZ 1.26852e9
#define GAL_E1_HZ 1.57542e9
#define GAL_E6_HZ 1.27875e9
#define GAL_E5_HZ 1.17645e9
#define GAL_E7_HZ 1.207140e9
#define GAL_E8_HZ 1.191795e9
#define QZS_L1_HZ 1.57542e9
#define QZS_L2_HZ 1.22760e9
#define QZS_L5_HZ 1.17645e9
#define GPS_L1CA_CARR_FREQ GPS_L1_HZ
#define GLO_NAV_STR_BITS 85
#define GLO_NAV_STR_WORDS 3

#define C_1_2P4 0.0625
#define C_1_2P5 0.03125
#define C_1_2P6 0.015625
#define C_1_2P8 0.00390625
#define C_1_2P10 0.0009765625
#define C_1_2P11 0.00048828125
#define C_1_2P14 6.103515625e-05
#define C_1_2P19 1.9073486328125e-06
#define C_1_2P20 9.5367431640625e-07
#define C_1_2P24 5.9604644775390625e-08
#define C_1_2P27 7.4505805969238281e-09
#define C_1_2P29 1.862645149230957e-09
#define C_1_2P30 9.3132257461547852e-10
#define C_1_2P31 4.6566128730773926e-10
#define C_1_2P32 2.3283064365386963e-10
#define C_1_2P33 1.1641532182693481e-10
#define C_1_2P34 5.8207660913467407e-11
#define C_1_2P38 3.637978807091713e-12
#define C_1_2P40 9.0949470177292824e-13
#define C_1_2P41 4.5474735088646412e-13
#define C_1_2P43 1.1368683772161603e-13
#define C_1_2P44 5.6843418860808015e-14
#define C_1_2P46 1.4210854715202004e-14
#define C_1_2P48 3.5527136788005009e-15
#define C_1_2P49 1.7763568394002505e-15
#define C_1_2P50 8.8817841970012523e-16
#define C_1_2P51 4.4408920985006262e-16
#define C_1_2P55 2.7755575615628914e-17
#define C_1_2P59 1.7347234759768071e-18
#define C_1_2P66 1.3552527156068805e-20
#define C_1_2P68 3.3881317890172014e-21
#define INVALID_URA_VALUE (-1.0f)
#define BDS_FIT_INTERVAL_SECONDS (3 * 60 * 60)
#define GNSS_CAPB_BDS_D2NAV 0xf80000000000001fULL
#define SID_STR_LEN_MAX 16
extern const float g_bds_ura_table[16];

/* signal.h */
typedef enum constellation_e {
  CONSTELLATION_INVALID = -1,
  CONSTELLATION_GPS,
  CONSTELLATION_SBAS,
  CONSTELLATION_GLO,
  CONSTELLATION_BDS,
  CONSTELLATION_QZS,
  CONSTELLATION_GAL,
  CONSTELLATION_COUNT,
} constellation_t;

typedef enum code_e {
  CODE_INVALID = -1,
  CODE_GPS_L1CA = 0,
  CODE_GPS_L2CM = 1,
  CODE_SBAS_L1CA = 2,
  CODE_GLO_L1OF = 3,
  CODE_GLO_L2OF = 4,
  CODE_GPS_L1P = 5,
  CODE_GPS_L2P = 6,
  CODE_GPS_L2CL = 7,
  CODE_GPS_L2CX = 8,
  CODE_GPS_L5I = 9,
  CODE_GPS_L5Q = 10,
  CODE_GPS_L5X = 11,
  CODE_BDS2_B1 = 12,
  CODE_BDS2_B2 = 13,
  CODE_GAL_E1B = 14,
  CODE_GAL_E1C = 15,
  CODE_GAL_E1X = 16,
  CODE_GAL_E6B = 17,
  CODE_GAL_E6C = 18,
  CODE_GAL_E6X = 19,
  CODE_GAL_E7I = 20,
  CODE_GAL_E7Q = 21,
  CODE_GAL_E7X = 22,
  CODE_GAL_E8I = 23,
  CODE_GAL_E8Q = 24,
  CODE_GAL_E8X = 25,
  CODE_GAL_E5I = 26,
  CODE_GAL_E5Q = 27,
  CODE_GAL_E5X = 28,
  CODE_GLO_L1P = 29,
  CODE_GLO_L2P = 30,
  CODE_QZS_L1CA = 31,
  CODE_QZS_L1CI = 32,
  CODE_QZS_L1CQ = 33,
  CODE_QZS_L1CX = 34,
  CODE_QZS_L2CM = 35,
  CODE_QZS_L2CL = 36,
  CODE_QZS_L2CX = 37,
  CODE_QZS_L5I = 38,
  CODE_QZS_L5Q = 39,
  CODE_QZS_L5X = 40,
  CODE_SBAS_L5I = 41,
  CODE_SBAS_L5Q = 42,
  CODE_SBAS_L5X = 43,
  CODE_BDS3_B1CI = 44,
  CODE_BDS3_B1CQ = 45,
  CODE_BDS3_B1CX = 46,
  CODE_BDS3_B5I = 47,
  CODE_BDS3_B5Q = 48,
  CODE_BDS3_B5X = 49,
  CODE_BDS3_B7I = 50,
  CODE_BDS3_B7Q = 51,
  CODE_BDS3_B7X = 52,
  CODE_BDS3_B3I = 53,
  CODE_BDS3_B3Q = 54,
  CODE_BDS3_B3X = 55,
  CODE_GPS_L1CI = 56,
  CODE_GPS_L1CQ = 57,
  CODE_GPS_L1CX = 58,
  CODE_AUX_GPS = 59,
  CODE_AUX_SBAS = 60,
  CODE_AUX_GAL = 61,
  CODE_AUX_QZS = 62,
  CODE_AUX_BDS = 63,
  CODE_COUNT,
} code_t;

#define NUM_SATS_GPS 32
#define NUM_SATS_SBAS 39
#define NUM_SATS_GLO 28
#define NUM_SATS_BDS 64
#define NUM_SATS_QZS 10
#define NUM_SATS_GAL 36
#define GPS_FIRST_PRN 1
#define SBAS_FIRST_PRN 120
#define GLO_FIRST_PRN 1
#define BDS_FIRST_PRN 1
#define QZS_FIRST_PRN 193
#define GAL_FIRST_PRN 1
#define GLO_MIN_FCN (-7)
#define GLO_MAX_FCN 6
#define GLO_FCN_OFFSET 8
#define GLO_FCN_UNKNOWN 0

typedef struct {
  u16 sat;
  code_t code;
} gnss_signal_t;
typedef gnss_signal_t me_gnss_signal_t;

gnss_signal_t construct_sid(code_t code, u16 sat);
bool sid_valid(gnss_signal_t sid);
int sid_to_string(char *s, int n, gnss_signal_t sid);
const char *code_to_string(code_t code);
constellation_t code_to_constellation(code_t code);
constellation_t sid_to_constellation(gnss_signal_t sid);
code_t constellation_to_l1_code(constellation_t cons);
bool code_valid(code_t code);
bool is_gps(code_t code);
bool is_glo(code_t code);
bool is_gal(code_t code);
bool is_bds2(code_t code);
bool is_bds(code_t code);
bool is_sbas(code_t code);
bool is_qzss(code_t code);

/* gnss_time.h */
#define TOW_UNKNOWN (-1)
#define WN_UNKNOWN (-1)
#define GPS_TIME_UNKNOWN ((gps_time_t){TOW_UNKNOWN, WN_UNKNOWN})
#define MINUTE_SECS 60
#define HOUR_SECS 3600
#define DAY_SECS 86400
#define WEEK_DAYS 7
#define WEEK_SECS 604800
#define DAY_HOURS 24
#define HOUR_MINUTES 60
#define SECS_MS 1000
#define MS_TO_S 1e-3
#define SECS_US 1000000
#define SECS_NS 1000000000
#define MINUTE_MS 60000
#define WEEK_MS 604800000
#define GPS_WEEK_REFERENCE 1939
#define BDS_WEEK_TO_GPS_WEEK 1356
#define BDS_SECOND_TO_GPS_SECOND 14
#define UTC_SU_OFFSET 3
#define GPS_MINUS_UTC_SECS 18
#define FLOAT_EQUALITY_EPS (1e-9)
#define GPS_EPOCH 315964800
#define YEAR_MONTHS 12

typedef struct {
  double tow;
  s16 wn;
} gps_time_t;

typedef struct {
  u16 year;
  u8 month;
  u8 day;
  u8 hour;
  u8 min;
  u8 sec;
  double usec;
} utc_tm_dummy;

typedef struct {
  gps_time_t t_lse;
  s8 dt_ls;
  s8 dt_lsf;
  gps_time_t tot;
  double a0, a1, a2;
} utc_params_t;

bool gps_time_valid(const gps_time_t *t);
double gpsdifftime(const gps_time_t *end, const gps_time_t *beginning);
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p);
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p);
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref);
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref);
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref);
gps_time_t time2gps_t(time_t t_unix);
time_t gps2time(const gps_time_t *t);
gps_time_t date2gps(int year, int month, int day, int hour, int min, double sec);
void normalize_gps_time(gps_time_t *t);
gps_time_t glo2gps_with_utc_params(const void *t, const utc_params_t *p);

/* ephemeris.h / nav data decoding */
typedef struct {
  double tgd[2];
} tgd_t;
typedef struct {
  union {
    float gps_s[2];
    float qzss_s[2];
    float bds_s[2];
    float gal_s[2];
  } tgd;
  double crc, crs, cuc, cus, cic, cis;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  double af0, af1, af2;
  gps_time_t toc;
  u16 iodc;
  u16 iode;
} ephemeris_kepler_t;
typedef struct {
  double pos[3], vel[3], acc[3];
  double a_gf0, a_gf1;
} ephemeris_xyz_t;
typedef struct {
  double gamma, tau, d_tau;
  double pos[3], vel[3], acc[3];
  u16 fcn;
  u8 iod;
} ephemeris_glo_t;
typedef struct {
  gnss_signal_t sid;
  gps_time_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  u8 health_bits;
  u8 source;
  union {
    ephemeris_kepler_t kepler;
    ephemeris_xyz_t xyz;
    ephemeris_glo_t glo;
  } data;
} ephemeris_t;

#define NAV_SRC_INAV 0
#define NAV_SRC_FNAV 1
#define EPH_SOURCE_GAL_INAV 0
#define EPH_SOURCE_GAL_FNAV 1

float decode_ura_index(u8 index);
u8 encode_ura(float ura);
float decode_sisa_index(u8 index);
u32 decode_fit_interval(u8 fit_interval_flag, u16 iodc);
typedef struct {
  u8 prn;
  u16 iod_nav;
  u8 raw_content[16];
} gal_inav_decoded_dummy_t;
#define GAL_INAV_CONTENT_BYTE 16
#define GLO_MAX_STRING_NUM_IGN 5
typedef struct {
  u32 prn;
  gps_time_t time_of_signal;
  u8 dummy;
} nav_dummy_t;
void decode_ephemeris(const u32 words[3][8], ephemeris_t *e, double tot_tow);
void decode_bds_d1_ephemeris(const u32 words[3][10], gnss_signal_t sid, ephemeris_t *e);
void decode_gal_ephemeris(const u8 page[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e);
typedef struct {
  u32 word[4];
} glo_string_t;
void decode_glo_ephemeris(const glo_string_t strings[5], gnss_signal_t sid,
                          const utc_params_t *p, ephemeris_t *e);

void add_secs(gps_time_t *t, double secs);
bool normalize_gps_time_safe(gps_time_t *t);
u8 days_in_month(u16 year, u8 month);
bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e);
#define IS_GLO(sid) is_glo((code_t)((sid).code))
#define MEMCPY_S(dst, dstsz, src, n) memcpy_s(dst, dstsz, src, n)
/* bits.h / edc.h */
void bitshl(void *buf, u32 size, u32 shift);
void bitcopy(void *dst, u32 dst_index, const void *src, u32 src_index, u32 count);
u8 parity(u32 x);
u32 getbitu(const u8 *buff, u32 pos, u8 len);
s32 getbits(const u8 *buff, u32 pos, u8 len);
void setbitu(u8 *buff, u32 pos, u32 len, u32 data);
void setbits(u8 *buff, u32 pos, u32 len, s32 data);
u32 crc24q(const u8 *buf, u32 len, u32 crc);
u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert);

/* bitstream.h / bytestream.h */
typedef struct swiftnav_bitstream_s {
  const u8 *data;
  u32 len;    /* length in bits */
  u32 offset; /* current position in bits */
} swiftnav_bitstream_t;
void swiftnav_bitstream_init(swiftnav_bitstream_t *buf, const u8 *data, u32 len);
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *buf, u32 *output, u32 pos, u32 len);
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *buf, u64 *output, u32 pos, u32 len);
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *buf, s32 *output, u32 pos, u32 len);
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *buf, s64 *output, u32 pos, u32 len);
void swiftnav_bitstream_remove(swiftnav_bitstream_t *buf, u32 len);
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *buf);

typedef struct swiftnav_bytestream_s {
  const u8 *data;
  u32 len;
  u32 offset;
} swiftnav_bytestream_t;
void swiftnav_bytestream_init(swiftnav_bytestream_t *buf, const u8 *data, u32 len);
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *buf, u32 pos, u32 len, u8 *output);
void swiftnav_bytestream_remove(swiftnav_bytestream_t *buf, u32 len);
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *buf);

/* fifo_byte.h */
typedef u32 fifo_size_t;
typedef struct {
  fifo_size_t read_index;
  fifo_size_t write_index;
  fifo_size_t buffer_size;
  u8 *buffer;
} fifo_t;
void fifo_init(fifo_t *fifo, u8 *buffer, fifo_size_t buffer_size);
fifo_size_t fifo_length(fifo_t *fifo);
fifo_size_t fifo_space(fifo_t *fifo);
fifo_size_t fifo_read(fifo_t *fifo, u8 *buffer, fifo_size_t length);
fifo_size_t fifo_peek(fifo_t *fifo, u8 *buffer, fifo_size_t length);
fifo_size_t fifo_remove(fifo_t *fifo, fifo_size_t length);
fifo_size_t fifo_write(fifo_t *fifo, const u8 *buffer, fifo_size_t length);

/* sid_set.h */
typedef struct {
  u64 sats[CONSTELLATION_COUNT];
} gnss_sid_set_t;
void sid_set_init(gnss_sid_set_t *s);
void sid_set_add(gnss_sid_set_t *s, gnss_signal_t sid);
bool sid_set_contains(const gnss_sid_set_t *s, gnss_signal_t sid);

/* misc */
bool is_value_in_array_u16(const u16 *array, size_t size, u16 value);
size_t swift_strnlen(const char *s, size_t n);
int memcpy_s(void *dest, size_t destsz, const void *src, size_t count);
float get_geoid_offset(double lat_rad, double lon_rad);
bool double_approx_eq(double a, double b);
bool float_approx_eq(float a, float b);
bool float_equal(float a, float b);
u8 encode_lock_time(double nm_lock_time);
double decode_lock_time(u8 sbp_lock_time);

/* logging.h */
void log_(u8 level, const char *msg, ...);
void detailed_log_(u8 level, const char *f, int line, const char *msg, ...);
#define log_emerg(...) detailed_log_(0, __FILE__, __LINE__, __VA_ARGS__)
#define log_error(...) detailed_log_(3, __FILE__, __LINE__, __VA_ARGS__)
#define log_warn(...) detailed_log_(4, __FILE__, __LINE__, __VA_ARGS__)
#define log_info(...) detailed_log_(6, __FILE__, __LINE__, __VA_ARGS__)
#define log_debug(...) detailed_log_(7, __FILE__, __LINE__, __VA_ARGS__)

/* nav_meas.h */
typedef u16 nav_meas_flags_t;
#define NAV_MEAS_FLAG_CODE_VALID (1 << 0)
#define NAV_MEAS_FLAG_PHASE_VALID (1 << 1)
#define NAV_MEAS_FLAG_MEAS_DOPPLER_VALID (1 << 2)
#define NAV_MEAS_FLAG_COMP_DOPPLER_VALID (1 << 3)
#define NAV_MEAS_FLAG_HALF_CYCLE_KNOWN (1 << 4)
#define NAV_MEAS_FLAG_CN0_VALID (1 << 5)
#define NAV_MEAS_FLAG_RAIM_EXCLUSION (1 << 6)

/* pvt_result.h / gnss_capabilities.h */
#define VELOCITY_MODE_MASK 0x7
#define VELOCITY_MODE_NONE 0
#define POSITION_MODE_NONE 0
#define POSITION_MODE_SPP 1
#define POSITION_MODE_DGNSS 2
#define POSITION_MODE_FLOAT 3
#define POSITION_MODE_FIXED 4
#define POSITION_MODE_DEAD_RECKONING 5
#define POSITION_MODE_SBAS 6

#ifdef __cplusplus
}
#endif
#endif
