// Stand-in for libswiftnav (absent submodule): types, constants and small functions only.
#ifndef SHIM_SWIFTNAV_H
#define SHIM_SWIFTNAV_H
#include <assert.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#define SHIM_ENUM_CAST(T, v) static_cast<T>(v)
#else
#define SHIM_ENUM_CAST(T, v) ((T)(v))
#endif
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif

typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

#define SWIFT_ATTR_PACKED __attribute__((packed))
#define SWIFT_ATTR_FORMAT_STRING
#define SWIFT_ATTR_FORMAT(a, b) __attribute__((format(printf, a, b)))
#ifndef MIN
#define MIN(a, b) (((a) < (b)) ? (a) : (b))
#endif
#ifndef MAX
#define MAX(a, b) (((a) > (b)) ? (a) : (b))
#endif
#define ARRAY_SIZE(x) (sizeof(x) / sizeof((x)[0]))
#define STRNCPY(dst, src) do { strncpy((dst), (src), sizeof(dst) - 1); (dst)[sizeof(dst) - 1] = '\0'; } while (0)
#define COMPILER_UNUSED __attribute__((unused))

/* ---- constants */
#define R2D (180.0 / M_PI)
#define D2R (M_PI / 180.0)
#define GPS_C 299792458.0
#define GPS_L1_HZ 1.57542e9
#define GPS_L2_HZ 1.22760e9
#define GPS_L5_HZ 1.17645e9
#define SBAS_L1_HZ 1.57542e9
#define SBAS_L5_HZ 1.17645e9
#define GLO_L1_HZ 1.602e9
#define GLO_L2_HZ 1.246e9
#define GLO_L1_DELTA_HZ 5.625e5
#define GLO_L2_DELTA_HZ 4.375e5
#define BDS2_B11_HZ 1.561098e9
#define BDS2_B2_HZ 1.207140e9
#define BDS3_B1C_HZ 1.57542e9
#define BDS3_B5_HZ 1.17645e9
#define BDS3_B7_HZ 1.20714e9
#define BDS3_B3_HZ 1.26852e9
#define GAL_E1_HZ 1.57542e9
#define GAL_E6_HZ 1.27875e9
#define GAL_E7_HZ 1.20714e9
#define GAL_E8_HZ 1.191795e9
#define GAL_E5_HZ 1.17645e9
#define QZS_L1_HZ 1.57542e9
#define QZS_L2_HZ 1.22760e9
#define QZS_L5_HZ 1.17645e9
#define STD_GRAVITY 9.80665
#define GLO_SATELLITE_POSITION_EPS_METERS 1e-4
#define FLOAT_EQUALITY_EPS 1e-12

#define C_1_2P4 0x1p-4
#define C_1_2P5 0x1p-5
#define C_1_2P6 0x1p-6
#define C_1_2P8 0x1p-8
#define C_1_2P10 0x1p-10
#define C_1_2P11 0x1p-11
#define C_1_2P19 0x1p-19
#define C_1_2P20 0x1p-20
#define C_1_2P24 0x1p-24
#define C_1_2P29 0x1p-29
#define C_1_2P30 0x1p-30
#define C_1_2P31 0x1p-31
#define C_1_2P32 0x1p-32
#define C_1_2P33 0x1p-33
#define C_1_2P34 0x1p-34
#define C_1_2P40 0x1p-40
#define C_1_2P43 0x1p-43
#define C_1_2P46 0x1p-46
#define C_1_2P50 0x1p-50
#define C_1_2P55 0x1p-55
#define C_1_2P59 0x1p-59
#define C_1_2P66 0x1p-66
#define C_2P14 0x1p14
#define C_2P19 0x1p19
#define C_2P30 0x1p30

/* ---- signals */
typedef enum constellation_e {
  CONSTELLATION_INVALID = -1, CONSTELLATION_GPS, CONSTELLATION_SBAS, CONSTELLATION_GLO,
  CONSTELLATION_BDS, CONSTELLATION_QZS, CONSTELLATION_GAL, CONSTELLATION_COUNT
} constellation_t;
typedef enum code_e {
  CODE_INVALID = -1,
  CODE_GPS_L1CA = 0, CODE_GPS_L2CM = 1, CODE_SBAS_L1CA = 2, CODE_GLO_L1OF = 3, CODE_GLO_L2OF = 4,
  CODE_GPS_L1P = 5, CODE_GPS_L2P = 6, CODE_GPS_L2CL = 7, CODE_GPS_L2CX = 8, CODE_GPS_L5I = 9,
  CODE_GPS_L5Q = 10, CODE_GPS_L5X = 11, CODE_BDS2_B1 = 12, CODE_BDS2_B2 = 13, CODE_GAL_E1B = 14,
  CODE_GAL_E1C = 15, CODE_GAL_E1X = 16, CODE_GAL_E6B = 17, CODE_GAL_E6C = 18, CODE_GAL_E6X = 19,
  CODE_GAL_E7I = 20, CODE_GAL_E7Q = 21, CODE_GAL_E7X = 22, CODE_GAL_E8I = 23, CODE_GAL_E8Q = 24,
  CODE_GAL_E8X = 25, CODE_GAL_E5I = 26, CODE_GAL_E5Q = 27, CODE_GAL_E5X = 28, CODE_GLO_L1P = 29,
  CODE_GLO_L2P = 30, CODE_QZS_L1CA = 31, CODE_QZS_L1CI = 32, CODE_QZS_L1CQ = 33, CODE_QZS_L1CX = 34,
  CODE_QZS_L2CM = 35, CODE_QZS_L2CL = 36, CODE_QZS_L2CX = 37, CODE_QZS_L5I = 38, CODE_QZS_L5Q = 39,
  CODE_QZS_L5X = 40, CODE_SBAS_L5I = 41, CODE_SBAS_L5Q = 42, CODE_SBAS_L5X = 43, CODE_BDS3_B1CI = 44,
  CODE_BDS3_B1CQ = 45, CODE_BDS3_B1CX = 46, CODE_BDS3_B5I = 47, CODE_BDS3_B5Q = 48, CODE_BDS3_B5X = 49,
  CODE_BDS3_B7I = 50, CODE_BDS3_B7Q = 51, CODE_BDS3_B7X = 52, CODE_BDS3_B3I = 53, CODE_BDS3_B3Q = 54,
  CODE_BDS3_B3X = 55, CODE_GPS_L1CI = 56, CODE_GPS_L1CQ = 57, CODE_GPS_L1CX = 58, CODE_AUX_GPS = 59,
  CODE_AUX_SBAS = 60, CODE_AUX_GAL = 61, CODE_AUX_QZS = 62, CODE_AUX_BDS = 63, CODE_COUNT = 64
} code_t;
#define GPS_FIRST_PRN 1
#define SBAS_FIRST_PRN 120
#define GLO_FIRST_PRN 1
#define BDS_FIRST_PRN 1
#define GAL_FIRST_PRN 1
#define QZS_FIRST_PRN 193
#define NUM_SATS_GPS 32
#define NUM_SATS_SBAS 39
#define NUM_SATS_GLO 28
#define NUM_SATS_BDS 64
#define NUM_SATS_GAL 36
#define NUM_SATS_QZS 10
#define NUM_SATS (NUM_SATS_GPS + NUM_SATS_SBAS + NUM_SATS_GLO + NUM_SATS_BDS + NUM_SATS_GAL + NUM_SATS_QZS)
#define SID_STR_LEN_MAX 16
typedef struct { u16 sat; code_t code; } gnss_signal_t;
constellation_t code_to_constellation(code_t code);
constellation_t sid_to_constellation(gnss_signal_t sid);
code_t constellation_to_l1_code(constellation_t c);
bool code_valid(code_t code);
bool constellation_valid(constellation_t c);
bool sid_valid(gnss_signal_t sid);
int sid_to_string(char *s, int n, gnss_signal_t sid);
const char *code_to_string(code_t code);
static inline gnss_signal_t construct_sid(code_t code, u16 sat) { gnss_signal_t s; s.sat = sat; s.code = code; return s; }
static inline bool is_gps(code_t c) { return code_to_constellation(c) == CONSTELLATION_GPS; }
static inline bool is_glo(code_t c) { return code_to_constellation(c) == CONSTELLATION_GLO; }
static inline bool is_gal(code_t c) { return code_to_constellation(c) == CONSTELLATION_GAL; }
static inline bool is_sbas(code_t c) { return code_to_constellation(c) == CONSTELLATION_SBAS; }
static inline bool is_qzss(code_t c) { return code_to_constellation(c) == CONSTELLATION_QZS; }
static inline bool is_bds2(code_t c) { return c == CODE_BDS2_B1 || c == CODE_BDS2_B2; }
#define IS_GPS(sid) (CONSTELLATION_GPS == code_to_constellation((code_t)(sid).code))
#define IS_GLO(sid) (CONSTELLATION_GLO == code_to_constellation((code_t)(sid).code))
#define IS_GAL(sid) (CONSTELLATION_GAL == code_to_constellation((code_t)(sid).code))
#define IS_SBAS(sid) (CONSTELLATION_SBAS == code_to_constellation((code_t)(sid).code))

/* ---- time */
#define WN_UNKNOWN (-1)
#define TOW_UNKNOWN (-1)
#define SECS_MS 1000
#define SECS_US 1000000
#define SECS_NS 1000000000
#define MINUTE_SECS 60
#define HOUR_MINUTES 60
#define HOUR_SECS (60 * 60)
#define DAY_HOURS 24
#define DAY_SECS (24 * 60 * 60)
#define WEEK_DAYS 7
#define WEEK_SECS (7 * 24 * 60 * 60)
#define WEEK_MS (WEEK_SECS * SECS_MS)
#define DAY_MS (DAY_SECS * SECS_MS)
#define HOUR_MS (HOUR_SECS * SECS_MS)
#define MINUTE_MS (MINUTE_SECS * SECS_MS)
#define YEAR_MONTHS 12
#define LEAP_YEAR_DAYS 366
#define UTC_SU_OFFSET 3
#define GPS_EPOCH 315964800
#define BDS_WEEK_TO_GPS_WEEK 1356
#define BDS_SECOND_TO_GPS_SECOND 14
#define GAL_WEEK_TO_GPS_WEEK 1024
#define GPS_WEEK_REFERENCE 1876
typedef struct { double tow; s16 wn; } gps_time_t;
#ifdef __cplusplus
#define GPS_TIME_UNKNOWN (gps_time_t{TOW_UNKNOWN, WN_UNKNOWN})
#else
#define GPS_TIME_UNKNOWN ((gps_time_t){TOW_UNKNOWN, WN_UNKNOWN})
#endif
typedef struct { double a0, a1; gps_time_t tot, t_lse; s8 dt_ls, dt_lsf; } utc_params_t;
typedef struct { u16 year; u8 month, month_day, week_day, hour, minute; double second_int, second_frac; } utc_tm;
bool gps_time_valid(const gps_time_t *t);
double gpsdifftime(const gps_time_t *end, const gps_time_t *beginning);
void normalize_gps_time(gps_time_t *t);
bool normalize_gps_time_safe(gps_time_t *t);
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref);
void add_secs(gps_time_t *t, double secs);
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref);
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p);
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p);
gps_time_t time2gps_t(const time_t t_unix);
time_t gps2time(const gps_time_t *t);
gps_time_t date2gps(s32 year, s32 month, s32 day, s32 hour, s32 min, s32 sec);
u8 days_in_month(u16 year, u8 month);
gps_time_t gps_time_round_to_epoch(const gps_time_t *t, double hz);

/* ---- bits */
u32 getbitu(const u8 *buff, u32 pos, u8 len);
s32 getbits(const u8 *buff, u32 pos, u8 len);
u64 getbitul(const u8 *buff, u32 pos, u8 len);
s64 getbitsl(const u8 *buff, u32 pos, u8 len);
void setbitu(u8 *buff, u32 pos, u32 len, u32 data);
void setbits(u8 *buff, u32 pos, u32 len, s32 data);
void setbitul(u8 *buff, u32 pos, u32 len, u64 data);
void setbitsl(u8 *buff, u32 pos, u32 len, s64 data);
void bitshl(void *buf, u32 size, u32 shift);
void bitcopy(void *dst, u32 dst_index, const void *src, u32 src_index, u32 count);
typedef struct { const u8 *data; u32 len; u32 offset; } swiftnav_bitstream_t;
void swiftnav_bitstream_init(swiftnav_bitstream_t *b, const void *buf, u32 len_bits);
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *b, u32 *val, u32 pos, u32 len);
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *b, s32 *val, u32 pos, u32 len);
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *b, u64 *val, u32 pos, u32 len);
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *b, s64 *val, u32 pos, u32 len);
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *b, u32 len);
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *b);
typedef struct { const u8 *data; u32 len; u32 offset; } swiftnav_bytestream_t;
void swiftnav_bytestream_init(swiftnav_bytestream_t *b, const void *buf, u32 len);
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *b, u32 pos, u32 n, u8 *out);
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *b, u32 n);
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *b);

/* ---- containers, misc */
typedef u32 fifo_size_t;
typedef struct { fifo_size_t read_index, write_index, size; u8 *buffer; } fifo_t;
void fifo_init(fifo_t *f, u8 *buffer, fifo_size_t size);
fifo_size_t fifo_write(fifo_t *f, const u8 *buf, fifo_size_t n);
fifo_size_t fifo_read(fifo_t *f, u8 *buf, fifo_size_t n);
fifo_size_t fifo_peek(fifo_t *f, u8 *buf, fifo_size_t n);
fifo_size_t fifo_remove(fifo_t *f, fifo_size_t n);
fifo_size_t fifo_length(fifo_t *f);
fifo_size_t fifo_space(fifo_t *f);
bool float_equal(float a, float b);
bool double_equal(double a, double b);
bool double_within(double a, double b, double eps);
double get_geoid_offset(double lat, double lon);
bool is_value_in_array_u16(const u16 *a, size_t n, u16 v);
size_t swift_strnlen(const char *s, size_t n);
s32 memcpy_s(void *dst, size_t dst_size, const void *src, size_t n);
#define MEMCPY_S(dst, dst_size, src, n) do { if (0 != memcpy_s((dst), (dst_size), (src), (n))) { assert(0 && "MEMCPY_S"); } } while (0)
#define GNSS_CAPB_BDS_D2NAV ((u64)0x1F | ((u64)0x1F << 58))
typedef struct { u64 mask[CONSTELLATION_COUNT][4]; } gnss_sid_set_t;
#define LOG_EMERG 0
#define LOG_ALERT 1
#define LOG_CRIT 2
#define LOG_ERROR 3
#define LOG_WARN 4
#define LOG_NOTICE 5
#define LOG_INFO 6
#define LOG_DEBUG 7
typedef void (*pfn_log)(int level, const char *msg, ...);
void log_(int level, const char *msg, ...);
void detailed_log_(int level, const char *file, const int line, const char *msg, ...);
#define log_error(...) log_(LOG_ERROR, __VA_ARGS__)
#define log_warn(...) log_(LOG_WARN, __VA_ARGS__)
#define log_info(...) log_(LOG_INFO, __VA_ARGS__)
#define log_debug(...) log_(LOG_DEBUG, __VA_ARGS__)
void logging_set_implementation(pfn_log a, void *b);

/* ---- measurements, positions */
typedef u16 nav_meas_flags_t;
#define NAV_MEAS_FLAG_CODE_VALID ((nav_meas_flags_t)(1 << 0))
#define NAV_MEAS_FLAG_PHASE_VALID ((nav_meas_flags_t)(1 << 1))
#define NAV_MEAS_FLAG_MEAS_DOPPLER_VALID ((nav_meas_flags_t)(1 << 2))
#define NAV_MEAS_FLAG_HALF_CYCLE_KNOWN ((nav_meas_flags_t)(1 << 3))
#define NAV_MEAS_FLAG_CN0_VALID ((nav_meas_flags_t)(1 << 4))
#define NAV_MEAS_FLAG_RAIM_EXCLUSION ((nav_meas_flags_t)(1 << 5))
u8 encode_lock_time(double nm_lock_time);
double decode_lock_time(u8 sbp_lock_time);
enum { POSITION_MODE_NONE, POSITION_MODE_SPP, POSITION_MODE_DGNSS, POSITION_MODE_FLOAT, POSITION_MODE_FIXED, POSITION_MODE_DEAD_RECKONING, POSITION_MODE_SBAS };
#define VELOCITY_MODE_MASK 0x7
#define POSITION_MODE_MASK 0x7
enum { VELOCITY_MODE_NONE, VELOCITY_MODE_MEAS_DOPPLER, VELOCITY_MODE_COMP_DOPPLER, VELOCITY_MODE_DEAD_RECKONING };

/* ---- ephemerides: the broadcast decoders are stand-ins that carry a digest of
   the words they were given into the result, so that a check can tell from the
   emitted message which pages it was built from */
#define INVALID_URA_VALUE (-1)
#define BDS_FIT_INTERVAL_SECONDS (3 * HOUR_SECS)
#define GAL_INAV_CONTENT_BYTE 16
#define GLO_NAV_STR_BITS 85
#define GLO_NAV_STR_WORDS 3
#define EPH_SOURCE_GAL_INAV 0
#define EPH_SOURCE_GAL_FNAV 1
extern const float g_bds_ura_table[16];
typedef struct {
  union { float gps_s[2]; float qzss_s[2]; float bds_s[2]; float gal_s[2]; } tgd;
  double crc, crs, cuc, cus, cic, cis, dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot, af0;
  float af1, af2;
  gps_time_t toc; u16 iodc; u16 iode;
} ephemeris_kepler_t;
typedef struct { double gamma, tau, d_tau, pos[3], vel[3], acc[3]; u16 fcn; u8 iod; } ephemeris_glo_t;
typedef struct { double pos[3], vel[3], acc[3], a_gf0, a_gf1; } ephemeris_xyz_t;
typedef struct {
  gnss_signal_t sid; gps_time_t toe; float ura; u32 fit_interval; u8 valid, health_bits, source;
  union { ephemeris_kepler_t kepler; ephemeris_xyz_t xyz; ephemeris_glo_t glo; } data;
} ephemeris_t;
typedef struct { u32 word[GLO_NAV_STR_WORDS]; } glo_string_t;
void decode_ephemeris(const u32 frame_words[3][8], ephemeris_t *e, double tot_tow);
void decode_bds_d1_ephemeris(const u32 words[3][10], gnss_signal_t sid, ephemeris_t *e);
bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e);
void decode_glo_ephemeris(const glo_string_t strings[5], gnss_signal_t sid, const utc_params_t *p, ephemeris_t *e);
u32 shim_digest(const void *p, size_t n);
#ifdef __cplusplus
}
#endif
#endif
