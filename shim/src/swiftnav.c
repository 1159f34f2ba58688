/* Stand-in for libswiftnav: only what the code under test calls.  Written from the
   documented behaviour of each function (standard definitions: GPS time arithmetic,
   leap-second table, MSB-first bit access, CRC-24Q), not from the code under test. */
#include <swiftnav/common.h>
#include <swiftnav/edc.h>
#include "shim.h"

/* ------------------------------------------------------------------ signals */
constellation_t code_to_constellation(code_t c) {
  switch ((int)c) {
    case CODE_GPS_L1CA: case CODE_GPS_L2CM: case CODE_GPS_L1P: case CODE_GPS_L2P: case CODE_GPS_L2CL:
    case CODE_GPS_L2CX: case CODE_GPS_L5I: case CODE_GPS_L5Q: case CODE_GPS_L5X: case CODE_GPS_L1CI:
    case CODE_GPS_L1CQ: case CODE_GPS_L1CX: case CODE_AUX_GPS: return CONSTELLATION_GPS;
    case CODE_SBAS_L1CA: case CODE_SBAS_L5I: case CODE_SBAS_L5Q: case CODE_SBAS_L5X: case CODE_AUX_SBAS:
      return CONSTELLATION_SBAS;
    case CODE_GLO_L1OF: case CODE_GLO_L2OF: case CODE_GLO_L1P: case CODE_GLO_L2P: return CONSTELLATION_GLO;
    case CODE_BDS2_B1: case CODE_BDS2_B2: case CODE_BDS3_B1CI: case CODE_BDS3_B1CQ: case CODE_BDS3_B1CX:
    case CODE_BDS3_B5I: case CODE_BDS3_B5Q: case CODE_BDS3_B5X: case CODE_BDS3_B7I: case CODE_BDS3_B7Q:
    case CODE_BDS3_B7X: case CODE_BDS3_B3I: case CODE_BDS3_B3Q: case CODE_BDS3_B3X: case CODE_AUX_BDS:
      return CONSTELLATION_BDS;
    case CODE_QZS_L1CA: case CODE_QZS_L1CI: case CODE_QZS_L1CQ: case CODE_QZS_L1CX: case CODE_QZS_L2CM:
    case CODE_QZS_L2CL: case CODE_QZS_L2CX: case CODE_QZS_L5I: case CODE_QZS_L5Q: case CODE_QZS_L5X:
    case CODE_AUX_QZS: return CONSTELLATION_QZS;
    case CODE_GAL_E1B: case CODE_GAL_E1C: case CODE_GAL_E1X: case CODE_GAL_E6B: case CODE_GAL_E6C:
    case CODE_GAL_E6X: case CODE_GAL_E7I: case CODE_GAL_E7Q: case CODE_GAL_E7X: case CODE_GAL_E8I:
    case CODE_GAL_E8Q: case CODE_GAL_E8X: case CODE_GAL_E5I: case CODE_GAL_E5Q: case CODE_GAL_E5X:
    case CODE_AUX_GAL: return CONSTELLATION_GAL;
    default: return CONSTELLATION_INVALID;
  }
}
bool code_valid(code_t c) { return (int)c >= 0 && (int)c < CODE_COUNT; }
bool constellation_valid(constellation_t c) { return (int)c >= 0 && (int)c < CONSTELLATION_COUNT; }
constellation_t sid_to_constellation(gnss_signal_t s) { return code_to_constellation(s.code); }
code_t constellation_to_l1_code(constellation_t c) {
  switch (c) {
    case CONSTELLATION_GPS: return CODE_GPS_L1CA;
    case CONSTELLATION_SBAS: return CODE_SBAS_L1CA;
    case CONSTELLATION_GLO: return CODE_GLO_L1OF;
    case CONSTELLATION_BDS: return CODE_BDS2_B1;
    case CONSTELLATION_QZS: return CODE_QZS_L1CA;
    case CONSTELLATION_GAL: return CODE_GAL_E1B;
    default: return CODE_INVALID;
  }
}
bool sid_valid(gnss_signal_t s) {
  if (!code_valid(s.code)) return false;
  int lo, n;
  switch (sid_to_constellation(s)) {
    case CONSTELLATION_GPS: lo = GPS_FIRST_PRN; n = NUM_SATS_GPS; break;
    case CONSTELLATION_SBAS: lo = SBAS_FIRST_PRN; n = NUM_SATS_SBAS; break;
    case CONSTELLATION_GLO: lo = GLO_FIRST_PRN; n = NUM_SATS_GLO; break;
    case CONSTELLATION_BDS: lo = BDS_FIRST_PRN; n = NUM_SATS_BDS; break;
    case CONSTELLATION_QZS: lo = QZS_FIRST_PRN; n = NUM_SATS_QZS; break;
    case CONSTELLATION_GAL: lo = GAL_FIRST_PRN; n = NUM_SATS_GAL; break;
    default: return false;
  }
  return s.sat >= lo && s.sat < lo + n;
}
const char *code_to_string(code_t c) { (void)c; return "code"; }
int sid_to_string(char *s, int n, gnss_signal_t sid) { return snprintf(s, (size_t)n, "%d/%u", (int)sid.code, sid.sat); }

/* --------------------------------------------------------------------- time */
bool gps_time_valid(const gps_time_t *t) {
  return isfinite(t->tow) && t->tow >= 0 && t->tow < WEEK_SECS && t->wn >= 0;
}
double gpsdifftime(const gps_time_t *e, const gps_time_t *b) {
  double dt = e->tow - b->tow;
  if (e->wn == WN_UNKNOWN || b->wn == WN_UNKNOWN) {
    if (dt > WEEK_SECS / 2) dt -= WEEK_SECS;
    else if (dt < -WEEK_SECS / 2) dt += WEEK_SECS;
  } else {
    dt += ((double)e->wn - b->wn) * WEEK_SECS;
  }
  return dt;
}
void normalize_gps_time(gps_time_t *t) {
  assert(isfinite(t->tow));
  while (t->tow < 0) { t->tow += WEEK_SECS; t->wn -= 1; }
  while (t->tow >= WEEK_SECS) { t->tow -= WEEK_SECS; t->wn += 1; }
}
bool normalize_gps_time_safe(gps_time_t *t) {
  if (!isfinite(t->tow) || fabs(t->tow) > 100.0 * WEEK_SECS) return false;
  while (t->tow < 0) { t->tow += WEEK_SECS; t->wn -= 1; }
  while (t->tow >= WEEK_SECS) { t->tow -= WEEK_SECS; t->wn += 1; }
  return true;
}
void add_secs(gps_time_t *t, double s) { t->tow += s; normalize_gps_time(t); }
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref) {
  if (!isfinite(t->tow)) return false;
  if (ref->wn == WN_UNKNOWN) return true;
  t->wn = ref->wn;
  double dt = t->tow - ref->tow;
  if (dt > WEEK_SECS / 2) t->wn--;
  else if (dt < -WEEK_SECS / 2) t->wn++;
  return true;
}
u16 gps_adjust_week_cycle(u16 raw, u16 ref) {
  return raw >= ref ? raw : (u16)(raw + 1024 * ((ref + 1023 - raw) / 1024));
}
/* GPS week and second at which each leap second since 1980 took effect (UTC) */
static const struct { int y, m, d; } LEAPS[] = {
  {1981,7,1},{1982,7,1},{1983,7,1},{1985,7,1},{1988,1,1},{1990,1,1},{1991,1,1},{1992,7,1},{1993,7,1},
  {1994,7,1},{1996,1,1},{1997,7,1},{1999,1,1},{2006,1,1},{2009,1,1},{2012,7,1},{2015,7,1},{2017,1,1}};
static int64_t civil_days(int y, int m, int d) {   /* days since 1970-01-01 */
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = (unsigned)(y - era * 400);
  unsigned doy = (unsigned)((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1);
  unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (int64_t)doe - 719468;
}
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p) {
  (void)p;
  if (t->wn == WN_UNKNOWN) return 0;
  double s = (double)t->wn * WEEK_SECS + t->tow;
  int n = 0;
  for (size_t i = 0; i < ARRAY_SIZE(LEAPS); i++) {
    double e = (double)(civil_days(LEAPS[i].y, LEAPS[i].m, LEAPS[i].d) * 86400 - GPS_EPOCH) + n;
    /* the new offset applies from the end of the inserted second */
    if (s >= e + 1) n++;
  }
  return n;
}
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
  (void)p;
  if (t->wn == WN_UNKNOWN) return false;
  double s = (double)t->wn * WEEK_SECS + t->tow;
  for (size_t i = 0; i < ARRAY_SIZE(LEAPS); i++) {
    double e = (double)(civil_days(LEAPS[i].y, LEAPS[i].m, LEAPS[i].d) * 86400 - GPS_EPOCH) + (double)i;
    if (s >= e && s < e + 1) return true;
  }
  return false;
}
gps_time_t time2gps_t(const time_t u) {
  gps_time_t t;
  int64_t s = (int64_t)u - GPS_EPOCH;
  t.wn = (s16)(s / WEEK_SECS); t.tow = (double)(s % WEEK_SECS);
  double off = get_gps_utc_offset(&t, NULL);
  t.tow += off; normalize_gps_time(&t);
  return t;
}
time_t gps2time(const gps_time_t *t) {
  return (time_t)(GPS_EPOCH + (double)t->wn * WEEK_SECS + t->tow - get_gps_utc_offset(t, NULL));
}
gps_time_t date2gps(s32 y, s32 mo, s32 d, s32 h, s32 mi, s32 s) {
  gps_time_t t;
  int64_t x = civil_days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s - GPS_EPOCH;
  t.wn = (s16)(x / WEEK_SECS); t.tow = (double)(x % WEEK_SECS);
  double off = get_gps_utc_offset(&t, NULL);
  t.tow += off; normalize_gps_time(&t);
  return t;
}
u8 days_in_month(u16 y, u8 m) {
  static const u8 n[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (m < 1 || m > 12) return 0;
  return (u8)(n[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))));
}
gps_time_t gps_time_round_to_epoch(const gps_time_t *t, double hz) {
  gps_time_t r = *t; r.tow = rint(t->tow * hz) / hz; normalize_gps_time(&r); return r;
}

/* --------------------------------------------------------------------- bits */
u64 getbitul(const u8 *b, u32 pos, u8 len) {
  u64 v = 0;
  for (u32 i = pos; i < pos + len; i++) v = (v << 1) | ((b[i / 8] >> (7 - i % 8)) & 1u);
  return v;
}
u32 getbitu(const u8 *b, u32 pos, u8 len) { return (u32)getbitul(b, pos, len); }
static s64 sext(u64 v, u8 len) {
  if (len == 0 || len >= 64) return (s64)v;
  u64 m = (u64)1 << (len - 1);
  return (s64)((v ^ m) - m);
}
s32 getbits(const u8 *b, u32 pos, u8 len) { return (s32)sext(getbitul(b, pos, len), len); }
s64 getbitsl(const u8 *b, u32 pos, u8 len) { return sext(getbitul(b, pos, len), len); }
void setbitul(u8 *b, u32 pos, u32 len, u64 v) {
  for (u32 k = 0; k < len; k++) {
    u32 i = pos + k; u8 m = (u8)(0x80u >> (i % 8));
    if ((v >> (len - 1 - k)) & 1u) b[i / 8] |= m; else b[i / 8] &= (u8)~m;
  }
}
void setbitu(u8 *b, u32 pos, u32 len, u32 v) { setbitul(b, pos, len, v); }
void setbits(u8 *b, u32 pos, u32 len, s32 v) { setbitul(b, pos, len, (u64)(s64)v); }
void setbitsl(u8 *b, u32 pos, u32 len, s64 v) { setbitul(b, pos, len, (u64)v); }
void bitcopy(void *dst, u32 di, const void *src, u32 si, u32 n) {
  for (u32 k = 0; k < n; k++) setbitul((u8 *)dst, di + k, 1, getbitul((const u8 *)src, si + k, 1));
}
void bitshl(void *buf, u32 size, u32 shift) {
  u8 *b = (u8 *)buf; u32 n = size * 8;
  for (u32 i = 0; i < n; i++) setbitul(b, i, 1, i + shift < n ? getbitul(b, i + shift, 1) : 0);
}
void swiftnav_bitstream_init(swiftnav_bitstream_t *b, const void *buf, u32 len) {
  b->data = (const u8 *)buf; b->len = len; b->offset = 0;
}
static bool room(const swiftnav_bitstream_t *b, u32 pos, u32 len) {
  return b->offset <= b->len && (u64)pos + len <= (u64)(b->len - b->offset);
}
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *b, u32 *v, u32 pos, u32 len) {
  if (!room(b, pos, len)) return false;
  *v = getbitu(b->data, b->offset + pos, (u8)len); return true;
}
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *b, s32 *v, u32 pos, u32 len) {
  if (!room(b, pos, len)) return false;
  *v = getbits(b->data, b->offset + pos, (u8)len); return true;
}
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *b, u64 *v, u32 pos, u32 len) {
  if (!room(b, pos, len)) return false;
  *v = getbitul(b->data, b->offset + pos, (u8)len); return true;
}
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *b, s64 *v, u32 pos, u32 len) {
  if (!room(b, pos, len)) return false;
  *v = getbitsl(b->data, b->offset + pos, (u8)len); return true;
}
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *b, u32 len) {
  if (!room(b, 0, len)) return false;
  b->offset += len; return true;
}
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *b) { return b->len - b->offset; }
void swiftnav_bytestream_init(swiftnav_bytestream_t *b, const void *buf, u32 len) {
  b->data = (const u8 *)buf; b->len = len; b->offset = 0;
}
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *b, u32 pos, u32 n, u8 *out) {
  if (b->offset > b->len || (u64)pos + n > (u64)(b->len - b->offset)) return false;
  memcpy(out, b->data + b->offset + pos, n); return true;
}
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *b, u32 n) {
  if (b->offset > b->len || n > b->len - b->offset) return false;
  b->offset += n; return true;
}
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *b) { return b->len - b->offset; }
u32 crc24q(const u8 *buf, u32 len, u32 crc) {
  static u32 tab[256]; static int init;
  if (!init) {
    for (u32 i = 0; i < 256; i++) {
      u32 c = i << 16;
      for (int k = 0; k < 8; k++) { c <<= 1; if (c & 0x1000000) c ^= 0x1864CFB; }
      tab[i] = c & 0xFFFFFF;
    }
    init = 1;
  }
  for (u32 i = 0; i < len; i++) crc = ((crc << 8) & 0xFFFFFF) ^ tab[((crc >> 16) ^ buf[i]) & 0xFF];
  return crc;
}
u32 crc24q_bits(u32 crc, const u8 *buf, u32 n, bool invert) {
  /* n bits, right-aligned in whole bytes: leading zero bits do not change a zero crc */
  for (u32 i = 0; i < n; i++) {
    u32 bit = (u32)((buf[i / 8] >> (7 - i % 8)) & 1) ^ (u32)invert;
    u32 top = ((crc >> 23) & 1) ^ bit;
    crc = (crc << 1) & 0xFFFFFF;
    if (top) crc ^= 0x864CFB;
  }
  return crc;
}

/* --------------------------------------------------------------- containers */
void fifo_init(fifo_t *f, u8 *b, fifo_size_t n) { f->buffer = b; f->size = n; f->read_index = f->write_index = 0; }
fifo_size_t fifo_length(fifo_t *f) { return f->write_index - f->read_index; }
fifo_size_t fifo_space(fifo_t *f) { return f->size - fifo_length(f); }
fifo_size_t fifo_write(fifo_t *f, const u8 *b, fifo_size_t n) {
  fifo_size_t s = fifo_space(f); if (n > s) n = s;
  for (fifo_size_t i = 0; i < n; i++) f->buffer[(f->write_index + i) % f->size] = b[i];
  f->write_index += n; return n;
}
fifo_size_t fifo_peek(fifo_t *f, u8 *b, fifo_size_t n) {
  fifo_size_t l = fifo_length(f); if (n > l) n = l;
  for (fifo_size_t i = 0; i < n; i++) b[i] = f->buffer[(f->read_index + i) % f->size];
  return n;
}
fifo_size_t fifo_read(fifo_t *f, u8 *b, fifo_size_t n) { n = fifo_peek(f, b, n); f->read_index += n; return n; }
fifo_size_t fifo_remove(fifo_t *f, fifo_size_t n) {
  fifo_size_t l = fifo_length(f); if (n > l) n = l;
  f->read_index += n; return n;
}
bool float_equal(float a, float b) { return fabsf(a - b) < FLOAT_EQUALITY_EPS; }
bool double_equal(double a, double b) { return fabs(a - b) < FLOAT_EQUALITY_EPS; }
bool double_within(double a, double b, double e) { return fabs(a - b) < e; }
double get_geoid_offset(double lat, double lon) { return 10.0 + 5.0 * lat + 3.0 * lon; }
bool is_value_in_array_u16(const u16 *a, size_t n, u16 v) {
  for (size_t i = 0; i < n; i++) if (a[i] == v) return true;
  return false;
}
size_t swift_strnlen(const char *s, size_t n) { return strnlen(s, n); }
s32 memcpy_s(void *d, size_t ds, const void *s, size_t n) {
  if (!d || !s || n > ds) return -1;
  memcpy(d, s, n); return 0;
}
int shim_log_count;
static pfn_log shim_log;
void log_(int level, const char *msg, ...) { shim_log_count++; if (shim_log) shim_log(level, msg); }
void detailed_log_(int level, const char *file, const int line, const char *msg, ...) {
  (void)level; (void)file; (void)line; (void)msg; shim_log_count++;
}
void logging_set_implementation(pfn_log a, void *b) { (void)b; shim_log = a; }

/* ------------------------------------------------------------- measurements */
u8 encode_lock_time(double s) {
  assert(s >= 0.0);
  if (s >= 4294967.0) return 15;
  u32 ms = (u32)rint(s * 1000.0);
  if (ms < 32) return 0;
  for (u8 i = 0; i < 16; i++) if (ms < (1u << (i + 5))) return i;
  return 15;
}
double decode_lock_time(u8 l) { l &= 0xF; return l == 0 ? 0.0 : (double)(1u << (l + 4)) / 1000.0; }

/* -------------------------------------------------------------- ephemerides */
const float g_bds_ura_table[16] = {2, 2.8f, 4, 5.7f, 8, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, -1};
u32 shim_digest(const void *p, size_t n) {
  const u8 *b = (const u8 *)p; u32 h = 2166136261u;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 16777619u; }
  return h & 0x3FFFFFFF;
}
bool (*shim_on_eph)(int kind, const void *pages, double tot, const utc_params_t *p, ephemeris_t *e) = NULL;
void decode_ephemeris(const u32 w[3][8], ephemeris_t *e, double tot) {
  if (shim_on_eph) { e->valid = shim_on_eph(0, w, tot, NULL, e); return; }
  e->valid = 1; e->ura = 2.0f; e->fit_interval = 14400;
  e->data.kepler.m0 = shim_digest(w, sizeof(u32) * 24);
  e->data.kepler.iodc = (u16)(((w[0][0]) ^ w[0][5]) & 0x3FF);
  e->toe.tow = 0; e->toe.wn = e->toe.wn; (void)tot;
}
void decode_bds_d1_ephemeris(const u32 w[3][10], gnss_signal_t sid, ephemeris_t *e) {
  e->sid = sid;
  if (shim_on_eph) { e->valid = shim_on_eph(1, w, 0, NULL, e); return; }
  e->valid = 1; e->ura = 2.0f; e->fit_interval = 10800;
  e->data.kepler.m0 = shim_digest(w, sizeof(u32) * 30);
}
bool decode_gal_ephemeris_safe(const u8 p[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e) {
  if (shim_on_eph) return e->valid = shim_on_eph(2, p, 0, NULL, e);
  u32 iod = getbitu(p[0], 6, 10);
  for (int i = 1; i < 4; i++) if (getbitu(p[i], 6, 10) != iod) return false;
  e->sid.sat = (u16)getbitu(p[3], 16, 6);
  e->valid = 1; e->ura = 2.0f; e->fit_interval = 14400; e->source = EPH_SOURCE_GAL_INAV;
  e->data.kepler.m0 = shim_digest(p, 5 * GAL_INAV_CONTENT_BYTE);
  e->data.kepler.iode = e->data.kepler.iodc = (u16)iod;
  return true;
}
void decode_glo_ephemeris(const glo_string_t s[5], gnss_signal_t sid, const utc_params_t *p, ephemeris_t *e) {
  e->sid = sid;
  if (shim_on_eph) { e->valid = shim_on_eph(3, s, 0, p, e); return; }
  (void)p;
  e->valid = 1; e->ura = 2.0f; e->fit_interval = 2400;
  e->data.glo.pos[0] = shim_digest(s, sizeof(glo_string_t) * 5);
}
