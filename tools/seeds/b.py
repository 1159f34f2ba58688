import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed, verify
CV = r'''
extern "C" {
#include <gnss-converters/options.h>
#include <gnss-converters/rtcm3_sbp.h>
#include <gnss-converters/time_truth.h>
}
#include <vector>
#include <string>
#include <cstring>
#include <cstdio>
#include <cmath>
struct W { std::vector<uint8_t> b; size_t n = 0; void u(int k, uint64_t v) { for (int i = k - 1; i >= 0; i--) { if (n % 8 == 0) b.push_back(0); if (v >> i & 1) b[n / 8] |= 0x80 >> (n % 8); n++; } } };
struct Out { uint16_t sender; int type; sbp_msg_t m; };
struct R {
  rtcm3_sbp_state *s = new rtcm3_sbp_state(); time_truth_t tt; std::vector<Out> out;
  static void cb(uint16_t sd, sbp_msg_type_t t, const sbp_msg_t *m, void *c) { ((R *)c)->out.push_back({sd, (int)t, *m}); }
  static void bad(double, void *) {}
  R() { time_truth_init(&tt); rtcm2sbp_init(s, &tt, cb, bad, this); }
  void know() { gps_time_t t; t.wn = 2100; t.tow = 345600; time_truth_update(&tt, TIME_TRUTH_EPH_GAL, t); }
  void feed(const W &w) { rtcm2sbp_decode_payload(w.b.data(), (uint32_t)w.b.size(), s); }
  int count(int type) { int n = 0; for (auto &o : out) n += o.type == type; return n; }
};
'''
S = "gnss_converters/src/rtcm3_sbp.c"
seed("conv-text-cut", "C34", "a text message of more than 248 bytes whose 249th byte falls two bytes into a character of three bytes",
     "a long text is cut in the middle of a three byte character, so the log text is not valid UTF-8",
     [(S, "               (message[message_size - 2] & 0xE0) == 0xE0) {", "               (message[message_size - 2] & 0xF8) == 0xF0) {")], ["conv", "librtcm", "libubx", "libixcom"], ("demo.cc", CV + r'''
int main() {
  int bad = 0;
  for (int lead = 240; lead < 249; lead++) {
    W w; w.u(12, 1029); w.u(12, 5); w.u(16, 59000); w.u(17, 1); w.u(7, 100); int n = lead + 6; w.u(8, n); for (int i = 0; i < lead; i++) w.u(8, 'a'); for (int k = 0; k < 2; k++) { w.u(8, 0xE2); w.u(8, 0x82); w.u(8, 0xAC); }
    R r; r.feed(w); int keep = lead; while (keep + 3 <= 248 && keep + 3 <= n) keep += 3; if (keep > 248) keep = 248;
    if (r.count(SbpMsgLog) != 1 || (int)r.out[0].m.log.text.encoded_len != 6 + keep) { printf("lead %d: %zu bytes, expected %d\n", lead, r.out.empty() ? 0 : (size_t)r.out[0].m.log.text.encoded_len, 6 + keep); bad = 1; }
  }
  return bad;
}
'''))
seed("conv-ndf-crc16", "C34", "an SBAS navigation frame damaged only in the first eight bits of its check value, or whose errors leave the last 16 bits right",
     "damaged SBAS frames are sent on when only the upper byte of the check value disagrees",
     [("gnss_converters/src/ephemeris/sbas.c", "  if (crc != computed_crc) {", "  if (((crc ^ computed_crc) & 0xFFFFU) != 0) {")], ["conv", "librtcm", "libubx", "libixcom"], ("demo.cc", CV + r'''
int main() {
  int bad = 0;
  for (int flip = -1; flip < 250; flip++) {
    std::vector<int> v(256); for (int i = 0; i < 226; i++) v[i] = (i * i + i / 3) & 1; for (int i = 0; i < 8; i++) v[i] = 0x53 >> (7 - i) & 1;
    uint32_t q = 0; for (int i = 0; i < 226; i++) { q ^= (uint32_t)v[i] << 23; q <<= 1; if (q & 0x1000000) q ^= 0x1864CFB; } for (int i = 0; i < 24; i++) v[226 + i] = q >> (23 - i) & 1;
    if (flip >= 0) v[flip] ^= 1;
    W w; w.u(12, 4075); w.u(12, 5); w.u(2, 0); w.u(6, 1); w.u(4, 3); w.u(6, 10); w.u(4, 0); w.u(5, 0); w.u(30, 1000); w.u(1, 1); w.u(12, 256); for (int x : v) w.u(1, x);
    R r; r.feed(w); if (r.count(SbpMsgSbasRaw) != (flip < 0)) { printf("bit %d flipped: %d messages\n", flip, r.count(SbpMsgSbasRaw)); bad = 1; }
  }
  return bad;
}
'''))
seed("conv-glo-2hz", "C14", "legacy GLONASS observations more than once a second",
     "GLONASS epochs less than a second after the previous one are dropped as repeated",
     [(S, "      gpsdifftime(&obs_time, &state->last_glo_time) > 0.5 / SECS_MS) {", "      gpsdifftime(&obs_time, &state->last_glo_time) >= 1) {")], ["conv", "librtcm", "libubx", "libixcom"], ("demo.cc", CV + r'''
int main() {
  R r; r.know();
  for (int k = 0; k < 4; k++) {
    W w; w.u(12, 1012); w.u(12, 5); w.u(27, 3 * 3600000 - 18000 + 500 * k); w.u(1, 0); w.u(5, 1); w.u(1, 0); w.u(3, 0);
    w.u(6, 3); w.u(1, 0); w.u(5, 9); w.u(25, 1000000); w.u(20, 1234); w.u(7, 20); w.u(7, 35); w.u(8, 160); w.u(2, 0); w.u(14, 100); w.u(20, 55); w.u(7, 20); w.u(8, 120); r.feed(w);
  }
  int n = 0; for (auto &o : r.out) if (o.type == SbpMsgObs && o.m.obs.n_obs) n++;
  if (n != 4) { printf("%d of 4 epochs sent\n", n); return 1; } return 0;
}
'''))
seed("conv-1230-indicator", "C16", "a bias message with the indicator set, then a receiver description within the next minutes",
     "the biases of message 1230 do not suppress those guessed from the receiver name when its indicator is set",
     [(S, "        state->last_1230_received = state->time_from_input_data;", "        if (!msg_1230.bias_indicator) {\n          state->last_1230_received = state->time_from_input_data;\n        }")], ["conv", "librtcm", "libubx", "libixcom"], ("demo.cc", CV + r'''
int main() {
  int bad = 0;
  for (int ind = 0; ind < 2; ind++) {
    R r; r.know(); W w; w.u(12, 1230); w.u(12, 5); w.u(1, ind); w.u(3, 0); w.u(4, 15); for (int i = 0; i < 4; i++) w.u(16, 100 + i); r.feed(w);
    W d; d.u(12, 1033); d.u(12, 5); d.u(8, 0); d.u(8, 0); d.u(8, 0); const char *n = "TRIMBLE NETR9"; d.u(8, strlen(n)); for (const char *p = n; *p; p++) d.u(8, *p); d.u(8, 0); d.u(8, 0); r.feed(d);
    if (r.count(SbpMsgGloBiases) != 1) { printf("indicator %d: %d bias messages\n", ind, r.count(SbpMsgGloBiases)); bad = 1; }
  }
  return bad;
}
'''))
seed("conv-orbit-multi", "C17", "orbit and clock corrections with the multiple message flag, and a clock message that comes twice",
     "an orbit message already combined is combined again with a further clock message of the same issue",
     [(S, """              state);
          state->orbit_clock_cache[constellation].contains_orbit = false;
        } else { /* Store the decoded message in the cache */
          state->orbit_clock_cache[constellation].data.clock""", """              state);
          state->orbit_clock_cache[constellation].contains_orbit =
              msg_clock.header.multi_message;
        } else { /* Store the decoded message in the cache */
          state->orbit_clock_cache[constellation].data.clock""")], ["conv", "librtcm", "libubx", "libixcom"], ("demo.cc", CV + r'''
static W orbit(int multi) { W w; w.u(12, 1057); w.u(20, 43210); w.u(4, 2); w.u(1, multi); w.u(1, 0); w.u(4, 3); w.u(16, 7); w.u(4, 1); w.u(6, 1); w.u(6, 9); w.u(8, 55); w.u(22, 100); w.u(20, 200); w.u(20, 300); w.u(21, 4); w.u(19, 5); w.u(19, 6); return w; }
static W clk(int multi) { W w; w.u(12, 1058); w.u(20, 43210); w.u(4, 2); w.u(1, multi); w.u(4, 3); w.u(16, 7); w.u(4, 1); w.u(6, 1); w.u(6, 9); w.u(22, 100); w.u(21, 20); w.u(27, 30); return w; }
int main() {
  int bad = 0;
  for (int multi = 0; multi < 2; multi++) {
    R r; r.know(); r.feed(orbit(multi)); r.feed(clk(multi)); r.feed(clk(multi)); if (r.count(SbpMsgSsrOrbitClock) != 1) { printf("multiple %d: %d messages\n", multi, r.count(SbpMsgSsrOrbitClock)); bad = 1; }
  }
  return bad;
}
'''))
seed("nmea-obs-repeat", "C31", "an observation message that arrives twice in the middle of its sequence",
     "the satellites of a repeated observation message are counted and listed twice",
     [("gnss_converters/src/sbp_nmea.c", "             ((state->obs_seq_count + 1) != count)) {", "             ((state->obs_seq_count + 1) < count)) {")], ["conv", "librtcm", "libubx", "libixcom"], ("demo.cc", r'''
extern "C" {
#include <gnss-converters/sbp_nmea.h>
}
#include <cstdio>
#include <cstring>
static void out(char *, void *) {}
int main() {
  int bad = 0;
  for (int again = 0; again < 3; again++) {
    sbp2nmea_t *s = new sbp2nmea_t(); sbp2nmea_init(s, SBP2NMEA_MODE_GNSS, out, nullptr);
    auto feed = [&](int k) { sbp_msg_obs_t m; memset(&m, 0, sizeof m); m.header.t.wn = 2100; m.header.t.tow = 1000; m.header.n_obs = (uint8_t)(4 << 4 | k); m.n_obs = 5; for (int i = 0; i < 5; i++) { m.obs[i].sid.sat = (uint8_t)(k * 5 + i + 1); m.obs[i].sid.code = 0; m.obs[i].flags = 1; } sbp2nmea_obs(s, &m); };
    feed(0); feed(1); int before = sbp2nmea_num_obs_get(s); if (again) feed(again == 1 ? 1 : 3); int after = sbp2nmea_num_obs_get(s);
    if (before != after) { printf("case %d: %d, then %d observations\n", again, before, after); bad = 1; }
  }
  return bad;
}
'''))
seed("nmea-cog-keep", "C30", "standing still after moving exactly north",
     "the course kept for a vehicle that stands is not updated by a movement to the north, so an older course is reported",
     [("gnss_converters/src/nmea.c", "    *last_non_stationary_cog = *cog;", "    if (*cog > 0) {\n      *last_non_stationary_cog = *cog;\n    }")], ["conv", "librtcm", "libubx", "libixcom"], ("demo.cc", r'''
extern "C" {
#include <gnss-converters/sbp_nmea.h>
#include <gnss-converters/nmea.h>
}
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
static std::string got;
static void out(char *m, void *) { if (strstr(m, "VTG")) got = m; }
int main() {
  int bad = 0;
  for (int last = 0; last < 2; last++) {
    sbp2nmea_t *s = new sbp2nmea_t(); sbp2nmea_init(s, SBP2NMEA_MODE_GNSS, out, nullptr); sbp2nmea_cog_threshold_set(s, 0); sbp2nmea_cog_stationary_threshold_set(s, 0.5); sbp2nmea_soln_freq_set(s, 10); for (int i = 0; i < SBP2NMEA_NMEA_CNT; i++) sbp2nmea_rate_set(s, i == SBP2NMEA_NMEA_VTG, (sbp2nmea_nmea_id_t)i);
    auto epoch = [&](uint32_t tow, int n, int e) {
      sbp_msg_t m; 
      memset(&m, 0, sizeof m); m.gps_time.tow = tow; m.gps_time.wn = 2100; m.gps_time.flags = 1; sbp2nmea(s, &m, SBP2NMEA_SBP_GPS_TIME_GNSS);
      memset(&m, 0, sizeof m); m.utc_time.tow = tow; m.utc_time.flags = 1; m.utc_time.year = 2020; m.utc_time.month = 4; m.utc_time.day = 9; sbp2nmea(s, &m, SBP2NMEA_SBP_UTC_TIME_GNSS);
      memset(&m, 0, sizeof m); m.pos_llh_cov.tow = tow; m.pos_llh_cov.flags = 1; m.pos_llh_cov.n_sats = 8; m.pos_llh_cov.lat = 37; m.pos_llh_cov.lon = -122; sbp2nmea(s, &m, SBP2NMEA_SBP_POS_LLH_COV_GNSS);
      memset(&m, 0, sizeof m); m.dops.tow = tow; m.dops.flags = 1; sbp2nmea(s, &m, SBP2NMEA_SBP_DOPS);
      memset(&m, 0, sizeof m); m.vel_ned.tow = tow; m.vel_ned.flags = 1; m.vel_ned.n = n; m.vel_ned.e = e; sbp2nmea(s, &m, SBP2NMEA_SBP_VEL_NED_GNSS);
      memset(&m, 0, sizeof m); m.age_corrections.tow = tow; m.age_corrections.age = 10; sbp2nmea(s, &m, SBP2NMEA_SBP_AGE_CORR);
    };
    epoch(1000, 0, 5000); epoch(2000, last ? 0 : 5000, last ? -5000 : 0); epoch(3000, 10, 10); epoch(4000, 10, 10);
    size_t p = got.find(','); double cog = p == std::string::npos ? -1 : atof(got.c_str() + p + 1); double want = last ? 270 : 0;
    if (got.empty() || cog < want - 0.2 || cog > want + 0.2) { printf("\"%s\": course %.1f, expected %.1f\n", got.c_str(), cog, want); bad = 1; }
  }
  return bad;
}
'''))
seed("ix-tick32", "C29", "a wheel tick later than 4294 seconds into the week",
     "the time stamp of wheel ticks wraps 71 minutes and 35 seconds into the week",
     [("gnss_converters/src/ixcom_sbp.c", "        (uint64_t)(wheeldata.header.gps_time_sec) * 1000000 +", "        (wheeldata.header.gps_time_sec) * 1000000 +")], ["conv", "librtcm", "libubx", "libixcom"], ("demo.cc", r'''
extern "C" {
#include <gnss-converters/ixcom_sbp.h>
}
#include <cstdio>
#include <cstring>
#include <vector>
static std::vector<uint8_t> in; static size_t pos; static uint64_t t; static int n;
static void cb(u16, sbp_msg_type_t ty, const sbp_msg_t *m, void *) { if (ty == SbpMsgWheeltick) { t = m->wheeltick.time; n++; } }
static int rd(u8 *b, size_t k, void *) { size_t m = in.size() - pos; if (m > k) m = k; memcpy(b, in.data() + pos, m); pos += m; return (int)m; }
static void le(uint64_t v, int k) { for (int i = 0; i < k; i++) in.push_back((uint8_t)(v >> 8 * i)); }
int main() {
  int bad = 0;
  for (uint32_t sec : {0u, 4294u, 4295u, 86400u, 604799u}) {
    in.clear(); pos = 0; n = 0; le(0x7E, 1); le(0x16, 1); le(1, 1); le(2, 1); le(28, 2); le(2100, 2); le(sec, 4); le(250000, 4); le(0x40000000, 4); le(77, 4); le(0, 2);
    uint32_t c = 0; for (uint8_t x : in) { c ^= (uint32_t)x << 8; for (int k = 0; k < 8; k++) { c <<= 1; if (c & 0x10000) c ^= 0x11021; } } le(c & 0xFFFF, 2);
    ixcom_sbp_state *s = new ixcom_sbp_state(); ixcom_sbp_init(s, cb, nullptr); for (int k = 0; k < 4; k++) ixcom_sbp_process(s, rd);
    uint64_t w = (uint64_t)sec * 1000000 + 250000; if (n != 1 || t != w) { printf("second %u: %d messages, time %llu\n", sec, n, (unsigned long long)t); bad = 1; }
  }
  return bad;
}
'''))
seed("out-past-subsecond", "C20", "an observation message up to a second older than the epoch being collected",
     "late observations of an earlier epoch are mixed into the epoch being collected instead of being dropped",
     [("gnss_converters_extra/src/sbp_rtcm3.c", "    if (dt < 0) {", "    if (dt <= -1) {")], ["conv", "extra", "librtcm", "libubx", "libixcom"], ("demo.cc", r'''
extern "C" {
#include <gnss-converters-extra/sbp_rtcm3.h>
#include <rtcm3/decode.h>
}
#include <cstdio>
#include <cstring>
#include <vector>
static std::vector<std::vector<uint8_t>> out;
static s32 cb(u8 *b, u16 n, void *) { out.push_back(std::vector<uint8_t>(b, b + n)); return n; }
int main() {
  int bad = 0;
  for (int late : {200, 500, 999, 1000, 2000}) {
    out.clear(); rtcm3_out_state *s = new rtcm3_out_state(); sbp2rtcm_init(s, cb, nullptr); sbp2rtcm_set_leap_second(18, s); sbp2rtcm_set_rtcm_out_mode(MSM_UNKNOWN, s);
    auto feed = [&](uint32_t tow, int k, int of, int sat) {
      uint8_t b[255]; memset(b, 0, sizeof b); msg_obs_t *m = (msg_obs_t *)b; m->header.t.tow = tow; m->header.t.wn = 2100; m->header.n_obs = (uint8_t)(of << 4 | k); m->obs[0].sid.sat = (uint8_t)sat; m->obs[0].sid.code = 0; m->obs[0].P = 1100000000; m->obs[0].L.i = 115000000; m->obs[0].flags = 7; m->obs[0].cn0 = 160; m->obs[0].lock = 9; sbp2rtcm_sbp_obs_cb(0x42, (u8)(sizeof m->header + sizeof m->obs[0]), b, s);
    };
    feed(345600000, 0, 2, 3); feed(345600000 - (uint32_t)late, 1, 2, 9); feed(345600000, 1, 2, 5);
    int sats[64] = {0};
    for (auto &f : out) {
      swiftnav_bitstream_t bs; swiftnav_bitstream_init(&bs, f.data() + 3, (uint32_t)(f.size() - 6) * 8); rtcm_obs_message m; if (((f[3] << 4) | f[4] >> 4) != 1004 || rtcm3_decode_1004_bitstream(&bs, &m) != RC_OK) continue;
      if (m.header.tow_ms == 345600000) for (int i = 0; i < m.header.n_sat; i++) sats[m.sats[i].svId]++;
    }
    if (sats[3] != 1 || sats[5] != 1 || sats[9] != 0) { printf("%d ms late: satellite 3 %d, 5 %d, 9 %d times\n", late, sats[3], sats[5], sats[9]); bad = 1; }
  }
  return bad;
}
'''))
