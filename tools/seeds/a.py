import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed, verify
NOVH = r'''
#include "parser.h"
#include "message_rangecmp.h"
#include "message_gpsephem.h"
#include "message_bestpos.h"
#include <vector>
#include <cstring>
#include <cstdio>
typedef std::vector<uint8_t> B;
static void le(B &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static void crc(B &b) { uint32_t c = 0; for (uint8_t x : b) { c ^= x; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } le(b, c, 4); }
static B longm(int id, const B &body, uint32_t ms = 1000) { B b = {0xAA, 0x44, 0x12, 28}; le(b, id, 2); le(b, 0x2002, 2); le(b, body.size(), 2); le(b, 0, 2); le(b, 180 << 8, 2); le(b, 2100, 2); le(b, ms, 4); le(b, 0, 4); le(b, 0, 4); b.insert(b.end(), body.begin(), body.end()); crc(b); return b; }
struct Src { B s; size_t p; size_t k; };
static int rd(uint8_t *b, uint32_t n, void *c) { Src *s = (Src *)c; size_t m = s->s.size() - s->p; if (m > n) m = n; if (s->k && m > s->k) m = s->k; memcpy(b, s->s.data() + s->p, m); s->p += m; return (int)m; }
'''
RT = r'''
extern "C" {
#include <rtcm3/decode.h>
#include <rtcm3/encode.h>
#include <rtcm3/eph_decode.h>
#include <rtcm3/eph_encode.h>
#include <rtcm3/ssr_decode.h>
#include <rtcm3/bits.h>
#include <rtcm3/msm_utils.h>
}
#include <vector>
#include <cstring>
#include <cstdio>
#include <cmath>
struct W { std::vector<uint8_t> b; size_t n = 0; void u(int k, uint64_t v) { for (int i = k - 1; i >= 0; i--) { if (n % 8 == 0) b.push_back(0); if (v >> i & 1) b[n / 8] |= 0x80 >> (n % 8); n++; } } };
static swiftnav_bitstream_t bs(W &w) { swiftnav_bitstream_t s; swiftnav_bitstream_init(&s, w.b.data(), (uint32_t)w.b.size() * 8); return s; }
'''
seed("nov-nested-start", "C01", "a complete message whose preamble appears inside a damaged message of the short form",
     "after a short message fails its check, the whole header is dropped instead of one byte, so an intact message that starts inside those 12 bytes is lost",
     [("nov2sbp/parser/parser.cc", """    return 0;
  }

  // parsing failed, drop 1 byte and try again
  return 1;
}

/**
""", """    return 0;
  }

  // parsing failed, drop the header and try again
  return MSG_SHORT_HEADER_LEN;
}

/**
""")], ["novparser"], ("demo.cc", NOVH + r'''
int main() {
  B body(72, 1); B good = longm(42, body); int bad = 0;
  for (int cut = 4; cut < 16; cut++) {
    B s = {0xAA, 0x44, 0x13, 10, 5, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8}; s.resize(cut); s.insert(s.end(), good.begin(), good.end()); s.resize(s.size() + 300, 0);
    int n = 0; Novatel::Message::CallbackArray cb; for (auto &c : cb) c.message_id = Novatel::Message::Id::kNoCallback; cb[0].message_id = Novatel::Message::Id::BESTPOS; cb[0].callfn = [&](const Novatel::BinaryHeader *, const void *) { n++; };
    Src src{s, 0, 0}; auto *p = new Novatel::Parser(rd, nullptr, cb, &src); p->process(); delete p; if (n != 1) { printf("cut %d: delivered %d times\n", cut, n); bad = 1; }
  }
  return bad;
}
'''))
seed("nov-locktime-20bit", "C02", "a satellite tracked for more than nine hours (lock time at or above 2^20/32 s)",
     "the lock time of a compressed range record loses its top bit",
     [("nov2sbp/parser/message_rangecmp.cc", "read_le_bits32(bytes, 144, 21)", "read_le_bits32(bytes, 144, 20)")], ["novparser"], ("demo.cc", NOVH + r'''
int main() {
  int bad = 0;
  for (uint32_t lk : {5u, 100000u, (1u << 20) - 1, 1u << 20, (1u << 21) - 1}) {
    B b(28); b[0] = 1; uint64_t v = lk; b[4 + 18] = v; b[4 + 19] = v >> 8; b[4 + 20] = v >> 16 & 0x1F; Novatel::Message::RANGECMP_t m; if (!m.FromBytes(b.data(), b.size()) || m.records[0].lock_time != lk) { printf("%u\n", lk); bad = 1; }
  }
  return bad;
}
'''))
seed("nov-obs-count", "C04", "an observation epoch whose number of measurements fills its messages exactly (14, 28, ...)",
     "one message too many is announced and sent, empty",
     [("nov2sbp/src/send_sbp_obs_messages.cc", "(n + obs_in_msg - 1) / obs_in_msg", "n / obs_in_msg + 1")], ["novparser", "nov2sbp"], ("demo.cc", NOVH + r'''
#include "swiftnav_conversion_helpers.h"
namespace Novatel { extern "C" void send_sbp_obs_messages(uint8_t n, const mini_navigation_measurement_t *nm, const gps_time_t *t, void (*send)(uint32_t, size_t, uint8_t *)); }
static int msgs, total, obs;
static void snd(uint32_t, size_t n, uint8_t *b) { msgs++; total = b[10] >> 4; obs += (int)(n - 11) / 17; }
int main() {
  static Novatel::mini_navigation_measurement_t m[64]; gps_time_t t; t.tow = 1000; t.wn = 2000; int bad = 0;
  for (int i = 0; i < 64; i++) { m[i].sid.sat = 1 + i % 32; m[i].raw_pseudorange = 2.2e7; m[i].raw_carrier_phase = 1; m[i].flags = NAV_MEAS_FLAG_CODE_VALID; }
  for (int n = 1; n <= 60; n++) { msgs = total = obs = 0; Novatel::send_sbp_obs_messages((uint8_t)n, m, &t, snd); int want = (n + 13) / 14; if (msgs != want || total != want || obs != n) { printf("%d measurements: %d messages of %d\n", n, msgs, total); bad = 1; } }
  return bad;
}
'''))
seed("rtcm-qzss-msm7", "C09", "an MSM7 message of QZSS (1117)",
     "message 1117 is not assigned to any constellation",
     [("librtcm/src/msm_utils.c", "msg_num >= 1111 && msg_num <= 1117", "msg_num >= 1111 && msg_num < 1117")], ["librtcm"], ("demo.cc", RT + r'''
int main() { int bad = 0; for (int n = 1111; n <= 1117; n++) if (to_constellation((uint16_t)n) != RTCM_CONSTELLATION_QZS) { printf("%d\n", n); bad = 1; } return bad; }
'''))
seed("rtcm-lock10-band", "C11", "an MSM6/7 cell locked for between one and two hours (indicator band 480..511 of DF407)",
     "one band of the 10-bit lock-time indicator decodes to a wrong time that also breaks monotony",
     [("librtcm/src/decode.c", "16384 * lock - 7340032", "16384 * lock - 7340320")], ["librtcm"], ("demo.cc", RT + r'''
int main() {
  double last = -1; int bad = 0;
  for (uint32_t i = 0; i < 705; i++) {
    W w; w.u(12, 1076); w.u(12, 1); w.u(30, 1000); w.u(1, 0); w.u(3, 0); w.u(7, 0); w.u(2, 0); w.u(2, 0); w.u(1, 0); w.u(3, 0); w.u(64, 1ull << 60); w.u(32, 1u << 30); w.u(1, 1); w.u(8, 70); w.u(10, 5); w.u(20, 7); w.u(24, 9); w.u(10, i); w.u(1, 0); w.u(10, 100);
    static rtcm_msm_message m; auto s = bs(w); if (rtcm3_decode_msm6_bitstream(&s, &m) != RC_OK) { printf("refused\n"); return 1; } double v = m.signals[0].lock_time_s; if (!(v > last)) { printf("indicator %u: %f after %f\n", i, v, last); bad = 1; }
    if (i > 64 && i < 704) { uint32_t k = (i - 64) / 32; double want = ((double)(64ull << k) + (double)(2ull << k) * (i - 64 - 32 * k)) / 1000; if (fabs(v - want) > 1e-6) { printf("indicator %u: %f, should be %f\n", i, v, want); bad = 1; } } last = v;
  }
  return bad;
}
'''))
seed("rtcm-setbit-32", "C10", "a full-width 32-bit field",
     "a 32-bit value is silently not written", [("librtcm/src/bits.c", "if (len <= 0 || 32 < len) {", "if (len <= 0 || 32 <= len) {")], ["librtcm"], ("demo.cc", RT + r'''
int main() { int bad = 0; for (uint32_t len = 1; len <= 32; len++) { uint8_t b[16] = {0}; uint32_t v = len == 32 ? 0xDEADBEEF : (1u << len) - 1; rtcm_setbitu(b, 5, len, v); if (rtcm_getbitu(b, 5, len) != v) { printf("%u bits\n", len); bad = 1; } } return bad; }
'''))
seed("rtcm-1012-l2-phase", "C06", "GLONASS L1/L2 observations of a satellite whose frequency number is not zero",
     "the L2 phase of 1012 is scaled with the L1 frequency step",
     [("librtcm/src/decode.c", "GLO_L2_HZ + glo_fcn * GLO_L2_DELTA_HZ", "GLO_L2_HZ + glo_fcn * GLO_L1_DELTA_HZ")], ["librtcm"], ("demo.cc", RT + r'''
int main() {
  int bad = 0;
  for (uint32_t f = 0; f < 14; f++) {
    W w; w.u(12, 1012); w.u(12, 1); w.u(27, 1000); w.u(1, 0); w.u(5, 1); w.u(1, 0); w.u(3, 0); w.u(6, 3); w.u(1, 0); w.u(5, f); w.u(25, 1000000); w.u(20, 500); w.u(7, 5); w.u(7, 33); w.u(8, 160); w.u(2, 0); w.u(14, 100); w.u(20, 600); w.u(7, 5); w.u(8, 150);
    static rtcm_obs_message m; auto s = bs(w); if (rtcm3_decode_1012_bitstream(&s, &m) != RC_OK) return 1;
    double pr = 1000000 * 0.02 + 33 * 599584.916, want = (pr + 600 * 0.0005) / (299792458.0 / (1246.0e6 + ((int)f - 7) * 437500.0)); if (fabs(m.sats[0].obs[1].carrier_phase - want) > 1e-3) { printf("frequency %d: %f instead of %f\n", (int)f - 7, m.sats[0].obs[1].carrier_phase, want); bad = 1; }
  }
  return bad;
}
'''))
seed("rtcm-msm-invalid-range", "C07", "a satellite whose rough range is marked invalid while its cells carry phase",
     "a cell of a satellite without a rough range still reports a valid carrier phase",
     [("librtcm/src/decode.c", "if (rough_range_valid[sat] && flags[i].fields.valid_cp) {", "if (flags[i].fields.valid_cp) {")], ["librtcm"], ("demo.cc", RT + r'''
int main() {
  int bad = 0;
  for (uint32_t ms : {70u, 254u, 255u}) {
    W w; w.u(12, 1077); w.u(12, 1); w.u(30, 1000); w.u(1, 0); w.u(3, 0); w.u(7, 0); w.u(2, 0); w.u(2, 0); w.u(1, 0); w.u(3, 0); w.u(64, 1ull << 60); w.u(32, 1u << 30); w.u(1, 1); w.u(8, ms); w.u(4, 0); w.u(10, 5); w.u(14, 3); w.u(20, 7); w.u(24, 9); w.u(10, 5); w.u(1, 0); w.u(10, 100); w.u(15, 4);
    static rtcm_msm_message m; auto s = bs(w); if (rtcm3_decode_msm7_bitstream(&s, &m) != RC_OK) return 1; bool want = ms != 255; if (m.signals[0].flags.fields.valid_cp != want || m.signals[0].flags.fields.valid_pr != want) { printf("rough range %u\n", ms); bad = 1; }
  }
  return bad;
}
'''))
seed("rtcm-lock7-limit", "C08", "a satellite locked for between 160 and 168 seconds",
     "the 7-bit lock-time indicator sent for such a time stands for a longer time than the receiver has been locked",
     [("librtcm/src/encode.c", "if (time < 168) {", "if (time < 160) {")], ["librtcm"], ("demo.cc", RT + r'''
int main() {
  int bad = 0;
  for (int t = 1; t < 950; t++) {
    static rtcm_obs_message m, d; memset(&m, 0, sizeof m); m.header.msg_num = 1002; m.header.n_sat = 1; m.header.tow_ms = 1000; m.sats[0].svId = 5; auto &o = m.sats[0].obs[0]; o.pseudorange = 2.1e7; o.carrier_phase = 2.1e7 / 0.19029367279836487; o.lock = t; o.cnr = 40; o.flags.data = 15;
    W w; w.b.resize(100); rtcm3_encode_1002(&m, w.b.data()); auto s = bs(w); if (rtcm3_decode_1002_bitstream(&s, &d) != RC_OK) return 1; if (d.sats[0].obs[0].lock > t) { printf("%d s comes back as %.0f\n", t, d.sats[0].obs[0].lock); bad = 1; }
  }
  return bad;
}
'''))
if __name__ == "__main__": verify(["nov-nested-start", "nov-locktime-20bit", "nov-obs-count", "rtcm-qzss-msm7", "rtcm-lock10-band", "rtcm-setbit-32", "rtcm-1012-l2-phase", "rtcm-msm-invalid-range", "rtcm-lock7-limit"])
