// C06: legacy observation, station, text, bias, navigation-frame and ephemeris messages, field by field
#include "rtcmfields.hpp"
#include <rtcm3/sta_decode.h>
using namespace mc; using namespace rtcmref;
// Receiver status messages 999: firmware version (25) and configuration page (2), with text of every length into buffers of every size
static void receiver_text(Ctx &c) {
  static const char *const SET[] = {"BINIMG_9.3.0_RC_ARM+-:;,./()[]{}", "\x01\x7f\x80\xff\xaa\x55", "x"}; const char *set = SET[c.choose(3, "characters")]; size_t sl = strlen(set);
  if (c.choose(2, "message") == 0) {
    static const uint8_t LEN[] = {128, 1, 2, 16, 23, 64, 127, 255}; uint32_t n = c.choose(256, "length"); uint8_t len = LEN[c.choose(8, "buffer")];
    BitW w; w.u(12, 999); w.u(8, 25); w.u(8, n); for (uint32_t i = 0; i < n; i++) w.u(8, (uint8_t)set[i % sl]); std::vector<uint8_t> in(w.b.begin(), w.b.end()), out(len, 0xEE); in.shrink_to_fit(); out.shrink_to_fit();
    auto *o = new char[len]; memset(o, 0xEE, len); rtcm3_rc rc = sta_decode_fwver(in.data(), o, len); uint32_t m = n < len ? n : len - 1u; bool ok = rc == RC_OK && o[m] == 0; for (uint32_t i = 0; i < m && ok; i++) ok = o[i] == set[i % sl]; std::string got(o, strnlen(o, len)); delete[] o;
    c.state(mix(n, len)); CHK(c, ok, "999/25 with %u characters into %u bytes: \"%s\"", n, len, got.c_str());
  } else {
    uint32_t n = c.choose(17, "length"); uint8_t len = c.choose(2, "buffer") ? 128 : 16; static const uint32_t PAGE[] = {0, 63, 0x3FFF}; uint32_t pg = PAGE[c.choose(3, "page")];
    uint8_t t[16] = {0}; for (uint32_t i = 0; i < n; i++) t[i] = (uint8_t)set[i % sl];
    BitW w; w.u(12, 999); w.u(8, 2); w.u(20, pg); w.u(18, 0x3FFF0 ^ pg); for (int i = 0; i < 4; i++) for (int j = 3; j >= 0; j--) w.u(8, t[4 * i + j]); while (w.b.size() < 328) w.u(8, 0x5A); Bytes in = w.b;
    auto *o = new char[len]; memset(o, 0xEE, len); rtcm3_rc rc = sta_decode_rcc_config(in.data(), o, len); std::string got(o, strnlen(o, len)), want((char *)t, n < 15 ? n : 15); delete[] o;
    c.state(mix(mix(n, len), pg)); CHK(c, rc == RC_OK && got == want, "999/2 with %u characters into %u bytes: \"%s\"", n, len, got.c_str());
  }
  c.traced(1);
}
int main(int argc, char **argv) {
  std::vector<Shape> v = other_shapes(), w = ssr_shapes(); for (auto &s : w) v.push_back(s); prepare(std::move(v));
  Spec s; s.property = "C06";
  s.rule = "every message shape (count and mask combinations) x every field x four backgrounds (eight thorough) x every value of fields up to 10 bits (14 thorough) and walking/boundary values of wider ones; every pair of fields at four extremes each; every reported quantity compared with the field table";
  s.assumptions = {"fields wider than 10 bits (14 thorough) take boundary and walking-bit values", "quantities that refer to an invalid first-frequency pseudorange are not compared"};
  s.scenarios = {{"fields", each_field}, {"pairs", pairs}, {"receiver_text", receiver_text}};
  return run(argc, argv, s);
}
