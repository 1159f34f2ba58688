#include "nov.hpp"
using namespace nov; using namespace mc;
namespace M = Novatel::Message;
// field table: name, bit offset in the body, width, kind; value read back from the struct as raw bits
enum Kind { U, S, NEG };
struct Field { const char *name; size_t bit; int width; Kind kind; std::function<uint64_t(const void *)> get; };
template <class T> static uint64_t raw(const T &v) { uint64_t x = 0; memcpy(&x, &v, sizeof v); return x; }
#define F(T, f, off) {#f, (off) * 8, (int)sizeof(((M::T *)0)->f) * 8, U, [](const void *d) { return raw(((const M::T *)d)->f); }}
#define FN(T, f, off) {#f, (off) * 8, 32, NEG, [](const void *d) { return raw(((const M::T *)d)->f); }}
static std::vector<Field> table(int id, unsigned rec = 0) {
  switch (id) {
    case 42: return {F(BESTPOS_t, sol_stat, 0), F(BESTPOS_t, pos_type, 4), F(BESTPOS_t, lat, 8), F(BESTPOS_t, lon, 16), F(BESTPOS_t, hgt, 24), F(BESTPOS_t, undulation, 32), F(BESTPOS_t, datum_id, 36), F(BESTPOS_t, lat_stddev, 40), F(BESTPOS_t, lon_stddev, 44), F(BESTPOS_t, hgt_stddev, 48), F(BESTPOS_t, stn_id, 52), F(BESTPOS_t, diff_age, 56), F(BESTPOS_t, sol_age, 60), F(BESTPOS_t, num_sv_tracked, 64), F(BESTPOS_t, num_sv_in_soln, 65), F(BESTPOS_t, num_sv_in_soln_L1, 66), F(BESTPOS_t, num_sv_in_soln_multi, 67), F(BESTPOS_t, reserved, 68), F(BESTPOS_t, ext_sol_stat, 69), F(BESTPOS_t, galileo_beidou_mask, 70), F(BESTPOS_t, gps_glonass_mask, 71)};
    case 99: return {F(BESTVEL_t, sol_stat, 0), F(BESTVEL_t, vel_type, 4), F(BESTVEL_t, latency, 8), F(BESTVEL_t, diff_age, 12), F(BESTVEL_t, hor_speed, 16), F(BESTVEL_t, trk_gnd, 24), F(BESTVEL_t, vert_speed, 32), F(BESTVEL_t, reserved, 40)};
    case 7: return {F(GPSEPHEM_t, prn, 0), F(GPSEPHEM_t, tow, 4), F(GPSEPHEM_t, health, 12), F(GPSEPHEM_t, iode1, 16), F(GPSEPHEM_t, iode2, 20), F(GPSEPHEM_t, week, 24), F(GPSEPHEM_t, z_week, 28), F(GPSEPHEM_t, toe, 32), F(GPSEPHEM_t, A, 40), F(GPSEPHEM_t, delta_N, 48), F(GPSEPHEM_t, M0, 56), F(GPSEPHEM_t, ecc, 64), F(GPSEPHEM_t, omega, 72), F(GPSEPHEM_t, cuc, 80), F(GPSEPHEM_t, cus, 88), F(GPSEPHEM_t, crc, 96), F(GPSEPHEM_t, crs, 104), F(GPSEPHEM_t, cic, 112), F(GPSEPHEM_t, cis, 120), F(GPSEPHEM_t, I0, 128), F(GPSEPHEM_t, I_dot, 136), F(GPSEPHEM_t, omega0, 144), F(GPSEPHEM_t, omega_dot, 152), F(GPSEPHEM_t, iodc, 160), F(GPSEPHEM_t, toc, 164), F(GPSEPHEM_t, tgd, 172), F(GPSEPHEM_t, af0, 180), F(GPSEPHEM_t, af1, 188), F(GPSEPHEM_t, af2, 196), F(GPSEPHEM_t, AS, 204), F(GPSEPHEM_t, N, 208), F(GPSEPHEM_t, URA, 216)};
    case 723: return {F(GLOEPHEMERIS_t, sloto, 0), F(GLOEPHEMERIS_t, freqo, 2), F(GLOEPHEMERIS_t, sat_type, 4), F(GLOEPHEMERIS_t, reserved_1, 5), F(GLOEPHEMERIS_t, e_week, 6), F(GLOEPHEMERIS_t, e_time, 8), F(GLOEPHEMERIS_t, t_offset, 12), F(GLOEPHEMERIS_t, Nt, 16), F(GLOEPHEMERIS_t, reserved_2, 18), F(GLOEPHEMERIS_t, issue, 20), F(GLOEPHEMERIS_t, health, 24), F(GLOEPHEMERIS_t, pos_x, 28), F(GLOEPHEMERIS_t, pos_y, 36), F(GLOEPHEMERIS_t, pos_z, 44), F(GLOEPHEMERIS_t, vel_x, 52), F(GLOEPHEMERIS_t, vel_y, 60), F(GLOEPHEMERIS_t, vel_z, 68), F(GLOEPHEMERIS_t, LS_acc_x, 76), F(GLOEPHEMERIS_t, LS_acc_y, 84), F(GLOEPHEMERIS_t, LS_acc_z, 92), F(GLOEPHEMERIS_t, tau_n, 100), F(GLOEPHEMERIS_t, delta_tau_n, 108), F(GLOEPHEMERIS_t, gamma, 116), F(GLOEPHEMERIS_t, Tk, 124), F(GLOEPHEMERIS_t, P, 128), F(GLOEPHEMERIS_t, Ft, 132), F(GLOEPHEMERIS_t, age, 136), F(GLOEPHEMERIS_t, flags, 140)};
    case 263: return {F(INSATT_t, gnss_week, 0), F(INSATT_t, tow, 4), F(INSATT_t, roll, 12), F(INSATT_t, pitch, 20), F(INSATT_t, azimuth, 28), F(INSATT_t, status, 36)};
    case 1462: return {F(RAWIMUSX_t, imu_info, 0), F(RAWIMUSX_t, imu_type, 1), F(RAWIMUSX_t, gnss_week, 2), F(RAWIMUSX_t, gnss_week_seconds, 4), F(RAWIMUSX_t, imu_status, 12), F(RAWIMUSX_t, z_accel, 16), FN(RAWIMUSX_t, y_accel, 20), F(RAWIMUSX_t, x_accel, 24), F(RAWIMUSX_t, z_gyro, 28), FN(RAWIMUSX_t, y_gyro, 32), F(RAWIMUSX_t, x_gyro, 36)};
    case 140: {
      std::vector<Field> v; size_t b = (4 + 24 * (size_t)rec) * 8;
#define R(f, o, w, k) v.push_back({#f, b + (o), w, k, [rec](const void *d) { return (uint64_t)(int64_t)((const M::RANGECMP_t *)d)->records[rec].f; }})
      R(tracking_status, 0, 32, U); R(doppler, 32, 28, S); R(pseudorange, 60, 36, U); R(ADR, 96, 32, S); R(stddev_psr, 128, 4, U); R(stddev_adr, 132, 4, U); R(prn_slot, 136, 8, U); R(lock_time, 144, 21, U); R(CN0, 165, 5, U); R(glo_freq_no, 170, 6, U); R(reserved, 176, 16, U);
      return v;
    }
  }
  return {};
}
static uint64_t bits_le(const Bytes &b, size_t bit, int w) { uint64_t v = 0; for (int i = 0; i < w; i++) v |= (uint64_t)(b[(bit + i) / 8] >> ((bit + i) % 8) & 1) << i; return v; }
static void put_bits(Bytes &b, size_t bit, int w, uint64_t v) { for (int i = 0; i < w; i++) { uint8_t m = (uint8_t)(1 << ((bit + i) % 8)); if (v >> i & 1) b[(bit + i) / 8] |= m; else b[(bit + i) / 8] &= (uint8_t)~m; } }
static uint64_t expect(const Field &f, const Bytes &body) {
  uint64_t v = bits_le(body, f.bit, f.width);
  if (f.kind == S && f.width < 64 && (v >> (f.width - 1) & 1)) v |= ~0ull << f.width;
  if (f.kind == NEG) v = (uint32_t)(0 - (uint32_t)v);
  return v;
}
static void compare(Ctx &c, int id, const Bytes &body, const Field *changed, bool use_short) {
  for (size_t o : {(size_t)20, (size_t)32}) if (id == 1462 && bits_le(body, o * 8, 32) == 0x80000000u) return;   // cannot be negated
  Hdr h; h.id = (uint16_t)id; Bytes m = use_short ? short_msg((uint16_t)id, 2100, 77, body) : long_msg(h, body);
  Src src; src.s = &m; int n = 0; uint64_t hs = 0;
  parse(src, [&](int, const Novatel::BinaryHeader *, const void *d) {
    n++; size_t nrec = id == 140 ? (body.size() - 4) / 24 : 1;
    if (id == 140) CHK(c, ((const M::RANGECMP_t *)d)->n_records == nrec, "%zu records instead of %zu", ((const M::RANGECMP_t *)d)->n_records, nrec);
    for (size_t r = 0; r < nrec; r++) for (auto &f : table(id, (unsigned)r)) {
      uint64_t g = f.get(d), e = expect(f, body);
      CHK(c, g == e, "message %d record %zu field %s is %llx, body says %llx (changed %s) body %s", id, r, f.name, (unsigned long long)g, (unsigned long long)e, changed ? changed->name : "-", hex(body).c_str());
      hs = mix(hs, g);
    }
  });
  CHK(c, n == 1, "message %d with a right check value delivered %d times", id, n);
  c.step(); c.traced(); c.state(hs);
}
static Bytes base_body(int id, int nrec, uint32_t pat) {
  Bytes b(body_len(id, nrec));
  for (size_t i = 0; i < b.size(); i++) b[i] = pat == 0 ? 0 : pat == 1 ? 0xFF : pat == 2 ? (uint8_t)(i * 37 + 11) : pat == 3 ? 0x55 : (uint8_t)(~i * 91);
  if (id == 140) put(b, 0, (uint64_t)nrec, 4);
  return b;
}
static void walking(Ctx &c) {    // one bit or two adjacent bits different from a base body
  int id = IDS[c.choose(7, "type")]; uint32_t pat = c.choose(5, "base"); int nrec = id == 140 ? (int)(c.choose(2, "nrec") ? 3 : 1) : 1;
  Bytes b = base_body(id, nrec, pat); size_t first = id == 140 ? 32 : 0;
  size_t bit = first + c.choose((uint32_t)(b.size() * 8 - first), "bit"); uint32_t span = 1 + c.choose(2, "span");
  for (size_t i = bit; i < bit + span && i < b.size() * 8; i++) b[i / 8] ^= (uint8_t)(1 << (i % 8));
  compare(c, id, b, nullptr, c.choose(2, "short") && b.size() < 256);
}
static void values(Ctx &c) {     // every value of narrow fields, boundary values of wide ones
  int id = IDS[c.choose(7, "type")]; uint32_t pat = c.choose(3, "base"); int nrec = id == 140 ? 2 : 1; unsigned rec = id == 140 ? c.choose(2, "record") : 0;
  auto t = table(id, rec); auto &f = t[c.choose((uint32_t)t.size(), "field")];
  uint64_t v;
  if (f.width <= 8) v = c.choose(1u << f.width, "value");
  else if (f.width == 16) v = c.choose(65536, "value");
  else {
    uint32_t w = (uint32_t)f.width, k = c.choose(4 * w + 6, "value"); uint64_t top = w == 64 ? ~0ull : (1ull << w) - 1;
    if (k < w) v = 1ull << k; else if (k < 2 * w) v = (1ull << (k - w)) - 1; else if (k < 3 * w) v = top ^ (1ull << (k - 2 * w)); else if (k < 4 * w) v = top & (0ull - (1ull << (k - 3 * w)));
    else { static const uint64_t sp[6] = {0x123456789ABCDEFull, 0xFEDCBA9876543210ull, 0x7FF0000000000000ull, 0x8000000000000000ull, 0xC05EDD2F1A9FBE77ull, 0x4005BF0A8B145769ull}; v = sp[k - 4 * w]; }
    v &= top;
  }
  Bytes b = base_body(id, nrec, pat == 0 ? 0 : pat == 1 ? 2 : 4); put_bits(b, f.bit, f.width, v);
  compare(c, id, b, &f, false);
}
static void records(Ctx &c) {    // every record count and which record is changed
  int n = (int)c.choose(64, "count"); Bytes b = base_body(140, n, 2);
  if (n) { unsigned r = c.choose((uint32_t)n, "record"); uint32_t k = c.choose(c.thorough ? 192 : 12, "bit"); size_t bit = 32 + r * 192 + (c.thorough ? k : k * 17); b[bit / 8] ^= (uint8_t)(1 << (bit % 8)); }
  compare(c, 140, b, nullptr, false);
}
static void headers(Ctx &c) {    // both headers, every bit over several bases, and a value sweep of the 16-bit fields
  bool sh = c.choose(2, "short"); uint32_t pat = c.choose(4, "base");
  auto p = [&](int i) { return pat == 0 ? 0u : pat == 1 ? 0xFFFFFFFFu : pat == 2 ? 0x89ABCDEFu * (uint32_t)(i + 1) : 0x55AA1234u + 77u * (uint32_t)i; };
  Hdr h; h.id = 263; h.type = (uint8_t)p(1); h.port = (uint8_t)p(2); h.seq = (uint16_t)p(3); h.idle = (uint8_t)p(4); h.tstat = (uint8_t)p(5); h.week = (uint16_t)p(6); h.ms = (int32_t)p(7); h.rx = p(8); h.reserved = (uint16_t)p(9); h.sw = (uint16_t)p(10);
  int nf = sh ? 2 : 10; static const int W[10] = {16, 32, 8, 8, 16, 8, 8, 32, 16, 16};
  int fld = (int)c.choose((uint32_t)nf, "field"); int w = W[fld];
  uint32_t v;
  if (w <= 16 && (w == 8 || (c.thorough || pat == 2))) v = c.choose(1u << w, "value");
  else { uint32_t k = c.choose((uint32_t)w * 2, "value"); v = k < (uint32_t)w ? 1u << k : ~(1u << (k - (uint32_t)w)); }
  switch (fld) { case 0: h.week = (uint16_t)v; break; case 1: h.ms = (int32_t)v; break; case 2: h.type = (uint8_t)v; break; case 3: h.port = (uint8_t)v; break; case 4: h.seq = (uint16_t)v; break; case 5: h.idle = (uint8_t)v; break; case 6: h.tstat = (uint8_t)v; break; case 7: h.rx = v; break; case 8: h.reserved = (uint16_t)v; break; case 9: h.sw = (uint16_t)v; break; }
  Bytes body = base_body(263, 1, 2), m = sh ? short_msg(263, h.week, h.ms, body) : long_msg(h, body);
  Src src; src.s = &m; int n = 0;
  parse(src, [&](int, const Novatel::BinaryHeader *g, const void *) {
    n++;
    CHK(c, g->message_id == 263 && g->message_len == 40 && g->week == h.week && g->ms == h.ms, "%s header: id %d len %d week %d ms %d, sent week %d ms %d", sh ? "short" : "long", g->message_id, g->message_len, g->week, g->ms, h.week, h.ms);
    if (!sh) {
      auto *r = static_cast<const Novatel::BinaryHeaderRegular *>(g);
      CHK(c, r->message_type == h.type && r->port_addr == h.port && r->sequence == h.seq && r->idle_time == h.idle && r->time_status == h.tstat && r->rx_status == h.rx && r->reserved == h.reserved && r->rx_software_version == h.sw,
          "long header field differs (field %d value %x): type %x port %x seq %x idle %x tstat %x rx %x res %x sw %x", fld, v, r->message_type, r->port_addr, r->sequence, r->idle_time, r->time_status, r->rx_status, r->reserved, r->rx_software_version);
    }
  });
  CHK(c, n == 1, "delivered %d times", n);
  c.step(); c.traced(); c.state(mix(fld * 2 + sh, v));
}
static void ids(Ctx &c) {   // every message id value: delivered to the one subscriber of that id or to nobody; every body length byte
  uint32_t hi = c.choose(256, "id high"), lo = c.choose(256, "id low"); uint16_t id = (uint16_t)(hi << 8 | lo); bool sh = c.choose(2, "short");
  int ref = known_id(id) ? id : 263; Bytes body = plain_body(ref, 1, 2); Hdr h; h.id = id;
  Bytes m = sh ? short_msg(id, 1, 2, body) : long_msg(h, body); Src src; src.s = &m; int n = 0;
  parse(src, [&](int cb, const Novatel::BinaryHeader *g, const void *) { n++; CHK(c, cb == id && g->message_id == id, "message %d given to the subscriber of %d", id, cb); });
  CHK(c, n == (known_id(id) ? 1 : 0), "message id %d delivered %d times", id, n);
  c.step(); c.traced(); c.state(id);
}
int main(int argc, char **argv) {
  Spec s; s.property = "C02";
  s.rule = "for each of the 7 message types: every one- and two-bit change over 5 base bodies, every value of fields up to 16 bits and boundary values of wider ones, every range-record count with every record changed, every bit or value of both headers, every message identifier; the real parser's result is compared field by field with an independent layout table";
  s.assumptions = {"-2^31 in the two negated inertial axes is excluded (it has no negation)"};
  s.scenarios = {{"walking", walking}, {"values", values}, {"records", records}, {"headers", headers}, {"ids", ids}};
  return run(argc, argv, s);
}
