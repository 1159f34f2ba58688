#include "novpipe.hpp"
#include <cmath>
using namespace nov; using namespace mc; using sbpo::Msg; using sbpo::Rd;
static const uint32_t WEEK = 604800000u;
static bool near_(double out, long double want, long double rel = 1e-9L) { return fabsl((long double)out - want) <= 0.5L + fabsl(want) * rel + 1e-6L; }
static bool sat_near(double out, long double want, double lo, double hi, long double rel = 1e-9L) { if (want <= lo) return out == lo; if (want >= hi) return out == hi; return near_(out, want, rel); }
static void putd(Bytes &b, size_t o, double d) { uint64_t v; memcpy(&v, &d, 8); put(b, o, v, 8); }
static void putf(Bytes &b, size_t o, float d) { uint32_t v; memcpy(&v, &d, 4); put(b, o, v, 4); }
// ---- range records ----------------------------------------------------------------------------------------------------
struct Rec { uint32_t ts = 0x1C04; int32_t dop = 0; uint64_t psr = 3000000000ull; int32_t adr = 0; uint8_t prn = 1; uint32_t lock = 0, cn0 = 10, sd = 5, fcn = 7; uint16_t res = 0; };
static void bits(Bytes &b, size_t o, int w, uint64_t v) { for (int i = 0; i < w; i++) { uint8_t m = (uint8_t)(1 << ((o + i) % 8)); if (v >> i & 1) b[(o + i) / 8] |= m; else b[(o + i) / 8] &= (uint8_t)~m; } }
static Bytes range(const std::vector<Rec> &v) {
  Bytes b(4 + 24 * v.size()); put(b, 0, v.size(), 4);
  for (size_t i = 0; i < v.size(); i++) { size_t o = (4 + 24 * i) * 8; auto &r = v[i]; bits(b, o, 32, r.ts); bits(b, o + 32, 28, (uint64_t)(int64_t)r.dop); bits(b, o + 60, 36, r.psr); bits(b, o + 96, 32, (uint32_t)r.adr); bits(b, o + 128, 8, r.sd); bits(b, o + 136, 8, r.prn); bits(b, o + 144, 21, r.lock); bits(b, o + 165, 5, r.cn0); bits(b, o + 170, 6, r.fcn); bits(b, o + 176, 16, r.res); }
  return b;
}
static bool convertible(const Rec &r, int &code) {
  uint32_t sys = r.ts >> 16 & 7, sg = r.ts >> 21 & 31; code = -1;
  if (sys == 0 && sg == 0) code = 0; else if (sys == 0 && sg == 5) code = 6; else if (sys == 1 && sg == 0) code = 3; else if (sys == 1 && sg == 1) code = 4;
  if (code < 0) return false;
  if (sys == 0 ? r.prn < 1 || r.prn > 32 : r.prn < 1 || r.prn > 28) return false;
  if ((long double)r.psr / 128 * 50 + 0.5L >= 4294967296.0L) return false;
  long double d = (long double)r.dop / 256; if (floorl(d) < -32768 || floorl(d) > 32767) return false;
  return true;
}
static uint8_t ref_lock(uint32_t l) { double s = l / 32.0; uint64_t ms = (uint64_t)llrint(s * 1000); if (ms < 32) return 0; for (int i = 0; i < 15; i++) if (ms < (32ull << i)) return (uint8_t)i; return 15; }
static void check_obs(Ctx &c, const std::vector<Msg> &out, const std::vector<Rec> &recs, uint16_t wk, uint32_t ms, size_t first = 0, size_t count = ~(size_t)0) {
  std::vector<const Rec *> want; int code; for (auto &r : recs) if (convertible(r, code)) want.push_back(&r);
  size_t total = recs.empty() ? 1 : (recs.size() + 13) / 14; size_t k = 0;
  CHK(c, (count == ~(size_t)0 ? out.size() : count) == total, "%zu range records became %zu observation messages instead of %zu", recs.size(), out.size(), total);
  for (size_t i = 0; i < total; i++) {
    auto &m = out[first + i]; CHK(c, m.type == 0x004A && m.sender == 5000, "message %04x from sender %u instead of observations", m.type, m.sender);
    CHK(c, m.p.size() >= 11 && (m.p.size() - 11) % 17 == 0, "observation message of %zu bytes", m.p.size());
    Rd r(m.p); uint64_t tow = r.u(4); int64_t ns = r.s(4); uint64_t wn = r.u(2); uint64_t no = r.u(1);
    CHK(c, no == (total << 4 | i), "part %zu of %zu numbered %llx", i, total, (unsigned long long)no);
    CHK(c, tow == ms && wn == wk && ns == 0, "observations of week %u ms %u stamped week %llu ms %llu ns %lld", wk, ms, (unsigned long long)wn, (unsigned long long)tow, (long long)ns);
    for (size_t j = 0; j < (m.p.size() - 11) / 17; j++, k++) {
      CHK(c, k < want.size(), "more measurements sent than the %zu that convert", want.size()); const Rec &q = *want[k]; convertible(q, code);
      uint64_t P = r.u(4); int64_t Li = r.s(4); uint64_t Lf = r.u(1); int64_t Di = r.s(2); uint64_t Df = r.u(1), cn = r.u(1), lk = r.u(1), fl = r.u(1), sat = r.u(1), cd = r.u(1);
      CHK(c, (int)cd == code && sat == q.prn, "measurement %zu: sat %llu code %llu instead of %u code %d", k, (unsigned long long)sat, (unsigned long long)cd, q.prn, code);
      CHK(c, near_((double)P, (long double)q.psr / 128 * 50), "pseudorange %llu from %llu/128 m", (unsigned long long)P, (unsigned long long)q.psr);
      CHK(c, Li * 256 + (int64_t)Lf == -(int64_t)q.adr, "phase %lld+%llu/256 from ADR %d/256", (long long)Li, (unsigned long long)Lf, q.adr);
      CHK(c, Di * 256 + (int64_t)Df == q.dop, "Doppler %lld+%llu/256 from %d/256", (long long)Di, (unsigned long long)Df, q.dop);
      bool cl = q.ts >> 12 & 1, ph = (q.ts >> 10 & 3) != 0, hc = q.ts >> 28 & 1;
      CHK(c, fl == (uint64_t)((cl ? 1 | 8 : 0) | (ph ? 2 : 0) | (hc ? 4 : 0)), "flags %llx from tracking status %08x", (unsigned long long)fl, q.ts);
      CHK(c, cn == (cl ? (q.cn0 + 20) * 4 : 0), "signal strength %llu from %u", (unsigned long long)cn, q.cn0);
      CHK(c, lk == ref_lock(q.lock), "lock indicator %llu from %u/32 s", (unsigned long long)lk, q.lock);
    }
  }
  CHK(c, k == want.size(), "%zu measurements sent, %zu convert", k, want.size());
}
static Bytes msg(int id, const Bytes &body, uint16_t wk = 2100, uint32_t ms = 345678000u) { Hdr h; h.id = (uint16_t)id; h.week = wk; h.ms = (int32_t)ms; return long_msg(h, body); }
static uint64_t hash_out(const std::vector<Msg> &o) { uint64_t h = o.size(); for (auto &m : o) h = hash_bytes(m.p.data(), m.p.size(), h ^ m.type); return h; }
static void done(Ctx &c, const std::vector<Msg> &o, uint64_t n = 1) { c.step(n); c.traced(); c.state(hash_out(o)); }
static void obs_counts(Ctx &c) {           // every record count, and every choice of one or two records that do not convert
  uint32_t n = c.choose(64, "records"); std::vector<Rec> v(n);
  for (uint32_t i = 0; i < n; i++) { v[i].prn = (uint8_t)(1 + i % 28); uint32_t s = i / 28; v[i].ts = s == 0 ? 0x1C04 : s == 1 ? 0x11C04 : 0x00A01C04; v[i].psr = 2500000000ull + i * 1000003ull; v[i].adr = (int32_t)(i * 70001) - 1000000; v[i].dop = (int32_t)(i * 7919) - 200000; v[i].lock = i * 33; v[i].cn0 = i % 32; }
  if (n) { uint32_t a = c.choose(n + 1, "bad record"); uint32_t how = c.choose(4, "why");
    uint32_t b = c.choose(c.thorough ? n + 1 : 4, "second bad"); if (!c.thorough && b) b = b == 1 ? n : b == 2 ? (a + 1 > n ? 1 : a + 1) : 1;
    auto spoil = [&](Rec &r) { if (how == 0) r.ts = 0x71C04; else if (how == 1) r.prn = 0; else if (how == 2) r.psr = 0xFFFFFFFFFull; else r.ts = 0x1C04 | 9 << 21; };
    if (a) spoil(v[a - 1]); if (b) spoil(v[b - 1]); }
  auto o = convert(c, msg(140, range(v))); check_obs(c, o, v, 2100, 345678000u); done(c, o);
}
static void obs_all_bad(Ctx &c) { uint32_t n = c.choose(64, "records"), from = c.choose(64, "first bad"), len = c.choose(64, "bad run"); if (from >= n || from + len > n) return; std::vector<Rec> v(n); for (uint32_t i = 0; i < n; i++) { v[i].prn = (uint8_t)(1 + i % 28); v[i].adr = (int32_t)i; if (i >= from && i < from + len) v[i].ts = 0x71C04; } auto o = convert(c, msg(140, range(v))); check_obs(c, o, v, 2100, 345678000u); done(c, o); }
static void obs_fields(Ctx &c) {           // one field swept in one of two records
  uint32_t f = c.choose(8, "field"); Rec a, b; b.prn = 9; b.ts = 0x11C04; b.adr = 12345678; b.psr = 2999999999ull; b.dop = -70000; b.lock = 1000; std::vector<Rec> v = {a, b}; Rec &r = v[c.choose(2, "record")];
  auto wide = [&](int w) { uint32_t k = c.choose((uint32_t)(4 * w + 3), "value"); uint64_t top = (1ull << w) - 1, x; if (k < (uint32_t)w) x = 1ull << k; else if (k < 2u * w) x = (1ull << (k - w)) - 1; else if (k < 3u * w) x = top ^ (1ull << (k - 2 * w)); else if (k < 4u * w) x = top & (0ull - (1ull << (k - 3 * w))); else { static const uint64_t S[3] = {0x5555555555ull, 0x123456789ull, 0xEDCBA98765ull}; x = S[k - 4 * w]; } return x & top; };
  auto sx = [](uint64_t x, int w) { return (int32_t)((int64_t)(x << (64 - w)) >> (64 - w)); };
  switch (f) {
    case 0: r.prn = (uint8_t)c.choose(256, "prn"); r.ts = (uint32_t[]){0x1C04, 0x11C04, 0x211C04, 0x00A01C04}[c.choose(4, "signal")]; break;
    case 1: r.dop = sx(wide(28), 28); break;
    case 2: r.psr = wide(36); break;
    case 3: r.adr = sx(wide(32), 32); if (r.adr == INT32_MIN) return; break;
    case 4: r.lock = c.choose(2, "fine") ? c.choose(2048, "lock") : (uint32_t)wide(21); break;
    case 5: r.cn0 = c.choose(32, "cn0"); r.sd = c.choose(4, "sd") * 85; r.fcn = c.choose(64, "fcn"); break;
    case 6: { uint32_t sys = c.choose(8, "system"), sg = c.choose(32, "signal"); r.ts = 0x1C04 | sys << 16 | sg << 21; break; }
    case 7: { uint32_t k = c.choose(16, "lock bits"), o = c.choose(33, "other bit"); r.ts = (k & 7) << 10 | (k >> 3) << 28 | 4; if (o < 32 && !(o >= 16 && o <= 18) && !(o >= 20 && o <= 25)) r.ts ^= 1u << o; break; }
  }
  auto o = convert(c, msg(140, range(v))); check_obs(c, o, v, 2100, 345678000u); done(c, o);
}
static void obs_pseudo(Ctx &c) { static const int64_t B[] = {0, 1000000, 2816000000ll, 10995116277ll, 5497558138ll}; int64_t b = B[c.choose(5, "around")]; int64_t off = (int64_t)c.choose(c.thorough ? 20001 : 2001, "offset") - (c.thorough ? 10000 : 1000); if (b + off < 0) return; Rec r; r.psr = (uint64_t)(b + off); r.dop = (int32_t)(off * 37) * (b ? 1 : -1); r.adr = (int32_t)(off * 104729); if (r.dop < -(1 << 27) || r.dop >= 1 << 27) return; std::vector<Rec> v = {r}; auto o = convert(c, msg(140, range(v))); check_obs(c, o, v, 2100, 345678000u); done(c, o); }
static void week_end(Ctx &c) {             // the last millisecond's successor: counted as the start of the next week
  uint16_t wk = (uint16_t[]){0, 1, 1023, 2100, 32766}[c.choose(5, "week")]; uint32_t n = c.choose(33, "records"); std::vector<Rec> v(n); for (uint32_t i = 0; i < n; i++) { v[i].prn = (uint8_t)(1 + i % 28); v[i].adr = (int32_t)i; }
  uint32_t ms = WEEK - 1 + c.choose(2, "after the end"); auto o = convert(c, msg(140, range(v), wk, ms)); check_obs(c, o, v, ms == WEEK ? (uint16_t)(wk + 1) : wk, ms % WEEK); done(c, o);
}
static void obs_time(Ctx &c) {             // time stamps; every millisecond around boundaries, several weeks
  static const uint32_t B[] = {0, 1000, 86400000u, 345600000u, 604799999u, 604700000u, 123456789u, 302400000u}; uint32_t b = B[c.choose(8, "around")]; int k = (int)c.choose(c.thorough ? 4001 : 1201, "ms") - (c.thorough ? 2000 : 600); int64_t ms = (int64_t)b + k; if (ms < 0 || ms >= WEEK) return;
  uint16_t wk = (uint16_t[]){0, 1, 2100, 32767}[c.choose(4, "week")]; Rec r; r.prn = (uint8_t)(1 + (ms & 15)); std::vector<Rec> v(1 + 14 * c.choose(2, "parts"), r); auto o = convert(c, msg(140, range(v), wk, (uint32_t)ms)); check_obs(c, o, v, wk, (uint32_t)ms); done(c, o);
}
// ---- position, velocity, attitude -----------------------------------------------------------------------------------
static int pos_flags(uint32_t t) { switch (t) { case 0: return 0; case 16: return 1; case 17: return 2; case 18: return 6; case 34: return 3; case 48: case 49: case 50: return 4; case 52: return 6 | 8; case 53: return 1 | 8; case 54: return 2 | 8; case 55: return 3 | 8; case 56: return 4 | 8; default: return 1; } }
struct Pos { double lat = 37.5, lon = -122.25, hgt = 12.5; float sla = 0.5f, slo = 0.75f, sh = 1.25f; uint32_t type = 50; uint8_t ns = 11; };
static Bytes pos_body(const Pos &p) { Bytes b(72); for (size_t i = 0; i < 72; i++) b[i] = (uint8_t)(i * 3 + 1); put(b, 4, p.type, 4); putd(b, 8, p.lat); putd(b, 16, p.lon); putd(b, 24, p.hgt); putf(b, 40, p.sla); putf(b, 44, p.slo); putf(b, 48, p.sh); b[65] = p.ns; return b; }
struct Vel { double hs = 10, tr = 30, vs = 0.5; };
static Bytes vel_body(const Vel &p) { Bytes b(44); for (size_t i = 0; i < 44; i++) b[i] = (uint8_t)(i * 5 + 1); putd(b, 16, p.hs); putd(b, 24, p.tr); putd(b, 32, p.vs); return b; }
static void check_time(Ctx &c, const Msg &m, uint16_t wk, uint32_t ms) { Rd r(m.p); CHK(c, m.type == 0x0102 && m.sender == 5000 && m.p.size() == 11, "expected a GPS time message, got %04x of %zu bytes", m.type, m.p.size()); uint64_t w = r.u(2), t = r.u(4); int64_t ns = r.s(4); uint64_t f = r.u(1); CHK(c, w == wk && t == ms && ns == 0 && f == 1, "GPS time week %llu ms %llu ns %lld flags %llu instead of week %u ms %u", (unsigned long long)w, (unsigned long long)t, (long long)ns, (unsigned long long)f, wk, ms); }
static void check_pos(Ctx &c, const Msg &m, const Pos &p, uint32_t ms) {
  CHK(c, m.type == 0x020A && m.sender == 5000 && m.p.size() == 34, "expected a position message, got %04x", m.type); Rd r(m.p); uint64_t tow = r.u(4); double la = r.d(), lo = r.d(), h = r.d(); uint64_t ha = r.u(2), va = r.u(2), n = r.u(1), f = r.u(1);
  double want_h = p.hgt + (float)(10 + 5 * (p.lat * M_PI / 180) + 3 * (p.lon * M_PI / 180));
  CHK(c, tow == ms && la == p.lat && lo == p.lon && fabs(h - want_h) < 1e-3, "position %u: %.9f %.9f %.4f sent as %llu: %.9f %.9f %.4f", ms, p.lat, p.lon, want_h, (unsigned long long)tow, la, lo, h);
  CHK(c, sat_near((double)ha, 1000.0L * std::max(p.sla, p.slo), 0, 65535, 1e-6L) && sat_near((double)va, 1000.0L * p.sh, 0, 65535, 1e-6L), "accuracies %g %g %g m sent as horizontal %llu vertical %llu mm", p.sla, p.slo, p.sh, (unsigned long long)ha, (unsigned long long)va);
  CHK(c, n == p.ns && (int)f == pos_flags(p.type), "satellites %llu flags %llu from %u and type %u", (unsigned long long)n, (unsigned long long)f, p.ns, p.type);
}
static void check_vel(Ctx &c, const Msg &m, const Vel &v, uint32_t ms, int flags) {
  CHK(c, m.type == 0x020E && m.sender == 5000 && m.p.size() == 22, "expected a velocity message, got %04x", m.type); Rd r(m.p); uint64_t tow = r.u(4); int64_t n = r.s(4), e = r.s(4), d = r.s(4); r.u(2); r.u(2); r.u(1); uint64_t f = r.u(1);
  long double a = v.tr * (long double)M_PI / 180;
  CHK(c, tow == ms && sat_near((double)n, 1000 * v.hs * cosl(a), -2147483648.0, 2147483647.0) && sat_near((double)e, 1000 * v.hs * sinl(a), -2147483648.0, 2147483647.0) && sat_near((double)d, -1000 * (long double)v.vs, -2147483648.0, 2147483647.0), "speed %g track %g up %g sent as n %lld e %lld d %lld", v.hs, v.tr, v.vs, (long long)n, (long long)e, (long long)d);
  CHK(c, (int)f == flags, "velocity flags %llu, position of this epoch has %d", (unsigned long long)f, flags);
}
static void pos_fields(Ctx &c) {
  Pos p; uint32_t f = c.choose(7, "field"); static const float A[] = {0, 0.0004f, 0.0005f, 0.0006f, 0.001f, 0.0014f, 0.5f, 1, 1.2345f, 10, 65.534f, 65.5349f, 65.535f, 65.536f, 66, 100, 131.072f, 1000, 1e6f, 3e38f};
  switch (f) { case 0: p.type = c.choose(256, "type"); break; case 1: p.ns = (uint8_t)c.choose(256, "sats"); break; case 2: p.sla = A[c.choose(20, "lat sd")]; p.slo = A[c.choose(20, "lon sd")]; break; case 3: p.sh = A[c.choose(20, "h sd")]; break;
    case 4: p.lat = -90 + (double)c.choose(721, "lat") * 0.25; p.lon = -180 + (double)c.choose(25, "lon") * 15; break; case 5: p.lon = -180 + (double)c.choose(1441, "lon") * 0.25; break; case 6: p.hgt = -500 + (double)c.choose(4001, "hgt") * 2.5 + 1.0 / 3; break; }
  auto o = convert(c, msg(42, pos_body(p))); CHK(c, o.size() == 2, "%zu messages from one position", o.size()); check_time(c, o[0], 2100, 345678000u); check_pos(c, o[1], p, 345678000u); done(c, o);
}
static void vel_fields(Ctx &c) {
  Vel v; static const double S[] = {0, 0.0004, 0.0005, 0.001, 0.1234, 1, 12.3456, 100, 1e4, 2147483.0, 2147484.0, 1e9, -3.5, 1e-9}; static const double U[] = {0, 0.25, -0.25, 1.0015, -1.0015, 50, -50, 3e6, -3e6};
  v.hs = S[c.choose(14, "speed")]; v.tr = (double)c.choose(1441, "track") * 0.25; v.vs = U[c.choose(9, "vertical")]; auto o = convert(c, msg(99, vel_body(v))); CHK(c, o.size() == 2, "%zu messages from one velocity", o.size()); check_time(c, o[0], 2100, 345678000u); check_vel(c, o[1], v, 345678000u, 0); done(c, o);
}
static void att_fields(Ctx &c) {
  static const double A[] = {0, 1e-7, 4.9e-7, 5.1e-7, -5.1e-7, 1e-6, 0.123456789, -0.123456789, 45, -45, 90, 180, -180, 359.999999, 359.9999999, 2147.483646, 2147.483647, 2147.483648, 2148, -2147.483648, -2147.5, 1e9, -1e9}; double a[3]; for (double &x : a) x = A[c.choose(23, "angle")]; uint32_t st = c.choose(16, "status");
  Bytes b(40); put(b, 0, 2099, 4); putd(b, 4, 5555.5); putd(b, 12, a[0]); putd(b, 20, a[1]); putd(b, 28, a[2]); put(b, 36, st, 4); auto o = convert(c, msg(263, b)); CHK(c, o.size() == 1 && o[0].type == 0x0221 && o[0].p.size() == 29 && o[0].sender == 5000, "%zu messages from one attitude", o.size());
  Rd r(o[0].p); uint64_t t = r.u(4); int64_t g[3]; for (auto &x : g) x = r.s(4); float acc[3]; for (auto &x : acc) x = r.f(); uint64_t f = r.u(1); CHK(c, t == 345678000u && f == (st == 3) && acc[0] == 0 && acc[1] == 0 && acc[2] == 0, "attitude time %llu flags %llu from status %u", (unsigned long long)t, (unsigned long long)f, st);
  for (int i = 0; i < 3; i++) CHK(c, sat_near((double)g[i], a[i] * 1e6L, -2147483648.0, 2147483647.0, 1e-15L), "angle %d: %.9f degrees sent as %lld", i, a[i], (long long)g[i]); done(c, o);
}
static void epochs(Ctx &c) {               // sequences of position, velocity and attitude over few times: time message exactly when the time changes, velocity flags from the position of the same time
  uint32_t n = c.thorough ? 6 : 5; struct E { int kind; uint32_t ms; uint16_t wk; Pos p; Vel v; }; std::vector<E> ev; Bytes in;
  for (uint32_t i = 0; i < n; i++) { uint32_t k = c.choose(i ? 11 : 10, "event"); if (i && k == 10) break; E e; e.kind = (int)(k % 5 < 2 ? 0 : k % 5 < 4 ? 1 : 2); uint32_t s = k % 5 < 4 ? k % 2 : 0; e.ms = 1000 + s * 200; e.wk = (uint16_t)(2100 + (k >= 5)); e.p.type = 50 + (k >= 5) * 3 + 0; e.p.lat = i; e.v.hs = i; if (e.kind == 0) append(in, msg(42, pos_body(e.p), e.wk, e.ms)); else if (e.kind == 1) append(in, msg(99, vel_body(e.v), e.wk, e.ms)); else { Bytes b(40); append(in, msg(263, b, e.wk, e.ms)); } ev.push_back(e); }
  auto o = convert(c, in); size_t k = 0; uint16_t lw = 1; uint32_t lt = 2; uint32_t ft = 2; int fl = 0;
  for (auto &e : ev) { if (e.kind == 2) { CHK(c, k < o.size() && o[k].type == 0x0221, "attitude missing or out of order"); k++; continue; }
    if (lw != e.wk || lt != e.ms) { CHK(c, k < o.size(), "output ends early"); check_time(c, o[k++], e.wk, e.ms); lw = e.wk; lt = e.ms; }
    CHK(c, k < o.size(), "output ends early"); if (e.kind == 0) { check_pos(c, o[k++], e.p, e.ms); ft = e.ms; fl = pos_flags(e.p.type); } else check_vel(c, o[k++], e.v, e.ms, e.ms == ft ? fl : 0); }
  CHK(c, k == o.size(), "%zu messages sent, %zu expected", o.size(), k); done(c, o, ev.size());
}
// ---- ephemeris --------------------------------------------------------------------------------------------------------
static void ephemeris(Ctx &c) {
  Bytes b(224); double D[19]; static const size_t OFF[19] = {4, 32, 40, 48, 56, 64, 72, 80, 88, 96, 104, 112, 120, 128, 136, 144, 152, 164, 172}; (void)OFF;
  uint32_t prn = 5, h = 0, iode = 77, week = 2101, iodc = 333; double toe = 345600, A = 26559755.5 * 1.0, toc = 352800, af[3] = {1e-4, -2e-12, 3e-19}, ura = 4.0, tgd = -1.1e-8; for (int i = 0; i < 19; i++) D[i] = (i % 2 ? -1 : 1) * (0.1 + i * 0.013);
  uint32_t f = c.choose(24, "field"), k = c.choose(c.thorough ? 4096 : 512, "value"); double x = (k & 1 ? -1 : 1) * ldexp(1 + k / 4096.0, (int)(k % 41) - 30);
  if (f == 0) prn = 1 + k % 255; else if (f == 1) h = k; else if (f == 2) iode = k % 256; else if (f == 3) week = 1000 + k; else if (f == 4) iodc = k; else if (f == 5) toe = 16.0 * (k * 73.0); else if (f == 6) toc = 16.0 * (k * 73.0); else if (f == 7) A = 2e7 + k * 1234.5; else if (f == 8) ura = (k + 1) * 0.25; else if (f == 9) tgd = x; else if (f < 13) af[f - 10] = x; else D[4 + f - 13 > 18 ? 18 : 4 + f - 13] = x;
  // doubles in body order after A: delta_N, M0, ecc, omega, cuc, cus, crc, crs, cic, cis, I0, I_dot, omega0, omega_dot
  put(b, 0, prn, 4); putd(b, 4, 99); put(b, 12, h, 4); put(b, 16, iode, 4); put(b, 20, iode, 4); put(b, 24, week, 4); put(b, 28, week + 1024, 4); putd(b, 32, toe); putd(b, 40, A); for (int i = 0; i < 14; i++) putd(b, 48 + 8 * (size_t)i, D[4 + i]); put(b, 160, iodc, 4); putd(b, 164, toc); putd(b, 172, tgd); for (int i = 0; i < 3; i++) putd(b, 180 + 8 * (size_t)i, af[i]); put(b, 204, 1, 4); putd(b, 208, 7.5); putd(b, 216, ura);
  auto o = convert(c, msg(7, b)); CHK(c, o.size() == 1 && o[0].type == 138 && o[0].p.size() == 139 && o[0].sender == 5000, "%zu messages from one ephemeris", o.size()); Rd r(o[0].p);
  auto is = [&](const char *n, double got, double want) { CHK(c, got == want, "ephemeris %s is %.17g instead of %.17g", n, got, want); }; auto fl = [&](const char *n, double want) { float g = r.f(); CHK(c, g == (float)want, "ephemeris %s is %.9g instead of %.9g", n, g, (float)want); }; double *d = D + 4;
  is("sat", (double)r.u(1), prn); is("code", (double)r.u(1), 0); is("toe", (double)r.u(4), toe); is("week", (double)r.u(2), week); { float g = r.f(); CHK(c, fabs(g - sqrt(ura)) < 1e-5 * sqrt(ura), "ura %g from %g squared", g, ura); } is("fit", (double)r.u(4), 14400); is("valid", (double)r.u(1), 1); is("health", (double)r.u(1), (uint8_t)h);
  fl("tgd", tgd); fl("crs", d[7]); fl("crc", d[6]); fl("cuc", d[4]); fl("cus", d[5]); fl("cic", d[8]); fl("cis", d[9]); is("dn", r.d(), d[0]); is("m0", r.d(), d[1]); is("ecc", r.d(), d[2]); { double g = r.d(); CHK(c, fabs(g - sqrt(A)) < 1e-9 * g, "sqrt A %.12g from %.12g", g, A); } is("omega0", r.d(), d[12]); is("omegadot", r.d(), d[13]); is("w", r.d(), d[3]); is("inc", r.d(), d[10]); is("inc_dot", r.d(), d[11]); fl("af0", af[0]); fl("af1", af[1]); fl("af2", af[2]); is("toc", (double)r.u(4), toc); is("toc week", (double)r.u(2), week); is("iode", (double)r.u(1), iode); is("iodc", (double)r.u(2), iodc); done(c, o);
}
// An ephemeris whose satellite, week or times do not fit the SBP message is left out; what follows is not affected.
static void ephemeris_refused(Ctx &c) {
  static const double T[] = {-1, -16, -604800, -1e18, 4294967296.0, 4294967296.0 + 345600, 1e18, 1e300, -INFINITY, INFINITY, NAN}; static const uint32_t P[] = {256, 261, 65541, 0x80000005u, 0xFFFFFFFFu}, W[] = {65536, 67637, 0x80000835u, 0xFFFFFFFFu};
  uint32_t f = c.choose(4, "field"), n = f < 2 ? 11u : f == 2 ? 5u : 4u, k = c.choose(n, "value"), after = c.choose(2, "a good one follows");
  auto eph = [](uint32_t prn, uint32_t week, double toe, double toc) { Bytes b(224); put(b, 0, prn, 4); putd(b, 4, 99); put(b, 16, 77, 4); put(b, 20, 77, 4); put(b, 24, week, 4); put(b, 28, week, 4); putd(b, 32, toe); putd(b, 40, 26559755.5); for (int i = 0; i < 14; i++) putd(b, 48 + 8 * (size_t)i, 0.01 * (i + 1)); put(b, 160, 333, 4); putd(b, 164, toc); put(b, 204, 1, 4); putd(b, 216, 4.0); return b; };
  Bytes in = msg(7, eph(f == 2 ? P[k] : 5, f == 3 ? W[k] : 2101, f == 0 ? T[k] : 345600, f == 1 ? T[k] : 345600)); if (after) append(in, msg(7, eph(9, 2101, 352800, 352800)));
  auto o = convert(c, in); CHK(c, o.size() == after, "%zu messages, %u expected: an ephemeris with an unrepresentable %s is not left out", o.size(), after, f == 0 ? "toe" : f == 1 ? "toc" : f == 2 ? "satellite" : "week"); if (after) { Rd r(o[0].p); CHK(c, o[0].type == 138 && r.u(1) == 9, "the ephemeris after an unrepresentable one is wrong"); }
  done(c, o);
}
// ---- inertial ---------------------------------------------------------------------------------------------------------
static const long double FT = 0.3048L, DEG = 3.14159265358979323846264338327950288L / 180, G = 9.806L;
static bool imu_known(int t, double rate, long double &g, long double &a) {
  switch (t) { case 11: case 5: case 27: case 20: case 28: g = ldexpl(1, -33); a = FT * ldexpl(1, -27); return true; case 12: g = ldexpl(1, -33); a = FT * ldexpl(1, -26); return true; case 58: g = ldexpl(1, -33); a = ldexpl(1, -29); return true; case 33: g = 0.1L / (3600 * 256.0L); a = ldexpl(0.05L, -15); return true; case 13: g = 0.1L / 256 / 3600 * DEG; a = ldexpl(0.05L, -15); return true; case 8: g = ldexpl(1, -19); a = ldexpl(1, -14); return true; case 26: g = 1e-9L; a = 2e-8L; return true; case 31: g = ldexpl(720, -31) * DEG; a = ldexpl(200, -31); return true; case 32: case 56: g = ldexpl(1, -21) * DEG; a = ldexpl(1, -22); return true; case 41: case 62: g = 0.008L / 65536 / rate * DEG; a = 0.2L / 65536 / rate * 1000 * G; return true; case 61: g = 0.0151515L / 65536 / 200 * DEG; a = 0.4L / 65536 / 200 * 1000 * G; return true; }
  return false;
}
static double type_rate(int t) { switch (t) { case 1: case 4: case 11: case 12: case 5: case 27: case 20: case 28: case 58: return 100; case 32: case 56: case 41: return 125; case 26: case 13: case 8: case 33: case 31: case 61: case 62: return 200; } return 0; }
struct Imu { int type = 58; uint8_t info = 0; int32_t acc[3] = {1000000, -2000000, 3000000}, gyr[3] = {40000, -50000, 60000}; uint16_t wk = 2100; uint32_t ms = 5000; };
static Bytes imu_body(const Imu &i) { Bytes b(40); b[0] = i.info; b[1] = (uint8_t)i.type; put(b, 2, i.wk, 2); putd(b, 4, i.ms / 1000.0); put(b, 12, 0x77, 4); put(b, 16, (uint32_t)i.acc[2], 4); put(b, 20, (uint32_t)i.acc[1], 4); put(b, 24, (uint32_t)i.acc[0], 4); put(b, 28, (uint32_t)i.gyr[2], 4); put(b, 32, (uint32_t)i.gyr[1], 4); put(b, 36, (uint32_t)i.gyr[0], 4); return b; }
struct ImuRef { bool have = false, aux = false; uint16_t wk = 0, awk = 0; uint32_t ms = 0, ams = 0; };
static void check_imu(Ctx &c, const std::vector<Msg> &o, size_t &k, const Imu &i, ImuRef &st) {
  double rate = type_rate(i.type); int64_t dt = ((int64_t)i.wk - st.wk) * (int64_t)WEEK + (int64_t)i.ms - (int64_t)st.ms; if (st.have && dt > 0 && dt < (int64_t)WEEK) rate = 1000.0 / (double)dt;
  long double g = 0, a = 0; bool ok = rate > 0 && imu_known(i.type, rate, g, a) && !(i.info & 3);
  if (ok) {
    CHK(c, k + 1 < o.size() && o[k].type == 0x0222 && o[k + 1].type == 0x0900 && o[k].p.size() == 17 && o[k + 1].p.size() == 17 && o[k].sender == 5000, "inertial message of type %d gave no angular rate and raw data", i.type);
    Rd r(o[k].p); uint64_t t = r.u(4); int64_t v[3]; for (auto &x : v) x = r.s(4); uint64_t f = r.u(1); CHK(c, t == i.ms && f == 1, "angular rate time %llu flags %llu", (unsigned long long)t, (unsigned long long)f);
    for (int n = 0; n < 3; n++) CHK(c, sat_near((double)v[n], i.gyr[n] * g * rate / DEG * 1e6L, -2147483648.0, 2147483647.0, 1e-12L), "IMU type %d rate %g: gyro count %d axis %d sent as %lld udeg/s", i.type, rate, i.gyr[n], n, (long long)v[n]);
    Rd q(o[k + 1].p); t = q.u(4); uint64_t tf = q.u(1); int64_t w[6]; for (auto &x : w) x = q.s(2); CHK(c, t == i.ms && tf == 0, "raw inertial time %llu.%llu", (unsigned long long)t, (unsigned long long)tf);
    for (int n = 0; n < 3; n++) { CHK(c, sat_near((double)w[n], i.acc[n] * a * rate * 32768 / (8 * G), -32768, 32767, 1e-12L), "IMU type %d rate %g: accelerometer count %d axis %d sent as %lld", i.type, rate, i.acc[n], n, (long long)w[n]); CHK(c, sat_near((double)w[3 + n], i.gyr[n] * g * rate / DEG * 32768 / 125, -32768, 32767, 1e-12L), "IMU type %d rate %g: gyro count %d axis %d sent as raw %lld", i.type, rate, i.gyr[n], n, (long long)w[3 + n]); }
    k += 2;
  }
  int64_t da = ((int64_t)i.wk - st.awk) * (int64_t)WEEK + (int64_t)i.ms - (int64_t)st.ams; bool due = !st.aux || da >= 1000, maybe = st.aux && da < 0; bool got = k < o.size() && o[k].type == 0x0901 && (ok || due || maybe);   // without inertial output in front only a due one can be attributed
  if (!(i.info & 3) && rate > 0 && !maybe) CHK(c, got == due, "auxiliary message %s %lld ms after the last one", got ? "sent" : "not sent", (long long)da);
  if (got) { CHK(c, o[k].p == (Bytes{1, 0, 0, 0x42}), "auxiliary message %s", hex(o[k].p).c_str()); k++; st.aux = true; st.awk = i.wk; st.ams = i.ms; }
  st.have = true; st.wk = i.wk; st.ms = i.ms;
}
static void imu_values(Ctx &c) {
  Imu i; i.type = (int)c.choose(c.thorough ? 256 : 64, "type"); uint32_t f = c.choose(7, "axis"); static const int32_t V[] = {0, 1, -1, 2, 100, -100, 32767, 65536, -65536, 1000003, -1000003, 0x7FFFFFFF, -0x7FFFFFFF, 0x40000000, 123456789, -123456789}; int32_t x = V[c.choose(16, "value")]; if (f < 3) i.acc[f] = x; else if (f < 6) i.gyr[f - 3] = x; else { i.info = (uint8_t)(x & 0xFF); }
  Imu j = i; j.ms = i.ms + 8; Bytes in = msg(1462, imu_body(i), i.wk, i.ms); append(in, msg(1462, imu_body(j), j.wk, j.ms)); auto o = convert(c, in); size_t k = 0; ImuRef st; check_imu(c, o, k, i, st); check_imu(c, o, k, j, st); CHK(c, k == o.size(), "%zu messages, %zu expected", o.size(), k); done(c, o, 2);
}
static void imu_times(Ctx &c) {            // sequences of time steps including week rollovers, gaps, repeats and steps back
  static const int64_t ST[] = {5, 8, 10, 500, 1000, 1001, 0, -10, 999, 2000}; int64_t t = (int64_t[]){5000, (int64_t)WEEK - 1004, (int64_t)WEEK - 5, (int64_t)WEEK - 2}[c.choose(4, "start")] + 2100ll * WEEK; uint32_t n = c.thorough ? 6 : 5; int type = (int[]){58, 41, 1, 16}[c.choose(4, "type")]; Bytes in; std::vector<Imu> v;
  for (uint32_t k = 0; k < n; k++) { if (k) { int64_t d = ST[c.choose(10, "step")]; t += d < 0 && type != 58 && type != 41 ? 700 : d; } Imu i; i.type = type; i.wk = (uint16_t)(t / WEEK); i.ms = (uint32_t)(t % WEEK); if (i.ms == 0) { t++; i.ms++; } v.push_back(i); append(in, msg(1462, imu_body(i), i.wk, i.ms)); }
  auto o = convert(c, in); size_t k = 0; ImuRef st; for (auto &i : v) check_imu(c, o, k, i, st); CHK(c, k == o.size(), "%zu messages, %zu expected", o.size(), k); done(c, o, n);
}
static void mixed(Ctx &c) {                // range messages of several epochs among others: no measurement leaks from one message into the next
  uint32_t n = c.thorough ? 4 : 3; Bytes in; struct E { std::vector<Rec> v; uint32_t ms; bool att; }; std::vector<E> ev; static const int CN[] = {0, 1, 13, 14, 15, 28, 29, 63};
  for (uint32_t i = 0; i < n; i++) { E e; uint32_t k = c.choose(9, "message"); e.att = k == 8; e.ms = 1000 * (i + 1); if (e.att) append(in, msg(263, Bytes(40), 2100, e.ms)); else { for (int q = 0; q < CN[k]; q++) { Rec r; r.prn = (uint8_t)(1 + q % 28); r.ts = q < 28 ? 0x1C04 : q < 56 ? 0x11C04 : 0x211C04; r.adr = (int32_t)(1000 * i) + q; r.cn0 = i; if (q % 5 == 4 && i) r.ts = 0x71C04; e.v.push_back(r); } append(in, msg(140, range(e.v), 2100, e.ms)); } ev.push_back(e); }
  auto o = convert(c, in); size_t k = 0; for (auto &e : ev) { if (e.att) { CHK(c, k < o.size() && o[k].type == 0x0221, "attitude lost"); k++; continue; } size_t cnt = 0; size_t t = e.v.empty() ? 1 : (e.v.size() + 13) / 14; while (k + cnt < o.size() && cnt < t) cnt++; CHK(c, cnt == t, "observation messages missing"); check_obs(c, o, e.v, 2100, e.ms, k, cnt); k += cnt; } CHK(c, k == o.size(), "%zu messages, %zu expected", o.size(), k); done(c, o, n);
}
int main(int argc, char **argv) {
  Spec s; s.property = "C04";
  s.rule = "nov2sbp_main run on every range record count with every one or two unconvertible records, every run of unconvertible records, every value or bit of every record field, time stamps around boundaries, every ephemeris value that does not fit, every position type and accuracy step, track angles by speeds, attitude angle triples, every ephemeris field over a value ladder, every IMU type with value ladders, and every sequence of events over small alphabets up to the depth; outputs compared with an independent conversion model";
  s.assumptions = {"ephemeris, GPS position height: geoid supplied by a stand-in model", "a week or time of week of 0 in an inertial message means unknown time"};
  s.scenarios = {{"obs_counts", obs_counts}, {"obs_all_bad", obs_all_bad}, {"obs_fields", obs_fields}, {"obs_pseudo", obs_pseudo}, {"obs_time", obs_time}, {"week_end", week_end}, {"pos_fields", pos_fields}, {"vel_fields", vel_fields}, {"att_fields", att_fields}, {"epochs", epochs}, {"ephemeris_refused", ephemeris_refused}, {"ephemeris", ephemeris}, {"imu_values", imu_values}, {"imu_times", imu_times}, {"mixed", mixed}};
  return run(argc, argv, s);
}
