// C13: RTCM stream: every frame with a right check value is processed once, in order
#include "conv.hpp"
#include "rtcmref.hpp"
using namespace mc; using namespace conv; namespace R = rtcmref;
// ------------------------------------------------------------------ reference: scan the whole stream
static std::vector<Bytes> scan(const Bytes &b) {
  std::vector<Bytes> v; size_t p = 0;
  while (p + 6 <= b.size()) {
    if (b[p] != 0xD3) { p++; continue; }
    size_t n = (size_t)(b[p + 1] & 3) << 8 | b[p + 2]; if (!n) { p++; continue; }
    if (p + 6 + n > b.size()) break;       // cannot happen before the zero tail
    uint32_t c = ref_crc24q(&b[p], 3 + n); if (c != ((uint32_t)b[p + 3 + n] << 16 | (uint32_t)b[p + 4 + n] << 8 | b[p + 5 + n])) { p++; continue; }
    v.push_back(Bytes(b.begin() + (long)p + 3, b.begin() + (long)(p + 3 + n))); p += 6 + n;
  }
  return v;
}
static Bytes tail(Bytes b) { b.insert(b.end(), 1030, 0); return b; }
static Bytes prop(uint8_t id, const Bytes &data, size_t pad = 0) {
  BitW w; w.u(12, 4062); w.u(4, 0); w.u(16, 0x0A00u + id); w.u(16, 0x4321); w.u(8, data.size()); for (uint8_t x : data) w.u(8, x); Bytes b = w.b; if (b.size() < pad) b.resize(pad, (uint8_t)(0xC0 + id)); return b;
}
static Bytes small(uint8_t id, size_t n = 5) { Bytes d; for (size_t i = 0; i < n; i++) d.push_back((uint8_t)(id * 31 + i)); return prop(id, d); }
static Bytes m1005(int stn) { auto s = R::m1005(); auto r = s.defaults(); r[1] = stn; return s.bytes(r); }
static Bytes cat(const Bytes &a, const Bytes &b) { Bytes c = a; append(c, b); return c; }
static Bytes d3crc(uint8_t id) {    // a frame whose check value contains the preamble byte
  for (int i = 0; i < 256; i++) { Bytes f = rtcm_frame(prop(id, {(uint8_t)i, 1, 2})); if (f[f.size() - 3] == 0xD3 || f[f.size() - 2] == 0xD3 || f.back() == 0xD3) return f; }
  return rtcm_frame(small(id));
}
enum { NSEG = 14 };
static const char *SN[NSEG] = {"message", "base position", "full size message", "reserved bits set", "empty frame", "frame around a frame", "damaged frame around a frame", "lone preamble", "preamble and zero length", "truncated frame", "preamble and length 1023", "other bytes", "frame with preamble in its check value", "damaged check value"};
static Bytes seg(int k, uint8_t id) {
  switch (k) {
    case 0: return rtcm_frame(small(id));
    case 1: return rtcm_frame(m1005(id));
    case 2: return rtcm_frame(prop(id, {9, 8, 7}, 1023));
    case 3: { Bytes f = rtcm_frame(small(id)); f.resize(f.size() - 3); f[1] |= 0xFC; uint32_t c = ref_crc24q(f.data(), f.size()); f.push_back((uint8_t)(c >> 16)); f.push_back((uint8_t)(c >> 8)); f.push_back((uint8_t)c); return f; }
    case 4: return rtcm_frame({});
    case 5: return rtcm_frame(prop(id, rtcm_frame(small((uint8_t)(id + 100)))));
    case 6: { Bytes f = rtcm_frame(prop(id, rtcm_frame(small((uint8_t)(id + 100))))); f[6] ^= 0x10; return f; }
    case 7: return {0xD3};
    case 8: return {0xD3, 0, 0};
    case 9: { Bytes f = rtcm_frame(small(id, 20)); f.resize(15); return f; }
    case 10: return {0xD3, 3, 0xFF};
    case 11: return {0, 0xFF, 0x55, 0x24, 0xD2};
    case 12: return d3crc(id);
    default: { Bytes f = rtcm_frame(small(id)); f.back() ^= 1; return f; }
  }
}
static std::vector<std::string> want(const Bytes &b) { R2S r; for (auto &p : scan(b)) r.payload(p); return r.shown(); }
static void expect(Ctx &c, const std::vector<std::string> &w, const std::vector<std::string> &g, const std::string &how) {
  size_t n = w.size() < g.size() ? w.size() : g.size();
  for (size_t i = 0; i < n; i++) CHK(c, w[i] == g[i], "%s: output %zu is %.200s, expected %.200s", how.c_str(), i, g[i].c_str(), w[i].c_str());
  CHK(c, w.size() == g.size(), "%s: %zu messages sent, expected %zu (%.200s)", how.c_str(), g.size(), w.size(), w.size() > n ? w[n].c_str() : n < g.size() ? g[n].c_str() : "");
  c.traced(g.size()); for (auto &x : g) c.state(hash_str(x));
}
static const size_t CH[] = {0, 1, 2, 3, 5, 8, 13, 64, 255, 1024, 1029, 1030, 3067};
static std::vector<size_t> chunks(size_t n, size_t c) { std::vector<size_t> v; if (c) for (size_t p = 0; p < n; p += c) v.push_back(c); return v; }
// sequences of segments, read in equal pieces
static void mixed(Ctx &c) {
  int len = c.thorough ? 4 : 3; Bytes b; std::string how;
  for (int i = 0; i < len; i++) { int k = (int)c.choose(NSEG, "segment"); append(b, seg(k, (uint8_t)(i + 1))); how += std::string(i ? ", " : "") + SN[k]; }
  b = tail(b); auto w = want(b);
  for (size_t ch : CH) {
    if (c.thorough && len == 4 && (ch == 2 || ch == 5 || ch == 13)) continue;
    R2S r; c.at("%s, read %zu bytes at a time", how.c_str(), ch); r.stream(b, chunks(b.size(), ch)); c.step((uint64_t)r.reads); expect(c, w, r.shown(), fmt("%s, read %zu bytes at a time", how.c_str(), ch));
  }
}
// pairs of segments, the read split in two (thorough: three) at every position
static void cuts(Ctx &c) {
  int a = (int)c.choose(NSEG, "segment"), d = (int)c.choose(NSEG, "segment"); if (a == 2 && d == 2) return;
  Bytes b = cat(cat(seg(a, 1), seg(d, 2)), rtcm_frame(small(3))); size_t body = b.size(); b = tail(b); auto w = want(b);
  for (size_t i = 1; i <= body; i++) for (size_t j = i; j <= (c.thorough && body < 120 ? body : i); j++) {
    R2S r; std::vector<size_t> sp = {i}; if (j > i) sp.push_back(j - i); c.at("%s, %s cut at %zu and %zu", SN[a], SN[d], i, j); r.stream(b, sp); c.step((uint64_t)r.reads); expect(c, w, r.shown(), fmt("%s, %s, cut at byte %zu and %zu", SN[a], SN[d], i, j));
  }
}
// a frame whose check value is also the start of a further frame with a right check value
static void overlap(Ctx &c) {
  size_t k = 1 + c.choose(3, "shared bytes"); int outer = (int)c.choose(3, "outer"), in = (int)c.choose(3, "inner"), lead = (int)c.choose(NSEG, "before"), brk = (int)c.choose(2, "outer damaged");
  Bytes p = outer == 0 ? prop(1, {1, 2, 3, 4, 5, 6, 7, 8}) : outer == 1 ? prop(1, {1, 2}, 600) : prop(1, {9}, 1023), inner = rtcm_frame(in == 0 ? small(20, 9) : in == 1 ? m1005(77) : prop(21, {4}, 700));
  Bytes m = {0xD3, (uint8_t)(p.size() >> 8), (uint8_t)p.size()}; append(m, p); uint64_t want_ = 0, mask = 0; for (size_t i = 0; i < k; i++) { want_ |= (uint64_t)inner[i] << (8 * (k - 1 - i)); mask |= 0xFFull << (8 * (k - 1 - i)); }
  CHK(c, forge(m, m.size() - 4, 4, [](const Bytes &b) { return (uint64_t)ref_crc24q(b.data(), b.size()); }, want_, mask), "cannot forge");
  uint32_t q = ref_crc24q(m.data(), m.size()); for (int s : {16, 8, 0}) m.push_back((uint8_t)(q >> s)); if (brk) m[4] ^= 1;
  Bytes b = seg(lead, 3); append(b, m); append(b, Bytes(inner.begin() + (long)k, inner.end())); append(b, rtcm_frame(small(30))); b = tail(b); auto w = want(b);
  for (size_t ch : CH) { R2S r; r.stream(b, chunks(b.size(), ch)); c.step((uint64_t)r.reads); expect(c, w, r.shown(), fmt("frames sharing %zu bytes (%d, %d, %s before, damaged %d), read %zu bytes at a time", k, outer, in, SN[lead], brk, ch)); }
}
// long runs of full frames, read in pieces of every size
static void big(Ctx &c) {
  size_t ch = 1 + c.choose(3100, "piece"); int kind = (int)c.choose(c.thorough ? 4 : 2, "stream"); Bytes b; if (ch > 3067) { if (kind) return; ch = 0; } if (ch && ch < 16 && !c.thorough) return;
  for (uint8_t i = 0; i < 7; i++) {
    if (kind == 0) append(b, seg(2, i)); else if (kind == 1) { append(b, seg(i % 3 == 2 ? 13 : 2, i)); append(b, seg(10, i)); } else if (kind == 2) append(b, rtcm_frame(prop(i, Bytes(255, i), 200 + 131u * i))); else { append(b, seg(2, i)); append(b, seg(6, i)); append(b, seg(0, (uint8_t)(i + 20))); }
  }
  b = tail(b); auto w = want(b); R2S r; c.at("long frames read %zu bytes at a time", ch); r.stream(b, chunks(b.size(), ch)); c.step((uint64_t)r.reads); expect(c, w, r.shown(), fmt("long frames (%d), read %zu bytes at a time", kind, ch));
}
// reads that return nothing or an error in between lose nothing
static void idle(Ctx &c) {
  int at = (int)c.choose(60, "position"), n = 1 + (int)c.choose(3, "times"); Bytes b = cat(cat(seg(0, 1), seg(9, 2)), seg(1, 3)); b = tail(b); auto w = want(b);
  R2S r; r.in = b; r.split = {(size_t)at}; if (!at) r.split.clear(); for (int i = 0; i < n; i++) r.split.push_back(0);
  for (int k = 0; k < 40; k++) { rtcm2sbp_process(r.st(), &R2S::rd); c.step(); } expect(c, w, r.shown(), fmt("%d empty reads after byte %d", n, at));
}
// every bit of a stream flipped, every byte dropped, replaced or doubled, every truncation
static void damage(Ctx &c) {
  Bytes b; append(b, seg(0, 1)); append(b, seg(11, 2)); append(b, seg(1, 3)); append(b, seg(5, 4)); append(b, seg(12, 5)); uint32_t at = c.choose((uint32_t)b.size(), "byte"); int what = (int)c.choose(12, "damage"), second = c.thorough && what < 8 ? (int)c.choose((uint32_t)b.size() * 8 + 1, "second bit") : 0;
  std::string how; 
  if (what < 8) { b[at] ^= (uint8_t)(1 << what); how = fmt("bit %d of byte %u flipped", what, at); if (second) { b[(size_t)(second - 1) / 8] ^= (uint8_t)(1 << (second - 1) % 8); how += fmt(", bit %d too", second - 1); } }
  else if (what == 8) { b.erase(b.begin() + at); how = fmt("byte %u lost", at); }
  else if (what == 9) { b.insert(b.begin() + at, 0xD3); how = fmt("preamble inserted at %u", at); }
  else if (what == 10) { b.insert(b.begin() + at, b[at]); how = fmt("byte %u doubled", at); }
  else { b.resize(at); append(b, seg(0, 9)); how = fmt("cut off after %u bytes, then another message", at); }
  b = tail(b); auto w = want(b); R2S r; c.at("%s", how.c_str()); r.stream(b); expect(c, w, r.shown(), how); R2S q; q.stream(b, chunks(b.size(), 7)); expect(c, w, q.shown(), how + ", read 7 bytes at a time"); c.step(2);
}
// a stream of real messages gives what the messages give one by one
static std::vector<R::Shape> &shapes() { static std::vector<R::Shape> v; if (v.empty()) { v = R::other_shapes(); for (auto &s : R::ssr_shapes()) v.push_back(s); for (auto &s : R::msm_shapes(false)) v.push_back(s); } return v; }
static void real(Ctx &c) {
  auto &v = shapes(); size_t n = v.size(); uint32_t i = c.choose((uint32_t)n, "first"); size_t gap = 1 + c.choose(c.thorough ? 12 : 3, "stride") * 37; 
  std::vector<Bytes> ps; for (size_t k = 0; k < 6; k++) { auto &s = v[(i + k * gap) % n]; Bytes p = s.bytes(s.defaults()); if (p.size() <= 1023) ps.push_back(p); }
  R2S a; a.know(2100, 345600); for (auto &p : ps) a.payload(p); Bytes b; for (size_t k = 0; k < ps.size(); k++) { append(b, rtcm_frame(ps[k])); if (k % 2) append(b, seg(7 + (int)(k + i) % 6, 9)); } b = tail(b);
  auto w = a.shown(); { R2S x; x.know(2100, 345600); for (auto &p : scan(b)) x.payload(p); w = x.shown(); }
  for (size_t ch : {(size_t)0, (size_t)11, (size_t)500}) { R2S r; r.know(2100, 345600); r.stream(b, chunks(b.size(), ch)); c.step((uint64_t)r.reads); expect(c, w, r.shown(), fmt("messages from %s on", v[i].name.c_str())); }
}
// ------------------------------------------------------------------ nothing faults
static void sane(Ctx &c, R2S &r, const char *how) {
  for (auto &e : r.out) {
    if (e.type == SbpMsgObs) CHK(c, e.m.obs.n_obs <= 14 && (e.m.obs.header.n_obs & 15) < (e.m.obs.header.n_obs >> 4), "%s: observation message %d with %d observations", how, e.m.obs.header.n_obs, e.m.obs.n_obs);
    if (e.type == SbpMsgLog) CHK(c, e.m.log.text.encoded_len <= 254, "%s: log of %zu bytes", how, e.m.log.text.encoded_len);
  }
  r.out.clear();
}
static const size_t LEN[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 18, 19, 20, 22, 24, 27, 30, 33, 40, 45, 50, 61, 62, 63, 80, 100, 128, 170, 200, 255, 256, 300, 400, 511, 700, 1000, 1023};
static void robust(Ctx &c) {
  uint32_t num = c.choose(4096, "message number"); bool known = c.choose(2, "time known") != 0; R2S r; if (known) r.know(2100, 345600);
  for (size_t n : LEN) for (int pat = 0; pat < (c.thorough ? 10 : 6); pat++) {
    Bytes b(n); uint64_t x = mix(num * 7919ull + n, (uint64_t)pat);
    for (size_t i = 0; i < n; i++) b[i] = pat == 0 ? 0 : pat == 1 ? 0xFF : pat == 2 ? 0x55 : pat == 3 ? (uint8_t)(i < 8 ? 0 : 0xFF) : (uint8_t)((x = mix(x, i)) >> 32);
    if (n > 0) b[0] = (uint8_t)(num >> 4); if (n > 1) b[1] = (uint8_t)((num & 15) << 4 | (b[1] & 15));
    c.at("message %u of %zu bytes, pattern %d, time %s", num, n, pat, known ? "known" : "unknown"); r.payload(b); sane(c, r, "arbitrary content"); c.step();
  }
  c.state(num * 2 + known); c.traced();
}
static void truncated(Ctx &c) {
  auto &v = shapes(); uint32_t i = c.choose((uint32_t)v.size(), "message"); bool known = c.choose(2, "time known") != 0; auto &s = v[i]; Bytes b = s.bytes(s.defaults()), f = b.size() <= 1023 ? rtcm_frame(b) : Bytes();
  R2S r; if (known) r.know(2100, 345600);
  for (size_t n = 0; n <= b.size(); n++) { c.at("%s cut to %zu of %zu bytes", s.name.c_str(), n, b.size()); r.payload(Bytes(b.begin(), b.begin() + (long)n)); sane(c, r, s.name.c_str()); c.step(); }
  for (size_t n = 0; n < f.size(); n++) { if (n >= 3 && n >= b.size()) break;  /* callers announce at least the payload */ c.at("frame of %s cut to %zu of %zu bytes", s.name.c_str(), n, f.size()); r.frame(Bytes(f.begin(), f.begin() + (long)n)); sane(c, r, s.name.c_str()); c.step(); }
  c.traced(); c.state(i * 2 + known);
}
static void flipped(Ctx &c) {
  auto &v = shapes(); uint32_t i = c.choose((uint32_t)v.size(), "message"); auto &s = v[i]; Bytes b = s.bytes(s.defaults()); if (b.size() > 1023) return;
  R2S r; r.know(2100, 345600); size_t lim = b.size() * 8; if (!c.thorough && lim > 800) lim = 800;
  for (size_t k = 12; k < lim; k++) { Bytes x = b; x[k / 8] ^= (uint8_t)(0x80 >> (k % 8)); c.at("%s with bit %zu flipped", s.name.c_str(), k); r.payload(x); sane(c, r, s.name.c_str()); c.step(); }
  c.traced(); c.state(i);
}
int main(int argc, char **argv) {
  Spec s; s.property = "C13"; s.rule = "the output equals that of decoding, one by one, the frames found by an independent scan of the whole stream; exact-size allocations under the address sanitizer";
  s.assumptions = {"the stand-in FIFO and CRC of libswiftnav behave like the originals", "a candidate frame is only judged once all its announced bytes have arrived (streams are followed by 1030 zero bytes)"};
  s.scenarios = {{"mixed", mixed}, {"cuts", cuts}, {"overlap", overlap}, {"big", big}, {"idle", idle}, {"damage", damage}, {"real", real}, {"robust", robust}, {"truncated", truncated}, {"flipped", flipped}};
  return run(argc, argv, s);
}
