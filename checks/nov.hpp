#pragma once
#include "mc.hpp"
#include "parser.h"
#include "message_bestpos.h"
#include "message_bestvel.h"
#include "message_gloephemeris.h"
#include "message_gpsephem.h"
#include "message_insatt.h"
#include "message_rangecmp.h"
#include "message_rawimusx.h"
namespace nov {
using mc::Bytes;
inline void le(Bytes &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }
inline void put(Bytes &b, size_t o, uint64_t v, int n) { for (int i = 0; i < n; i++) b[o + i] = (uint8_t)(v >> (8 * i)); }
inline void crc(Bytes &b) { le(b, mc::ref_crc32_novatel(b.data(), b.size()), 4); }
struct Hdr {
  uint16_t id = 42; uint8_t type = 0x02, port = 0x20; uint16_t len = 0, seq = 0x1234; uint8_t idle = 77, tstat = 180;
  uint16_t week = 2100; int32_t ms = 123456789; uint32_t rx = 0x89abcdef; uint16_t reserved = 0x4e5f, sw = 0x3d2c;
};
// header 28 bytes as documented; the caller may lie about len
inline Bytes long_msg(Hdr h, const Bytes &body, int len = -1) {
  Bytes b = {0xAA, 0x44, 0x12, 28};
  le(b, h.id, 2); b.push_back(h.type); b.push_back(h.port);
  le(b, len < 0 ? body.size() : (uint64_t)len, 2); le(b, h.seq, 2); b.push_back(h.idle); b.push_back(h.tstat);
  le(b, h.week, 2); le(b, (uint32_t)h.ms, 4); le(b, h.rx, 4); le(b, h.reserved, 2); le(b, h.sw, 2);
  mc::append(b, body); crc(b); return b;
}
inline Bytes short_msg(uint16_t id, uint16_t week, int32_t ms, const Bytes &body, int len = -1) {
  Bytes b = {0xAA, 0x44, 0x13, (uint8_t)(len < 0 ? body.size() : (size_t)len)};
  le(b, id, 2); le(b, week, 2); le(b, (uint32_t)ms, 4); mc::append(b, body); crc(b); return b;
}
inline size_t body_len(int id, int nrec = 2) {
  switch (id) { case 7: return 224; case 42: return 72; case 99: return 44; case 140: return 4 + 24 * (size_t)nrec; case 263: return 40; case 723: return 144; case 1462: return 40; }
  return 0;
}
static const int IDS[7] = {7, 42, 99, 140, 263, 723, 1462};
// a body with distinct finite bytes; doubles/floats stay finite because the top byte is small
inline Bytes plain_body(int id, unsigned salt, int nrec = 2) {
  Bytes b(body_len(id, nrec));
  for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)((i * 29 + salt * 7 + 3) & 0x3F);
  if (id == 140) put(b, 0, (uint64_t)nrec, 4);
  return b;
}
struct Got { uint16_t id, len, week; int32_t ms; Novatel::BinaryHeaderRegular full; Bytes body; };   // body: raw struct copy
inline size_t struct_size(int id) {
  using namespace Novatel::Message;
  switch (id) { case 7: return sizeof(GPSEPHEM_t); case 42: return sizeof(BESTPOS_t); case 99: return sizeof(BESTVEL_t); case 140: return sizeof(RANGECMP_t); case 263: return sizeof(INSATT_t); case 723: return sizeof(GLOEPHEMERIS_t); case 1462: return sizeof(RAWIMUSX_t); }
  return 0;
}
struct Src {   // input source with a read policy
  const Bytes *s; size_t pos = 0; int end_ret = 0; unsigned calls_after_end = 0, calls = 0; size_t max_ask = 0;
  std::function<size_t(size_t call, size_t pos, size_t ask)> policy;
  static int read(uint8_t *b, uint32_t n, void *ctx) {
    Src *me = (Src *)ctx; me->calls++; if (n > me->max_ask) me->max_ask = n;
    size_t left = me->s->size() - me->pos;
    if (left == 0 || n == 0) {
      if (left == 0 && ++me->calls_after_end > 5000) throw mc::Violation{"spin", "keeps reading after the end of input"};
      if (n == 0 && me->calls > 1000000) throw mc::Violation{"spin", "keeps asking for zero bytes"};
      return left == 0 ? me->end_ret : 0;
    }
    size_t k = me->policy ? me->policy(me->calls - 1, me->pos, n) : n;
    if (k > n) k = n; if (k > left) k = left; if (k == 0) k = 1;
    memcpy(b, me->s->data() + me->pos, k); me->pos += k; return (int)k;
  }
};
// run a parser over a source; deliver(header, data, id)
inline void parse(Src &src, const std::function<void(int, const Novatel::BinaryHeader *, const void *)> &deliver, unsigned mask = 0x7F, Novatel::Parser::LogFunction logfn = nullptr) {
  Novatel::Message::CallbackArray cb;
  for (int i = 0; i < 7; i++) {
    if (mask & (1u << i)) {
      int id = IDS[i];
      cb[i].message_id = (Novatel::Message::Id)id;
      cb[i].callfn = [id, &deliver](const Novatel::BinaryHeader *h, const void *d) { deliver(id, h, d); };
    } else { cb[i].message_id = Novatel::Message::Id::kNoCallback; cb[i].callfn = nullptr; }
  }
  auto *p = new Novatel::Parser(Src::read, logfn, cb, &src);
  p->process(); delete p;
}
// reference scan over the whole stream
struct Ref { uint16_t id, len, week; int32_t ms; size_t off, body; };
inline std::vector<Ref> ref_scan(const Bytes &s) {
  std::vector<Ref> v; size_t p = 0, n = s.size();
  auto rd = [&](size_t o, int k) { uint64_t x = 0; for (int i = k; i-- > 0;) x = (x << 8) | s[o + i]; return x; };
  while (p < n) {
    size_t total = 0, hl = 0, len = 0;
    if (p + 3 < n && s[p] == 0xAA && s[p + 1] == 0x44) {
      if (s[p + 2] == 0x12 && s[p + 3] == 28 && p + 28 <= n) { hl = 28; len = rd(p + 8, 2); }
      else if (s[p + 2] == 0x13 && p + 12 <= n) { hl = 12; len = s[p + 3]; }
      if (hl) total = hl + len + 4;
    }
    if (total && total <= 4096 && p + total <= n && mc::ref_crc32_novatel(&s[p], hl + len) == rd(p + hl + len, 4)) {
      Ref r; r.len = (uint16_t)len; r.off = p; r.body = p + hl; r.id = (uint16_t)rd(p + 4, 2);
      if (hl == 28) { r.week = (uint16_t)rd(p + 14, 2); r.ms = (int32_t)rd(p + 16, 4); } else { r.week = (uint16_t)rd(p + 6, 2); r.ms = (int32_t)rd(p + 8, 4); }
      v.push_back(r); p += total;
    } else p++;
  }
  return v;
}
inline bool known_id(int id) { for (int i : IDS) if (i == id) return true; return false; }
}  // namespace nov
