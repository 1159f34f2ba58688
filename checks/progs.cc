#include "progs.hpp"
#include "ubxpipe.hpp"
#include "ixpipe.hpp"
namespace progs {
std::string words(const conv::Emit &e) {
  switch (e.type) { case SbpMsgImuRaw: case SbpMsgImuAux: case SbpMsgOdometry: case SbpMsgWheeltick: return ix::show(e); default: return ubxpipe::show(e); }
}
static void on_send(sbp_msg_type_t t, u16 sender, const sbp_msg_t *m, void *io) {
  conv::Emit e; e.sender = sender; e.type = (int)t; e.m = *m; std::string s = words(e); sbp_state_t st; st.io_context = io;
  if (s.size() > 255) { uint64_t h = mc::hash_str(s); s.resize(239); s += fmt("%016llx", (unsigned long long)h); }
  sbp_send_message(&st, (u16)t, sender, (u8)s.size(), (u8 *)&s[0], shim_write);
}
// one step of libsbp's reader: a part of a frame per call, whatever a read gives
static struct { int at; uint8_t n; uint8_t h[5]; uint8_t p[256]; uint8_t c[2]; } F;
static s8 on_process(sbp_state_t *s, s32 (*rd)(u8 *, u32, void *)) {
  uint8_t b; s32 k;
  switch (F.at) {
    case 0: k = rd(&b, 1, s->io_context); if (k < 0) return SBP_READ_ERROR; if (k == 1 && b == 0x55) { F.at = 1; F.n = 0; } return SBP_OK;
    case 1: k = rd(F.h + F.n, (u32)(5 - F.n), s->io_context); if (k < 0) return SBP_READ_ERROR; F.n = (uint8_t)(F.n + k); if (F.n >= 5) { F.n = 0; F.at = F.h[4] ? 2 : 3; } return SBP_OK;
    case 2: k = rd(F.p + F.n, (u32)(F.h[4] - F.n), s->io_context); if (k < 0) return SBP_READ_ERROR; F.n = (uint8_t)(F.n + k); if (F.n >= F.h[4]) { F.n = 0; F.at = 3; } return SBP_OK;
    default: {
      k = rd(F.c + F.n, (u32)(2 - F.n), s->io_context); if (k < 0) return SBP_READ_ERROR; F.n = (uint8_t)(F.n + k); if (F.n < 2) return SBP_OK; F.at = 0;
      Bytes f(F.h, F.h + 5); f.insert(f.end(), F.p, F.p + F.h[4]); if (sbpo::crc16(f.data(), f.size()) != (F.c[0] | F.c[1] << 8)) return SBP_READ_ERROR;
      std::unique_ptr<uint8_t[]> q(new uint8_t[F.h[4] ? F.h[4] : 1]); memcpy(q.get(), F.p, F.h[4]); uint16_t type = (uint16_t)(F.h[0] | F.h[1] << 8), sender = (uint16_t)(F.h[2] | F.h[3] << 8);
      for (int i = 0; i < shim_n_regs; i++) if (shim_regs[i].type == type) ((void (*)(u16, u8, u8 *, void *))shim_regs[i].cb)(sender, F.h[4], q.get(), shim_regs[i].context);
      return SBP_OK;
    }
  }
}
Bytes ubx_input() {
  using namespace ubxref; Bytes b; auto hw = [](uint8_t id, size_t n) { Bytes m = {0x0A, 0x09, (uint8_t)n, (uint8_t)(n >> 8)}; for (size_t i = 0; i < n; i++) m.push_back((uint8_t)(id * 31 + i)); return frame(m); };
  mc::append(b, hw(1, 60)); mc::append(b, Bytes{0xB5, 0, 0x62, 7}); { Shape s = nav_pvt(); auto r = s.pattern(2); r[0] = 1000; mc::append(b, frame(s.bytes(r))); } { Shape s = hnr_pvt(); mc::append(b, frame(s.bytes(s.pattern(2)))); }
  { Shape s = rxm_rawx(30); auto r = s.pattern(0); double t = 100.0; memcpy(&r[0], &t, 8); r[1] = 2100; mc::append(b, frame(s.bytes(r))); } mc::append(b, hw(2, 600)); mc::append(b, hw(3, 1)); return b;
}
Bytes ubx_position(bool hnr) { using namespace ubxref; Shape s = hnr ? hnr_pvt() : nav_pvt(); auto r = s.pattern(2); if (!hnr) r[0] = 1000; return frame(s.bytes(r)); }
void install() { memset(&F, 0, sizeof F); shim_on_send = on_send; shim_on_process = on_process; }
}
