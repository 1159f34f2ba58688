#pragma once
#include "nov.hpp"
#include "sbpout.hpp"
#include <unistd.h>
extern "C" int nov2sbp_main(int argc, char **argv, const char *help, int (*readfn)(uint8_t *, uint32_t, void *), int (*writefn)(uint8_t *, uint32_t, void *), void *ctx);
namespace nov {
struct Pipe { Src src; Bytes out; static int rd(uint8_t *b, uint32_t n, void *c) { return Src::read(b, n, &((Pipe *)c)->src); } static int wr(uint8_t *b, uint32_t n, void *c) { auto &o = ((Pipe *)c)->out; o.insert(o.end(), b, b + n); return (int)n; } };
// The converter keeps process-wide state; these messages bring it to a known one
// (week 0 marks the inertial times as unknown, the position flags and the last sent time become those of week 1, tow 1).
inline Bytes reset_prefix() {
  Bytes b; Hdr h; h.week = 0; h.ms = 0; h.id = 1462; Bytes imu(40); imu[1] = 58; mc::append(b, long_msg(h, imu));
  h.week = 1; h.ms = 1; h.id = 42; mc::append(b, long_msg(h, Bytes(72))); h.ms = 2; mc::append(b, long_msg(h, Bytes(72))); return b;
}
inline std::vector<sbpo::Msg> convert(mc::Ctx &c, const Bytes &in) {
  static const Bytes pre = reset_prefix(); Bytes all = pre; mc::append(all, in);
  Pipe p; p.src.s = &all; char a0[] = "nov2sbp"; char *argv[] = {a0, nullptr}; optind = 1; nov2sbp_main(1, argv, "", Pipe::rd, Pipe::wr, &p);
  std::vector<sbpo::Msg> v; std::string e; if (!sbpo::split(p.out, v, e)) c.check(false, "%s", e.c_str());
  // drop the reset output: up to and including the second position message
  size_t i = 0; int pos = 0; while (i < v.size() && pos < 2) { if (v[i].type == 0x020A) pos++; i++; }
  CHK(c, pos == 2, "the reset messages were not converted");
  v.erase(v.begin(), v.begin() + (long)i); return v;
}
}
