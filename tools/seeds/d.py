import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed, verify, S
ALL = ["conv", "librtcm", "libubx", "libixcom", "extra"]
seed("out-fcn-table", "C20", "a GLONASS channel for a satellite number beyond the constellation, as an ephemeris or an observation source may carry",
     "the channel is written behind the channel table, over other fields of the converter",
     [("gnss_converters_extra/src/sbp_rtcm3.c", "sid.sat < GLO_FIRST_PRN || sid.sat >= GLO_FIRST_PRN + NUM_SATS_GLO", "sid.sat < GLO_FIRST_PRN")], ALL, ("demo.c", r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gnss-converters-extra/sbp_rtcm3.h>
static s32 out(uint8_t *b, uint16_t n, void *ctx) { (void)b; (void)ctx; return n; }
struct box { struct rtcm3_out_state s; uint8_t behind[512]; };
int main(void) {
  struct box *a = calloc(1, sizeof *a), *b = calloc(1, sizeof *b);
  sbp2rtcm_init(&a->s, out, NULL);
  for (int sat = 30; sat < 256; sat++) {
    memcpy(b, a, sizeof *a);
    sbp_gnss_signal_t sid; sid.sat = (u8)sat; sid.code = 3;
    sbp2rtcm_set_glo_fcn(sid, 5, &a->s);
    if (memcmp(a, b, sizeof *a) != 0) { printf("a channel for satellite %d changes the converter\n", sat); return 1; }
  }
  return 0;
}
'''))
seed("out-conv-kept", "C21", "a converter of the stream interface created and deleted again and again",
     "every deleted converter stays allocated",
     [("gnss_converters_extra/src/sbp_conv.c", "void sbp_conv_delete(sbp_conv_t conv) { free(conv); }", "void sbp_conv_delete(sbp_conv_t conv) {\n  free((conv == NULL || conv->state.sender_id == 0) ? NULL : conv);\n}")], ALL, ("demo.c", r'''
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <gnss-converters-extra/sbp_conv.h>
int main(void) {
  sbp_conv_delete(sbp_conv_new());
  size_t before = mallinfo2().uordblks + mallinfo2().hblkhd;
  for (int i = 0; i < 200; i++) sbp_conv_delete(sbp_conv_new());
  size_t after = mallinfo2().uordblks + mallinfo2().hblkhd;
  if (after > before + 20000) { printf("%zu bytes stay allocated after 200 converters\n", after - before); return 1; }
  return 0;
}
'''))
B = open(os.path.dirname(os.path.abspath(__file__)) + "/b.py").read(); CV = B[B.index("CV = r'''") + 9:]; CV = CV[:CV.index("'''")]
seed("conv-week-half", "C15", "observations of the next week while the converter's own time lies more than five days before them",
     "their epoch gets the week of the converter's time, a week too early",
     [("gnss_converters/src/rtcm3_sbp.c", "  if (timediff < -WEEK_SECS / 2.0 && rover_time->wn != INT16_MAX) {\n    obs_time->wn = rover_time->wn + 1;", "  if (timediff < -WEEK_SECS * 0.7 && rover_time->wn != INT16_MAX) {\n    obs_time->wn = rover_time->wn + 1;")], ["conv", "librtcm", "libubx", "libixcom"], ("demo.cc", CV + r'''
int main() {
  int bad = 0;
  for (int day = 1; day <= 3; day++) { // days between the converter's time and the message
    R r; gps_time_t t; t.wn = 2100; t.tow = 604800 - 3600; time_truth_update(&r.tt, TIME_TRUTH_EPH_GAL, t);
    W w; uint32_t tow = (uint32_t)(day * 86400 - 3600) * 1000u; w.u(12, 1077); w.u(12, 5); w.u(30, tow); w.u(1, 0); w.u(3, 0); w.u(7, 0); w.u(2, 0); w.u(2, 0); w.u(1, 0); w.u(3, 0);
    w.u(64, 1ull << 60); w.u(32, 1u << 30); w.u(1, 1); w.u(8, 75); w.u(4, 0); w.u(10, 100); w.u(14, 0); w.u(20, 10); w.u(24, 20); w.u(10, 300); w.u(1, 0); w.u(10, 640); w.u(15, 3);
    r.feed(w); int n = 0;
    for (auto &o : r.out) if (o.type == SbpMsgObs && o.m.obs.n_obs) { n++; if (o.m.obs.header.t.wn != 2101) { printf("%d days later: week %d, expected 2101\n", day, o.m.obs.header.t.wn); bad = 1; } }
    if (n != 1) { printf("%d days later: %d messages\n", day, n); bad = 1; }
  }
  return bad;
}
'''))
