// C31: NMEA sentences are sent once per epoch, from one epoch's data, at the set rate
#include "nmearef.hpp"
using namespace mc; using namespace nm;
enum Slot { GPS, UTC, POS, VEL, GPSG, UTCG, POSG, VELG, DOPS, AGE, HDG, EUL, META, GROUP, VIEW, TRACK, SLOTS };
static const char *SN[] = {"GPS_TIME", "UTC_TIME", "POS_LLH_COV", "VEL_NED", "GPS_TIME_GNSS", "UTC_TIME_GNSS", "POS_LLH_COV_GNSS", "VEL_NED_GNSS", "DOPS", "AGE_CORR", "HDG", "ORIENT_EULER", "SOLN_META", "GROUP_META", "SV_AZ_EL", "MEASUREMENT_STATE"};
static const int BEST = SBP2NMEA_MODE_BEST, GNSS = SBP2NMEA_MODE_GNSS, FUSED = SBP2NMEA_MODE_FUSED;
// the data of one epoch: every value tells it from the other epochs, g: of the GNSS solution
static World world(int e, bool g, uint32_t period = 1000) {
  World w; int t = 2 * e + (g ? 1 : 0); w.tow = period * (uint32_t)e; w.wn = 2150; w.lat = 10 + t % 70; w.lon = 20 + t % 150; w.height = 100 + t; w.cnn = (float)((t % 99) * (t % 99) + 1); w.cee = (float)(t % 99 + 1); w.cne = 0; w.cdd = (float)(2 * (t % 99) + 1); w.nsats = t % 200 + 1; w.posf = 4; w.vn = 1000 * (t % 100) + 500; w.ve = 300 * (t % 100); w.vd = 10 * (t % 100); w.velf = 1;
  w.year = 2021; w.month = 6; w.day = 10 + e % 20; w.hour = t % 24; w.min = 30; w.sec = e % 60; w.ns = g ? 0 : 500000000; w.pdop = 100 + 10 * (t % 900); w.hdop = 200 + 10 * (t % 900); w.vdop = 300 + 10 * (t % 900); w.tdop = 400 + 10 * (t % 900); w.dopf = 4; w.age = t % 9000 + 1; w.mhdop = 500 + 10 * (t % 900); w.mvdop = 600 + 10 * (t % 900); w.mage = 100 + t % 9000; w.heading = (uint32_t)(1000 * (t % 350) + 10); w.hdgf = 4; w.yaw = 1000000 * (t % 350); w.insf = 1; w.view = {{{0, e % 30 + 1}, e % 90, e % 80}}; w.track = {{{0, e % 30 + 1}, e % 100 + 50}}; return w;
}
struct Sim {                                               // the converter and the rules side by side
  Ctx &c; int req; N n; float hz; int rate[KINDS]; bool group_seen = false, complete = false; struct In { bool has = false; uint32_t tow = 0; World w; } in[SLOTS]; uint32_t last[KINDS] = {0}; unsigned kinds; uint32_t period;
  std::vector<Sat> list; int total = 0, count = -1; bool any = false; long obs_ms = 0; bool obs_ok = false; long sent = 0; std::string story; double last_cog = -1;
  Sim(Ctx &ctx, int mode, unsigned ks = ALL, int r = 1, float f = 1.f) : c(ctx), req(mode), n(mode, ks, r, f), hz(f), kinds(ks), period((uint32_t)(1000 / f)) { for (int k = 0; k < KINDS; k++) rate[k] = ks >> k & 1 ? r : 0; n.clear(); }
  void set_rate(int k, int r) { rate[k] = r; sbp2nmea_rate_set(n.st.get(), r, (sbp2nmea_nmea_id_t)k); }
  bool fused() const { return req == FUSED || (req == BEST && group_seen); }
  static unsigned need(int k) { switch (k) { case ZDA: case GSV: return 0; case HDT: return 1u << HDG; case THS: return 1u << EUL | 1u << POSG; } return 1u << GPSG | 1u << POSG | 1u << VELG | 1u << DOPS | 1u << AGE; }
  bool selected(int k, uint32_t tow) const { return rate[k] > 0 && tow % (period * (uint32_t)rate[k]) < period / 2; }
  // which sentences the rules say are sent now
  unsigned due() {
    unsigned out = 0; for (int k = 0; k < KINDS; k++) {
      bool able = FUSABLE >> k & 1; if (req == FUSED && !able) continue; bool f = fused() && able; Slot u = f ? UTC : UTCG; if (!in[u].has) continue; uint32_t t = in[u].tow; if (last[k] == t) continue;
      if (f) { if (!complete) continue; auto cur = [&](Slot s) { return !in[s].has || in[s].tow == t; }; unsigned d = need(k); if (!cur(META) || ((d >> POSG & 1) && !cur(POS)) || ((d >> VELG & 1) && !cur(VEL)) || ((d >> EUL & 1) && !cur(EUL))) continue; }
      else { bool ok = true; for (int s = 0; s < SLOTS; s++) if (need(k) >> s & 1) ok &= in[s].has && in[s].tow == t; if (!ok) continue; if (k == GSA && !(count == total - 1 && any && obs_ms >= ms(in[GPSG].w))) continue; }
      if (!selected(k, t)) continue; out |= 1u << k; last[k] = t; }
    return out;
  }
  static long ms(const World &w) { return (long)w.wn * 604800000L + (long)w.tow; }
  // what the sentences of this moment are made of
  World compose(bool f) const {
    World w; auto &u = in[f ? UTC : UTCG]; auto &p = in[f ? POS : POSG]; auto &v = in[f ? VEL : VELG]; w = u.w; w.utcf = u.has ? u.w.utcf : 0;
    if (p.has) { w.lat = p.w.lat; w.lon = p.w.lon; w.height = p.w.height; w.cnn = p.w.cnn; w.cne = p.w.cne; w.cee = p.w.cee; w.cdd = p.w.cdd; w.nsats = p.w.nsats; w.posf = p.w.posf; } else { w.posf = 0; w.nsats = 0; }
    if (v.has) { w.vn = v.w.vn; w.ve = v.w.ve; w.vd = v.w.vd; w.velf = v.w.velf; } else { w.velf = 0; w.vn = w.ve = 0; }
    if (in[DOPS].has) { w.pdop = in[DOPS].w.pdop; w.hdop = in[DOPS].w.hdop; w.vdop = in[DOPS].w.vdop; w.tdop = in[DOPS].w.tdop; w.dopf = in[DOPS].w.dopf; } else w.dopf = 0;
    if (in[AGE].has) w.age = in[AGE].w.age; if (in[META].has) { w.mhdop = in[META].w.mhdop; w.mvdop = in[META].w.mvdop; w.mage = in[META].w.mage; } else { w.mhdop = w.mvdop = w.mage = 0; }
    if (in[HDG].has) { w.heading = in[HDG].w.heading; w.hdgf = in[HDG].w.hdgf; } if (in[EUL].has) { w.yaw = in[EUL].w.yaw; w.insf = in[EUL].w.insf; } else w.insf = 0; w.used = list; w.view.clear(); w.track.clear(); if (in[VIEW].has) w.view = in[VIEW].w.view; if (in[TRACK].has) w.track = in[TRACK].w.track; w.base = 0; return w;
  }
  void judge() {
    c.step(); c.traced(1); unsigned d = due(), got = 0; std::vector<std::string> per[2]; for (auto &l : n.out) { S s; std::string e = parse(l, s); int k = e.empty() ? kind_of(s.head) : -1; c.check(k >= 0, "%s: %s", l.c_str(), e.c_str()); if (k < 0) return; got |= 1u << k; per[fused() && (FUSABLE >> k & 1)].push_back(l); }
    if (got != d) { std::string x; for (int k = 0; k < KINDS; k++) if ((got ^ d) >> k & 1) x += fmt(" %s%s", got >> k & 1 ? "+" : "-", name(k)); c.check(false, "after%s: sentences sent without need (+) or not sent (-):%s", story.c_str(), x.c_str()); }
    for (int f = 0; f < 2; f++) { unsigned mask = f ? (fused() ? (unsigned)FUSABLE : 0u) : fused() ? (unsigned)(ALL & ~FUSABLE) : (unsigned)ALL; if (!(d & mask) && per[f].empty()) continue; World w = compose(f); Ref r(w, f); r.any_talker = true; r.last_cog = -1; std::string e = r.epoch(per[f], d & mask); c.check(e.empty(), "after%s: %s", story.c_str(), e.c_str()); }
    for (int k = 0; k < KINDS; k++) sent += d >> k & 1; n.out.clear();
  }
  void give(int s, const World &w) {
    if (c.logging || story.size() < 4000) story += fmt(" %s@%u", SN[s], w.tow); int t = s; if (req == GNSS && s <= VEL) t = s + 4; if (t == GROUP) { group_seen = true; complete = false; } else { if (t == META) complete = true; bool odd = false; if (t == TRACK) for (auto &x : w.track) odd |= (x.s.code == 3 || x.s.code == 4) && x.s.sat > 28; if (!odd) { in[t].has = true; in[t].tow = w.tow; in[t].w = w; } }
    switch (s) { case GPS: n.gps(w, false); break; case UTC: n.utc(w, false); break; case POS: n.pos(w, false); break; case VEL: n.vel(w, false); break; case GPSG: n.gps(w, true); break; case UTCG: n.utc(w, true); break; case POSG: n.pos(w, true); break; case VELG: n.vel(w, true); break; case DOPS: n.dops(w); break; case AGE: n.age(w); break; case HDG: n.hdg(w); break; case EUL: n.euler(w); break; case META: n.meta(w); break; case GROUP: n.group(); break; case VIEW: n.view(w); break; case TRACK: n.track(w); break; }
    judge();
  }
  void obs(uint32_t tow, int wn, int tot, int cnt, const std::vector<Sat> &v) {
    story += fmt(" OBS@%u:%d/%d", tow, cnt, tot); long m = (long)wn * 604800000L + (long)tow; bool take = cnt == 0 || (any && m == obs_ms && cnt == count + 1); if (cnt == 0) { list.clear(); any = true; }
    if (take) { obs_ms = m; count = cnt; total = tot; list.insert(list.end(), v.begin(), v.end()); } n.obs(tow, wn, tot, cnt, v.data(), v.size()); judge();
  }
  void obs_all(int e) { World w = world(e, true, period); obs(w.tow, w.wn, 2, 0, {{0, e % 28 + 1}, {3, e % 20 + 1}}); obs(w.tow, w.wn, 2, 1, {{14, e % 30 + 2}}); }
  uint64_t key() const { uint64_t h = (uint64_t)complete * 2 + group_seen; for (auto &i : in) h = mix(h, i.tow); for (auto l : last) h = mix(h, l); return mix(h, (uint64_t)(count * 16 + total)); }
};
// ------------------------------------------------------------------ scenarios
static const int NORMAL[] = {GPS, UTC, HDG, EUL, DOPS, AGE, VEL, POS};
static int g_of(int s) { return s <= VEL ? s + 4 : s; }
static void epoch(Sim &s, int e) { bool leg = s.req == GNSS; World w = world(e, true, s.period); s.give(VIEW, w); s.give(TRACK, w); s.obs_all(e); for (int k : NORMAL) s.give(leg ? k : g_of(k), w); }
static void group(Sim &s, int e) { World w = world(e, false, s.period); s.give(GROUP, w); for (int k : {GPS, UTC, POS, VEL, EUL}) s.give(k, w); s.give(META, w); }
static void orders(Ctx &c) {                                // one epoch in all orders, after a whole earlier one or at the start
  int mode = c.choose(2, "mode"), prior = c.choose(2, "earlier epoch"); std::vector<int> left(NORMAL, NORMAL + 8), seq; while (left.size() > 1) { int i = c.choose((uint32_t)left.size(), "next"); seq.push_back(left[(size_t)i]); left.erase(left.begin() + i); } seq.push_back(left[0]); int at = c.thorough ? c.choose(9, "observations at") : 4 * (seq[0] % 3); c.leaf();
  Sim s(c, mode ? BEST : GNSS); if (prior) epoch(s, 1); World w = world(2, true); for (int i = 0; i < 9; i++) { if (i == at) s.obs_all(2); if (i < 8) s.give(mode ? g_of(seq[(size_t)i]) : seq[(size_t)i], w); } for (int k : NORMAL) s.give(mode ? g_of(k) : k, w); CHK(c, s.sent == (prior ? 22 : 11), "%ld sentences of %d epochs", s.sent, prior + 1); c.state(s.key());
}
struct Item { int slot, e, part; };
static void run_items(Ctx &c, Sim &s, const std::vector<Item> &base) {     // a stream of messages some of which are lost, repeated or late
  std::vector<Item> v; std::vector<std::pair<size_t, Item>> later; static const int L[] = {1, 2, 3, 5, 8, 13, 21};
  for (size_t i = 0; i < base.size(); i++) { int d = c.dev(10, "disturbance"); if (d == 1) continue; v.push_back(base[i]); if (d == 2) v.push_back(base[i]); if (d >= 3) { Item it = v.back(); v.pop_back(); later.push_back({i + (size_t)L[d - 3], it}); } for (auto &l : later) if (l.first == i) v.push_back(l.second); }
  for (auto &l : later) if (l.first >= base.size()) v.push_back(l.second); c.leaf();
  for (auto &i : v) if (i.slot == SLOTS) { World w = world(i.e, true, s.period); s.obs(w.tow, w.wn, 3, i.part, {{i.part == 1 ? 3 : 0, i.e + 3 * i.part}, {14, i.e + 3 * i.part}}); } else s.give(i.slot, world(i.e, i.slot >= GPSG && i.slot <= HDG ? true : s.req == GNSS, s.period)); c.state(s.key());
}
static void disturbed(Ctx &c) {                             // two GNSS epochs
  int mode = c.choose(2, "mode"); std::vector<Item> b; for (int e : {1, 2}) { b.push_back({VIEW, e, 0}); for (int p = 0; p < 3; p++) b.push_back({SLOTS, e, p}); for (int k : NORMAL) b.push_back({mode ? g_of(k) : k, e, 0}); } Sim s(c, mode ? BEST : GNSS); run_items(c, s, b);
}
static void groups(Ctx &c) {                                // two or three fused groups
  int mode = c.choose(2, "mode"); std::vector<Item> b; for (int e : {1, 2, 3}) { b.push_back({GROUP, e, 0}); for (int k : {GPS, UTC, POS, VEL, EUL, META}) b.push_back({k, e, 0}); } Sim s(c, mode ? BEST : FUSED); run_items(c, s, b);
}
static void together(Ctx &c) {                              // GNSS and fused solutions together
  int mode = c.choose(3, "mode"), turn = c.choose(3, "turn"); std::vector<Item> b; for (int e : {1, 2}) { std::vector<Item> g, f; g.push_back({SLOTS, e, 0}); g.push_back({SLOTS, e, 1}); g.push_back({SLOTS, e, 2}); for (int k : {GPS, UTC, HDG, DOPS, AGE, VEL, POS}) g.push_back({g_of(k), e, 0}); f.push_back({GROUP, e, 0}); for (int k : {UTC, POS, VEL, EUL, META}) f.push_back({k, e, 0});
    if (turn == 0) { b.insert(b.end(), g.begin(), g.end()); b.insert(b.end(), f.begin(), f.end()); } else if (turn == 1) { b.insert(b.end(), f.begin(), f.end()); b.insert(b.end(), g.begin(), g.end()); } else for (size_t i = 0; i < g.size(); i++) { b.push_back(g[i]); if (i < f.size()) b.push_back(f[i]); } }
  Sim s(c, mode); run_items(c, s, b);
}
static void sequences(Ctx &c) {                             // from every partly received epoch, all short sequences
  int mode = c.choose(3, "mode"), have = c.choose(64, "received"), len = c.thorough ? 3 : 2; static const int F[] = {GPSG, UTCG, POSG, VELG, DOPS, AGE}, G[] = {GROUP, UTC, POS, VEL, EUL, META}; bool fused = mode == 2; Sim s(c, mode == 0 ? BEST : mode == 1 ? GNSS : FUSED); int ops[4];
  for (int i = 0; i < len; i++) ops[i] = c.choose(16, "next"); c.leaf(); if (mode == 0) epoch(s, 1); if (mode == 2) group(s, 1);
  auto one = [&](int k, int e) { int slot = fused ? G[k] : mode == 1 && F[k] <= VELG ? F[k] - 4 : F[k]; s.give(slot, world(e, !fused, s.period)); }; for (int i = 0; i < 6; i++) if (have >> i & 1) one(i, 2);
  for (int i = 0; i < len; i++) { int k = ops[i] % 8, e = 2 + ops[i] / 8; if (k < 6) one(k, e); else if (k == 6) { if (fused) s.give(GPSG, world(e, true)); else s.obs_all(e); } else { if (fused) s.give(POSG, world(e, true)); else s.give(mode == 1 ? GPSG : POS, world(e, mode == 1)); } } c.state(s.key());
}
static void observations(Ctx &c) {                          // all sequences of observation messages around a solution
  int len = c.thorough ? 6 : 5, t1 = 1 + c.choose(3, "parts of the first"), t2 = 1 + c.choose(3, "parts of the second"), at = c.choose(len + 1, "solution after"), se = 1 + c.choose(3, "solution"); int ops[6]; for (int i = 0; i < len; i++) ops[i] = c.choose((uint32_t)(t1 + t2), "observations"); c.leaf(); Sim s(c, GNSS, 1 << GSA);
  for (int i = 0; i <= len; i++) { if (i == at) { World w = world(se, true); for (int k : {GPS, UTC, DOPS, AGE, VEL, POS}) s.give(k, w); } if (i == len) break; int e = ops[i] < t1 ? 1 : 2, p = e == 1 ? ops[i] : ops[i] - t1; std::vector<Sat> v; for (int k = 0; k < 3; k++) v.push_back({k == 2 ? 14 : 0, 10 * (e - 1) + 3 * p + k + 1}); s.obs(1000u * (uint32_t)e, 2150, e == 1 ? t1 : t2, p, v); }
  c.state(s.key());
}
static void obs_times(Ctx &c) {                             // the time and week of observations against the solution's; the number of messages
  static const long dt[] = {-604800000, -604799000, -1000, -1, 0, 1, 1000, 604799000, 604800000}; long d = dt[c.choose(9, "difference")]; int total = 1 + c.choose(15, "messages"), cut = c.choose(total + 1, "missing message"); uint32_t towv[] = {1000, 302400000, 604799000}; uint32_t tow = towv[c.choose(3, "time")]; Sim s(c, GNSS, 1 << GSA | 1 << GST); long o = 2150L * 604800000 + (long)tow + d; int wn = (int)(o / 604800000); uint32_t t = (uint32_t)(o % 604800000);
  for (int i = 0; i < total; i++) { if (i == cut) continue; std::vector<Sat> v; for (int k = 0; k < 14; k++) v.push_back({k % 2 ? 0 : 12, (i * 14 + k) % 32 + 1}); s.obs(t, wn, total, i, v); } World w = world(1, true); w.tow = tow; for (int k : {GPS, UTC, DOPS, AGE, VEL, POS}) s.give(k, w); c.state(s.key());
}
static void rates(Ctx &c) {                                 // every rate and frequency over many epochs
  static const float hz[] = {1, 2, 4, 5, 10, 20, 25, 50, 0.5f}; float f = hz[c.choose(9, "frequency")]; static const int big[] = {33, 50, 60, 64, 100, 128, 255, 256, 300, 512}; int ri = c.choose(c.thorough ? 71 : 41, "rate"), plain = c.thorough ? 61 : 31, rate = ri < plain ? ri : big[ri - plain], off = c.choose(5, "offset"), mode = c.choose(3, "mode"); c.leaf(); Sim s(c, mode == 0 ? BEST : mode == 1 ? GNSS : FUSED, 1 << GGA | 1 << ZDA | 1 << THS, rate, f); s.set_rate(THS, 1 + rate % 3); s.set_rate(ZDA, rate ? 1 : 0);
  uint32_t p = s.period; int from[] = {1, 1, rate > 40 ? rate - 3 : 59, 604799, rate > 40 ? 2 * rate - 30 : 17}; for (int i = 0; i < (c.thorough ? 200 : 70); i++) { int e = from[off] + i; World w = world(e, mode != 2, p); if (off == 1) w.tow += (uint32_t)i * p / 100 % p; if (off == 4) w.tow += (i & 1 ? 1 : 0) * (p / 2 - 1 + (uint32_t)(i >> 1) % 3); w.tow %= 604800000; if (!w.tow) continue;
    if (mode == 2) { s.give(GROUP, w); for (int k : {UTC, POS, EUL, META}) s.give(k, w); } else for (int k : {GPS, UTC, EUL, DOPS, AGE, VEL, POS}) s.give(mode == 1 ? k : g_of(k), w); if (s.story.size() > 600) s.story = " ..."; }
  c.state(s.key());
}
static void each_rate(Ctx &c) {                             // a sentence's rate is its own
  int k = c.choose(KINDS, "sentence"), rate = c.choose(5, "rate"), others = c.choose(4, "others"), mode = c.choose(2, "mode"); c.leaf(); Sim s(c, mode ? GNSS : BEST, ALL, others); s.set_rate(k, rate); for (int e = 1; e <= 13; e++) { epoch(s, e); if (e == 9 && rate) s.set_rate(k, 0); if (s.story.size() > 600) s.story = " ..."; } c.state(s.key());
}
static void switching(Ctx &c) {                             // histories of GNSS epochs and fused groups
  int len = c.thorough ? 7 : 5, mode = c.choose(3, "mode"); Sim s(c, mode); int ops[7]; for (int i = 0; i < len; i++) ops[i] = c.choose(6, "next"); c.leaf(); int e = 0; for (int i = 0; i < len; i++) { switch (ops[i]) { case 0: epoch(s, ++e); break; case 1: group(s, ++e); break; case 2: epoch(s, ++e); group(s, e); break; case 3: group(s, ++e); epoch(s, e); break;
      case 4: { World w = world(++e, false); for (int k : {GPS, UTC, EUL, DOPS, AGE, VEL, POS}) s.give(k, w); break; } default: { World w = world(++e, false); s.give(GROUP, w); s.give(UTC, w); s.give(POS, w); } } if (s.story.size() > 600) s.story = " ..."; }
  c.state(s.key());
}
static void tracks(Ctx &c) {                                // signal strengths of the odd measurement messages are not used
  int len = c.thorough ? 5 : 4, n = c.choose(86, "states"), at = c.choose(3, "odd at"); Sim s(c, GNSS, 1 << GSV); int ops[5]; for (int i = 0; i < len; i++) ops[i] = c.choose(4, "next"); c.leaf(); World w = world(1, true); w.view = {{{0, 1}, 1, 1}, {{3, 7}, 2, 2}}; s.give(VIEW, w); int e = 1;
  for (int i = 0; i < len; i++) if (ops[i] == 3) { World u = world(e++, true); s.give(UTC, u); } else { World t; for (int k = 0; k < n; k++) t.track.push_back({{k % 2 ? 0 : 3, k % 2 ? 1 + k / 2 % 32 : 7 + k / 2 % 20}, 40 + 4 * i + k}); if (n && ops[i] == 1) t.track[(size_t)(at == 0 ? 0 : at == 1 ? n / 2 : n - 1)].s = {3 + i % 2, 29 + 37 * i}; if (n && ops[i] == 2) t.track[(size_t)(at == 0 ? 0 : at == 1 ? n / 2 : n - 1)].s = {14, 36}; s.give(TRACK, t); }
  World u = world(e, true); s.give(UTC, u); c.state(s.key());
}
int main(int argc, char **argv) {
  Spec s; s.property = "C31";
  s.rule = "which sentences are sent after each single message, and what is in them, against the rules (same epoch for all components, once per epoch, rate, source of the mode, complete observation sequences, whole fused groups): all orders of the messages of an epoch, two GNSS epochs, three fused groups and both together with up to two (three) messages lost, repeated or late by 1 to 21 places, all sequences of 2 (3) messages from every partly received epoch, all sequences of 5 (6) observation messages of two epochs around a solution, observation times, rates 0 to 30 (60) by frequencies, histories of epochs and groups in every mode, odd measurement messages; values tell epochs and sources apart";
  s.assumptions = {"a time of week of zero is not judged", "solution periods of whole milliseconds", "the order of the sentences sent for one message is free", "the constellations named by GST while observations are incomplete are not judged"};
  s.scenarios = {{"orders", orders}, {"disturbed", disturbed, 2, 3}, {"groups", groups, 2, 3}, {"together", together, 1, 2}, {"sequences", sequences}, {"observations", observations}, {"obs-times", obs_times}, {"rates", rates}, {"each-rate", each_rate}, {"switching", switching}, {"tracks", tracks}};
  return run(argc, argv, s);
}
