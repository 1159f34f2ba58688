// Satellite numbering and signal tables of the multi-signal messages, from the standard
#pragma once
#include "msmref.hpp"
extern "C" {
#include <swiftnav/common.h>
#include <swiftnav/signal.h>
}
namespace msmref {
struct Sg { int id, code; double mhz; };
// signal id (1-based) of the standard's tables, SBP code, frequency (GLONASS: channel 0)
static const std::vector<Sg> SIGNALS[6] = {
  {{2, CODE_GPS_L1CA, 1575.42}, {3, CODE_GPS_L1P, 1575.42}, {4, CODE_GPS_L1P, 1575.42}, {9, CODE_GPS_L2P, 1227.60}, {10, CODE_GPS_L2P, 1227.60}, {15, CODE_GPS_L2CM, 1227.60}, {16, CODE_GPS_L2CL, 1227.60}, {17, CODE_GPS_L2CX, 1227.60}, {22, CODE_GPS_L5I, 1176.45}, {23, CODE_GPS_L5Q, 1176.45}, {24, CODE_GPS_L5X, 1176.45}, {30, CODE_GPS_L1CI, 1575.42}, {31, CODE_GPS_L1CQ, 1575.42}, {32, CODE_GPS_L1CX, 1575.42}},
  {{2, CODE_SBAS_L1CA, 1575.42}, {22, CODE_SBAS_L5I, 1176.45}, {23, CODE_SBAS_L5Q, 1176.45}, {24, CODE_SBAS_L5X, 1176.45}},
  {{2, CODE_GLO_L1OF, 1602}, {3, CODE_GLO_L1P, 1602}, {8, CODE_GLO_L2OF, 1246}, {9, CODE_GLO_L2P, 1246}},
  {{2, CODE_BDS2_B1, 1561.098}, {8, CODE_BDS3_B3I, 1268.52}, {9, CODE_BDS3_B3Q, 1268.52}, {10, CODE_BDS3_B3X, 1268.52}, {14, CODE_BDS2_B2, 1207.14}, {22, CODE_BDS3_B5I, 1176.45}, {23, CODE_BDS3_B5Q, 1176.45}, {24, CODE_BDS3_B5X, 1176.45}, {25, CODE_BDS3_B7I, 1207.14}, {30, CODE_BDS3_B1CI, 1575.42}, {31, CODE_BDS3_B1CQ, 1575.42}, {32, CODE_BDS3_B1CX, 1575.42}},
  {{2, CODE_QZS_L1CA, 1575.42}, {15, CODE_QZS_L2CM, 1227.60}, {16, CODE_QZS_L2CL, 1227.60}, {17, CODE_QZS_L2CX, 1227.60}, {22, CODE_QZS_L5I, 1176.45}, {23, CODE_QZS_L5Q, 1176.45}, {24, CODE_QZS_L5X, 1176.45}, {30, CODE_QZS_L1CI, 1575.42}, {31, CODE_QZS_L1CQ, 1575.42}, {32, CODE_QZS_L1CX, 1575.42}},
  {{2, CODE_GAL_E1C, 1575.42}, {4, CODE_GAL_E1B, 1575.42}, {5, CODE_GAL_E1X, 1575.42}, {8, CODE_GAL_E6C, 1278.75}, {10, CODE_GAL_E6B, 1278.75}, {11, CODE_GAL_E6X, 1278.75}, {14, CODE_GAL_E7I, 1207.14}, {15, CODE_GAL_E7Q, 1207.14}, {16, CODE_GAL_E7X, 1207.14}, {18, CODE_GAL_E8I, 1191.795}, {19, CODE_GAL_E8Q, 1191.795}, {20, CODE_GAL_E8X, 1191.795}, {22, CODE_GAL_E5I, 1176.45}, {23, CODE_GAL_E5Q, 1176.45}, {24, CODE_GAL_E5X, 1176.45}}};
static const int FIRST[6] = {1, 120, 1, 1, 193, 1}, NUM[6] = {NUM_SATS_GPS, NUM_SATS_SBAS, NUM_SATS_GLO, NUM_SATS_BDS, NUM_SATS_QZS, NUM_SATS_GAL};
inline int code_at(int cons, int id) { for (auto &s : SIGNALS[cons]) if (s.id == id) return s.code; return CODE_INVALID; }
inline double mhz_at(int cons, int id) { for (auto &s : SIGNALS[cons]) if (s.id == id) return s.mhz; return 0; }
}  // namespace msmref
