// What the stand-in for libsbp writes and reads in whole programs: frames that spell a message out in words.
#pragma once
#include "emit.hpp"
#include "sbpout.hpp"
namespace progs {
using mc::Bytes; using mc::fmt;
std::string words(const conv::Emit &e);                 // every field of any message
Bytes ubx_input();
Bytes ubx_position(bool hnr);                            // one NAV-PVT or one HNR-PVT message
void install();                                         // sbp_message_send writes such frames, sbp_process reads frames as libsbp does
}
