#ifndef SHIM_EDC_H
#define SHIM_EDC_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
u32 crc24q(const u8 *buf, u32 len, u32 crc);
u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert);
#ifdef __cplusplus
}
#endif
#endif
