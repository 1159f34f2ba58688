#pragma once
#include <libsbp/all.h>
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int shim_log_count;
/* sbp_message_send: called with the message when set; otherwise nothing is written */
extern void (*shim_on_send)(sbp_msg_type_t type, u16 sender, const sbp_msg_t *msg, void *io);
extern s32 (*shim_write)(u8 *, u32, void *);   /* the write function given with that message */
/* sbp_register_callback registrations of the last sbp_state_init'ed state */
typedef struct { u16 type; void *cb; void *context; void *node; } shim_reg_t;
extern shim_reg_t shim_regs[64];
extern int shim_n_regs;
/* sbp_process: called in place of reading; returns SBP status */
extern s8 (*shim_on_process)(sbp_state_t *s, s32 (*read)(u8 *, u32, void *));
/* the broadcast decoders: when set, called with the pages (0 GPS, 1 BDS, 2 GAL, 3 GLO) and filling the ephemeris */
extern bool (*shim_on_eph)(int kind, const void *pages, double tot, const utc_params_t *p, ephemeris_t *e);
#ifdef __cplusplus
}
#endif
