/* Stand-in for libsbp functions: real SBP framing on the byte interface, recording
   hooks on the structured interface. */
#include "shim.h"
void (*shim_on_send)(sbp_msg_type_t, u16, const sbp_msg_t *, void *);
shim_reg_t shim_regs[64];
int shim_n_regs;
s8 (*shim_on_process)(sbp_state_t *, s32 (*)(u8 *, u32, void *));
u16 crc16_ccitt(const u8 *b, u32 n, u16 c) {
  for (u32 i = 0; i < n; i++) {
    c ^= (u16)(b[i] << 8);
    for (int k = 0; k < 8; k++) c = (u16)((c & 0x8000) ? (c << 1) ^ 0x1021 : c << 1);
  }
  return c;
}
void sbp_state_init(sbp_state_t *s) { s->io_context = NULL; shim_n_regs = 0; }
void sbp_state_set_io_context(sbp_state_t *s, void *c) { s->io_context = c; }
s8 sbp_send_message(sbp_state_t *s, u16 type, u16 sender, u8 len, u8 *p, s32 (*write)(u8 *, u32, void *)) {
  u8 f[263]; if (!p && len) return SBP_NULL_ERROR;
  f[0] = 0x55; f[1] = (u8)type; f[2] = (u8)(type >> 8); f[3] = (u8)sender; f[4] = (u8)(sender >> 8); f[5] = len;
  if (len) memcpy(f + 6, p, len);
  u16 c = crc16_ccitt(f + 1, 5u + len, 0);
  f[6 + len] = (u8)c; f[7 + len] = (u8)(c >> 8);
  return write(f, 8u + len, s->io_context) == (s32)(8u + len) ? SBP_OK : SBP_WRITE_ERROR;
}
s32 (*shim_write)(u8 *, u32, void *);
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t t, u16 sender, const sbp_msg_t *m, s32 (*write)(u8 *, u32, void *)) {
  shim_write = write;
  if (shim_on_send) shim_on_send(t, sender, m, s->io_context);
  return SBP_OK;
}
s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t t, sbp_msg_t *m) {
  (void)t;
  m->raw.n = len; memset(m->raw.raw, 0, sizeof(m->raw.raw)); memcpy(m->raw.raw, buf, len);
  if (n_read) *n_read = len;
  return SBP_OK;
}
s8 sbp_process(sbp_state_t *s, s32 (*read)(u8 *, u32, void *)) {
  if (shim_on_process) return shim_on_process(s, read);
  u8 b[64]; s32 n = read(b, sizeof b, s->io_context);
  return n > 0 ? SBP_OK : SBP_READ_ERROR;
}
s8 sbp_register_callback(sbp_state_t *s, u16 t, void *cb, void *c, sbp_msg_callbacks_node_t *n) {
  (void)s;
  /* the list of callbacks is linked through the caller's nodes: a node given twice carries only the later callback */
  for (int i = 0; n && i < shim_n_regs; i++) if (shim_regs[i].node == n) { shim_regs[i].type = t; shim_regs[i].cb = cb; shim_regs[i].context = c; return SBP_OK; }
  if (shim_n_regs < 64) { shim_regs[shim_n_regs].node = n; shim_regs[shim_n_regs].type = t; shim_regs[shim_n_regs].cb = cb; shim_regs[shim_n_regs].context = c; shim_n_regs++; }
  return SBP_OK;
}
void sbp_msg_log_text_init(sbp_msg_log_t *m) { memset(&m->text, 0, sizeof m->text); }
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *m, const char *b, size_t n, bool trunc, size_t *w) {
  if (n > SBP_MSG_LOG_TEXT_MAX) { if (!trunc) return false; n = SBP_MSG_LOG_TEXT_MAX; }
  memcpy(m->text.data, b, n); m->text.data[n] = 0; m->text.encoded_len = n;
  if (w) *w = n;
  return true;
}
