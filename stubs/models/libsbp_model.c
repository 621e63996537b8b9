/* Reference behaviour of the libsbp functions gnss-converters calls. */
#include <libsbp/_libsbp.h>
void sbp_state_init(sbp_state_t *s) {
  s->state = 0;
  s->io_context = NULL;
  s->sbp_msg_callbacks_head = NULL;
}
void sbp_state_set_io_context(sbp_state_t *s, void *context) {
  s->io_context = context;
}
s8 sbp_register_callback(sbp_state_t *s, u16 msg_type, sbp_msg_callback_t cb, void *context, sbp_msg_callbacks_node_t *node) {
  node->msg_type = msg_type;
  node->cb = cb;
  node->context = context;
  node->next = s->sbp_msg_callbacks_head;
  s->sbp_msg_callbacks_head = node;
  return 0;
}
void sbp_msg_log_text_init(sbp_msg_log_t *msg) {
  msg->text.encoded_len = 0;
}
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *msg, const char *buf, size_t len, bool should_trunc, size_t *n_written) {
  (void)should_trunc;
  if (len > 254) len = 254;
  memcpy(msg->text.data, buf, len);
  msg->text.encoded_len = len;
  if (n_written) *n_written = len;
  return true;
}
