/* Reference behaviour of the libswiftnav functions gnss-converters calls (the
 * library is an empty submodule here).  The analyser replaces the bit/byte access
 * functions by built-in transfer functions; the rest is analysed as written. */
#include <swiftnav/_swiftnav.h>

u32 getbitu(const u8 *buff, u32 pos, u8 len) {
  u32 bits = 0;
  for (u32 i = pos; i < pos + len; i++) {
    bits = (bits << 1) + ((buff[i / 8] >> (7 - i % 8)) & 1u);
  }
  return bits;
}
s32 getbits(const u8 *buff, u32 pos, u8 len) {
  u32 bits = getbitu(buff, pos, len);
  if (len <= 0 || 32 <= len || !(bits & (1u << (len - 1)))) {
    return (s32)bits;
  }
  return (s32)(bits | (~0u << len));
}
void setbitu(u8 *buff, u32 pos, u32 len, u32 data) {
  u32 mask = 1u << (len - 1);
  if (len <= 0 || 32 < len) {
    return;
  }
  for (u32 i = pos; i < pos + len; i++, mask >>= 1) {
    if (data & mask) {
      buff[i / 8] = (u8)(buff[i / 8] | (1u << (7 - i % 8)));
    } else {
      buff[i / 8] = (u8)(buff[i / 8] & ~(1u << (7 - i % 8)));
    }
  }
}
void setbits(u8 *buff, u32 pos, u32 len, s32 data) {
  setbitu(buff, pos, len, (u32)data);
}
static u64 getbitul_model(const u8 *buff, u32 pos, u32 len) {
  u64 bits = 0;
  for (u32 i = pos; i < pos + len; i++) {
    bits = (bits << 1) + ((buff[i / 8] >> (7 - i % 8)) & 1u);
  }
  return bits;
}
void swiftnav_bitstream_init(swiftnav_bitstream_t *buf, const u8 *data, u32 len) {
  buf->data = data;
  buf->len = len;
  buf->offset = 0;
}
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *buf, u32 *output, u32 pos, u32 len) {
  if ((u64)buf->offset + pos + len > buf->len || len > 32) return false;
  *output = (u32)getbitul_model(buf->data, buf->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *buf, u64 *output, u32 pos, u32 len) {
  if ((u64)buf->offset + pos + len > buf->len || len > 64) return false;
  *output = getbitul_model(buf->data, buf->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *buf, s32 *output, u32 pos, u32 len) {
  if ((u64)buf->offset + pos + len > buf->len || len > 32) return false;
  u64 v = getbitul_model(buf->data, buf->offset + pos, len);
  if (len > 0 && len < 64 && (v >> (len - 1) & 1)) v |= ~0ULL << len;
  *output = (s32)(s64)v;
  return true;
}
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *buf, s64 *output, u32 pos, u32 len) {
  if ((u64)buf->offset + pos + len > buf->len || len > 64) return false;
  u64 v = getbitul_model(buf->data, buf->offset + pos, len);
  if (len > 0 && len < 64 && (v >> (len - 1) & 1)) v |= ~0ULL << len;
  *output = (s64)v;
  return true;
}
void swiftnav_bitstream_remove(swiftnav_bitstream_t *buf, u32 len) {
  buf->offset += len;
}
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *buf) {
  return buf->len - buf->offset;
}
void swiftnav_bytestream_init(swiftnav_bytestream_t *buf, const u8 *data, u32 len) {
  buf->data = data;
  buf->len = len;
  buf->offset = 0;
}
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *buf, u32 pos, u32 len, u8 *output) {
  if ((u64)buf->offset + pos + len > buf->len) return false;
  memcpy(output, buf->data + buf->offset + pos, len);
  return true;
}
void swiftnav_bytestream_remove(swiftnav_bytestream_t *buf, u32 len) {
  buf->offset += len;
}
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *buf) {
  return buf->len - buf->offset;
}
u8 parity(u32 x) {
  u8 p = 0;
  while (x) {
    p ^= 1;
    x &= x - 1;
  }
  return p;
}
void bitshl(void *buf, u32 size, u32 shift) {
  u8 *b = (u8 *)buf;
  for (u32 i = 0; i < size * 8; i++) {
    u32 s = i + shift;
    u8 v = s < size * 8 ? (u8)((b[s / 8] >> (7 - s % 8)) & 1) : 0;
    b[i / 8] = (u8)((b[i / 8] & ~(1u << (7 - i % 8))) | (unsigned)(v << (7 - i % 8)));
  }
}
void bitcopy(void *dst, u32 dst_index, const void *src, u32 src_index, u32 count) {
  for (u32 i = 0; i < count; i++) {
    u8 v = (u8)((((const u8 *)src)[(src_index + i) / 8] >> (7 - (src_index + i) % 8)) & 1);
    u8 *d = &((u8 *)dst)[(dst_index + i) / 8];
    u32 sh = 7 - (dst_index + i) % 8;
    *d = (u8)((*d & ~(1u << sh)) | (unsigned)(v << sh));
  }
}
u32 crc24q(const u8 *buf, u32 len, u32 crc) {
  for (u32 i = 0; i < len; i++) {
    crc ^= (u32)buf[i] << 16;
    for (int j = 0; j < 8; j++) {
      crc <<= 1;
      if (crc & 0x1000000) crc ^= 0x1864CFB;
    }
  }
  return crc & 0xFFFFFF;
}
u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
  u16 acc = 0;
  u8 b = 0;
  u32 shift = 8 - n_bits % 8;
  for (u32 i = 0; i < n_bits / 8; ++i) {
    acc = (u16)((acc << 8) | *buf++);
    if (invert) acc ^= 0xFF;
    b = (u8)((acc >> shift) & 0xFF);
    crc = crc24q(&b, 1, crc);
  }
  acc = (u16)((acc << 8) | *buf);
  if (invert) acc ^= 0xFF;
  b = (u8)((acc >> shift) & 0xFF);
  return crc24q(&b, 1, crc);
}
void fifo_init(fifo_t *fifo, u8 *buffer, fifo_size_t buffer_size) {
  fifo->read_index = fifo->write_index = 0;
  fifo->buffer_size = buffer_size;
  fifo->buffer = buffer;
}
fifo_size_t fifo_length(fifo_t *fifo) {
  return fifo->write_index - fifo->read_index;
}
fifo_size_t fifo_space(fifo_t *fifo) {
  return fifo->buffer_size - fifo_length(fifo);
}
fifo_size_t fifo_peek(fifo_t *fifo, u8 *buffer, fifo_size_t length) {
  fifo_size_t n = fifo_length(fifo);
  if (length < n) n = length;
  for (fifo_size_t i = 0; i < n; i++) {
    buffer[i] = fifo->buffer[(fifo->read_index + i) & (fifo->buffer_size - 1)];
  }
  return n;
}
fifo_size_t fifo_remove(fifo_t *fifo, fifo_size_t length) {
  fifo_size_t n = fifo_length(fifo);
  if (length < n) n = length;
  fifo->read_index += n;
  return n;
}
fifo_size_t fifo_read(fifo_t *fifo, u8 *buffer, fifo_size_t length) {
  fifo_size_t n = fifo_peek(fifo, buffer, length);
  return fifo_remove(fifo, n);
}
fifo_size_t fifo_write(fifo_t *fifo, const u8 *buffer, fifo_size_t length) {
  fifo_size_t n = fifo_space(fifo);
  if (length < n) n = length;
  for (fifo_size_t i = 0; i < n; i++) {
    fifo->buffer[(fifo->write_index + i) & (fifo->buffer_size - 1)] = buffer[i];
  }
  fifo->write_index += n;
  return n;
}

/* ---- signals ---- */
constellation_t code_to_constellation(code_t code) {
  switch (code) {
    case CODE_GPS_L1CA: case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX:
    case CODE_GPS_L1P: case CODE_GPS_L2P: case CODE_GPS_L5I: case CODE_GPS_L5Q:
    case CODE_GPS_L5X: case CODE_GPS_L1CI: case CODE_GPS_L1CQ: case CODE_GPS_L1CX:
    case CODE_AUX_GPS:
      return CONSTELLATION_GPS;
    case CODE_SBAS_L1CA: case CODE_SBAS_L5I: case CODE_SBAS_L5Q: case CODE_SBAS_L5X:
    case CODE_AUX_SBAS:
      return CONSTELLATION_SBAS;
    case CODE_GLO_L1OF: case CODE_GLO_L2OF: case CODE_GLO_L1P: case CODE_GLO_L2P:
      return CONSTELLATION_GLO;
    case CODE_BDS2_B1: case CODE_BDS2_B2: case CODE_BDS3_B1CI: case CODE_BDS3_B1CQ:
    case CODE_BDS3_B1CX: case CODE_BDS3_B5I: case CODE_BDS3_B5Q: case CODE_BDS3_B5X:
    case CODE_BDS3_B7I: case CODE_BDS3_B7Q: case CODE_BDS3_B7X: case CODE_BDS3_B3I:
    case CODE_BDS3_B3Q: case CODE_BDS3_B3X: case CODE_AUX_BDS:
      return CONSTELLATION_BDS;
    case CODE_QZS_L1CA: case CODE_QZS_L1CI: case CODE_QZS_L1CQ: case CODE_QZS_L1CX:
    case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX: case CODE_QZS_L5I:
    case CODE_QZS_L5Q: case CODE_QZS_L5X: case CODE_AUX_QZS:
      return CONSTELLATION_QZS;
    case CODE_GAL_E1B: case CODE_GAL_E1C: case CODE_GAL_E1X: case CODE_GAL_E6B:
    case CODE_GAL_E6C: case CODE_GAL_E6X: case CODE_GAL_E7I: case CODE_GAL_E7Q:
    case CODE_GAL_E7X: case CODE_GAL_E8I: case CODE_GAL_E8Q: case CODE_GAL_E8X:
    case CODE_GAL_E5I: case CODE_GAL_E5Q: case CODE_GAL_E5X: case CODE_AUX_GAL:
      return CONSTELLATION_GAL;
    case CODE_INVALID: case CODE_COUNT:
    default:
      return CONSTELLATION_INVALID;
  }
}
constellation_t sid_to_constellation(gnss_signal_t sid) {
  return code_to_constellation(sid.code);
}
code_t constellation_to_l1_code(constellation_t cons) {
  switch (cons) {
    case CONSTELLATION_GPS: return CODE_GPS_L1CA;
    case CONSTELLATION_SBAS: return CODE_SBAS_L1CA;
    case CONSTELLATION_GLO: return CODE_GLO_L1OF;
    case CONSTELLATION_BDS: return CODE_BDS2_B1;
    case CONSTELLATION_QZS: return CODE_QZS_L1CA;
    case CONSTELLATION_GAL: return CODE_GAL_E1B;
    case CONSTELLATION_INVALID: case CONSTELLATION_COUNT:
    default: return CODE_INVALID;
  }
}
bool code_valid(code_t code) { return code >= 0 && code < CODE_COUNT; }
bool is_gps(code_t code) { return code_to_constellation(code) == CONSTELLATION_GPS; }
bool is_glo(code_t code) { return code_to_constellation(code) == CONSTELLATION_GLO; }
bool is_gal(code_t code) { return code_to_constellation(code) == CONSTELLATION_GAL; }
bool is_bds2(code_t code) { return code_to_constellation(code) == CONSTELLATION_BDS; }
bool is_bds(code_t code) { return code_to_constellation(code) == CONSTELLATION_BDS; }
bool is_sbas(code_t code) { return code_to_constellation(code) == CONSTELLATION_SBAS; }
bool is_qzss(code_t code) { return code_to_constellation(code) == CONSTELLATION_QZS; }
gnss_signal_t construct_sid(code_t code, u16 sat) {
  gnss_signal_t s;
  s.sat = sat;
  s.code = code;
  return s;
}
bool sid_valid(gnss_signal_t sid) {
  switch (code_to_constellation(sid.code)) {
    case CONSTELLATION_GPS: return sid.sat >= 1 && sid.sat < 1 + NUM_SATS_GPS;
    case CONSTELLATION_SBAS: return sid.sat >= 120 && sid.sat < 120 + NUM_SATS_SBAS;
    case CONSTELLATION_GLO: return sid.sat >= 1 && sid.sat < 1 + NUM_SATS_GLO;
    case CONSTELLATION_BDS: return sid.sat >= 1 && sid.sat < 1 + NUM_SATS_BDS;
    case CONSTELLATION_QZS: return sid.sat >= 193 && sid.sat < 193 + NUM_SATS_QZS;
    case CONSTELLATION_GAL: return sid.sat >= 1 && sid.sat < 1 + NUM_SATS_GAL;
    case CONSTELLATION_INVALID: case CONSTELLATION_COUNT:
    default: return false;
  }
}

/* ---- time ---- */
bool gps_time_valid(const gps_time_t *t) {
  return isfinite(t->tow) && t->tow >= 0 && t->tow < WEEK_SECS && t->wn >= 0;
}
double gpsdifftime(const gps_time_t *end, const gps_time_t *beginning) {
  double dt = end->tow - beginning->tow;
  if (end->wn == WN_UNKNOWN || beginning->wn == WN_UNKNOWN) {
    if (dt > WEEK_SECS / 2) {
      dt -= WEEK_SECS;
    } else if (dt < -WEEK_SECS / 2) {
      dt += WEEK_SECS;
    }
  } else {
    dt += (end->wn - beginning->wn) * (double)WEEK_SECS;
  }
  return dt;
}
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref) {
  if (wn_raw >= wn_ref) return wn_raw;
  return (u16)(wn_raw + 1024 * ((wn_ref + 1023 - wn_raw) / 1024));
}
bool normalize_gps_time_safe(gps_time_t *t) {
  if (t->tow < -1.0 * WEEK_SECS || t->tow > 2.0 * WEEK_SECS) return false;
  if (t->tow < 0) {
    t->tow += WEEK_SECS;
    t->wn -= 1;
  } else if (t->tow >= WEEK_SECS) {
    t->tow -= WEEK_SECS;
    t->wn += 1;
  }
  return true;
}
void normalize_gps_time(gps_time_t *t) { (void)normalize_gps_time_safe(t); }
void add_secs(gps_time_t *t, double secs) {
  t->tow += secs;
  normalize_gps_time(t);
}
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref) {
  t->wn = ref->wn;
  double dt = t->tow - ref->tow;
  if (dt > WEEK_SECS / 2) {
    t->wn--;
  } else if (dt < -WEEK_SECS / 2) {
    t->wn++;
  }
  return t->wn >= 0;
}
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref) {
  (void)gps_time_match_weeks_safe(t, ref);
}
/* ---- misc ---- */
bool is_value_in_array_u16(const u16 *array, size_t size, u16 value) {
  for (size_t i = 0; i < size; i++) {
    if (array[i] == value) return true;
  }
  return false;
}
size_t swift_strnlen(const char *s, size_t n) {
  size_t i = 0;
  while (i < n && s[i] != '\0') i++;
  return i;
}
int memcpy_s(void *dest, size_t destsz, const void *src, size_t count) {
  if (count > destsz) return 1;
  memcpy(dest, src, count);
  return 0;
}
bool float_equal(float a, float b) { return fabsf(a - b) < 1e-9f; }
