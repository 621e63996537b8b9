From 53355f1708e61c39a84728f21b4b662d6a3db7ad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 01/15] fix: encode the bias indicator of message 1230 into its
 single bit

---
 c/librtcm/src/encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1acf326..9bd7203 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -819,7 +819,7 @@ uint16_t rtcm3_encode_1230(const rtcm_msg_1230 *msg_1230, uint8_t buff[]) {
   bit += 12;
   rtcm_setbitu(buff, bit, 12, msg_1230->stn_id);
   bit += 12;
-  rtcm_setbitu(buff, bit, 8, msg_1230->bias_indicator);
+  rtcm_setbitu(buff, bit, 1, msg_1230->bias_indicator);
   bit += 1;
   /* 3 reserved bits */
   rtcm_setbitu(buff, bit, 3, 0);
-- 
2.43.0


From 4b67cb58a8ad89bd12cb4b82b406959b296f06aa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 02/15] fix: write toc and toe of message 1019 to their own
 positions

---
 c/librtcm/src/eph_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_encode.c b/c/librtcm/src/eph_encode.c
index 2e159a1..891a603 100644
--- a/c/librtcm/src/eph_encode.c
+++ b/c/librtcm/src/eph_encode.c
@@ -32,7 +32,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 14;
   rtcm_setbitu(buff, bit, 8, msg_1019->data.kepler.iode);
   bit += 8;
-  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
+  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
   bit += 16;
   rtcm_setbits(buff, bit, 8, msg_1019->data.kepler.af2);
   bit += 8;
@@ -56,7 +56,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 16;
   rtcm_setbitu(buff, bit, 32, msg_1019->data.kepler.sqrta);
   bit += 32;
-  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
+  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
   bit += 16;
   rtcm_setbits(buff, bit, 16, msg_1019->data.kepler.cic);
   bit += 16;
-- 
2.43.0


From a590f68bc243754e927a89edc105eaf9c051452c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 03/15] fix: refuse message 1006 cut off within its first part

---
 c/librtcm/src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 25e6ce3..d80f4a7 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -611,7 +611,10 @@ rtcm3_rc rtcm3_decode_1006_bitstream(swiftnav_bitstream_t *buff,
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  rtcm3_rc ret = rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  if (RC_OK != ret) {
+    return ret;
+  }
   uint32_t tmp;
   BITSTREAM_DECODE_U32(buff, tmp, 16);
   msg_1006->ant_height = (double)(tmp) / 10000.0;
-- 
2.43.0


From 90ad48ccb6504e9c715571d5306891b71622d86a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 04/15] fix: refuse SSR messages cut off within a clock
 correction

---
 c/librtcm/src/ssr_decode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/ssr_decode.c b/c/librtcm/src/ssr_decode.c
index e0e2566..802a9a7 100644
--- a/c/librtcm/src/ssr_decode.c
+++ b/c/librtcm/src/ssr_decode.c
@@ -281,7 +281,9 @@ rtcm3_rc rtcm3_decode_clock_bitstream(swiftnav_bitstream_t *buff,
     }
 
     clock->sat_id = sat_id;
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
@@ -323,7 +325,9 @@ rtcm3_rc rtcm3_decode_orbit_clock_bitstream(
                        buff, msg_orbit_clock->header.constellation, orbit))) {
       return RC_INVALID_MESSAGE;
     }
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
-- 
2.43.0


From ee5413d2c787ae2a044273481dd9ee50a9c45688 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 05/15] fix: check the MSM cell mask size before reading the
 mask

---
 c/librtcm/src/decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index d80f4a7..2141d3f 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -247,6 +247,10 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
+  if (num_sats * num_sigs > MSM_MAX_CELLS) {
+    /* Too large cell mask, most probably a parsing error */
+    return RC_INVALID_MESSAGE;
+  }
   uint8_t cell_mask_size = num_sats * num_sigs;
 
   for (uint8_t i = 0; i < cell_mask_size; i++) {
-- 
2.43.0


From 5f68ef76c898b722220f368dc1cd90b52a526542 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 06/15] fix: pass the context argument to sbp2rtcm_main

---
 c/sbp2rtcm/src/sbp2rtcm_main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/sbp2rtcm/src/sbp2rtcm_main.c b/c/sbp2rtcm/src/sbp2rtcm_main.c
index a6f997b..d8ce221 100644
--- a/c/sbp2rtcm/src/sbp2rtcm_main.c
+++ b/c/sbp2rtcm/src/sbp2rtcm_main.c
@@ -43,8 +43,9 @@ static int32_t writefn(uint8_t *buffer, uint16_t n, void *context) {
 typedef int32_t (*readfn_ptr)(uint8_t *, uint32_t, void *);
 typedef int32_t (*writefn_ptr)(uint8_t *, uint16_t, void *);
 
-int sbp2rtcm_main(int, char **, const char *, readfn_ptr, writefn_ptr);
+int sbp2rtcm_main(
+    int, char **, const char *, readfn_ptr, writefn_ptr, void *);
 
 int main(int argc, char **argv) {
-  return sbp2rtcm_main(argc, argv, "", readfn, writefn);
+  return sbp2rtcm_main(argc, argv, "", readfn, writefn, NULL);
 }
-- 
2.43.0


From 8bd23b51448e014fbda292c75b960b48029d521c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 07/15] fix: refuse negative signal codes in the bias option

---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index d21762b..55436f9 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -276,7 +276,7 @@ static void parse_biases(char *arg) {
   char *tok = strtok(arg, ",");
   while (NULL != tok) {
     n = sscanf(tok, "%d:%f", &code, &bias);
-    if ((n != 2) || (code >= CODE_COUNT)) {
+    if ((n != 2) || (code < 0) || (code >= CODE_COUNT)) {
       break;
     }
     sbp_signal_biases[code] = bias;
-- 
2.43.0


From 74c2b9e1d97524df002227ca71bbb6d8a7b29874 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 08/15] fix: store the Galileo issue of data where it belongs

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 15323b2..0c6761e 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -287,7 +287,7 @@ void sbp_to_rtcm3_gal_eph(const msg_ephemeris_gal_t *sbp_gal_eph,
   msg_eph->data.kepler.af2 = (int16_t)(round(sbp_gal_eph->af2 / C_1_2P59));
 
   msg_eph->data.kepler.iode = sbp_gal_eph->iode;
-  msg_eph->data.kepler.iode = sbp_gal_eph->iodc;
+  msg_eph->data.kepler.iodc = sbp_gal_eph->iodc;
 
   msg_eph->data.kepler.toc = sbp_gal_eph->toc.tow / GALILEO_TOC_RESOLUTION;
 }
-- 
2.43.0


From 6ec4d0e91d731ef6f8281a2e8194496ae3cde779 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 09/15] fix: copy the antenna serial number from 1033 to 1008

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index a4c7526..4a58858 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -296,7 +296,7 @@ void rtcm3_1033_to_1008(const rtcm_msg_1033 *rtcm_1033,
   rtcm_1008->msg_1007.ant_setup_id = rtcm_1033->ant_setup_id;
 
   /* Serial Number Counter M DF032 uint8 8 M <= 31 */
-  if (rtcm_1008->ant_serial_num_counter > 0) {
+  if (rtcm_1033->ant_serial_num_counter > 0) {
     rtcm_1008->ant_serial_num_counter = rtcm_1033->ant_serial_num_counter;
     /* Antenna Serial Number DF033 char8(M) 8*M */
     MEMCPY_S(rtcm_1008->ant_serial_num,
-- 
2.43.0


From bfbb63caf4cc0b8e8075e3cac3c516697003a499 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 10/15] fix: read the 12-bit station id for the MSM warning

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 067487d..a6b7ee1 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1356,7 +1356,7 @@ void send_MSM_warning(const swiftnav_bitstream_t *bitstream,
     state->sent_msm_warning = true;
     /* Get the stn ID as well */
     uint32_t stn_id = 0;
-    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 24)) {
+    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 12)) {
       uint8_t msg[39] = "MSM1-3 Messages currently not supported";
       send_sbp_log_message(
           RTCM_MSM_LOGGING_LEVEL, msg, sizeof(msg), stn_id, state);
-- 
2.43.0


From 64b4f56324856e3d278ab3eda5a2c105e54ac2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 11/15] fix: wrap the SBAS time of week at the week start

---
 c/gnss_converters/src/ubx_sbp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 64785fa..23bc969 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1266,10 +1266,10 @@ static void handle_rxm_sfrbx(struct ubx_sbp_state *state,
     /* Fill in the approximate time of transmission of the start of the SBAS
      * message. The best guess for it we have is the current solution time
      * minus 1 s (length of the message) minus 120 ms (~= 36000km / 3e8m/s). */
-    tow_ms -= 1120;
-    if (tow_ms < 0.0) {
+    if (tow_ms < 1120) {
       tow_ms += WEEK_MS;
     }
+    tow_ms -= 1120;
 
     sbas_decode_subframe(&state->eph_data,
                          tow_ms,
-- 
2.43.0


From aa793084481cb3762bfc6c84df27f19fb113dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 12/15] fix: ignore GLONASS string number 0

---
 c/gnss_converters/src/ubx_ephemeris/glo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/glo.c b/c/gnss_converters/src/ubx_ephemeris/glo.c
index ed80926..ae9a554 100644
--- a/c/gnss_converters/src/ubx_ephemeris/glo.c
+++ b/c/gnss_converters/src/ubx_ephemeris/glo.c
@@ -92,7 +92,7 @@ void glo_decode_string(
   }
 
   u8 string_num = (words[0] >> 27U) & 0xFU;
-  if (string_num > GLO_MAX_STRING_NUM) {
+  if (string_num < 1 || string_num > GLO_MAX_STRING_NUM) {
     /* only strings 1-5 needed for ephemeris */
     return;
   }
-- 
2.43.0


From a26bb60ae779b46fdf6a56d1cc4f7b4e1d8ee358 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 13/15] fix: keep the firmware version terminator inside its
 buffer

---
 c/librtcm/src/sta_decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/sta_decode.c b/c/librtcm/src/sta_decode.c
index fe15f9e..9fe1e1f 100644
--- a/c/librtcm/src/sta_decode.c
+++ b/c/librtcm/src/sta_decode.c
@@ -68,8 +68,8 @@ rtcm3_rc sta_decode_fwver(const uint8_t buff[], char *fw_ver, uint8_t len) {
   bit += 8;
   /* if fw_ver_strlen is bigger then our len, use the smaller
    * of the two*/
-  if (fw_ver_strlen > len) {
-    fw_ver_strlen = len;
+  if (fw_ver_strlen >= len) {
+    fw_ver_strlen = len - 1;
   }
   GET_STR(buff, bit, fw_ver_strlen, fw_ver);
   fw_ver[fw_ver_strlen] = '\0';
-- 
2.43.0


From 9772f4dfc3f53f52f6d888b0bd403ae3cd7eff84 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:25:28 +0000
Subject: [PATCH 14/15] fix: wrap the GLONASS time of day at exactly one day

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 0c6761e..b832c13 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -93,7 +93,7 @@ static bool compute_glo_time_of_day(const gps_time_t *obs_time,
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-  if (tod_glo_s > DAY_SECS) {
+  if (tod_glo_s >= DAY_SECS) {
     tod_glo_s -= DAY_SECS;
   }
 
-- 
2.43.0


From 4a6ea3c540e801a35c4e5bd8c90ddf02d94c9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:04 +0000
Subject: [PATCH 15/15] fix: ignore iXCOM frames whose length field is
 impossible

---
 c/gnss_converters/src/ixcom_sbp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index d55b09a..e3bf24d 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -78,6 +78,13 @@ static int read_ixcom_frame(struct ixcom_sbp_state *state) {
       size_t message_length =
           state->read_buffer[4] + (state->read_buffer[5] << 8);
 
+      /* A length that cannot be that of a frame is due to corrupted data */
+      if (message_length <= header_size ||
+          message_length >= IXCOM_BUFFER_SIZE) {
+        state->index = 0;
+        continue;
+      }
+
       ret = read_ixcom_bytes(state, message_length - state->index);
       if (ret <= 0) {
         break;
-- 
2.43.0

