From 159517f67da05dcd6d8b17b3e7a40a2667e82a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 01/40] fix: nov2sbp parser aborted when the input ended with
 an empty buffer

---
 c/nov2sbp/parser/parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 77dbd1e..7a28131 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -66,6 +66,10 @@ void Parser::process() {
     }
 
     num_bytes_in_buffer_ += num_bytes_read;
+    if (num_bytes_in_buffer_ == 0) {
+      // end of input, nothing left to parse
+      return;
+    }
     uint32_t num_bytes_consumed = 1;
 
     if (num_bytes_in_buffer_ >= sizeof(MSG_REGULAR_PREAMBLE)) {
-- 
2.43.0


From 082e350c8e93132cf6ef0043291fb54cf4dcbb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 02/40] fix: nov2sbp parser handed bodies of unexpected length
 to the message readers

A frame with a correct CRC but a body length other than the one of its message
type made the readers assert, or read past the received bytes with NDEBUG.
---
 c/nov2sbp/parser/parser.cc | 45 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 7a28131..a77e563 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -158,11 +158,56 @@ uint32_t Parser::parse_short_message() const {
   return 1;
 }
 
+// Binary sizes of the fixed length message bodies
+static constexpr size_t GPSEPHEM_LEN = 224;
+static constexpr size_t BESTPOS_LEN = 72;
+static constexpr size_t BESTVEL_LEN = 44;
+static constexpr size_t INSATT_LEN = 40;
+static constexpr size_t GLOEPHEMERIS_LEN = 144;
+static constexpr size_t RAWIMUSX_LEN = 40;
+
+/**
+ * The body parsers require the body to have exactly the length of the message,
+ * check that before handing data to them.
+ */
+static bool is_body_length_valid(const BinaryHeader &header,
+                                 const uint8_t *data) {
+  const size_t len = header.message_len;
+  switch (header.message_id) {
+    case Message::Id::GPSEPHEM:
+      return len == GPSEPHEM_LEN;
+    case Message::Id::BESTPOS:
+      return len == BESTPOS_LEN;
+    case Message::Id::BESTVEL:
+      return len == BESTVEL_LEN;
+    case Message::Id::RANGECMP:
+      return len >= sizeof(uint32_t) &&
+             len == sizeof(uint32_t) +
+                        static_cast<size_t>(Util::read_le_uint32(data)) *
+                            Message::RANGECMP_record_t::kRecordBinarySize;
+    case Message::Id::INSATT:
+      return len == INSATT_LEN;
+    case Message::Id::GLOEPHEMERIS:
+      return len == GLOEPHEMERIS_LEN;
+    case Message::Id::RAWIMUSX:
+      return len == RAWIMUSX_LEN;
+    default:
+      return true;
+  }
+}
+
 /**
  * This function dispatches to the appropriate body parser depending on the
  * message ID.
  */
 void Parser::parse_body(const BinaryHeader &header, const uint8_t *data) const {
+  if (!is_body_length_valid(header, data)) {
+    warn("Unexpected body length %i for message %i",
+         header.message_len,
+         header.message_id);
+    return;
+  }
+
   switch (header.message_id) {
     case Message::Id::GPSEPHEM: {
       Message::GPSEPHEM_t msg;
-- 
2.43.0


From 824345a7cfe7ab67ba34c14dc9adb121ddec7d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 03/40] fix: nov2sbp dropped the frames still buffered when its
 input ended

---
 c/nov2sbp/src/nov2sbp_main.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/nov2sbp/src/nov2sbp_main.cc b/c/nov2sbp/src/nov2sbp_main.cc
index 5542175..f92fd4f 100644
--- a/c/nov2sbp/src/nov2sbp_main.cc
+++ b/c/nov2sbp/src/nov2sbp_main.cc
@@ -28,10 +28,11 @@ extern "C" void nov2sbp_proj_context_set_search_paths(const char *path);
 
 static int readfn(uint8_t *bytes, uint32_t n_bytes, void *context) {
   (void)context;
-  if (feof(stdin) != 0) {
+  size_t n_read = fread(bytes, sizeof(*bytes), n_bytes, stdin);
+  if (n_read == 0 && ferror(stdin) != 0) {
     return -1;
   }
-  return static_cast<int>(fread(bytes, sizeof(*bytes), n_bytes, stdin));
+  return static_cast<int>(n_read);
 }
 
 static int32_t nov2sbp_writefn(uint8_t *bytes,
-- 
2.43.0


From de455948a132605e32e9450e86e3c75be62016d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 04/40] fix: nov2sbp took the week of the previous IMU sample
 for the current one

The IMU rate across a GPS week rollover was never computed from the samples.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 7881993..d23ec5d 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -349,7 +349,7 @@ static bool compute_imu_rate(const msg_gps_time_t *last_imu_time,
                              double &rate) {
   uint16_t week_prev = last_imu_time->wn;
   uint32_t tow_prev = last_imu_time->tow;
-  uint16_t week_cur = last_imu_time->wn;
+  uint16_t week_cur = header->week;
   uint32_t tow_cur = static_cast<uint32_t>(header->ms);
 
   if (week_prev != 0 && week_cur != 0 && tow_prev != 0 && tow_cur != 0) {
-- 
2.43.0


From 0bcb5190ae8a9ed16b36d4714a7e4476eac053b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 05/40] fix: nov2sbp multiplied instead of divided when
 converting milli-g to m/s^2

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index d23ec5d..4d06171 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -75,7 +75,7 @@ static inline double arcseconds_to_radians(double val) {
 }
 
 static inline double milligee_to_metres(double val) {
-  return val * 1000. * kStandardGravity;
+  return val / 1000. * kStandardGravity;
 }
 
 static inline double feet_to_metres(double val) { return val * 0.3048; }
-- 
2.43.0


From 4ff23a0cfdc7778fb1564ef78f1207555a5bd0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 06/40] fix: nov2sbp wrapped accuracies of 65.536 m and above
 instead of saturating them

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 4d06171..ebc307a 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -23,7 +23,7 @@ static const uint32_t kMsPerWeek = 7 * 24 * 60 * 60 * 1000;
  * Helpers for rounding and truncating values.
  */
 static inline uint16_t float_to_u16(float value) {
-  return MIN(static_cast<uint16_t>(round(value)), UINT16_MAX);
+  return static_cast<uint16_t>(MIN(round(value), UINT16_MAX));
 }
 
 static inline int16_t double_to_s16(double value) {
-- 
2.43.0


From 5728baad606be11ae0e7eac56aa2011c6897cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 07/40] fix: nov2sbp aborted on a RAWIMUSX sample flagged with
 an IMU error

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index ebc307a..39b30cb 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -885,8 +885,9 @@ bool convert_rawimu_to_angular_rate(const BinaryHeader *header,
 
   angular_rate->tow = static_cast<uint32_t>(header->ms);
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
@@ -925,8 +926,9 @@ bool convert_rawimu_to_imu_raw(const BinaryHeader *header,
   imu_raw->tow = static_cast<uint32_t>(header->ms);
   imu_raw->tow_f = 0;
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
-- 
2.43.0


From f9e705c85482f10cabd12ab56d03d9debaf44bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 08/40] fix: reject a 1006 message truncated inside its 1005
 part

---
 c/librtcm/src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 25e6ce3..88b178c 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -611,7 +611,10 @@ rtcm3_rc rtcm3_decode_1006_bitstream(swiftnav_bitstream_t *buff,
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  rtcm3_rc ret = rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  if (ret != RC_OK) {
+    return ret;
+  }
   uint32_t tmp;
   BITSTREAM_DECODE_U32(buff, tmp, 16);
   msg_1006->ant_height = (double)(tmp) / 10000.0;
-- 
2.43.0


From 16dc91c3022c2465622dc7716e9a9422423b255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 09/40] fix: write toc and toe of a 1019 message in their own
 fields

---
 c/librtcm/src/eph_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_encode.c b/c/librtcm/src/eph_encode.c
index 2e159a1..891a603 100644
--- a/c/librtcm/src/eph_encode.c
+++ b/c/librtcm/src/eph_encode.c
@@ -32,7 +32,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 14;
   rtcm_setbitu(buff, bit, 8, msg_1019->data.kepler.iode);
   bit += 8;
-  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
+  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
   bit += 16;
   rtcm_setbits(buff, bit, 8, msg_1019->data.kepler.af2);
   bit += 8;
@@ -56,7 +56,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 16;
   rtcm_setbitu(buff, bit, 32, msg_1019->data.kepler.sqrta);
   bit += 32;
-  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
+  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
   bit += 16;
   rtcm_setbits(buff, bit, 16, msg_1019->data.kepler.cic);
   bit += 16;
-- 
2.43.0


From 5f9fe0bfb8bb15abed2b70c91c7631004121b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 10/40] fix: report a truncated Galileo ephemeris as an invalid
 message

---
 c/librtcm/src/eph_decode.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index 781a114..7873225 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -299,9 +299,10 @@ rtcm3_rc rtcm3_decode_bds_eph_bitstream(swiftnav_bitstream_t *buff,
  *
  * \param buff The input data buffer
  * \param msg_eph RTCM message struct
- * \return bit position in the RTCM frame
+ * \return  - RC_OK : Success
+ *          - RC_INVALID_MESSAGE : Message is too short
  */
-static uint16_t rtcm3_decode_gal_eph_common(swiftnav_bitstream_t *buff,
+static rtcm3_rc rtcm3_decode_gal_eph_common(swiftnav_bitstream_t *buff,
                                             rtcm_msg_eph *msg_eph) {
   assert(msg_eph);
   BITSTREAM_DECODE_U8(buff, msg_eph->sat_id, 6);
-- 
2.43.0


From 94c64ea11e7b426ea510ceaa5d31288ddcf7d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 11/40] fix: Galileo health bits are not a signed number

---
 c/librtcm/src/eph_decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index 7873225..518235e 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -358,7 +358,7 @@ rtcm3_rc rtcm3_decode_gal_eph_inav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[1], 10);
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 6);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 6);
   /* reserved */
   swiftnav_bitstream_remove(buff, 2);
 
@@ -391,7 +391,7 @@ rtcm3_rc rtcm3_decode_gal_eph_fnav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   msg_eph->data.kepler.tgd.gal_s[1] = 0;
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 3);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 3);
   /* reserved */
   swiftnav_bitstream_remove(buff, 7);
 
-- 
2.43.0


From 626eb5216d9d64691da5cf80ccfd7313e68b9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 12/40] fix: recognise and write the invalid pattern of the L1
 pseudorange

---
 c/librtcm/include/rtcm3/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/include/rtcm3/constants.h b/c/librtcm/include/rtcm3/constants.h
index 8f9b33f..d1ba5f6 100644
--- a/c/librtcm/include/rtcm3/constants.h
+++ b/c/librtcm/include/rtcm3/constants.h
@@ -17,7 +17,7 @@
 #define PRUNIT_GLO 599584.916 /**< RTCM v3 Unit of GLO Pseudorange (m) */
 #define RTCM_MAX_SATS 32
 #define CP_INVALID 0xFFF80000      /* Unsigned bit pattern 0x80000 */
-#define PR_L1_INVALID 0xFFF80000   /* Unsigned bit pattern 0x80000 */
+#define PR_L1_INVALID 0x80000      /* Unsigned bit pattern 0x80000 */
 #define PR_L2_INVALID 0xFFFFE000   /* Unsigned bit pattern 0x20000 */
 #define MSM_MAX_CELLS 64           /* Maximum number of cells in MSM message */
 #define MSM_SATELLITE_MASK_SIZE 64 /* Maximum size of MSM satellite mask */
-- 
2.43.0


From 627fe45de47a5189698f166e36a06d896d07e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:08 +0000
Subject: [PATCH 13/40] fix: roll over phase ranges beyond 32 bits and keep
 them off the invalid pattern

---
 c/librtcm/src/encode.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1acf326..7dd53c5 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -109,7 +109,7 @@ uint8_t rtcm3_encode_lock_time(double time) {
 /* Encode PhaseRange – L1 Pseudorange (DF012, DF018 ,DF042, DF048) */
 static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   double phase_unit = (GPS_C / freq) / 0.0005;
-  int32_t ppr = lround(cp_pr * phase_unit);
+  int64_t ppr = llround(cp_pr * phase_unit);
 
   /* From specification: "Certain ionospheric conditions might cause the GPS
    * L1 Phaserange – L1 Pseudorange to diverge over time across the range
@@ -119,14 +119,14 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
 
   if (ppr <= -C_2P19) {
     /* add multiples of 1500 cycles */
-    cp_pr += 1500 * ceil((-C_2P19 / phase_unit - cp_pr) / 1500);
-    ppr = lround(cp_pr * phase_unit);
+    cp_pr += 1500 * ceil((-(C_2P19 - 1) / phase_unit - cp_pr) / 1500);
+    ppr = llround(cp_pr * phase_unit);
   } else if (ppr >= C_2P19) {
     /* substract multiples of 1500 cycles */
-    cp_pr -= 1500 * ceil((cp_pr - C_2P19 / phase_unit) / 1500);
-    ppr = lround(cp_pr * phase_unit);
+    cp_pr -= 1500 * ceil((cp_pr - (C_2P19 - 1) / phase_unit) / 1500);
+    ppr = llround(cp_pr * phase_unit);
   }
-  return ppr;
+  return (int32_t)ppr;
 }
 
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
-- 
2.43.0


From 3de63aab4eaeb4769b32c5a6a915d8702aefc822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 14/40] fix: mark L2 pseudoranges that do not fit the field as
 invalid

---
 c/librtcm/include/rtcm3/constants.h |  2 ++
 c/librtcm/src/encode.c              | 28 ++++++++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/c/librtcm/include/rtcm3/constants.h b/c/librtcm/include/rtcm3/constants.h
index d1ba5f6..3f4c639 100644
--- a/c/librtcm/include/rtcm3/constants.h
+++ b/c/librtcm/include/rtcm3/constants.h
@@ -63,6 +63,8 @@
 #define C_1_2P29 1.862645149230957e-09
 /** 2^-31 */
 #define C_1_2P31 4.656612873077393e-10
+/** 2^13 */
+#define C_2P13 8192
 /** 2^14 */
 #define C_2P14 16384
 /** 2^19 */
diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 7dd53c5..8946aaf 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -141,8 +141,8 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
   uint32_t calc_l1_pr = (uint32_t)round((*l1_pr - amb * PRUNIT_GPS) / 0.02);
 
   /* Calculate GPS Pseudorange (DF011/DF016). */
-  uint32_t pr =
-      (uint32_t)round((freq_data->pseudorange - amb * PRUNIT_GPS) / 0.02);
+  int64_t pr =
+      (int64_t)round((freq_data->pseudorange - amb * PRUNIT_GPS) / 0.02);
 
   double l1_prc = calc_l1_pr * 0.02 + amb * PRUNIT_GPS;
 
@@ -152,17 +152,21 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
     rtcm_setbitu(buff, *bit, 1, 0);
     *bit += 1;
     rtcm_setbitu(
-        buff, *bit, 24, freq_data->flags.fields.valid_pr ? pr : PR_L1_INVALID);
+        buff, *bit, 24, freq_data->flags.fields.valid_pr ? (uint32_t)pr
+                                                       : PR_L1_INVALID);
     *bit += 24;
   } else {
     freq = GPS_L2_HZ;
     rtcm_setbitu(buff, *bit, 2, 0);
     *bit += 2;
+    /* differences that do not fit the field cannot be transmitted */
+    int64_t pr_diff = pr - (int64_t)calc_l1_pr;
     rtcm_setbits(buff,
                  *bit,
                  14,
-                 freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
+                 freq_data->flags.fields.valid_pr && pr_diff > -C_2P13 &&
+                         pr_diff < C_2P13
+                     ? (int32_t)pr_diff
                      : (int32_t)PR_L2_INVALID);
     *bit += 14;
   }
@@ -199,8 +203,8 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   uint32_t calc_l1_pr = (uint32_t)round((*l1_pr - amb * PRUNIT_GLO) / 0.02);
 
   /* Calculate GLO Pseudorange (DF041/DF046). */
-  uint32_t pr =
-      (uint32_t)round((freq_data->pseudorange - amb * PRUNIT_GLO) / 0.02);
+  int64_t pr =
+      (int64_t)round((freq_data->pseudorange - amb * PRUNIT_GLO) / 0.02);
 
   double l1_prc = calc_l1_pr * 0.02 + amb * PRUNIT_GLO;
 
@@ -213,18 +217,22 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
     rtcm_setbitu(buff, *bit, 5, fcn);
     *bit += 5;
     rtcm_setbitu(
-        buff, *bit, 25, freq_data->flags.fields.valid_pr ? pr : PR_L1_INVALID);
+        buff, *bit, 25, freq_data->flags.fields.valid_pr ? (uint32_t)pr
+                                                       : PR_L1_INVALID);
     *bit += 25;
   } else {
     glo_freq = GLO_L2_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ;
 
     rtcm_setbitu(buff, *bit, 2, 0);
     *bit += 2;
+    /* differences that do not fit the field cannot be transmitted */
+    int64_t pr_diff = pr - (int64_t)calc_l1_pr;
     rtcm_setbits(buff,
                  *bit,
                  14,
-                 freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
+                 freq_data->flags.fields.valid_pr && pr_diff > -C_2P13 &&
+                         pr_diff < C_2P13
+                     ? (int32_t)pr_diff
                      : (int32_t)PR_L2_INVALID);
     *bit += 14;
   }
-- 
2.43.0


From 006d2e4915026c66ba1125eb9c5bf960fc2c2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:42 +0000
Subject: [PATCH 15/40] fix: refuse MSM masks with too many satellites or cells
 before using them

---
 c/librtcm/src/decode.c | 10 +++++-----
 c/librtcm/src/encode.c | 10 ++++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 88b178c..f201e08 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -247,6 +247,11 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
+  if (num_sats > RTCM_MAX_SATS || num_sats * num_sigs > MSM_MAX_CELLS) {
+    /* Too many satellites or cells, most probably a parsing error */
+    return RC_INVALID_MESSAGE;
+  }
+
   uint8_t cell_mask_size = num_sats * num_sigs;
 
   for (uint8_t i = 0; i < cell_mask_size; i++) {
@@ -1217,11 +1222,6 @@ static rtcm3_rc rtcm3_decode_msm_internal(swiftnav_bitstream_t *buff,
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, msg->header.signal_mask);
 
-  if (num_sats * num_sigs > MSM_MAX_CELLS) {
-    /* Too large cell mask, most probably a parsing error */
-    return RC_INVALID_MESSAGE;
-  }
-
   uint8_t cell_mask_size = num_sats * num_sigs;
   uint8_t num_cells = count_mask_values(cell_mask_size, msg->header.cell_mask);
 
diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 8946aaf..df4ff0f 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -1083,14 +1083,16 @@ static uint16_t rtcm3_encode_msm_internal(const rtcm_msm_message *msg,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
-  uint8_t cell_mask_size = num_sats * num_sigs;
-  uint8_t num_cells = count_mask_values(cell_mask_size, header->cell_mask);
 
-  if (num_sats * num_sigs > MSM_MAX_CELLS) {
-    /* Too large cell mask, should already have been handled by caller */
+  if (num_sats > RTCM_MAX_SATS || num_sats * num_sigs > MSM_MAX_CELLS) {
+    /* Too many satellites or too large cell mask, should already have been
+     * handled by caller */
     return 0;
   }
 
+  uint8_t cell_mask_size = num_sats * num_sigs;
+  uint8_t num_cells = count_mask_values(cell_mask_size, header->cell_mask);
+
   /* Header */
   uint16_t bit = rtcm3_encode_msm_header(header, cons, buff);
 
-- 
2.43.0


From d04586c5661100f7d485593aa35cbc4c286e1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:20 +0000
Subject: [PATCH 16/40] fix: carry an MSM rough range fraction that rounds to
 one millisecond

---
 c/librtcm/src/encode.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index df4ff0f..22daa98 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -925,11 +925,13 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
                                 double rough_rate_m_s[num_sats],
                                 uint8_t buff[],
                                 uint16_t *bit) {
+  /* rough range in units of 1/1024 ms, rounded once so that a fraction close to
+   * one carries over into the integer milliseconds */
+  uint32_t rough_range[num_sats];
   /* number of integer milliseconds, DF397 */
-  uint8_t integer_ms[num_sats];
   for (uint8_t i = 0; i < num_sats; i++) {
-    integer_ms[i] = (uint8_t)floor(msg->sats[i].rough_range_ms);
-    rtcm_setbitu(buff, *bit, 8, integer_ms[i]);
+    rough_range[i] = (uint32_t)round(1024 * msg->sats[i].rough_range_ms);
+    rtcm_setbitu(buff, *bit, 8, rough_range[i] / 1024);
     *bit += 8;
   }
   if (MSM5 == msm_type) {
@@ -941,13 +943,9 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
 
   /* rough range modulo 1 ms, DF398 */
   for (uint8_t i = 0; i < num_sats; i++) {
-    double pr = msg->sats[i].rough_range_ms;
-    /* remove integer ms part */
-    double range_modulo_ms = pr - integer_ms[i];
-    uint16_t range_modulo_encoded = (uint16_t)round(1024 * range_modulo_ms);
-    rtcm_setbitu(buff, *bit, 10, range_modulo_encoded);
+    rtcm_setbitu(buff, *bit, 10, rough_range[i] % 1024);
     *bit += 10;
-    rough_range_ms[i] = integer_ms[i] + (double)range_modulo_encoded / 1024;
+    rough_range_ms[i] = (double)rough_range[i] / 1024;
   }
 
   /* range rate, m/s, DF399*/
-- 
2.43.0


From d361564fc5f4a3fb511477a55baa4d85966e9832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:06 +0000
Subject: [PATCH 17/40] fix: MSM values that do not fit their field are invalid

---
 c/librtcm/src/encode.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 22daa98..c324c14 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -930,7 +930,12 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   uint32_t rough_range[num_sats];
   /* number of integer milliseconds, DF397 */
   for (uint8_t i = 0; i < num_sats; i++) {
-    rough_range[i] = (uint32_t)round(1024 * msg->sats[i].rough_range_ms);
+    double range = round(1024 * msg->sats[i].rough_range_ms);
+    if (range >= 0 && range < 1024 * MSM_ROUGH_RANGE_INVALID) {
+      rough_range[i] = (uint32_t)range;
+    } else {
+      rough_range[i] = 1024 * MSM_ROUGH_RANGE_INVALID;
+    }
     rtcm_setbitu(buff, *bit, 8, rough_range[i] / 1024);
     *bit += 8;
   }
@@ -951,7 +956,10 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   /* range rate, m/s, DF399*/
   if (MSM5 == msm_type) {
     for (uint8_t i = 0; i < num_sats; i++) {
-      int16_t range_rate = (int16_t)msg->sats[i].rough_range_rate_m_s;
+      int16_t range_rate = MSM_ROUGH_RATE_INVALID;
+      if (fabs(msg->sats[i].rough_range_rate_m_s) < -MSM_ROUGH_RATE_INVALID) {
+        range_rate = (int16_t)msg->sats[i].rough_range_rate_m_s;
+      }
       rtcm_setbits(buff, *bit, 14, range_rate);
       *bit += 14;
       rough_rate_m_s[i] = range_rate;
@@ -1026,7 +1034,8 @@ static void encode_msm_cnrs(const uint8_t num_cells,
   /* DF403 */
   for (uint16_t i = 0; i < num_cells; i++) {
     if (flags[i].fields.valid_cnr) {
-      rtcm_setbitu(buff, *bit, 6, (uint8_t)round(cnr[i]));
+      /* the largest value of the field stands for everything above it */
+      rtcm_setbitu(buff, *bit, 6, (uint8_t)fmin(round(cnr[i]), 63));
     } else {
       rtcm_setbitu(buff, *bit, 6, 0);
     }
-- 
2.43.0


From 962ab2f52b7777565e55953adb294c5e44f03057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:18 +0000
Subject: [PATCH 18/40] fix: UBX raw measurements that do not fit their SBP
 field are not valid

---
 c/gnss_converters/src/ubx_sbp.c | 47 ++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 64785fa..d980537 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -86,6 +86,8 @@
 
 #define UBX_SBP_PSEUDORANGE_SCALING (50)
 
+#define SBP_OBS_PSEUDORANGE_MASK (1 << 0)
+#define SBP_OBS_CARRIER_PHASE_MASK ((1 << 1) | (1 << 2))
 #define SBP_OBS_DOPPLER_MASK (1 << 3)
 #define SBP_OBS_TRACK_STATE_MASK (0x07)
 
@@ -295,18 +297,21 @@ static code_t convert_ubx_gnssid_sigid(u8 gnss_id, u8 sig_id) {
 
 static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
   double Li = floor(L_in);
-  if (Li < INT32_MIN || Li > INT32_MAX) {
+  if (!(Li >= INT32_MIN && Li <= INT32_MAX)) {
     return false;
   }
 
   double Lf = L_in - Li;
 
-  L_out->i = (s32)Li;
   u16 frac_part_cp = (u16)round(Lf * SBP_OBS_LF_MULTIPLIER);
   if (frac_part_cp > UINT8_MAX) {
+    if (Li >= INT32_MAX) {
+      return false;
+    }
     frac_part_cp = 0;
-    L_out->i += 1;
+    Li += 1;
   }
+  L_out->i = (s32)Li;
   L_out->f = frac_part_cp;
 
   return true;
@@ -315,18 +320,21 @@ static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
 /* TODO(STAR-920) Move pack_* functions into libsbp or libswitfnav */
 static bool pack_doppler(double D_in, sbp_doppler_t *D_out) {
   double Di = floor(D_in);
-  if (Di < INT16_MIN || Di > INT16_MAX) {
+  if (!(Di >= INT16_MIN && Di <= INT16_MAX)) {
     return false;
   }
 
   double Df = D_in - Di;
 
-  D_out->i = (s16)Di;
   u16 frac_part_d = (u16)round(Df * SBP_OBS_DF_MULTIPLIER);
   if (frac_part_d > UINT8_MAX) {
+    if (Di >= INT16_MAX) {
+      return false;
+    }
     frac_part_d = 0;
-    D_out->i += 1;
+    Di += 1;
   }
+  D_out->i = (s16)Di;
   D_out->f = frac_part_d;
 
   return true;
@@ -376,10 +384,27 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   *n_obs = rxm_rawx->num_meas;
 
   for (int i = 0; i < *n_obs; i++) {
+    /* currently assumes all doppler are valid */
+    obs[i].flags = SBP_OBS_DOPPLER_MASK;
+    obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
+
+    /* a value which does not fit in its SBP field is not valid */
     /* convert units: meter -> 2 cm */
-    obs[i].P = (u32)(UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i]);
-    pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L);
-    pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D);
+    double P = UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i];
+    if (P >= 0 && P <= UINT32_MAX) {
+      obs[i].P = (u32)P;
+    } else {
+      obs[i].P = 0;
+      obs[i].flags &= ~SBP_OBS_PSEUDORANGE_MASK;
+    }
+    if (!pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L)) {
+      memset(&obs[i].L, 0, sizeof(obs[i].L));
+      obs[i].flags &= ~SBP_OBS_CARRIER_PHASE_MASK;
+    }
+    if (!pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D)) {
+      memset(&obs[i].D, 0, sizeof(obs[i].D));
+      obs[i].flags &= ~SBP_OBS_DOPPLER_MASK;
+    }
     /* check for overflow */
     if (rxm_rawx->cno_dbhz[i] > 0x3F) {
       obs[i].cn0 = 0xFF;
@@ -390,10 +415,6 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
      * internally converts back to u32 ms.
      */
     obs[i].lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
-    obs[i].flags = 0;
-    /* currently assumes all doppler are valid */
-    obs[i].flags |= SBP_OBS_DOPPLER_MASK;
-    obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
     obs[i].sid.sat = rxm_rawx->sat_id[i];
     obs[i].sid.code =
         convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
-- 
2.43.0


From 4590a5465c416fe4ebcfbde4e227f4ff8310a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:18 +0000
Subject: [PATCH 19/40] fix: an SBP observation cannot be split in more than 15
 messages

---
 c/gnss_converters/src/ubx_sbp.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index d980537..2621376 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -103,6 +103,9 @@ static const double ubx_sensortime_scale = 39.0625e-6;
  */
 #define SBP_MAX_NUM_OBS 14
 
+/* The SBP observation header counts the messages of an epoch in 4 bits */
+#define SBP_MAX_OBS_MESSAGES 15
+
 /* Syncs data between HNR_PVT and NAV_PVT */
 struct ubx_pvt_state {
   u8 num_sats;
@@ -382,6 +385,11 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
    * to handle_rxm_rawx
    */
   *n_obs = rxm_rawx->num_meas;
+  if (*n_obs > SBP_MAX_OBS_MESSAGES * SBP_MAX_NUM_OBS) {
+    log_warn("Too many measurements in RXM-RAWX for an SBP observation: %d",
+             *n_obs);
+    *n_obs = SBP_MAX_OBS_MESSAGES * SBP_MAX_NUM_OBS;
+  }
 
   for (int i = 0; i < *n_obs; i++) {
     /* currently assumes all doppler are valid */
-- 
2.43.0


From 2be11027fa5be592f2942ca89eb9c5d0e3be5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:18 +0000
Subject: [PATCH 20/40] fix: carry a UBX measurement time that rounds to the
 next week, refuse one outside the week

---
 c/gnss_converters/src/ubx_sbp.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 2621376..b7df1c6 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -366,6 +366,11 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
                         sbp_v4_gps_time_t *obs_time,
                         uint8_t *n_obs,
                         sbp_packed_obs_content_t *obs) {
+  if (!(rxm_rawx->rcv_tow >= 0 && rxm_rawx->rcv_tow < WEEK_SECS)) {
+    log_warn("Invalid time of week in RXM-RAWX: %f", rxm_rawx->rcv_tow);
+    return -1;
+  }
+
   /* convert from sec to ms */
   double ms = UBX_SBP_TOW_MS_SCALING * rxm_rawx->rcv_tow;
   double ns = UBX_SBP_TOW_NS_SCALING * modf(ms, &ms);
@@ -381,6 +386,13 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   } else {
     obs_time->wn = rxm_rawx->rcv_wn;
   }
+  /* rounded up to the start of the next week */
+  if (obs_time->tow >= WEEK_MS) {
+    obs_time->tow -= WEEK_MS;
+    if (rxm_rawx->rcv_wn != 0) {
+      obs_time->wn += 1;
+    }
+  }
   /* Not proper SBP n_obs. Needed to pass total number of measurements
    * to handle_rxm_rawx
    */
-- 
2.43.0


From aceb5e58f2a94c24c3501e52b42b5757dccfbd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:18 +0000
Subject: [PATCH 21/40] fix: wrap the time of an SBAS message at the start of
 the week

---
 c/gnss_converters/src/ubx_sbp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index b7df1c6..1b7580a 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1307,10 +1307,10 @@ static void handle_rxm_sfrbx(struct ubx_sbp_state *state,
     /* Fill in the approximate time of transmission of the start of the SBAS
      * message. The best guess for it we have is the current solution time
      * minus 1 s (length of the message) minus 120 ms (~= 36000km / 3e8m/s). */
-    tow_ms -= 1120;
-    if (tow_ms < 0.0) {
+    if (tow_ms < 1120) {
       tow_ms += WEEK_MS;
     }
+    tow_ms -= 1120;
 
     sbas_decode_subframe(&state->eph_data,
                          tow_ms,
-- 
2.43.0


From 1625511af0e2a309ca17ae010c5c705011f4ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:18 +0000
Subject: [PATCH 22/40] fix: ignore GLONASS strings numbered 0

---
 c/gnss_converters/src/ubx_ephemeris/glo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/glo.c b/c/gnss_converters/src/ubx_ephemeris/glo.c
index ed80926..ae9a554 100644
--- a/c/gnss_converters/src/ubx_ephemeris/glo.c
+++ b/c/gnss_converters/src/ubx_ephemeris/glo.c
@@ -92,7 +92,7 @@ void glo_decode_string(
   }
 
   u8 string_num = (words[0] >> 27U) & 0xFU;
-  if (string_num > GLO_MAX_STRING_NUM) {
+  if (string_num < 1 || string_num > GLO_MAX_STRING_NUM) {
     /* only strings 1-5 needed for ephemeris */
     return;
   }
-- 
2.43.0


From 84631a43d1e5dd7218a6d0f64b836845c75ffaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:28 +0000
Subject: [PATCH 23/40] fix: stamp an empty NovAtel observation message with
 the time of its header

---
 c/nov2sbp/src/send_sbp_obs_messages.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/nov2sbp/src/send_sbp_obs_messages.cc b/c/nov2sbp/src/send_sbp_obs_messages.cc
index 682cb2b..ba54633 100644
--- a/c/nov2sbp/src/send_sbp_obs_messages.cc
+++ b/c/nov2sbp/src/send_sbp_obs_messages.cc
@@ -192,8 +192,11 @@ void send_sbp_obs_messages(uint8_t n,
   static u8 buff[256];
 
   if ((0 == n) || (nullptr == m) || (nullptr == t)) {
-    gps_time_t t_dummy = GPS_TIME_UNKNOWN;
-    pack_obs_header(&t_dummy, 1, 0, (observation_header_t *)buff);  // NOLINT
+    gps_time_t t_dummy = {0, 0};
+    pack_obs_header((nullptr != t) ? t : &t_dummy,
+                    1,
+                    0,
+                    (observation_header_t *)buff);  // NOLINT
     sbp_send_msg(SBP_MSG_OBS, sizeof(observation_header_t), buff);
     return;
   }
-- 
2.43.0


From b82f133b10fd9651371c5aff563b5ff7d2a4eab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:28 +0000
Subject: [PATCH 24/40] fix: keep sending auxiliary IMU data after a week
 rollover

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 39b30cb..09726ce 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -981,8 +981,13 @@ bool convert_rawimu_to_imu_aux(const BinaryHeader *header,
 
   // don't send if it has been less than 1 second since the last message
   if (last_aux_time->wn != 0 && header->week != 0 && last_aux_time->tow != 0 &&
-      cur_time != 0 && cur_time < last_aux_time->tow + 1000) {
-    return false;
+      cur_time != 0) {
+    int64_t elapsed_ms =
+        (static_cast<int64_t>(header->week) - last_aux_time->wn) * kMsPerWeek +
+        cur_time - last_aux_time->tow;
+    if (elapsed_ms < 1000) {
+      return false;
+    }
   }
 
   imu_aux->imu_type = 1;  // ST Microelectronics ASM330LLH
-- 
2.43.0


From b993366d6b570788e92678dfb57b3f30ef76e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:07 +0000
Subject: [PATCH 25/40] fix: saturate a vertical speed before negating it

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 09726ce..783e26e 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -600,7 +600,7 @@ void convert_bestvel_to_vel_ned(const BinaryHeader *header,
                              cos(degrees_to_radians(bestvel->trk_gnd)));
   vel_ned->e = double_to_s32(1000. * bestvel->hor_speed *
                              sin(degrees_to_radians(bestvel->trk_gnd)));
-  vel_ned->d = -double_to_s32(1000. * bestvel->vert_speed);
+  vel_ned->d = double_to_s32(-1000. * bestvel->vert_speed);
   vel_ned->h_accuracy = 0;
   vel_ned->v_accuracy = 0;
   vel_ned->n_sats = 0;
-- 
2.43.0


From 83e8bd6fdf9045d08b07da02bf6207946413a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 26/40] fix: refuse an IXCOM message whose length is not that
 of its type

---
 c/libixcom/src/decode.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/libixcom/src/decode.c b/c/libixcom/src/decode.c
index e5f780e..2fd0c50 100644
--- a/c/libixcom/src/decode.c
+++ b/c/libixcom/src/decode.c
@@ -143,6 +143,10 @@ ixcom_rc ixcom_decode_imuraw(const uint8_t buff[], XCOMmsg_IMURAW *msg_imuraw) {
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  if (msg_imuraw->header.msg_len != sizeof(*msg_imuraw)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   for (int i = 0; i < 3; i++) {
     // clang-format off
     byte_offset += ixcom_set_bytes(
@@ -185,6 +189,10 @@ ixcom_rc ixcom_decode_wheeldata(const uint8_t buff[],
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  if (msg_wheeldata->header.msg_len != sizeof(*msg_wheeldata)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   // clang-format off
   byte_offset += ixcom_set_bytes(
       buff + byte_offset, (uint8_t *)(&msg_wheeldata->speed), 4);
-- 
2.43.0


From 40fc7e96c03784803e37314c79a11fad910adc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:37 +0000
Subject: [PATCH 27/40] fix: skip IXCOM frames of impossible length instead of
 overrunning, stalling or aborting

---
 c/gnss_converters/src/ixcom_sbp.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index d55b09a..16afc67 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -45,6 +45,16 @@ static int read_ixcom_bytes(struct ixcom_sbp_state *state, size_t num_bytes) {
   return ret;
 }
 
+/* Drop the sync byte of a false frame and everything up to the next one */
+static void drop_to_next_sync(struct ixcom_sbp_state *state) {
+  size_t start = 1;
+  while (start < state->index && state->read_buffer[start] != XCOM_SYNC_BYTE) {
+    start++;
+  }
+  state->index -= start;
+  memmove(state->read_buffer, state->read_buffer + start, state->index);
+}
+
 /** IXCOM Frame:
  * SYNC byte | Message ID | Frame Counter | Reserved | Message Length (2 bytes)
  * | GPS Week (2 bytes) | GPS TOW (8 bytes) | Payload (variable) | CRC16 (2
@@ -78,6 +88,12 @@ static int read_ixcom_frame(struct ixcom_sbp_state *state) {
       size_t message_length =
           state->read_buffer[4] + (state->read_buffer[5] << 8);
 
+      if (message_length < header_size + sizeof(XCOMFooter) ||
+          message_length >= IXCOM_BUFFER_SIZE) {
+        drop_to_next_sync(state);
+        continue;
+      }
+
       ret = read_ixcom_bytes(state, message_length - state->index);
       if (ret <= 0) {
         break;
-- 
2.43.0


From 7504e3c94509b9fa0f1e2272a2a7530f8e67207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:30 +0000
Subject: [PATCH 28/40] fix: do not round the time truth up to an invalid end
 of week

---
 c/gnss_converters/src/time_truth.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/time_truth.c b/c/gnss_converters/src/time_truth.c
index 4f5b1ea..e1728d9 100644
--- a/c/gnss_converters/src/time_truth.c
+++ b/c/gnss_converters/src/time_truth.c
@@ -27,6 +27,9 @@ struct time_truth {
   uint8_t state;
 };
 
+/** Largest single precision time of week below the end of the week */
+#define TIME_TRUTH_TOW_MAX (604799.9375f)
+
 /** Time truth actual type (ie. underlying implementation of time_truth_t) */
 typedef _Atomic struct time_truth atomic_time_truth_t;
 
@@ -37,6 +40,12 @@ static_assert(
     alignof(time_truth_t) % alignof(atomic_time_truth_t) == 0,
     "opaque type must be alignable to its actual type's alignment requirement");
 
+/* The conversion to single precision must not round a valid time up to the end
+ * of its week, the result would not be a valid time */
+static float time_truth_tow(double tow) {
+  return tow < TIME_TRUTH_TOW_MAX ? (float)tow : TIME_TRUTH_TOW_MAX;
+}
+
 void time_truth_init(time_truth_t *instance) {
   struct time_truth value;
   memset(&value, 0, sizeof(value));
@@ -80,7 +89,7 @@ bool time_truth_update(time_truth_t *instance,
           case TIME_TRUTH_EPH_GAL:
           case TIME_TRUTH_EPH_BDS:
             new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            new_time_truth.tow = time_truth_tow(time.tow);
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
@@ -97,7 +106,7 @@ bool time_truth_update(time_truth_t *instance,
               return false;
             }
             new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            new_time_truth.tow = time_truth_tow(time.tow);
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
-- 
2.43.0


From ce7823d51ea4522638b7ed1c4e98c6c8ef908712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:37 +0000
Subject: [PATCH 29/40] fix: check an RTCM frame holds its header and its whole
 payload before decoding it

---
 c/gnss_converters/src/rtcm3_sbp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 067487d..28a0cfc 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -638,14 +638,15 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
 void rtcm2sbp_decode_frame(const uint8_t *frame,
                            uint32_t frame_length,
                            struct rtcm3_sbp_state *state) {
-  if (frame_length < 1) {
+  /* The header is the preamble, reserved bits and the payload length */
+  if (frame_length < 3) {
     return;
   }
 
   uint16_t byte = 1;
   uint16_t message_size = ((frame[byte] & 0x3) << 8) | frame[byte + 1];
 
-  if (frame_length < message_size) {
+  if (frame_length < message_size + 3u) {
     return;
   }
 
-- 
2.43.0


From 14d8e7403103202406b5e3c80a151db17475e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:37 +0000
Subject: [PATCH 30/40] fix: read the 12-bit station ID for the MSM1-3 warning

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 28a0cfc..d3c0f11 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1357,7 +1357,7 @@ void send_MSM_warning(const swiftnav_bitstream_t *bitstream,
     state->sent_msm_warning = true;
     /* Get the stn ID as well */
     uint32_t stn_id = 0;
-    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 24)) {
+    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 12)) {
       uint8_t msg[39] = "MSM1-3 Messages currently not supported";
       send_sbp_log_message(
           RTCM_MSM_LOGGING_LEVEL, msg, sizeof(msg), stn_id, state);
-- 
2.43.0


From 1e64b41453fe67cd945d1427e1467cbfaa43f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:37 +0000
Subject: [PATCH 31/40] fix: truncate long 1029 text between characters

---
 c/gnss_converters/src/rtcm3_sbp.c | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index d3c0f11..f0b3efc 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1304,23 +1304,16 @@ void send_1029(rtcm_msg_1029 *msg_1029, struct rtcm3_sbp_state *state) {
          msg_1029->utf8_code_units,
          message_size - preamble_size);
 
-  /* Check if we've had to truncate the string - we can check for the bit
-   * pattern that denotes a 4 byte code unit as it is the super set of all bit
-   * patterns (2,3 and 4 byte code units) */
-  if (message_size == SBP_MSG_LOG_TEXT_MAX) {
-    if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-        (message[message_size - 1] & 0xE0) == 0xE0 ||
-        (message[message_size - 1] & 0xE0) == 0xC0) {
-      /* We've truncated a 2, 3 or 4 byte code unit */
-      message_size--;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-               (message[message_size - 1] & 0xE0) == 0xE0) {
-      /* We've truncated a 3 or 4 byte code unit */
-      message_size -= 2;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0) {
-      /* We've truncated a 4 byte code unit */
-      message_size -= 3;
+  /* If the string had to be truncated do not end it inside a multi-byte
+   * character: step back while the first byte left out continues one */
+  uint8_t copied = message_size - preamble_size;
+  if (copied < msg_1029->utf8_code_units_n) {
+    for (uint8_t i = 0;
+         i < 3 && (msg_1029->utf8_code_units[copied] & 0xC0) == 0x80;
+         i++) {
+      copied--;
     }
+    message_size = preamble_size + copied;
   }
 
   send_sbp_log_message(
-- 
2.43.0


From b2340431883c9704c82df1e63971c676168b3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:37 +0000
Subject: [PATCH 32/40] fix: start with an empty SSR orbit and clock cache

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index f0b3efc..9b08861 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -121,6 +121,8 @@ void rtcm2sbp_init(struct rtcm3_sbp_state *state,
   memset(state->obs_buffer, 0, sizeof(state->obs_buffer));
   memset(&state->obs_time, 0, sizeof(state->obs_time));
   state->obs_to_send = 0;
+  memset(state->orbit_clock_cache, 0, sizeof(state->orbit_clock_cache));
+  memset(&state->eph_data, 0, sizeof(state->eph_data));
 
   rtcm_init_logging(&rtcm_log_callback_fn, state);
 
-- 
2.43.0


From 69c4d76f0df450b86a91a0cc830723ab2e270215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:50 +0000
Subject: [PATCH 33/40] fix: do not read navigation data frames past the end of
 the message

---
 c/gnss_converters/src/rtcm3_sbp.c |  2 +-
 c/librtcm/include/rtcm3/decode.h  | 10 ++++++-
 c/librtcm/src/decode.c            | 47 ++++++++++++++-----------------
 3 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 9b08861..484462d 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -615,7 +615,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     }
     case 4075: {
       rtcm_msg_ndf ndf_msg;
-      if (RC_OK == rtcm3_decode_4075(payload, &ndf_msg)) {
+      if (RC_OK == rtcm3_decode_4075_bitstream(&bitstream, &ndf_msg)) {
         handle_ndf_frame(&ndf_msg, state);
       }
       break;
diff --git a/c/librtcm/include/rtcm3/decode.h b/c/librtcm/include/rtcm3/decode.h
index f02340a..9f23f1d 100644
--- a/c/librtcm/include/rtcm3/decode.h
+++ b/c/librtcm/include/rtcm3/decode.h
@@ -58,7 +58,8 @@ rtcm3_rc rtcm3_decode_msm7_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msm_message *msg);
 rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msg_swift_proprietary *msg);
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg);
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg);
 
 double rtcm3_decode_lock_time(uint8_t lock);
 
@@ -191,6 +192,13 @@ static inline rtcm3_rc rtcm3_decode_4062(const uint8_t buff[],
   return rtcm3_decode_4062_bitstream(&bitstream, msg);
 }
 
+static inline rtcm3_rc rtcm3_decode_4075(const uint8_t buff[],
+                                         rtcm_msg_ndf *msg) {
+  swiftnav_bitstream_t bitstream;
+  swiftnav_bitstream_init(&bitstream, buff, UINT32_MAX);
+  return rtcm3_decode_4075_bitstream(&bitstream, msg);
+}
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index f201e08..277bf2f 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1485,21 +1485,19 @@ rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
  *          - RC_MESSAGE_TYPE_MISMATCH : Message type mismatch
  *          - RC_INVALID_MESSAGE : Nonzero reserved bits (invalid format)
  */
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg) {
   assert(msg);
-  uint16_t bit = 0;
-  msg->msg_type = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->msg_type, 12);
 
   if (msg->msg_type != 4075) { /* Unexpected message type. */
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  msg->stn_id = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->stn_id, 12);
 
-  uint8_t reserved_bits = rtcm_getbitu(buff, bit, 2);
-  bit += 2;
+  uint8_t reserved_bits;
+  BITSTREAM_DECODE_U8(buff, reserved_bits, 2);
 
   /* These bits are reserved for future use, if they aren't 0 it must be a
      new format we don't know how to handle. */
@@ -1507,34 +1505,28 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     return RC_INVALID_MESSAGE;
   }
 
-  msg->frame_count = rtcm_getbitu(buff, bit, 6);
-  bit += 6;
+  BITSTREAM_DECODE_U8(buff, msg->frame_count, 6);
 
   if (msg->frame_count > MAX_NDF_FRAMES) {
     return RC_INVALID_MESSAGE;
   }
 
   for (uint8_t i = 0; i < msg->frame_count; i++) {
-    msg->frames[i].sat_sys = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_sys, 4);
 
-    msg->frames[i].sat_num = rtcm_getbitu(buff, bit, 6);
-    bit += 6;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_num, 6);
 
-    msg->frames[i].ext_sat_info = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].ext_sat_info, 4);
 
-    msg->frames[i].sig_type = rtcm_getbitu(buff, bit, 5);
-    bit += 5;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sig_type, 5);
 
-    msg->frames[i].epoch_time = rtcm_getbitu(buff, bit, 30);
-    bit += 30;
+    BITSTREAM_DECODE_U32(buff, msg->frames[i].epoch_time, 30);
 
-    msg->frames[i].continuous_tracking = rtcm_getbitu(buff, bit, 1);
-    bit += 1;
+    uint8_t continuous_tracking;
+    BITSTREAM_DECODE_U8(buff, continuous_tracking, 1);
+    msg->frames[i].continuous_tracking = continuous_tracking;
 
-    msg->frames[i].frame_data_size_bits = rtcm_getbitu(buff, bit, 12);
-    bit += 12;
+    BITSTREAM_DECODE_U16(buff, msg->frames[i].frame_data_size_bits, 12);
 
     uint16_t remaining_bits = msg->frames[i].frame_data_size_bits;
     if (remaining_bits > MAX_NDF_FRAME_SIZE_BITS) {
@@ -1544,8 +1536,11 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     uint16_t j = 0;
     while (remaining_bits > 0) {
       uint32_t next_bits = remaining_bits < 32 ? remaining_bits : 32;
-      msg->frames[i].frame_data[j++] = rtcm_getbitu(buff, bit, next_bits);
-      bit += next_bits;
+      if (!swiftnav_bitstream_getbitu(
+              buff, &msg->frames[i].frame_data[j++], 0, next_bits)) {
+        return RC_INVALID_MESSAGE;
+      }
+      swiftnav_bitstream_remove(buff, next_bits);
       remaining_bits -= next_bits;
     }
   }
-- 
2.43.0


From 12cae9ae27c3b81a7b9b055d491257ededa5bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:21 +0000
Subject: [PATCH 34/40] fix: compare the low eight bits of IODC with IODE for
 QZSS as for GPS

---
 c/gnss_converters/src/rtcm3_sbp_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
index f88a299..7e1324e 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
@@ -185,7 +185,7 @@ void rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
   sbp_qzss_eph->common.fit_interval = rtcm3_decode_fit_interval_gps(
       msg_eph->fit_interval, msg_eph->data.kepler.iodc);
   sbp_qzss_eph->common.valid =
-      msg_eph->data.kepler.iodc == msg_eph->data.kepler.iode;
+      (msg_eph->data.kepler.iodc & 0xFF) == msg_eph->data.kepler.iode;
   sbp_qzss_eph->common.health_bits = msg_eph->health_bits;
 
   sbp_qzss_eph->tgd = (float)(msg_eph->data.kepler.tgd.gps_s * C_1_2P31);
-- 
2.43.0


From 60a14b3cf47819609a9031e5cfe288d7ae9d8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:53 +0000
Subject: [PATCH 35/40] fix: do not wrap signal strengths of 63.875 dB-Hz and
 more to zero

---
 c/gnss_converters/src/rtcm3_sbp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 484462d..7e92e49 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1613,7 +1613,8 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
           }
 
           if (data->flags.fields.valid_cnr) {
-            sbp_freq->cn0 = (u8)rint(data->cnr * MSG_OBS_CN0_MULTIPLIER);
+            sbp_freq->cn0 =
+                (u8)MIN(UINT8_MAX, rint(data->cnr * MSG_OBS_CN0_MULTIPLIER));
           } else {
             sbp_freq->cn0 = 0;
           }
-- 
2.43.0


From 5db73b1e4d0ac99260bdd8954eb3767a18993b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:53 +0000
Subject: [PATCH 36/40] fix: do not wrap Dopplers beyond the range of the SBP
 field

---
 c/gnss_converters/src/rtcm3_sbp.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 7e92e49..385f620 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1626,15 +1626,19 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
           if (data->flags.fields.valid_dop && freq_valid) {
             /* flip Doppler sign to Piksi sign convention */
             double doppler_Hz = -data->range_rate_m_s * freq / GPS_C;
-            sbp_freq->D.i = (s16)floor(doppler_Hz);
-            u16 frac_part = (u16)rint((doppler_Hz - (double)sbp_freq->D.i) *
-                                      MSG_OBS_DF_MULTIPLIER);
+            double doppler_whole = floor(doppler_Hz);
+            u16 frac_part =
+                (u16)rint((doppler_Hz - doppler_whole) * MSG_OBS_DF_MULTIPLIER);
             if (256 == frac_part) {
               frac_part = 0;
-              sbp_freq->D.i += 1;
+              doppler_whole += 1;
+            }
+            /* leave out a Doppler which the message cannot express */
+            if (doppler_whole >= INT16_MIN && doppler_whole <= INT16_MAX) {
+              sbp_freq->D.i = (s16)doppler_whole;
+              sbp_freq->D.f = (u8)frac_part;
+              sbp_freq->flags |= MSG_OBS_FLAGS_DOPPLER_VALID;
             }
-            sbp_freq->D.f = (u8)frac_part;
-            sbp_freq->flags |= MSG_OBS_FLAGS_DOPPLER_VALID;
           }
 
           if (verbosity_level > VERB_HIGH) {
-- 
2.43.0


From aed91f83eca67fe59565f7855bbdfb944d8ad4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:41 +0000
Subject: [PATCH 37/40] fix: reject SSR clock corrections cut short

---
 c/librtcm/src/ssr_decode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/ssr_decode.c b/c/librtcm/src/ssr_decode.c
index e0e2566..802a9a7 100644
--- a/c/librtcm/src/ssr_decode.c
+++ b/c/librtcm/src/ssr_decode.c
@@ -281,7 +281,9 @@ rtcm3_rc rtcm3_decode_clock_bitstream(swiftnav_bitstream_t *buff,
     }
 
     clock->sat_id = sat_id;
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
@@ -323,7 +325,9 @@ rtcm3_rc rtcm3_decode_orbit_clock_bitstream(
                        buff, msg_orbit_clock->header.constellation, orbit))) {
       return RC_INVALID_MESSAGE;
     }
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
-- 
2.43.0


From 8605336bf470eec3cbba2d2e48047ac1fe926bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:41 +0000
Subject: [PATCH 38/40] fix: do not turn an invalid BeiDou time into a valid
 one

---
 c/gnss_converters/src/rtcm3_sbp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 385f620..2ca88bb 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1207,6 +1207,10 @@ void compute_gps_message_time(u32 tow_ms,
 }
 
 void beidou_tow_to_gps_tow(u32 *tow_ms) {
+  if (*tow_ms >= WEEK_SECS * SECS_MS) {
+    /* leave an invalid time invalid */
+    return;
+  }
   /* BDS system time has a constant offset */
   *tow_ms += BDS_SECOND_TO_GPS_SECOND * SECS_MS;
   if (*tow_ms >= WEEK_SECS * SECS_MS) {
-- 
2.43.0


From 5f3d219cc2bb589043f8e63b6095bea159ddf2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:41 +0000
Subject: [PATCH 39/40] fix: do not use an uninitialised time for SSR messages
 of invalid time

---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index 6709874..8e4d6a3 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -25,7 +25,7 @@ sbp_gps_time_sec_t compute_ssr_message_time(
     const gps_time_t *rover_time,
     struct rtcm3_sbp_state *state) {
   sbp_gps_time_sec_t obs_time_sec;
-  gps_time_t obs_time;
+  gps_time_t obs_time = {.tow = 0, .wn = WN_UNKNOWN};
   if (constellation == CONSTELLATION_GLO) {
     compute_glo_time(epoch_time_ms, &obs_time, rover_time, state);
   } else if (constellation == CONSTELLATION_BDS) {
-- 
2.43.0


From 24350d0d26c188de88a33b92aac1b4b0e40597e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:41 +0000
Subject: [PATCH 40/40] fix: join SSR orbits and clocks also when the clocks
 are more

---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index 8e4d6a3..8910b54 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -93,8 +93,7 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
   sbp_msg_t msg;
   sbp_msg_ssr_orbit_clock_t *sbp_orbit_clock = &msg.ssr_orbit_clock;
 
-  for (int sat_count = 0; (sat_count < msg_clock->header.num_sats) &&
-                          (sat_count < msg_orbit->header.num_sats);
+  for (int sat_count = 0; sat_count < msg_clock->header.num_sats;
        ++sat_count) {
     memset(sbp_orbit_clock, 0, sizeof(*sbp_orbit_clock));
 
@@ -103,9 +102,9 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
     // for a given satellite
     int clock_index = sat_count;
     int orbit_index = 0;
-    while (msg_orbit->orbit[orbit_index].sat_id !=
-               msg_clock->clock[clock_index].sat_id &&
-           orbit_index < msg_orbit->header.num_sats) {
+    while (orbit_index < msg_orbit->header.num_sats &&
+           msg_orbit->orbit[orbit_index].sat_id !=
+               msg_clock->clock[clock_index].sat_id) {
       orbit_index++;
     }
     if (orbit_index >= msg_orbit->header.num_sats) {
-- 
2.43.0

