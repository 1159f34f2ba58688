From f44285ffd24c065e9317edf9b40f51383035a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 01/97] fix: NovAtel parser lost messages split across reads
 and faulted at end of input

---
 c/nov2sbp/parser/parser.cc | 46 +++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 77dbd1e..3d64153 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -54,18 +54,26 @@ Parser::Parser(ReadFunction readfn,
       context_(context) {}
 
 void Parser::process() {
+  bool end_of_input = false;
+
   do {
     // fill buffer_
-    int num_bytes_read = readfn_(buffer_ + num_bytes_in_buffer_,
-                                 sizeof(buffer_) - num_bytes_in_buffer_,
-                                 context_);
+    if (!end_of_input && num_bytes_in_buffer_ < sizeof(buffer_)) {
+      int num_bytes_read = readfn_(buffer_ + num_bytes_in_buffer_,
+                                   sizeof(buffer_) - num_bytes_in_buffer_,
+                                   context_);
+
+      if (num_bytes_read < 0) {
+        warn("Read error");
+      }
 
-    if (num_bytes_read < 0) {
-      warn("Read error");
-      return;
+      if (num_bytes_read > 0) {
+        num_bytes_in_buffer_ += num_bytes_read;
+      } else {
+        end_of_input = true;
+      }
     }
 
-    num_bytes_in_buffer_ += num_bytes_read;
     uint32_t num_bytes_consumed = 1;
 
     if (num_bytes_in_buffer_ >= sizeof(MSG_REGULAR_PREAMBLE)) {
@@ -79,18 +87,25 @@ void Parser::process() {
                              sizeof(MSG_SHORT_PREAMBLE))) {
         num_bytes_consumed = parse_short_message();
       }
+    } else {
+      num_bytes_consumed = 0;
+    }
+
+    if (num_bytes_consumed == 0 && end_of_input && num_bytes_in_buffer_ > 0) {
+      // the rest of this message will never come, drop 1 byte and try again
+      num_bytes_consumed = 1;
     }
 
     // drop consumed bytes from buffer_
     assert(num_bytes_consumed <= num_bytes_in_buffer_);
     num_bytes_in_buffer_ -= num_bytes_consumed;
     memmove(buffer_, buffer_ + num_bytes_consumed, num_bytes_in_buffer_);
-  } while (num_bytes_in_buffer_ > 0);
+  } while (!end_of_input || num_bytes_in_buffer_ > 0);
 }
 
 /*
  * Attempt to parse buffer_ as a regular Novatel Binary Message, return number
- * of bytes consumed
+ * of bytes consumed, or 0 if the rest of the message has yet to be read
  */
 uint32_t Parser::parse_regular_message() const {
   if (num_bytes_in_buffer_ >= MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN) {
@@ -111,6 +126,10 @@ uint32_t Parser::parse_regular_message() const {
           return MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN + header.message_len;
         }
         warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
+      } else if (header.message_len <= sizeof(buffer_) -
+                                           MSG_REGULAR_HEADER_LEN -
+                                           MSG_CRC_LEN) {
+        return 0;
       } else {
         warn("Unexpectedly large message length %i", header.message_len);
       }
@@ -118,6 +137,8 @@ uint32_t Parser::parse_regular_message() const {
       warn("Unexpected header length %i",
            buffer_[sizeof(MSG_REGULAR_PREAMBLE)]);
     }
+  } else {
+    return 0;
   }
 
   // parsing failed, drop 1 byte and try again
@@ -126,7 +147,7 @@ uint32_t Parser::parse_regular_message() const {
 
 /*
  * Attempt to parse buffer_ as a short Novatel Binary Message, return number
- * of bytes consumed
+ * of bytes consumed, or 0 if the rest of the message has yet to be read
  */
 uint32_t Parser::parse_short_message() const {
   if (num_bytes_in_buffer_ >= MSG_SHORT_HEADER_LEN + MSG_CRC_LEN) {
@@ -146,8 +167,11 @@ uint32_t Parser::parse_short_message() const {
       }
       warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
     } else {
-      warn("Unexpectedly large message length %i", header.message_len);
+      // a short message always fits in buffer_
+      return 0;
     }
+  } else {
+    return 0;
   }
 
   // parsing failed, drop 1 byte and try again
-- 
2.43.0


From 3dd935f8e1e863970cd23787c2ba38cf948e673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 02/97] fix: refuse NovAtel messages whose length does not
 match their type

---
 c/nov2sbp/parser/message_bestpos.cc      |  7 +++-
 c/nov2sbp/parser/message_bestpos.h       |  3 +-
 c/nov2sbp/parser/message_bestvel.cc      |  7 +++-
 c/nov2sbp/parser/message_bestvel.h       |  3 +-
 c/nov2sbp/parser/message_gloephemeris.cc |  7 +++-
 c/nov2sbp/parser/message_gloephemeris.h  |  3 +-
 c/nov2sbp/parser/message_gpsephem.cc     |  7 +++-
 c/nov2sbp/parser/message_gpsephem.h      |  3 +-
 c/nov2sbp/parser/message_insatt.cc       |  7 +++-
 c/nov2sbp/parser/message_insatt.h        |  3 +-
 c/nov2sbp/parser/message_rangecmp.cc     | 14 ++++---
 c/nov2sbp/parser/message_rangecmp.h      |  2 +-
 c/nov2sbp/parser/message_rawimusx.cc     |  7 +++-
 c/nov2sbp/parser/message_rawimusx.h      |  3 +-
 c/nov2sbp/parser/parser.cc               | 49 +++++++++++++++++-------
 15 files changed, 87 insertions(+), 38 deletions(-)

diff --git a/c/nov2sbp/parser/message_bestpos.cc b/c/nov2sbp/parser/message_bestpos.cc
index 0b5467d..5c702d9 100644
--- a/c/nov2sbp/parser/message_bestpos.cc
+++ b/c/nov2sbp/parser/message_bestpos.cc
@@ -17,8 +17,10 @@
 
 namespace Novatel {
 
-void Message::BESTPOS_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
-  (void)n_bytes;
+bool Message::BESTPOS_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
+  if (n_bytes != kBinarySize) {
+    return false;
+  }
   size_t i = 0;
   sol_stat = Util::read_le_uint32(bytes + i);
   i += sizeof(uint32_t);
@@ -60,5 +62,6 @@ void Message::BESTPOS_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
 
   (void)i;
   assert(i == n_bytes);
+  return true;
 }
 }  // namespace Novatel
diff --git a/c/nov2sbp/parser/message_bestpos.h b/c/nov2sbp/parser/message_bestpos.h
index 7470c22..e538eea 100644
--- a/c/nov2sbp/parser/message_bestpos.h
+++ b/c/nov2sbp/parser/message_bestpos.h
@@ -20,6 +20,7 @@ namespace Novatel {
 namespace Message {
 
 struct BESTPOS_t {
+  static constexpr size_t kBinarySize = 72;
   uint32_t sol_stat;
   uint32_t pos_type;
   double lat;
@@ -42,7 +43,7 @@ struct BESTPOS_t {
   uint8_t galileo_beidou_mask;
   uint8_t gps_glonass_mask;
 
-  void FromBytes(const uint8_t *bytes, size_t n_bytes);
+  bool FromBytes(const uint8_t *bytes, size_t n_bytes);
 };
 
 }  // namespace Message
diff --git a/c/nov2sbp/parser/message_bestvel.cc b/c/nov2sbp/parser/message_bestvel.cc
index a9fc9d3..01ac467 100644
--- a/c/nov2sbp/parser/message_bestvel.cc
+++ b/c/nov2sbp/parser/message_bestvel.cc
@@ -5,8 +5,10 @@
 
 namespace Novatel {
 
-void Message::BESTVEL_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
-  (void)n_bytes;
+bool Message::BESTVEL_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
+  if (n_bytes != kBinarySize) {
+    return false;
+  }
   size_t i = 0;
   sol_stat = Util::read_le_uint32(bytes + i);
   i += sizeof(uint32_t);
@@ -27,5 +29,6 @@ void Message::BESTVEL_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
 
   (void)i;
   assert(i == n_bytes);
+  return true;
 }
 }  // namespace Novatel
diff --git a/c/nov2sbp/parser/message_bestvel.h b/c/nov2sbp/parser/message_bestvel.h
index 4322e6a..b0cf538 100644
--- a/c/nov2sbp/parser/message_bestvel.h
+++ b/c/nov2sbp/parser/message_bestvel.h
@@ -8,6 +8,7 @@ namespace Novatel {
 namespace Message {
 
 struct BESTVEL_t {
+  static constexpr size_t kBinarySize = 44;
   uint32_t sol_stat;
   uint32_t vel_type;
   float latency;
@@ -17,7 +18,7 @@ struct BESTVEL_t {
   double vert_speed;
   float reserved;
 
-  void FromBytes(const uint8_t *bytes, size_t n_bytes);
+  bool FromBytes(const uint8_t *bytes, size_t n_bytes);
 };
 
 }  // namespace Message
diff --git a/c/nov2sbp/parser/message_gloephemeris.cc b/c/nov2sbp/parser/message_gloephemeris.cc
index 1e751c6..e78537b 100644
--- a/c/nov2sbp/parser/message_gloephemeris.cc
+++ b/c/nov2sbp/parser/message_gloephemeris.cc
@@ -17,8 +17,10 @@
 
 namespace Novatel {
 
-void Message::GLOEPHEMERIS_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
-  (void)n_bytes;
+bool Message::GLOEPHEMERIS_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
+  if (n_bytes != kBinarySize) {
+    return false;
+  }
   size_t i = 0;
 
   // clang-format off
@@ -54,5 +56,6 @@ void Message::GLOEPHEMERIS_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
 
   (void)i;
   assert(i == n_bytes);
+  return true;
 }
 }  // namespace Novatel
diff --git a/c/nov2sbp/parser/message_gloephemeris.h b/c/nov2sbp/parser/message_gloephemeris.h
index 17725ef..80ab939 100644
--- a/c/nov2sbp/parser/message_gloephemeris.h
+++ b/c/nov2sbp/parser/message_gloephemeris.h
@@ -20,6 +20,7 @@ namespace Novatel {
 namespace Message {
 
 struct GLOEPHEMERIS_t {
+  static constexpr size_t kBinarySize = 144;
   uint16_t sloto;
   uint16_t freqo;
   uint8_t sat_type;
@@ -49,7 +50,7 @@ struct GLOEPHEMERIS_t {
   uint32_t age;
   uint32_t flags;
 
-  void FromBytes(const uint8_t *bytes, size_t n_bytes);
+  bool FromBytes(const uint8_t *bytes, size_t n_bytes);
 };
 
 }  // namespace Message
diff --git a/c/nov2sbp/parser/message_gpsephem.cc b/c/nov2sbp/parser/message_gpsephem.cc
index 8c9ec24..c12bf22 100644
--- a/c/nov2sbp/parser/message_gpsephem.cc
+++ b/c/nov2sbp/parser/message_gpsephem.cc
@@ -17,8 +17,10 @@
 
 namespace Novatel {
 
-void Message::GPSEPHEM_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
-  (void)n_bytes;
+bool Message::GPSEPHEM_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
+  if (n_bytes != kBinarySize) {
+    return false;
+  }
   size_t i = 0;
 
   prn = Util::read_le_uint32(bytes + i);
@@ -88,5 +90,6 @@ void Message::GPSEPHEM_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
 
   (void)i;
   assert(i == n_bytes);
+  return true;
 }
 }  // namespace Novatel
diff --git a/c/nov2sbp/parser/message_gpsephem.h b/c/nov2sbp/parser/message_gpsephem.h
index 508239b..c4cf4b3 100644
--- a/c/nov2sbp/parser/message_gpsephem.h
+++ b/c/nov2sbp/parser/message_gpsephem.h
@@ -20,6 +20,7 @@ namespace Novatel {
 namespace Message {
 
 struct GPSEPHEM_t {
+  static constexpr size_t kBinarySize = 224;
   uint32_t prn;
   double tow;
   uint32_t health;
@@ -53,7 +54,7 @@ struct GPSEPHEM_t {
   double N;
   double URA;
 
-  void FromBytes(const uint8_t *bytes, size_t n_bytes);
+  bool FromBytes(const uint8_t *bytes, size_t n_bytes);
 };
 
 }  // namespace Message
diff --git a/c/nov2sbp/parser/message_insatt.cc b/c/nov2sbp/parser/message_insatt.cc
index d3ad4cb..23c47d5 100644
--- a/c/nov2sbp/parser/message_insatt.cc
+++ b/c/nov2sbp/parser/message_insatt.cc
@@ -17,8 +17,10 @@
 
 namespace Novatel {
 
-void Message::INSATT_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
-  (void)n_bytes;
+bool Message::INSATT_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
+  if (n_bytes != kBinarySize) {
+    return false;
+  }
   size_t i = 0;
   gnss_week = Util::read_le_uint32(bytes + i);
   i += sizeof(uint32_t);
@@ -35,5 +37,6 @@ void Message::INSATT_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
 
   (void)i;
   assert(i == n_bytes);
+  return true;
 }
 }  // namespace Novatel
diff --git a/c/nov2sbp/parser/message_insatt.h b/c/nov2sbp/parser/message_insatt.h
index f45f8c2..ec570b5 100644
--- a/c/nov2sbp/parser/message_insatt.h
+++ b/c/nov2sbp/parser/message_insatt.h
@@ -8,6 +8,7 @@ namespace Novatel {
 namespace Message {
 
 struct INSATT_t {
+  static constexpr size_t kBinarySize = 40;
   uint32_t gnss_week;
   double tow;
   double roll;
@@ -15,7 +16,7 @@ struct INSATT_t {
   double azimuth;
   uint32_t status;
 
-  void FromBytes(const uint8_t *bytes, size_t n_bytes);
+  bool FromBytes(const uint8_t *bytes, size_t n_bytes);
 };
 
 }  // namespace Message
diff --git a/c/nov2sbp/parser/message_rangecmp.cc b/c/nov2sbp/parser/message_rangecmp.cc
index 3cc5d19..0d08277 100644
--- a/c/nov2sbp/parser/message_rangecmp.cc
+++ b/c/nov2sbp/parser/message_rangecmp.cc
@@ -27,17 +27,19 @@ namespace Novatel {
  * Also of note, the signed values require some bitshift trickery to get the
  * proper sign extension.
  */
-void Message::RANGECMP_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
-  (void)n_bytes;
-  assert(n_bytes >= sizeof(uint32_t));
+bool Message::RANGECMP_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
+  if (n_bytes < sizeof(uint32_t)) {
+    return false;
+  }
 
   n_records = Util::read_le_uint32(bytes);
   bytes += sizeof(uint32_t);
 
   size_t n_record_bytes =
       n_records * Message::RANGECMP_record_t::kRecordBinarySize;
-  (void)n_record_bytes;
-  assert(n_bytes == sizeof(uint32_t) + n_record_bytes);
+  if (n_bytes != sizeof(uint32_t) + n_record_bytes) {
+    return false;
+  }
 
   if (n_records > MAX_CHANNELS) {
     n_records = MAX_CHANNELS;
@@ -60,5 +62,7 @@ void Message::RANGECMP_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
     records[i].reserved = Novatel::Util::read_le_bits16(bytes, 176, 16);
     bytes += Message::RANGECMP_record_t::kRecordBinarySize;
   }
+
+  return true;
 }
 }  // namespace Novatel
diff --git a/c/nov2sbp/parser/message_rangecmp.h b/c/nov2sbp/parser/message_rangecmp.h
index 877270c..0b159cb 100644
--- a/c/nov2sbp/parser/message_rangecmp.h
+++ b/c/nov2sbp/parser/message_rangecmp.h
@@ -41,7 +41,7 @@ struct RANGECMP_t {
   size_t n_records;
   std::array<RANGECMP_record_t, MAX_CHANNELS> records;
 
-  void FromBytes(const uint8_t *bytes, size_t n_bytes);
+  bool FromBytes(const uint8_t *bytes, size_t n_bytes);
 };
 
 }  // namespace Message
diff --git a/c/nov2sbp/parser/message_rawimusx.cc b/c/nov2sbp/parser/message_rawimusx.cc
index 3168fbe..b4ebf1c 100644
--- a/c/nov2sbp/parser/message_rawimusx.cc
+++ b/c/nov2sbp/parser/message_rawimusx.cc
@@ -17,8 +17,10 @@
 
 namespace Novatel {
 
-void Message::RAWIMUSX_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
-  (void)n_bytes;
+bool Message::RAWIMUSX_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
+  if (n_bytes != kBinarySize) {
+    return false;
+  }
   size_t i = 0;
   imu_info = bytes[i++];
   imu_type = bytes[i++];
@@ -43,5 +45,6 @@ void Message::RAWIMUSX_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
 
   (void)i;
   assert(i == n_bytes);
+  return true;
 }
 }  // namespace Novatel
diff --git a/c/nov2sbp/parser/message_rawimusx.h b/c/nov2sbp/parser/message_rawimusx.h
index cf4e0c9..5ff238e 100644
--- a/c/nov2sbp/parser/message_rawimusx.h
+++ b/c/nov2sbp/parser/message_rawimusx.h
@@ -20,6 +20,7 @@ namespace Novatel {
 namespace Message {
 
 struct RAWIMUSX_t {
+  static constexpr size_t kBinarySize = 40;
   uint8_t imu_info;
   uint8_t imu_type;
   uint16_t gnss_week;
@@ -32,7 +33,7 @@ struct RAWIMUSX_t {
   int32_t y_gyro;
   int32_t x_gyro;
 
-  void FromBytes(const uint8_t *bytes, size_t n_bytes);
+  bool FromBytes(const uint8_t *bytes, size_t n_bytes);
 };
 
 }  // namespace Message
diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 3d64153..752260e 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -186,46 +186,67 @@ void Parser::parse_body(const BinaryHeader &header, const uint8_t *data) const {
   switch (header.message_id) {
     case Message::Id::GPSEPHEM: {
       Message::GPSEPHEM_t msg;
-      msg.FromBytes(data, header.message_len);
-      invoke_callback(header, &msg);
+      if (msg.FromBytes(data, header.message_len)) {
+        invoke_callback(header, &msg);
+      } else {
+        warn("Unexpected message length %i", header.message_len);
+      }
       break;
     }
     case Message::Id::BESTPOS: {
       Message::BESTPOS_t msg;
-      msg.FromBytes(data, header.message_len);
-      invoke_callback(header, &msg);
+      if (msg.FromBytes(data, header.message_len)) {
+        invoke_callback(header, &msg);
+      } else {
+        warn("Unexpected message length %i", header.message_len);
+      }
       break;
     }
     case Message::Id::BESTVEL: {
       Message::BESTVEL_t msg;
-      msg.FromBytes(data, header.message_len);
-      invoke_callback(header, &msg);
+      if (msg.FromBytes(data, header.message_len)) {
+        invoke_callback(header, &msg);
+      } else {
+        warn("Unexpected message length %i", header.message_len);
+      }
       break;
     }
     case Message::Id::RANGECMP: {
       // This is a variable length message so we must first read the number of
       // records.
       Message::RANGECMP_t msg;
-      msg.FromBytes(data, header.message_len);
-      invoke_callback(header, &msg);
+      if (msg.FromBytes(data, header.message_len)) {
+        invoke_callback(header, &msg);
+      } else {
+        warn("Unexpected message length %i", header.message_len);
+      }
       break;
     }
     case Message::Id::INSATT: {
       Message::INSATT_t msg;
-      msg.FromBytes(data, header.message_len);
-      invoke_callback(header, &msg);
+      if (msg.FromBytes(data, header.message_len)) {
+        invoke_callback(header, &msg);
+      } else {
+        warn("Unexpected message length %i", header.message_len);
+      }
       break;
     }
     case Message::Id::GLOEPHEMERIS: {
       Message::GLOEPHEMERIS_t msg;
-      msg.FromBytes(data, header.message_len);
-      invoke_callback(header, &msg);
+      if (msg.FromBytes(data, header.message_len)) {
+        invoke_callback(header, &msg);
+      } else {
+        warn("Unexpected message length %i", header.message_len);
+      }
       break;
     }
     case Message::Id::RAWIMUSX: {
       Message::RAWIMUSX_t msg;
-      msg.FromBytes(data, header.message_len);
-      invoke_callback(header, &msg);
+      if (msg.FromBytes(data, header.message_len)) {
+        invoke_callback(header, &msg);
+      } else {
+        warn("Unexpected message length %i", header.message_len);
+      }
       break;
     }
     default:
-- 
2.43.0


From a04da9d9f110c165081922794dc80e2a0b3cd20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 03/97] fix: saturate NovAtel accuracies instead of wrapping
 them to 16 bits

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 7881993..0689387 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -23,7 +23,14 @@ static const uint32_t kMsPerWeek = 7 * 24 * 60 * 60 * 1000;
  * Helpers for rounding and truncating values.
  */
 static inline uint16_t float_to_u16(float value) {
-  return MIN(static_cast<uint16_t>(round(value)), UINT16_MAX);
+  value = roundf(value);
+  if (!(value > 0)) {
+    return 0;
+  }
+  if (value >= UINT16_MAX) {
+    return UINT16_MAX;
+  }
+  return static_cast<uint16_t>(value);
 }
 
 static inline int16_t double_to_s16(double value) {
-- 
2.43.0


From 67da92052f75edfedb74427f49d6fd68ddc6878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 04/97] fix: NovAtel inertial rate and auxiliary message across
 a week rollover

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 0689387..a3a7b1f 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -356,7 +356,7 @@ static bool compute_imu_rate(const msg_gps_time_t *last_imu_time,
                              double &rate) {
   uint16_t week_prev = last_imu_time->wn;
   uint32_t tow_prev = last_imu_time->tow;
-  uint16_t week_cur = last_imu_time->wn;
+  uint16_t week_cur = header->week;
   uint32_t tow_cur = static_cast<uint32_t>(header->ms);
 
   if (week_prev != 0 && week_cur != 0 && tow_prev != 0 && tow_cur != 0) {
@@ -986,8 +986,13 @@ bool convert_rawimu_to_imu_aux(const BinaryHeader *header,
 
   // don't send if it has been less than 1 second since the last message
   if (last_aux_time->wn != 0 && header->week != 0 && last_aux_time->tow != 0 &&
-      cur_time != 0 && cur_time < last_aux_time->tow + 1000) {
-    return false;
+      cur_time != 0) {
+    uint32_t weeks = static_cast<uint16_t>(header->week - last_aux_time->wn);
+    uint64_t next_time = last_aux_time->tow + 1000;
+    if (weeks <= 1 &&
+        cur_time + static_cast<uint64_t>(weeks) * kMsPerWeek < next_time) {
+      return false;
+    }
   }
 
   imu_aux->imu_type = 1;  // ST Microelectronics ASM330LLH
-- 
2.43.0


From b1cd1fe6f5bdf9f776a79d0834b521d07690e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 05/97] fix: ignore NovAtel ephemerides and inertial data that
 cannot be converted instead of aborting

---
 c/nov2sbp/src/nov2sbp.cc                     |  4 +++-
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 25 +++++++++++++-------
 c/nov2sbp/src/swiftnav_conversion_helpers.h  |  2 +-
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/c/nov2sbp/src/nov2sbp.cc b/c/nov2sbp/src/nov2sbp.cc
index 2bb0a1f..3b0e9d4 100644
--- a/c/nov2sbp/src/nov2sbp.cc
+++ b/c/nov2sbp/src/nov2sbp.cc
@@ -130,7 +130,9 @@ static void write_sbp_gps_ephem(const BinaryHeader *header, const void *data) {
   const auto *gpsephem =
       reinterpret_cast<const Message::GPSEPHEM_t *>(data);  // NOLINT
   msg_ephemeris_gps_t ephem_msg;
-  convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg);
+  if (!convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg)) {
+    return;
+  }
   auto ret =
       sbp_send_message(&sbp,
                        SBP_MSG_EPHEMERIS_GPS,
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index a3a7b1f..27bd724 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -649,12 +649,13 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b) {
  *
  * Everything else is pretty straight forward.
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem) {
-  assert(gpsephem->prn <= UINT8_MAX);
-  assert(gpsephem->toe <= UINT32_MAX);
-  assert(gpsephem->toc <= UINT32_MAX);
-  assert(gpsephem->week <= UINT16_MAX);
+  if (gpsephem->prn > UINT8_MAX || gpsephem->week > UINT16_MAX ||
+      !(gpsephem->toe >= 0 && gpsephem->toe <= UINT32_MAX) ||
+      !(gpsephem->toc >= 0 && gpsephem->toc <= UINT32_MAX)) {
+    return false;
+  }
   ephem->common.sid.sat = static_cast<uint8_t>(gpsephem->prn);
   ephem->common.sid.code = 0x0;  // 0x0 = GPS_L1CA
   ephem->common.toe.tow = static_cast<uint32_t>(gpsephem->toe);
@@ -686,6 +687,8 @@ void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
   ephem->toc.wn = static_cast<uint16_t>(gpsephem->week);
   ephem->iode = static_cast<uint8_t>(gpsephem->iode1);
   ephem->iodc = static_cast<uint16_t>(gpsephem->iodc);
+
+  return true;
 }
 
 /**
@@ -892,8 +895,10 @@ bool convert_rawimu_to_angular_rate(const BinaryHeader *header,
 
   angular_rate->tow = static_cast<uint32_t>(header->ms);
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  // ignore the data if there is an IMU error or if it is encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
@@ -932,8 +937,10 @@ bool convert_rawimu_to_imu_raw(const BinaryHeader *header,
   imu_raw->tow = static_cast<uint32_t>(header->ms);
   imu_raw->tow_f = 0;
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  // ignore the data if there is an IMU error or if it is encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.h b/c/nov2sbp/src/swiftnav_conversion_helpers.h
index 2714776..dab9425 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.h
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.h
@@ -75,7 +75,7 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b);
  *
  * Everything else is pretty straight forward.
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem);
 
 /**
-- 
2.43.0


From c9cf0daa88187d4452a09d0da3f6bd7e3bac4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 06/97] fix: stamp NovAtel epochs without observations with
 their time

---
 c/nov2sbp/src/send_sbp_obs_messages.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/nov2sbp/src/send_sbp_obs_messages.cc b/c/nov2sbp/src/send_sbp_obs_messages.cc
index 682cb2b..0d94a49 100644
--- a/c/nov2sbp/src/send_sbp_obs_messages.cc
+++ b/c/nov2sbp/src/send_sbp_obs_messages.cc
@@ -192,8 +192,12 @@ void send_sbp_obs_messages(uint8_t n,
   static u8 buff[256];
 
   if ((0 == n) || (nullptr == m) || (nullptr == t)) {
-    gps_time_t t_dummy = GPS_TIME_UNKNOWN;
-    pack_obs_header(&t_dummy, 1, 0, (observation_header_t *)buff);  // NOLINT
+    /* GPS_TIME_UNKNOWN cannot be represented in an observation header */
+    gps_time_t t_dummy = {0, 0};
+    pack_obs_header((nullptr != t) ? t : &t_dummy,
+                    1,
+                    0,
+                    (observation_header_t *)buff);  // NOLINT
     sbp_send_msg(SBP_MSG_OBS, sizeof(observation_header_t), buff);
     return;
   }
-- 
2.43.0


From fd853da6b61c719ff546c7a7fa2ec8d80e2caa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 07/97] fix: NovAtel downward speed beyond the SBP range
 changed sign

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 27bd724..2e86aa7 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -607,7 +607,7 @@ void convert_bestvel_to_vel_ned(const BinaryHeader *header,
                              cos(degrees_to_radians(bestvel->trk_gnd)));
   vel_ned->e = double_to_s32(1000. * bestvel->hor_speed *
                              sin(degrees_to_radians(bestvel->trk_gnd)));
-  vel_ned->d = -double_to_s32(1000. * bestvel->vert_speed);
+  vel_ned->d = double_to_s32(-1000. * bestvel->vert_speed);
   vel_ned->h_accuracy = 0;
   vel_ned->v_accuracy = 0;
   vel_ned->n_sats = 0;
-- 
2.43.0


From 51c47bf7fcaa74ba740310729dcc33eb51ea995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 08/97] fix: MSM cell mask and satellite data written outside
 the message structure

---
 c/librtcm/include/rtcm3/messages.h | 2 +-
 c/librtcm/src/decode.c             | 6 +++++-
 c/librtcm/src/encode.c             | 5 +++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/include/rtcm3/messages.h b/c/librtcm/include/rtcm3/messages.h
index 9178463..59aa698 100644
--- a/c/librtcm/include/rtcm3/messages.h
+++ b/c/librtcm/include/rtcm3/messages.h
@@ -132,7 +132,7 @@ typedef struct {
 
 typedef struct {
   rtcm_msm_header header;
-  rtcm_msm_sat_data sats[RTCM_MAX_SATS];
+  rtcm_msm_sat_data sats[MSM_SATELLITE_MASK_SIZE];
   rtcm_msm_signal_data signals[MSM_MAX_CELLS];
 } rtcm_msm_message;
 
diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 25e6ce3..3db846a 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -247,7 +247,11 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
-  uint8_t cell_mask_size = num_sats * num_sigs;
+  uint16_t cell_mask_size = (uint16_t)num_sats * num_sigs;
+  if (cell_mask_size > MSM_MAX_CELLS) {
+    /* Too large cell mask, most probably a parsing error */
+    return RC_INVALID_MESSAGE;
+  }
 
   for (uint8_t i = 0; i < cell_mask_size; i++) {
     BITSTREAM_DECODE_BOOL(buff, header->cell_mask[i], 1);
diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1acf326..7a93770 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -1075,14 +1075,15 @@ static uint16_t rtcm3_encode_msm_internal(const rtcm_msm_message *msg,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
-  uint8_t cell_mask_size = num_sats * num_sigs;
-  uint8_t num_cells = count_mask_values(cell_mask_size, header->cell_mask);
 
   if (num_sats * num_sigs > MSM_MAX_CELLS) {
     /* Too large cell mask, should already have been handled by caller */
     return 0;
   }
 
+  uint8_t cell_mask_size = num_sats * num_sigs;
+  uint8_t num_cells = count_mask_values(cell_mask_size, header->cell_mask);
+
   /* Header */
   uint16_t bit = rtcm3_encode_msm_header(header, cons, buff);
 
-- 
2.43.0


From 540cbb055c7fafd64dc9047d7b129f899d9619dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 09/97] fix: truncated RTCM station, ephemeris and clock
 messages were accepted

---
 c/librtcm/src/decode.c         | 11 ++++++----
 c/librtcm/src/decode_helpers.h |  8 +++++++
 c/librtcm/src/eph_decode.c     | 38 +++++++++++++++++-----------------
 c/librtcm/src/ssr_decode.c     |  8 +++++--
 4 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 3db846a..41dbbaa 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -216,7 +216,7 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_U16(buff, header->stn_id, 12);
   if (RTCM_CONSTELLATION_GLO == cons) {
     /* skip the day of week, it is handled in gnss_converters */
-    swiftnav_bitstream_remove(buff, 3);
+    BITSTREAM_SKIP(buff, 3);
     /* for GLONASS, the epoch time is the time of day in ms */
     BITSTREAM_DECODE_U32(buff, header->tow_ms, 27);
   } else if (RTCM_CONSTELLATION_BDS == cons) {
@@ -567,7 +567,7 @@ static rtcm3_rc rtcm3_decode_1005_base(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_S64(buff, tmp, 38);
   msg_1005->arp_x = (double)(tmp) / 10000.0;
   BITSTREAM_DECODE_U8(buff, msg_1005->osc_ind, 1);
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   BITSTREAM_DECODE_S64(buff, tmp, 38);
   msg_1005->arp_y = (double)(tmp) / 10000.0;
   BITSTREAM_DECODE_U8(buff, msg_1005->quart_cycle_ind, 2);
@@ -615,7 +615,10 @@ rtcm3_rc rtcm3_decode_1006_bitstream(swiftnav_bitstream_t *buff,
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  rtcm3_rc ret = rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  if (ret != RC_OK) {
+    return ret;
+  }
   uint32_t tmp;
   BITSTREAM_DECODE_U32(buff, tmp, 16);
   msg_1006->ant_height = (double)(tmp) / 10000.0;
@@ -946,7 +949,7 @@ rtcm3_rc rtcm3_decode_1230_bitstream(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_U16(buff, msg_1230->stn_id, 12);
   BITSTREAM_DECODE_U8(buff, msg_1230->bias_indicator, 1);
   /* 3 Reserved bits */
-  swiftnav_bitstream_remove(buff, 3);
+  BITSTREAM_SKIP(buff, 3);
   BITSTREAM_DECODE_U8(buff, msg_1230->fdma_signal_mask, 4);
   if (msg_1230->fdma_signal_mask & 0x08) {
     s32 tmp;
diff --git a/c/librtcm/src/decode_helpers.h b/c/librtcm/src/decode_helpers.h
index 9436cf0..965be5e 100644
--- a/c/librtcm/src/decode_helpers.h
+++ b/c/librtcm/src/decode_helpers.h
@@ -130,6 +130,14 @@
     (field) = decode_s8_temp;                                                  \
   } while (false)
 
+/* skip bits which are not decoded, they still have to be there */
+#define BITSTREAM_SKIP(bitstream, n_bits)                                      \
+  do {                                                                         \
+    if (!swiftnav_bitstream_remove(bitstream, n_bits)) {                       \
+      return RC_INVALID_MESSAGE;                                               \
+    }                                                                          \
+  } while (false)
+
 /* macros for reading rcv/ant descriptor strings */
 #define GET_STR_LEN(TheBuff, TheIdx, TheOutput)         \
   do {                                                  \
diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index 781a114..918e2f6 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -110,7 +110,7 @@ rtcm3_rc rtcm3_decode_qzss_eph_bitstream(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.omegadot, 24);
   BITSTREAM_DECODE_S16(buff, msg_eph->data.kepler.inc_dot, 14);
   /* L2 data bit */
-  swiftnav_bitstream_remove(buff, 2);
+  BITSTREAM_SKIP(buff, 2);
   BITSTREAM_DECODE_U16(buff, msg_eph->wn, 10);
   BITSTREAM_DECODE_U16(buff, msg_eph->ura, 4);
   BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 6);
@@ -140,17 +140,17 @@ rtcm3_rc rtcm3_decode_glo_eph_bitstream(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_U8(buff, msg_eph->sat_id, 6);
   BITSTREAM_DECODE_U8(buff, msg_eph->data.glo.fcn, 5);
   /*alm health ind = */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   /*alm health ind valid = */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   BITSTREAM_DECODE_U32(buff, msg_eph->fit_interval, 2);
   /* tk */
-  swiftnav_bitstream_remove(buff, 12);
+  BITSTREAM_SKIP(buff, 12);
   /* most significant bit of Bn */
   uint8_t bn_msb;
   BITSTREAM_DECODE_U8(buff, bn_msb, 1);
   /* P2 */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   BITSTREAM_DECODE_U8(buff, msg_eph->data.glo.t_b, 7);
   rtcm3_rc ret =
       rtcm_get_sign_magnitude_bitstream(buff, 24, &msg_eph->data.glo.vel[0]);
@@ -190,7 +190,7 @@ rtcm3_rc rtcm3_decode_glo_eph_bitstream(swiftnav_bitstream_t *buff,
     return ret;
   }
   /* P3 */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   s32 gamma;
   ret = rtcm_get_sign_magnitude_bitstream(buff, 11, &gamma);
   if (ret != RC_OK) {
@@ -198,7 +198,7 @@ rtcm3_rc rtcm3_decode_glo_eph_bitstream(swiftnav_bitstream_t *buff,
   }
   msg_eph->data.glo.gamma = (s16)gamma;
   /* P */
-  swiftnav_bitstream_remove(buff, 2);
+  BITSTREAM_SKIP(buff, 2);
   /* health flag in string 3 */
   uint8_t mln3;
   BITSTREAM_DECODE_U8(buff, mln3, 1);
@@ -213,30 +213,30 @@ rtcm3_rc rtcm3_decode_glo_eph_bitstream(swiftnav_bitstream_t *buff,
   }
   msg_eph->data.glo.d_tau = (uint8_t)d_tau;
   /* EN */
-  swiftnav_bitstream_remove(buff, 5);
+  BITSTREAM_SKIP(buff, 5);
   /* P4 */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   BITSTREAM_DECODE_U16(buff, msg_eph->ura, 4);
   /* NT */
-  swiftnav_bitstream_remove(buff, 11);
+  BITSTREAM_SKIP(buff, 11);
   /* M */
-  swiftnav_bitstream_remove(buff, 2);
+  BITSTREAM_SKIP(buff, 2);
   uint32_t additional_data;
   BITSTREAM_DECODE_U32(buff, additional_data, 1);
   uint8_t mln5 = 0;
   if (additional_data) {
     /* NA  */
-    swiftnav_bitstream_remove(buff, 11);
+    BITSTREAM_SKIP(buff, 11);
     /* Tc */
-    swiftnav_bitstream_remove(buff, 32);
+    BITSTREAM_SKIP(buff, 32);
     /* N4 */
-    swiftnav_bitstream_remove(buff, 5);
+    BITSTREAM_SKIP(buff, 5);
     /* Tgps */
-    swiftnav_bitstream_remove(buff, 22);
+    BITSTREAM_SKIP(buff, 22);
     /* health flag in string 5 */
     BITSTREAM_DECODE_U8(buff, mln5, 1);
     /* reserved */
-    swiftnav_bitstream_remove(buff, 7);
+    BITSTREAM_SKIP(buff, 7);
   }
   msg_eph->health_bits = bn_msb | mln3 | mln5;
   return RC_OK;
@@ -301,7 +301,7 @@ rtcm3_rc rtcm3_decode_bds_eph_bitstream(swiftnav_bitstream_t *buff,
  * \param msg_eph RTCM message struct
  * \return bit position in the RTCM frame
  */
-static uint16_t rtcm3_decode_gal_eph_common(swiftnav_bitstream_t *buff,
+static rtcm3_rc rtcm3_decode_gal_eph_common(swiftnav_bitstream_t *buff,
                                             rtcm_msg_eph *msg_eph) {
   assert(msg_eph);
   BITSTREAM_DECODE_U8(buff, msg_eph->sat_id, 6);
@@ -359,7 +359,7 @@ rtcm3_rc rtcm3_decode_gal_eph_inav_bitstream(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[1], 10);
   BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 6);
   /* reserved */
-  swiftnav_bitstream_remove(buff, 2);
+  BITSTREAM_SKIP(buff, 2);
 
   return RC_OK;
 }
@@ -392,7 +392,7 @@ rtcm3_rc rtcm3_decode_gal_eph_fnav_bitstream(swiftnav_bitstream_t *buff,
   msg_eph->data.kepler.tgd.gal_s[1] = 0;
   BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 3);
   /* reserved */
-  swiftnav_bitstream_remove(buff, 7);
+  BITSTREAM_SKIP(buff, 7);
 
   return RC_OK;
 }
diff --git a/c/librtcm/src/ssr_decode.c b/c/librtcm/src/ssr_decode.c
index e0e2566..802a9a7 100644
--- a/c/librtcm/src/ssr_decode.c
+++ b/c/librtcm/src/ssr_decode.c
@@ -281,7 +281,9 @@ rtcm3_rc rtcm3_decode_clock_bitstream(swiftnav_bitstream_t *buff,
     }
 
     clock->sat_id = sat_id;
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
@@ -323,7 +325,9 @@ rtcm3_rc rtcm3_decode_orbit_clock_bitstream(
                        buff, msg_orbit_clock->header.constellation, orbit))) {
       return RC_INVALID_MESSAGE;
     }
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
-- 
2.43.0


From 4525bb5f29190fd52f498fd8206217697625ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 10/97] fix: navigation data frames were read past the end of
 the RTCM payload

---
 c/gnss_converters/src/rtcm3_sbp.c |  2 +-
 c/librtcm/include/rtcm3/decode.h  | 10 +++++++-
 c/librtcm/src/decode.c            | 42 ++++++++++++-------------------
 3 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 067487d..78e3558 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -613,7 +613,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     }
     case 4075: {
       rtcm_msg_ndf ndf_msg;
-      if (RC_OK == rtcm3_decode_4075(payload, &ndf_msg)) {
+      if (RC_OK == rtcm3_decode_4075_bitstream(&bitstream, &ndf_msg)) {
         handle_ndf_frame(&ndf_msg, state);
       }
       break;
diff --git a/c/librtcm/include/rtcm3/decode.h b/c/librtcm/include/rtcm3/decode.h
index f02340a..9f23f1d 100644
--- a/c/librtcm/include/rtcm3/decode.h
+++ b/c/librtcm/include/rtcm3/decode.h
@@ -58,7 +58,8 @@ rtcm3_rc rtcm3_decode_msm7_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msm_message *msg);
 rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msg_swift_proprietary *msg);
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg);
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg);
 
 double rtcm3_decode_lock_time(uint8_t lock);
 
@@ -191,6 +192,13 @@ static inline rtcm3_rc rtcm3_decode_4062(const uint8_t buff[],
   return rtcm3_decode_4062_bitstream(&bitstream, msg);
 }
 
+static inline rtcm3_rc rtcm3_decode_4075(const uint8_t buff[],
+                                         rtcm_msg_ndf *msg) {
+  swiftnav_bitstream_t bitstream;
+  swiftnav_bitstream_init(&bitstream, buff, UINT32_MAX);
+  return rtcm3_decode_4075_bitstream(&bitstream, msg);
+}
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 41dbbaa..832e87b 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1489,21 +1489,19 @@ rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
  *          - RC_MESSAGE_TYPE_MISMATCH : Message type mismatch
  *          - RC_INVALID_MESSAGE : Nonzero reserved bits (invalid format)
  */
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg) {
   assert(msg);
-  uint16_t bit = 0;
-  msg->msg_type = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->msg_type, 12);
 
   if (msg->msg_type != 4075) { /* Unexpected message type. */
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  msg->stn_id = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->stn_id, 12);
 
-  uint8_t reserved_bits = rtcm_getbitu(buff, bit, 2);
-  bit += 2;
+  uint8_t reserved_bits;
+  BITSTREAM_DECODE_U8(buff, reserved_bits, 2);
 
   /* These bits are reserved for future use, if they aren't 0 it must be a
      new format we don't know how to handle. */
@@ -1511,34 +1509,26 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     return RC_INVALID_MESSAGE;
   }
 
-  msg->frame_count = rtcm_getbitu(buff, bit, 6);
-  bit += 6;
+  BITSTREAM_DECODE_U8(buff, msg->frame_count, 6);
 
   if (msg->frame_count > MAX_NDF_FRAMES) {
     return RC_INVALID_MESSAGE;
   }
 
   for (uint8_t i = 0; i < msg->frame_count; i++) {
-    msg->frames[i].sat_sys = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_sys, 4);
 
-    msg->frames[i].sat_num = rtcm_getbitu(buff, bit, 6);
-    bit += 6;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_num, 6);
 
-    msg->frames[i].ext_sat_info = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].ext_sat_info, 4);
 
-    msg->frames[i].sig_type = rtcm_getbitu(buff, bit, 5);
-    bit += 5;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sig_type, 5);
 
-    msg->frames[i].epoch_time = rtcm_getbitu(buff, bit, 30);
-    bit += 30;
+    BITSTREAM_DECODE_U32(buff, msg->frames[i].epoch_time, 30);
 
-    msg->frames[i].continuous_tracking = rtcm_getbitu(buff, bit, 1);
-    bit += 1;
+    BITSTREAM_DECODE_BOOL(buff, msg->frames[i].continuous_tracking, 1);
 
-    msg->frames[i].frame_data_size_bits = rtcm_getbitu(buff, bit, 12);
-    bit += 12;
+    BITSTREAM_DECODE_U16(buff, msg->frames[i].frame_data_size_bits, 12);
 
     uint16_t remaining_bits = msg->frames[i].frame_data_size_bits;
     if (remaining_bits > MAX_NDF_FRAME_SIZE_BITS) {
@@ -1548,8 +1538,8 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     uint16_t j = 0;
     while (remaining_bits > 0) {
       uint32_t next_bits = remaining_bits < 32 ? remaining_bits : 32;
-      msg->frames[i].frame_data[j++] = rtcm_getbitu(buff, bit, next_bits);
-      bit += next_bits;
+      BITSTREAM_DECODE_U32(buff, msg->frames[i].frame_data[j], next_bits);
+      j++;
       remaining_bits -= next_bits;
     }
   }
-- 
2.43.0


From 021a9433df181fa83d2bc52176f880e0354b3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 11/97] fix: the invalid L1 pseudorange marker of RTCM
 observations was not recognised or written

---
 c/librtcm/include/rtcm3/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/include/rtcm3/constants.h b/c/librtcm/include/rtcm3/constants.h
index 8f9b33f..d1ba5f6 100644
--- a/c/librtcm/include/rtcm3/constants.h
+++ b/c/librtcm/include/rtcm3/constants.h
@@ -17,7 +17,7 @@
 #define PRUNIT_GLO 599584.916 /**< RTCM v3 Unit of GLO Pseudorange (m) */
 #define RTCM_MAX_SATS 32
 #define CP_INVALID 0xFFF80000      /* Unsigned bit pattern 0x80000 */
-#define PR_L1_INVALID 0xFFF80000   /* Unsigned bit pattern 0x80000 */
+#define PR_L1_INVALID 0x80000      /* Unsigned bit pattern 0x80000 */
 #define PR_L2_INVALID 0xFFFFE000   /* Unsigned bit pattern 0x20000 */
 #define MSM_MAX_CELLS 64           /* Maximum number of cells in MSM message */
 #define MSM_SATELLITE_MASK_SIZE 64 /* Maximum size of MSM satellite mask */
-- 
2.43.0


From c407bf45b30f3f2e7f20da61e490f9b7b9e48934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 12/97] fix: RTCM 1019 encoder exchanged the clock and
 ephemeris reference times

---
 c/librtcm/src/eph_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_encode.c b/c/librtcm/src/eph_encode.c
index 2e159a1..891a603 100644
--- a/c/librtcm/src/eph_encode.c
+++ b/c/librtcm/src/eph_encode.c
@@ -32,7 +32,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 14;
   rtcm_setbitu(buff, bit, 8, msg_1019->data.kepler.iode);
   bit += 8;
-  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
+  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
   bit += 16;
   rtcm_setbits(buff, bit, 8, msg_1019->data.kepler.af2);
   bit += 8;
@@ -56,7 +56,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 16;
   rtcm_setbitu(buff, bit, 32, msg_1019->data.kepler.sqrta);
   bit += 32;
-  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
+  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
   bit += 16;
   rtcm_setbits(buff, bit, 16, msg_1019->data.kepler.cic);
   bit += 16;
-- 
2.43.0


From 863357ee734b527385bc85ff0015f9f20eed8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 13/97] fix: RTCM 1230 encoder lost the code-phase bias
 indicator

---
 c/librtcm/src/encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 7a93770..46737e7 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -819,7 +819,7 @@ uint16_t rtcm3_encode_1230(const rtcm_msg_1230 *msg_1230, uint8_t buff[]) {
   bit += 12;
   rtcm_setbitu(buff, bit, 12, msg_1230->stn_id);
   bit += 12;
-  rtcm_setbitu(buff, bit, 8, msg_1230->bias_indicator);
+  rtcm_setbitu(buff, bit, 1, msg_1230->bias_indicator);
   bit += 1;
   /* 3 reserved bits */
   rtcm_setbitu(buff, bit, 3, 0);
-- 
2.43.0


From 5e373e04b5345075b2ae54e1ed9e3d8f9aa0bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 14/97] fix: Galileo ephemeris health bits were sign extended

---
 c/librtcm/src/eph_decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index 918e2f6..ac6fd99 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -357,7 +357,7 @@ rtcm3_rc rtcm3_decode_gal_eph_inav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[1], 10);
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 6);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 6);
   /* reserved */
   BITSTREAM_SKIP(buff, 2);
 
@@ -390,7 +390,7 @@ rtcm3_rc rtcm3_decode_gal_eph_fnav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   msg_eph->data.kepler.tgd.gal_s[1] = 0;
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 3);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 3);
   /* reserved */
   BITSTREAM_SKIP(buff, 7);
 
-- 
2.43.0


From fe7213a283b7bca042dfcc70455f985354d84b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 15/97] fix: MSM rough range just below a millisecond was
 encoded one millisecond short

---
 c/librtcm/src/encode.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 46737e7..d3c19c3 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -920,7 +920,10 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   /* number of integer milliseconds, DF397 */
   uint8_t integer_ms[num_sats];
   for (uint8_t i = 0; i < num_sats; i++) {
-    integer_ms[i] = (uint8_t)floor(msg->sats[i].rough_range_ms);
+    /* round to the resolution of the modulo part first, so that the modulo part
+     * cannot reach a whole millisecond */
+    rough_range_ms[i] = round(1024 * msg->sats[i].rough_range_ms) / 1024;
+    integer_ms[i] = (uint8_t)floor(rough_range_ms[i]);
     rtcm_setbitu(buff, *bit, 8, integer_ms[i]);
     *bit += 8;
   }
@@ -933,13 +936,11 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
 
   /* rough range modulo 1 ms, DF398 */
   for (uint8_t i = 0; i < num_sats; i++) {
-    double pr = msg->sats[i].rough_range_ms;
     /* remove integer ms part */
-    double range_modulo_ms = pr - integer_ms[i];
+    double range_modulo_ms = rough_range_ms[i] - integer_ms[i];
     uint16_t range_modulo_encoded = (uint16_t)round(1024 * range_modulo_ms);
     rtcm_setbitu(buff, *bit, 10, range_modulo_encoded);
     *bit += 10;
-    rough_range_ms[i] = integer_ms[i] + (double)range_modulo_encoded / 1024;
   }
 
   /* range rate, m/s, DF399*/
-- 
2.43.0


From c5332ae4d44e83a2dff1a4f0ac548786d67a7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 16/97] fix: legacy RTCM observation messages with 32
 satellites announced none

---
 c/librtcm/src/encode.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index d3c19c3..0c272ae 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -385,8 +385,8 @@ uint16_t rtcm3_encode_1001(const rtcm_obs_message *msg_1001, uint8_t buff[]) {
                              buff,
                              &bit);
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_SATS - 1) {
+        /* the satellite count field holds 5 bits */
         break;
       }
     }
@@ -439,8 +439,8 @@ uint16_t rtcm3_encode_1002(const rtcm_obs_message *msg_1002, uint8_t buff[]) {
                    (uint8_t)round(msg_1002->sats[i].obs[L1_FREQ].cnr * 4.0));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_SATS - 1) {
+        /* the satellite count field holds 5 bits */
         break;
       }
     }
@@ -475,8 +475,8 @@ uint16_t rtcm3_encode_1003(const rtcm_obs_message *msg_1003, uint8_t buff[]) {
                              buff,
                              &bit);
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_SATS - 1) {
+        /* the satellite count field holds 5 bits */
         break;
       }
     }
@@ -527,8 +527,8 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
                    (uint8_t)round(msg_1004->sats[i].obs[L2_FREQ].cnr * 4.0));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_SATS - 1) {
+        /* the satellite count field holds 5 bits */
         break;
       }
     }
@@ -669,8 +669,8 @@ uint16_t rtcm3_encode_1010(const rtcm_obs_message *msg_1010, uint8_t buff[]) {
           buff, bit, 8, (uint8_t)round(sat_obs->obs[L1_FREQ].cnr * 4.0));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_SATS - 1) {
+        /* the satellite count field holds 5 bits */
         break;
       }
     }
@@ -719,8 +719,8 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
           buff, bit, 8, (uint8_t)round(sat_obs->obs[L2_FREQ].cnr * 4.0));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_SATS - 1) {
+        /* the satellite count field holds 5 bits */
         break;
       }
     }
-- 
2.43.0


From cdf3e3ce383e3268a968d87b72340edce25dc8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 17/97] fix: L2 pseudorange difference beyond its RTCM field
 was sent as a wrong range

---
 c/librtcm/src/encode.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 0c272ae..672a020 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -16,6 +16,7 @@
 #include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "rtcm3/bits.h"
@@ -106,6 +107,12 @@ uint8_t rtcm3_encode_lock_time(double time) {
   return 15;
 }
 
+/* L2 Pseudorange – L1 Pseudorange (DF017, DF047): a difference that does not
+ * fit the 14 bit field is sent as invalid */
+static int32_t encode_diff_pseudorange(int32_t pr_diff) {
+  return abs(pr_diff) <= 8191 ? pr_diff : (int32_t)PR_L2_INVALID;
+}
+
 /* Encode PhaseRange – L1 Pseudorange (DF012, DF018 ,DF042, DF048) */
 static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   double phase_unit = (GPS_C / freq) / 0.0005;
@@ -162,7 +169,7 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
                  *bit,
                  14,
                  freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
+                     ? encode_diff_pseudorange((int32_t)pr - (int32_t)calc_l1_pr)
                      : (int32_t)PR_L2_INVALID);
     *bit += 14;
   }
@@ -224,7 +231,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
                  *bit,
                  14,
                  freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
+                     ? encode_diff_pseudorange((int32_t)pr - (int32_t)calc_l1_pr)
                      : (int32_t)PR_L2_INVALID);
     *bit += 14;
   }
-- 
2.43.0


From a10afa052904e547b2b3535a604ced2db1a69216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 18/97] fix: legacy RTCM encoders sent a signal strength that
 was marked invalid

---
 c/librtcm/src/encode.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 672a020..1b4300d 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -107,6 +107,13 @@ uint8_t rtcm3_encode_lock_time(double time) {
   return 15;
 }
 
+/* CNR (DF015, DF020, DF045, DF050), 0 when it is not available */
+static uint8_t encode_cnr(const rtcm_freq_data *freq_data) {
+  return freq_data->flags.fields.valid_cnr
+             ? (uint8_t)round(freq_data->cnr * 4.0)
+             : 0;
+}
+
 /* L2 Pseudorange – L1 Pseudorange (DF017, DF047): a difference that does not
  * fit the 14 bit field is sent as invalid */
 static int32_t encode_diff_pseudorange(int32_t pr_diff) {
@@ -440,10 +447,7 @@ uint16_t rtcm3_encode_1002(const rtcm_obs_message *msg_1002, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 8, amb);
       bit += 8;
-      rtcm_setbitu(buff,
-                   bit,
-                   8,
-                   (uint8_t)round(msg_1002->sats[i].obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1002->sats[i].obs[L1_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_SATS - 1) {
@@ -517,10 +521,7 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 8, amb);
       bit += 8;
-      rtcm_setbitu(buff,
-                   bit,
-                   8,
-                   (uint8_t)round(msg_1004->sats[i].obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1004->sats[i].obs[L1_FREQ]));
       bit += 8;
 
       encode_basic_freq_data(&msg_1004->sats[i].obs[L2_FREQ],
@@ -528,10 +529,7 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
                              &msg_1004->sats[i].obs[L1_FREQ].pseudorange,
                              buff,
                              &bit);
-      rtcm_setbitu(buff,
-                   bit,
-                   8,
-                   (uint8_t)round(msg_1004->sats[i].obs[L2_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1004->sats[i].obs[L2_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_SATS - 1) {
@@ -672,8 +670,7 @@ uint16_t rtcm3_encode_1010(const rtcm_obs_message *msg_1010, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 7, amb);
       bit += 7;
-      rtcm_setbitu(
-          buff, bit, 8, (uint8_t)round(sat_obs->obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L1_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_SATS - 1) {
@@ -712,8 +709,7 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 7, amb);
       bit += 7;
-      rtcm_setbitu(
-          buff, bit, 8, (uint8_t)round(sat_obs->obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L1_FREQ]));
       bit += 8;
 
       encode_basic_glo_freq_data(&sat_obs->obs[L2_FREQ],
@@ -722,8 +718,7 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
                                  sat_obs->fcn,
                                  buff,
                                  &bit);
-      rtcm_setbitu(
-          buff, bit, 8, (uint8_t)round(sat_obs->obs[L2_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L2_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_SATS - 1) {
-- 
2.43.0


From d3afb6c5e9a2c3374155dbf0517f883cd01f0427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 19/97] fix: phase far from the pseudorange was truncated
 before it was rolled over

---
 c/librtcm/src/encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1b4300d..4b0cc89 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -123,7 +123,7 @@ static int32_t encode_diff_pseudorange(int32_t pr_diff) {
 /* Encode PhaseRange – L1 Pseudorange (DF012, DF018 ,DF042, DF048) */
 static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   double phase_unit = (GPS_C / freq) / 0.0005;
-  int32_t ppr = lround(cp_pr * phase_unit);
+  int64_t ppr = llround(cp_pr * phase_unit);
 
   /* From specification: "Certain ionospheric conditions might cause the GPS
    * L1 Phaserange – L1 Pseudorange to diverge over time across the range
@@ -134,13 +134,13 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   if (ppr <= -C_2P19) {
     /* add multiples of 1500 cycles */
     cp_pr += 1500 * ceil((-C_2P19 / phase_unit - cp_pr) / 1500);
-    ppr = lround(cp_pr * phase_unit);
+    ppr = llround(cp_pr * phase_unit);
   } else if (ppr >= C_2P19) {
     /* substract multiples of 1500 cycles */
     cp_pr -= 1500 * ceil((cp_pr - C_2P19 / phase_unit) / 1500);
-    ppr = lround(cp_pr * phase_unit);
+    ppr = llround(cp_pr * phase_unit);
   }
-  return ppr;
+  return (int32_t)ppr;
 }
 
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
-- 
2.43.0


From 37d2df39d81032ec812facae405fab4d46c6c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 20/97] fix: MSM range rate beyond its field was sent as a
 wrong rate

---
 c/librtcm/src/encode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 4b0cc89..b02c4fa 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -948,7 +948,10 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   /* range rate, m/s, DF399*/
   if (MSM5 == msm_type) {
     for (uint8_t i = 0; i < num_sats; i++) {
-      int16_t range_rate = (int16_t)msg->sats[i].rough_range_rate_m_s;
+      double rough_rate = msg->sats[i].rough_range_rate_m_s;
+      int16_t range_rate = fabs(rough_rate) < -MSM_ROUGH_RATE_INVALID
+                               ? (int16_t)rough_rate
+                               : MSM_ROUGH_RATE_INVALID;
       rtcm_setbits(buff, *bit, 14, range_rate);
       *bit += 14;
       rough_rate_m_s[i] = range_rate;
-- 
2.43.0


From 79c1eb12d3971d105061e78e718971224b9c2a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 21/97] fix: legacy RTCM range beyond its ambiguity field was
 sent as a wrong range

---
 c/librtcm/src/encode.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index b02c4fa..db9f1e0 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -114,6 +114,15 @@ static uint8_t encode_cnr(const rtcm_freq_data *freq_data) {
              : 0;
 }
 
+/* An L1 observation can be sent when its range and phase are valid and the
+ * range fits the integer ambiguity field (DF014, DF044) */
+static bool l1_encodable(const rtcm_freq_data *l1,
+                         double pr_unit,
+                         uint16_t max_amb) {
+  return l1->flags.fields.valid_pr && l1->flags.fields.valid_cp &&
+         l1->pseudorange >= 0 && l1->pseudorange < (max_amb + 1) * pr_unit;
+}
+
 /* L2 Pseudorange – L1 Pseudorange (DF017, DF047): a difference that does not
  * fit the 14 bit field is sent as invalid */
 static int32_t encode_diff_pseudorange(int32_t pr_diff) {
@@ -389,8 +398,7 @@ uint16_t rtcm3_encode_1001(const rtcm_obs_message *msg_1001, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1001->header.n_sat; i++) {
-    if (msg_1001->sats[i].obs[L1_FREQ].flags.fields.valid_pr &&
-        msg_1001->sats[i].obs[L1_FREQ].flags.fields.valid_cp) {
+    if (l1_encodable(&msg_1001->sats[i].obs[L1_FREQ], PRUNIT_GPS, 255)) {
       rtcm_setbitu(buff, bit, 6, msg_1001->sats[i].svId);
       bit += 6;
       encode_basic_freq_data(&msg_1001->sats[i].obs[L1_FREQ],
@@ -431,8 +439,7 @@ uint16_t rtcm3_encode_1002(const rtcm_obs_message *msg_1002, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1002->header.n_sat; i++) {
-    if (msg_1002->sats[i].obs[L1_FREQ].flags.fields.valid_pr &&
-        msg_1002->sats[i].obs[L1_FREQ].flags.fields.valid_cp) {
+    if (l1_encodable(&msg_1002->sats[i].obs[L1_FREQ], PRUNIT_GPS, 255)) {
       rtcm_setbitu(buff, bit, 6, msg_1002->sats[i].svId);
       bit += 6;
       encode_basic_freq_data(&msg_1002->sats[i].obs[L1_FREQ],
@@ -469,9 +476,8 @@ uint16_t rtcm3_encode_1003(const rtcm_obs_message *msg_1003, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1003->header.n_sat; i++) {
-    flag_bf l1_flags = msg_1003->sats[i].obs[L1_FREQ].flags;
     flag_bf l2_flags = msg_1003->sats[i].obs[L2_FREQ].flags;
-    if (l1_flags.fields.valid_pr && l1_flags.fields.valid_cp &&
+    if (l1_encodable(&msg_1003->sats[i].obs[L1_FREQ], PRUNIT_GPS, 255) &&
         l2_flags.fields.valid_pr && l2_flags.fields.valid_cp) {
       rtcm_setbitu(buff, bit, 6, msg_1003->sats[i].svId);
       bit += 6;
@@ -505,8 +511,7 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1004->header.n_sat; i++) {
-    flag_bf l1_flags = msg_1004->sats[i].obs[L1_FREQ].flags;
-    if (l1_flags.fields.valid_pr && l1_flags.fields.valid_cp) {
+    if (l1_encodable(&msg_1004->sats[i].obs[L1_FREQ], PRUNIT_GPS, 255)) {
       rtcm_setbitu(buff, bit, 6, msg_1004->sats[i].svId);
       bit += 6;
       encode_basic_freq_data(&msg_1004->sats[i].obs[L1_FREQ],
@@ -653,8 +658,7 @@ uint16_t rtcm3_encode_1010(const rtcm_obs_message *msg_1010, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1010->header.n_sat; i++) {
-    if (msg_1010->sats[i].obs[L1_FREQ].flags.fields.valid_pr &&
-        msg_1010->sats[i].obs[L1_FREQ].flags.fields.valid_cp) {
+    if (l1_encodable(&msg_1010->sats[i].obs[L1_FREQ], PRUNIT_GLO, 127)) {
       const rtcm_sat_data *sat_obs = &msg_1010->sats[i];
       rtcm_setbitu(buff, bit, 6, sat_obs->svId);
       bit += 6;
@@ -692,8 +696,7 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1012->header.n_sat; i++) {
-    flag_bf l1_flags = msg_1012->sats[i].obs[L1_FREQ].flags;
-    if (l1_flags.fields.valid_pr && l1_flags.fields.valid_cp) {
+    if (l1_encodable(&msg_1012->sats[i].obs[L1_FREQ], PRUNIT_GLO, 127)) {
       const rtcm_sat_data *sat_obs = &msg_1012->sats[i];
       rtcm_setbitu(buff, bit, 6, sat_obs->svId);
       bit += 6;
-- 
2.43.0


From 7584ad633ff4366e2555a0a744453c1dbc92e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 22/97] fix: MSM rough range of 255 ms or more was sent as a
 short range

---
 c/librtcm/src/encode.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index db9f1e0..8b6a907 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -928,6 +928,9 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
     /* round to the resolution of the modulo part first, so that the modulo part
      * cannot reach a whole millisecond */
     rough_range_ms[i] = round(1024 * msg->sats[i].rough_range_ms) / 1024;
+    if (rough_range_ms[i] < 0 || rough_range_ms[i] >= MSM_ROUGH_RANGE_INVALID) {
+      rough_range_ms[i] = MSM_ROUGH_RANGE_INVALID;
+    }
     integer_ms[i] = (uint8_t)floor(rough_range_ms[i]);
     rtcm_setbitu(buff, *bit, 8, integer_ms[i]);
     *bit += 8;
-- 
2.43.0


From 45978da5b9d4f75b305debcfb4f91220fdf877f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 23/97] fix: signals without an MSM position were written
 outside the MSM signal mask

---
 c/gnss_converters/src/rtcm3_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index ec2a750..ec83d93 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -634,6 +634,10 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
 
   u8 sat_id = prn_to_msm_sat_id(prn, cons);
   u8 signal_id = code_to_msm_signal_id(code, cons);
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE) {
+    msm_add_to_header_err(code, prn, "unsupported code");
+    return false;
+  }
 
   u8 num_sats = msm_get_num_satellites(header);
   u8 num_signals = msm_get_num_signals(header);
@@ -687,7 +691,7 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   }
 
   u8 signal_id = code_to_msm_signal_id(code, cons);
-  if (!header->signal_mask[signal_id]) {
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE || !header->signal_mask[signal_id]) {
     msm_add_to_header_err(code, prn, "not in signal mask");
     return false;
   }
-- 
2.43.0


From b40fd334210a9b9fb9a9cdcd09e0b3cfcc146701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 24/97] fix: a signal refused for lack of MSM cells left its
 satellite in the satellite mask

---
 c/gnss_converters/src/rtcm3_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index ec83d93..890ed04 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -645,7 +645,6 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
   /* add a new satellite to the mask only if it fits in the cell mask */
   if (!header->satellite_mask[sat_id]) {
     if ((num_sats + 1) * num_signals <= MSM_MAX_CELLS) {
-      header->satellite_mask[sat_id] = true;
       num_sats++;
     } else {
       msm_add_to_header_err(
@@ -657,13 +656,15 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
   /* add a new signal to the mask only if it fits in the cell mask */
   if (!header->signal_mask[signal_id]) {
     if (num_sats * (num_signals + 1) <= MSM_MAX_CELLS) {
-      header->signal_mask[signal_id] = true;
       num_signals++;
     } else {
       msm_add_to_header_err(code, prn, "cell size limit for signals reached");
       return false;
     }
   }
+
+  header->satellite_mask[sat_id] = true;
+  header->signal_mask[signal_id] = true;
   return true;
 }
 
-- 
2.43.0


From 2ac2e05559569b7628edb937067dde549b214450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 25/97] fix: negative, unknown or very large accuracies were
 sent as small accuracy indices

---
 c/gnss_converters/src/rtcm3_utils.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index 890ed04..756ad7e 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -736,6 +736,23 @@ float convert_ura_to_uri(uint8_t ura) {
   return -1;
 }
 
+/* Index of an accuracy that has no entry of its own, limited to the four bits
+ * of the field. Values that are no accuracy at all get the index that promises
+ * none. */
+static uint8_t uri_to_nearby_ura(float uri) {
+  const uint8_t max_ura = 15;
+  if (!(uri >= 0.0f)) {
+    return max_ura;
+  }
+  if (uri <= 0.25f) {
+    return 0;
+  }
+  if (uri >= 8192.0f) {
+    return max_ura;
+  }
+  return (uint8_t)(log2f(uri) + 2.0);
+}
+
 uint8_t convert_gps_uri_to_ura(float uri) {
   /* Convert between RTCM/GPS URA ("User Range Accuracy") number in
    * meters to the encoded index.
@@ -760,7 +777,7 @@ uint8_t convert_gps_uri_to_ura(float uri) {
   } else if (fabsf(uri - 6144.0f) < FLOAT_EQUALITY_EPS) {
     ura = 15;
   } else {
-    ura = (uint8_t)(log2f(uri) + 2.0);
+    ura = uri_to_nearby_ura(uri);
   }
   return ura;
 }
@@ -805,7 +822,7 @@ uint8_t convert_glo_uri_to_ura(float uri) {
   } else if (fabsf(uri - 6144.0f) < FLOAT_EQUALITY_EPS) {
     ura = 15;
   } else {
-    ura = (uint8_t)(log2f(uri) + 2.0);
+    ura = uri_to_nearby_ura(uri);
   }
   return ura;
 }
@@ -850,7 +867,7 @@ uint8_t convert_bds_uri_to_ura(float uri) {
   } else if (fabsf(uri - 8196.0f) < FLOAT_EQUALITY_EPS) {
     ura = 15;
   } else {
-    ura = (uint8_t)(log2f(uri) + 2.0);
+    ura = uri_to_nearby_ura(uri);
   }
   return ura;
 }
-- 
2.43.0


From 07adb5ff7b6dc3b9e489f9ce97267d4dcc3380d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 26/97] fix: rtcm2sbp_init left the SSR cache uninitialised

---
 c/gnss_converters/src/rtcm3_sbp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 78e3558..7522b1c 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -122,6 +122,9 @@ void rtcm2sbp_init(struct rtcm3_sbp_state *state,
   memset(&state->obs_time, 0, sizeof(state->obs_time));
   state->obs_to_send = 0;
 
+  memset(state->orbit_clock_cache, 0, sizeof(state->orbit_clock_cache));
+  memset(&state->eph_data, 0, sizeof(state->eph_data));
+
   rtcm_init_logging(&rtcm_log_callback_fn, state);
 
   sbp_state_init(&state->sbp_state);
-- 
2.43.0


From 931921cbe9679044e72b49d67865c507df267635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 27/97] fix: an MSM range rate beyond the SBP Doppler field was
 sent as a wrong valid Doppler

---
 c/gnss_converters/src/rtcm3_sbp.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 7522b1c..90f090e 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1632,15 +1632,18 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
           if (data->flags.fields.valid_dop && freq_valid) {
             /* flip Doppler sign to Piksi sign convention */
             double doppler_Hz = -data->range_rate_m_s * freq / GPS_C;
-            sbp_freq->D.i = (s16)floor(doppler_Hz);
-            u16 frac_part = (u16)rint((doppler_Hz - (double)sbp_freq->D.i) *
-                                      MSG_OBS_DF_MULTIPLIER);
-            if (256 == frac_part) {
-              frac_part = 0;
-              sbp_freq->D.i += 1;
+            /* leave out values beyond the range of the SBP field */
+            if (doppler_Hz >= INT16_MIN && doppler_Hz < INT16_MAX) {
+              sbp_freq->D.i = (s16)floor(doppler_Hz);
+              u16 frac_part = (u16)rint((doppler_Hz - (double)sbp_freq->D.i) *
+                                        MSG_OBS_DF_MULTIPLIER);
+              if (256 == frac_part) {
+                frac_part = 0;
+                sbp_freq->D.i += 1;
+              }
+              sbp_freq->D.f = (u8)frac_part;
+              sbp_freq->flags |= MSG_OBS_FLAGS_DOPPLER_VALID;
             }
-            sbp_freq->D.f = (u8)frac_part;
-            sbp_freq->flags |= MSG_OBS_FLAGS_DOPPLER_VALID;
           }
 
           if (verbosity_level > VERB_HIGH) {
-- 
2.43.0


From a09d65cd3348fb88abaf8fdeeddc3c53c4602785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 28/97] fix: a negative pseudorange was sent as a huge valid
 one

---
 c/gnss_converters/src/rtcm3_sbp.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 90f090e..bdba2df 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -864,8 +864,10 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
         if (rtcm_freq->flags.fields.valid_pr == 1) {
           double pseudorange = rtcm_freq->pseudorange;
           pseudorange += sbp_signal_biases[sbp_freq->sid.code];
-          sbp_freq->P = (u32)rint(pseudorange * MSG_OBS_P_MULTIPLIER);
-          sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
+          if (pseudorange >= 0) {
+            sbp_freq->P = (u32)rint(pseudorange * MSG_OBS_P_MULTIPLIER);
+            sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
+          }
         }
         if (rtcm_freq->flags.fields.valid_cp == 1) {
           sbp_freq->L.i = (s32)floor(rtcm_freq->carrier_phase);
@@ -1598,8 +1600,10 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
             double pseudorange_m = data->pseudorange_ms * GPS_C / 1000;
             pseudorange_m += sbp_signal_biases[sbp_freq->sid.code];
             pseudorange_m += code_bias_m;
-            sbp_freq->P = (u32)rint(pseudorange_m * MSG_OBS_P_MULTIPLIER);
-            sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
+            if (pseudorange_m >= 0) {
+              sbp_freq->P = (u32)rint(pseudorange_m * MSG_OBS_P_MULTIPLIER);
+              sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
+            }
           }
           if (data->flags.fields.valid_cp && freq_valid) {
             double carrier_phase_cyc = data->carrier_phase_ms * freq / 1000;
-- 
2.43.0


From d129977d30ba855bad4a7c958e3ccdfe3e440ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 29/97] fix: rtcm2sbp_decode_frame read past the end of a frame
 of one or two bytes

---
 c/gnss_converters/src/rtcm3_sbp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index bdba2df..a6de707 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -641,7 +641,8 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
 void rtcm2sbp_decode_frame(const uint8_t *frame,
                            uint32_t frame_length,
                            struct rtcm3_sbp_state *state) {
-  if (frame_length < 1) {
+  const uint32_t frame_header_size = 3;
+  if (frame_length < frame_header_size) {
     return;
   }
 
-- 
2.43.0


From f9ce6ae1a07846c5b745e72040b4f7e418cdb615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 30/97] fix: the largest MSM signal strengths were sent as
 unknown

---
 c/gnss_converters/src/rtcm3_sbp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index a6de707..fa3f4f2 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1625,7 +1625,9 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
           }
 
           if (data->flags.fields.valid_cnr) {
-            sbp_freq->cn0 = (u8)rint(data->cnr * MSG_OBS_CN0_MULTIPLIER);
+            /* the largest values of MSM6 and MSM7 round beyond the SBP field */
+            sbp_freq->cn0 =
+                (u8)MIN(rint(data->cnr * MSG_OBS_CN0_MULTIPLIER), UINT8_MAX);
           } else {
             sbp_freq->cn0 = 0;
           }
-- 
2.43.0


From 198e64d3c9fb74966619367fdf6eb34735ba8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 31/97] fix: the first MSM observation discarded the pending
 observations of another epoch

---
 c/gnss_converters/src/rtcm3_sbp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index fa3f4f2..8b3afa4 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1511,9 +1511,12 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
     return;
   }
 
-  if (!is_msm_active(&obs_time, state) && state->obs_to_send > 0) {
+  if (!is_msm_active(&obs_time, state) && state->obs_to_send > 0 &&
+      state->obs_time.wn == obs_time.wn &&
+      state->obs_time.tow == (u32)rint(obs_time.tow * SECS_MS)) {
     /* This is the first MSM observation, so clear the already decoded legacy
-     * messages from the observation buffer to avoid duplicates */
+     * messages of the same epoch from the observation buffer to avoid
+     * duplicates */
     memset(state->obs_buffer, 0, sizeof(state->obs_buffer));
     memset(&state->obs_time, 0, sizeof(state->obs_time));
     state->obs_to_send = 0;
-- 
2.43.0


From afc6bee84a3989d4ddba4fa951a05153cc6c0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 32/97] fix: a reserved GLONASS channel number in MSM5 and MSM7
 gave a wrong carrier phase

---
 c/gnss_converters/src/rtcm3_sbp.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 8b3afa4..e6b611d 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1572,11 +1572,13 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
 
           /* get GLO FCN */
           uint8_t glo_fcn = MSM_GLO_FCN_UNKNOWN;
-          msm_get_glo_fcn(&new_rtcm_obs->header,
-                          sat,
-                          new_rtcm_obs->sats[sat].glo_fcn,
-                          state->glo_sv_id_fcn_map,
-                          &glo_fcn);
+          if (!msm_get_glo_fcn(&new_rtcm_obs->header,
+                               sat,
+                               new_rtcm_obs->sats[sat].glo_fcn,
+                               state->glo_sv_id_fcn_map,
+                               &glo_fcn)) {
+            glo_fcn = MSM_GLO_FCN_UNKNOWN;
+          }
 
           double freq;
           bool freq_valid =
-- 
2.43.0


From eb427575f2a3fb04cc4e24d7782619d3ca0ecddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 33/97] fix: 1012 with a reserved channel number gave a valid
 second frequency phase

---
 c/librtcm/src/decode.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 832e87b..159704b 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -828,6 +828,7 @@ rtcm3_rc rtcm3_decode_1012_bitstream(swiftnav_bitstream_t *buff,
     l2_freq_data->flags.fields.valid_pr =
         construct_L2_code(l2_freq_data, l1_freq_data, l2_pr);
     l2_freq_data->flags.fields.valid_cp =
+        (msg_1012->sats[i].fcn <= MT1012_GLO_MAX_FCN) &&
         construct_L2_phase(l2_freq_data,
                            l1_freq_data,
                            phr_pr_diff,
-- 
2.43.0


From 20397f9f1467175050222446784241152c4bd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 34/97] fix: do not accept out-of-range BeiDou SSR epochs

The offset to GPS time was applied before the range check and wrapped an
epoch of a week or more into a plausible time.
---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index 6709874..b2256e5 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -25,11 +25,14 @@ sbp_gps_time_sec_t compute_ssr_message_time(
     const gps_time_t *rover_time,
     struct rtcm3_sbp_state *state) {
   sbp_gps_time_sec_t obs_time_sec;
-  gps_time_t obs_time;
+  gps_time_t obs_time = GPS_TIME_UNKNOWN;
   if (constellation == CONSTELLATION_GLO) {
     compute_glo_time(epoch_time_ms, &obs_time, rover_time, state);
   } else if (constellation == CONSTELLATION_BDS) {
-    beidou_tow_to_gps_tow(&epoch_time_ms);
+    /* The leap second correction must not make an invalid epoch valid */
+    if (epoch_time_ms < WEEK_SECS * SECS_MS) {
+      beidou_tow_to_gps_tow(&epoch_time_ms);
+    }
     compute_gps_message_time(epoch_time_ms, &obs_time, rover_time);
   } else {
     /* GAL / QZSS / SBAS are aligned to GPS time */
-- 
2.43.0


From 8817ba681d5ae8e3e19dc693ad40377299a8b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 35/97] fix: legacy observations of disabled constellations
 were still converted

Only multi-signal observations honoured the constellation mask.
---
 c/gnss_converters/src/rtcm3_sbp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index e6b611d..4eea874 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -862,6 +862,12 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
           }
         }
 
+        if (sbp_freq->sid.code != CODE_INVALID &&
+            constellation_mask[code_to_constellation(sbp_freq->sid.code)]) {
+          /* constellation disabled by the user */
+          continue;
+        }
+
         if (rtcm_freq->flags.fields.valid_pr == 1) {
           double pseudorange = rtcm_freq->pseudorange;
           pseudorange += sbp_signal_biases[sbp_freq->sid.code];
-- 
2.43.0


From 2acb9e1171942d5ca3bae4b4f2656941f74e7ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 36/97] fix: SSR satellites lost when orbit and clock messages
 differ in size

The clock corrections after the shorter of both counts were never looked at,
and the search looked at an orbit entry beyond the count before checking it.
---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index b2256e5..2ccf63d 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -96,19 +96,17 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
   sbp_msg_t msg;
   sbp_msg_ssr_orbit_clock_t *sbp_orbit_clock = &msg.ssr_orbit_clock;
 
-  for (int sat_count = 0; (sat_count < msg_clock->header.num_sats) &&
-                          (sat_count < msg_orbit->header.num_sats);
-       ++sat_count) {
+  for (int clock_index = 0; clock_index < msg_clock->header.num_sats;
+       ++clock_index) {
     memset(sbp_orbit_clock, 0, sizeof(*sbp_orbit_clock));
 
     // We aren't guaranteed that the satellite info in the orbit and clock
     // messages is in the same order so we must search for pair of corrections
     // for a given satellite
-    int clock_index = sat_count;
     int orbit_index = 0;
-    while (msg_orbit->orbit[orbit_index].sat_id !=
-               msg_clock->clock[clock_index].sat_id &&
-           orbit_index < msg_orbit->header.num_sats) {
+    while (orbit_index < msg_orbit->header.num_sats &&
+           msg_orbit->orbit[orbit_index].sat_id !=
+               msg_clock->clock[clock_index].sat_id) {
       orbit_index++;
     }
     if (orbit_index >= msg_orbit->header.num_sats) {
-- 
2.43.0


From eb2fc260520399880f0ba765d6169793193303fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 37/97] fix: QZSS satellites in SSR messages were given a wrong
 number

SBP numbers them from 193, as the ephemerides and observations do.
---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index 2ccf63d..cdabf99 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -43,6 +43,13 @@ sbp_gps_time_sec_t compute_ssr_message_time(
   return obs_time_sec;
 }
 
+static u8 ssr_sat_id_to_sbp(const enum constellation_e constellation,
+                            u8 sat_id) {
+  /* QZSS satellites are numbered from one */
+  return constellation == CONSTELLATION_QZS ? sat_id + QZS_FIRST_PRN - 1
+                                            : sat_id;
+}
+
 static bool rtcm_ssr_header_to_sbp_orbit_clock(
     const rtcm_msg_ssr_header *header,
     const rtcm_msg_ssr_orbit_corr *orbit,
@@ -59,7 +66,8 @@ static bool rtcm_ssr_header_to_sbp_orbit_clock(
   }
 
   sbp_orbit_clock->sid.code = constellation_to_l1_code(header->constellation);
-  sbp_orbit_clock->sid.sat = orbit->sat_id;
+  sbp_orbit_clock->sid.sat =
+      ssr_sat_id_to_sbp(header->constellation, orbit->sat_id);
   sbp_orbit_clock->update_interval = header->update_interval;
   sbp_orbit_clock->iod_ssr = header->iod_ssr;
   sbp_orbit_clock->iod = orbit->iode;
@@ -180,7 +188,9 @@ void rtcm3_ssr_code_bias_to_sbp(rtcm_msg_code_bias *msg_code_biases,
     sbp_code_bias->sid.code =
         constellation_to_l1_code(msg_code_biases->header.constellation);
 
-    sbp_code_bias->sid.sat = msg_code_biases->sats[sat_count].sat_id;
+    sbp_code_bias->sid.sat =
+        ssr_sat_id_to_sbp(msg_code_biases->header.constellation,
+                          msg_code_biases->sats[sat_count].sat_id);
 
     sbp_code_bias->update_interval = msg_code_biases->header.update_interval;
 
@@ -220,7 +230,9 @@ void rtcm3_ssr_phase_bias_to_sbp(rtcm_msg_phase_bias *msg_phase_biases,
 
     sbp_phase_bias->sid.code =
         constellation_to_l1_code(msg_phase_biases->header.constellation);
-    sbp_phase_bias->sid.sat = msg_phase_biases->sats[sat_count].sat_id;
+    sbp_phase_bias->sid.sat =
+        ssr_sat_id_to_sbp(msg_phase_biases->header.constellation,
+                          msg_phase_biases->sats[sat_count].sat_id);
     sbp_phase_bias->update_interval = msg_phase_biases->header.update_interval;
     sbp_phase_bias->iod_ssr = msg_phase_biases->header.iod_ssr;
     sbp_phase_bias->dispersive_bias =
-- 
2.43.0


From 91773b74c5a925c05d28de3fd385433bb6cd1535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 38/97] fix: SSR orbit and clock messages of different
 providers were combined

The issue number only identifies a correction set of one provider and
solution.
---
 c/gnss_converters/src/rtcm3_sbp.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 4eea874..471d04c 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -436,6 +436,12 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
                 msg_orbit.header.epoch_time &&
             state->orbit_clock_cache[constellation].data.clock.header.iod_ssr ==
                 msg_orbit.header.iod_ssr &&
+            state->orbit_clock_cache[constellation]
+                    .data.clock.header.ssr_provider_id ==
+                msg_orbit.header.ssr_provider_id &&
+            state->orbit_clock_cache[constellation]
+                    .data.clock.header.ssr_solution_id ==
+                msg_orbit.header.ssr_solution_id &&
             state->orbit_clock_cache[constellation]
                     .data.clock.header.constellation ==
                 msg_orbit.header.constellation) {
@@ -468,6 +474,12 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
                 msg_clock.header.epoch_time &&
             state->orbit_clock_cache[constellation].data.orbit.header.iod_ssr ==
                 msg_clock.header.iod_ssr &&
+            state->orbit_clock_cache[constellation]
+                    .data.orbit.header.ssr_provider_id ==
+                msg_clock.header.ssr_provider_id &&
+            state->orbit_clock_cache[constellation]
+                    .data.orbit.header.ssr_solution_id ==
+                msg_clock.header.ssr_solution_id &&
             state->orbit_clock_cache[constellation]
                     .data.orbit.header.constellation ==
                 msg_clock.header.constellation) {
-- 
2.43.0


From 413c2d3fad2ad233352b327c6ad722c6aac85107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 39/97] fix: QZSS ephemerides with an issue of clock above 255
 were marked invalid

---
 c/gnss_converters/src/rtcm3_sbp_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
index f88a299..7e1324e 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
@@ -185,7 +185,7 @@ void rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
   sbp_qzss_eph->common.fit_interval = rtcm3_decode_fit_interval_gps(
       msg_eph->fit_interval, msg_eph->data.kepler.iodc);
   sbp_qzss_eph->common.valid =
-      msg_eph->data.kepler.iodc == msg_eph->data.kepler.iode;
+      (msg_eph->data.kepler.iodc & 0xFF) == msg_eph->data.kepler.iode;
   sbp_qzss_eph->common.health_bits = msg_eph->health_bits;
 
   sbp_qzss_eph->tgd = (float)(msg_eph->data.kepler.tgd.gps_s * C_1_2P31);
-- 
2.43.0


From f5623753cac0d98ba9dd956bb824fb3f1d7bb211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 40/97] fix: BeiDou and QZSS ephemeris times at the other side
 of a week boundary were off by a week

---
 c/gnss_converters/src/rtcm3_sbp.c           | 22 +++++++++++----------
 c/gnss_converters/src/rtcm3_sbp_ephemeris.c | 21 ++++++++++++++------
 c/gnss_converters/src/rtcm3_sbp_internal.h  |  4 ++--
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 471d04c..fe1a0c8 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -315,11 +315,12 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
       if (RC_OK == rtcm3_decode_bds_eph_bitstream(&bitstream, &msg_eph)) {
         sbp_msg_t msg;
         sbp_msg_ephemeris_bds_t *sbp_bds_eph = &msg.ephemeris_bds;
-        rtcm3_bds_eph_to_sbp(&msg_eph, sbp_bds_eph, state);
-        state->cb_rtcm_to_sbp(rtcm_stn_to_sbp_sender_id(0),
-                              SbpMsgEphemerisBds,
-                              &msg,
-                              state->context);
+        if (rtcm3_bds_eph_to_sbp(&msg_eph, sbp_bds_eph, state)) {
+          state->cb_rtcm_to_sbp(rtcm_stn_to_sbp_sender_id(0),
+                                SbpMsgEphemerisBds,
+                                &msg,
+                                state->context);
+        }
       }
       break;
     }
@@ -328,11 +329,12 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
       if (RC_OK == rtcm3_decode_qzss_eph_bitstream(&bitstream, &msg_eph)) {
         sbp_msg_t msg;
         sbp_msg_ephemeris_qzss_t *sbp_qzss_eph = &msg.ephemeris_qzss;
-        rtcm3_qzss_eph_to_sbp(&msg_eph, sbp_qzss_eph, state);
-        state->cb_rtcm_to_sbp(rtcm_stn_to_sbp_sender_id(0),
-                              SbpMsgEphemerisQzss,
-                              &msg,
-                              state->context);
+        if (rtcm3_qzss_eph_to_sbp(&msg_eph, sbp_qzss_eph, state)) {
+          state->cb_rtcm_to_sbp(rtcm_stn_to_sbp_sender_id(0),
+                                SbpMsgEphemerisQzss,
+                                &msg,
+                                state->context);
+        }
       }
       break;
     }
diff --git a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
index 7e1324e..4cda7ae 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
@@ -168,10 +168,9 @@ bool rtcm3_gps_eph_to_sbp(rtcm_msg_eph *msg_eph,
                                   &state->time_from_input_data);
 }
 
-void rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
+bool rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
                            sbp_msg_ephemeris_qzss_t *sbp_qzss_eph,
                            struct rtcm3_sbp_state *state) {
-  (void)state;
   assert(msg_eph);
   assert(sbp_qzss_eph);
   assert(RTCM_CONSTELLATION_QZS == msg_eph->constellation);
@@ -179,6 +178,10 @@ void rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
   sbp_qzss_eph->common.toe.wn =
       gps_adjust_week_cycle(msg_eph->wn, GPS_WEEK_REFERENCE);
   sbp_qzss_eph->common.toe.tow = msg_eph->toe * GPS_TOE_RESOLUTION;
+  if (!gps_time_sec_match_weeks(&sbp_qzss_eph->common.toe,
+                                &state->time_from_input_data)) {
+    return false;
+  }
   sbp_qzss_eph->common.sid.sat = msg_eph->sat_id + QZS_FIRST_PRN - 1;
   sbp_qzss_eph->common.sid.code = CODE_QZS_L1CA;
   sbp_qzss_eph->common.ura = convert_ura_to_uri(msg_eph->ura);
@@ -214,8 +217,10 @@ void rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
   sbp_qzss_eph->iode = msg_eph->data.kepler.iode;
   sbp_qzss_eph->iodc = msg_eph->data.kepler.iodc;
 
-  sbp_qzss_eph->toc.wn = sbp_qzss_eph->common.toe.wn;
+  sbp_qzss_eph->toc.wn = gps_adjust_week_cycle(msg_eph->wn, GPS_WEEK_REFERENCE);
   sbp_qzss_eph->toc.tow = msg_eph->data.kepler.toc * GPS_TOC_RESOLUTION;
+  return gps_time_sec_match_weeks(&sbp_qzss_eph->toc,
+                                  &state->time_from_input_data);
 }
 
 bool rtcm3_glo_eph_to_sbp(rtcm_msg_eph *msg_eph,
@@ -343,10 +348,9 @@ static sbp_gps_time_sec_t get_time_from_bds_wn_tow(const u32 time_resolution,
   return ret;
 }
 
-void rtcm3_bds_eph_to_sbp(rtcm_msg_eph *msg_eph,
+bool rtcm3_bds_eph_to_sbp(rtcm_msg_eph *msg_eph,
                           sbp_msg_ephemeris_bds_t *sbp_bds_eph,
                           struct rtcm3_sbp_state *state) {
-  (void)state;
   assert(msg_eph);
   assert(sbp_bds_eph);
   assert(RTCM_CONSTELLATION_BDS == msg_eph->constellation);
@@ -354,6 +358,10 @@ void rtcm3_bds_eph_to_sbp(rtcm_msg_eph *msg_eph,
   /* Beidou week is 13 bit (DF489) and starts from GPS WN 1356 */
   sbp_bds_eph->common.toe = get_time_from_bds_wn_tow(
       BEIDOU_TOE_RESOLUTION, msg_eph->wn, msg_eph->toe);
+  if (!gps_time_sec_match_weeks(&sbp_bds_eph->common.toe,
+                                &state->time_from_input_data)) {
+    return false;
+  }
   sbp_bds_eph->common.sid.sat = msg_eph->sat_id;
   sbp_bds_eph->common.sid.code = CODE_BDS2_B1;
   sbp_bds_eph->common.ura = convert_bds_ura_to_meters(msg_eph->ura);
@@ -389,9 +397,10 @@ void rtcm3_bds_eph_to_sbp(rtcm_msg_eph *msg_eph,
   sbp_bds_eph->iode = msg_eph->data.kepler.iode;
   sbp_bds_eph->iodc = msg_eph->data.kepler.iodc;
 
-  // What happens if toc and toe straddle the week boundary?
   sbp_bds_eph->toc = get_time_from_bds_wn_tow(
       BEIDOU_TOC_RESOLUTION, msg_eph->wn, msg_eph->data.kepler.toc);
+  return gps_time_sec_match_weeks(&sbp_bds_eph->toc,
+                                  &state->time_from_input_data);
 }
 
 void handle_ndf_frame(const rtcm_msg_ndf *msg_ndf,
diff --git a/c/gnss_converters/src/rtcm3_sbp_internal.h b/c/gnss_converters/src/rtcm3_sbp_internal.h
index fd6af20..47d036c 100644
--- a/c/gnss_converters/src/rtcm3_sbp_internal.h
+++ b/c/gnss_converters/src/rtcm3_sbp_internal.h
@@ -179,7 +179,7 @@ static inline bool gps_time_sec_valid(const sbp_gps_time_sec_t *t) {
 bool rtcm3_gps_eph_to_sbp(rtcm_msg_eph *msg_eph,
                           sbp_msg_ephemeris_gps_t *sbp_gps_eph,
                           struct rtcm3_sbp_state *state);
-void rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
+bool rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
                            sbp_msg_ephemeris_qzss_t *sbp_qzss_eph,
                            struct rtcm3_sbp_state *state);
 bool rtcm3_glo_eph_to_sbp(rtcm_msg_eph *msg_eph,
@@ -189,7 +189,7 @@ bool rtcm3_gal_eph_to_sbp(const rtcm_msg_eph *msg_eph,
                           u8 source,
                           sbp_msg_ephemeris_gal_t *sbp_gal_eph,
                           struct rtcm3_sbp_state *state);
-void rtcm3_bds_eph_to_sbp(rtcm_msg_eph *msg_eph,
+bool rtcm3_bds_eph_to_sbp(rtcm_msg_eph *msg_eph,
                           sbp_msg_ephemeris_bds_t *sbp_bds_eph,
                           struct rtcm3_sbp_state *state);
 
-- 
2.43.0


From 5f5216ad22f0b863a9eb4c5ef55d7787648c1266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 41/97] fix: the last milliseconds of a week were kept as an
 invalid time of week

---
 c/gnss_converters/src/time_truth.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/c/gnss_converters/src/time_truth.c b/c/gnss_converters/src/time_truth.c
index 4f5b1ea..9d2d609 100644
--- a/c/gnss_converters/src/time_truth.c
+++ b/c/gnss_converters/src/time_truth.c
@@ -13,16 +13,21 @@
 #include <gnss-converters/time_truth.h>
 #include <libsbp/v4/gnss.h>
 #include <libsbp/v4/observation.h>
+#include <math.h>
 #include <stdalign.h>
 #include <stdatomic.h>
 #include <string.h>
 #include <swiftnav/ephemeris.h>
 
+#define MILLISECONDS_IN_SECOND 1000
+#define MILLISECONDS_IN_WEEK (7 * 24 * 3600 * MILLISECONDS_IN_SECOND)
+
 /**
  * Time truth state machine data
  */
 struct time_truth {
-  float tow;
+  /* a float could not tell the last milliseconds of a week from the next one */
+  int32_t tow_ms;
   s16 wn;
   uint8_t state;
 };
@@ -42,7 +47,7 @@ void time_truth_init(time_truth_t *instance) {
   memset(&value, 0, sizeof(value));
 
   value.wn = WN_UNKNOWN;
-  value.tow = TOW_UNKNOWN;
+  value.tow_ms = (int32_t)TOW_UNKNOWN * MILLISECONDS_IN_SECOND;
   value.state = TIME_TRUTH_UNKNOWN;
 
   atomic_init((atomic_time_truth_t *)instance, value);
@@ -61,6 +66,12 @@ bool time_truth_update(time_truth_t *instance,
     return false;
   }
 
+  int32_t tow_ms = (int32_t)rint(time.tow * MILLISECONDS_IN_SECOND);
+  if (tow_ms >= MILLISECONDS_IN_WEEK) {
+    tow_ms = MILLISECONDS_IN_WEEK - 1;
+  }
+  time.tow = (double)tow_ms / MILLISECONDS_IN_SECOND;
+
   struct time_truth current_time_truth;
   struct time_truth new_time_truth;
 
@@ -70,8 +81,9 @@ bool time_truth_update(time_truth_t *instance,
   current_time_truth = atomic_load((atomic_time_truth_t *)instance);
 
   do {
-    const gps_time_t current_time = {.wn = current_time_truth.wn,
-                                     .tow = current_time_truth.tow};
+    const gps_time_t current_time = {
+        .wn = current_time_truth.wn,
+        .tow = (double)current_time_truth.tow_ms / MILLISECONDS_IN_SECOND};
 
     switch (current_time_truth.state) {
       case TIME_TRUTH_UNKNOWN:
@@ -80,7 +92,7 @@ bool time_truth_update(time_truth_t *instance,
           case TIME_TRUTH_EPH_GAL:
           case TIME_TRUTH_EPH_BDS:
             new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            new_time_truth.tow_ms = tow_ms;
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
@@ -97,7 +109,7 @@ bool time_truth_update(time_truth_t *instance,
               return false;
             }
             new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            new_time_truth.tow_ms = tow_ms;
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
@@ -140,7 +152,7 @@ void time_truth_get(time_truth_t *instance,
   }
   if (time != NULL) {
     time->wn = value.wn;
-    time->tow = value.tow;
+    time->tow = (double)value.tow_ms / MILLISECONDS_IN_SECOND;
   }
 }
 
-- 
2.43.0


From 466959c5f0661ac252ecc2747466031d30c93d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 42/97] fix: sbp2rtcm_init left the observation sender and time
 uninitialised

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index a4c7526..6405b95 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -53,6 +53,8 @@ void sbp2rtcm_init(struct rtcm3_out_state *state,
   state->cb_sbp_to_rtcm = cb_sbp_to_rtcm;
   state->context = context;
 
+  state->sender_id = 0;
+  memset(&state->sbp_header, 0, sizeof(state->sbp_header));
   state->n_sbp_obs = 0;
 
   for (u8 i = 0; i < sizeof(state->glo_sv_id_fcn_map); i++) {
@@ -815,6 +817,9 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
 }
 
 static void sbp_buffer_to_rtcm3(struct rtcm3_out_state *state) {
+  if (0 == state->n_sbp_obs) {
+    return;
+  }
   if (state->send_legacy_obs) {
     sbp_buffer_to_legacy_rtcm3(state);
   }
-- 
2.43.0


From 92cc6e77abcadd34a1644529311f0df8a93214ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 43/97] fix: SBP observations beyond the epoch limit were
 written past the buffer

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 6405b95..8c482f6 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -901,17 +901,17 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
        * flagged by RAIM */
       continue;
     }
-    /* add incoming sbp observation into sbp buffer */
-    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
-    state->n_sbp_obs++;
-    if (state->n_sbp_obs == MAX_OBS_PER_EPOCH) {
+    if (state->n_sbp_obs >= MAX_OBS_PER_EPOCH) {
       log_info(
           "Reached max observations per epoch %u, ignoring the remaining %u "
           "obs",
           (u16)MAX_OBS_PER_EPOCH,
-          n_meas - i - 1);
+          n_meas - i);
       break;
     }
+    /* add incoming sbp observation into sbp buffer */
+    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
+    state->n_sbp_obs++;
   }
   state->sbp_header = sbp_obs->header;
 
-- 
2.43.0


From 564484337e9d82c8f8aaad2b1260564120df485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 44/97] fix: SBP messages shorter than their contents and times
 beyond the week were converted

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 29 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 8c482f6..283d489 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -408,7 +408,9 @@ void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
                                const u8 len,
                                const u8 msg[],
                                struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_base_pos_ecef_t)) {
+    return;
+  }
   rtcm_msg_1006 msg_1006;
   rtcm_msg_1008 msg_1008;
   rtcm_msg_1033 msg_1033;
@@ -438,7 +440,9 @@ void sbp2rtcm_glo_biases_cb(const u16 sender_id,
                             const u8 len,
                             const u8 msg[],
                             struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_glo_biases_t)) {
+    return;
+  }
   state->sender_id = sender_id;
 
   rtcm_msg_1230 msg_1230;
@@ -836,6 +840,11 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
                          struct rtcm3_out_state *state) {
   const msg_obs_t *sbp_obs = (const msg_obs_t *)msg;
 
+  if (len < sizeof(observation_header_t) || sbp_obs->header.t.tow >= WEEK_MS) {
+    log_info("Ignoring SBP obs without a valid time");
+    return;
+  }
+
   if (state->sender_id != sender_id) {
     /* sender changed, send existing buffer and reset */
     sbp_buffer_to_rtcm3(state);
@@ -1030,8 +1039,10 @@ void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_gps_t)) {
+    return;
+  }
   const msg_ephemeris_gps_t *sbp_gps_eph = (const msg_ephemeris_gps_t *)msg;
 
   rtcm_msg_eph msg_gps_eph;
@@ -1047,8 +1058,10 @@ void sbp2rtcm_sbp_glo_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_glo_t)) {
+    return;
+  }
   const msg_ephemeris_glo_t *sbp_glo_eph = (const msg_ephemeris_glo_t *)msg;
 
   rtcm_msg_eph msg_glo_eph;
@@ -1064,8 +1077,10 @@ void sbp2rtcm_sbp_bds_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_bds_t)) {
+    return;
+  }
   const msg_ephemeris_bds_t *sbp_bds_eph = (const msg_ephemeris_bds_t *)msg;
 
   rtcm_msg_eph msg_bds_eph;
@@ -1083,8 +1098,10 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
   (void)sender_id;
+  if (len < sizeof(msg_ephemeris_gal_t)) {
+    return;
+  }
   const msg_ephemeris_gal_t *sbp_gal_eph = (const msg_ephemeris_gal_t *)msg;
 
   rtcm_msg_eph msg_gal_eph;
-- 
2.43.0


From acb952c5bc05bf671352a3069ba57e86334a6cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 45/97] fix: pending observations were sent under the station
 of another message's sender

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 283d489..cebd8f1 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -416,6 +416,8 @@ void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
   rtcm_msg_1033 msg_1033;
   u8 frame[RTCM3_MAX_MSG_LEN];
 
+  /* the station of the pending observations may be another one */
+  const u16 obs_sender_id = state->sender_id;
   state->sender_id = sender_id;
 
   /* generate and send the base position message */
@@ -434,6 +436,8 @@ void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
     frame_size = encode_rtcm3_frame(&msg_1033, 1033, frame);
     state->cb_sbp_to_rtcm(frame, frame_size, state->context);
   }
+
+  state->sender_id = obs_sender_id;
 }
 
 void sbp2rtcm_glo_biases_cb(const u16 sender_id,
@@ -443,11 +447,15 @@ void sbp2rtcm_glo_biases_cb(const u16 sender_id,
   if (len < sizeof(msg_glo_biases_t)) {
     return;
   }
+  /* the station of the pending observations may be another one */
+  const u16 obs_sender_id = state->sender_id;
   state->sender_id = sender_id;
 
   rtcm_msg_1230 msg_1230;
   sbp_to_rtcm3_1230((const msg_glo_biases_t *)msg, &msg_1230, state);
 
+  state->sender_id = obs_sender_id;
+
   u8 frame[RTCM3_MAX_MSG_LEN];
   u16 frame_size = encode_rtcm3_frame(&msg_1230, 1230, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
@@ -1128,7 +1136,6 @@ void sbp2rtcm_sbp_log_cb(const u16 sender_id,
   const msg_log_t *sbp_msg_log = (const msg_log_t *)msg;
   rtcm_msg_1029 rtcm_msg_log;
 
-  state->sender_id = sender_id;
   rtcm_msg_log.stn_id = sender_id;
   rtcm_msg_log.mjd_num = 0;
   rtcm_msg_log.utc_sec_of_day = 0;
-- 
2.43.0


From 0bb7b5304b0aa078d213b96ace8eac8e3ab66fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 46/97] fix: SBP observations that fit no MSM message aborted
 the conversion or were sent with a wrong time

---
 c/gnss_converters/src/rtcm3_utils.c     |  6 ++--
 c/gnss_converters_extra/src/sbp_rtcm3.c | 38 ++++++++++++++++++-------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index 756ad7e..9393095 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -672,7 +672,6 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
  * given signal and satellite */
 bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   uint8_t num_sigs = msm_get_num_signals(header);
-  assert(num_sigs > 0);
 
   rtcm_constellation_t cons = to_constellation(header->msg_num);
 
@@ -703,7 +702,10 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   /* Mark the cell defined by this satellite/signal pair in the cell mask */
   u8 cell_id = sat_index * num_sigs + signal_index;
   assert(cell_id < MSM_MAX_CELLS);
-  assert(!header->cell_mask[cell_id]);
+  if (header->cell_mask[cell_id]) {
+    msm_add_to_header_err(code, prn, "already in cell mask");
+    return false;
+  }
   header->cell_mask[cell_id] = true;
 
   return true;
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index cebd8f1..1bf7a96 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -676,6 +676,19 @@ static u8 sat_index_from_obs(rtcm_sat_data sats[], u8 n_sats, u8 svId) {
   return n_sats;
 }
 
+/* Get the MSM constellation of an observation, false if it cannot be sent */
+static bool get_msm_constellation(const packed_obs_content_t *sbp_obs,
+                                  const struct rtcm3_out_state *state,
+                                  rtcm_constellation_t *cons) {
+  const int constellation = code_to_constellation(sbp_obs->sid.code);
+  if (constellation < 0 || constellation >= RTCM_CONSTELLATION_COUNT) {
+    return false;
+  }
+  *cons = (rtcm_constellation_t)constellation;
+  /* the GLONASS time tag needs the leap seconds */
+  return RTCM_CONSTELLATION_GLO != *cons || state->leap_second_known;
+}
+
 void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   /* message for each constellation */
   rtcm_msm_message obs[RTCM_CONSTELLATION_COUNT];
@@ -686,27 +699,30 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   /* loop through observations once to generate satellite and signal masks */
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
-    rtcm_constellation_t cons =
-        (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-    msm_add_to_header(&obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
+    rtcm_constellation_t cons;
+    if (get_msm_constellation(sbp_obs, state, &cons)) {
+      msm_add_to_header(&obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
+    }
   }
 
   /* using the complete satellite and signal masks, loop through observations
    * again to generate the cell mask */
+  bool has_cell[MAX_OBS_PER_EPOCH];
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
-    rtcm_constellation_t cons =
-        (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-    msm_add_to_cell_mask(
-        &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
+    rtcm_constellation_t cons;
+    has_cell[i] = get_msm_constellation(sbp_obs, state, &cons) &&
+                  msm_add_to_cell_mask(
+                      &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
   }
 
   /* loop through observations once more to generate the actual signal data */
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
-    rtcm_constellation_t cons =
-        (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-    sbp_obs_to_msm_signal_data(sbp_obs, &obs[cons], state);
+    rtcm_constellation_t cons;
+    if (has_cell[i] && get_msm_constellation(sbp_obs, state, &cons)) {
+      sbp_obs_to_msm_signal_data(sbp_obs, &obs[cons], state);
+    }
   }
 
   /* Fill in the MSM Multiple Message bit DF393 bit(1) 1
@@ -779,7 +795,7 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
       case CODE_GLO_L1OF:
       case CODE_GLO_L1P: {
         u8 fcn = state->glo_sv_id_fcn_map[sbp_obs->sid.sat];
-        if (MSM_GLO_FCN_UNKNOWN != fcn) {
+        if (state->leap_second_known && MSM_GLO_FCN_UNKNOWN != fcn) {
           /* add a new sat */
           glo_obs.sats[n_glo].fcn = fcn;
           glo_obs.sats[n_glo].svId = sbp_obs->sid.sat;
-- 
2.43.0


From 4ad6e4b10ee2e3462c53a4d70cc911dc3417b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 47/97] fix: invalid or repeated satellites were written
 outside the legacy observation messages

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 29 +++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 1bf7a96..7c4f6c3 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -748,6 +748,21 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   }
 }
 
+/* Check that a satellite is a valid one that has no place in a legacy message
+ * yet, and that the message has room for it */
+static bool can_add_sat(rtcm_obs_message *msg,
+                        u8 n_sats,
+                        u8 sat,
+                        u8 first_prn,
+                        u8 num_prns) {
+  if (sat < first_prn || sat >= first_prn + num_prns) {
+    log_info("Ignoring obs of invalid PRN %u", sat);
+    return false;
+  }
+  return n_sats < RTCM_MAX_SATS &&
+         sat_index_from_obs(msg->sats, n_sats, sat) == n_sats;
+}
+
 static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
   rtcm_obs_message gps_obs;
   rtcm_init_obs_message(&gps_obs, state, RTCM_CONSTELLATION_GPS);
@@ -772,6 +787,13 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
     switch (sbp_obs->sid.code) {
       case CODE_GPS_L1CA:
       case CODE_GPS_L1P: {
+        if (!can_add_sat(&gps_obs,
+                         n_gps,
+                         sbp_obs->sid.sat,
+                         GPS_FIRST_PRN,
+                         NUM_SATS_GPS)) {
+          break;
+        }
         /* add a new sat */
         gps_obs.sats[n_gps].fcn = 0;
         gps_obs.sats[n_gps].svId = sbp_obs->sid.sat;
@@ -794,6 +816,13 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
       }
       case CODE_GLO_L1OF:
       case CODE_GLO_L1P: {
+        if (!can_add_sat(&glo_obs,
+                         n_glo,
+                         sbp_obs->sid.sat,
+                         GLO_FIRST_PRN,
+                         NUM_SATS_GLO)) {
+          break;
+        }
         u8 fcn = state->glo_sv_id_fcn_map[sbp_obs->sid.sat];
         if (state->leap_second_known && MSM_GLO_FCN_UNKNOWN != fcn) {
           /* add a new sat */
-- 
2.43.0


From 91f0ad3efa8113b58298043c062ead3688e17299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 48/97] fix: SBAS observations aborted the conversion to RTCM

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 7c4f6c3..459b8e6 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -147,6 +147,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1074:
     case 1084:
     case 1094:
+    case 1104:
     case 1114:
     case 1124: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
@@ -155,6 +156,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1075:
     case 1085:
     case 1095:
+    case 1105:
     case 1115:
     case 1125: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
-- 
2.43.0


From 6f004e7661365f9cfeb85c0411c1a92efa1c3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 49/97] fix: legacy RTCM encoders sent P-code observations as
 C/A code

---
 c/librtcm/src/encode.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 8b6a907..a83a142 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -172,14 +172,14 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
   double freq = 0;
   if (L1_FREQ == freq_enum) {
     freq = GPS_L1_HZ;
-    rtcm_setbitu(buff, *bit, 1, 0);
+    rtcm_setbitu(buff, *bit, 1, (1 == freq_data->code) ? 1 : 0);
     *bit += 1;
     rtcm_setbitu(
         buff, *bit, 24, freq_data->flags.fields.valid_pr ? pr : PR_L1_INVALID);
     *bit += 24;
   } else {
     freq = GPS_L2_HZ;
-    rtcm_setbitu(buff, *bit, 2, 0);
+    rtcm_setbitu(buff, *bit, 2, (freq_data->code < 4) ? freq_data->code : 0);
     *bit += 2;
     rtcm_setbits(buff,
                  *bit,
@@ -241,7 +241,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   } else {
     glo_freq = GLO_L2_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 2, 0);
+    rtcm_setbitu(buff, *bit, 2, (freq_data->code < 4) ? freq_data->code : 0);
     *bit += 2;
     rtcm_setbits(buff,
                  *bit,
-- 
2.43.0


From 67a9bf9602e208b26e6f1c3ff150c7fcf4c0ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 50/97] fix: ignore ephemerides of unexpected signals instead
 of aborting

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 28 +++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 459b8e6..1c7b8a0 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -1099,6 +1099,11 @@ void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_gps_t *sbp_gps_eph = (const msg_ephemeris_gps_t *)msg;
+  if (!is_gps(sbp_gps_eph->common.sid.code)) {
+    log_info("Ignoring ephemeris of unexpected signal %u",
+             sbp_gps_eph->common.sid.code);
+    return;
+  }
 
   rtcm_msg_eph msg_gps_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1118,6 +1123,11 @@ void sbp2rtcm_sbp_glo_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_glo_t *sbp_glo_eph = (const msg_ephemeris_glo_t *)msg;
+  if (!is_glo(sbp_glo_eph->common.sid.code)) {
+    log_info("Ignoring ephemeris of unexpected signal %u",
+             sbp_glo_eph->common.sid.code);
+    return;
+  }
 
   rtcm_msg_eph msg_glo_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1137,6 +1147,11 @@ void sbp2rtcm_sbp_bds_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_bds_t *sbp_bds_eph = (const msg_ephemeris_bds_t *)msg;
+  if (!is_bds2(sbp_bds_eph->common.sid.code)) {
+    log_info("Ignoring ephemeris of unexpected signal %u",
+             sbp_bds_eph->common.sid.code);
+    return;
+  }
 
   rtcm_msg_eph msg_bds_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1158,6 +1173,17 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
     return;
   }
   const msg_ephemeris_gal_t *sbp_gal_eph = (const msg_ephemeris_gal_t *)msg;
+  if (!is_gal(sbp_gal_eph->common.sid.code)) {
+    log_info("Ignoring ephemeris of unexpected signal %u",
+             sbp_gal_eph->common.sid.code);
+    return;
+  }
+  if (sbp_gal_eph->source != EPH_SOURCE_GAL_INAV &&
+      sbp_gal_eph->source != EPH_SOURCE_GAL_FNAV) {
+    log_info("Ignoring Galileo ephemeris of unknown source %u",
+             sbp_gal_eph->source);
+    return;
+  }
 
   rtcm_msg_eph msg_gal_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
@@ -1166,8 +1192,6 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
    * source */
   sbp_to_rtcm3_gal_eph(sbp_gal_eph, &msg_gal_eph, state);
 
-  assert((sbp_gal_eph->source == EPH_SOURCE_GAL_INAV) ||
-         (sbp_gal_eph->source == EPH_SOURCE_GAL_FNAV));
   u16 message_type = sbp_gal_eph->source == EPH_SOURCE_GAL_INAV ? 1046 : 1045;
   u16 frame_size = encode_rtcm3_frame(&msg_gal_eph, message_type, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
-- 
2.43.0


From 947f53568d9cacd3670241914d04478359d453da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 51/97] fix: Moscow midnight is interval 0 of a GLONASS
 ephemeris

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 15323b2..e9084bf 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -93,7 +93,7 @@ static bool compute_glo_time_of_day(const gps_time_t *obs_time,
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-  if (tod_glo_s > DAY_SECS) {
+  if (tod_glo_s >= DAY_SECS) {
     tod_glo_s -= DAY_SECS;
   }
 
-- 
2.43.0


From 8989850d6159061d4c94f13ad7fd8aa28485cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 52/97] fix: GLONASS ephemeris without a usable time is sent
 with a defined interval

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index e9084bf..441391a 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -86,10 +86,9 @@ void sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
 static bool compute_glo_time_of_day(const gps_time_t *obs_time,
                                     const struct rtcm3_out_state *state,
                                     u8 *t_b) {
-  if (!state->leap_second_known) {
+  if (!state->leap_second_known || !gps_time_valid(obs_time)) {
     return false;
   }
-  assert(gps_time_valid(obs_time));
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
@@ -121,6 +120,7 @@ void sbp_to_rtcm3_glo_eph(const msg_ephemeris_glo_t *sbp_glo_eph,
   gps_time_t time = sbp_gps_time_2_gps_time(&sbp_glo_eph->common.toe);
   if (!compute_glo_time_of_day(&time, state, &msg_eph->data.glo.t_b)) {
     msg_eph->health_bits = 1;
+    msg_eph->data.glo.t_b = 0;
   }
 
   msg_eph->data.glo.gamma = (int16_t)(round(sbp_glo_eph->gamma / C_1_2P40));
-- 
2.43.0


From d62e21802a5b8241eaef82217375112bcfbfcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 53/97] fix: start of the BeiDou week belongs to that week

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 441391a..25d0c1d 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -156,7 +156,7 @@ static void get_bds_wn_tow(const gps_time_t *input,
                            const u32 time_resolution,
                            uint16_t *wn,
                            uint32_t *tow) {
-  if (input->tow > BDS_SECOND_TO_GPS_SECOND) {
+  if (input->tow >= BDS_SECOND_TO_GPS_SECOND) {
     *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK);
     *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND) /
                            time_resolution);
-- 
2.43.0


From 233801d45e72eb886facc6918803d36de6b79fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 54/97] fix: sbp_conv converts GLONASS biases too

---
 c/gnss_converters_extra/src/sbp_conv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_conv.c b/c/gnss_converters_extra/src/sbp_conv.c
index 909cb73..03019ae 100644
--- a/c/gnss_converters_extra/src/sbp_conv.c
+++ b/c/gnss_converters_extra/src/sbp_conv.c
@@ -61,6 +61,10 @@ size_t sbp_conv(sbp_conv_t conv,
       sbp2rtcm_base_pos_ecef_cb(sender, (u8)rlen, rbuf, &conv->state);
       break;
     }
+    case SBP_MSG_GLO_BIASES: {
+      sbp2rtcm_glo_biases_cb(sender, (u8)rlen, rbuf, &conv->state);
+      break;
+    }
     case SBP_MSG_OBS: {
       sbp2rtcm_sbp_obs_cb(sender, (u8)rlen, rbuf, &conv->state);
       break;
-- 
2.43.0


From b1511af477f24b2ab554e242c2e56ba3aff609a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 55/97] fix: sbp_conv has room for the messages of an epoch

---
 c/gnss_converters_extra/src/sbp_conv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_conv.c b/c/gnss_converters_extra/src/sbp_conv.c
index 03019ae..4a03060 100644
--- a/c/gnss_converters_extra/src/sbp_conv.c
+++ b/c/gnss_converters_extra/src/sbp_conv.c
@@ -24,7 +24,8 @@
 struct sbp_conv_s {
   struct rtcm3_out_state state;
   fifo_t fifo;
-  uint8_t buf[2048];
+  /* room for the messages of an epoch of all constellations */
+  uint8_t buf[8192];
 };
 
 static s32 sbp_conv_cb(uint8_t *buf, uint16_t len, void *context) {
-- 
2.43.0


From 93b16447e657a90212e0cadfaa7557f9e69e9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 56/97] fix: a long text is cut between its characters

---
 c/gnss_converters/src/rtcm3_sbp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index fe1a0c8..a7d0b36 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1338,11 +1338,11 @@ void send_1029(rtcm_msg_1029 *msg_1029, struct rtcm3_sbp_state *state) {
         (message[message_size - 1] & 0xE0) == 0xC0) {
       /* We've truncated a 2, 3 or 4 byte code unit */
       message_size--;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-               (message[message_size - 1] & 0xE0) == 0xE0) {
+    } else if ((message[message_size - 2] & 0xF8) == 0xF0 ||
+               (message[message_size - 2] & 0xE0) == 0xE0) {
       /* We've truncated a 3 or 4 byte code unit */
       message_size -= 2;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0) {
+    } else if ((message[message_size - 3] & 0xF8) == 0xF0) {
       /* We've truncated a 4 byte code unit */
       message_size -= 3;
     }
-- 
2.43.0


From 63311fcf60c9c559caf5dd9e677ed2afc4b73d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 57/97] fix: libubx: RXM-SFRBX encoder wrote past the end of
 the message

It cleared ten data words in the output buffer whatever the number of words
in the message, so a buffer just large enough for the message was overrun.
---
 c/libubx/src/encode.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c/libubx/src/encode.c b/c/libubx/src/encode.c
index 73f8677..0493f15 100644
--- a/c/libubx/src/encode.c
+++ b/c/libubx/src/encode.c
@@ -612,7 +612,6 @@ uint16_t ubx_encode_rxm_sfrbx(const ubx_rxm_sfrbx *msg_rxm_sfrbx,
   /* reserved */
   memcpy(&buff[index], &msg_rxm_sfrbx->reserved2, 1);
   index += 1;
-  memset(&buff[index], 0, sizeof(msg_rxm_sfrbx->data_words));
   for (int i = 0; i < msg_rxm_sfrbx->num_words; i++) {
     memcpy(&buff[index], &msg_rxm_sfrbx->data_words[i], 4);
     index += 4;
-- 
2.43.0


From 8d706bcb318ff33cacacb5ecebdb80b390fc522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 58/97] fix: ubx_sbp: a damaged message made the converter skip
 the messages after it

When a length was damaged or a checksum was wrong, everything the message
claimed to contain was dropped, although only the sync bytes were known to be
consumed. The search for the next message now resumes right after them.
---
 .../include/gnss-converters/ubx_sbp.h         |  3 ++
 c/gnss_converters/src/ubx_sbp.c               | 30 +++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index e24ffcb..3a8f160 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -66,6 +66,9 @@ struct ubx_sbp_state {
   u8 read_buffer[UBX_BUFFER_SIZE];
   size_t index;
   size_t bytes_in_buffer;
+  u8 unread_buffer[UBX_FRAME_SIZE];
+  size_t unread_index;
+  size_t unread_count;
   u16 sender_id;
   int (*read_stream_func)(u8 *buf, size_t len, void *ctx);
   void (*cb_ubx_to_sbp)(uint16_t sender_id,
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 64785fa..1fc867a 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -125,6 +125,14 @@ static int reload_ubx_buffer(struct ubx_sbp_state *state) {
  */
 static int read_ubx_bytes(u8 *buf, size_t length, struct ubx_sbp_state *state) {
   int bytes_read = 0;
+  while (length > 0 && state->unread_index < state->unread_count) {
+    buf[bytes_read++] = state->unread_buffer[state->unread_index++];
+    length--;
+  }
+  if (length == 0) {
+    return bytes_read;
+  }
+
   while (state->index + length > state->bytes_in_buffer) {
     if (state->bytes_in_buffer == 0) {
       /* Try again in case we perfectly aligned read */
@@ -153,6 +161,23 @@ static int read_ubx_bytes(u8 *buf, size_t length, struct ubx_sbp_state *state) {
   return bytes_read;
 }
 
+/** Puts back the `length` bytes in `buf`, which must be the ones read last, so
+ * that they are read again.
+ */
+static void unread_ubx_bytes(const u8 *buf,
+                             size_t length,
+                             struct ubx_sbp_state *state) {
+  assert(length <= sizeof(state->unread_buffer));
+  if (state->unread_index < state->unread_count) {
+    /* All of them came from the unread_buffer */
+    state->unread_index -= length;
+  } else {
+    memcpy(state->unread_buffer, buf, length);
+    state->unread_index = 0;
+    state->unread_count = length;
+  }
+}
+
 /** UBX Frame:
  * SYNC_CHAR_1 | SYNC_CHAR_2 | CLASS | MSG_ID | 2-byte Length | Payload |
  * CHCKSUM_BYTE_1 | CHCKSUM_BYTE_2
@@ -197,6 +222,8 @@ static int read_ubx_frame(u8 *frame, struct ubx_sbp_state *state) {
           frame[0],
           frame[1],
           payload_length);
+      /* Look for the next frame right after the sync bytes */
+      unread_ubx_bytes(frame, 4, state);
       continue;
     }
 
@@ -210,6 +237,9 @@ static int read_ubx_frame(u8 *frame, struct ubx_sbp_state *state) {
     u8 checksum[2];
     ubx_checksum(frame, 4 + payload_length, (u8 *)&checksum);
     if (memcmp(&checksum, frame + 4 + payload_length, 2) != 0) {
+      /* The length itself may be damaged, so look for the next frame right
+       * after the sync bytes */
+      unread_ubx_bytes(frame, 4 + payload_length + 2, state);
       continue;
     }
 #endif
-- 
2.43.0


From fe60c03c0adae4a80a2edb4061c985c635aec68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 59/97] fix: ubx_sbp: converters shared the last position
 solution

The number of satellites, flags and fix type taken from NAV-PVT for other
messages were kept in a static variable, so a new or a second converter
reported those of another one.
---
 .../include/gnss-converters/ubx_sbp.h         |  8 ++++
 c/gnss_converters/src/ubx_sbp.c               | 47 +++++++++----------
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index 3a8f160..3e5a785 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -62,6 +62,13 @@ struct ubx_esf_state {
   bool weeknumber_set;
 };
 
+/* Syncs data between HNR_PVT and NAV_PVT */
+struct ubx_pvt_state {
+  u8 num_sats;
+  u8 flags;
+  u8 fix_type;
+};
+
 struct ubx_sbp_state {
   u8 read_buffer[UBX_BUFFER_SIZE];
   size_t index;
@@ -78,6 +85,7 @@ struct ubx_sbp_state {
   void *context;
   bool use_hnr;
   struct ubx_esf_state esf_state;
+  struct ubx_pvt_state pvt_state;
 
   struct eph_sat_data eph_data;
   u32 last_tow_ms;
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 1fc867a..b89e027 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -101,15 +101,6 @@ static const double ubx_sensortime_scale = 39.0625e-6;
  */
 #define SBP_MAX_NUM_OBS 14
 
-/* Syncs data between HNR_PVT and NAV_PVT */
-struct ubx_pvt_state {
-  u8 num_sats;
-  u8 flags;
-  u8 fix_type;
-};
-
-static struct ubx_pvt_state pvt_state;
-
 static int reload_ubx_buffer(struct ubx_sbp_state *state) {
   state->index = 0;
   int bytes_read = state->read_stream_func(
@@ -432,7 +423,8 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   return 0;
 }
 
-static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
+static int fill_msg_orient_euler(const struct ubx_sbp_state *state,
+                                 swiftnav_bytestream_t *buf,
                                  sbp_msg_orient_euler_t *msg) {
   ubx_nav_att nav_att;
   if (ubx_decode_nav_att_bytestream(buf, &nav_att) != RC_OK) {
@@ -449,15 +441,16 @@ static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
   msg->yaw_accuracy = (float)(nav_att.acc_heading * UBX_NAV_ATT_ACC_SCALING);
 
   msg->flags = 0;
-  if ((pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_DEAD_RECKONING) ||
-      (pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_COMBINED)) {
+  if ((state->pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_DEAD_RECKONING) ||
+      (state->pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_COMBINED)) {
     msg->flags |= SBP_ORIENT_EULER_INS_MASK;
   }
 
   return 0;
 }
 
-static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
+static int fill_msg_pos_llh(struct ubx_sbp_state *state,
+                            swiftnav_bytestream_t *buf,
                             sbp_msg_pos_llh_t *msg) {
   ubx_nav_pvt nav_pvt;
   if (ubx_decode_nav_pvt_bytestream(buf, &nav_pvt) != RC_OK) {
@@ -478,7 +471,7 @@ static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
                               ? max_accuracy
                               : nav_pvt.vertical_accuracy);
   msg->n_sats = nav_pvt.num_sats;
-  pvt_state.num_sats = nav_pvt.num_sats;
+  state->pvt_state.num_sats = nav_pvt.num_sats;
 
   msg->flags = 0;
   if ((nav_pvt.fix_type == UBX_NAV_PVT_FIX_TYPE_NONE) ||
@@ -516,13 +509,14 @@ static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
     msg->flags |= SBP_LLH_INS_MASK;
   }
 
-  pvt_state.flags = msg->flags;
-  pvt_state.fix_type = nav_pvt.fix_type;
+  state->pvt_state.flags = msg->flags;
+  state->pvt_state.fix_type = nav_pvt.fix_type;
 
   return 0;
 }
 
-static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
+static int fill_msg_vel_ecef(const struct ubx_sbp_state *state,
+                             swiftnav_bytestream_t *buf,
                              sbp_msg_vel_ecef_t *msg) {
   ubx_nav_velecef nav_velecef;
   if (ubx_decode_nav_velecef_bytestream(buf, &nav_velecef) != RC_OK) {
@@ -534,10 +528,10 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
   msg->y = nav_velecef.ecefVY * UBX_NAV_VELECEF_SCALING;
   msg->z = nav_velecef.ecefVZ * UBX_NAV_VELECEF_SCALING;
   msg->accuracy = nav_velecef.speed_acc;
-  msg->n_sats = pvt_state.num_sats;
+  msg->n_sats = state->pvt_state.num_sats;
   msg->flags = 0;
   /* Assume either invalid or dead reckoning. Temp. hack */
-  if (pvt_state.fix_type > 0) {
+  if (state->pvt_state.fix_type > 0) {
     msg->flags |= SBP_LLH_DEAD_RECKONING_MASK;
   } else {
     msg->flags = 0;
@@ -548,7 +542,8 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
   return 0;
 }
 
-static void fill_msg_pos_llh_hnr(const ubx_hnr_pvt *hnr_pvt,
+static void fill_msg_pos_llh_hnr(const struct ubx_sbp_state *state,
+                                 const ubx_hnr_pvt *hnr_pvt,
                                  sbp_msg_pos_llh_t *msg) {
   msg->tow = hnr_pvt->i_tow;
   msg->lat = UBX_SBP_LAT_LON_SCALING * hnr_pvt->lat;
@@ -564,8 +559,8 @@ static void fill_msg_pos_llh_hnr(const ubx_hnr_pvt *hnr_pvt,
                               ? max_accuracy
                               : hnr_pvt->vertical_accuracy);
 
-  msg->n_sats = pvt_state.num_sats;
-  msg->flags = pvt_state.flags;
+  msg->n_sats = state->pvt_state.num_sats;
+  msg->flags = state->pvt_state.flags;
 }
 
 static int fill_msg_fwd(swiftnav_bytestream_t *buf, sbp_msg_fwd_t *msg) {
@@ -1009,7 +1004,7 @@ static void handle_hnr_pvt(struct ubx_sbp_state *state,
     return;
   }
 
-  fill_msg_pos_llh_hnr(&hnr_pvt, sbp_pos_llh);
+  fill_msg_pos_llh_hnr(state, &hnr_pvt, sbp_pos_llh);
   state->last_tow_ms = sbp_pos_llh->tow;
 
   sbp_orient_euler->tow = hnr_pvt.i_tow;
@@ -1028,7 +1023,7 @@ static void handle_nav_att(struct ubx_sbp_state *state,
                            swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_orient_euler_t *sbp_orient_euler = &msg.orient_euler;
-  if (fill_msg_orient_euler(inbuf, sbp_orient_euler) == 0) {
+  if (fill_msg_orient_euler(state, inbuf, sbp_orient_euler) == 0) {
     memcpy(&state->last_orient_euler,
            sbp_orient_euler,
            sizeof(sbp_msg_orient_euler_t));
@@ -1043,7 +1038,7 @@ static void handle_nav_pvt(struct ubx_sbp_state *state,
                            swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_pos_llh_t *sbp_pos_llh = &msg.pos_llh;
-  if (fill_msg_pos_llh(inbuf, sbp_pos_llh) == 0) {
+  if (fill_msg_pos_llh(state, inbuf, sbp_pos_llh) == 0) {
     state->last_tow_ms = sbp_pos_llh->tow;
     if (!state->use_hnr) {
       state->cb_ubx_to_sbp(
@@ -1056,7 +1051,7 @@ static void handle_nav_velecef(struct ubx_sbp_state *state,
                                swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_vel_ecef_t *sbp_vel_ecef = &msg.vel_ecef;
-  if (fill_msg_vel_ecef(inbuf, sbp_vel_ecef) == 0) {
+  if (fill_msg_vel_ecef(state, inbuf, sbp_vel_ecef) == 0) {
     state->cb_ubx_to_sbp(state->sender_id, SbpMsgVelEcef, &msg, state->context);
   }
 }
-- 
2.43.0


From 620088f1d14af84144250230a8d195b64b0420bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 60/97] fix: ubx_sbp: measurements of unknown signals were sent
 with an invalid code

A signal that has no SBP code is now left out of the observations.
---
 c/gnss_converters/src/ubx_sbp.c | 34 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index b89e027..a6d22ad 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -394,30 +394,36 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   /* Not proper SBP n_obs. Needed to pass total number of measurements
    * to handle_rxm_rawx
    */
-  *n_obs = rxm_rawx->num_meas;
+  *n_obs = 0;
 
-  for (int i = 0; i < *n_obs; i++) {
+  for (int i = 0; i < rxm_rawx->num_meas; i++) {
+    code_t code =
+        convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
+    if (code == CODE_INVALID) {
+      continue;
+    }
     /* convert units: meter -> 2 cm */
-    obs[i].P = (u32)(UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i]);
-    pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L);
-    pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D);
+    obs->P = (u32)(UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i]);
+    pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs->L);
+    pack_doppler(rxm_rawx->doppler_hz[i], &obs->D);
     /* check for overflow */
     if (rxm_rawx->cno_dbhz[i] > 0x3F) {
-      obs[i].cn0 = 0xFF;
+      obs->cn0 = 0xFF;
     } else {
-      obs[i].cn0 = 4 * rxm_rawx->cno_dbhz[i];
+      obs->cn0 = 4 * rxm_rawx->cno_dbhz[i];
     }
     /* TODO(STAR-919) converts from u32 ms, to double s; encode_lock_time
      * internally converts back to u32 ms.
      */
-    obs[i].lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
-    obs[i].flags = 0;
+    obs->lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
+    obs->flags = 0;
     /* currently assumes all doppler are valid */
-    obs[i].flags |= SBP_OBS_DOPPLER_MASK;
-    obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
-    obs[i].sid.sat = rxm_rawx->sat_id[i];
-    obs[i].sid.code =
-        convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
+    obs->flags |= SBP_OBS_DOPPLER_MASK;
+    obs->flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
+    obs->sid.sat = rxm_rawx->sat_id[i];
+    obs->sid.code = code;
+    obs++;
+    (*n_obs)++;
   }
 
   return 0;
-- 
2.43.0


From d3377168a117d606aabc7d7dd466476c044a9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 61/97] fix: ubx_sbp: measurements out of range were sent as
 valid garbage

A carrier phase or Doppler too large for its SBP field was left
uninitialised and a pseudorange wrapped around, all of them still marked as
valid.
---
 c/gnss_converters/src/ubx_sbp.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index a6d22ad..42842e1 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -86,6 +86,8 @@
 
 #define UBX_SBP_PSEUDORANGE_SCALING (50)
 
+#define SBP_OBS_PSEUDORANGE_MASK (1 << 0)
+#define SBP_OBS_PHASE_MASK (3 << 1)
 #define SBP_OBS_DOPPLER_MASK (1 << 3)
 #define SBP_OBS_TRACK_STATE_MASK (0x07)
 
@@ -316,7 +318,7 @@ static code_t convert_ubx_gnssid_sigid(u8 gnss_id, u8 sig_id) {
 
 static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
   double Li = floor(L_in);
-  if (Li < INT32_MIN || Li > INT32_MAX) {
+  if (!(Li >= INT32_MIN && Li < INT32_MAX)) {
     return false;
   }
 
@@ -336,7 +338,7 @@ static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
 /* TODO(STAR-920) Move pack_* functions into libsbp or libswitfnav */
 static bool pack_doppler(double D_in, sbp_doppler_t *D_out) {
   double Di = floor(D_in);
-  if (Di < INT16_MIN || Di > INT16_MAX) {
+  if (!(Di >= INT16_MIN && Di < INT16_MAX)) {
     return false;
   }
 
@@ -402,10 +404,24 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
     if (code == CODE_INVALID) {
       continue;
     }
+    memset(obs, 0, sizeof(*obs));
+    /* currently assumes all doppler are valid */
+    obs->flags |= SBP_OBS_DOPPLER_MASK;
+    obs->flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
     /* convert units: meter -> 2 cm */
-    obs->P = (u32)(UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i]);
-    pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs->L);
-    pack_doppler(rxm_rawx->doppler_hz[i], &obs->D);
+    double P = UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i];
+    /* a value that does not fit is not valid */
+    if (P >= 0 && P <= UINT32_MAX) {
+      obs->P = (u32)P;
+    } else {
+      obs->flags &= ~SBP_OBS_PSEUDORANGE_MASK;
+    }
+    if (!pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs->L)) {
+      obs->flags &= ~SBP_OBS_PHASE_MASK;
+    }
+    if (!pack_doppler(rxm_rawx->doppler_hz[i], &obs->D)) {
+      obs->flags &= ~SBP_OBS_DOPPLER_MASK;
+    }
     /* check for overflow */
     if (rxm_rawx->cno_dbhz[i] > 0x3F) {
       obs->cn0 = 0xFF;
@@ -416,10 +432,6 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
      * internally converts back to u32 ms.
      */
     obs->lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
-    obs->flags = 0;
-    /* currently assumes all doppler are valid */
-    obs->flags |= SBP_OBS_DOPPLER_MASK;
-    obs->flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
     obs->sid.sat = rxm_rawx->sat_id[i];
     obs->sid.code = code;
     obs++;
-- 
2.43.0


From baee458094ccf54d6716b68881afdf3d8a25cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 62/97] fix: ubx_sbp: observations just before the end of the
 week were out of range

A time of week that rounds up to a full week now becomes the start of the
next week.
---
 c/gnss_converters/src/ubx_sbp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 42842e1..3bb9fc4 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -393,6 +393,13 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   } else {
     obs_time->wn = rxm_rawx->rcv_wn;
   }
+  if (obs_time->tow >= WEEK_MS) {
+    /* the time was rounded up into the next week */
+    obs_time->tow -= WEEK_MS;
+    if (rxm_rawx->rcv_wn != 0) {
+      obs_time->wn++;
+    }
+  }
   /* Not proper SBP n_obs. Needed to pass total number of measurements
    * to handle_rxm_rawx
    */
-- 
2.43.0


From 383340cdf94dc9cba691cc47b9e6b80a44f0c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 63/97] fix: ubx_sbp: numbering of more than 15 observation
 messages overflowed

One epoch cannot have more than 15 observation messages, so measurements
beyond what they hold are dropped instead of damaging the numbering.
---
 c/gnss_converters/src/ubx_sbp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 3bb9fc4..7b6ffb4 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -103,6 +103,9 @@ static const double ubx_sensortime_scale = 39.0625e-6;
  */
 #define SBP_MAX_NUM_OBS 14
 
+/* The number of messages of one epoch is sent in four bits */
+#define SBP_MAX_NUM_OBS_MSGS 15
+
 static int reload_ubx_buffer(struct ubx_sbp_state *state) {
   state->index = 0;
   int bytes_read = state->read_stream_func(
@@ -406,6 +409,10 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   *n_obs = 0;
 
   for (int i = 0; i < rxm_rawx->num_meas; i++) {
+    if (*n_obs >= SBP_MAX_NUM_OBS * SBP_MAX_NUM_OBS_MSGS) {
+      log_warn("Too many measurements for one epoch: %d", rxm_rawx->num_meas);
+      break;
+    }
     code_t code =
         convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
     if (code == CODE_INVALID) {
-- 
2.43.0


From 15e69be97a4e7e8f2380f3db0667fd184b5771e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 64/97] fix: ubx_sbp: QZSS satellites were sent with u-blox
 numbers

u-blox numbers QZSS satellites from 1, SBP by their PRN from 193.
---
 c/gnss_converters/src/ubx_sbp.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 7b6ffb4..4a773d0 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -319,6 +319,14 @@ static code_t convert_ubx_gnssid_sigid(u8 gnss_id, u8 sig_id) {
   return CODE_INVALID;
 }
 
+static u8 convert_ubx_gnssid_svid(u8 gnss_id, u8 sv_id) {
+  if (gnss_id == UBX_GNSS_ID_QZSS) {
+    /* UBX counts QZSS satellites from 1 */
+    return sv_id + QZS_FIRST_PRN - 1;
+  }
+  return sv_id;
+}
+
 static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
   double Li = floor(L_in);
   if (!(Li >= INT32_MIN && Li < INT32_MAX)) {
@@ -446,7 +454,8 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
      * internally converts back to u32 ms.
      */
     obs->lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
-    obs->sid.sat = rxm_rawx->sat_id[i];
+    obs->sid.sat =
+        convert_ubx_gnssid_svid(rxm_rawx->gnss_id[i], rxm_rawx->sat_id[i]);
     obs->sid.code = code;
     obs++;
     (*n_obs)++;
@@ -1115,7 +1124,7 @@ static void handle_nav_sat(struct ubx_sbp_state *state,
 
     ubx_nav_sat_data *data = &nav_sat.data[i];
 
-    u8 sat_id = data->sv_id;
+    u8 sat_id = convert_ubx_gnssid_svid(data->gnss_id, data->sv_id);
     u8 code = convert_ubx_gnssid_sigid(data->gnss_id,
                                        0); /* always zero for UBX-NAV-SAT */
 
-- 
2.43.0


From ee007b4f93b6a8d1470b42e1f13844c3f38a2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 65/97] fix: ubx_ephemeris: a GLONASS string numbered 0 was
 stored before the page store

String number 0 shifted by a negative count and wrote the string in front
of the satellite's strings.
---
 c/gnss_converters/src/ubx_ephemeris/glo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/glo.c b/c/gnss_converters/src/ubx_ephemeris/glo.c
index ed80926..ae9a554 100644
--- a/c/gnss_converters/src/ubx_ephemeris/glo.c
+++ b/c/gnss_converters/src/ubx_ephemeris/glo.c
@@ -92,7 +92,7 @@ void glo_decode_string(
   }
 
   u8 string_num = (words[0] >> 27U) & 0xFU;
-  if (string_num > GLO_MAX_STRING_NUM) {
+  if (string_num < 1 || string_num > GLO_MAX_STRING_NUM) {
     /* only strings 1-5 needed for ephemeris */
     return;
   }
-- 
2.43.0


From b6db8bfb17fd4c67d2f49824ed016ac0b77d59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 66/97] fix: ubx_ephemeris: a GPS subframe of the new data set
 was discarded with the old ones

When the third subframe showed that the stored ones mixed two data sets, the
subframes of its own data set were discarded too, and the complete set was
not decoded.
---
 c/gnss_converters/src/ubx_ephemeris/gps.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/gps.c b/c/gnss_converters/src/ubx_ephemeris/gps.c
index 81cb008..9d67213 100644
--- a/c/gnss_converters/src/ubx_ephemeris/gps.c
+++ b/c/gnss_converters/src/ubx_ephemeris/gps.c
@@ -97,9 +97,14 @@ void gps_decode_subframe(struct ubx_sbp_state *data,
   u8 iode8_sf3 = (sat->sf[2].words[9] >> 22U) & 0xFFU;
 
   if ((iodc8_sf1 != iode8_sf2) || (iode8_sf2 != iode8_sf3)) {
-    // Invalidate the out of date subframes (i.e. all but sf_idx, which is this
-    // one).
-    invalidate_subframes(sat, /*mask=*/0x7 & ~(1U << sf_idx));
+    // Invalidate the out of date subframes (i.e. all that do not belong to the
+    // data set of sf_idx, which is this one).
+    const u8 iods[3] = {iodc8_sf1, iode8_sf2, iode8_sf3};
+    for (int i = 0; i < 3; i++) {
+      if (iods[i] != iods[sf_idx]) {
+        invalidate_subframes(sat, /*mask=*/1U << i);
+      }
+    }
     return;
   }
 
-- 
2.43.0


From cb2c034690826568699edf1c6595aa991286fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 67/97] fix: keep the SBAS message time within the week at its
 start

---
 c/gnss_converters/src/ubx_sbp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 4a773d0..b02028c 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1332,10 +1332,10 @@ static void handle_rxm_sfrbx(struct ubx_sbp_state *state,
     /* Fill in the approximate time of transmission of the start of the SBAS
      * message. The best guess for it we have is the current solution time
      * minus 1 s (length of the message) minus 120 ms (~= 36000km / 3e8m/s). */
-    tow_ms -= 1120;
-    if (tow_ms < 0.0) {
+    if (tow_ms < 1120) {
       tow_ms += WEEK_MS;
     }
+    tow_ms -= 1120;
 
     sbas_decode_subframe(&state->eph_data,
                          tow_ms,
-- 
2.43.0


From b0f2ad602780b3eb4bf8b4e54ce440d25118c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 68/97] fix: bound the velocity accuracy of NAV-VELECEF

---
 c/gnss_converters/src/ubx_sbp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index b02028c..4e6040f 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -568,7 +568,10 @@ static int fill_msg_vel_ecef(const struct ubx_sbp_state *state,
   msg->x = nav_velecef.ecefVX * UBX_NAV_VELECEF_SCALING;
   msg->y = nav_velecef.ecefVY * UBX_NAV_VELECEF_SCALING;
   msg->z = nav_velecef.ecefVZ * UBX_NAV_VELECEF_SCALING;
-  msg->accuracy = nav_velecef.speed_acc;
+  /* bounding u32 -> u16 conversion */
+  msg->accuracy = (u16)(nav_velecef.speed_acc > UINT16_MAX
+                            ? UINT16_MAX
+                            : nav_velecef.speed_acc);
   msg->n_sats = state->pvt_state.num_sats;
   msg->flags = 0;
   /* Assume either invalid or dead reckoning. Temp. hack */
-- 
2.43.0


From 9156d902ee76ca8edb0cf84f138cca751df32940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 69/97] fix: keep odometry times going when the calibration
 time tag wraps around

---
 c/gnss_converters/src/ubx_sbp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 4e6040f..a085ee6 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -715,8 +715,7 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
       // cached in the state object and would cause wrap around and
       // errors down the processing chain
       if ((state->esf_state.running_odo_msss != -1) &&
-          ((uint64_t)esf_meas.calib_tag -
-           (uint64_t)state->esf_state.running_odo_msss) > 1000) {
+          (esf_meas.calib_tag - state->esf_state.last_odo_msss) > 1000) {
         state->esf_state.running_odo_msss = -1;
         // The first packet after a reset appears to contain bad data so just
         // drop it, the next packet to arrive should be valid
-- 
2.43.0


From cb6d7f216de81e18796f9535af97994ec2fbc8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 70/97] fix: count the ticks of each wheel separately

---
 .../include/gnss-converters/ubx_sbp.h         |  6 +++--
 c/gnss_converters/src/ubx_sbp.c               | 25 +++++++++++--------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index 3e5a785..485d04a 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -46,6 +46,8 @@ extern "C" {
 
 #define UBX_UNKNOWN_PRN 255
 
+#define UBX_WHEELTICK_SOURCE_COUNT 4
+
 /* Stores state for ESF-* messages */
 struct ubx_esf_state {
   gps_time_t last_obs_time_gnss;
@@ -55,8 +57,8 @@ struct ubx_esf_state {
   u32 last_imu_msss;
   u32 last_odo_msss;
   u32 imu_raw_msgs_sent;
-  u32 last_input_tick_count;
-  s32 output_tick_count;
+  u32 last_input_tick_count[UBX_WHEELTICK_SOURCE_COUNT];
+  s32 output_tick_count[UBX_WHEELTICK_SOURCE_COUNT];
   double last_imu_temp;
   bool temperature_set;
   bool weeknumber_set;
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index a085ee6..7ab8b31 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -743,22 +743,25 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
       } else {
         u32 tick_count = data_value & 0x3FFFFF;
         bool reverse = (data_value & (1 << 23)) >> 23;
-        if (state->esf_state.last_input_tick_count == UINT32_MAX) {
-          state->esf_state.last_input_tick_count = tick_count;
-          state->esf_state.output_tick_count = tick_count;
+        u8 source = get_wheeltick_velocity_source(data_type);
+        u32 *last_input_tick_count =
+            &state->esf_state.last_input_tick_count[source];
+        s32 *output_tick_count = &state->esf_state.output_tick_count[source];
+        if (*last_input_tick_count == UINT32_MAX) {
+          *output_tick_count = tick_count;
         } else {
-          u32 increment = tick_count - state->esf_state.last_input_tick_count;
-          state->esf_state.last_input_tick_count = tick_count;
+          u32 increment = tick_count - *last_input_tick_count;
           if (reverse) {
-            state->esf_state.output_tick_count -= increment;
+            *output_tick_count -= increment;
           } else {
-            state->esf_state.output_tick_count += increment;
+            *output_tick_count += increment;
           }
         }
+        *last_input_tick_count = tick_count;
         sbp_msg_wheeltick_t *msg_wheeltick = &msg.wheeltick;
         set_wheeltick_time(state->esf_state.running_odo_msss, msg_wheeltick);
-        msg_wheeltick->source = get_wheeltick_velocity_source(data_type);
-        msg_wheeltick->ticks = state->esf_state.output_tick_count;
+        msg_wheeltick->source = source;
+        msg_wheeltick->ticks = *output_tick_count;
         state->cb_ubx_to_sbp(
             state->sender_id, SbpMsgWheeltick, &msg, state->context);
       }
@@ -1451,7 +1454,9 @@ void ubx_sbp_init(struct ubx_sbp_state *state,
   state->esf_state.running_imu_msss = -1;
   state->esf_state.running_odo_msss = -1;
 
-  state->esf_state.last_input_tick_count = UINT32_MAX;
+  for (int i = 0; i < UBX_WHEELTICK_SOURCE_COUNT; i++) {
+    state->esf_state.last_input_tick_count[i] = UINT32_MAX;
+  }
 
   state->leap_second_known = false;
 }
-- 
2.43.0


From 85012f21338a2e786bc0fe9dd16c5a8db0b6d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 71/97] fix: keep wheel ticks going when the tick counter wraps
 around

---
 c/gnss_converters/src/ubx_sbp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 7ab8b31..35371c4 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -750,7 +750,8 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
         if (*last_input_tick_count == UINT32_MAX) {
           *output_tick_count = tick_count;
         } else {
-          u32 increment = tick_count - *last_input_tick_count;
+          /* The tick counter of the receiver wraps around */
+          u32 increment = (tick_count - *last_input_tick_count) & 0x3FFFFF;
           if (reverse) {
             *output_tick_count -= increment;
           } else {
-- 
2.43.0


From 54985bf59800ff5610c49bbdde719579812e0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 72/97] fix: do not lose a millisecond of the odometry time

---
 c/gnss_converters/src/ubx_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 35371c4..b446887 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -683,7 +683,7 @@ static void set_odo_time(s64 msss, sbp_msg_odometry_t *msg_odo) {
   const double kMilliseconds = 0.001;
   gps_time_t tmp = {.tow = kMilliseconds * msss, .wn = 0};
   normalize_gps_time(&tmp);
-  msg_odo->tow = (u32)(tmp.tow * SECS_MS);
+  msg_odo->tow = (u32)lround(tmp.tow * SECS_MS);
 }
 
 static void handle_esf_meas(struct ubx_sbp_state *state,
-- 
2.43.0


From ccf703cbd90142187e241dbd2fd8fb187fd655b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 73/97] fix: bound the C/N0 of NAV-SAT

---
 c/gnss_converters/src/ubx_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index b446887..fbb2b6b 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1143,7 +1143,7 @@ static void handle_nav_sat(struct ubx_sbp_state *state,
     msg_meas_state->states[msg_meas_state->n_states].mesid.sat = sat_id;
     msg_meas_state->states[msg_meas_state->n_states].mesid.code = code;
     msg_meas_state->states[msg_meas_state->n_states].cn0 =
-        lround((double)data->cno * 4.0);
+        data->cno > 0x3F ? 0xFF : lround((double)data->cno * 4.0);
     msg_meas_state->n_states++;
 
     /* send SBP_MSG_SV_AZ_EL if full */
-- 
2.43.0


From 778488f1a3e7596363c749fb125eb24a6949afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 74/97] fix: keep the GNSS time offset when the receiver's time
 counter wraps around

---
 c/gnss_converters/src/ubx_sbp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index fbb2b6b..2f5c31e 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1215,7 +1215,13 @@ static void handle_nav_status(struct ubx_sbp_state *state,
 
     if (gps_time_valid(&state->esf_state.last_imu_time_msss)) {
       gps_time_t nav_status_time_local;
-      nav_status_time_local.tow = 0.001 * nav_status.msss;
+      /* Local time goes on when the receiver's counter wraps around */
+      s64 local_msss = nav_status.msss;
+      if (state->esf_state.running_imu_msss != -1) {
+        local_msss = state->esf_state.running_imu_msss +
+                     (s32)(nav_status.msss - state->esf_state.last_imu_msss);
+      }
+      nav_status_time_local.tow = 0.001 * local_msss;
       nav_status_time_local.wn = 0;
       if (!normalize_gps_time_safe(&nav_status_time_local)) {
         return;
-- 
2.43.0


From 8fe563479afe14ea7c7a7a9b687049dec7ec79a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 75/97] fix: saturate the iXCOM odometry speed

---
 c/gnss_converters/src/ixcom_sbp.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index d55b09a..f799cf0 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -131,6 +131,17 @@ int16_t float_to_s16_clamped(float val) {
   return ret;
 }
 
+static s32 mps_to_mmps_clamped(float val) {
+  const double mmps = (double)val * 1000;
+  if (mmps < INT32_MIN) {
+    return INT32_MIN;
+  }
+  if (mmps > INT32_MAX) {
+    return INT32_MAX;
+  }
+  return (s32)mmps;
+}
+
 void handle_imuraw(struct ixcom_sbp_state *state) {
   assert(state);
 
@@ -183,7 +194,7 @@ void handle_wheeldata(struct ixcom_sbp_state *state) {
 
     sbp_wheeldata.odometry.tow = wheeldata.header.gps_time_sec * 1000 +
                                  wheeldata.header.gps_time_usec / 1000;
-    sbp_wheeldata.odometry.velocity = (s32)(wheeldata.speed * 1000);
+    sbp_wheeldata.odometry.velocity = mps_to_mmps_clamped(wheeldata.speed);
     sbp_wheeldata.odometry.flags = ODO_TIMESOURCE_GPS;
 
     state->cb_ixcom_to_sbp(
-- 
2.43.0


From ed1507c82d16eba482641bbd0afe3497e3b39c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 76/97] fix: refuse iXCOM messages whose length is not that of
 their kind

---
 c/libixcom/src/decode.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/libixcom/src/decode.c b/c/libixcom/src/decode.c
index e5f780e..2fd0c50 100644
--- a/c/libixcom/src/decode.c
+++ b/c/libixcom/src/decode.c
@@ -143,6 +143,10 @@ ixcom_rc ixcom_decode_imuraw(const uint8_t buff[], XCOMmsg_IMURAW *msg_imuraw) {
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  if (msg_imuraw->header.msg_len != sizeof(*msg_imuraw)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   for (int i = 0; i < 3; i++) {
     // clang-format off
     byte_offset += ixcom_set_bytes(
@@ -185,6 +189,10 @@ ixcom_rc ixcom_decode_wheeldata(const uint8_t buff[],
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  if (msg_wheeldata->header.msg_len != sizeof(*msg_wheeldata)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   // clang-format off
   byte_offset += ixcom_set_bytes(
       buff + byte_offset, (uint8_t *)(&msg_wheeldata->speed), 4);
-- 
2.43.0


From d4d95330c7d672c8f734d3cd5cf7a76232a4e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 77/97] fix: find every intact iXCOM message whatever comes
 before it

---
 c/gnss_converters/src/ixcom_sbp.c | 84 +++++++++++++++++++------------
 1 file changed, 52 insertions(+), 32 deletions(-)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index f799cf0..9f9f1cc 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -33,7 +33,7 @@ void ixcom_set_sender_id(struct ixcom_sbp_state *state, u16 sender_id) {
 }
 
 static int read_ixcom_bytes(struct ixcom_sbp_state *state, size_t num_bytes) {
-  assert(state->index + num_bytes < IXCOM_BUFFER_SIZE);
+  assert(state->index + num_bytes <= IXCOM_BUFFER_SIZE);
 
   int ret = state->read_stream_func(
       state->read_buffer + state->index, num_bytes, state->context);
@@ -45,51 +45,69 @@ static int read_ixcom_bytes(struct ixcom_sbp_state *state, size_t num_bytes) {
   return ret;
 }
 
+static void drop_ixcom_bytes(struct ixcom_sbp_state *state, size_t num_bytes) {
+  assert(num_bytes <= state->index);
+
+  state->index -= num_bytes;
+  memmove(state->read_buffer, state->read_buffer + num_bytes, state->index);
+}
+
+static size_t get_message_length(const struct ixcom_sbp_state *state) {
+  return state->read_buffer[4] + (state->read_buffer[5] << 8);
+}
+
+static bool is_checksum_valid(const struct ixcom_sbp_state *state,
+                              size_t message_length) {
+  const u8 *crc = &state->read_buffer[message_length - 2];
+
+  return ixcom_checksum(state->read_buffer, message_length - 2) ==
+         crc[0] + (crc[1] << 8);
+}
+
 /** IXCOM Frame:
  * SYNC byte | Message ID | Frame Counter | Reserved | Message Length (2 bytes)
  * | GPS Week (2 bytes) | GPS TOW (8 bytes) | Payload (variable) | CRC16 (2
  * bytes)
+ *
+ * Bytes which turn out not to start a valid frame are searched again for the
+ * start of the next one.
  */
 static int read_ixcom_frame(struct ixcom_sbp_state *state) {
-  int ret;
-
-  do {
-    if (state->index == 0) {
-      ret = read_ixcom_bytes(state, 1);
-      if (ret <= 0) {
-        break;
-      }
-
-      if (state->read_buffer[0] != XCOM_SYNC_BYTE) {
-        state->index = 0;
-        continue;
-      }
-    }
+  const size_t header_size = sizeof(XCOMHeader);
 
-    size_t header_size = sizeof(XCOMHeader);
-    if (state->index > 0 && state->index < header_size) {
-      ret = read_ixcom_bytes(state, header_size - state->index);
-      if (ret <= 0) {
-        break;
-      }
+  while (true) {
+    size_t num_junk = 0;
+    while (num_junk < state->index &&
+           state->read_buffer[num_junk] != XCOM_SYNC_BYTE) {
+      num_junk++;
     }
+    drop_ixcom_bytes(state, num_junk);
 
+    size_t needed = 1;
     if (state->index >= header_size) {
-      size_t message_length =
-          state->read_buffer[4] + (state->read_buffer[5] << 8);
-
-      ret = read_ixcom_bytes(state, message_length - state->index);
-      if (ret <= 0) {
-        break;
+      const size_t message_length = get_message_length(state);
+      if (message_length < header_size + sizeof(XCOMFooter) ||
+          message_length > IXCOM_FRAME_SIZE) {
+        drop_ixcom_bytes(state, 1);
+        continue;
       }
-
       if (state->index >= message_length) {
-        return message_length;
+        if (is_checksum_valid(state, message_length)) {
+          return (int)message_length;
+        }
+        drop_ixcom_bytes(state, 1);
+        continue;
       }
+      needed = message_length;
+    } else if (state->index > 0) {
+      needed = header_size;
     }
-  } while (true);
 
-  return ret;
+    int ret = read_ixcom_bytes(state, needed - state->index);
+    if (ret <= 0) {
+      return ret;
+    }
+  }
 }
 
 /**
@@ -232,7 +250,9 @@ void ixcom_handle_frame(struct ixcom_sbp_state *state) {
       break;
   }
 
-  state->index = 0;
+  const size_t message_length = get_message_length(state);
+  drop_ixcom_bytes(
+      state, message_length < state->index ? message_length : state->index);
 }
 
 /**
-- 
2.43.0


From 3acc0d941239af749b1ebd12b8f4241abfe5eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 78/97] fix: keep the NMEA GST error ellipse finite and
 correctly oriented

---
 c/gnss_converters/src/nmea.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 7ed5a44..ed02b69 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1052,16 +1052,13 @@ void send_gpgst(sbp2nmea_t *state) {
   double eigenval_2 = (trace / 2 - sqrt(fmax(0, ((trace * trace) / 4) - det)));
 
   double semi_major = sqrt(eigenval_1);
-  double semi_minor = sqrt(eigenval_2);
-
-  double orientation = 0.0;
-  if (eigenval_1 > 0 && sbp_pos_llh_cov->cov_e_e < eigenval_1) {
-    orientation = atan(sbp_pos_llh_cov->cov_n_e /
-                       (eigenval_1 - sbp_pos_llh_cov->cov_e_e)) *
-                  R2D;
-  } else if (eigenval_1 > 0) {
-    orientation = 90.0;
-  }
+  /* rounding may leave the smaller eigenvalue just below zero */
+  double semi_minor = sqrt(fmax(0, eigenval_2));
+
+  double orientation =
+      atan2(2.0 * sbp_pos_llh_cov->cov_n_e,
+            (double)sbp_pos_llh_cov->cov_n_n - sbp_pos_llh_cov->cov_e_e) /
+      2 * R2D;
 
   NMEA_SENTENCE_PRINTF("%f,%f,%.1f,%f,%f,%f",
                        semi_major,
-- 
2.43.0


From cc46e5c89ffd5e461de3d3675eb2e33dd129eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 79/97] fix: wrap NMEA HDT headings that round to 360 degrees

---
 c/gnss_converters/src/nmea.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index ed02b69..430600e 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -834,10 +834,14 @@ void send_gphdt(sbp2nmea_t *state) {
   NMEA_SENTENCE_PRINTF("$GPHDT,"); /* Command */
   if ((POSITION_MODE_MASK & sbp_baseline_heading->flags) ==
       POSITION_MODE_FIXED) {
-    NMEA_SENTENCE_PRINTF(
-        "%.2f,T",
-        (float)sbp_baseline_heading->heading /
-            MSG_HEADING_SCALE_FACTOR); /* Heading only valid when fixed */
+    double heading =
+        (double)sbp_baseline_heading->heading / MSG_HEADING_SCALE_FACTOR;
+    /* 360.00 is not a valid heading, it should wrap around to 0 */
+    if (heading >= 359.995) {
+      heading = 0;
+    }
+    NMEA_SENTENCE_PRINTF("%.2f,T",
+                         heading); /* Heading only valid when fixed */
   } else {
     NMEA_SENTENCE_PRINTF(",T"); /* Heading only valid when fixed */
   }
-- 
2.43.0


From 0d343e6e3fc1ab7888dd13e1e4dcb14edb543e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 80/97] fix: leave room for the whole PUBX,00 sentence

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 430600e..86dbccf 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1254,7 +1254,7 @@ void send_pubx(sbp2nmea_t *state) {
     fix_type = get_nmea_quality_indicator(sbp_pos_llh_cov->flags);
   }
 
-  NMEA_SENTENCE_START(120);
+  NMEA_SENTENCE_START(200);
   NMEA_SENTENCE_PRINTF("$PUBX,00,");
 
   // UTC
-- 
2.43.0


From 8662de27b566bce6f858bbe451daaf8f0bdc4c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 81/97] fix: look only at the time source to tell whether UTC
 time is known

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 86dbccf..7651dc8 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -247,7 +247,7 @@ void get_utc_time_string(bool time,
                          u8 size) {
   char *buf_end = utc_str + size;
 
-  if (sbp_utc_time->flags == 0) {
+  if ((sbp_utc_time->flags & TIME_SOURCE_MASK) == NO_TIME) {
     /* print empty fields */
     if (time) {
       vsnprintf_wrap(&utc_str, buf_end, ",");
-- 
2.43.0


From a29cbfe1409d88010e881d7bb16ec124666ed82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 82/97] fix: report an azimuth of 360 degrees as 0 in NMEA GSV

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 7651dc8..e8e0d8a 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1165,7 +1165,7 @@ void send_gsv(sbp2nmea_t *state) {
     nmea_gsv_element_t element = {.sid = sbp_azel->azel[i].sid,
                                   .has_azel = true,
                                   .has_snr = false,
-                                  .az = 2 * sbp_azel->azel[i].az,
+                                  .az = (2 * sbp_azel->azel[i].az) % 360,
                                   .el = sbp_azel->azel[i].el};
 
     /* pick CN0 from the measurement state */
-- 
2.43.0


From 3185a6ea87523dc2f692f97d2f11ed7a67802d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 83/97] fix: report QZSS satellites by their PRN in NMEA

---
 c/gnss_converters/src/nmea.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index e8e0d8a..3811e12 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -46,9 +46,6 @@
 /* BDS NMEA SV IDs are from 401 to 437 */
 #define NMEA_SV_ID_OFFSET_BDS2 (400)
 
-/* QZSS NMEA SV IDs are from 193 to 197 */
-#define NMEA_SV_ID_OFFSET_QZSS (192)
-
 /* Max SVs reported per GSA message */
 #define GSA_MAX_SV 12
 
@@ -447,7 +444,8 @@ static u16 nmea_get_id(const sbp_v4_gnss_signal_t sid) {
       id = NMEA_SV_ID_OFFSET_SBAS + sid.sat;
       break;
     case CONSTELLATION_QZS:
-      id = NMEA_SV_ID_OFFSET_QZSS + sid.sat;
+      /* QZSS NMEA SV IDs are the PRNs, which start from 193 */
+      id = sid.sat;
       break;
     case CONSTELLATION_COUNT:
     case CONSTELLATION_INVALID:
-- 
2.43.0


From c93e90056d657d5ee66a59ca5c74a402ffce1d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 84/97] fix: send fused NMEA sentences when the fused solution
 is requested

---
 c/gnss_converters/src/sbp_nmea.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 0d78f9d..16b3fda 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -423,7 +423,8 @@ void sbp2nmea_init(sbp2nmea_t *state,
   state->cb_sbp_to_nmea = cb_sbp_to_nmea;
   state->ctx = ctx;
   state->requested_mode = mode;
-  state->actual_mode = SBP2NMEA_MODE_GNSS;
+  state->actual_mode = mode == SBP2NMEA_MODE_FUSED ? SBP2NMEA_MODE_FUSED
+                                                    : SBP2NMEA_MODE_GNSS;
   state->last_non_stationary_cog = 0;
   state->cog_update_threshold_mps = NMEA_COG_STATIC_LIMIT_MPS;
 }
-- 
2.43.0


From 92654ffcba5670d0a8b390cdc9cdbb14d96632df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:34 +0000
Subject: [PATCH 85/97] fix: do not rely on the position of an NMEA epoch
 without a fix

---
 c/gnss_converters/src/nmea.c | 60 ++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 3811e12..5ad6334 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -304,6 +304,24 @@ void get_utc_time_string(bool time,
    raw positioning modes.
 */
 
+/* Whether the flags of a position stand for a fix. The position of a message
+ * without one has no meaning; position modes that are not known are treated
+ * the same. */
+static bool has_position_fix(u8 flags) {
+  switch (flags & POSITION_MODE_MASK) {
+    case POSITION_MODE_SPP:
+    case POSITION_MODE_DGNSS:
+    case POSITION_MODE_FLOAT:
+    case POSITION_MODE_FIXED:
+    case POSITION_MODE_DEAD_RECKONING:
+    case POSITION_MODE_SBAS:
+      return true;
+    case POSITION_MODE_NONE:
+    default:
+      return false;
+  }
+}
+
 /** Assemble a NMEA GPGGA message and send it out NMEA USARTs.
  * NMEA GPGGA message contains Global Positioning System Fix Data.
  *
@@ -344,8 +362,9 @@ void send_gpgga(sbp2nmea_t *state) {
     age = sbp_soln_meta->age_corrections;
   }
 
-  double lat = fabs(round(sbp_pos_llh_cov->lat * 1e8) / 1e8);
-  double lon = fabs(round(sbp_pos_llh_cov->lon * 1e8) / 1e8);
+  bool has_fix = has_position_fix(sbp_pos_llh_cov->flags);
+  double lat = has_fix ? fabs(round(sbp_pos_llh_cov->lat * 1e8) / 1e8) : 0;
+  double lon = has_fix ? fabs(round(sbp_pos_llh_cov->lon * 1e8) / 1e8) : 0;
 
   char lat_dir = sbp_pos_llh_cov->lat < 0.0 ? 'S' : 'N';
   assert(lat <= UINT16_MAX);
@@ -358,7 +377,7 @@ void send_gpgga(sbp2nmea_t *state) {
   double lon_min = (lon - (double)lon_deg) * 60.0;
 
   u8 fix_type = NMEA_GGA_QI_INVALID;
-  if ((sbp_pos_llh_cov->flags & POSITION_MODE_MASK) != POSITION_MODE_NONE) {
+  if (has_fix) {
     fix_type = get_nmea_quality_indicator(sbp_pos_llh_cov->flags);
   }
 
@@ -382,8 +401,9 @@ void send_gpgga(sbp2nmea_t *state) {
   }
   NMEA_SENTENCE_PRINTF("%01d,", fix_type);
 
-  float geoid_height =
-      get_geoid_offset(sbp_pos_llh_cov->lat * D2R, sbp_pos_llh_cov->lon * D2R);
+  float geoid_height = has_fix ? get_geoid_offset(sbp_pos_llh_cov->lat * D2R,
+                                                  sbp_pos_llh_cov->lon * D2R)
+                               : 0;
   if (fix_type == NMEA_GGA_QI_EST) {
     NMEA_SENTENCE_PRINTF("%02d,,%.2f,M,%.2f,M,",
                          sbp_pos_llh_cov->n_sats,
@@ -697,8 +717,9 @@ void send_gprmc(sbp2nmea_t *state) {
       &sbp2nmea_msg_get(state, SBP2NMEA_SBP_UTC_TIME, true)->utc_time;
   /* See the relevant comment for the similar code in nmea_gpgga() function
      for the reasoning behind (... * 1e8 / 1e8) trick */
-  double lat = fabs(round(sbp_pos_llh_cov->lat * 1e8) / 1e8);
-  double lon = fabs(round(sbp_pos_llh_cov->lon * 1e8) / 1e8);
+  bool has_fix = has_position_fix(sbp_pos_llh_cov->flags);
+  double lat = has_fix ? fabs(round(sbp_pos_llh_cov->lat * 1e8) / 1e8) : 0;
+  double lon = has_fix ? fabs(round(sbp_pos_llh_cov->lon * 1e8) / 1e8) : 0;
 
   char lat_dir = sbp_pos_llh_cov->lat < 0.0 ? 'S' : 'N';
   assert(lat <= UINT16_MAX);
@@ -731,7 +752,7 @@ void send_gprmc(sbp2nmea_t *state) {
   NMEA_SENTENCE_PRINTF("%c,", /* Status */
                        status);
 
-  if ((sbp_pos_llh_cov->flags & POSITION_MODE_MASK) != POSITION_MODE_NONE) {
+  if (has_fix) {
     NMEA_SENTENCE_PRINTF("%02u%010.7f,%c,%03u%010.7f,%c,", /* Lat/Lon */
                          lat_deg,
                          lat_min,
@@ -862,7 +883,7 @@ void send_gpths(sbp2nmea_t *state) {
   uint8_t orient_flags =
       SBP_ORIENT_EULER_INS_NAVIGATION_MODE_GET(sbp_orient_euler->flags);
 
-  if (pos_mode == POSITION_MODE_NONE ||
+  if (!has_position_fix(sbp_pos_llh->flags) ||
       orient_flags == SBP_ORIENT_EULER_INS_NAVIGATION_MODE_INVALID) {
     NMEA_SENTENCE_PRINTF(",V");  // No data
   } else {
@@ -910,8 +931,9 @@ void send_gpgll(sbp2nmea_t *state) {
       &sbp2nmea_msg_get(state, SBP2NMEA_SBP_UTC_TIME, true)->utc_time;
   /* See the relevant comment for the similar code in nmea_gpgga() function
      for the reasoning behind (... * 1e8 / 1e8) trick */
-  double lat = fabs(round(sbp_pos_llh_cov->lat * 1e8) / 1e8);
-  double lon = fabs(round(sbp_pos_llh_cov->lon * 1e8) / 1e8);
+  bool has_fix = has_position_fix(sbp_pos_llh_cov->flags);
+  double lat = has_fix ? fabs(round(sbp_pos_llh_cov->lat * 1e8) / 1e8) : 0;
+  double lon = has_fix ? fabs(round(sbp_pos_llh_cov->lon * 1e8) / 1e8) : 0;
 
   char lat_dir = sbp_pos_llh_cov->lat < 0.0 ? 'S' : 'N';
   assert(lat <= UINT16_MAX);
@@ -929,7 +951,7 @@ void send_gpgll(sbp2nmea_t *state) {
   NMEA_SENTENCE_START(120);
   NMEA_SENTENCE_PRINTF("$GPGLL,"); /* Command */
 
-  if ((sbp_pos_llh_cov->flags & POSITION_MODE_MASK) != POSITION_MODE_NONE) {
+  if (has_fix) {
     NMEA_SENTENCE_PRINTF("%02u%010.7f,%c,%03u%010.7f,%c,", /* Lat/Lon */
                          lat_deg,
                          lat_min,
@@ -989,7 +1011,7 @@ void send_gpgst(sbp2nmea_t *state) {
   NMEA_SENTENCE_START(120);
 
   u8 fix_type = NMEA_GGA_QI_INVALID;
-  if ((sbp_pos_llh_cov->flags & POSITION_MODE_MASK) != POSITION_MODE_NONE) {
+  if (has_position_fix(sbp_pos_llh_cov->flags)) {
     fix_type = get_nmea_quality_indicator(sbp_pos_llh_cov->flags);
   }
 
@@ -1202,7 +1224,7 @@ void send_gsv(sbp2nmea_t *state) {
 
 static inline const char *get_pubx_nav_stat(int flags) {
   uint8_t fix_type = NMEA_GGA_QI_INVALID;
-  if ((flags & POSITION_MODE_MASK) != POSITION_MODE_NONE) {
+  if (has_position_fix(flags)) {
     fix_type = get_nmea_quality_indicator(flags);
   }
   uint8_t pos_mode = flags & POSITION_MODE_MASK;
@@ -1234,8 +1256,9 @@ void send_pubx(sbp2nmea_t *state) {
   const sbp_msg_soln_meta_t *soln_meta =
       &sbp2nmea_msg_get(state, SBP2NMEA_SBP_SOLN_META, false)->soln_meta;
 
-  double lat = fabs(round(sbp_pos_llh_cov->lat * 1e8) / 1e8);
-  double lon = fabs(round(sbp_pos_llh_cov->lon * 1e8) / 1e8);
+  bool has_fix = has_position_fix(sbp_pos_llh_cov->flags);
+  double lat = has_fix ? fabs(round(sbp_pos_llh_cov->lat * 1e8) / 1e8) : 0;
+  double lon = has_fix ? fabs(round(sbp_pos_llh_cov->lon * 1e8) / 1e8) : 0;
 
   char lat_dir = sbp_pos_llh_cov->lat < 0.0 ? 'S' : 'N';
   assert(lat <= UINT16_MAX);
@@ -1248,7 +1271,7 @@ void send_pubx(sbp2nmea_t *state) {
   double lon_min = (lon - (double)lon_deg) * 60.0;
 
   u8 fix_type = NMEA_GGA_QI_INVALID;
-  if ((sbp_pos_llh_cov->flags & POSITION_MODE_MASK) != POSITION_MODE_NONE) {
+  if (has_fix) {
     fix_type = get_nmea_quality_indicator(sbp_pos_llh_cov->flags);
   }
 
@@ -1383,7 +1406,6 @@ char get_nmea_status(u8 flags) {
     case POSITION_MODE_FIXED:
       return 'A';
     default:
-      assert(!"Unsupported position type indicator");
       return 'V';
   }
 }
@@ -1407,7 +1429,6 @@ char get_nmea_mode_indicator(u8 flags) {
     case POSITION_MODE_DEAD_RECKONING:
       return 'E';
     default:
-      assert(!"Unsupported position type indicator");
       return 'N';
   }
 }
@@ -1433,7 +1454,6 @@ u8 get_nmea_quality_indicator(u8 flags) {
     case POSITION_MODE_DEAD_RECKONING:
       return NMEA_GGA_QI_EST;
     default:
-      assert(!"Unsupported position type indicator");
       return NMEA_GGA_QI_INVALID;
   }
 }
-- 
2.43.0


From 0d6abbc43673e447932c010bbf291f4c09ce8d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:36 +0000
Subject: [PATCH 86/97] fix: do not mix the messages of two epochs in fused
 NMEA sentences

---
 c/gnss_converters/src/sbp_nmea.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 16b3fda..0aa4b5d 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -176,6 +176,31 @@ static double sbp_gpsdifftime(const sbp_v4_gps_time_t *sbp_end,
   return gpsdifftime(&end, &begin);
 }
 
+/* In fused mode a sentence is made of the messages of one solution group. None
+ * of them may be left over from an earlier group, but some may not be part of
+ * the groups at all, in which case none has ever been received. */
+static bool fused_messages_match(const sbp2nmea_t *state,
+                                 sbp2nmea_nmea_id_t nmea_id) {
+  static const sbp2nmea_sbp_id_t components[][2] = {
+      {SBP2NMEA_SBP_POS_LLH_COV_GNSS, SBP2NMEA_SBP_POS_LLH_COV},
+      {SBP2NMEA_SBP_VEL_NED_GNSS, SBP2NMEA_SBP_VEL_NED},
+      {SBP2NMEA_SBP_ORIENT_EULER, SBP2NMEA_SBP_ORIENT_EULER}};
+  const u32 utc_tow = get_tow(state, SBP2NMEA_SBP_UTC_TIME, false);
+  const u32 meta_tow = get_tow(state, SBP2NMEA_SBP_SOLN_META, false);
+  if (meta_tow != 0 && meta_tow != utc_tow) {
+    return false;
+  }
+  for (size_t i = 0; i < ARRAY_SIZE(components); i++) {
+    if (nmea_meta[nmea_id].gnss_tow_mask & (1 << components[i][0])) {
+      const u32 tow = get_tow(state, components[i][1], false);
+      if (tow != 0 && tow != utc_tow) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 static bool nmea_ready(const sbp2nmea_t *state, sbp2nmea_nmea_id_t nmea_id) {
   if (state->requested_mode == SBP2NMEA_MODE_FUSED &&
       !nmea_meta[nmea_id].available_in_fused) {
@@ -184,7 +209,8 @@ static bool nmea_ready(const sbp2nmea_t *state, sbp2nmea_nmea_id_t nmea_id) {
 
   if (state->actual_mode == SBP2NMEA_MODE_FUSED &&
       nmea_meta[nmea_id].available_in_fused) {
-    if (!state->fused_wagon_complete) {
+    if (!state->fused_wagon_complete ||
+        !fused_messages_match(state, nmea_id)) {
       return false;
     }
 
-- 
2.43.0


From d29b085a9387e941b20792f8d8fc15c86233c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:36 +0000
Subject: [PATCH 87/97] fix: ignore the sequence length of NMEA observations
 that are left out

---
 c/gnss_converters/src/sbp_nmea.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 0aa4b5d..d696e22 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -377,9 +377,10 @@ static void unpack_obs_header(const sbp_observation_header_t *header,
 }
 
 void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
+  uint8_t total;
   uint8_t count;
   sbp_v4_gps_time_t obs_time;
-  unpack_obs_header(&sbp_obs->header, &obs_time, &state->obs_seq_total, &count);
+  unpack_obs_header(&sbp_obs->header, &obs_time, &total, &count);
 
   /* Count zero means it's the first message in a sequence */
   if (count == 0) {
@@ -391,6 +392,7 @@ void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
     /* Obs message missed, reset sequence */
     return;
   }
+  state->obs_seq_total = total;
   state->obs_seq_count = count;
   state->obs_time = obs_time;
 
-- 
2.43.0


From 87c0783c1a742a07f793737af766e0dfaf9350f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 88/97] fix: take no argument with the option that disables
 SBAS

It swallowed the next argument of the command line.
---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index d21762b..80bd80d 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -147,7 +147,7 @@ int rtcm3tosbp_main(int argc,
   rtcm3tosbp_writefn = writefn;
 
   int opt;
-  while ((opt = getopt(argc, argv, "hb:c:l:tw:d:soGRECJS:v")) != -1) {
+  while ((opt = getopt(argc, argv, "hb:c:l:tw:d:soGRECJSv")) != -1) {
     if (optarg && *optarg == '=') {
       optarg++;
     }
-- 
2.43.0


From d7d82cda50cd63ae40fe4ec0cc37d2dcf17da5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 89/97] fix: refuse dates on the command line that do not exist

They were ignored or read as another date.
---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index 80bd80d..3e626d1 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -194,9 +194,18 @@ int rtcm3tosbp_main(int argc,
           help(argv[0], additional_opts_help);
           return -1;
         }
-        gps_time_t gps_time = date2gps(year, month, day, hour, 0, 0);
+        gps_time_t gps_time = GPS_TIME_UNKNOWN;
+        if (year >= 1980 && year <= UINT16_MAX && month >= 1 && month <= 12 &&
+            day >= 1 && day <= days_in_month((u16)year, (u8)month) &&
+            hour >= 0 && hour <= 23) {
+          gps_time = date2gps(year, month, day, hour, 0, 0);
+        }
         if (gps_time_valid(&gps_time)) {
           ct_utc_unix = gps2time(&gps_time);
+        } else {
+          fprintf(stderr, "provided date is not valid\n");
+          help(argv[0], additional_opts_help);
+          return -1;
         }
 
         break;
-- 
2.43.0


From ed6f6ea85537982a69c8aa643394a460b53b6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 90/97] fix: refuse GPS weeks on the command line that do not
 fit

They were truncated to another week.
---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index 3e626d1..1dc9ed7 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -168,16 +168,17 @@ int rtcm3tosbp_main(int argc,
         print_current_gps_time();
         return 0;
       case 'w': {
-        s16 week_num;
+        long week_num;
         double time_of_week;
-        int num_args = sscanf(optarg, "%hd:%lf", &week_num, &time_of_week);
+        int num_args = sscanf(optarg, "%ld:%lf", &week_num, &time_of_week);
         if (num_args != 2) {
           fprintf(stderr, "expecting GPS week number and time of week\n");
           help(argv[0], additional_opts_help);
           return -1;
         }
-        if (gps_time_valid(&(gps_time_t){time_of_week, week_num})) {
-          ct_utc_unix = gps2time(&(gps_time_t){time_of_week, week_num});
+        gps_time_t gps_time = {time_of_week, (s16)week_num};
+        if (gps_time.wn == week_num && gps_time_valid(&gps_time)) {
+          ct_utc_unix = gps2time(&gps_time);
         } else {
           fprintf(stderr,
                   "provided GPS week number and time of week is not valid\n");
-- 
2.43.0


From 7f9e06a8943e54aac456f923c509678aa74d6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:51 +0000
Subject: [PATCH 91/97] fix: refuse malformed and unknown bias options

A negative code wrote before the array of biases; other malformed entries
ended the list silently.
---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 74 ++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index 1dc9ed7..1878631 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -42,9 +42,9 @@ typedef int (*readfn_ptr)(uint8_t *, size_t, void *);
 static sbp_write_fn_t rtcm3tosbp_writefn;
 
 static struct rtcm3_sbp_state state;
-static void parse_biases(char *arg);
-static void parse_glonass_code_biases(char *arg);
-static void parse_glonass_phase_biases(char *arg);
+static bool parse_biases(char *arg);
+static bool parse_glonass_code_biases(char *arg);
+static bool parse_glonass_phase_biases(char *arg);
 
 static void update_obs_time(const sbp_msg_obs_t *msg) {
   gps_time_t obs_time;
@@ -156,13 +156,22 @@ int rtcm3tosbp_main(int argc,
         help(argv[0], additional_opts_help);
         return 0;
       case 'b':
-        parse_biases(optarg);
+        if (!parse_biases(optarg)) {
+          help(argv[0], additional_opts_help);
+          return -1;
+        }
         break;
       case 'c':
-        parse_glonass_code_biases(optarg);
+        if (!parse_glonass_code_biases(optarg)) {
+          help(argv[0], additional_opts_help);
+          return -1;
+        }
         break;
       case 'l':
-        parse_glonass_phase_biases(optarg);
+        if (!parse_glonass_phase_biases(optarg)) {
+          help(argv[0], additional_opts_help);
+          return -1;
+        }
         break;
       case 't':
         print_current_gps_time();
@@ -280,31 +289,45 @@ int rtcm3tosbp_main(int argc,
   return 0;
 }
 
-static void parse_biases(char *arg) {
-  int n, code;
+/* Parses one CODE:BIAS entry of a bias list */
+static bool parse_bias(const char *entry, long *code, float *bias) {
+  int len = 0;
+  if (sscanf(entry, "%ld:%f%n", code, bias, &len) != 2 || entry[len] != '\0' ||
+      !isfinite(*bias)) {
+    fprintf(stderr, "expecting CODE:BIAS instead of \"%s\"\n", entry);
+    return false;
+  }
+  return true;
+}
+
+static bool parse_biases(char *arg) {
+  long code;
   float bias;
   char *tok = strtok(arg, ",");
   while (NULL != tok) {
-    n = sscanf(tok, "%d:%f", &code, &bias);
-    if ((n != 2) || (code >= CODE_COUNT)) {
-      break;
+    if (!parse_bias(tok, &code, &bias)) {
+      return false;
+    }
+    if (code < 0 || code >= CODE_COUNT) {
+      fprintf(stderr, "there is no code %ld\n", code);
+      return false;
     }
     sbp_signal_biases[code] = bias;
     if (verbosity_level > VERB_NORMAL) {
-      fprintf(stderr, "Applying %.1f m bias to code %02d\n", bias, code);
+      fprintf(stderr, "Applying %.1f m bias to code %02ld\n", bias, code);
     }
     tok = strtok(NULL, ",");
   }
+  return true;
 }
 
-static void parse_glonass_code_biases(char *arg) {
-  int n, code;
+static bool parse_glonass_code_biases(char *arg) {
+  long code;
   float bias_fcn_ratio;
   char *tok = strtok(arg, ",");
   while (NULL != tok) {
-    n = sscanf(tok, "%d:%f", &code, &bias_fcn_ratio);
-    if (n != 2) {
-      break;
+    if (!parse_bias(tok, &code, &bias_fcn_ratio)) {
+      return false;
     }
     if (code == CODE_GLO_L1OF) {
       sbp_glo_code_bias[0] = bias_fcn_ratio;
@@ -316,19 +339,22 @@ static void parse_glonass_code_biases(char *arg) {
       if (verbosity_level > VERB_NORMAL) {
         fprintf(stderr, "Applying %.1f m/fcn to L2OF\n", bias_fcn_ratio);
       }
+    } else {
+      fprintf(stderr, "code %ld is not a Glonass signal\n", code);
+      return false;
     }
     tok = strtok(NULL, ",");
   }
+  return true;
 }
 
-static void parse_glonass_phase_biases(char *arg) {
-  int n, code;
+static bool parse_glonass_phase_biases(char *arg) {
+  long code;
   float bias_fcn_ratio;
   char *tok = strtok(arg, ",");
   while (NULL != tok) {
-    n = sscanf(tok, "%d:%f", &code, &bias_fcn_ratio);
-    if (n != 2) {
-      break;
+    if (!parse_bias(tok, &code, &bias_fcn_ratio)) {
+      return false;
     }
     if (code == CODE_GLO_L1OF) {
       sbp_glo_phase_bias[0] = bias_fcn_ratio;
@@ -340,7 +366,11 @@ static void parse_glonass_phase_biases(char *arg) {
       if (verbosity_level > VERB_NORMAL) {
         fprintf(stderr, "Applying %.1f circles/fcn to L2OF\n", bias_fcn_ratio);
       }
+    } else {
+      fprintf(stderr, "code %ld is not a Glonass signal\n", code);
+      return false;
     }
     tok = strtok(NULL, ",");
   }
+  return true;
 }
-- 
2.43.0


From 13ac2b0ccbead1786a4503e83cff3c082d1aed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:51 +0000
Subject: [PATCH 92/97] fix: apply the GLONASS biases to legacy observations,
 too

The -c and -l options had no effect on messages 1010 and 1012.
---
 .../include/gnss-converters/options.h          |  1 +
 c/gnss_converters/src/options.c                | 17 ++++++++++++++++-
 c/gnss_converters/src/rtcm3_sbp.c              | 18 ++++++++++++++----
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/options.h b/c/gnss_converters/include/gnss-converters/options.h
index c3728b4..9c317aa 100644
--- a/c/gnss_converters/include/gnss-converters/options.h
+++ b/c/gnss_converters/include/gnss-converters/options.h
@@ -27,6 +27,7 @@ extern float sbp_glo_phase_bias[2];
 extern bool constellation_mask[CONSTELLATION_COUNT];
 extern verbosity_level_t verbosity_level;
 
+void glo_fcn_bias(code_t code, u8 glo_fcn, double *p_code, double *p_phase);
 void msm_glo_fcn_bias(const rtcm_msm_header *header,
                       u8 signal_index,
                       u8 glo_fcn,
diff --git a/c/gnss_converters/src/options.c b/c/gnss_converters/src/options.c
index 78d6cf9..5fe2455 100644
--- a/c/gnss_converters/src/options.c
+++ b/c/gnss_converters/src/options.c
@@ -41,12 +41,27 @@ void msm_glo_fcn_bias(const rtcm_msm_header *header,
                       double *p_code,
                       double *p_phase) {
   assert(signal_index <= MSM_SIGNAL_MASK_SIZE);
+
+  glo_fcn_bias(
+      msm_signal_to_code(header, signal_index), glo_fcn, p_code, p_phase);
+}
+
+/** Find the biases of a GLONASS signal
+ *
+ * \param code The signal's code
+ * \param glo_fcn The FCN value for GLO satellites, as in MSM
+ * \param p_code Pointer to write the code offset to
+ * \param p_phase Pointer to write the carrier phase offset to
+ */
+void glo_fcn_bias(const code_t code,
+                  const u8 glo_fcn,
+                  double *p_code,
+                  double *p_phase) {
   assert(p_code);
   assert(p_phase);
 
   (*p_code) = 0.0;
   (*p_phase) = 0.0;
-  code_t code = msm_signal_to_code(header, signal_index);
 
   switch ((int8_t)code) {
     case CODE_GLO_L1OF:
diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index a7d0b36..dce97b4 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -882,19 +882,29 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
           continue;
         }
 
+        double code_bias_m = 0.0;
+        double phase_bias_c = 0.0;
+        if (glo_obs_message(new_rtcm_obs->header.msg_num)) {
+          glo_fcn_bias(sbp_freq->sid.code,
+                       new_rtcm_obs->sats[sat].fcn,
+                       &code_bias_m,
+                       &phase_bias_c);
+        }
+
         if (rtcm_freq->flags.fields.valid_pr == 1) {
           double pseudorange = rtcm_freq->pseudorange;
           pseudorange += sbp_signal_biases[sbp_freq->sid.code];
+          pseudorange += code_bias_m;
           if (pseudorange >= 0) {
             sbp_freq->P = (u32)rint(pseudorange * MSG_OBS_P_MULTIPLIER);
             sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
           }
         }
         if (rtcm_freq->flags.fields.valid_cp == 1) {
-          sbp_freq->L.i = (s32)floor(rtcm_freq->carrier_phase);
-          u16 frac_part =
-              (u16)rint((rtcm_freq->carrier_phase - (double)sbp_freq->L.i) *
-                        MSG_OBS_LF_MULTIPLIER);
+          double carrier_phase = rtcm_freq->carrier_phase + phase_bias_c;
+          sbp_freq->L.i = (s32)floor(carrier_phase);
+          u16 frac_part = (u16)rint((carrier_phase - (double)sbp_freq->L.i) *
+                                    MSG_OBS_LF_MULTIPLIER);
           if (frac_part == 256) {
             frac_part = 0;
             sbp_freq->L.i += 1;
-- 
2.43.0


From 01a1fa3ee26d25466272bf6a001419ecbe5d0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:25 +0000
Subject: [PATCH 93/97] fix: keep pending RTCM observations of another week
 apart

Pending observations were merged into a new epoch with the same time of
week but another week number, and sent with that week.
---
 c/gnss_converters/src/rtcm3_sbp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index dce97b4..1cd3162 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -812,7 +812,8 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
 
   /* Check if the buffer already has obs of the same time */
   if (state->obs_to_send != 0 &&
-      (state->obs_time.tow != new_obs_time.tow ||
+      (state->obs_time.wn != new_obs_time.wn ||
+       state->obs_time.tow != new_obs_time.tow ||
        state->sender_id !=
            rtcm_stn_to_sbp_sender_id(new_rtcm_obs->header.stn_id))) {
     /* We either have missed a message, or we have a new station. Either way,
@@ -1566,7 +1567,8 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
 
   /* Check if the buffer already has obs of the same time */
   if (state->obs_to_send != 0 &&
-      (state->obs_time.tow != new_obs_time.tow ||
+      (state->obs_time.wn != new_obs_time.wn ||
+       state->obs_time.tow != new_obs_time.tow ||
        state->sender_id !=
            rtcm_stn_to_sbp_sender_id(new_rtcm_obs->header.stn_id))) {
     /* We either have missed a message, or we have a new station. Either way,
-- 
2.43.0


From 043c50ff73ab1f3a4dee3ba2f52c5e5dcebf94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:47 +0000
Subject: [PATCH 94/97] fix: the warning about MSM1-3 messages named a wrong
 station

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 1cd3162..e1ee7bd 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1393,7 +1393,7 @@ void send_MSM_warning(const swiftnav_bitstream_t *bitstream,
     state->sent_msm_warning = true;
     /* Get the stn ID as well */
     uint32_t stn_id = 0;
-    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 24)) {
+    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 12)) {
       uint8_t msg[39] = "MSM1-3 Messages currently not supported";
       send_sbp_log_message(
           RTCM_MSM_LOGGING_LEVEL, msg, sizeof(msg), stn_id, state);
-- 
2.43.0


From 56236ce9e07390bd42042825817860f17b29a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:32 +0000
Subject: [PATCH 95/97] fix: sbp2rtcm ran on for ever once its input had ended

The loop watched the C standard input, which the Rust front end never reads,
instead of what its read function returns.
---
 c/sbp2rtcm/src/sbp2rtcm.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/c/sbp2rtcm/src/sbp2rtcm.c b/c/sbp2rtcm/src/sbp2rtcm.c
index da18a80..74215d1 100644
--- a/c/sbp2rtcm/src/sbp2rtcm.c
+++ b/c/sbp2rtcm/src/sbp2rtcm.c
@@ -18,6 +18,7 @@
 #include <libsbp/legacy/observation.h>
 #include <libsbp/sbp.h>
 #include <math.h>
+#include <stdbool.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -30,6 +31,17 @@ typedef int (*readfn_ptr)(uint8_t *, uint32_t, void *);
 typedef int (*writefn_ptr)(uint8_t *, uint16_t, void *);
 
 static writefn_ptr sbp2rtcm_writefn;
+static readfn_ptr sbp2rtcm_readfn;
+static bool input_ended;
+
+/* Reads from the program's input and notes when there is no more of it */
+static int read_input(uint8_t *buff, uint32_t n, void *context) {
+  int ret = sbp2rtcm_readfn(buff, n, context);
+  if (ret < 0 || (ret == 0 && n > 0)) {
+    input_ended = true;
+  }
+  return ret;
+}
 
 typedef struct {
   sbp_msg_callbacks_node_t base_pos;
@@ -73,6 +85,8 @@ int sbp2rtcm_main(int argc,
   }
 
   sbp2rtcm_writefn = writefn;
+  sbp2rtcm_readfn = readfn;
+  input_ended = false;
 
   /* set time from systime, account for UTC<->GPS leap second difference */
   time_t ct_utc_unix = time(NULL);
@@ -164,8 +178,8 @@ int sbp2rtcm_main(int argc,
                         &state,
                         &sbp_nodes.log);
 
-  while (!feof(stdin)) {
-    sbp_process(&sbp_state, readfn);
+  while (!input_ended) {
+    sbp_process(&sbp_state, read_input);
   }
   return 0;
 }
-- 
2.43.0


From 3c48a6b50768185032a0e3be0042b78a93bb8dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:17 +0000
Subject: [PATCH 96/97] fix: a program given only an input file read its
 standard input

The usage line says [<INPUT> [<OUTPUT>]], but a lone file was only noticed
behind an option with a value of its own.
---
 rust/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/lib.rs b/rust/lib.rs
index 9ecf542..78acfc1 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -166,6 +166,15 @@ pub fn fetch_io(_prog_name: &str) -> (Box<dyn Read>, Box<dyn Write>) {
         }
     }
 
+    // Case for: <prog> <input_file> and <prog> -x <input_file>
+    if_chain! {
+        if args.len() == 1;
+        if Path::new(&args[0]).is_file();
+        then {
+            return file_in_stdout(args[0]);
+        }
+    }
+
     // Otherwise return stdin and stdout
     stdin_stdout()
 }
-- 
2.43.0


From 062654ce78091f1266f8f2c0cb781bec27aa8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:09 +0000
Subject: [PATCH 97/97] fix: keep the terminator of a firmware version inside
 the caller's buffer

---
 c/librtcm/src/sta_decode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/src/sta_decode.c b/c/librtcm/src/sta_decode.c
index fe15f9e..fd3db5f 100644
--- a/c/librtcm/src/sta_decode.c
+++ b/c/librtcm/src/sta_decode.c
@@ -66,10 +66,10 @@ rtcm3_rc sta_decode_fwver(const uint8_t buff[], char *fw_ver, uint8_t len) {
   assert(msg_num == 999 && subtype_id == 25);
   fw_ver_strlen = rtcm_getbitu(buff, bit, 8);
   bit += 8;
-  /* if fw_ver_strlen is bigger then our len, use the smaller
-   * of the two*/
-  if (fw_ver_strlen > len) {
-    fw_ver_strlen = len;
+  assert(len > 0);
+  /* if fw_ver_strlen and its terminator do not fit in our len, use what fits */
+  if (fw_ver_strlen >= len) {
+    fw_ver_strlen = len - 1;
   }
   GET_STR(buff, bit, fw_ver_strlen, fw_ver);
   fw_ver[fw_ver_strlen] = '\0';
-- 
2.43.0

