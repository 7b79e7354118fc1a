From 65b6bb2078ec4994c0225ca17a0df1d2d3c21fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 01/39] Verification hook: chunk and probe sizes under
 CLOUDINI_VERIF

---
 cloudini_lib/src/codec_common.hpp | 5 +++++
 cloudini_lib/src/v5_codec.cpp     | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 104feb0..95130b3 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -25,7 +25,12 @@
 
 namespace Cloudini::detail {
 
+#ifdef CLOUDINI_VERIF
+// Verification builds use small chunks, so that clouds of a few points span several of them.
+constexpr size_t kPointsPerChunk = CLOUDINI_VERIF_POINTS_PER_CHUNK;
+#else
 constexpr size_t kPointsPerChunk = 32 * 1024;
+#endif
 
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 9f41f3a..9cf0874 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -73,7 +73,11 @@ struct V5AdaptiveIntStats {
   uint32_t delta_rle_runs = 0;
 };
 
+#ifdef CLOUDINI_VERIF
+constexpr size_t kAdaptiveModeProbePoints = CLOUDINI_VERIF_PROBE_POINTS;
+#else
 constexpr size_t kAdaptiveModeProbePoints = 4096;
+#endif
 
 struct V5EncoderPlan {
   std::vector<std::unique_ptr<FieldEncoder>> regular;
-- 
2.43.0


From 39f326c36137358e349b7af89c02fc782a48af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 02/39] fix: encode INT64_MIN as a varint that is not the NaN
 marker

---
 .../include/cloudini_lib/encoding_utils.hpp        | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 0eb976c..7c14d1d 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -56,6 +56,12 @@ inline size_t encodeVarint64(int64_t value, uint8_t* ptr) {
   uint64_t val = static_cast<uint64_t>((value << 1) ^ (value >> 63));  // Zig-zag encoding
   val++;                                                               // reserving value 0 for NaN
   uint8_t* ptr_start = ptr;
+  if (val == 0) {
+    // The largest zig-zag value (INT64_MIN) wraps around: write 2^64, which takes 65 bits, explicitly.
+    memset(ptr, 0x80, 9);
+    ptr[9] = 0x02;
+    return 10;
+  }
   while (val > 0x7F) {
     *ptr = (static_cast<uint8_t>((val & 0x7F) | 0x80));
     val >>= 7;
@@ -101,6 +107,7 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
   }
   uint64_t uval;
   size_t count;
+  bool is_two_pow_64 = false;  // encoding of INT64_MIN, see encodeVarint64
   const uint8_t b0 = buf[0];
   if ((b0 & 0x80) == 0) {
     // 1-byte varint: by far the most common case for small deltas. Fully safe
@@ -124,7 +131,8 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
       uint8_t byte = *ptr;
       ptr++;
       const uint8_t payload = byte & 0x7f;
-      if (shift >= 64 || (shift == 63 && payload > 1)) {
+      is_two_pow_64 = (shift == 63 && byte == 0x02 && uval == 0);
+      if (shift >= 64 || (shift == 63 && payload > 1 && !is_two_pow_64)) {
         throw std::runtime_error("decodeVarint: value overflow");
       }
       uval |= (static_cast<uint64_t>(payload) << shift);
@@ -138,7 +146,9 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
     }
     count = static_cast<size_t>(ptr - buf);
   }
-  if (uval == 0) {
+  if (is_two_pow_64) {
+    uval = 0;  // 2^64, modulo 2^64
+  } else if (uval == 0) {
     throw std::runtime_error("decodeVarint: unexpected NaN marker");
   }
   uval--;
-- 
2.43.0


From 8dffaaff5bf201c8bb92465c9f86b8d8298d62a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 03/39] fix: reject V5 run lengths that overflow the point
 counter

---
 cloudini_lib/src/v5_codec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 9cf0874..bccf1b0 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -837,7 +837,7 @@ void decodeV5AdaptiveIntSection(
         const uint64_t value = readRawBits(input.data(), field.bytes_per_value);
         input.trim_front(field.bytes_per_value);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
@@ -860,7 +860,7 @@ void decodeV5AdaptiveIntSection(
         const auto consumed = decodeVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-- 
2.43.0


From 72186a7ddd0ebb5bcae4485d3d75c70c2e744312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 04/39] fix: reject headers whose fields lie outside the point

---
 cloudini_lib/src/cloudini.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e8301fb..17fd310 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -625,6 +625,12 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
 //------------------------------------------------------------------------------------------
 
 void PointcloudDecoder::updateDecoders(const EncodingInfo& info) {
+  for (const auto& field : info.fields) {
+    const size_t field_end = static_cast<size_t>(field.offset) + static_cast<size_t>(SizeOf(field.type));
+    if (field.offset != kDecodeButSkipStore && field_end > info.point_step) {
+      throw std::runtime_error("Field '" + field.name + "' does not fit inside point_step");
+    }
+  }
   if (detail::UsesV5Codec(info)) {
     detail::BuildV5Decoders(info, decoders_, min_encoded_point_bytes_);
   } else {
-- 
2.43.0


From c490f419670b23a1d74f8ac645170d008bbcc8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 05/39] fix: check the remaining input before each field is
 decoded

---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index c690275..b5e138e 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -60,7 +60,9 @@ class FieldDecoderCopy : public FieldDecoder {
   }
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
-    // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+    if (input.size() < field_size_) {
+      throw std::runtime_error("FieldDecoderCopy: truncated input");
+    }
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, input.data(), field_size_);
     }
@@ -329,7 +331,9 @@ class FieldDecoderFloatN_Lossy : public FieldDecoder {
 //------------------------------------------------------------------------------------------
 template <typename FloatType>
 inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point min_encoded_point_bytes_ check
+  if (input.empty()) {
+    throw std::runtime_error("FieldDecoder(Float/Lossy): truncated input");
+  }
   if (input.data()[0] == 0) {
     constexpr auto nan_value = std::numeric_limits<FloatType>::quiet_NaN();
     if (offset_ != kDecodeButSkipStore) {
@@ -354,7 +358,9 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
 template <typename FloatType>
 inline void FieldDecoderFloat_XOR<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+  if (input.size() < sizeof(IntType)) {
+    throw std::runtime_error("FieldDecoderFloat_XOR: truncated input");
+  }
   IntType residual = 0;
   memcpy(&residual, input.data(), sizeof(IntType));
   input.trim_front(sizeof(IntType));
-- 
2.43.0


From 62fa6caff2790fa9052bb12c188dcf2efa9ce414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 06/39] fix: reject a zero point_step where the payload alone
 decides the number of points

---
 cloudini_lib/src/v4_codec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/v4_codec.cpp b/cloudini_lib/src/v4_codec.cpp
index 726e6e1..d3dffcb 100644
--- a/cloudini_lib/src/v4_codec.cpp
+++ b/cloudini_lib/src/v4_codec.cpp
@@ -107,6 +107,9 @@ void DecodeV4Stage1Chunk(
       decode_point();
     }
   } else {
+    if (point_step == 0) {
+      throw std::runtime_error("point_step cannot be 0");
+    }
     while (!encoded_view.empty()) {
       if (encoded_view.size() < min_encoded_point_bytes) {
         throw std::runtime_error("Truncated encoded data: not enough bytes for a complete point");
-- 
2.43.0


From 7b10a5a8195809f85907866ed4e504e0680c78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 07/39] fix: reject chunks with bytes left over after the last
 point

---
 cloudini_lib/src/v4_codec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/v4_codec.cpp b/cloudini_lib/src/v4_codec.cpp
index d3dffcb..0142f1d 100644
--- a/cloudini_lib/src/v4_codec.cpp
+++ b/cloudini_lib/src/v4_codec.cpp
@@ -106,6 +106,9 @@ void DecodeV4Stage1Chunk(
       }
       decode_point();
     }
+    if (!encoded_view.empty()) {
+      throw std::runtime_error("Chunk has trailing bytes after decode");
+    }
   } else {
     if (point_step == 0) {
       throw std::runtime_error("point_step cannot be 0");
-- 
2.43.0


From 3dc396d16083a82030069a5557e78a9274827a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 08/39] fix: account for the run length byte of delta-RLE in
 the worst-case size of 64-bit integers

---
 cloudini_lib/src/codec_common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index f447ac3..7b92d48 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -32,9 +32,10 @@ size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_
     case FieldType::UINT16:
     case FieldType::INT32:
     case FieldType::UINT32:
+      return 10;  // worst-case signed varint64 size
     case FieldType::INT64:
     case FieldType::UINT64:
-      return 10;  // worst-case signed varint64 size
+      return 11;  // worst-case signed varint64 size, plus the run length of a V5 delta-RLE run
     case FieldType::FLOAT32:
       if (encoding_opt == EncodingOptions::LOSSY && field.resolution.has_value()) {
         return 10;  // quantized int64 delta as varint
-- 
2.43.0


From 1bb8ef9fad3586c858d2059f465cca49b500ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 09/39] fix: size the decompression buffer for the worst-case
 stage-1 data of one chunk

---
 cloudini_lib/src/cloudini.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 17fd310..4cde584 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -675,8 +675,10 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
 
 void PointcloudDecoder::decodeChunk(
     const EncodingInfo& info, ConstBufferView chunk_data, BufferView& output_buffer, size_t expected_points) {
-  const size_t max_decompressed_size =
-      static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step;
+  // Stage-1 data can be larger than the points it encodes.  Version 2 has a single chunk with all the points.
+  const size_t points_in_chunk =
+      (expected_points > 0) ? expected_points : static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
+  const size_t max_decompressed_size = detail::V5StageBufferSize(info, points_in_chunk);
   ConstBufferView encoded_view = detail::DecompressChunk(
       info.compression_opt, chunk_data, decompressed_buffer_, max_decompressed_size);
 
-- 
2.43.0


From d9c33aa4a724b1e966beb2c801ab84d8a9195132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 10/39] fix: honour kDecodeButSkipStore in V5 adaptive integer
 sections

---
 cloudini_lib/src/v5_codec.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index bccf1b0..83b7c98 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -779,6 +779,12 @@ void decodeV5AdaptiveIntSection(
   }
   const auto mode = static_cast<AdaptiveIntMode>(mode_byte);
 
+  auto store_value = [&](size_t index, uint64_t value) {
+    if (field.offset != kDecodeButSkipStore) {
+      writeRawBitsToPoint(value, field.bytes_per_value, output_base + index * point_step + field.offset);
+    }
+  };
+
   switch (mode) {
     case AdaptiveIntMode::DeltaVarint: {
       int64_t prev = 0;
@@ -788,9 +794,7 @@ void decodeV5AdaptiveIntSection(
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
-        writeRawBitsToPoint(
-            static_cast<uint64_t>(value), field.bytes_per_value,
-            output_base + i * point_step + field.offset);
+        store_value(i, static_cast<uint64_t>(value));
       }
     } break;
 
@@ -821,7 +825,7 @@ void decodeV5AdaptiveIntSection(
         if (idx >= palette.size()) {
           throw std::runtime_error("V5 adaptive int: palette index out of range");
         }
-        writeRawBitsToPoint(palette[idx], field.bytes_per_value, output_base + i * point_step + field.offset);
+        store_value(i, palette[idx]);
       }
       input.trim_front(index_bytes);
     } break;
@@ -841,7 +845,7 @@ void decodeV5AdaptiveIntSection(
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          writeRawBitsToPoint(value, field.bytes_per_value, output_base + out_index * point_step + field.offset);
+          store_value(out_index, value);
           ++out_index;
         }
       }
@@ -866,9 +870,7 @@ void decodeV5AdaptiveIntSection(
         for (uint64_t k = 0; k < run_len; ++k) {
           const int64_t value = prev + diff;
           prev = value;
-          writeRawBitsToPoint(
-              static_cast<uint64_t>(value), field.bytes_per_value,
-              output_base + out_index * point_step + field.offset);
+          store_value(out_index, static_cast<uint64_t>(value));
           ++out_index;
         }
       }
-- 
2.43.0


From 52b44f8c93b25cd48f4ae85a8514a311afc1eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 11/39] fix: write the resolution to YAML headers without
 losing digits

---
 cloudini_lib/src/cloudini.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 4cde584..f20e8e2 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,7 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cstdlib>
 #include <cstring>
 #include <limits>
 #include <sstream>
@@ -162,6 +163,25 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
   throw std::runtime_error("Invalid CompressionOption string: " + std::string(str));
 }
 
+namespace {
+
+// Shortest decimal representation that is parsed back to exactly the same float.
+std::string ResolutionToString(float resolution) {
+  std::string text;
+  for (int digits = 6; digits <= std::numeric_limits<float>::max_digits10; digits++) {
+    std::ostringstream out;
+    out.precision(digits);
+    out << resolution;
+    text = out.str();
+    if (std::strtof(text.c_str(), nullptr) == resolution) {
+      break;
+    }
+  }
+  return text;
+}
+
+}  // namespace
+
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
   yaml << "version: " << static_cast<int>(info.version) << "\n";
@@ -181,7 +201,7 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
-      yaml << "    resolution: " << field.resolution.value() << "\n";
+      yaml << "    resolution: " << ResolutionToString(field.resolution.value()) << "\n";
     } else {
       yaml << "    resolution: null\n";
     }
-- 
2.43.0


From 557abd2ce345d8466178af22b58575b95ad77a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 12/39] fix: do not take a '#' inside a YAML value for a
 comment

---
 cloudini_lib/include/cloudini_lib/yaml_parser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
index 6abbe20..7f1be36 100644
--- a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
+++ b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
@@ -413,8 +413,12 @@ class Parser {
     }
     str.remove_suffix(str.length() - end);
 
-    // Remove trailing comments
+    // Remove trailing comments. As in YAML, '#' is part of the value unless it follows a blank
     size_t comment_pos = str.find('#');
+    while (comment_pos != std::string_view::npos && comment_pos > 0 &&
+           !std::isspace(static_cast<unsigned char>(str[comment_pos - 1]))) {
+      comment_pos = str.find('#', comment_pos + 1);
+    }
     if (comment_pos != std::string_view::npos) {
       str = str.substr(0, comment_pos);
 
-- 
2.43.0


From 9157208ba9b23c3d94916820fe3c7b37c541dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 13/39] fix: do not take a binary header with a newline byte in
 its width for YAML

---
 cloudini_lib/src/cloudini.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index f20e8e2..1c9357d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -394,9 +394,10 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
   // Note: version 4 adds Gorilla bit-packing for lossless FLOAT32/FLOAT64 XOR residuals.
   // Versions 2 and 3 keep the raw-XOR path (8 bytes per double, 4 bytes per float).
 
-  // YAML payload starts with newline followed by a non-brace; legacy binary
-  // payload starts with the brace of an inline schema.
-  if (input.size() >= 2 && input.data()[0] == '\n' && input.data()[1] != '{') {
+  // The YAML payload starts with a newline and the "version" key.  The newline alone is not enough: in a binary
+  // header these bytes hold the width, which may contain the same byte (e.g. width 10).
+  constexpr std::string_view kYamlStart = "\nversion:";
+  if (input.size() >= kYamlStart.size() && memcmp(input.data(), kYamlStart.data(), kYamlStart.size()) == 0) {
     input.trim_front(1);  // consume newline
     std::string_view yaml_str(reinterpret_cast<const char*>(input.data()), input.size());
     size_t null_pos = yaml_str.find('\0');
-- 
2.43.0


From 546b2cf37e281b5e72f1c6b020b80e5a4d1bcb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 14/39] fix: reject a version in the magic header that is not a
 number

---
 cloudini_lib/src/cloudini.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 1c9357d..5d908af 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -367,7 +367,7 @@ auto char_to_num = [](char c) -> uint8_t {
   if (c >= '0' && c <= '9') {
     return c - '0';
   }
-  return 0;
+  throw std::runtime_error("Invalid encoding version in the magic header");
 };
 
 EncodingInfo DecodeHeader(ConstBufferView& input) {
-- 
2.43.0


From 53c27cc95f8d3ff1fdfafbdd2921ba1312634107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 15/39] fix: nanocdr::Decoder checks that the buffer holds a
 CDR header before reading it

---
 cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index e73b72a..9f9cd93 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -250,6 +250,9 @@ inline void swapEndianness(T& val) {
 }
 
 inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer), origin_(buffer.data() + 4) {
+  if (buffer_.size() < 4) {
+    throw std::runtime_error("Invalid CDR header: not enough data");
+  }
   const auto* ptr = buffer_.data();
   uint8_t dummy = ptr[0];
   if (dummy != 0) {
-- 
2.43.0


From 0579b18b6b6a9a97e43184062c32fbd5494ce845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 16/39] fix: nanocdr::Decoder never stores a byte other than 0
 or 1 into a bool

---
 cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index 9f9cd93..5d63c33 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -357,7 +357,11 @@ inline void Decoder::decode(T& out) {
     if (buffer_.size() < sizeof(T)) {
       throw std::runtime_error("Decode: not enough data to decode");
     }
-    memcpy(&out, buffer_.data(), sizeof(T));
+    if constexpr (std::is_same_v<T, bool>) {
+      out = (*buffer_.data() != 0);  // any other byte copied into a bool is undefined behavior
+    } else {
+      memcpy(&out, buffer_.data(), sizeof(T));
+    }
 
     if constexpr (sizeof(T) >= 2) {
       if (header_.endianness != getCurrentEndianness()) {
-- 
2.43.0


From 547edd2969c0e0bda87e24492dae15d0f9050f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:34 +0000
Subject: [PATCH 17/39] fix: convertCompressedCloudToPointCloud2 rejects
 dimensions whose product overflows

---
 cloudini_lib/src/ros_msg_utils.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 2978571..344ab50 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -133,8 +133,13 @@ Cloudini::EncodingInfo toEncodingInfo(const RosPointCloud2& pc_info) {
 //-------------------------------------------------------------------
 
 void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vector<uint8_t>& pc2_dds_msg) {
-  // We need to reserve enough space in the output buffer
-  const size_t cloud_data_size = pc_info.width * pc_info.height * pc_info.point_step;
+  // We need to reserve enough space in the output buffer.  The dimensions are not trusted: their product may not fit in
+  // the 32 bits that the size of PointCloud2::data has.
+  const uint64_t points_count = static_cast<uint64_t>(pc_info.width) * pc_info.height;
+  if (pc_info.point_step != 0 && points_count > std::numeric_limits<uint32_t>::max() / pc_info.point_step) {
+    throw std::runtime_error("convertCompressedCloudToPointCloud2: the cloud is too large");
+  }
+  const size_t cloud_data_size = points_count * pc_info.point_step;
 
   pc2_dds_msg.clear();
   nanocdr::Encoder cdr_encoder(pc_info.cdr_header, pc2_dds_msg);
-- 
2.43.0


From c7c6b4a08c1a1d4968966cd6ad4f723ac86911ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:34 +0000
Subject: [PATCH 18/39] fix: convertCompressedCloudToPointCloud2 rejects a
 payload of another size than the message declares

---
 cloudini_lib/src/ros_msg_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 344ab50..e6fb86b 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -163,6 +163,10 @@ void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vec
   Cloudini::PointcloudDecoder cloud_decoder;
   Cloudini::ConstBufferView compressed_data = pc_info.data;
   auto restored_header = Cloudini::DecodeHeader(compressed_data);
+  const uint64_t restored_points = static_cast<uint64_t>(restored_header.width) * restored_header.height;
+  if (restored_points != points_count || restored_header.point_step != pc_info.point_step) {
+    throw std::runtime_error("convertCompressedCloudToPointCloud2: the message and its compressed data differ in size");
+  }
   cloud_decoder.decode(restored_header, compressed_data, decoded_buffer);
 
   // add last field
-- 
2.43.0


From 0fb83aa64a23d04df91505178f6a19054e70ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 19/39] fix: the compressed data size follows the endianness of
 the CDR header

---
 cloudini_lib/src/ros_msg_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index e6fb86b..f39c046 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -211,7 +211,11 @@ void convertPointCloud2ToCompressedCloud(
   const size_t compressed_size = cloud_encoder.encode(pc_info.data, compressed_data_view, true);
 
   // we can finally write the actual size of the compressed data
-  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size, sizeof(uint32_t));
+  auto compressed_size_field = static_cast<uint32_t>(compressed_size);
+  if (cdr_encoder.header().endianness != nanocdr::getCurrentEndianness()) {
+    nanocdr::swapEndianness(compressed_size_field);
+  }
+  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size_field, sizeof(uint32_t));
 
   // Resize the output buffer to the actual size used
   compressed_dds_msg.resize(prev_size + compressed_size);
-- 
2.43.0


From 6e29a28fd9858819055058f3675feb0f45fdd253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:39 +0000
Subject: [PATCH 20/39] fix: PointcloudEncoder rejects fields that do not fit
 inside point_step

---
 cloudini_lib/src/cloudini.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 5d908af..e65798d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -449,6 +449,12 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
 }
 
 PointcloudEncoder::PointcloudEncoder(const EncodingInfo& info) : info_(info) {
+  for (const auto& field : info_.fields) {
+    const size_t field_end = static_cast<size_t>(field.offset) + static_cast<size_t>(SizeOf(field.type));
+    if (field_end > info_.point_step) {
+      throw std::runtime_error("Field '" + field.name + "' does not fit inside point_step");
+    }
+  }
   EncodeHeader(info_, header_);
 
   if (!detail::UsesV5Codec(info_)) {
-- 
2.43.0


From 52ae3d64d08db37695b46af246a27d06a12dfea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 21/39] fix: applyVizLossyPreprocessing requires the geometry
 triple to lie inside point_step

A message whose first three FLOAT32 fields end behind point_step made the
loop read past the end of the cloud data.
---
 cloudini_lib/src/ros_msg_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index f39c046..d7af58d 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -273,6 +273,7 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
       f1.resolution.has_value() && f2.resolution.has_value() &&
       f0.resolution.value() == f1.resolution.value() &&
       f0.resolution.value() == f2.resolution.value() &&
+      static_cast<uint64_t>(f0.offset) + 12u <= pc_info.point_step &&
       f1.offset == f0.offset + 4u && f2.offset == f0.offset + 8u;
   if (!has_triple) {
     return;
-- 
2.43.0


From 8637794f47e660fb28ce40477cc7d8c9ab13d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:14 +0000
Subject: [PATCH 22/39] fix: cldn_DecodeCompressedMessage reports a malformed
 message as 0

The message was deserialized outside of the try block, so the exception left
the exported function.
---
 cloudini_lib/src/wasm_functions.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 78079b3..460e4a4 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -120,12 +120,11 @@ uint32_t cldn_ConvertCompressedMsgToPointCloud2Msg(
 }
 
 uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encoded_dds_size, uintptr_t output_data) {
-  const uint8_t* dds_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
-
-  Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
-  const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
-
   try {
+    const uint8_t* dds_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
+    Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
+    const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
+
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
-- 
2.43.0


From dad68d347a655af8e635ae51c18731ac989ed382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 23/39] fix: the exported WASM functions reject clouds whose
 size does not fit in 32 bits

width * height * point_step wrapped around, so a hostile message passed the
size checks and the decoder wrote behind the caller's buffer.
---
 cloudini_lib/src/wasm_functions.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 460e4a4..c8ce05d 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -18,10 +18,26 @@
 
 #include <emscripten.h>
 
+#include <limits>
+#include <stdexcept>
+
 #include "cloudini_lib/cloudini.hpp"
 #include "cloudini_lib/ros_message_definitions.hpp"
 #include "cloudini_lib/ros_msg_utils.hpp"
 
+namespace {
+
+// Size of the data of a cloud. Throws if it exceeds the 32 bits used by the exported functions.
+uint32_t cloudDataSize(uint32_t width, uint32_t height, uint32_t point_step) {
+  const uint64_t points_count = static_cast<uint64_t>(width) * height;
+  if (point_step != 0 && points_count > std::numeric_limits<uint32_t>::max() / point_step) {
+    throw std::runtime_error("The size of the point cloud does not fit in 32 bits");
+  }
+  return static_cast<uint32_t>(points_count * point_step);
+}
+
+}  // namespace
+
 uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_size, uintptr_t output_yaml_ptr) {
   try {
     const uint8_t* encoded_data = reinterpret_cast<const uint8_t*>(encoded_data_ptr);
@@ -94,7 +110,7 @@ uint32_t cldn_GetDecompressedSize(uintptr_t encoded_dds_ptr, uint32_t encoded_dd
     const uint8_t* compressed_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
     Cloudini::ConstBufferView raw_dds_msg(compressed_data, encoded_dds_size);
     auto compressed_cloud = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
-    return compressed_cloud.height * compressed_cloud.width * compressed_cloud.point_step;
+    return cloudDataSize(compressed_cloud.width, compressed_cloud.height, compressed_cloud.point_step);
   } catch (const std::exception& e) {
     EM_ASM({ console.error('Exception in cldn_GetDecompressedSize:', UTF8ToString($0)); }, e.what());
     return 0;
@@ -144,14 +160,15 @@ uint32_t cldn_DecodeCompressedData(uintptr_t encoded_data_ptr, uint32_t encoded_
   Cloudini::ConstBufferView encoded_view(encoded_data, encoded_data_size);
 
   Cloudini::EncodingInfo info;
+  size_t decoded_size = 0;
   try {
     info = Cloudini::DecodeHeader(encoded_view);
+    decoded_size = cloudDataSize(info.width, info.height, info.point_step);
   } catch (std::exception& ex) {
     EM_ASM({ console.error('Failed to decode header:', UTF8ToString($0)); }, ex.what());
     return 0;
   }
 
-  size_t decoded_size = info.width * info.height * info.point_step;
   uint8_t* decoded_data = reinterpret_cast<uint8_t*>(output_data);
   Cloudini::BufferView decoded_view(decoded_data, decoded_size);
 
@@ -182,7 +199,7 @@ uint32_t cldn_EncodePointcloudMessage(
     }
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const size_t expected_size = cloudDataSize(pc_info.width, pc_info.height, pc_info.point_step);
 
     if (pc_info.data.size() != expected_size) {
       return 0;
@@ -219,7 +236,8 @@ uint32_t cldn_EncodePointcloudData(
     const Cloudini::EncodingInfo encoding_info = Cloudini::EncodingInfoFromYAML(header_as_yaml);
 
     // Verify data size matches expected size
-    uint32_t expected_size = encoding_info.width * encoding_info.height * encoding_info.point_step;
+    const uint32_t expected_size =
+        cloudDataSize(encoding_info.width, encoding_info.height, encoding_info.point_step);
 
     if (pc_data_size != expected_size) {
       EM_ASM({ console.error('Data size mismatch: expected', $0, 'but got', $1); }, expected_size, pc_data_size);
-- 
2.43.0


From 6f728f75a39e01199f15097cf4ad983023322128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 24/39] fix: cldn_DecodeCompressedMessage rejects compressed
 data of another size than the message

cldn_GetDecompressedSize returns the size of the outer message, but the data
were decoded with the dimensions of the inner header, which may be larger.
---
 cloudini_lib/src/wasm_functions.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index c8ce05d..29e6bc8 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -141,6 +141,15 @@ uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encode
     Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
     const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
 
+    // The caller allocated the output using the dimensions of the message: see cldn_GetDecompressedSize
+    Cloudini::ConstBufferView compressed_view = pcl_msg.data;
+    const Cloudini::EncodingInfo info = Cloudini::DecodeHeader(compressed_view);
+    if (cloudDataSize(info.width, info.height, info.point_step) !=
+        cloudDataSize(pcl_msg.width, pcl_msg.height, pcl_msg.point_step)) {
+      EM_ASM({ console.error('The message and its compressed data differ in size.'); });
+      return 0;
+    }
+
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
-- 
2.43.0


From 5c40014d5fceca37ce188f5a40c8c5b33e65b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 25/39] fix: cldn_EncodePointcloudMessage rejects a zero
 point_step

The number of points is the size of the data divided by point_step.
---
 cloudini_lib/src/wasm_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 29e6bc8..a1972a5 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -210,7 +210,7 @@ uint32_t cldn_EncodePointcloudMessage(
     // Verify data size matches expected size
     const size_t expected_size = cloudDataSize(pc_info.width, pc_info.height, pc_info.point_step);
 
-    if (pc_info.data.size() != expected_size) {
+    if (pc_info.data.size() != expected_size || pc_info.point_step == 0) {
       return 0;
     }
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
-- 
2.43.0


From 3347d919d1c675997ac9b15be23b508afeb3b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:51 +0000
Subject: [PATCH 26/39] fix: a failed attempt to replace the compression worker
 no longer makes the next encode wait for ever

---
 cloudini_lib/src/cloudini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e65798d..c705398 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -564,7 +564,8 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
     bool need_respawn = false;
     {
       std::lock_guard<std::mutex> lock(mutex_);
-      need_respawn = worker_failed_;
+      // also when an earlier attempt to replace a failed worker could not create the thread
+      need_respawn = worker_failed_ || !compressing_thread_.joinable();
     }
     if (need_respawn) {
       if (compressing_thread_.joinable()) {
-- 
2.43.0


From b497ec00935f2f5d18a6b4b5189baa175563364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 27/39] fix: ReadEncodingInfoFromPCD recognises the 8 byte
 types F and I

---
 cloudini_lib/src/pcl_conversion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index da61953..935888d 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -76,7 +76,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     const std::string name = std::string(fields_name[i]);
     const int bytes = std::stoi(std::string(fields_size[i]));
     FieldType type = FieldType::UNKNOWN;
-    if (fields_type[i] == "F" && bytes == 4) {
+    if (fields_type[i] == "F") {
       if (bytes == 4) {
         type = FieldType::FLOAT32;
       } else if (bytes == 8) {
@@ -89,6 +89,8 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
         type = FieldType::INT16;
       } else if (bytes == 4) {
         type = FieldType::INT32;
+      } else if (bytes == 8) {
+        type = FieldType::INT64;
       }
     } else if (fields_type[i] == "U") {
       if (bytes == 1) {
-- 
2.43.0


From 818db407d5d060c2832b60a4b6cd022f25b5512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 28/39] fix: ReadEncodingInfoFromPCD reads on after comments
 and empty lines

---
 cloudini_lib/src/pcl_conversion.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 935888d..a8c150e 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -42,8 +42,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
   std::vector<std::string> fields_size;
   std::vector<std::string> fields_type;
 
-  do {
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
     line = line.substr(0, line.find('#'));   // Remove comments
     line = line.substr(0, line.find('\r'));  // Remove carriage return if present
     line = line.substr(0, line.find('\n'));  // Remove newline if present
@@ -62,7 +61,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     } else if (line_key == "DATA") {
       break;
     }
-  } while (!line.empty());
+  }
 
   const size_t num_fields = fields_name.size();
 
-- 
2.43.0


From 1e15ba5e69d2b2f843c528d8d18d96ce7d0d0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 29/39] fix: ReadEncodingInfoFromPCD does not take repeated or
 trailing spaces for fields

---
 cloudini_lib/src/pcl_conversion.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index a8c150e..71ff5b1 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -28,10 +28,14 @@ std::vector<std::string_view> splitString(std::string_view str, char delimiter =
   std::string_view::size_type end = 0;
 
   while ((end = str.find(delimiter, start)) != std::string_view::npos) {
-    tokens.push_back(str.substr(start, end - start));
+    if (end != start) {
+      tokens.push_back(str.substr(start, end - start));
+    }
     start = end + 1;
   }
-  tokens.push_back(str.substr(start));
+  if (start != str.size()) {
+    tokens.push_back(str.substr(start));
+  }
   return tokens;
 }
 
-- 
2.43.0


From daae74911945cb755121545e6c65c9c12f81dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:11 +0000
Subject: [PATCH 30/39] fix: PointcloudDecode stores the points with the stride
 of PointT

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index d46e2fd..3b72949 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -154,6 +154,8 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
       field.offset = Cloudini::kDecodeButSkipStore;
     }
   }
+  // the decoded points are stored with the layout of PointT, not with the one of the encoded cloud
+  header_info.point_step = sizeof(PointT);
 
   // decode the data
   BufferView output_view(reinterpret_cast<uint8_t*>(cloud.points.data()), cloud.points.size() * sizeof(PointT));
-- 
2.43.0


From 4a6da395b274e0ae9cbf04e8cb575a846f614524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:26 +0000
Subject: [PATCH 31/39] fix: the PCL conversions compute the size of the
 decoded cloud in 64 bits

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 2 +-
 cloudini_lib/src/pcl_conversion.cpp                  | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index 3b72949..be3538c 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -128,7 +128,7 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
   // decode the header
   EncodingInfo header_info = DecodeHeader(serialized_data);
   // resize the cloud to the decoded size
-  cloud.points.resize(header_info.width * header_info.height);
+  cloud.points.resize(static_cast<size_t>(header_info.width) * header_info.height);
   cloud.width = header_info.width;
   cloud.height = header_info.height;
 
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 71ff5b1..1e14aa0 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -18,6 +18,7 @@
 
 #include <pcl/io/pcd_io.h>
 
+#include <limits>
 #include <sstream>
 
 namespace Cloudini {
@@ -256,8 +257,12 @@ void PCLPointCloudDecode(ConstBufferView serialized_data, pcl::PCLPointCloud2& c
   cloud.is_dense = true;
   cloud.is_bigendian = false;
 
-  // Resize data
-  cloud.data.resize(cloud.width * cloud.height * cloud.point_step);
+  // Resize data. The dimensions are not trusted: the products do not always fit in 32 or 64 bits
+  const size_t points_count = static_cast<size_t>(cloud.width) * cloud.height;
+  if (cloud.point_step != 0 && points_count > std::numeric_limits<size_t>::max() / cloud.point_step) {
+    throw std::runtime_error("PCLPointCloudDecode: the cloud is too large");
+  }
+  cloud.data.resize(points_count * cloud.point_step);
 
   // Convert fields
   cloud.fields.clear();
-- 
2.43.0


From ff3bb0c589f32740f9df74eb3c952167ddc0dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:01 +0000
Subject: [PATCH 32/39] fix: keep the metadata of the channels when converting
 a MCAP file

---
 cloudini_lib/tools/src/mcap_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 22432d6..2d35529 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -100,7 +100,7 @@ void McapConverter::duplicateSchemasAndChannels(
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
     auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
-    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id);
+    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
   }
-- 
2.43.0


From 5dc84531885188ec0a7e8039e81e876b4f89bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:01 +0000
Subject: [PATCH 33/39] fix: convert MCAP files that have channels without a
 schema

---
 cloudini_lib/tools/src/mcap_converter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 2d35529..59181c6 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -46,7 +46,8 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
 
   for (const auto& [channel_id, channel_ptr] : reader_->channels()) {
     const auto& schema_ptr = reader_->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name) {
+    // a channel may have no schema
+    if (schema_ptr && (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name)) {
       topics[channel_ptr->topic] = schema_ptr->name;
     }
   }
@@ -99,7 +100,8 @@ void McapConverter::duplicateSchemasAndChannels(
 
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
-    auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
+    // the schema id 0 means that the channel has no schema
+    auto new_schema_id = (channel_ptr->schemaId == 0) ? channel_ptr->schemaId : old_to_new_schema_id_.at(channel_ptr->schemaId);
     mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
@@ -171,7 +173,7 @@ void McapConverter::encodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != pointcloud_schema_name) {
+    if (!msg.schema || msg.schema->name != pointcloud_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
@@ -268,7 +270,7 @@ void McapConverter::decodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != compressed_schema_name) {
+    if (!msg.schema || msg.schema->name != compressed_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
-- 
2.43.0


From 4514ce750956f80b32f18d4ff38e722d481f0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:37 +0000
Subject: [PATCH 34/39] fix: let McapConverter::open be called again for
 another file

---
 cloudini_lib/tools/src/mcap_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 59181c6..a2841bb 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -28,6 +28,10 @@
 #include <mcap/writer.hpp>
 
 McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
+  // opening a stream that is already open would fail
+  if (input_stream_.is_open()) {
+    input_stream_.close();
+  }
   input_stream_.open(file_in);
   data_source_ = std::make_shared<mcap::FileStreamReader>(input_stream_);
   reader_ = std::make_shared<mcap::McapReader>();
-- 
2.43.0


From 05549490a6018e68684385715c16af5c21cbee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:49 +0000
Subject: [PATCH 35/39] fix: CloudiniPublisher names the format of its messages

---
 cloudini_ros/src/cloudini_publisher_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 36db50c..1437084 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -65,6 +65,7 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
   result.point_step = raw.point_step;
   result.row_step = raw.row_step;
   result.is_dense = raw.is_dense;
+  result.format = "cloudini";
 
   // reserve memory for the compressed data
   result.compressed_data.resize(raw.data.size());
-- 
2.43.0


From 18f2a389f5b4c29e7abedd3d7110097537e3c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:49 +0000
Subject: [PATCH 36/39] fix: CloudiniSubscriberPCL delivers the header and
 is_dense of the message

---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index cc0752b..14a4714 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -109,6 +109,11 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
     // STEP 4: Decode directly to PCL format
     // pc_info.data contains the compressed cloudini data
     PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    pcl_cloud->header.frame_id = pc_info.ros_header.frame_id;
+    // the time stamp of PCL is in microseconds
+    pcl_cloud->header.stamp =
+        static_cast<uint64_t>(pc_info.ros_header.stamp_sec) * 1000000ull + pc_info.ros_header.stamp_nsec / 1000;
+    pcl_cloud->is_dense = pc_info.is_dense;
 
     // STEP 5: Invoke user callback with the decoded PCL cloud
     user_callback_(pcl_cloud);
-- 
2.43.0


From f00f38998feff7504c458e2bd9e8d67952dbd7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:45 +0000
Subject: [PATCH 37/39] fix: clouds delivered by CloudiniSubscriberPCL may
 outlive it

---
 .../cloudini_ros/cloudini_subscriber_pcl.hpp  | 16 +++++++++-----
 cloudini_ros/src/cloudini_subscriber_pcl.cpp  | 22 +++++++++----------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
index 7f8e5a5..fa10d5f 100644
--- a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
+++ b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
@@ -22,6 +22,7 @@
 #include <deque>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <rclcpp/generic_subscription.hpp>
 #include <rclcpp/rclcpp.hpp>
 #include <rclcpp/serialization.hpp>
@@ -66,9 +67,9 @@ class CloudiniSubscriberPCL {
       const rclcpp::QoS& qos_profile = rclcpp::QoS(10));
 
   /**
-   * @brief Destructor - cleans up object pool
+   * @brief Destructor - releases the object pool, that is cleaned up with the last cloud in use
    */
-  ~CloudiniSubscriberPCL();
+  ~CloudiniSubscriberPCL() = default;
 
   /**
    * @brief Get the underlying ROS2 subscription object
@@ -111,9 +112,14 @@ class CloudiniSubscriberPCL {
   rclcpp::Node* node_;
 
   // Object pool for PCL clouds (avoids repeated allocations)
-  std::deque<pcl::PCLPointCloud2*> cloud_pool_;
-
-  std::mutex pool_mutex_;
+  struct CloudPool {
+    ~CloudPool();
+    std::deque<pcl::PCLPointCloud2*> clouds;
+    std::mutex mutex;
+  };
+
+  // shared with the delivered clouds, because the user may keep them longer than this object
+  std::shared_ptr<CloudPool> cloud_pool_ = std::make_shared<CloudPool>();
 
   // Maximum pool size to prevent unbounded growth
   static constexpr size_t MAX_POOL_SIZE = 4;
diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index 14a4714..8992312 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -52,13 +52,11 @@ CloudiniSubscriberPCL::CloudiniSubscriberPCL(
   RCLCPP_INFO(node_->get_logger(), "CloudiniSubscriberPCL created for topic: %s", topic_name.c_str());
 }
 
-CloudiniSubscriberPCL::~CloudiniSubscriberPCL() {
+CloudiniSubscriberPCL::CloudPool::~CloudPool() {
   // Clean up all objects in the pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  for (auto* ptr : cloud_pool_) {
+  for (auto* ptr : clouds) {
     delete ptr;
   }
-  cloud_pool_.clear();
 }
 
 std::string CloudiniSubscriberPCL::getTopicName() const {
@@ -69,24 +67,24 @@ pcl::PCLPointCloud2::Ptr CloudiniSubscriberPCL::acquireCloudFromPool() {
   pcl::PCLPointCloud2* raw_ptr = nullptr;
 
   // Try to get from pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  if (!cloud_pool_.empty()) {
-    raw_ptr = cloud_pool_.back();
-    cloud_pool_.pop_back();
+  std::lock_guard<std::mutex> lock(cloud_pool_->mutex);
+  if (!cloud_pool_->clouds.empty()) {
+    raw_ptr = cloud_pool_->clouds.back();
+    cloud_pool_->clouds.pop_back();
   } else {
     // Pool is empty, allocate new
     raw_ptr = new pcl::PCLPointCloud2();
   }
 
   // Create shared_ptr with custom deleter that returns to pool
-  return pcl::PCLPointCloud2::Ptr(raw_ptr, [this](pcl::PCLPointCloud2* ptr) {
-    std::lock_guard<std::mutex> lock(pool_mutex_);
+  return pcl::PCLPointCloud2::Ptr(raw_ptr, [pool = cloud_pool_](pcl::PCLPointCloud2* ptr) {
+    std::lock_guard<std::mutex> lock(pool->mutex);
     // Return to pool if not full, otherwise delete
-    if (cloud_pool_.size() < MAX_POOL_SIZE) {
+    if (pool->clouds.size() < MAX_POOL_SIZE) {
       // Clear the data but keep allocated memory for reuse
       ptr->data.clear();
       ptr->fields.clear();
-      cloud_pool_.push_back(ptr);
+      pool->clouds.push_back(ptr);
     } else {
       delete ptr;
     }
-- 
2.43.0


From dc2013f98b9409f5a6fdc6fcaa0631485bc3d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:15 +0000
Subject: [PATCH 38/39] fix: the ROS subscribers deliver empty clouds sent
 without data

---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp  | 21 ++++++++++++++++++-
 .../src/cloudini_subscriber_plugin.cpp        | 14 +++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index 8992312..4109f8d 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -106,7 +106,26 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
 
     // STEP 4: Decode directly to PCL format
     // pc_info.data contains the compressed cloudini data
-    PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    if (pc_info.data.size() == 0 && static_cast<uint64_t>(pc_info.width) * pc_info.height == 0) {
+      // special case: an empty cloud is sent without any data (see convertPointCloud2ToCompressedCloud)
+      pcl_cloud->width = pc_info.width;
+      pcl_cloud->height = pc_info.height;
+      pcl_cloud->point_step = pc_info.point_step;
+      pcl_cloud->row_step = pc_info.width * pc_info.point_step;
+      pcl_cloud->is_bigendian = false;
+      pcl_cloud->data.clear();
+      pcl_cloud->fields.clear();
+      for (const auto& field : pc_info.fields) {
+        pcl::PCLPointField pcl_field;
+        pcl_field.name = field.name;
+        pcl_field.offset = field.offset;
+        pcl_field.datatype = static_cast<uint8_t>(field.type);
+        pcl_field.count = 1;
+        pcl_cloud->fields.push_back(pcl_field);
+      }
+    } else {
+      PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    }
     pcl_cloud->header.frame_id = pc_info.ros_header.frame_id;
     // the time stamp of PCL is in microseconds
     pcl_cloud->header.stamp =
diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index c8d8675..a568597 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -28,6 +28,20 @@ CloudiniSubscriber::CloudiniSubscriber() : decoder_(std::make_shared<Cloudini::P
 
 CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
     const point_cloud_interfaces::msg::CompressedPointCloud2& msg) const {
+  // special case: an empty cloud may be sent without any data (see convertPointCloud2ToCompressedCloud)
+  if (msg.compressed_data.empty() && static_cast<uint64_t>(msg.width) * msg.height == 0) {
+    auto empty = std::make_shared<sensor_msgs::msg::PointCloud2>();
+    empty->header = msg.header;
+    empty->height = msg.height;
+    empty->width = msg.width;
+    empty->fields = msg.fields;
+    empty->is_bigendian = false;
+    empty->point_step = msg.point_step;
+    empty->row_step = msg.row_step;
+    empty->is_dense = msg.is_dense;
+    return empty;
+  }
+
   Cloudini::ConstBufferView input(msg.compressed_data.data(), msg.compressed_data.size());
   auto info = Cloudini::DecodeHeader(input);
 
-- 
2.43.0


From 0bbdba2cf0f83cde57b2aa7a10e178b73b96f029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:49 +0000
Subject: [PATCH 39/39] fix: EncodingInfoFromYAML read the version as a
 character

---
 cloudini_lib/src/cloudini.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index c705398..4db5be3 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -216,7 +216,12 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
   auto root = YAML::parse(yaml);
 
   // Read top-level fields
-  info.version = root["version"].as<uint8_t>();
+  // read as a number: a uint8_t would be read as a single character ("5" -> 53)
+  const uint32_t version = root["version"].as<uint32_t>();
+  if (version > std::numeric_limits<uint8_t>::max()) {
+    throw std::runtime_error("Invalid version in the YAML header");
+  }
+  info.version = static_cast<uint8_t>(version);
   info.width = root["width"].as<uint32_t>();
   info.height = root["height"].as<uint32_t>();
   info.point_step = root["point_step"].as<uint32_t>();
@@ -407,8 +412,7 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
     yaml_str = yaml_str.substr(0, null_pos);
     input.trim_front(null_pos + 1);  // consume header + null terminator
     EncodingInfo yaml_header = EncodingInfoFromYAML(yaml_str);
-    // The magic-header version is authoritative. YAML's parseScalar<uint8_t> reads a
-    // single character (e.g. "3" -> 51), so the YAML-parsed info.version is unreliable.
+    // The magic-header version is authoritative.
     yaml_header.version = version;
     return yaml_header;
   }
-- 
2.43.0

