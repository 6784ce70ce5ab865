From 37fd1c06ee5c642600bb86e60804de236ca41e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 01/25] fix: EncodeBrunsli reports failure when the sink takes
 only part of the output

---
 c/enc/encode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/enc/encode.cc b/c/enc/encode.cc
index 944641e..3cec696 100644
--- a/c/enc/encode.cc
+++ b/c/enc/encode.cc
@@ -28,8 +28,8 @@ int EncodeBrunsli(size_t insize, const unsigned char* in, void* outdata,
     return 0;
   }
   output.resize(output_size);
-  if (!outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
-      output.size())) {
+  if (outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
+      output.size()) != output.size()) {
     return 0;
   }
   return 1;  /* ok */
-- 
2.43.0


From e1caa4efb0c9fa167cf491e71d2d257653adfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 02/25] fix: memory estimate of missing input is 0, not a
 status code

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 2f96aa4..0b8f605 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2469,7 +2469,7 @@ BrunsliStatus BrunsliDecodeJpeg(const uint8_t* data, const size_t len,
 
 size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
                                              const size_t len) {
-  if (!data) return BRUNSLI_INVALID_PARAM;
+  if (!data) return 0;
 
   State state;
   state.data = data;
-- 
2.43.0


From 4704095bf922035e8a80112fd1d3d5e8f22f673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 03/25] fix: reject header fields stored with the wrong wire
 type

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 0b8f605..06a402e 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1146,7 +1146,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
         const uint32_t tag_bit = 1u << hs.section.tag;
         if (hs.section.is_section) {
           if (kKnownHeaderVarintTags & tag_bit) {
-            Fail(state, BRUNSLI_INVALID_BRN);
+            return Fail(state, BRUNSLI_INVALID_BRN);
           }
           hs.stage = HeaderState::ITEM_ENTER_SECTION;
           break;
-- 
2.43.0


From babb7dd0d363c2273b80d1a07ab218ba4ee8a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 04/25] fix: tools reject directories and oversized inputs
 instead of crashing or truncating

---
 c/tools/cbrunsli.cc | 11 ++++++++++-
 c/tools/dbrunsli.cc | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/c/tools/cbrunsli.cc b/c/tools/cbrunsli.cc
index ac3ca79..c24cda9 100644
--- a/c/tools/cbrunsli.cc
+++ b/c/tools/cbrunsli.cc
@@ -31,11 +31,20 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  const long input_size = ftell(file);
+  if (input_size < 0) {
+    fprintf(stderr, "Failed to get size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
   }
+  // Bigger inputs are not supported; directories pretend to be huge files.
+  if (input_size > 0x7FFFFFFF) {
+    fprintf(stderr, "Input file is too large.\n");
+    return false;
+  }
   if (fseek(file, 0, SEEK_SET) != 0) {
     fprintf(stderr, "Failed to rewind input file to the beginning.\n");
     return false;
diff --git a/c/tools/dbrunsli.cc b/c/tools/dbrunsli.cc
index 7d15c2a..66da35d 100644
--- a/c/tools/dbrunsli.cc
+++ b/c/tools/dbrunsli.cc
@@ -38,11 +38,20 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  const long input_size = ftell(file);
+  if (input_size < 0) {
+    fprintf(stderr, "Failed to get size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
   }
+  // Bigger inputs are not supported; directories pretend to be huge files.
+  if (input_size > 0x7FFFFFFF) {
+    fprintf(stderr, "Input file is too large.\n");
+    return false;
+  }
   if (fseek(file, 0, SEEK_SET) != 0) {
     fprintf(stderr, "Failed to rewind input file to the beginning.\n");
     return false;
-- 
2.43.0


From b53b2ada1b3e847ba5c9baea28230c6fe61eaa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 05/25] fix: wasm decoder buffers are released with the
 matching deallocator

---
 wasm/codec.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wasm/codec.cc b/wasm/codec.cc
index 7a3743a..65fd0fc 100644
--- a/wasm/codec.cc
+++ b/wasm/codec.cc
@@ -4,6 +4,8 @@
 // license that can be found in the LICENSE file or at
 // https://opensource.org/licenses/MIT.
 
+#include <cstdio>
+#include <cstdlib>
 #include <string>
 
 #include <brunsli/brunsli_decode.h>
@@ -102,9 +104,9 @@ void BrunsliDecoderCleanup(uint32_t* instance) {
       reinterpret_cast<brunsli::BrunsliDecoder*>(instance[0]);
   delete decoder;
   uint8_t* in = reinterpret_cast<uint8_t*>(instance[2]);
-  delete[] in;
+  free(in);
   uint8_t* out = reinterpret_cast<uint8_t*>(instance[4]);
-  delete[] out;
+  free(out);
   delete[] instance;
 }
 
-- 
2.43.0


From ceb27dbc0d7564271d5351a51261c6fcbacb2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 06/25] fix: ParallelExecutor destructor wakes its idle workers
 instead of waiting forever

---
 c/experimental/groups.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index b1075bd..de41d72 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -84,7 +84,7 @@ ParallelExecutor::ParallelExecutor(size_t num_threads)
 ParallelExecutor::~ParallelExecutor() {
   std::unique_lock<std::mutex> lock(this->lock);
   terminate = true;
-  next_task.store(1);
+  next_task.store(0);
   this->num_tasks = 1;
   this->runnable = nullptr;
   start_latch.notify_all();
-- 
2.43.0


From 753f8ea4fec4f14035eec9c5294cab089c90f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 07/25] fix: DecodeGroups tasks no longer share one status
 variable (data race lost failures)

---
 c/experimental/groups.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index de41d72..4b485fa 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -483,8 +483,8 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&dc_state, jpg);
-    if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
+    BrunsliStatus dc_status = ProcessJpeg(&dc_state, jpg);
+    if (dc_status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_dc, dc_section_start.size());
   if (failed.load()) return false;
@@ -526,8 +526,8 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&ac_state, jpg);
-    if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
+    BrunsliStatus ac_status = ProcessJpeg(&ac_state, jpg);
+    if (ac_status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_ac, ac_section_start.size());
   if (failed.load()) return false;
-- 
2.43.0


From 763491a1c67b6aecece4e3bd814129d5c7476918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 08/25] fix: DecodeGroups refuses streams without the tables
 its groups need

---
 c/experimental/groups.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 4b485fa..364a084 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -380,6 +380,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
   using ::brunsli::BrunsliStatus;
   using ::brunsli::internal::dec::BlockI32;
   using ::brunsli::internal::dec::ComponentMeta;
+  using ::brunsli::internal::dec::HasSection;
   using ::brunsli::internal::dec::PrepareMeta;
   using ::brunsli::internal::dec::ProcessJpeg;
   using ::brunsli::internal::dec::Stage;
@@ -406,6 +407,12 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
 
   BrunsliStatus status = ProcessJpeg(&state, jpg);
   if (status != BrunsliStatus::BRUNSLI_NOT_ENOUGH_DATA) return false;
+  // Groups could not be decoded without tables.
+  if (!HasSection(&state, brunsli::kBrunsliJPEGInternalsTag) ||
+      !HasSection(&state, brunsli::kBrunsliQuantDataTag) ||
+      !HasSection(&state, brunsli::kBrunsliHistogramDataTag)) {
+    return false;
+  }
   WarmupMeta(jpg, &state);
 
   if ((ac_group_dim % jpg->max_h_samp_factor) != 0) return false;
-- 
2.43.0


From 2748c4734039f0e936bf270e488eedf6e6b10ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 09/25] fix: empty bypass payload is restored instead of
 failing to serialize

---
 c/dec/brunsli_decode.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 06a402e..0e80667 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1995,9 +1995,11 @@ static Stage DecodeOriginalJpg(State* state, JPEGData* jpg) {
         BrunsliStatus status = EnterSection(state, &s.section);
         if (status != BRUNSLI_OK) return Fail(state, status);
         jpg->original_jpg_size = s.section.remaining;
-        // Edge case - empty payload.
+        // Edge case - empty payload. Pointer should still be non-null, so that
+        // serializer could tell it from the absence of payload.
         if (jpg->original_jpg_size == 0) {
-          jpg->original_jpg = nullptr;
+          static const uint8_t kEmptyPayload[1] = {0};
+          jpg->original_jpg = kEmptyPayload;
           fs.stage = FallbackState::DONE;
           break;
         }
-- 
2.43.0


From 8a00059be3d480892877ba8d95d9c601ad7025f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 10/25] fix: streaming bypass decoder fills the offered output
 before asking for more

---
 c/dec/jpeg_data_writer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index de6304c..98841ed 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1018,10 +1018,11 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
             ss.stage = SerializationState::ERROR;
             break;
           }
-          // TODO(eustas): investigate if bad things can happen when complete
-          //               file is passed to parser, but it is impossible to
-          //               push complete output.
-          ss.output_queue.emplace_back(jpg.original_jpg, jpg.original_jpg_size);
+          if (jpg.original_jpg_size > 0) {
+            ss.output_queue.emplace_back(jpg.original_jpg,
+                                         jpg.original_jpg_size);
+          }
+          maybe_push_output();
           ss.stage = SerializationState::DONE;
           break;
         }
-- 
2.43.0


From e2ade07186f533d7a5451576d09bfdf6cb6ccd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 11/25] fix: streaming bypass decoder keeps its own copy of the
 content between calls

---
 c/dec/brunsli_decode.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 0e80667..908b888 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2533,6 +2533,18 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
   // All the input given input should be consumed.
   BRUNSLI_DCHECK(*available_in == 0);
 
+  // Bypassed content still refers to the input, but caller is free to reuse its
+  // buffer after this call; own the content, as it could be emitted later.
+  if ((parse_status == BRUNSLI_OK) && (jpg->version == kFallbackVersion) &&
+      (jpg->original_jpg_size > 0)) {
+    std::vector<uint8_t>& storage = state->internal->fallback.storage;
+    if (storage.empty()) {
+      storage.assign(jpg->original_jpg,
+                     jpg->original_jpg + jpg->original_jpg_size);
+      jpg->original_jpg = storage.data();
+    }
+  }
+
   SerializationStatus serialization_status =
       SerializeJpeg(state, *jpg, available_out, next_out);
   if (serialization_status == SerializationStatus::ERROR) {
-- 
2.43.0


From e8dea3d0fd83f0029a345f6b22be6a34215118de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 12/25] fix: streaming decoder starts output only when
 coefficients and metadata are available

---
 c/dec/jpeg_data_writer.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 98841ed..80e7f57 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1003,11 +1003,16 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
       case SerializationState::INIT: {
         // If parsing is complete, serialization is possible.
         bool can_start_serialization = (state->stage == Stage::DONE);
-        // Parsing of AC/DC has started; i.e. quant/huffman/metadata is ready
-        // to be used.
-        if (HasSection(state, kBrunsliDCDataTag) ||
-            HasSection(state, kBrunsliACDataTag)) {
-          can_start_serialization = true;
+        // Parsing of AC/DC contents has started; i.e. quant/huffman/metadata is
+        // ready to be used. Metadata, if not met before DC, could still follow
+        // it; nothing could follow AC.
+        if (state->is_storage_allocated) {
+          const bool is_metadata_ready =
+              HasSection(state, kBrunsliMetaDataTag) &&
+              (state->internal->section.tag == kBrunsliDCDataTag);
+          if (is_metadata_ready || HasSection(state, kBrunsliACDataTag)) {
+            can_start_serialization = true;
+          }
         }
         if (!can_start_serialization) {
           return SerializationStatus::NEEDS_MORE_INPUT;
-- 
2.43.0


From db616e5175f79e9a2220624a3e095b2d58fee006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 13/25] fix: encoder fails cleanly instead of writing past a
 too small buffer

---
 c/enc/brunsli_encode.cc | 36 +++++++++++++++++++++++++++---------
 c/enc/write_bits.cc     | 29 +++++++++++++++++++++++++----
 c/enc/write_bits.h      | 14 ++++++++++++--
 3 files changed, 64 insertions(+), 15 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 0f991e7..b9dee08 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -705,6 +705,15 @@ void DataStream::EncodeCodeWords(EntropyCodes* s, Storage* storage) {
     }
   }
   const uint32_t state = ans.GetState();
+  // Each word takes 2 bytes; first 2 words represent ANS state.
+  size_t num_words = 2;
+  for (int i = 0; i < pos_; ++i) {
+    if (code_words_[i].nbits) ++num_words;
+  }
+  if (num_words > storage->length / 2) {
+    storage->healthy = false;
+    return;
+  }
   uint16_t* out = reinterpret_cast<uint16_t*>(storage->data);
   const uint16_t* out_start = out;
   // Mixed-endian for historical reasons.
@@ -823,12 +832,16 @@ bool EncodeHeader(const JPEGData& jpg, State* state, uint8_t* data,
   size_t version_comp = (jpg.components.size() - 1) | (version << 2);
   size_t subsampling = FrameTypeCode(jpg);
 
+  // Each value takes a marker byte and at most 10 bytes of base-128 number.
+  uint8_t buffer[4 * 11];
   size_t pos = 0;
-  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, data, &pos);
-  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, data, &pos);
-  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, data, &pos);
-  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, data, &pos);
+  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, buffer, &pos);
+  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, buffer, &pos);
+  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, buffer, &pos);
+  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, buffer, &pos);
 
+  if (pos > *len) return false;
+  memcpy(data, buffer, pos);
   *len = pos;
   return true;
 }
@@ -872,12 +885,14 @@ bool EncodeMetaData(const JPEGData& jpg, State* state, uint8_t* data,
     *len = 0;
     return true;
   } else if (metadata.size() == 1) {
+    if (*len < 1) return false;
     *len = 1;
     data[0] = metadata[0];
     return true;
   }
 
   // Write base-128 encoding of the original metadata size.
+  if (Base128Size(metadata.size()) > *len) return false;
   size_t pos = EncodeBase128(metadata.size(), data);
 
   // Write the compressed metadata directly to the output.
@@ -906,7 +921,7 @@ bool EncodeJPEGInternals(const JPEGData& jpg, State* state, uint8_t* data,
   }
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 bool EncodeQuantData(const JPEGData& jpg, State* state, uint8_t* data,
@@ -919,7 +934,7 @@ bool EncodeQuantData(const JPEGData& jpg, State* state, uint8_t* data,
   }
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 bool EncodeHistogramData(const JPEGData& jpg, State* state, uint8_t* data,
@@ -935,7 +950,7 @@ bool EncodeHistogramData(const JPEGData& jpg, State* state, uint8_t* data,
   state->entropy_codes->BuildAndStoreEntropyCodes(&storage);
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 bool EncodeDCData(const JPEGData& jpg, State* state, uint8_t* data,
@@ -946,7 +961,7 @@ bool EncodeDCData(const JPEGData& jpg, State* state, uint8_t* data,
   state->data_stream_dc.EncodeCodeWords(state->entropy_codes, &storage);
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 bool EncodeACData(const JPEGData& jpg, State* state, uint8_t* data,
@@ -957,7 +972,7 @@ bool EncodeACData(const JPEGData& jpg, State* state, uint8_t* data,
   state->data_stream_ac.EncodeCodeWords(state->entropy_codes, &storage);
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 typedef bool (*EncodeSectionDataFn)(const JPEGData& jpg, State* state,
@@ -966,6 +981,9 @@ typedef bool (*EncodeSectionDataFn)(const JPEGData& jpg, State* state,
 bool EncodeSection(const JPEGData& jpg, State* s, uint8_t tag,
                    EncodeSectionDataFn write_section, size_t section_size_bytes,
                    size_t len, uint8_t* data, size_t* pos) {
+  // Make sure that marker and size of the section fit the buffer.
+  if ((*pos > len) || (len - *pos < 1 + section_size_bytes)) return false;
+
   // Write the marker byte for the section.
   const size_t pos_start = *pos;
   const uint8_t marker = SectionMarker(tag);
diff --git a/c/enc/write_bits.cc b/c/enc/write_bits.cc
index 0a2c730..95fd884 100644
--- a/c/enc/write_bits.cc
+++ b/c/enc/write_bits.cc
@@ -10,18 +10,39 @@
 namespace brunsli {
 
 Storage::Storage(uint8_t* data, size_t length)
-    : data(data), length(length), pos(0) {
-  BRUNSLI_CHECK(length > 0);
-  data[0] = 0;
+    : data(data), length(length), pos(0), healthy(length > 0) {
+  if (healthy) data[0] = 0;
 }
 
 void Storage::AppendBytes(const uint8_t* src, size_t len) {
   BRUNSLI_DCHECK((pos & 7) == 0);
-  BRUNSLI_DCHECK(GetBytesUsed() + len <= length);
+  if (!healthy || (len > length - GetBytesUsed())) {
+    healthy = false;
+    return;
+  }
+  if (len == 0) return;
   memcpy(data + (pos >> 3), src, len);
   pos += 8 * len;
 }
 
+void WriteBitsAtTail(size_t n_bits, uint64_t bits, Storage* storage) {
+  if (!storage->healthy || (n_bits > storage->length * 8 - storage->pos)) {
+    storage->healthy = false;
+    return;
+  }
+  size_t offset = storage->pos >> 3;
+  const size_t bits_in_first_byte = storage->pos & 7;
+  storage->pos += n_bits;
+  if (n_bits == 0) return;
+  bits <<= bits_in_first_byte;
+  if (bits_in_first_byte > 0) bits |= storage->data[offset];
+  // Like in the fast path, bytes following the last touched one are cleared.
+  for (; offset < storage->length; ++offset) {
+    storage->data[offset] = static_cast<uint8_t>(bits);
+    bits >>= 8;
+  }
+}
+
 Storage::~Storage() {
   BRUNSLI_CHECK(GetBytesUsed() <= length);
 }
diff --git a/c/enc/write_bits.h b/c/enc/write_bits.h
index 27ee199..158cc0d 100644
--- a/c/enc/write_bits.h
+++ b/c/enc/write_bits.h
@@ -23,6 +23,9 @@ class Storage {
    */
   ~Storage();
 
+  // Returns false, if some of data did not fit the buffer.
+  bool IsHealthy() const { return healthy; }
+
   size_t GetBytesUsed() const {
     return (pos + 7) >> 3;
   }
@@ -34,8 +37,13 @@ class Storage {
   const size_t length;
   // Number of bits written.
   size_t pos;
+  // Cleared once data does not fit the buffer; nothing is written after that.
+  bool healthy;
 };
 
+/* Slow path of WriteBits: there is less than 8 bytes till the end of buffer. */
+void WriteBitsAtTail(size_t n_bits, uint64_t bits, Storage* storage);
+
 /* This function writes bits into bytes in increasing addresses, and within
    a byte least-significant-bit first.
 
@@ -57,8 +65,11 @@ BRUNSLI_INLINE void WriteBits(size_t n_bits, uint64_t bits, Storage* storage) {
                       << std::setw(10) << storage->pos << BRUNSLI_ENDL();
   BRUNSLI_DCHECK((bits >> n_bits) == 0);
   BRUNSLI_DCHECK(n_bits <= 56);
+  if (BRUNSLI_PREDICT_FALSE((storage->pos >> 3) + 8 > storage->length)) {
+    WriteBitsAtTail(n_bits, bits, storage);
+    return;
+  }
 #if defined(BRUNSLI_LITTLE_ENDIAN)
-  BRUNSLI_DCHECK(((storage->pos + n_bits) >> 3) + 7 < storage->length);
   /* This branch of the code can write up to 56 bits at a time,
      7 bits are lost by being perhaps already in *p and at least
      1 bit is needed to initialize the bit-stream ahead (i.e. if 7
@@ -71,7 +82,6 @@ BRUNSLI_INLINE void WriteBits(size_t n_bits, uint64_t bits, Storage* storage) {
   storage->pos += n_bits;
 #else
   /* implicit & 0xFF is assumed for uint8_t arithmetics */
-  BRUNSLI_DCHECK(((storage->pos + n_bits) >> 3) < storage->length);
   uint8_t* BRUNSLI_RESTRICT array_pos = storage->data + (storage->pos >> 3);
   const size_t bits_reserved_in_first_byte = (storage->pos & 7);
   bits <<= bits_reserved_in_first_byte;
-- 
2.43.0


From b4db364ae35fd2b60b20f8da4a8b1ff58010aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 14/25] fix: advertised maximum encoded size covers
 incompressible coefficients

---
 c/enc/brunsli_encode.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index b9dee08..d652797 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -80,8 +80,9 @@ size_t GetMaximumBrunsliEncodedSize(const JPEGData& jpg) {
   for (const auto& component : jpg.components) {
     num_blocks += component.num_blocks;
   }
-  // Currently established upper bound is 82 bytes per block.
-  constexpr size_t kBytesPerBlock = 82 + 2;
+  // Coefficients are in [-2047, 2047]; incompressible ones take slightly more
+  // than 12 bits (97 bytes per block). Reserve 16 bits for each.
+  constexpr size_t kBytesPerBlock = 128 + 2;
   size_t entropy_size = num_blocks * kBytesPerBlock;
   return entropy_size + hdr_size;
 }
-- 
2.43.0


From be552719c784542dc1fa45e9865d8b59390733e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 15/25] fix: groups encoder reserves enough room for dense
 groups and side information

---
 c/experimental/groups.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 364a084..9e3ae5f 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -44,6 +44,15 @@ bool SkipSection(const uint8_t** data, size_t len) {
   return true;
 }
 
+size_t CountBlocks(
+    const std::vector<internal::enc::ComponentMeta>& meta) {
+  size_t result = 0;
+  for (const internal::enc::ComponentMeta& m : meta) {
+    result += static_cast<size_t>(m.width_in_blocks) * m.height_in_blocks;
+  }
+  return result;
+}
+
 }  // namespace
 
 void SequentialExecutor(const Runnable& runnable, size_t num_tasks) {
@@ -310,7 +319,16 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
       part_size += chunk.size();
     }
     part_size += jpg.tail_data.size();
-    // TODO(eustas): take into account histograms.
+    part_size += jpg.padding_bits.size();
+    for (const brunsli::JPEGScanInfo& si : jpg.scan_info) {
+      part_size += 16;
+      part_size += 5 * si.reset_points.size();
+      part_size += 10 * si.extra_zero_runs.size();
+    }
+    part_size += 512 * jpg.huffman_code.size();
+    part_size += 256 * jpg.quant.size();
+    // Upper bound for context map and histograms.
+    part_size += 2 * static_cast<size_t>(state.num_contexts) + (1 << 15);
     part.resize(part_size);
     uint32_t skip_flags =
         (1u << brunsli::kBrunsliDCDataTag) | (1u << brunsli::kBrunsliACDataTag);
@@ -329,6 +347,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
       State& s = dc_state[idx];
       // TODO(eustas): reduce for subsampled
       size_t part_size = 128 * (128 + 16) * jpg.components.size();
+      part_size = std::max(part_size, 4 * CountBlocks(s.meta) + 1024);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliDCDataTag);
@@ -345,6 +364,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
       State& s = ac_state[idx];
       // TODO(eustas): reduce for subsampled
       size_t part_size = 32 * 32 * 63 * jpg.components.size();
+      part_size = std::max(part_size, 128 * CountBlocks(s.meta) + 1024);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliACDataTag);
-- 
2.43.0


From 19a9385dfd58d709ccff578c09e636176ea5c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 16/25] fix: incremental decoder does not hand null pointers of
 empty pieces to memcpy

---
 c/dec/brunsli_decode.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 908b888..0ab7804 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2347,8 +2347,10 @@ void LoadInput(State* state) {
   // buffer is unable to provide enough input, we could switch to unbuffered
   // input.
   b.borrowed_len = std::min(kBufferMaxReadAhead, available);
-  memcpy(b.data.data() + b.data_len, b.external_data + b.external_pos,
-         b.borrowed_len);
+  if (b.borrowed_len > 0) {
+    memcpy(b.data.data() + b.data_len, b.external_data + b.external_pos,
+           b.borrowed_len);
+  }
   state->data = b.data.data();
   state->pos = 0;
   state->len = b.data_len + b.borrowed_len;
@@ -2373,7 +2375,9 @@ bool UnloadInput(State* state, BrunsliStatus result) {
     BRUNSLI_DCHECK(available < kBufferMaxReadAhead);
     if (b.data.empty()) b.data.resize(2 * kBufferMaxReadAhead);
     b.data_len = available;
-    memcpy(b.data.data(), b.external_data + b.external_pos, b.data_len);
+    if (available > 0) {
+      memcpy(b.data.data(), b.external_data + b.external_pos, available);
+    }
     b.external_pos += available;
     return false;
   }
-- 
2.43.0


From 802595cc0e8b7cc7986b0e3a2834a7ef702ea1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 17/25] fix: incremental decoder is not done before the last
 section is complete and verified

---
 c/dec/brunsli_decode.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 0ab7804..d4ec608 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2557,8 +2557,9 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
 
   switch (serialization_status) {
     case SerializationStatus::DONE:
-      // Should be impossible to finish serialization without finishing parsing.
-      BRUNSLI_DCHECK(parse_status == BRUNSLI_OK);
+      // All the coefficients could be known before the last bytes of the last
+      // section; without those bytes input is incomplete (and not verified).
+      if (parse_status != BRUNSLI_OK) return BrunsliDecoder::NEEDS_MORE_INPUT;
       return BrunsliDecoder::DONE;
 
     case SerializationStatus::NEEDS_MORE_INPUT:
-- 
2.43.0


From 3bc4e44f326ac2863bfd2db5e180558e7864ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 18/25] fix: header version with bits above the 32nd set is
 rejected

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index d4ec608..0fc1f85 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1205,7 +1205,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
           return Fail(state, BRUNSLI_INVALID_BRN);
         }
         // Unknown mode - only 3 bits are defined.
-        if ((version & ~0x7u) != 0) {
+        if (version > 0x7u) {
           return Fail(state, BRUNSLI_INVALID_BRN);
         }
 
-- 
2.43.0


From a948b7706ba26dba239ab0ac378f4d53a1f9d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 19/25] fix: table-only reading skips application and comment
 segments instead of searching for markers inside them

---
 c/enc/jpeg_data_reader.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/c/enc/jpeg_data_reader.cc b/c/enc/jpeg_data_reader.cc
index 0ece595..cf77eb1 100644
--- a/c/enc/jpeg_data_reader.cc
+++ b/c/enc/jpeg_data_reader.cc
@@ -419,6 +419,17 @@ bool ProcessCOM(const uint8_t* data, const size_t len, size_t* pos,
   return true;
 }
 
+// Skips the marker segment without interpreting its contents.
+bool SkipSegment(const uint8_t* data, const size_t len, size_t* pos,
+                 JPEGData* jpg) {
+  BRUNSLI_VERIFY_LEN(2);
+  size_t marker_len = ReadUint16(data, pos);
+  BRUNSLI_VERIFY_INPUT(marker_len, 2, 65535, MARKER_LEN);
+  BRUNSLI_VERIFY_LEN(marker_len - 2);
+  *pos += marker_len - 2;
+  return true;
+}
+
 // Helper structure to read bits from the entropy coded data segment.
 struct BitReaderState {
   BitReaderState(const uint8_t* data, const size_t len, size_t pos)
@@ -1106,14 +1117,12 @@ bool ReadJpeg(const uint8_t* data, const size_t len, JpegReadMode mode,
       case 0xed:
       case 0xee:
       case 0xef:
-        if (mode != JPEG_READ_TABLES) {
-          ok = ProcessAPP(data, len, &pos, jpg);
-        }
+        ok = (mode != JPEG_READ_TABLES) ? ProcessAPP(data, len, &pos, jpg)
+                                        : SkipSegment(data, len, &pos, jpg);
         break;
       case 0xfe:
-        if (mode != JPEG_READ_TABLES) {
-          ok = ProcessCOM(data, len, &pos, jpg);
-        }
+        ok = (mode != JPEG_READ_TABLES) ? ProcessCOM(data, len, &pos, jpg)
+                                        : SkipSegment(data, len, &pos, jpg);
         break;
       default:
         BRUNSLI_LOG_INFO() << "Unsupported marker: " << marker << " pos=" << pos
-- 
2.43.0


From 3ee6fd73728a62d47f194a77ed14a728e0f849e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 20/25] fix: memory estimate accounts for block state,
 metadata, side information and decoder objects

---
 c/dec/brunsli_decode.cc | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 0fc1f85..a8321c6 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2473,6 +2473,27 @@ BrunsliStatus BrunsliDecodeJpeg(const uint8_t* data, const size_t len,
   return internal::dec::ProcessJpeg(&state, jpg);
 }
 
+// Storage used by all JPEGData fields, except coefficients; accounts for the
+// copies made when vectors grow.
+static size_t EstimateSideDataSize(const JPEGData& jpg) {
+  size_t size = 0;
+  for (const auto* list :
+       {&jpg.app_data, &jpg.com_data, &jpg.inter_marker_data}) {
+    size += list->capacity() * sizeof(std::vector<uint8_t>);
+    for (const std::vector<uint8_t>& item : *list) size += item.capacity();
+  }
+  size += jpg.tail_data.capacity() + jpg.marker_order.capacity();
+  size += jpg.huffman_code.capacity() * sizeof(JPEGHuffmanCode);
+  size += jpg.scan_info.capacity() * sizeof(JPEGScanInfo);
+  for (const JPEGScanInfo& scan : jpg.scan_info) {
+    size += scan.reset_points.capacity() * sizeof(int);
+    size += scan.extra_zero_runs.capacity() *
+            sizeof(JPEGScanInfo::ExtraZeroRunInfo);
+  }
+  size += jpg.padding_bits.capacity() * sizeof(int);
+  return 2 * size;
+}
+
 size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
                                              const size_t len) {
   if (!data) return 0;
@@ -2480,7 +2501,8 @@ size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
   State state;
   state.data = data;
   state.len = len;
-  state.skip_tags = ~(1u << kBrunsliHistogramDataTag);
+  // Everything, but coefficients is parsed.
+  state.skip_tags = (1u << kBrunsliDCDataTag) | (1u << kBrunsliACDataTag);
   InternalState& s = *state.internal;
   s.shallow_histograms = true;
 
@@ -2490,6 +2512,7 @@ size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
   if (status != BRUNSLI_OK) return 0;
 
   size_t out_size = 2 * len;
+  size_t side_data_size = EstimateSideDataSize(jpg);
   size_t total_num_blocks = 0;
   size_t component_state_size = 0;
   for (size_t i = 0; i < jpg.components.size(); ++i) {
@@ -2500,9 +2523,13 @@ size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
   size_t jpeg_data_size = total_num_blocks * kDCTBlockSize * sizeof(coeff_t);
   size_t context_map_size = s.num_contexts * kNumAvrgContexts * sizeof(int32_t);
   size_t histogram_size = s.num_histograms * sizeof(ANSDecodingData);
-  size_t decode_peak = context_map_size + histogram_size + component_state_size;
+  size_t block_state_size = total_num_blocks;
+  size_t fixed_size = sizeof(State) + sizeof(InternalState) + sizeof(JPEGData) +
+                      jpg.components.size() * sizeof(ComponentMeta);
+  size_t decode_peak = context_map_size + histogram_size +
+                       component_state_size + block_state_size + fixed_size;
   size_t jpeg_writer_size = (1u << 17u) + (1u << 16u) * sizeof(int32_t);
-  return (out_size + jpeg_data_size + std::max(decode_peak, jpeg_writer_size));
+  return (out_size + jpeg_data_size + side_data_size + std::max(decode_peak, jpeg_writer_size));
 }
 
 BrunsliDecoder::BrunsliDecoder() {
-- 
2.43.0


From 68389aca6cda4051114e86dd2929cd251034053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:44 +0000
Subject: [PATCH 21/25] fix: mod_brunsli: Accept elements consisting of
 separators only crashed the handler

---
 contrib/mod_brunsli/mod_brunsli.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contrib/mod_brunsli/mod_brunsli.c b/contrib/mod_brunsli/mod_brunsli.c
index c0a2988..8701c4f 100644
--- a/contrib/mod_brunsli/mod_brunsli.c
+++ b/contrib/mod_brunsli/mod_brunsli.c
@@ -18,6 +18,7 @@ static int accept_brunsli(char* const accept) {
        token = apr_strtok(NULL, sep, &last)) {
     char* qlast;
     char* const mime_type = apr_strtok(token, qsep, &qlast);
+    if (mime_type == NULL) continue;
     apr_collapse_spaces(mime_type, mime_type);
     if (strcmp(mime_type, brunsli_mime_type) == 0) {
       return 1;
-- 
2.43.0


From 3759a8bef5147e9f2364e1f77a7a2ac7a2589891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:44 +0000
Subject: [PATCH 22/25] fix: ngx_brunsli: image/x-j was found only at the end
 of Accept and only its first occurrence was looked at

---
 .../src/ngx_http_brunsli_static_module.c      | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
index 9de7018..28f4fbe 100644
--- a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
+++ b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
@@ -294,22 +294,28 @@ static ngx_int_t ngx_http_brunsli_ok(ngx_http_request_t *r) {
 
 static ngx_int_t ngx_http_brunsli_accept(ngx_str_t *ae) {
   u_char *p;
+  u_char *end;
 
-  p = ngx_strcasestrn(ae->data, (char *)ngx_http_brunsli_mime_type.data,
-                      ngx_http_brunsli_mime_type.len);
-  if (p == NULL) {
-    return NGX_DECLINED;
-  }
+  p = ae->data;
+
+  for (;;) {
+    /* ngx_strcasestrn expects the length of the sought string minus one. */
+    p = ngx_strcasestrn(p, (char *)ngx_http_brunsli_mime_type.data,
+                        ngx_http_brunsli_mime_type.len - 1);
+    if (p == NULL) {
+      return NGX_DECLINED;
+    }
 
-  if (p == ae->data || (*(p - 1) == ',' || *p == ';' || *(p - 1) == ' ')) {
-    p += ngx_http_brunsli_mime_type.len;
+    end = p + ngx_http_brunsli_mime_type.len;
 
-    if (p == ae->data + ae->len || *p == ',' || *p == ';' || *p == ' ') {
+    if ((p == ae->data || *(p - 1) == ',' || *(p - 1) == ' ') &&
+        (end == ae->data + ae->len || *end == ',' || *end == ';' ||
+         *end == ' ')) {
       return NGX_OK;
     }
-  }
 
-  return NGX_DECLINED;
+    p = end;
+  }
 }
 
 static void *ngx_http_brunsli_static_create_conf(ngx_conf_t *cf) {
-- 
2.43.0


From 55ca1151439bc7185396efef6f3d11dd70100c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:44 +0000
Subject: [PATCH 23/25] fix: jxl_library_patches: a second patching failed
 because the imageio format was registered already

---
 contrib/py/jxl_library_patches/jxl_imageio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contrib/py/jxl_library_patches/jxl_imageio.py b/contrib/py/jxl_library_patches/jxl_imageio.py
index dee73e5..658e736 100644
--- a/contrib/py/jxl_library_patches/jxl_imageio.py
+++ b/contrib/py/jxl_library_patches/jxl_imageio.py
@@ -82,6 +82,8 @@ def register_jxl_support(imageio_module):
   # Jpeg-XL.
   assert id(imageio_module) == id(imageio), (
       'User-passed `imageio` module differs from `import imageio` result.')
+  if any(isinstance(f, _JpegXLFormat) for f in imageio_module.formats):
+    return  # This was already registered, so, ignore.
   imageio_module.formats.add_format(
       _JpegXLFormat(
           'JPEG-XL',
-- 
2.43.0


From 73fb7c969a5f2b012a23d8cf5af29bf1c815c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:44 +0000
Subject: [PATCH 24/25] fix: jxl_library_patches: the wrapped cv2.imread
 refused positional arguments

---
 contrib/py/jxl_library_patches/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index 9b15f38..e2f4f78 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -63,18 +63,18 @@ def _get_opencv_wrapped_imread(cv2_imread, debug=False):
   if wrapper:
     return wrapper
   # Otherwise, there was not yet a wrapper-function. Create one.
-  def imread(filename, **kwargs):  # Has same name as replaced function.
+  def imread(filename, *args, **kwargs):  # Has same name as replaced function.
     """[Docstring will get replaced]."""
     # For now, this wrapper does nothing - it just wraps the original imread().
     if debug:
       sys.stderr.write(
-          'DDD wrapped OpenCV imread(filename=%r, **kwargs=%r)\n' % (
-              filename, kwargs))
+          'DDD wrapped OpenCV imread(filename=%r, *args=%r, **kwargs=%r)\n' % (
+              filename, args, kwargs))
     if jxl_utils.is_jpegxl_recompressed_jpeg_file(filename):
       return jxl_utils.call_with_jxl_filename_arg1_replaced_by_temp_jpeg_file(
-          cv2_imread, filename, **kwargs)
+          cv2_imread, filename, *args, **kwargs)
     else:
-      return cv2_imread(filename, **kwargs)
+      return cv2_imread(filename, *args, **kwargs)
   # We even fake the docstring.
   imread.__doc__ = cv2_imread.__doc__
   # Make both the old and the new function point to the wrapper in the global
-- 
2.43.0


From a627827f2b98b5fe6a7879bf0bb27b00e4540f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 25/25] fix: jxl_library_patches: importing failed when
 sys.modules held an entry without a name

---
 contrib/py/jxl_library_patches/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index e2f4f78..7be8ef9 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -200,7 +200,7 @@ def _try_patch_all(debug=False):
   # imports PIL as needed, e.g. for jpeg. We address this by loading PIL
   # straightaway if we find that matplotlib.image has been loaded. Afterwards,
   # we patch up all modules (including PIL).
-  if any(m.__name__ == _MATPLOTLIB_IMAGE_SELF_NAME
+  if any(getattr(m, '__name__', None) == _MATPLOTLIB_IMAGE_SELF_NAME
          for m in sys.modules.values()):
     # Just make sure the PIL image module gets entered into sys.modules.
     # It is actually OK to do this even if we are not quite sure that
-- 
2.43.0

