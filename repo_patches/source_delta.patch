From 73b648d9123244a571e80f7120db89b2caeb7360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 01/16] fix: wake executor workers on destruction so that
 groups mode terminates

---
 c/experimental/groups.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index b1075bd..de41d72 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -84,7 +84,7 @@ ParallelExecutor::ParallelExecutor(size_t num_threads)
 ParallelExecutor::~ParallelExecutor() {
   std::unique_lock<std::mutex> lock(this->lock);
   terminate = true;
-  next_task.store(1);
+  next_task.store(0);
   this->num_tasks = 1;
   this->runnable = nullptr;
   start_latch.notify_all();
-- 
2.43.0


From d5cdc07ece56786992b28e314d401ea3abebcf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 02/16] fix: keep the status of each parallel decoding task
 private to the task

---
 c/experimental/groups.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index de41d72..4b485fa 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -483,8 +483,8 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&dc_state, jpg);
-    if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
+    BrunsliStatus dc_status = ProcessJpeg(&dc_state, jpg);
+    if (dc_status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_dc, dc_section_start.size());
   if (failed.load()) return false;
@@ -526,8 +526,8 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&ac_state, jpg);
-    if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
+    BrunsliStatus ac_status = ProcessJpeg(&ac_state, jpg);
+    if (ac_status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_ac, ac_section_start.size());
   if (failed.load()) return false;
-- 
2.43.0


From eca7c1c6f3236a607f06d6d0d0c0836dfade59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 03/16] fix: require the common sections before decoding groups

---
 c/experimental/groups.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 4b485fa..9245406 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -380,6 +380,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
   using ::brunsli::BrunsliStatus;
   using ::brunsli::internal::dec::BlockI32;
   using ::brunsli::internal::dec::ComponentMeta;
+  using ::brunsli::internal::dec::HasSection;
   using ::brunsli::internal::dec::PrepareMeta;
   using ::brunsli::internal::dec::ProcessJpeg;
   using ::brunsli::internal::dec::Stage;
@@ -406,6 +407,11 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
 
   BrunsliStatus status = ProcessJpeg(&state, jpg);
   if (status != BrunsliStatus::BRUNSLI_NOT_ENOUGH_DATA) return false;
+  // Groups can not be decoded, unless everything they depend on is present.
+  if (state.meta.empty()) return false;
+  if (!HasSection(&state, kBrunsliJPEGInternalsTag)) return false;
+  if (!HasSection(&state, kBrunsliQuantDataTag)) return false;
+  if (!HasSection(&state, kBrunsliHistogramDataTag)) return false;
   WarmupMeta(jpg, &state);
 
   if ((ac_group_dim % jpg->max_h_samp_factor) != 0) return false;
-- 
2.43.0


From c01116fb6a1e478633837265820a975d7f5ebc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 04/16] fix: honour the context model version in groups mode

---
 c/experimental/groups.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 9245406..e9b48a5 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -187,6 +187,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
   for (size_t y = 0; y < h_ac; ++y) {
     for (size_t x = 0; x < w_ac; ++x) {
       State& s = ac_state[x + y * w_ac];
+      s.use_legacy_context_model = !(jpg.version & 2);
       std::vector<ComponentMeta>& meta = s.meta;
       if (!CalculateMeta(jpg, &s)) return false;
       for (size_t c = 0; c < num_components; ++c) {
@@ -507,6 +508,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
 
     ac_state.context_map = state.context_map;
     ac_state.entropy_codes = state.entropy_codes;
+    ac_state.use_legacy_context_model = state.use_legacy_context_model;
 
     std::vector<ComponentMeta>& meta = ac_state.meta;
 
-- 
2.43.0


From a3b3a8a66eea3d3402e8df63ea581dcc7f8605bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 05/16] fix: reject zero group dimensions instead of dividing
 by zero

---
 c/experimental/groups.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index e9b48a5..ce345ca 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -120,6 +120,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
   using ::brunsli::internal::enc::SelectContextBits;
   using ::brunsli::internal::enc::State;
 
+  if (ac_group_dim == 0 || dc_group_dim == 0) return false;
   if ((ac_group_dim & (ac_group_dim - 1)) != 0) return false;
   if ((dc_group_dim & (dc_group_dim - 1)) != 0) return false;
   if ((dc_group_dim % ac_group_dim) != 0) return false;
@@ -388,6 +389,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
   using ::brunsli::internal::dec::State;
   using ::brunsli::internal::dec::WarmupMeta;
 
+  if (ac_group_dim == 0 || dc_group_dim == 0) return false;
   if ((ac_group_dim & (ac_group_dim - 1)) != 0) return false;
   if ((dc_group_dim & (dc_group_dim - 1)) != 0) return false;
   if ((dc_group_dim % ac_group_dim) != 0) return false;
-- 
2.43.0


From 4f6be5f9c7fcd98e3812b6faf27fb7c9f426b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 06/16] fix: reject sections that pose as known header values

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 2f96aa4..03f0846 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1146,7 +1146,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
         const uint32_t tag_bit = 1u << hs.section.tag;
         if (hs.section.is_section) {
           if (kKnownHeaderVarintTags & tag_bit) {
-            Fail(state, BRUNSLI_INVALID_BRN);
+            return Fail(state, BRUNSLI_INVALID_BRN);
           }
           hs.stage = HeaderState::ITEM_ENTER_SECTION;
           break;
-- 
2.43.0


From 8874c6bc4594753b10bfab93f2a2433b91617190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 07/16] fix: report a partial write of the output sink as an
 encoding failure

---
 c/enc/encode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/enc/encode.cc b/c/enc/encode.cc
index 944641e..3cec696 100644
--- a/c/enc/encode.cc
+++ b/c/enc/encode.cc
@@ -28,8 +28,8 @@ int EncodeBrunsli(size_t insize, const unsigned char* in, void* outdata,
     return 0;
   }
   output.resize(output_size);
-  if (!outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
-      output.size())) {
+  if (outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
+      output.size()) != output.size()) {
     return 0;
   }
   return 1;  /* ok */
-- 
2.43.0


From 295d05d1116e68bfabb03968fcdb6b152224ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 08/16] fix: release malloc'ed wasm buffers with free

---
 wasm/codec.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/codec.cc b/wasm/codec.cc
index 7a3743a..2468a24 100644
--- a/wasm/codec.cc
+++ b/wasm/codec.cc
@@ -102,9 +102,9 @@ void BrunsliDecoderCleanup(uint32_t* instance) {
       reinterpret_cast<brunsli::BrunsliDecoder*>(instance[0]);
   delete decoder;
   uint8_t* in = reinterpret_cast<uint8_t*>(instance[2]);
-  delete[] in;
+  free(in);
   uint8_t* out = reinterpret_cast<uint8_t*>(instance[4]);
-  delete[] out;
+  free(out);
   delete[] instance;
 }
 
-- 
2.43.0


From 9517110e5df3874bf36448a51fb48cba5f556b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 09/16] fix: verify section order as soon as the section tag is
 known

Streaming serializer starts as soon as the DC tag is met; a tag that precedes
its prerequisites, or metadata that follows DC, made it use absent or still
growing data.
---
 c/dec/brunsli_decode.cc | 46 +++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 03f0846..1e280ea 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2043,6 +2043,34 @@ static Stage DecodeOriginalJpg(State* state, JPEGData* jpg) {
   return Stage::DONE;
 }
 
+/**
+ * Checks that everything the section depends on has been already met.
+ *
+ * Serializer relies on the tags met, even if the section itself is not parsed
+ * yet; thus check takes place as soon as the tag is known.
+ */
+static bool IsSectionExpected(const State* state, size_t tag) {
+  switch (tag) {
+    case kBrunsliMetaDataTag:
+      // Serialization starts with DC section; metadata must be complete.
+      return !HasSection(state, kBrunsliDCDataTag);
+
+    case kBrunsliQuantDataTag:
+    case kBrunsliHistogramDataTag:
+      return HasSection(state, kBrunsliJPEGInternalsTag);
+
+    case kBrunsliDCDataTag:
+      return HasSection(state, kBrunsliHistogramDataTag) &&
+             HasSection(state, kBrunsliQuantDataTag);
+
+    case kBrunsliACDataTag:
+      return HasSection(state, kBrunsliDCDataTag);
+
+    default:
+      return true;
+  }
+}
+
 static Stage ParseSection(State* state) {
   InternalState& s = *state->internal;
   SectionHeaderState& sh = s.section_header;
@@ -2057,6 +2085,9 @@ static Stage ParseSection(State* state) {
           if (HasSection(state, kBrunsliACDataTag)) return Stage::DONE;
         }
         if (status != BRUNSLI_OK) return Fail(state, status);
+        if (!IsSectionExpected(state, s.section.tag)) {
+          return Fail(state, BRUNSLI_INVALID_BRN);
+        }
         if (s.section.is_section) {
           sh.stage = SectionHeaderState::ENTER_SECTION;
           continue;
@@ -2130,30 +2161,18 @@ static Stage ProcessSection(State* state, JPEGData* jpg) {
     }
 
     case kBrunsliQuantDataTag: {
-      if (!HasSection(state, kBrunsliJPEGInternalsTag)) {
-        return Fail(state, BRUNSLI_INVALID_BRN);
-      }
       BrunsliStatus status = DecodeQuantDataSection(state, jpg);
       if (status != BRUNSLI_OK) return Fail(state, status);
       break;
     }
 
     case kBrunsliHistogramDataTag: {
-      if (!HasSection(state, kBrunsliJPEGInternalsTag)) {
-        return Fail(state, BRUNSLI_INVALID_BRN);
-      }
       BrunsliStatus status = DecodeHistogramDataSection(state, jpg);
       if (status != BRUNSLI_OK) return Fail(state, status);
       break;
     }
 
     case kBrunsliDCDataTag: {
-      if (!HasSection(state, kBrunsliHistogramDataTag)) {
-        return Fail(state, BRUNSLI_INVALID_BRN);
-      }
-      if (!HasSection(state, kBrunsliQuantDataTag)) {
-        return Fail(state, BRUNSLI_INVALID_BRN);
-      }
       // This section reads input word by word.
       if ((RemainingSectionLength(state) & 1) != 0) {
         return Fail(state, BRUNSLI_INVALID_BRN);
@@ -2165,9 +2184,6 @@ static Stage ProcessSection(State* state, JPEGData* jpg) {
     }
 
     case kBrunsliACDataTag: {
-      if (!HasSection(state, kBrunsliDCDataTag)) {
-        return Fail(state, BRUNSLI_INVALID_BRN);
-      }
       // This section reads input word by word.
       if ((RemainingSectionLength(state) & 1) != 0) {
         return Fail(state, BRUNSLI_INVALID_BRN);
-- 
2.43.0


From b65229ba20e4815cb6a209c3c1793acbdcaedb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 10/16] fix: do not refer to the caller's input after a
 streaming call returns

Fallback payload could be a view of the input passed to one Decode call, while
the serializer reads it in the following calls; besides, the available output
space was not used in the call that completes parsing.
---
 c/dec/jpeg_data_writer.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index de6304c..17a3c7b 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1018,10 +1018,12 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
             ss.stage = SerializationState::ERROR;
             break;
           }
-          // TODO(eustas): investigate if bad things can happen when complete
-          //               file is passed to parser, but it is impossible to
-          //               push complete output.
-          ss.output_queue.emplace_back(jpg.original_jpg, jpg.original_jpg_size);
+          // Output might not fit at once, while the data could be a view of the
+          // input, that is not available later; thus make a copy.
+          ss.output_queue.emplace_back(jpg.original_jpg_size);
+          memcpy(ss.output_queue.back().buffer->data(), jpg.original_jpg,
+                 jpg.original_jpg_size);
+          maybe_push_output();
           ss.stage = SerializationState::DONE;
           break;
         }
-- 
2.43.0


From 4dfdc42428674bd2152d02e0ac3b2ae5e28e1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 11/16] fix: reject coefficients whose magnitude can not be
 coded

Negating the minimal value leaves it negative; code length was then used as an
out of range shift amount.
---
 c/dec/jpeg_data_writer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 17a3c7b..64783e3 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -516,6 +516,7 @@ bool EncodeDCTBlockSequential(const coeff_t* coeffs,
   temp2 = temp;
   if (temp < 0) {
     temp = -temp;
+    if (temp < 0) return false;  // Magnitude is not representable.
     temp2--;
   }
   int dc_nbits = (temp == 0) ? 0 : (Log2FloorNonZero(temp) + 1);
@@ -531,6 +532,7 @@ bool EncodeDCTBlockSequential(const coeff_t* coeffs,
     }
     if (temp < 0) {
       temp = -temp;
+      if (temp < 0) return false;  // Magnitude is not representable.
       temp2 = ~temp;
     } else {
       temp2 = temp;
@@ -571,6 +573,7 @@ bool EncodeDCTBlockProgressive(const coeff_t* coeffs,
     temp2 = temp;
     if (temp < 0) {
       temp = -temp;
+      if (temp < 0) return false;  // Magnitude is not representable.
       temp2--;
     }
     int nbits = (temp == 0) ? 0 : (Log2FloorNonZero(temp) + 1);
@@ -591,6 +594,7 @@ bool EncodeDCTBlockProgressive(const coeff_t* coeffs,
     }
     if (temp < 0) {
       temp = -temp;
+      if (temp < 0) return false;  // Magnitude is not representable.
       temp >>= Al;
       temp2 = ~temp;
     } else {
-- 
2.43.0


From fcbb982e72947141d1fb6f0139df49d556246689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 12/16] fix: reject unknown format versions above 32 bits

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 1e280ea..c061bd4 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1205,7 +1205,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
           return Fail(state, BRUNSLI_INVALID_BRN);
         }
         // Unknown mode - only 3 bits are defined.
-        if ((version & ~0x7u) != 0) {
+        if (version > 0x7u) {
           return Fail(state, BRUNSLI_INVALID_BRN);
         }
 
-- 
2.43.0


From 4463d91b5a758e034d9650155867fe18e924c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 13/16] fix: encoder fails instead of writing past the end of
 the output buffer

---
 c/enc/brunsli_encode.cc | 30 ++++++++++++++++++++++++------
 c/enc/write_bits.cc     |  7 +++++--
 c/enc/write_bits.h      | 11 +++++++++--
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 0f991e7..4e52777 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -705,6 +705,14 @@ void DataStream::EncodeCodeWords(EntropyCodes* s, Storage* storage) {
     }
   }
   const uint32_t state = ans.GetState();
+  size_t num_words = 2;
+  for (int i = 0; i < pos_; ++i) {
+    if (code_words_[i].nbits) ++num_words;
+  }
+  if (num_words > storage->length / 2) {
+    storage->overflow = true;
+    return;
+  }
   uint16_t* out = reinterpret_cast<uint16_t*>(storage->data);
   const uint16_t* out_start = out;
   // Mixed-endian for historical reasons.
@@ -823,7 +831,10 @@ bool EncodeHeader(const JPEGData& jpg, State* state, uint8_t* data,
   size_t version_comp = (jpg.components.size() - 1) | (version << 2);
   size_t subsampling = FrameTypeCode(jpg);
 
-  size_t pos = 0;
+  size_t pos = 4 + Base128Size(jpg.width) + Base128Size(jpg.height) +
+               Base128Size(version_comp) + Base128Size(subsampling);
+  if (pos > *len) return false;
+  pos = 0;
   EncodeValue(kBrunsliHeaderWidthTag, jpg.width, data, &pos);
   EncodeValue(kBrunsliHeaderHeightTag, jpg.height, data, &pos);
   EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, data, &pos);
@@ -877,6 +888,8 @@ bool EncodeMetaData(const JPEGData& jpg, State* state, uint8_t* data,
     return true;
   }
 
+  if (Base128Size(metadata.size()) > *len) return false;
+
   // Write base-128 encoding of the original metadata size.
   size_t pos = EncodeBase128(metadata.size(), data);
 
@@ -906,7 +919,7 @@ bool EncodeJPEGInternals(const JPEGData& jpg, State* state, uint8_t* data,
   }
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 bool EncodeQuantData(const JPEGData& jpg, State* state, uint8_t* data,
@@ -919,7 +932,7 @@ bool EncodeQuantData(const JPEGData& jpg, State* state, uint8_t* data,
   }
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 bool EncodeHistogramData(const JPEGData& jpg, State* state, uint8_t* data,
@@ -935,7 +948,7 @@ bool EncodeHistogramData(const JPEGData& jpg, State* state, uint8_t* data,
   state->entropy_codes->BuildAndStoreEntropyCodes(&storage);
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 bool EncodeDCData(const JPEGData& jpg, State* state, uint8_t* data,
@@ -946,7 +959,7 @@ bool EncodeDCData(const JPEGData& jpg, State* state, uint8_t* data,
   state->data_stream_dc.EncodeCodeWords(state->entropy_codes, &storage);
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 bool EncodeACData(const JPEGData& jpg, State* state, uint8_t* data,
@@ -957,7 +970,7 @@ bool EncodeACData(const JPEGData& jpg, State* state, uint8_t* data,
   state->data_stream_ac.EncodeCodeWords(state->entropy_codes, &storage);
 
   *len = storage.GetBytesUsed();
-  return true;
+  return storage.IsHealthy();
 }
 
 typedef bool (*EncodeSectionDataFn)(const JPEGData& jpg, State* state,
@@ -966,6 +979,11 @@ typedef bool (*EncodeSectionDataFn)(const JPEGData& jpg, State* state,
 bool EncodeSection(const JPEGData& jpg, State* s, uint8_t tag,
                    EncodeSectionDataFn write_section, size_t section_size_bytes,
                    size_t len, uint8_t* data, size_t* pos) {
+  // The marker, the size and at least one more byte have to fit.
+  if (section_size_bytes + 1 >= len || *pos >= len - section_size_bytes - 1) {
+    return false;
+  }
+
   // Write the marker byte for the section.
   const size_t pos_start = *pos;
   const uint8_t marker = SectionMarker(tag);
diff --git a/c/enc/write_bits.cc b/c/enc/write_bits.cc
index 0a2c730..aa7a5a2 100644
--- a/c/enc/write_bits.cc
+++ b/c/enc/write_bits.cc
@@ -10,14 +10,17 @@
 namespace brunsli {
 
 Storage::Storage(uint8_t* data, size_t length)
-    : data(data), length(length), pos(0) {
+    : data(data), length(length), pos(0), overflow(false) {
   BRUNSLI_CHECK(length > 0);
   data[0] = 0;
 }
 
 void Storage::AppendBytes(const uint8_t* src, size_t len) {
   BRUNSLI_DCHECK((pos & 7) == 0);
-  BRUNSLI_DCHECK(GetBytesUsed() + len <= length);
+  if (len > length - GetBytesUsed()) {
+    overflow = true;
+    return;
+  }
   memcpy(data + (pos >> 3), src, len);
   pos += 8 * len;
 }
diff --git a/c/enc/write_bits.h b/c/enc/write_bits.h
index 27ee199..db28fb4 100644
--- a/c/enc/write_bits.h
+++ b/c/enc/write_bits.h
@@ -29,11 +29,16 @@ class Storage {
 
   void AppendBytes(const uint8_t* src, size_t len);
 
+  /* Returns false, if something did not fit into the buffer. */
+  bool IsHealthy() const { return !overflow; }
+
   uint8_t* const data;
   // Size of buffer in bytes.
   const size_t length;
   // Number of bits written.
   size_t pos;
+  // Something was dropped, because it did not fit.
+  bool overflow;
 };
 
 /* This function writes bits into bytes in increasing addresses, and within
@@ -57,8 +62,11 @@ BRUNSLI_INLINE void WriteBits(size_t n_bits, uint64_t bits, Storage* storage) {
                       << std::setw(10) << storage->pos << BRUNSLI_ENDL();
   BRUNSLI_DCHECK((bits >> n_bits) == 0);
   BRUNSLI_DCHECK(n_bits <= 56);
+  if (((storage->pos + n_bits) >> 3) + 7 >= storage->length) {
+    storage->overflow = true;
+    return;
+  }
 #if defined(BRUNSLI_LITTLE_ENDIAN)
-  BRUNSLI_DCHECK(((storage->pos + n_bits) >> 3) + 7 < storage->length);
   /* This branch of the code can write up to 56 bits at a time,
      7 bits are lost by being perhaps already in *p and at least
      1 bit is needed to initialize the bit-stream ahead (i.e. if 7
@@ -71,7 +79,6 @@ BRUNSLI_INLINE void WriteBits(size_t n_bits, uint64_t bits, Storage* storage) {
   storage->pos += n_bits;
 #else
   /* implicit & 0xFF is assumed for uint8_t arithmetics */
-  BRUNSLI_DCHECK(((storage->pos + n_bits) >> 3) < storage->length);
   uint8_t* BRUNSLI_RESTRICT array_pos = storage->data + (storage->pos >> 3);
   const size_t bits_reserved_in_first_byte = (storage->pos & 7);
   bits <<= bits_reserved_in_first_byte;
-- 
2.43.0


From 01a529b70fd54aade17888241d7c88e19895f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 14/16] fix: upper bound of the encoded size holds for noise

---
 c/enc/brunsli_encode.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 4e52777..dd17213 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -80,8 +80,9 @@ size_t GetMaximumBrunsliEncodedSize(const JPEGData& jpg) {
   for (const auto& component : jpg.components) {
     num_blocks += component.num_blocks;
   }
-  // Currently established upper bound is 82 bytes per block.
-  constexpr size_t kBytesPerBlock = 82 + 2;
+  // Noise with all the AC coefficients in range [-2047, 2047] carries 12 bits
+  // per coefficient, i.e. 95 bytes per block, and its coding is not ideal.
+  constexpr size_t kBytesPerBlock = 128;
   size_t entropy_size = num_blocks * kBytesPerBlock;
   return entropy_size + hdr_size;
 }
-- 
2.43.0


From 73ec993f77c3fc06bbe85c9973c4833c0da031e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 15/16] fix: group encoder sizes its buffers by their content

---
 c/experimental/groups.cc | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index ce345ca..d2eaff0 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -301,18 +301,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
   {
     std::vector<uint8_t>& part = output[0];
     state.entropy_codes = entropy_codes.get();
-    size_t part_size = 20480;
-    for (size_t i = 0; i < jpg.inter_marker_data.size(); ++i) {
-      part_size += 5 + jpg.inter_marker_data[i].size();
-    }
-    for (const std::vector<uint8_t>& chunk : jpg.app_data) {
-      part_size += chunk.size();
-    }
-    for (const std::vector<uint8_t>& chunk : jpg.com_data) {
-      part_size += chunk.size();
-    }
-    part_size += jpg.tail_data.size();
-    // TODO(eustas): take into account histograms.
+    size_t part_size = GetMaximumBrunsliEncodedSize(jpg);
     part.resize(part_size);
     uint32_t skip_flags =
         (1u << brunsli::kBrunsliDCDataTag) | (1u << brunsli::kBrunsliACDataTag);
@@ -322,6 +311,14 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     part.resize(part_size);
   }
 
+  const auto count_blocks = [](const State& s) {
+    size_t num_blocks = 0;
+    for (const ComponentMeta& m : s.meta) {
+      num_blocks += static_cast<size_t>(m.width_in_blocks) * m.height_in_blocks;
+    }
+    return num_blocks;
+  };
+
   const auto serialize = [&](size_t idx) {
     if (failed.load()) return;
     std::vector<uint8_t>& part = output[idx];
@@ -329,8 +326,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx--;
     if (idx < dc_state.size()) {
       State& s = dc_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 128 * (128 + 16) * jpg.components.size();
+      size_t part_size = 4096 + 8 * count_blocks(s);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliDCDataTag);
@@ -345,8 +341,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx -= dc_state.size();
     if (idx < ac_state.size()) {
       State& s = ac_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 32 * 32 * 63 * jpg.components.size();
+      size_t part_size = 4096 + 128 * count_blocks(s);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliACDataTag);
-- 
2.43.0


From f39a0a42a67bcf0a3c56fe9fa676c1cad810b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 16/16] fix: tools do not cut the size of large input files to
 32 bits

---
 c/tools/cbrunsli.cc | 6 +++++-
 c/tools/dbrunsli.cc | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/c/tools/cbrunsli.cc b/c/tools/cbrunsli.cc
index ac3ca79..ce7e78c 100644
--- a/c/tools/cbrunsli.cc
+++ b/c/tools/cbrunsli.cc
@@ -31,7 +31,11 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  long input_size = ftell(file);
+  if (input_size < 0) {
+    fprintf(stderr, "Failed to get the size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
diff --git a/c/tools/dbrunsli.cc b/c/tools/dbrunsli.cc
index 7d15c2a..17b4a79 100644
--- a/c/tools/dbrunsli.cc
+++ b/c/tools/dbrunsli.cc
@@ -38,7 +38,11 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  long input_size = ftell(file);
+  if (input_size < 0) {
+    fprintf(stderr, "Failed to get the size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
-- 
2.43.0

