From 2eaccde207f9a82e2929808c1893d756c9e73ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 01/26] fix: initialise ReadBitBuffer's position validity flag

Seek() on a fresh reader, before any Tell() or read, depended on an
uninitialised member and could fail with FailedPrecondition.
---
 iamf/common/read_bit_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/common/read_bit_buffer.h b/iamf/common/read_bit_buffer.h
index f73c561..8165a10 100644
--- a/iamf/common/read_bit_buffer.h
+++ b/iamf/common/read_bit_buffer.h
@@ -299,7 +299,7 @@ class ReadBitBuffer {
   int64_t source_bit_offset_ = 0;
 
   // Specifies whether a position returned by Tell() is valid.
-  bool is_position_valid_;
+  bool is_position_valid_ = true;
 };
 
 /*!\brief Memory-based read bit buffer.
-- 
2.43.0


From 3bf3a0c28a347a13efcb14015c34a6a5be573785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 02/26] fix: do not wrap when subtracting a huge OBU extension
 header size

The sum was computed in 32 bits, so an extension_header_size close to 2^32
wrapped, passed the negative payload size check and was then used to size an
allocation.
---
 iamf/obu/obu_header.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index e2444f2..c150e1e 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -194,7 +194,8 @@ int64_t GetObuPayloadSize(DecodedUleb128 obu_size,
                           DecodedUleb128 extension_header_bytes_size) {
   return static_cast<int64_t>(obu_size) -
          (num_samples_to_trim_at_end_size + num_samples_to_trim_at_start_size +
-          extension_header_size_size + extension_header_bytes_size);
+          extension_header_size_size +
+          static_cast<int64_t>(extension_header_bytes_size));
 }
 
 absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
-- 
2.43.0


From 553cc16a46629d69c04964503be13ed765716274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 03/26] fix: compute the peeked total OBU size in 64 bits

An obu_size close to 2^32 wrapped, so the peeked total size was smaller than
the header itself.
---
 iamf/obu/obu_header.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index c150e1e..0ecba45 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -212,7 +212,8 @@ absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
   int8_t size_of_obu_size = 0;
   RETURN_IF_NOT_OK(rb.ReadULeb128(obu_size, size_of_obu_size));
   // The extra byte is for the `obu_type` field + the three boolean fields.
-  output_header_metadata.total_obu_size = obu_size + size_of_obu_size + 1;
+  output_header_metadata.total_obu_size =
+      static_cast<int64_t>(obu_size) + size_of_obu_size + 1;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From c5ffe38f574c2b4c796b070eb8919c6bea728e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 04/26] fix: reject a FLAC STREAMINFO block whose length is not
 34

The reader ignored the declared length and always consumed 34 bytes, so an
inconsistent length was accepted and silently rewritten.
---
 iamf/obu/decoder_config/flac_decoder_config.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/obu/decoder_config/flac_decoder_config.cc b/iamf/obu/decoder_config/flac_decoder_config.cc
index 9b7db33..5b66ad6 100644
--- a/iamf/obu/decoder_config/flac_decoder_config.cc
+++ b/iamf/obu/decoder_config/flac_decoder_config.cc
@@ -272,6 +272,10 @@ absl::Status FlacDecoderConfig::ReadAndValidate(uint32_t num_samples_per_frame,
 
     switch (metadata_block.header.block_type) {
       case FlacMetaBlockHeader::kFlacStreamInfo:
+        RETURN_IF_NOT_OK(ValidateEqual(
+            metadata_data_block_length,
+            static_cast<uint32_t>(StrictCons::kStreamInfoBlockLength),
+            "`STREAMINFO` metadata_data_block_length"));
         RETURN_IF_NOT_OK(ReadStreamInfo(
             std::get<FlacMetaBlockStreamInfo>(metadata_block.payload), rb));
         break;
-- 
2.43.0


From 3aa8cd425dc7fe4ab1dabb2d5ce52b2a790f0a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 05/26] fix: container size check no longer wraps to the type
 of the reported size

---
 iamf/common/utils/validation_utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iamf/common/utils/validation_utils.h b/iamf/common/utils/validation_utils.h
index e35681c..3fa5f4e 100644
--- a/iamf/common/utils/validation_utils.h
+++ b/iamf/common/utils/validation_utils.h
@@ -41,7 +41,9 @@ absl::Status ValidateContainerSizeEqual(absl::string_view field_name,
                                         const Container& container,
                                         ReportedSize reported_size) {
   const auto actual_size = container.size();
-  if (static_cast<ReportedSize>(actual_size) == reported_size) [[likely]] {
+  // Compare the mathematical values, so a size which does not fit in the type
+  // of `reported_size` never wraps around to match it.
+  if (std::cmp_equal(actual_size, reported_size)) [[likely]] {
     return absl::OkStatus();
   }
   return absl::InvalidArgumentError(absl::StrCat(
-- 
2.43.0


From 5f3fabc4ecd79c8550f8a1b3ade8cc3034b764d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 06/26] fix: StaticCastIfInRange compares values of different
 signedness correctly

---
 iamf/common/utils/numeric_utils.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/iamf/common/utils/numeric_utils.h b/iamf/common/utils/numeric_utils.h
index b284e90..1c694ee 100644
--- a/iamf/common/utils/numeric_utils.h
+++ b/iamf/common/utils/numeric_utils.h
@@ -99,6 +99,20 @@ absl::Status StaticCastIfInRange(absl::string_view field_name, InputType input,
   constexpr OutputType kMinOutput = std::numeric_limits<OutputType>::min();
   constexpr OutputType kMaxOutput = std::numeric_limits<OutputType>::max();
   bool is_in_range = kMinOutput <= input && input <= kMaxOutput;
+  // When the signedness differs, the comparisons above would convert the signed
+  // operand to unsigned. Compare the mathematical values instead.
+  if constexpr (std::is_integral_v<InputType> &&
+                std::is_integral_v<OutputType> &&
+                std::is_signed_v<InputType> != std::is_signed_v<OutputType>) {
+    if constexpr (std::is_signed_v<InputType>) {
+      is_in_range =
+          input >= 0 &&
+          static_cast<std::make_unsigned_t<InputType>>(input) <= kMaxOutput;
+    } else {
+      is_in_range =
+          input <= static_cast<std::make_unsigned_t<OutputType>>(kMaxOutput);
+    }
+  }
 
   if (is_in_range || is_char_to_raw_bytes) [[likely]] {
     output = static_cast<OutputType>(input);
-- 
2.43.0


From 09d66188ac6fdd31db8cefae1f59503c85bed95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 07/26] fix: WritePcmFrameToBuffer rejects channels of unequal
 length and accepts no channels

---
 iamf/cli/cli_util.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/cli_util.cc b/iamf/cli/cli_util.cc
index 2062331..e83ef85 100644
--- a/iamf/cli/cli_util.cc
+++ b/iamf/cli/cli_util.cc
@@ -26,6 +26,7 @@
 #include "absl/status/status.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
+#include "absl/types/span.h"
 #include "iamf/cli/audio_element_with_data.h"
 #include "iamf/cli/descriptor_obus.h"
 #include "iamf/cli/sample_processing_utils.h"
@@ -179,7 +180,12 @@ absl::Status WritePcmFrameToBuffer(
     return absl::InvalidArgumentError(
         "This function only supports an integer number of bytes.");
   }
-  const size_t num_samples = frame.size() * frame[0].size();
+  const auto num_ticks =
+      GetCommonNumTicks<std::vector<int32_t>>(absl::MakeConstSpan(frame));
+  if (!num_ticks.ok()) {
+    return num_ticks.status();
+  }
+  const size_t num_samples = frame.size() * *num_ticks;
   buffer.resize(num_samples * (bit_depth / 8));
   if (num_samples == 0) {
     return absl::OkStatus();
@@ -188,7 +194,7 @@ absl::Status WritePcmFrameToBuffer(
   // The input frame is arranged in (channel, time) axes. Interlace these in
   // the output PCM.
   size_t write_position = 0;
-  for (size_t t = 0; t < frame[0].size(); ++t) {
+  for (size_t t = 0; t < *num_ticks; ++t) {
     for (size_t c = 0; c < frame.size(); c++) {
       const uint32_t sample = static_cast<uint32_t>(frame[c][t]);
       RETURN_IF_NOT_OK(WritePcmSample(sample, bit_depth, big_endian,
-- 
2.43.0


From 4e250cd04bcbad1cbce77cfc4fa32665e0d881f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 08/26] fix: temporal unit trims no longer wrap when summed

---
 iamf/cli/temporal_unit_view.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/temporal_unit_view.cc b/iamf/cli/temporal_unit_view.cc
index b9922a1..abbd03c 100644
--- a/iamf/cli/temporal_unit_view.cc
+++ b/iamf/cli/temporal_unit_view.cc
@@ -69,10 +69,12 @@ ComputeTemporalUnitStatisticsFromAudioFrame(
 
   // Check the trim in the first frame is plausible. I.e. there are not at least
   // 0 samples. This also prevents underflow when subtracting later.
-  const uint32_t cumulative_trim = statistics.num_samples_to_trim_at_start +
-                                   statistics.num_samples_to_trim_at_end;
-  RETURN_IF_NOT_OK(Validate(cumulative_trim, std::less_equal<uint32_t>(),
-                            statistics.num_samples_per_frame,
+  // Sum in 64 bits, so large trims cannot wrap around.
+  const uint64_t cumulative_trim =
+      uint64_t{statistics.num_samples_to_trim_at_start} +
+      statistics.num_samples_to_trim_at_end;
+  RETURN_IF_NOT_OK(Validate(cumulative_trim, std::less_equal<uint64_t>(),
+                            uint64_t{statistics.num_samples_per_frame},
                             "cumulative trim is <= `num_samples_per_frame`"));
   statistics.num_untrimmed_samples =
       statistics.num_samples_per_frame - cumulative_trim;
-- 
2.43.0


From f1d19091faf073e1779542399cfb56fd91f78ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 09/26] fix: mix gain interpolation is accurate for long and
 asymmetric animations

---
 iamf/common/utils/obu_util.h | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/iamf/common/utils/obu_util.h b/iamf/common/utils/obu_util.h
index dcdc2f0..3c2f621 100644
--- a/iamf/common/utils/obu_util.h
+++ b/iamf/common/utils/obu_util.h
@@ -79,16 +79,16 @@ absl::Status InterpolateMixGainValue(
 
   // TODO(b/283281856): Support resampling parameter blocks.
   const int sample_rate_ratio = 1;
-  const int n_0 = start_time * sample_rate_ratio;
-  const int n = target_time * sample_rate_ratio;
-  const int n_2 = end_time * sample_rate_ratio;
+  const InternalTimestamp n_0 = start_time * sample_rate_ratio;
+  const InternalTimestamp n = target_time * sample_rate_ratio;
+  const InternalTimestamp n_2 = end_time * sample_rate_ratio;
 
   if (animation_type == step_enum) {
     // No interpolation is needed for step.
     target_mix_gain_db = Q7_8ToFloat(step_start_point_getter());
   } else if (animation_type == linear_enum) {
     // Interpolate using the exact formula from the spec.
-    const float a = (float)n / (float)n_2;
+    const float a = n_2 == 0 ? 0.0f : (float)n / (float)n_2;
     const float p_0 = Q7_8ToFloat(linear_start_point_getter());
     const float p_2 = Q7_8ToFloat(linear_end_point_getter());
     target_mix_gain_db = (1 - a) * p_0 + a * p_2;
@@ -96,19 +96,24 @@ absl::Status InterpolateMixGainValue(
     const float control_point_float =
         Q0_8ToFloat(bezier_control_point_relative_time_getter());
     // Using the definition of `round` in the IAMF spec.
-    const int n_1 = std::floor((end_time * control_point_float) + 0.5);
+    const InternalTimestamp n_1 = static_cast<InternalTimestamp>(std::floor(
+        (static_cast<double>(end_time) * control_point_float) + 0.5));
 
     const float p_0 = Q7_8ToFloat(bezier_start_point_getter());
     const float p_1 = Q7_8ToFloat(bezier_control_point_getter());
     const float p_2 = Q7_8ToFloat(bezier_end_point_getter());
 
-    const float alpha = n_0 - 2 * n_1 + n_2;
-    const float beta = 2 * (n_1 - n_0);
-    const float gamma = n_0 - n;
-    const float a = alpha == 0
-                        ? -gamma / beta
-                        : (-beta + std::sqrt(beta * beta - 4 * alpha * gamma)) /
-                              (2 * alpha);
+    // Solve `alpha * a^2 + beta * a + gamma = 0` in double precision. This form
+    // of the root is stable when `alpha` is small and defined when it is zero.
+    const double alpha = n_0 - 2 * n_1 + n_2;
+    const double beta = 2 * (n_1 - n_0);
+    const double gamma = n_0 - n;
+    const float a =
+        gamma == 0.0
+            ? 0.0f
+            : static_cast<float>(
+                  -2 * gamma /
+                  (beta + std::sqrt(beta * beta - 4 * alpha * gamma)));
     target_mix_gain_db =
         (1 - a) * (1 - a) * p_0 + 2 * (1 - a) * a * p_1 + a * a * p_2;
   } else {
-- 
2.43.0


From 6f0f32c37b21433d9c0706a5d159ed013f2bbff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 10/26] fix: reserved ambisonics modes are rejected instead of
 parsed as mono

---
 iamf/obu/ambisonics_config.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/ambisonics_config.cc b/iamf/obu/ambisonics_config.cc
index 716f16b..baf1dfc 100644
--- a/iamf/obu/ambisonics_config.cc
+++ b/iamf/obu/ambisonics_config.cc
@@ -295,7 +295,8 @@ absl::Status AmbisonicsConfig::ReadAndValidate(ReadBitBuffer& rb) {
       return absl::OkStatus();
     }
     default:
-      return absl::OkStatus();
+      return absl::InvalidArgumentError(absl::StrCat(
+          "Unsupported ambisonics_mode= ", ambisonics_mode_uleb));
   }
 }
 
-- 
2.43.0


From 0963ec273ac1913cb5bb8f14270bf09a5d8ea813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 11/26] fix: ambisonics mono mappings of 256 or more entries
 are rejected

---
 iamf/obu/ambisonics_config.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/obu/ambisonics_config.cc b/iamf/obu/ambisonics_config.cc
index baf1dfc..d6d232d 100644
--- a/iamf/obu/ambisonics_config.cc
+++ b/iamf/obu/ambisonics_config.cc
@@ -108,6 +108,10 @@ absl::Status WriteAmbisonicsProjection(
 absl::StatusOr<AmbisonicsMonoConfig> AmbisonicsMonoConfig::Create(
     uint8_t substream_count, absl::Span<const uint8_t> channel_mapping) {
   const size_t output_channel_count = channel_mapping.size();
+  // Check the range first; the next check takes a `uint8_t`.
+  MAYBE_RETURN_IF_NOT_OK(ValidateInRange(output_channel_count,
+                                         {size_t{1}, size_t{225}},
+                                         "output_channel_count"));
   MAYBE_RETURN_IF_NOT_OK(ValidateOutputChannelCount(output_channel_count));
   RETURN_IF_NOT_OK(ValidateContainerSizeEqual(
       "channel_mapping", channel_mapping, output_channel_count));
-- 
2.43.0


From ece43c40b950d1bd3eb4ac744f744e83eed33188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 12/26] fix: keep the configuration of reserved audio element
 types when reading

---
 iamf/obu/audio_element.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iamf/obu/audio_element.cc b/iamf/obu/audio_element.cc
index 6da0505..2c2c2a7 100644
--- a/iamf/obu/audio_element.cc
+++ b/iamf/obu/audio_element.cc
@@ -594,6 +594,7 @@ absl::Status AudioElementObu::ReadAndValidatePayloadDerived(
         RETURN_IF_NOT_OK(rb.ReadUnsignedLiteral(8, config_bytes));
         extension_config.audio_element_config_bytes.push_back(config_bytes);
       }
+      config_ = std::move(extension_config);
 
       return absl::OkStatus();
     }
-- 
2.43.0


From d00a6b936f9481afb914a5537ca8e378cd3513cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 13/26] fix: channel layouts of 256 or more layers are rejected

---
 iamf/obu/audio_element.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iamf/obu/audio_element.cc b/iamf/obu/audio_element.cc
index 2c2c2a7..6865cb4 100644
--- a/iamf/obu/audio_element.cc
+++ b/iamf/obu/audio_element.cc
@@ -332,9 +332,12 @@ absl::Status ChannelAudioLayerConfig::Read(ReadBitBuffer& rb) {
 
 absl::Status ScalableChannelLayoutConfig::Validate(
     DecodedUleb128 num_substreams_in_audio_element) const {
-  if (GetNumLayers() == 0 || GetNumLayers() > 6) {
+  // `GetNumLayers()` is narrower than the number of layers.
+  if (channel_audio_layer_configs.empty() ||
+      channel_audio_layer_configs.size() > 6) {
     return absl::InvalidArgumentError(
-        absl::StrCat("Expected `num_layers` in [1, 6]; got ", GetNumLayers()));
+        absl::StrCat("Expected `num_layers` in [1, 6]; got ",
+                     channel_audio_layer_configs.size()));
   }
 
   // Determine whether any binaural layouts are found and the total number of
-- 
2.43.0


From f299d380834468ac8c6cd2251ae99b84a822edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 14/26] fix: let audio elements sharing a parameter ID each
 consume its blocks

Parameter blocks were stored per parameter ID and dropped as soon as the
first audio element advanced. Any other element with the same parameter ID
never advanced, so its next frame was rejected.
---
 iamf/cli/parameters_manager.cc | 51 +++++++++++++++++++++-------------
 iamf/cli/parameters_manager.h  | 12 ++++----
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/iamf/cli/parameters_manager.cc b/iamf/cli/parameters_manager.cc
index eeded8b..6c1d702 100644
--- a/iamf/cli/parameters_manager.cc
+++ b/iamf/cli/parameters_manager.cc
@@ -63,11 +63,9 @@ absl::Status UpdateParameterState(
   parameter_state = &parameter_states_iter->second;
 
   // Using `.at()` here is safe because if the parameter state exists for the
-  // `audio_element_id`, an entry in `parameter_blocks` with the key
-  // `parameter_state->param_definition->GetParameterId()` has already been
-  // created during `Initialize()`.
-  auto& parameter_block = parameter_blocks.at(
-      (*parameter_state)->param_definition->GetParameterId());
+  // `audio_element_id`, an entry in `parameter_blocks` with the same key has
+  // already been created during `Create()`.
+  auto& parameter_block = parameter_blocks.at(audio_element_id);
   if (parameter_block == nullptr) {
     // No parameter block found for this ID. Do not validate the timestamp
     // or update anything else. Setting `parameter_state` to `std::nullopt`
@@ -90,6 +88,22 @@ absl::Status UpdateParameterState(
   return absl::OkStatus();
 }
 
+// Audio elements may share a parameter ID. Each of them consumes the parameter
+// block separately.
+template <typename StateType>
+void AddParameterBlock(
+    const ParameterBlockWithData* parameter_block,
+    const absl::flat_hash_map<DecodedUleb128, StateType>& parameter_states,
+    absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>&
+        parameter_blocks) {
+  for (const auto& [audio_element_id, parameter_state] : parameter_states) {
+    if (parameter_state.param_definition->GetParameterId() ==
+        parameter_block->obu->parameter_id_) {
+      parameter_blocks[audio_element_id] = parameter_block;
+    }
+  }
+}
+
 }  // namespace
 
 absl::StatusOr<std::unique_ptr<ParametersManager> absl_nonnull>
@@ -140,11 +154,10 @@ ParametersManager::Create(
     }
 
     if (demixing_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
+      // Insert a `nullptr` for the audio element. If no parameter blocks have
+      // its parameter ID, then it will remain null and default values will
       // be used.
-      demixing_parameter_blocks.insert(
-          {demixing_param_definition->GetParameterId(), nullptr});
+      demixing_parameter_blocks.insert({audio_element_id, nullptr});
       demixing_states[audio_element_id] = {
           .param_definition = demixing_param_definition,
           .previous_w_idx = 0,
@@ -153,11 +166,10 @@ ParametersManager::Create(
       };
     }
     if (recon_gain_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
+      // Insert a `nullptr` for the audio element. If no parameter blocks have
+      // its parameter ID, then it will remain null and default values will
       // be used.
-      recon_gain_parameter_blocks.insert(
-          {recon_gain_param_definition->GetParameterId(), nullptr});
+      recon_gain_parameter_blocks.insert({audio_element_id, nullptr});
       recon_gain_states[audio_element_id] = {
           .param_definition = recon_gain_param_definition,
           .next_timestamp = 0,
@@ -201,7 +213,7 @@ absl::Status ParametersManager::GetDownMixingParameters(
   auto& demixing_state = demixing_states_iter->second;
   const auto* param_definition = demixing_state.param_definition;
   const auto* demixing_parameter_block =
-      demixing_parameter_blocks_.at(param_definition->GetParameterId());
+      demixing_parameter_blocks_.at(audio_element_id);
   if (demixing_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. Use the
     // default value from the parameter definition. This is OK when there are
@@ -254,9 +266,8 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
   }
 
   auto& recon_gain_state = recon_gain_states_iter->second;
-  const auto* param_definition = recon_gain_state.param_definition;
   const auto* recon_gain_parameter_block =
-      recon_gain_parameter_blocks_.at(param_definition->GetParameterId());
+      recon_gain_parameter_blocks_.at(audio_element_id);
   if (recon_gain_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. A default
     // recon gain value of 0 dB is implied when there are no Parameter Block
@@ -311,14 +322,14 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
 
 void ParametersManager::AddDemixingParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  demixing_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  AddParameterBlock(parameter_block, demixing_states_,
+                    demixing_parameter_blocks_);
 }
 
 void ParametersManager::AddReconGainParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  recon_gain_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  AddParameterBlock(parameter_block, recon_gain_states_,
+                    recon_gain_parameter_blocks_);
 }
 
 absl::Status ParametersManager::UpdateDemixingState(
diff --git a/iamf/cli/parameters_manager.h b/iamf/cli/parameters_manager.h
index bdfbfa7..470ae6b 100644
--- a/iamf/cli/parameters_manager.h
+++ b/iamf/cli/parameters_manager.h
@@ -156,10 +156,10 @@ class ParametersManager {
    *
    * Used only by factory function.
    *
-   * \param demixing_parameter_blocks Mapping from Parameter ID to demixing
-   *        parameter blocks.
-   * \param recon_gain_parameter_blocks Mapping from Parameter ID to recon gain
-   *        parameter blocks.
+   * \param demixing_parameter_blocks Mapping from Audio Element ID to
+   *        demixing parameter blocks.
+   * \param recon_gain_parameter_blocks Mapping from Audio Element ID to
+   *        recon gain parameter blocks.
    * \param demixing_states Mapping from Audio Element ID to the demixing
    *        state.
    * \param recon_gain_states Mapping from Audio Element ID to the recon gain
@@ -177,11 +177,11 @@ class ParametersManager {
         demixing_states_(demixing_states),
         recon_gain_states_(recon_gain_states) {}
 
-  // Mapping from Parameter ID to demixing parameter blocks.
+  // Mapping from Audio Element ID to demixing parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       demixing_parameter_blocks_;
 
-  // Mapping from Parameter ID to recon gain parameter blocks.
+  // Mapping from Audio Element ID to recon gain parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       recon_gain_parameter_blocks_;
 
-- 
2.43.0


From 0d44af8138f73a4234eae03eb367cdda87fb25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 15/26] fix: reject demixing parameter blocks without subblocks

GetReconGainInfoParameterData() already does; GetDownMixingParameters()
read the first subblock of an empty vector.
---
 iamf/cli/parameters_manager.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iamf/cli/parameters_manager.cc b/iamf/cli/parameters_manager.cc
index 6c1d702..0323c1d 100644
--- a/iamf/cli/parameters_manager.cc
+++ b/iamf/cli/parameters_manager.cc
@@ -234,6 +234,12 @@ absl::Status ParametersManager::GetDownMixingParameters(
       absl::StrCat("Getting down-mixing parameters for audio element ID= ",
                    audio_element_id, ": ")));
 
+  if (demixing_parameter_block->obu->subblocks_.empty()) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "Demixing parameter block for audio element ID= ", audio_element_id,
+        " has no subblocks."));
+  }
+
   RETURN_IF_NOT_OK(DemixingInfoParameterData::DMixPModeToDownMixingParams(
       static_cast<DemixingInfoParameterData*>(
           demixing_parameter_block->obu->subblocks_[0].get())
-- 
2.43.0


From a839c530a98a14a84e888103c7d9708966ad09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 16/26] fix: an expanded layout is rejected when there are
 further layers

---
 iamf/cli/obu_with_data_generator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/obu_with_data_generator.cc b/iamf/cli/obu_with_data_generator.cc
index 57595ba..33af255 100644
--- a/iamf/cli/obu_with_data_generator.cc
+++ b/iamf/cli/obu_with_data_generator.cc
@@ -183,13 +183,13 @@ absl::Status CollectBaseChannelGroupLabels(
 }
 
 absl::Status CollectChannelLayersAndLabelsForExpandedLoudspeakerLayout(
-    int layer_index,
+    int layer_index, int num_layers,
     std::optional<ChannelAudioLayerConfig::ExpandedLoudspeakerLayout>
         expanded_loudspeaker_layout,
     ChannelNumbers& channel_numbers,
     std::list<ChannelLabel::Label>& coupled_substream_labels,
     std::list<ChannelLabel::Label>& non_coupled_substream_labels) {
-  if (layer_index != 0) {
+  if (num_layers != 1) {
     return absl::InvalidArgumentError(
         "Expanded layout is only permitted when there is a single layer.");
   }
@@ -726,7 +726,8 @@ absl::Status ObuWithDataGenerator::FinalizeScalableChannelLayoutConfig(
         ChannelAudioLayerConfig::kLayoutExpanded) {
       RETURN_IF_NOT_OK(
           CollectChannelLayersAndLabelsForExpandedLoudspeakerLayout(
-              i, layer_config.expanded_loudspeaker_layout, layer_channels,
+              i, config.GetNumLayers(),
+              layer_config.expanded_loudspeaker_layout, layer_channels,
               coupled_substream_labels, non_coupled_substream_labels));
     } else {
       RETURN_IF_NOT_OK(CollectChannelLayersAndLabelsForLoudspeakerLayout(
-- 
2.43.0


From 9363a370d542d753ebaa8be129aaa97679a16725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 17/26] fix: do not finalize descriptors which were never
 pushed

---
 iamf/cli/obu_sequencer_base.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/obu_sequencer_base.cc b/iamf/cli/obu_sequencer_base.cc
index 6dd37e0..8a4b297 100644
--- a/iamf/cli/obu_sequencer_base.cc
+++ b/iamf/cli/obu_sequencer_base.cc
@@ -516,8 +516,14 @@ absl::Status ObuSequencerBase::UpdateDescriptorObusAndClose(
           "Descriptor OBUs have changed size between finalizing and closing.");
     }
 
-    RETURN_IF_NOT_OK(PushFinalizedDescriptorObus(updated_descriptor_obus));
-    state_ = kPushSerializedDescriptorsCalled;
+    if (state_ == kPushDescriptorObusCalled) {
+      // The original descriptors were delayed and are not in the output yet.
+      // There is nothing to finalize; `Close` will push the updated ones.
+      descriptor_statistics_->descriptor_obus =
+          std::move(descriptor_statistics.descriptor_obus);
+    } else {
+      RETURN_IF_NOT_OK(PushFinalizedDescriptorObus(updated_descriptor_obus));
+    }
   }
   // OK, regardless of whether the descriptors actually changed, obey the
   // request to close.
-- 
2.43.0


From 705802217a47affed14ba597fe2eb4b2ab9bd51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 18/26] fix: keep delaying temporal units when closing failed
 to push descriptors

---
 iamf/cli/obu_sequencer_base.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/iamf/cli/obu_sequencer_base.cc b/iamf/cli/obu_sequencer_base.cc
index 8a4b297..c457dda 100644
--- a/iamf/cli/obu_sequencer_base.cc
+++ b/iamf/cli/obu_sequencer_base.cc
@@ -540,14 +540,12 @@ absl::Status ObuSequencerBase::Close() {
       break;
     case kPushDescriptorObusCalled: {
       // Ok, trivial IA sequences don't have a first untrimmed timestamp. So
-      // we will simply push the descriptors with a fallback PTS of 0.
-      descriptor_statistics_->first_untrimmed_timestamp = kFallbackFirstPts;
-
+      // we will simply push the descriptors with a fallback PTS of 0. The
+      // fallback is not recorded, the descriptors are still due if this fails.
       RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
           descriptor_statistics_->common_samples_per_frame,
           descriptor_statistics_->common_sample_rate,
-          descriptor_statistics_->common_bit_depth,
-          descriptor_statistics_->first_untrimmed_timestamp,
+          descriptor_statistics_->common_bit_depth, kFallbackFirstPts,
           descriptor_statistics_->num_channels,
           descriptor_statistics_->descriptor_obus));
       state_ = kPushSerializedDescriptorsCalled;
-- 
2.43.0


From 38afa0b0ecb6753876e3dba13e9885b0698b2e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:06 +0000
Subject: [PATCH 19/26] fix: a temporal unit which did not fit in the output
 buffer remains available

---
 iamf/api/decoder/iamf_decoder.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 4c4d980..7dc8a70 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -449,20 +449,18 @@ IamfStatus IamfDecoder::GetOutputTemporalUnit(uint8_t* output_buffer,
   IamfStatus status = WriteFrameToSpan(
       state_->rendered_samples, output_sample_type,
       absl::MakeSpan(output_buffer, output_buffer_size), bytes_written);
-  if (status.ok()) {
-    state_->rendered_samples.clear();
+  if (!status.ok()) {
+    // The temporal unit remains available.
+    return status;
   }
+  state_->rendered_samples.clear();
 
   // Refill the rendered samples with the next temporal unit.
-  auto decode_status = DecodeOneTemporalUnit(
+  return DecodeOneTemporalUnit(
       state_->read_bit_buffer.get(), state_->obu_processor.get(),
       state_->created_from_descriptors ||
           state_->status == DecoderStatus::kEndOfStream,
       state_->rendered_samples, state_->channel_reorderer);
-  if (!decode_status.ok()) {
-    return decode_status;
-  }
-  return status;
 }
 
 bool IamfDecoder::IsTemporalUnitAvailable() const {
-- 
2.43.0


From 24d6f3628c56fa521c0776af9ca21dc3a6df5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:07 +0000
Subject: [PATCH 20/26] fix: reorder channels even when only the end of
 decoding is signalled

---
 iamf/api/decoder/iamf_decoder.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 7dc8a70..4da799b 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -173,6 +173,15 @@ absl::Status IamfDecoder::DecoderState::CreateObuProcessor() {
   }
   actual_layout = *new_layout;
 
+  // The remaining temporal units may be decoded by any function, configure the
+  // channel order now.
+  channel_reorderer = std::nullopt;
+  if (const auto* ss_layout = std::get_if<LoudspeakersSsConventionLayout>(
+          &actual_layout.specific_layout)) {
+    channel_reorderer = ChannelReorderer::Create(ss_layout->sound_system,
+                                                 channel_rearrangement_scheme);
+  }
+
   // Copy over fields at the end, now that everything is successful.
   obu_processor = std::move(temp_obu_processor);
 
@@ -417,14 +426,6 @@ IamfStatus IamfDecoder::Decode(const uint8_t* input_buffer,
   }
 
   // At this stage, we know that we've processed all descriptor OBUs.
-  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
-          state_->actual_layout.specific_layout)) {
-    auto sound_system = std::get<LoudspeakersSsConventionLayout>(
-                            state_->actual_layout.specific_layout)
-                            .sound_system;
-    state_->channel_reorderer = ChannelReorderer::Create(
-        sound_system, state_->channel_rearrangement_scheme);
-  }
   if (state_->rendered_samples.empty()) {
     // We only try to actually decode a temporal unit if we have no currently
     // decoded temporal units. If we do, we'll decode the next temporal unit in
-- 
2.43.0


From 4c08cfd5e245dd3dc829ffb12c0bf469aace0910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:07 +0000
Subject: [PATCH 21/26] fix: temporal units without output do not hide those
 which follow

---
 iamf/api/decoder/iamf_decoder.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 4da799b..c4e8318 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -222,15 +222,20 @@ IamfStatus DecodeOneTemporalUnit(
   if (obu_processor == nullptr) {
     return IamfStatus::ErrorStatus("Internal Error: Obu processor is null.");
   }
-  std::optional<ObuProcessor::OutputTemporalUnit> output_temporal_unit;
-  bool unused_continue_processing = true;
-  absl::Status absl_status = obu_processor->ProcessTemporalUnit(
-      eos_is_end_of_sequence, output_temporal_unit, unused_continue_processing);
-  if (!absl_status.ok()) {
-    return AbslToIamfStatus(absl_status);
-  }
-  // We may have processed bytes but not a full temporal unit.
-  if (output_temporal_unit.has_value()) {
+  // Some temporal units have nothing to output. Keep going, because a later one
+  // which does may already be buffered.
+  bool continue_processing = true;
+  while (continue_processing && rendered_samples.empty()) {
+    std::optional<ObuProcessor::OutputTemporalUnit> output_temporal_unit;
+    absl::Status absl_status = obu_processor->ProcessTemporalUnit(
+        eos_is_end_of_sequence, output_temporal_unit, continue_processing);
+    if (!absl_status.ok()) {
+      return AbslToIamfStatus(absl_status);
+    }
+    // We may have processed bytes but not a full temporal unit.
+    if (!output_temporal_unit.has_value()) {
+      continue;
+    }
     absl::StatusOr<absl::Span<const absl::Span<const InternalSampleType>>>
         rendered_samples_for_temporal_unit =
             obu_processor->RenderTemporalUnitAndMeasureLoudness(
@@ -242,7 +247,7 @@ IamfStatus DecodeOneTemporalUnit(
     }
     rendered_samples = std::vector(rendered_samples_for_temporal_unit->begin(),
                                    rendered_samples_for_temporal_unit->end());
-    if (channel_reorderer.has_value()) {
+    if (channel_reorderer.has_value() && !rendered_samples.empty()) {
       ABSL_CHECK_OK(channel_reorderer->Reorder(rendered_samples));
     }
   }
-- 
2.43.0


From 2473238a58e23a12cd10895786000af69c7f12fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:59 +0000
Subject: [PATCH 22/26] fix: mix gains of trimmed frames start at the first
 sample kept

---
 iamf/cli/layout_renderer_factory.cc          |  2 +-
 iamf/cli/renderer/default_layout_renderer.cc | 32 ++++++++++++++------
 iamf/cli/renderer/default_layout_renderer.h  |  9 ++++--
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/iamf/cli/layout_renderer_factory.cc b/iamf/cli/layout_renderer_factory.cc
index 1c14c08..68ebf42 100644
--- a/iamf/cli/layout_renderer_factory.cc
+++ b/iamf/cli/layout_renderer_factory.cc
@@ -34,7 +34,7 @@ std::unique_ptr<LayoutRendererBase> LayoutRendererFactory::CreateRenderer(
   return DefaultLayoutRenderer::Create(
       audio_elements_in_sub_mix, sub_mix_audio_elements, output_mix_gain,
       layout, num_channels, common_sample_rate, common_num_samples_per_frame,
-      RendererFactory(trimming_settings_));
+      RendererFactory(trimming_settings_), trimming_settings_);
 }
 
 }  // namespace iamf_tools
diff --git a/iamf/cli/renderer/default_layout_renderer.cc b/iamf/cli/renderer/default_layout_renderer.cc
index 91471bd..2c41b46 100644
--- a/iamf/cli/renderer/default_layout_renderer.cc
+++ b/iamf/cli/renderer/default_layout_renderer.cc
@@ -124,7 +124,7 @@ absl::Status GetAndApplyMixGain(
     const absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>&
         id_to_parameter_block,
     const MixGainParamDefinition& mix_gain, int32_t num_channels,
-    std::vector<float>& linear_mix_gain_per_tick,
+    size_t num_trimmed_at_start, std::vector<float>& linear_mix_gain_per_tick,
     std::vector<std::vector<InternalSampleType>>& rendered_samples) {
   RETURN_IF_NOT_OK(ValidateContainerSizeEqual("rendered_samples",
                                               rendered_samples, num_channels));
@@ -132,8 +132,10 @@ absl::Status GetAndApplyMixGain(
   const auto num_ticks =
       rendered_samples.empty() ? 0 : rendered_samples[0].size();
 
-  // Get the mix gain on a per tick basis from the parameter block.
-  linear_mix_gain_per_tick.resize(num_ticks);
+  // Get the mix gain on a per tick basis from the parameter block. Parameter
+  // blocks are aligned with the frame before trimming, so the gains of the ticks
+  // trimmed from the start are computed, but not applied.
+  linear_mix_gain_per_tick.resize(num_trimmed_at_start + num_ticks);
   RETURN_IF_NOT_OK(GetParameterBlockLinearMixGainsPerTick(
       common_sample_rate, id_to_parameter_block, mix_gain,
       linear_mix_gain_per_tick));
@@ -146,7 +148,8 @@ absl::Status GetAndApplyMixGain(
   for (auto& rendered_samples_for_channel : rendered_samples) {
     for (size_t tick = 0; tick < num_ticks; tick++) {
       // Apply the mix gain per tick to all channels.
-      rendered_samples_for_channel[tick] *= linear_mix_gain_per_tick[tick];
+      rendered_samples_for_channel[tick] *=
+          linear_mix_gain_per_tick[num_trimmed_at_start + tick];
     }
   }
 
@@ -209,7 +212,8 @@ std::unique_ptr<DefaultLayoutRenderer> DefaultLayoutRenderer::Create(
     const MixGainParamDefinition& output_mix_gain, const Layout& layout,
     int32_t num_channels, uint32_t common_sample_rate,
     uint32_t common_num_samples_per_frame,
-    const RendererFactoryBase& renderer_factory) {
+    const RendererFactoryBase& renderer_factory,
+    TrimmingSettings trimming_settings) {
   const size_t num_audio_elements = audio_elements_in_sub_mix.size();
   ABSL_CHECK_OK(ValidateContainerSizeEqual(
       "sub_mix_audio_elements", sub_mix_audio_elements, num_audio_elements));
@@ -241,7 +245,7 @@ std::unique_ptr<DefaultLayoutRenderer> DefaultLayoutRenderer::Create(
   return absl::WrapUnique(new DefaultLayoutRenderer(
       audio_element_ids, element_mix_gains, output_mix_gain,
       std::move(renderers), num_channels, common_sample_rate,
-      common_num_samples_per_frame));
+      common_num_samples_per_frame, trimming_settings));
 }
 
 absl::Status DefaultLayoutRenderer::Render(
@@ -252,6 +256,8 @@ absl::Status DefaultLayoutRenderer::Render(
     std::vector<absl::Span<const InternalSampleType>>& valid_rendered_samples) {
   // Each audio element rendered individually with `element_mix_gain` applied.
   const size_t num_audio_elements = audio_element_ids_.size();
+  // All frames in a temporal unit have the same trimming information.
+  size_t num_trimmed_at_start = 0;
   for (size_t i = 0; i < num_audio_elements; i++) {
     const auto& audio_element_id = audio_element_ids_[i];
     const auto& element_mix_gain = element_mix_gains_[i];
@@ -263,11 +269,15 @@ absl::Status DefaultLayoutRenderer::Render(
       RETURN_IF_NOT_OK(RenderLabeledFrameToLayout(
           labeled_frame, common_num_samples_per_frame_, *renderers_[i],
           rendered_audio_elements_[i]));
+      num_trimmed_at_start = trimming_settings_.trim_beginning
+                                 ? labeled_frame.samples_to_trim_at_start
+                                 : 0;
     }
 
     RETURN_IF_NOT_OK(GetAndApplyMixGain(
         common_sample_rate_, id_to_parameter_block, element_mix_gain,
-        num_channels_, linear_mix_gain_per_tick_, rendered_audio_elements_[i]));
+        num_channels_, num_trimmed_at_start, linear_mix_gain_per_tick_,
+        rendered_audio_elements_[i]));
   }
 
   // Mix the audio elements.
@@ -279,7 +289,8 @@ absl::Status DefaultLayoutRenderer::Render(
 
   RETURN_IF_NOT_OK(GetAndApplyMixGain(
       common_sample_rate_, id_to_parameter_block, output_mix_gain_,
-      num_channels_, linear_mix_gain_per_tick_, rendered_samples));
+      num_channels_, num_trimmed_at_start, linear_mix_gain_per_tick_,
+      rendered_samples));
 
   // TODO(b/542068876): Clip audio sample values to [-1, 1] here.
 
@@ -297,11 +308,12 @@ DefaultLayoutRenderer::DefaultLayoutRenderer(
     const MixGainParamDefinition& output_mix_gain,
     std::vector<std::unique_ptr<AudioElementRendererBase>> renderers,
     int32_t num_channels, uint32_t common_sample_rate,
-    uint32_t common_num_samples_per_frame)
+    uint32_t common_num_samples_per_frame, TrimmingSettings trimming_settings)
     : LayoutRendererBase(audio_element_ids, element_mix_gains, output_mix_gain,
                          num_channels, common_sample_rate,
                          common_num_samples_per_frame),
       renderers_(std::move(renderers)),
-      rendered_audio_elements_(audio_element_ids.size()) {}
+      rendered_audio_elements_(audio_element_ids.size()),
+      trimming_settings_(trimming_settings) {}
 
 }  // namespace iamf_tools
diff --git a/iamf/cli/renderer/default_layout_renderer.h b/iamf/cli/renderer/default_layout_renderer.h
index dff4bb6..773327a 100644
--- a/iamf/cli/renderer/default_layout_renderer.h
+++ b/iamf/cli/renderer/default_layout_renderer.h
@@ -57,6 +57,7 @@ class DefaultLayoutRenderer : public LayoutRendererBase {
    * \param common_num_samples_per_frame Common number of samples per frame.
    * \param renderer_factory Factory to create individual audio element
    *        renderers.
+   * \param trimming_settings Settings the `renderer_factory` trims frames with.
    * \return Unique pointer to the created renderer, or `nullptr` on failure.
    */
   static std::unique_ptr<DefaultLayoutRenderer> Create(
@@ -65,7 +66,8 @@ class DefaultLayoutRenderer : public LayoutRendererBase {
       const MixGainParamDefinition& output_mix_gain, const Layout& layout,
       int32_t num_channels, uint32_t common_sample_rate,
       uint32_t common_num_samples_per_frame,
-      const RendererFactoryBase& renderer_factory);
+      const RendererFactoryBase& renderer_factory,
+      TrimmingSettings trimming_settings = {});
 
   /*!\brief Destructor. */
   ~DefaultLayoutRenderer() override = default;
@@ -98,6 +100,7 @@ class DefaultLayoutRenderer : public LayoutRendererBase {
    * \param num_channels Number of output channels for this layout.
    * \param common_sample_rate Common sample rate for the sub-mix.
    * \param common_num_samples_per_frame Common number of samples per frame.
+   * \param trimming_settings Settings the `renderers` trim frames with.
    */
   DefaultLayoutRenderer(
       const std::vector<DecodedUleb128>& audio_element_ids,
@@ -105,12 +108,14 @@ class DefaultLayoutRenderer : public LayoutRendererBase {
       const MixGainParamDefinition& output_mix_gain,
       std::vector<std::unique_ptr<AudioElementRendererBase>> renderers,
       int32_t num_channels, uint32_t common_sample_rate,
-      uint32_t common_num_samples_per_frame);
+      uint32_t common_num_samples_per_frame,
+      TrimmingSettings trimming_settings);
 
   std::vector<std::unique_ptr<AudioElementRendererBase>> renderers_;
   std::vector<std::vector<std::vector<InternalSampleType>>>
       rendered_audio_elements_;
   std::vector<float> linear_mix_gain_per_tick_;
+  const TrimmingSettings trimming_settings_;
 };
 
 }  // namespace iamf_tools
-- 
2.43.0


From 8d8484c01546d8e8ae62d7a0e6751c1f6bd34cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:12 +0000
Subject: [PATCH 23/26] fix: close and remove the wav file when its header
 cannot be written

---
 iamf/cli/wav_writer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index cbc90e2..a1a19a9 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -162,6 +162,8 @@ std::unique_ptr<WavWriter> WavWriter::Create(const std::string& wav_filename,
              kAudioToTactileResultFailure) {
     ABSL_LOG(ERROR) << "Error writing header of file \"" << wav_filename
                     << "\"";
+    std::fclose(file);
+    std::remove(wav_filename.c_str());
     return nullptr;
   }
 
-- 
2.43.0


From dbbd66797f928566e96587604911bbbad7e6f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:12 +0000
Subject: [PATCH 24/26] fix: aborting a finished wav writer does not close the
 file again

---
 iamf/cli/wav_writer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index a1a19a9..3199e1a 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -226,9 +226,12 @@ absl::Status WavWriter::WritePcmSamples(absl::Span<const uint8_t> buffer) {
 }
 
 void WavWriter::Abort() {
-  std::fclose(file_);
+  // The file is already closed after a flush or an earlier abort.
+  if (file_ != nullptr) {
+    std::fclose(file_);
+    file_ = nullptr;
+  }
   std::remove(filename_to_remove_.c_str());
-  file_ = nullptr;
 }
 
 WavWriter::WavWriter(const std::string& filename_to_remove, int num_channels,
-- 
2.43.0


From 7fbb30359b7162d5326cd6ae182c36c407869ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:37 +0000
Subject: [PATCH 25/26] fix: binaural rendering of projected ambisonics accepts
 trimmed frames

---
 iamf/cli/renderer/audio_element_renderer_binaural.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iamf/cli/renderer/audio_element_renderer_binaural.cc b/iamf/cli/renderer/audio_element_renderer_binaural.cc
index 278b06a..9c474c8 100644
--- a/iamf/cli/renderer/audio_element_renderer_binaural.cc
+++ b/iamf/cli/renderer/audio_element_renderer_binaural.cc
@@ -307,6 +307,11 @@ absl::Status AudioElementRendererBinaural::RenderSamples(
   // Copy samples to the input audio buffer; optionally project the input
   // samples first.
   if (demixing_matrix_.has_value()) {
+    // Trimmed frames have fewer samples than the others.
+    for (size_t c = 0; c < projected_samples_.size(); c++) {
+      projected_samples_[c].resize(samples_to_render[0].size());
+      projected_samples_spans_[c] = absl::MakeSpan(projected_samples_[c]);
+    }
     RETURN_IF_NOT_OK(
         ProjectSamplesToRender(samples_to_render, *demixing_matrix_,
                                absl::MakeSpan(projected_samples_spans_)));
-- 
2.43.0


From 7d10f957c190f516a3238cb475e8a7b34b9469e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:37 +0000
Subject: [PATCH 26/26] fix: binaural rendering does not repeat samples of an
 earlier frame behind a trimmed one

---
 iamf/cli/renderer/audio_element_renderer_binaural.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/iamf/cli/renderer/audio_element_renderer_binaural.cc b/iamf/cli/renderer/audio_element_renderer_binaural.cc
index 9c474c8..7e242ce 100644
--- a/iamf/cli/renderer/audio_element_renderer_binaural.cc
+++ b/iamf/cli/renderer/audio_element_renderer_binaural.cc
@@ -141,6 +141,15 @@ void CopySamples(size_t num_channels, const SourceBufferType& source_buffer,
       destination_buffer_for_channel[t] =
           static_cast<DestinationValueType>(source_samples_for_channel[t]);
     }
+
+    // A trimmed frame is shorter than the pre-allocated destination. Clear the
+    // rest, which may hold samples of an earlier frame.
+    if constexpr (!ResizeDestinationChannels) {
+      for (size_t t = num_destination_channels_samples;
+           t < destination_buffer_for_channel.size(); t++) {
+        destination_buffer_for_channel[t] = DestinationValueType{};
+      }
+    }
   }
 }
 
-- 
2.43.0

