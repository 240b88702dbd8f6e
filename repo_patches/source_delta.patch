From fd3b4b793d609847fc1e2087913140a2739e996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 01/46] fix: initialise ReadBitBuffer::is_position_valid_

Seek() read an uninitialised flag when it was called on a fresh buffer before
any Tell(), so it could spuriously fail.
---
 iamf/common/read_bit_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/common/read_bit_buffer.h b/iamf/common/read_bit_buffer.h
index f73c561..8165a10 100644
--- a/iamf/common/read_bit_buffer.h
+++ b/iamf/common/read_bit_buffer.h
@@ -299,7 +299,7 @@ class ReadBitBuffer {
   int64_t source_bit_offset_ = 0;
 
   // Specifies whether a position returned by Tell() is valid.
-  bool is_position_valid_;
+  bool is_position_valid_ = true;
 };
 
 /*!\brief Memory-based read bit buffer.
-- 
2.43.0


From 3b16208d9a3603fcaf4a879ed24832575d042377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 02/46] fix: do not wrap the payload size of an OBU with a huge
 extension header

---
 iamf/obu/obu_header.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index e2444f2..c150e1e 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -194,7 +194,8 @@ int64_t GetObuPayloadSize(DecodedUleb128 obu_size,
                           DecodedUleb128 extension_header_bytes_size) {
   return static_cast<int64_t>(obu_size) -
          (num_samples_to_trim_at_end_size + num_samples_to_trim_at_start_size +
-          extension_header_size_size + extension_header_bytes_size);
+          extension_header_size_size +
+          static_cast<int64_t>(extension_header_bytes_size));
 }
 
 absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
-- 
2.43.0


From 9227df01dee61c2d0a9807bd6b9258dd053055a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 03/46] fix: keep the extension config of an audio element with
 a reserved type

---
 iamf/obu/audio_element.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iamf/obu/audio_element.cc b/iamf/obu/audio_element.cc
index 6da0505..2c2c2a7 100644
--- a/iamf/obu/audio_element.cc
+++ b/iamf/obu/audio_element.cc
@@ -594,6 +594,7 @@ absl::Status AudioElementObu::ReadAndValidatePayloadDerived(
         RETURN_IF_NOT_OK(rb.ReadUnsignedLiteral(8, config_bytes));
         extension_config.audio_element_config_bytes.push_back(config_bytes);
       }
+      config_ = std::move(extension_config);
 
       return absl::OkStatus();
     }
-- 
2.43.0


From a1bcc25dc5faca46b25c3c392af2d58186324062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 04/46] fix: configure the decoder's channel reordering with
 its descriptors

A decoder whose descriptors and temporal units arrived in one call, or that
was drained after a reset, emitted the first units in IAMF order although
kOrderingForAndroid was requested.
---
 iamf/api/decoder/iamf_decoder.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 4c4d980..c7ba818 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -173,6 +173,16 @@ absl::Status IamfDecoder::DecoderState::CreateObuProcessor() {
   }
   actual_layout = *new_layout;
 
+  // The final layout is known, configure the reordering of its channels.
+  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
+          actual_layout.specific_layout)) {
+    auto sound_system =
+        std::get<LoudspeakersSsConventionLayout>(actual_layout.specific_layout)
+            .sound_system;
+    channel_reorderer =
+        ChannelReorderer::Create(sound_system, channel_rearrangement_scheme);
+  }
+
   // Copy over fields at the end, now that everything is successful.
   obu_processor = std::move(temp_obu_processor);
 
@@ -417,14 +427,6 @@ IamfStatus IamfDecoder::Decode(const uint8_t* input_buffer,
   }
 
   // At this stage, we know that we've processed all descriptor OBUs.
-  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
-          state_->actual_layout.specific_layout)) {
-    auto sound_system = std::get<LoudspeakersSsConventionLayout>(
-                            state_->actual_layout.specific_layout)
-                            .sound_system;
-    state_->channel_reorderer = ChannelReorderer::Create(
-        sound_system, state_->channel_rearrangement_scheme);
-  }
   if (state_->rendered_samples.empty()) {
     // We only try to actually decode a temporal unit if we have no currently
     // decoded temporal units. If we do, we'll decode the next temporal unit in
-- 
2.43.0


From efbda3f662eb2b69a4b0e6974775d3cdfe9c9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 05/46] fix: keep the temporal unit when the output buffer is
 too small

GetOutputTemporalUnit() decoded the next temporal unit over the one it had
failed to write, which was silently lost.
---
 iamf/api/decoder/iamf_decoder.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index c7ba818..9bac9d8 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -451,9 +451,11 @@ IamfStatus IamfDecoder::GetOutputTemporalUnit(uint8_t* output_buffer,
   IamfStatus status = WriteFrameToSpan(
       state_->rendered_samples, output_sample_type,
       absl::MakeSpan(output_buffer, output_buffer_size), bytes_written);
-  if (status.ok()) {
-    state_->rendered_samples.clear();
+  if (!status.ok()) {
+    // Keep the temporal unit, so the caller may retry.
+    return status;
   }
+  state_->rendered_samples.clear();
 
   // Refill the rendered samples with the next temporal unit.
   auto decode_status = DecodeOneTemporalUnit(
@@ -464,7 +466,7 @@ IamfStatus IamfDecoder::GetOutputTemporalUnit(uint8_t* output_buffer,
   if (!decode_status.ok()) {
     return decode_status;
   }
-  return status;
+  return IamfStatus::OkStatus();
 }
 
 bool IamfDecoder::IsTemporalUnitAvailable() const {
-- 
2.43.0


From d236dd1863a25d36e86bca2a786bf3bc09c97712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 06/46] fix: do not stop at temporal units without audio frames

A temporal unit without audio frames (two consecutive temporal delimiters, or
only parameter blocks) made IsTemporalUnitAvailable() return false although
later units were buffered; after SignalEndOfDecoding() they were never output.
---
 iamf/api/decoder/iamf_decoder.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 9bac9d8..2996968 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -224,12 +224,19 @@ IamfStatus DecodeOneTemporalUnit(
     return IamfStatus::ErrorStatus("Internal Error: Obu processor is null.");
   }
   std::optional<ObuProcessor::OutputTemporalUnit> output_temporal_unit;
-  bool unused_continue_processing = true;
-  absl::Status absl_status = obu_processor->ProcessTemporalUnit(
-      eos_is_end_of_sequence, output_temporal_unit, unused_continue_processing);
-  if (!absl_status.ok()) {
-    return AbslToIamfStatus(absl_status);
-  }
+  bool continue_processing = true;
+  // Skip over temporal units without audio frames. They have nothing to render,
+  // but later temporal units may already be buffered.
+  do {
+    output_temporal_unit.reset();
+    absl::Status absl_status = obu_processor->ProcessTemporalUnit(
+        eos_is_end_of_sequence, output_temporal_unit, continue_processing);
+    if (!absl_status.ok()) {
+      return AbslToIamfStatus(absl_status);
+    }
+  } while (continue_processing &&
+           (!output_temporal_unit.has_value() ||
+            output_temporal_unit->output_audio_frames.empty()));
   // We may have processed bytes but not a full temporal unit.
   if (output_temporal_unit.has_value()) {
     absl::StatusOr<absl::Span<const absl::Span<const InternalSampleType>>>
-- 
2.43.0


From de4178ea39b4ff456adbdb09cd2ba3122a882b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 07/46] fix: do not leave the previous temporal unit in the
 output buffer

OutputTemporalUnit left the caller's reusable buffer untouched when the call
generated no temporal unit, so a client following the documented loop would
broadcast the previous temporal unit again.
---
 iamf/cli/iamf_encoder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/cli/iamf_encoder.cc b/iamf/cli/iamf_encoder.cc
index 2b7895b..58eea20 100644
--- a/iamf/cli/iamf_encoder.cc
+++ b/iamf/cli/iamf_encoder.cc
@@ -534,6 +534,10 @@ absl::Status IamfEncoder::Encode(
 
 absl::Status IamfEncoder::OutputTemporalUnit(
     std::vector<uint8_t>& temporal_unit_obus) {
+  // Not every call generates a temporal unit. Avoid leaving the previous one
+  // in the reusable output buffer.
+  temporal_unit_obus.clear();
+
   std::list<AudioFrameWithData> audio_frames;
   std::list<ParameterBlockWithData> parameter_blocks;
   std::list<ArbitraryObu> temporal_unit_arbitrary_obus;
-- 
2.43.0


From ad49ef0a7c2076447c86d548d9af6b42cd5b618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 08/46] fix: flush only audio elements which have audio frame
 metadata

Flushing looked up the labels of every audio element and crashed when one of
them had no audio frame metadata.
---
 .../proto_to_obu/audio_frame_generator.cc             | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 91ad44c..5c52c81 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -877,9 +877,16 @@ absl::Status AudioFrameGenerator::OutputFrames(
     // time.
     for (const auto& [audio_element_id, audio_element_with_data] :
          audio_elements_) {
+      const auto labels_iter =
+          audio_element_id_to_labels_.find(audio_element_id);
+      if (labels_iter == audio_element_id_to_labels_.end()) {
+        // There is no audio frame metadata for this audio element. It has no
+        // encoders to flush.
+        continue;
+      }
       RETURN_IF_NOT_OK(MaybeEncodeFramesForAudioElement(
-          audio_element_id, audio_element_with_data,
-          audio_element_id_to_labels_.at(audio_element_id), *downmixer_manager_,
+          audio_element_id, audio_element_with_data, labels_iter->second,
+          *downmixer_manager_,
           id_to_labeled_samples_[audio_element_id],
           substream_id_to_trimming_state_, parameters_manager_,
           substream_id_to_encoder_, substream_id_to_substream_data_,
-- 
2.43.0


From 80b6199d60668b8f4a554cc07144f425ab0930d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 09/46] fix: do not keep a reference to a temporary in
 AudioFrameGenerator

For trivial IA Sequences the audio elements were bound to a temporary which
was later read by OutputFrames.
---
 iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 5c52c81..0d180bc 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -652,7 +652,7 @@ AudioFrameGenerator::Create(
     // Ok, nothing will be generated. This state helps clients handle trivial IA
     // Sequences.
     return absl::WrapUnique(new AudioFrameGenerator(
-        {}, {}, std::move(downmixer_manager), parameters_manager,
+        {}, audio_elements, std::move(downmixer_manager), parameters_manager,
         global_timing_module, {}, {}, {},
         /*max_codec_delay=*/0));
   }
-- 
2.43.0


From 78882e38415a406c7befa39c57d2c60a52a5e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 10/46] fix: finish encoding when no samples were added

With a codec that has a delay and no input samples, the virtual samples for
the delay were never flushed and GeneratingTemporalUnits stayed true forever.
---
 .../proto_to_obu/audio_frame_generator.cc     | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 0d180bc..b4064e4 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -884,10 +884,25 @@ absl::Status AudioFrameGenerator::OutputFrames(
         // encoders to flush.
         continue;
       }
+      auto& labeled_samples = id_to_labeled_samples_[audio_element_id];
+      if (labeled_samples.empty()) {
+        // No samples were ever added for this audio element. There is nothing
+        // to push out of the encoders, drop the virtual samples which represent
+        // the codec delay.
+        for (const auto& [substream_id, unused_labels] :
+             audio_element_with_data.substream_id_to_labels) {
+          auto substream_data_iter =
+              substream_id_to_substream_data_.find(substream_id);
+          while (substream_data_iter != substream_id_to_substream_data_.end() &&
+                 !substream_data_iter->second.frames_in_obu.Empty()) {
+            substream_data_iter->second.frames_in_obu.PopFront();
+          }
+        }
+        continue;
+      }
       RETURN_IF_NOT_OK(MaybeEncodeFramesForAudioElement(
           audio_element_id, audio_element_with_data, labels_iter->second,
-          *downmixer_manager_,
-          id_to_labeled_samples_[audio_element_id],
+          *downmixer_manager_, labeled_samples,
           substream_id_to_trimming_state_, parameters_manager_,
           substream_id_to_encoder_, substream_id_to_substream_data_,
           global_timing_module_));
-- 
2.43.0


From 5a7c05da5459e52d9400251640e815ace1f69f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 11/46] fix: push delayed OBUs before closing or finalizing a
 sequence without samples

A sequencer which delays the descriptors until the first untrimmed sample
dropped temporal units which are fully trimmed when the sequence was closed
without any untrimmed sample. `UpdateDescriptorObusAndClose` pushed finalized
descriptors although the original descriptors and the delayed temporal units
had never been pushed.
---
 iamf/cli/obu_sequencer_base.cc | 58 ++++++++++++++++++----------------
 iamf/cli/obu_sequencer_base.h  |  6 ++++
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/iamf/cli/obu_sequencer_base.cc b/iamf/cli/obu_sequencer_base.cc
index 6dd37e0..a30104b 100644
--- a/iamf/cli/obu_sequencer_base.cc
+++ b/iamf/cli/obu_sequencer_base.cc
@@ -516,8 +516,13 @@ absl::Status ObuSequencerBase::UpdateDescriptorObusAndClose(
           "Descriptor OBUs have changed size between finalizing and closing.");
     }
 
+    if (state_ == kPushDescriptorObusCalled) {
+      // The original descriptors are still delayed, they must be pushed before
+      // they can be finalized.
+      descriptor_statistics_->first_untrimmed_timestamp = kFallbackFirstPts;
+      RETURN_IF_NOT_OK(FlushDelayedObus());
+    }
     RETURN_IF_NOT_OK(PushFinalizedDescriptorObus(updated_descriptor_obus));
-    state_ = kPushSerializedDescriptorsCalled;
   }
   // OK, regardless of whether the descriptors actually changed, obey the
   // request to close.
@@ -536,15 +541,7 @@ absl::Status ObuSequencerBase::Close() {
       // Ok, trivial IA sequences don't have a first untrimmed timestamp. So
       // we will simply push the descriptors with a fallback PTS of 0.
       descriptor_statistics_->first_untrimmed_timestamp = kFallbackFirstPts;
-
-      RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
-          descriptor_statistics_->common_samples_per_frame,
-          descriptor_statistics_->common_sample_rate,
-          descriptor_statistics_->common_bit_depth,
-          descriptor_statistics_->first_untrimmed_timestamp,
-          descriptor_statistics_->num_channels,
-          descriptor_statistics_->descriptor_obus));
-      state_ = kPushSerializedDescriptorsCalled;
+      RETURN_IF_NOT_OK(FlushDelayedObus());
       break;
     }
     case kPushSerializedDescriptorsCalled:
@@ -563,6 +560,28 @@ void ObuSequencerBase::Abort() {
   state_ = kClosed;
 }
 
+absl::Status ObuSequencerBase::FlushDelayedObus() {
+  RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
+      descriptor_statistics_->common_samples_per_frame,
+      descriptor_statistics_->common_sample_rate,
+      descriptor_statistics_->common_bit_depth,
+      descriptor_statistics_->first_untrimmed_timestamp,
+      descriptor_statistics_->num_channels,
+      descriptor_statistics_->descriptor_obus));
+  state_ = kPushSerializedDescriptorsCalled;
+
+  // Flush any delayed temporal units.
+  for (const auto& delayed_temporal_unit : delayed_temporal_units_) {
+    RETURN_IF_NOT_OK(PushSerializedTemporalUnit(
+        delayed_temporal_unit.start_timestamp,
+        delayed_temporal_unit.num_untrimmed_samples,
+        delayed_temporal_unit.is_key_frame,
+        absl::MakeConstSpan(delayed_temporal_unit.data)));
+  }
+  delayed_temporal_units_.clear();
+  return absl::OkStatus();
+}
+
 absl::Status ObuSequencerBase::HandleInitialTemporalUnits(
     const TemporalUnitView& temporal_unit,
     absl::Span<const uint8_t> serialized_temporal_unit, bool is_key_frame) {
@@ -595,24 +614,7 @@ absl::Status ObuSequencerBase::HandleInitialTemporalUnits(
   }
 
   // Found the first untrimmed sample. Push out all delayed OBUs.
-  RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
-      descriptor_statistics_->common_samples_per_frame,
-      descriptor_statistics_->common_sample_rate,
-      descriptor_statistics_->common_bit_depth,
-      descriptor_statistics_->first_untrimmed_timestamp,
-      descriptor_statistics_->num_channels,
-      descriptor_statistics_->descriptor_obus));
-  state_ = kPushSerializedDescriptorsCalled;
-
-  // Flush any delayed temporal units.
-  for (const auto& delayed_temporal_unit : delayed_temporal_units_) {
-    RETURN_IF_NOT_OK(PushSerializedTemporalUnit(
-        delayed_temporal_unit.start_timestamp,
-        delayed_temporal_unit.num_untrimmed_samples,
-        delayed_temporal_unit.is_key_frame,
-        absl::MakeConstSpan(delayed_temporal_unit.data)));
-  }
-  delayed_temporal_units_.clear();
+  RETURN_IF_NOT_OK(FlushDelayedObus());
   // Then finally, flush the current temporal unit.
   return PushSerializedTemporalUnit(temporal_unit.start_timestamp_,
                                     temporal_unit.num_untrimmed_samples_,
diff --git a/iamf/cli/obu_sequencer_base.h b/iamf/cli/obu_sequencer_base.h
index f49d72e..368ce07 100644
--- a/iamf/cli/obu_sequencer_base.h
+++ b/iamf/cli/obu_sequencer_base.h
@@ -215,6 +215,12 @@ class ObuSequencerBase {
       const TemporalUnitView& temporal_unit,
       absl::Span<const uint8_t> serialized_temporal_unit, bool is_key_frame);
 
+  /*!\brief Pushes the delayed descriptor OBUs and temporal units.
+   *
+   * \return `absl::OkStatus()` on success. A specific status on failure.
+   */
+  absl::Status FlushDelayedObus();
+
   enum State {
     // Initial state.
     kInitialized,
-- 
2.43.0


From 9befd57c26ddb5f98a59ae0f5058166d975ef41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 12/46] fix: detect failures to write the output file

The file was only checked with `bad()` before the buffered data was flushed. A
full disk or a failed seek could go unnoticed, and a truncated file was reported
as success.
---
 iamf/common/write_bit_buffer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iamf/common/write_bit_buffer.cc b/iamf/common/write_bit_buffer.cc
index 553a389..8daabbc 100644
--- a/iamf/common/write_bit_buffer.cc
+++ b/iamf/common/write_bit_buffer.cc
@@ -132,8 +132,11 @@ absl::Status WriteBufferToFile(const std::vector<uint8_t>& buffer,
   }
   output_file.write(reinterpret_cast<const char*>(buffer.data()),
                     buffer.size());
+  // Flush, so failures to write the data are detected here, instead of being
+  // silently ignored when the file is closed.
+  output_file.flush();
 
-  if (output_file.bad()) {
+  if (output_file.fail()) {
     return absl::UnknownError("Writing to file failed.");
   }
 
-- 
2.43.0


From ae45b5797f8ec2520bdd773d6978d90a53e160d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 13/46] fix: do not remove what the sequencer could not open

When the output path could not be opened, aborting removed whatever the path
referred to; e.g. an empty directory, or an existing file which is not
writable. The failure to remove a file was also logged only on success.
---
 iamf/cli/obu_sequencer_iamf.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/obu_sequencer_iamf.cc b/iamf/cli/obu_sequencer_iamf.cc
index f2aa560..8fb34d6 100644
--- a/iamf/cli/obu_sequencer_iamf.cc
+++ b/iamf/cli/obu_sequencer_iamf.cc
@@ -44,12 +44,17 @@ void MaybeRemoveFile(const std::string& filename,
     return;
   }
 
-  // Close and delete the file.
+  // Only delete the file, if it was opened. Otherwise the path may refer to
+  // something this class did not create.
+  const bool was_open = file_to_remove->is_open();
   file_to_remove->close();
   file_to_remove = std::nullopt;
+  if (!was_open) {
+    return;
+  }
   std::error_code error_code;
   std::filesystem::remove(filename, error_code);
-  if (!error_code) {
+  if (error_code) {
     // File clean up failed somehow. Just log the error and move on.
     ABSL_LOG(ERROR).WithPerror() << "Failed to remove " << filename;
   }
-- 
2.43.0


From a88681e81aafd8596a53e6b03c4ee9aa959e21c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 14/46] fix: do not send parameter blocks of a previous
 temporal unit again

Once a parameter ID had a parameter block, its metadata was passed to the
encoder with every following temporal unit. When a temporal unit had no
parameter block for the ID, encoding failed.
---
 iamf/cli/encoder_main_lib.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/encoder_main_lib.cc b/iamf/cli/encoder_main_lib.cc
index 7e0b7ef..e051f43 100644
--- a/iamf/cli/encoder_main_lib.cc
+++ b/iamf/cli/encoder_main_lib.cc
@@ -174,7 +174,7 @@ absl::Status GenerateTemporalUnitObus(const UserMetadata& user_metadata,
   //                    outputing OBUs.
   int temporal_unit_iteration = 0;  // Just for logging purposes.
   // Hold a single temporal unit data. Every temporal unit will fill the same
-  // slots in the inner maps; we can reuse them.
+  // audio slots in the inner maps; we can reuse them.
   api::IamfTemporalUnitData temporal_unit_data;
   while (iamf_encoder.GeneratingTemporalUnits()) {
     ABSL_LOG_EVERY_N_SEC(INFO, 5)
@@ -198,7 +198,9 @@ absl::Status GenerateTemporalUnitObus(const UserMetadata& user_metadata,
           labeled_samples,
           temporal_unit_data.audio_element_id_to_data[audio_element_id]));
     }
-    // Fill in this temporal unit's parameter block metadata.
+    // Fill in this temporal unit's parameter block metadata. Not every temporal
+    // unit has the same parameter blocks, so discard the previous ones.
+    temporal_unit_data.parameter_block_id_to_metadata.clear();
     for (const auto& metadata :
          time_parameter_block_metadata[input_timestamp]) {
       std::string serialized_metadata;
-- 
2.43.0


From 1c402f45f7708d8fa590ffaffaee5eb85ceb4bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 15/46] fix: refuse mix gains out of range when partitioning
 parameter blocks

---
 iamf/cli/parameter_block_partitioner.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/iamf/cli/parameter_block_partitioner.cc b/iamf/cli/parameter_block_partitioner.cc
index 8ea88f0..e163b6e 100644
--- a/iamf/cli/parameter_block_partitioner.cc
+++ b/iamf/cli/parameter_block_partitioner.cc
@@ -46,6 +46,23 @@ absl::Status InterpolateMixGainParameterData(
   float target_mix_gain_db = 0;
   using enum iamf_tools_cli_proto::AnimatedParameterDataInt16::
       ParameterDataCase;
+
+  // The metadata stores Q7.8 values in wider types. Values which do not fit
+  // must be rejected, instead of being wrapped.
+  int16_t unused_q7_8;
+  if (param_data.has_step()) {
+    RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+        "AnimationStepInt16.start_point_value",
+        param_data.step().start_point_value(), unused_q7_8));
+  } else if (param_data.has_linear()) {
+    RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+        "AnimationLinearInt16.start_point_value",
+        param_data.linear().start_point_value(), unused_q7_8));
+    RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+        "AnimationLinearInt16.end_point_value",
+        param_data.linear().end_point_value(), unused_q7_8));
+  }
+
   RETURN_IF_NOT_OK(InterpolateMixGainValue(
       mix_gain_parameter_data.param_data().parameter_data_case(), kStep,
       kLinear, kBezier,
-- 
2.43.0


From 1727857b70b2ebea2107b89d658cd9f5aa254ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 16/46] fix: apply the output gain of channel layers when
 decoding

---
 iamf/cli/demixing_manager.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/demixing_manager.cc b/iamf/cli/demixing_manager.cc
index 20353b5..0fb4635 100644
--- a/iamf/cli/demixing_manager.cc
+++ b/iamf/cli/demixing_manager.cc
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <climits>
+#include <cmath>
 #include <cstddef>
 #include <list>
 #include <optional>
@@ -232,7 +233,7 @@ absl::Status StoreSamplesForAudioElementId(
     bool use_decoded_samples,
     const std::list<AudioFrameWithData>& audio_frames_or_decoded_audio_frames,
     const SubstreamIdLabelsMap& substream_id_to_labels,
-    LabeledFrame& labeled_frame) {
+    const LabelGainMap& label_to_output_gain, LabeledFrame& labeled_frame) {
   if (audio_frames_or_decoded_audio_frames.empty()) {
     return absl::OkStatus();
   }
@@ -285,7 +286,18 @@ absl::Status StoreSamplesForAudioElementId(
 
     int channel_index = 0;
     for (const auto& label : labels) {
-      labeled_frame.label_to_samples[label] = input_samples[channel_index];
+      auto& samples = labeled_frame.label_to_samples[label];
+      samples = input_samples[channel_index];
+      // The original samples are kept without the output gain. Only decoded
+      // samples need it to be restored before demixing.
+      const auto gain_iter = label_to_output_gain.find(label);
+      if (use_decoded_samples && gain_iter != label_to_output_gain.end()) {
+        const double output_gain_linear =
+            std::pow(10.0, gain_iter->second / 20.0);
+        for (auto& sample : samples) {
+          sample *= output_gain_linear;
+        }
+      }
       channel_index++;
     }
     if (use_decoded_samples) {
@@ -421,7 +433,8 @@ absl::StatusOr<IdLabeledFrameMap> DemixingManager::DemixOriginalAudioSamples(
     LabeledFrame labeled_frame;
     RETURN_IF_NOT_OK(StoreSamplesForAudioElementId(
         /*use_decoded_samples=*/false, audio_frames,
-        demixing_metadata.substream_id_to_labels, labeled_frame));
+        demixing_metadata.substream_id_to_labels,
+        demixing_metadata.label_to_output_gain, labeled_frame));
     if (!labeled_frame.label_to_samples.empty()) {
       RETURN_IF_NOT_OK(
           ApplyDemixers(demixing_metadata.demixers, labeled_frame));
@@ -443,7 +456,8 @@ absl::StatusOr<IdLabeledFrameMap> DemixingManager::DemixDecodedAudioSamples(
     LabeledFrame labeled_decoded_frame;
     RETURN_IF_NOT_OK(StoreSamplesForAudioElementId(
         /*use_decoded_samples=*/true, decoded_audio_frames,
-        demixing_metadata.substream_id_to_labels, labeled_decoded_frame));
+        demixing_metadata.substream_id_to_labels,
+        demixing_metadata.label_to_output_gain, labeled_decoded_frame));
     if (!labeled_decoded_frame.label_to_samples.empty()) {
       RETURN_IF_NOT_OK(
           ApplyDemixers(demixing_metadata.demixers, labeled_decoded_frame));
-- 
2.43.0


From 75bf37964a5552013154455540c5c1b067d5cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 17/46] fix: let audio elements share a demixing or recon gain
 parameter

The first audio element to finish a temporal unit cleared the block for
the others, whose state then never advanced.
---
 iamf/cli/parameters_manager.cc | 59 ++++++++++++++++++++--------------
 iamf/cli/parameters_manager.h  | 12 +++----
 2 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/iamf/cli/parameters_manager.cc b/iamf/cli/parameters_manager.cc
index eeded8b..d03a92f 100644
--- a/iamf/cli/parameters_manager.cc
+++ b/iamf/cli/parameters_manager.cc
@@ -63,11 +63,9 @@ absl::Status UpdateParameterState(
   parameter_state = &parameter_states_iter->second;
 
   // Using `.at()` here is safe because if the parameter state exists for the
-  // `audio_element_id`, an entry in `parameter_blocks` with the key
-  // `parameter_state->param_definition->GetParameterId()` has already been
-  // created during `Initialize()`.
-  auto& parameter_block = parameter_blocks.at(
-      (*parameter_state)->param_definition->GetParameterId());
+  // `audio_element_id`, an entry in `parameter_blocks` with the same key has
+  // already been created during `Create()`.
+  auto& parameter_block = parameter_blocks.at(audio_element_id);
   if (parameter_block == nullptr) {
     // No parameter block found for this ID. Do not validate the timestamp
     // or update anything else. Setting `parameter_state` to `std::nullopt`
@@ -90,6 +88,22 @@ absl::Status UpdateParameterState(
   return absl::OkStatus();
 }
 
+// Audio elements may share a parameter ID. Each consumes the block at its own
+// pace.
+template <typename StateType>
+void AddParameterBlock(
+    const ParameterBlockWithData* absl_nonnull parameter_block,
+    const absl::flat_hash_map<DecodedUleb128, StateType>& parameter_states,
+    absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>&
+        parameter_blocks) {
+  for (const auto& [audio_element_id, state] : parameter_states) {
+    if (state.param_definition->GetParameterId() ==
+        parameter_block->obu->parameter_id_) {
+      parameter_blocks[audio_element_id] = parameter_block;
+    }
+  }
+}
+
 }  // namespace
 
 absl::StatusOr<std::unique_ptr<ParametersManager> absl_nonnull>
@@ -98,10 +112,10 @@ ParametersManager::Create(
   // Collect all `DemixingParamDefinition`s and all `ReconGainParamDefinitions`
   // in all Audio Elements. Validate there is no more than one per Audio
   // Element.
-  // Mapping from Parameter ID to demixing parameter blocks.
+  // Mapping from Audio Element ID to demixing parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       demixing_parameter_blocks;
-  // Mapping from Parameter ID to recon gain parameter blocks.
+  // Mapping from Audio Element ID to recon gain parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       recon_gain_parameter_blocks;
   // Mapping from Audio Element ID to the demixing state.
@@ -140,11 +154,10 @@ ParametersManager::Create(
     }
 
     if (demixing_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
-      // be used.
-      demixing_parameter_blocks.insert(
-          {demixing_param_definition->GetParameterId(), nullptr});
+      // Insert a `nullptr` for an audio element ID. If no parameter blocks
+      // have its parameter ID, then it will remain null and default values
+      // will be used.
+      demixing_parameter_blocks.insert({audio_element_id, nullptr});
       demixing_states[audio_element_id] = {
           .param_definition = demixing_param_definition,
           .previous_w_idx = 0,
@@ -153,11 +166,10 @@ ParametersManager::Create(
       };
     }
     if (recon_gain_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
-      // be used.
-      recon_gain_parameter_blocks.insert(
-          {recon_gain_param_definition->GetParameterId(), nullptr});
+      // Insert a `nullptr` for an audio element ID. If no parameter blocks
+      // have its parameter ID, then it will remain null and default values
+      // will be used.
+      recon_gain_parameter_blocks.insert({audio_element_id, nullptr});
       recon_gain_states[audio_element_id] = {
           .param_definition = recon_gain_param_definition,
           .next_timestamp = 0,
@@ -201,7 +213,7 @@ absl::Status ParametersManager::GetDownMixingParameters(
   auto& demixing_state = demixing_states_iter->second;
   const auto* param_definition = demixing_state.param_definition;
   const auto* demixing_parameter_block =
-      demixing_parameter_blocks_.at(param_definition->GetParameterId());
+      demixing_parameter_blocks_.at(audio_element_id);
   if (demixing_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. Use the
     // default value from the parameter definition. This is OK when there are
@@ -254,9 +266,8 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
   }
 
   auto& recon_gain_state = recon_gain_states_iter->second;
-  const auto* param_definition = recon_gain_state.param_definition;
   const auto* recon_gain_parameter_block =
-      recon_gain_parameter_blocks_.at(param_definition->GetParameterId());
+      recon_gain_parameter_blocks_.at(audio_element_id);
   if (recon_gain_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. A default
     // recon gain value of 0 dB is implied when there are no Parameter Block
@@ -311,14 +322,14 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
 
 void ParametersManager::AddDemixingParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  demixing_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  AddParameterBlock(parameter_block, demixing_states_,
+                    demixing_parameter_blocks_);
 }
 
 void ParametersManager::AddReconGainParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  recon_gain_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  AddParameterBlock(parameter_block, recon_gain_states_,
+                    recon_gain_parameter_blocks_);
 }
 
 absl::Status ParametersManager::UpdateDemixingState(
diff --git a/iamf/cli/parameters_manager.h b/iamf/cli/parameters_manager.h
index bdfbfa7..470ae6b 100644
--- a/iamf/cli/parameters_manager.h
+++ b/iamf/cli/parameters_manager.h
@@ -156,10 +156,10 @@ class ParametersManager {
    *
    * Used only by factory function.
    *
-   * \param demixing_parameter_blocks Mapping from Parameter ID to demixing
-   *        parameter blocks.
-   * \param recon_gain_parameter_blocks Mapping from Parameter ID to recon gain
-   *        parameter blocks.
+   * \param demixing_parameter_blocks Mapping from Audio Element ID to
+   *        demixing parameter blocks.
+   * \param recon_gain_parameter_blocks Mapping from Audio Element ID to
+   *        recon gain parameter blocks.
    * \param demixing_states Mapping from Audio Element ID to the demixing
    *        state.
    * \param recon_gain_states Mapping from Audio Element ID to the recon gain
@@ -177,11 +177,11 @@ class ParametersManager {
         demixing_states_(demixing_states),
         recon_gain_states_(recon_gain_states) {}
 
-  // Mapping from Parameter ID to demixing parameter blocks.
+  // Mapping from Audio Element ID to demixing parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       demixing_parameter_blocks_;
 
-  // Mapping from Parameter ID to recon gain parameter blocks.
+  // Mapping from Audio Element ID to recon gain parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       recon_gain_parameter_blocks_;
 
-- 
2.43.0


From c8ba8033b858ac5604387fc0603a68706133f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 18/46] fix: apply demixing parameter blocks when decoding

The decoder never handed them to the parameters manager, so that every
frame was demixed with the defaults of the parameter definition.
---
 iamf/cli/obu_processor.cc      | 18 ++++++++++++++++++
 iamf/cli/parameters_manager.cc | 14 ++++++++++++++
 iamf/cli/parameters_manager.h  |  7 +++++++
 3 files changed, 39 insertions(+)

diff --git a/iamf/cli/obu_processor.cc b/iamf/cli/obu_processor.cc
index 85cf99a..490b2d5 100644
--- a/iamf/cli/obu_processor.cc
+++ b/iamf/cli/obu_processor.cc
@@ -54,6 +54,7 @@
 #include "iamf/obu/ia_sequence_header.h"
 #include "iamf/obu/mix_presentation.h"
 #include "iamf/obu/obu_header.h"
+#include "iamf/obu/param_definitions/demixing_param_definition.h"
 #include "iamf/obu/param_definitions/param_definition_base.h"
 #include "iamf/obu/param_definitions/param_definition_variant.h"
 #include "iamf/obu/parameter_block.h"
@@ -609,6 +610,18 @@ absl::Status ObuProcessor::ProcessTemporalUnit(
       TemporalUnitData::AddDataToCorrectTemporalUnit(
           current_temporal_unit_, next_temporal_unit_,
           *std::move(parameter_block_with_data));
+      // Demixing parameters apply to the audio frames which follow.
+      const auto& stored_parameter_block =
+          next_temporal_unit_.timestamp.has_value()
+              ? next_temporal_unit_.parameter_blocks.back()
+              : current_temporal_unit_.parameter_blocks.back();
+      const auto param_definition_iter = param_definition_variants_.find(
+          stored_parameter_block.obu->parameter_id_);
+      if (param_definition_iter != param_definition_variants_.end() &&
+          std::holds_alternative<DemixingParamDefinition>(
+              param_definition_iter->second)) {
+        parameters_manager_->AddDemixingParameterBlock(&stored_parameter_block);
+      }
     } else if (temporal_delimiter.has_value()) {
       if (current_temporal_unit_.temporal_delimiter.has_value()) {
         delimiter_end_condition = true;
@@ -633,6 +646,11 @@ absl::Status ObuProcessor::ProcessTemporalUnit(
           std::move(current_temporal_unit_.audio_frames);
       output_temporal_unit->output_parameter_blocks =
           std::move(current_temporal_unit_.parameter_blocks);
+      // The caller takes ownership of the parameter blocks.
+      for (const auto& parameter_block :
+           output_temporal_unit->output_parameter_blocks) {
+        parameters_manager_->RemoveDemixingParameterBlock(&parameter_block);
+      }
       if (current_temporal_unit_.timestamp.has_value()) {
         output_temporal_unit->output_timestamp =
             current_temporal_unit_.timestamp.value();
diff --git a/iamf/cli/parameters_manager.cc b/iamf/cli/parameters_manager.cc
index d03a92f..db7e357 100644
--- a/iamf/cli/parameters_manager.cc
+++ b/iamf/cli/parameters_manager.cc
@@ -234,6 +234,11 @@ absl::Status ParametersManager::GetDownMixingParameters(
       absl::StrCat("Getting down-mixing parameters for audio element ID= ",
                    audio_element_id, ": ")));
 
+  if (demixing_parameter_block->obu->subblocks_.empty()) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "Demixing parameter block for audio element ID= ", audio_element_id,
+        " has no subblocks."));
+  }
   RETURN_IF_NOT_OK(DemixingInfoParameterData::DMixPModeToDownMixingParams(
       static_cast<DemixingInfoParameterData*>(
           demixing_parameter_block->obu->subblocks_[0].get())
@@ -326,6 +331,15 @@ void ParametersManager::AddDemixingParameterBlock(
                     demixing_parameter_blocks_);
 }
 
+void ParametersManager::RemoveDemixingParameterBlock(
+    const ParameterBlockWithData* absl_nonnull parameter_block) {
+  for (auto& [audio_element_id, held_block] : demixing_parameter_blocks_) {
+    if (held_block == parameter_block) {
+      held_block = nullptr;
+    }
+  }
+}
+
 void ParametersManager::AddReconGainParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
   AddParameterBlock(parameter_block, recon_gain_states_,
diff --git a/iamf/cli/parameters_manager.h b/iamf/cli/parameters_manager.h
index 470ae6b..e43c420 100644
--- a/iamf/cli/parameters_manager.h
+++ b/iamf/cli/parameters_manager.h
@@ -92,6 +92,13 @@ class ParametersManager {
   void AddDemixingParameterBlock(
       const ParameterBlockWithData* absl_nonnull parameter_block);
 
+  /*!\brief Stops referring to a demixing parameter block, if it is still held.
+   *
+   * \param parameter_block Pointer to the demixing parameter block to remove.
+   */
+  void RemoveDemixingParameterBlock(
+      const ParameterBlockWithData* absl_nonnull parameter_block);
+
   /*!\brief Adds a new recon gain parameter block.
    *
    * \param parameter_block Pointer to the new recon gain parameter block to
-- 
2.43.0


From 798951034271d02ec603d3fd7e6eea1eedd54ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 19/46] fix: check the bit positions and the range of user
 recon gains

A bit position of 12 or more in the user metadata wrote past the end of the
gains of the layer.
---
 .../proto_to_obu/parameter_block_generator.cc             | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
index 1708be4..3c0a75f 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
@@ -343,8 +343,14 @@ absl::Status GenerateReconGainSubblock(
     DecodedUleb128 user_recon_gain_flag = 0;
     for (const auto& [bit_position, user_recon_gain] :
          user_recon_gains_layers[layer_index].recon_gain()) {
+      if (bit_position >= user_recon_gains.size()) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "Recon gain bit position= ", bit_position, " is out of range."));
+      }
       user_recon_gain_flag |= 1 << bit_position;
-      user_recon_gains[bit_position] = user_recon_gain;
+      RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+          "ReconGains.recon_gain", user_recon_gain,
+          user_recon_gains[bit_position]));
     }
     for (const auto& [bit_position, user_recon_gain] :
          user_recon_gains_layers[layer_index].recon_gain()) {
-- 
2.43.0


From 8b583e106aa5a616b2a699d7f385bf1975d014ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 20/46] fix: keep computed recon gains within the coded range

A decoded channel weaker than the original gave a gain above one, which the
conversion to eight bits wrapped.
---
 iamf/cli/recon_gain_generator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/recon_gain_generator.cc b/iamf/cli/recon_gain_generator.cc
index 1577c45..cefb9a3 100644
--- a/iamf/cli/recon_gain_generator.cc
+++ b/iamf/cli/recon_gain_generator.cc
@@ -11,6 +11,7 @@
  */
 #include "iamf/cli/recon_gain_generator.h"
 
+#include <algorithm>
 #include <cmath>
 
 #include "absl/base/no_destructor.h"
@@ -151,7 +152,8 @@ absl::Status ReconGainGenerator::ComputeReconGain(
   double demixed_power_ratio_db = 10 * log10(demixed_power / mixed_power_db);
   ABSL_LOG_IF(INFO, additional_logging)
       << "Level DK (dB) " << demixed_power_ratio_db;
-  recon_gain = std::sqrt(original_power / demixed_power);
+  // The gain is coded in the range [0, 1].
+  recon_gain = std::min(1.0, std::sqrt(original_power / demixed_power));
 
   return absl::OkStatus();
 }
-- 
2.43.0


From 7300442592eb20f517171ee25477a8b1f215fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:19 +0000
Subject: [PATCH 21/46] fix: ignore reserved bits when looking for a playback
 layout

Layouts in the bitstream were compared with the requested layout including
their reserved bits, so a mix with the requested layout could be passed over.
---
 iamf/cli/obu_processor_utils.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/obu_processor_utils.cc b/iamf/cli/obu_processor_utils.cc
index 569481c..5e52654 100644
--- a/iamf/cli/obu_processor_utils.cc
+++ b/iamf/cli/obu_processor_utils.cc
@@ -45,6 +45,22 @@ bool IsLayoutBinaural(const Layout& layout) {
   return layout.layout_type == Layout::kLayoutTypeBinaural;
 }
 
+// Returns true if both layouts describe the same playback layout. Reserved bits
+// are ignored.
+bool IsSamePlaybackLayout(const Layout& lhs, const Layout& rhs) {
+  if (lhs.layout_type != rhs.layout_type) {
+    return false;
+  }
+  const auto* lhs_ss =
+      std::get_if<LoudspeakersSsConventionLayout>(&lhs.specific_layout);
+  const auto* rhs_ss =
+      std::get_if<LoudspeakersSsConventionLayout>(&rhs.specific_layout);
+  if (lhs_ss == nullptr || rhs_ss == nullptr) {
+    return lhs_ss == rhs_ss;
+  }
+  return lhs_ss->sound_system == rhs_ss->sound_system;
+}
+
 // Returns true if the sub-mix has exactly one audio element and that element
 // has the last layer as the specified loudspeaker layout.
 bool HasOneAudioElementWithLayout(
@@ -77,7 +93,7 @@ bool MixPresentationContainsLayout(const MixPresentationObu& candidate_mix,
                                    const Layout& desired_layout) {
   for (const auto& sub_mix : candidate_mix.sub_mixes_) {
     for (const auto& layout : sub_mix.layouts) {
-      if (layout.loudness_layout == desired_layout) {
+      if (IsSamePlaybackLayout(layout.loudness_layout, desired_layout)) {
         return true;
       }
     }
@@ -254,7 +270,7 @@ absl::StatusOr<SelectedMixPresentation> FindMixPresentationAndLayout(
     for (size_t layout_index = 0; layout_index < sub_mix.layouts.size();
          ++layout_index) {
       const auto& layout = sub_mix.layouts[layout_index];
-      if (desired_layout == layout.loudness_layout) {
+      if (IsSamePlaybackLayout(*desired_layout, layout.loudness_layout)) {
         return SelectedMixPresentation{
             mix_presentation,
             layout.loudness_layout,
-- 
2.43.0


From e511a2863e9bed260f4dce557beb7ac44f7b8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 22/46] fix: keep the probe report independent of hash map
 order

The codec configs and audio elements were listed in the iteration order of
hash maps, and the duration used the rate of whichever codec config came
first instead of the one the counted samples belong to.
---
 iamf/cli/probe.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/iamf/cli/probe.cc b/iamf/cli/probe.cc
index 5dd8e41..749630f 100644
--- a/iamf/cli/probe.cc
+++ b/iamf/cli/probe.cc
@@ -1283,17 +1283,22 @@ void ScanTemporalUnits(
   std::sort(substream_ids.begin(), substream_ids.end());
   out.audio_frames_by_substream.reserve(substream_ids.size());
   uint64_t max_samples = 0;
+  uint32_t max_samples_codec_config_id = 0;
   for (auto id : substream_ids) {
-    out.audio_frames_by_substream.push_back(per_substream[id]);
-    max_samples = std::max(max_samples, per_substream[id].total_samples);
+    const auto& summary = per_substream[id];
+    out.audio_frames_by_substream.push_back(summary);
+    if (summary.total_samples > max_samples) {
+      max_samples = summary.total_samples;
+      max_samples_codec_config_id = summary.codec_config_id;
+    }
   }
   if (max_samples > 0) {
     out.total_samples = max_samples;
-    // Pick an output sample rate from the first codec config.
-    if (!descriptors.codec_config_obus.empty()) {
-      const auto& [unused_id, codec_cfg] =
-          *descriptors.codec_config_obus.begin();
-      const uint32_t rate = codec_cfg.GetOutputSampleRate();
+    // Pick the output sample rate of the substream with the most samples.
+    if (const auto it =
+            descriptors.codec_config_obus.find(max_samples_codec_config_id);
+        it != descriptors.codec_config_obus.end()) {
+      const uint32_t rate = it->second.GetOutputSampleRate();
       if (rate > 0) {
         out.output_sample_rate = rate;
         out.duration_seconds =
@@ -1352,6 +1357,11 @@ absl::StatusOr<ProbeReport> ProbeFromBuffer(ReadBitBuffer& read_bit_buffer,
         BuildAudioElementReport(element_with_data.obu));
   }
 
+  // The descriptors are kept in hash maps, sort them by id for stable output.
+  const auto by_id = [](const auto& a, const auto& b) { return a.id < b.id; };
+  std::sort(report.codec_configs.begin(), report.codec_configs.end(), by_id);
+  std::sort(report.audio_elements.begin(), report.audio_elements.end(), by_id);
+
   report.mix_presentations.reserve(descriptors.mix_presentation_obus.size());
   for (const auto& mp : descriptors.mix_presentation_obus) {
     report.mix_presentations.push_back(BuildMixPresentationReport(mp));
-- 
2.43.0


From 46aa7437bd143c56e3b2331999c489358a458acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:11 +0000
Subject: [PATCH 23/46] fix: refuse frames after the encoder was finalized

---
 iamf/cli/codec/encoder_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/codec/encoder_base.h b/iamf/cli/codec/encoder_base.h
index be14cda..a0e4cd5 100644
--- a/iamf/cli/codec/encoder_base.h
+++ b/iamf/cli/codec/encoder_base.h
@@ -169,7 +169,8 @@ class EncoderBase {
    * \return `absl::OkStatus()` on success. A specific status on failure.
    */
   absl::Status ValidateNotFinalized() {
-    if (Finished()) {
+    absl::MutexLock lock(mutex_);
+    if (finished_) {
       return absl::InvalidArgumentError(
           "Encoding is disallowed after `Finalize()` has been called");
     }
-- 
2.43.0


From ec22ad830b4edeb3f8a56c29b9e066dc966c297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 24/46] fix: parameter blocks were ignored in streams with
 audio elements of unknown kinds

---
 iamf/cli/global_timing_module.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iamf/cli/global_timing_module.cc b/iamf/cli/global_timing_module.cc
index 170e642..97e7892 100644
--- a/iamf/cli/global_timing_module.cc
+++ b/iamf/cli/global_timing_module.cc
@@ -48,6 +48,11 @@ absl::Status InitializeInternal(
     // actually appear in the bitstream.
     for (const auto& audio_substream_id :
          audio_element.obu.audio_substream_ids_) {
+      if (!audio_element.substream_id_to_labels.contains(audio_substream_id)) {
+        // Audio frames which carry no known channels (e.g. when the audio
+        // element has a reserved type) are ignored. They never advance.
+        continue;
+      }
       const uint32_t sample_rate =
           audio_element.codec_config->GetOutputSampleRate();
       RETURN_IF_NOT_OK(
-- 
2.43.0


From e3c45360f995d63764b1980314b4e0fc75c99ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 25/46] fix: binaural rendering of projection ambisonics failed
 on trimmed frames

---
 iamf/cli/renderer/audio_element_renderer_binaural.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iamf/cli/renderer/audio_element_renderer_binaural.cc b/iamf/cli/renderer/audio_element_renderer_binaural.cc
index 278b06a..2eb9bdb 100644
--- a/iamf/cli/renderer/audio_element_renderer_binaural.cc
+++ b/iamf/cli/renderer/audio_element_renderer_binaural.cc
@@ -307,6 +307,12 @@ absl::Status AudioElementRendererBinaural::RenderSamples(
   // Copy samples to the input audio buffer; optionally project the input
   // samples first.
   if (demixing_matrix_.has_value()) {
+    // Frames may be shorter than `num_samples_per_frame_` after trimming.
+    const size_t num_ticks = samples_to_render[0].size();
+    for (size_t c = 0; c < projected_samples_.size(); ++c) {
+      projected_samples_spans_[c] =
+          absl::MakeSpan(projected_samples_[c]).first(num_ticks);
+    }
     RETURN_IF_NOT_OK(
         ProjectSamplesToRender(samples_to_render, *demixing_matrix_,
                                absl::MakeSpan(projected_samples_spans_)));
-- 
2.43.0


From 68d8813e52f6b3eb6741f0a55cebd0c8da656c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 26/46] fix: aborting a finished or aborted wav writer closed a
 null file

---
 iamf/cli/wav_writer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index cbc90e2..092a03d 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -224,7 +224,9 @@ absl::Status WavWriter::WritePcmSamples(absl::Span<const uint8_t> buffer) {
 }
 
 void WavWriter::Abort() {
-  std::fclose(file_);
+  if (file_ != nullptr) {
+    std::fclose(file_);
+  }
   std::remove(filename_to_remove_.c_str());
   file_ = nullptr;
 }
-- 
2.43.0


From 85c39ae191944d28662ae5104a19c9128fc350ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 27/46] fix: wav writer reported success when finalizing the
 file failed

---
 iamf/cli/wav_writer.cc | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index 092a03d..a893041 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -100,22 +100,26 @@ absl::Status WriteSamplesInternal(FILE* absl_nullable file, size_t num_channels,
   return absl::OkStatus();
 }
 
-void MaybeFinalizeFile(size_t sample_rate_hz, size_t num_channels,
-                       auto& wav_header_writer, FILE*& file,
-                       size_t& total_samples_written) {
+absl::Status MaybeFinalizeFile(size_t sample_rate_hz, size_t num_channels,
+                               auto& wav_header_writer, FILE*& file,
+                               size_t& total_samples_written) {
   if (file == nullptr) {
-    return;
+    return absl::OkStatus();
   }
 
   // Finalize the temporary header based on the total number of samples written
   // and close the file.
+  bool success = true;
   if (wav_header_writer) {
-    std::fseek(file, 0, SEEK_SET);
-    wav_header_writer(file, total_samples_written, sample_rate_hz,
-                      num_channels);
+    success = std::fseek(file, 0, SEEK_SET) == 0 &&
+              wav_header_writer(file, total_samples_written, sample_rate_hz,
+                                num_channels) != kAudioToTactileResultFailure;
   }
-  std::fclose(file);
+  // Samples may still be buffered, closing the file can fail to write them.
+  success = std::fclose(file) == 0 && success;
   file = nullptr;
+  return success ? absl::OkStatus()
+                 : absl::InternalError("Error finalizing wav file.");
 }
 
 }  // namespace
@@ -172,8 +176,12 @@ std::unique_ptr<WavWriter> WavWriter::Create(const std::string& wav_filename,
 
 WavWriter::~WavWriter() {
   // Finalize the header, in case the user did not call `Flush()`.
-  MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_, file_,
-                    total_samples_written_);
+  const auto status =
+      MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_,
+                        file_, total_samples_written_);
+  if (!status.ok()) {
+    ABSL_LOG(ERROR) << status;
+  }
 }
 
 absl::Status WavWriter::PushFrameDerived(
@@ -212,9 +220,8 @@ absl::Status WavWriter::PushFrameDerived(
 
 absl::Status WavWriter::FlushDerived() {
   // No more samples are coming, finalize the header and close the file.
-  MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_, file_,
-                    total_samples_written_);
-  return absl::OkStatus();
+  return MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_,
+                           file_, total_samples_written_);
 }
 
 absl::Status WavWriter::WritePcmSamples(absl::Span<const uint8_t> buffer) {
-- 
2.43.0


From 4ec4d032b8260a08d21b61013bf3c4704b26b64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 28/46] fix: decoder exited with success when the output file
 could not be finalized

---
 iamf/cli/decoder_main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iamf/cli/decoder_main.cc b/iamf/cli/decoder_main.cc
index e0953c1..617564a 100644
--- a/iamf/cli/decoder_main.cc
+++ b/iamf/cli/decoder_main.cc
@@ -290,5 +290,11 @@ int main(int argc, char** argv) {
   ABSL_LOG(INFO) << "Decoded " << num_temporal_units_processed_for_logging
                  << " temporal units.";
 
+  if (wav_writer != nullptr) {
+    if (const auto status = wav_writer->Flush(); !status.ok()) {
+      ABSL_LOG(FATAL) << "Failed to finalize the wav file: " << status;
+    }
+  }
+
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From b958390bef6fa0cd0ef844a9d8d58e88ce6f109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:26 +0000
Subject: [PATCH 29/46] fix: ADM objects took the tracks of the objects ignored
 before them

---
 .../adm_to_user_metadata/adm/adm_elements.h   |  4 +
 .../adm/wav_file_splicer.cc                   | 83 +++++++++----------
 .../adm_to_user_metadata/adm/xml_to_adm.cc    | 11 +++
 3 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
index da90e4a..93c1ec6 100644
--- a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
+++ b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
@@ -94,6 +94,10 @@ struct AudioObject {
   std::vector<std::string> audio_pack_format_id_refs;
   std::vector<std::string> audio_comple_object_id_ref;
   std::vector<std::string> audio_track_uid_ref;
+
+  // Index of the first track of the object in the file, counting the tracks of
+  // all audio objects in the document, including the ones which are ignored.
+  size_t first_audio_track_index = 0;
 };
 
 // This structure holds the attributes of an audio pack format in ADM.
diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 742cd50..bd2d6b1 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -68,23 +68,6 @@ constexpr int kMaxChannelsPerMixBaseEnhanced = 28;
 constexpr int kMaxLfeChannelsAllowed =
     kMaxChannelsPerMixBaseEnhanced - kOutputWavChannels;
 
-// Creates a map for the audioObject(s) and the audioTrack(s) present within.
-std::vector<std::vector<int32_t>> GetAudioTracksForAudioObjects(
-    const std::vector<struct AudioObject>& audio_objects) {
-  std::vector<std::vector<int32_t>> audio_tracks_for_audio_objects(
-      audio_objects.size(), std::vector<int32_t>());
-  int32_t audio_object_index = -1;
-  int32_t audio_track_index = -1;
-  for (const auto& audio_object : audio_objects) {
-    auto& audio_tracks_for_audio_object =
-        audio_tracks_for_audio_objects[++audio_object_index];
-    for (auto unused_audio_track : audio_object.audio_track_uid_ref) {
-      audio_tracks_for_audio_object.push_back(++audio_track_index);
-    }
-  }
-  return audio_tracks_for_audio_objects;
-}
-
 void AbortAllWavWriters(
     std::vector<std::unique_ptr<WavWriter>>& audio_object_index_to_wav_writer) {
   for (auto& wav_writer : audio_object_index_to_wav_writer) {
@@ -639,27 +622,34 @@ absl::Status SpliceWavFilesFromAdm(
   // Separates the input wav file to 'n' number of wav file(s), where 'n' is the
   // number of audioObject(s) present in the XML metadata.
   if (adm_file_type == kAdmFileTypeDefault) {
-    const auto audio_tracks_for_audio_objects =
-        GetAudioTracksForAudioObjects(reader.adm_.audio_objects);
-
-    if (audio_tracks_for_audio_objects.empty()) {
+    const auto& audio_objects = reader.adm_.audio_objects;
+    if (audio_objects.empty()) {
       return absl::NotFoundError("No audioObject present.");
     };
+    // The audio objects may refer to only some of the tracks in the file.
+    for (const auto& audio_object : audio_objects) {
+      if (audio_object.first_audio_track_index +
+              audio_object.audio_track_uid_ref.size() >
+          reader.format_info_.num_channels) {
+        return absl::InvalidArgumentError(
+            absl::StrCat("The tracks of audio_object_id= ", audio_object.id,
+                         " are not present in the file."));
+      }
+    }
 
     // Construct the wav writers to use a file name of the form 'converted'
     // followed by the 1-indexed content.
     std::vector<std::unique_ptr<WavWriter>> audio_object_index_to_wav_writer;
-    audio_object_index_to_wav_writer.reserve(
-        audio_tracks_for_audio_objects.size());
+    audio_object_index_to_wav_writer.reserve(audio_objects.size());
     const FormatInfoChunk& wav_file_fmt = reader.format_info_;
     for (size_t audio_object_index = 0;
-         audio_object_index < audio_tracks_for_audio_objects.size();
+         audio_object_index < audio_objects.size();
          ++audio_object_index) {
       audio_object_index_to_wav_writer.emplace_back(WavWriter::Create(
           (output_file_path / absl::StrCat(file_prefix, "_converted",
                                            audio_object_index + 1, ".wav"))
               .string(),
-          audio_tracks_for_audio_objects[audio_object_index].size(),
+          audio_objects[audio_object_index].audio_track_uid_ref.size(),
           wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
           kMaxNumSamplesPerFrame));
     }
@@ -673,36 +663,39 @@ absl::Status SpliceWavFilesFromAdm(
     // occasionally when the buffer is full. The buffer will expand, so it is OK
     // if it goes over the target size to flush.
     std::vector<std::vector<uint8_t>> interlaced_samples_for_audio_objects(
-        audio_tracks_for_audio_objects.size(), std::vector<uint8_t>());
+        audio_objects.size(), std::vector<uint8_t>());
 
     // Read audio samples from the buffer and organize them into individual
-    // audio tracks, based on the mapping specified in
-    // 'audio_tracks_for_audio_objects'. Write the audio track data to
-    // corresponding `WavWriter`s.
+    // audio tracks, based on the tracks of each audio object. Write the audio
+    // track data to corresponding `WavWriter`s.
     const int32_t bytes_per_sample =
         static_cast<int32_t>(wav_file_fmt.bits_per_sample) / kBitsPerByte;
     const int32_t channels = wav_file_fmt.num_channels;
+    std::vector<char> tick(static_cast<size_t>(bytes_per_sample) * channels);
     for (size_t data_chunk_pos = 0; data_chunk_pos < data_chunk_info->size;
-         data_chunk_pos += static_cast<size_t>(bytes_per_sample) * channels) {
+         data_chunk_pos += tick.size()) {
+      // Read in one sample of every track in the file.
+      if (!input_stream.read(tick.data(), tick.size())) {
+        AbortAllWavWriters(audio_object_index_to_wav_writer);
+        return absl::OutOfRangeError(
+            "Reached end of stream before the implied end of the `data` "
+            "chunk.");
+      }
       for (size_t audio_object_index = 0;
-           audio_object_index < audio_tracks_for_audio_objects.size();
-           ++audio_object_index) {
-        // Read in the samples for the current audio object.
-        std::vector<char> sample(
-            static_cast<size_t>(bytes_per_sample) *
-            audio_tracks_for_audio_objects[audio_object_index].size());
-
-        if (!input_stream.read(sample.data(), sample.size())) {
-          AbortAllWavWriters(audio_object_index_to_wav_writer);
-          return absl::OutOfRangeError(
-              "Reached end of stream before the implied end of the `data` "
-              "chunk.");
-        }
+           audio_object_index < audio_objects.size(); ++audio_object_index) {
+        // Pick the samples for the current audio object.
+        const auto& audio_object = audio_objects[audio_object_index];
+        const auto sample_begin =
+            tick.begin() +
+            audio_object.first_audio_track_index * bytes_per_sample;
+        const auto sample_end =
+            sample_begin +
+            audio_object.audio_track_uid_ref.size() * bytes_per_sample;
 
         // Store the samples in the buffer.
         auto& samples_for_audio_object =
             interlaced_samples_for_audio_objects[audio_object_index];
-        std::transform(sample.begin(), sample.end(),
+        std::transform(sample_begin, sample_end,
                        std::back_inserter(samples_for_audio_object),
                        [](char c) { return static_cast<uint8_t>(c); });
 
@@ -717,7 +710,7 @@ absl::Status SpliceWavFilesFromAdm(
 
     // Flush the remaining buffers.
     for (size_t audio_object_index = 0;
-         audio_object_index < audio_tracks_for_audio_objects.size();
+         audio_object_index < audio_objects.size();
          ++audio_object_index) {
       RETURN_IF_NOT_OK(FlushToWavWriter(
           interlaced_samples_for_audio_objects[audio_object_index],
diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index 99bbfb3..5c44904 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -291,6 +291,16 @@ void RemoveLowImportanceAndInvalidAudioObjects(int32_t importance_threshold,
       audio_object_list.end());
 }
 
+// Records which tracks of the file belong to the audio objects. To be used
+// before any of the audio objects are removed.
+void SetFirstAudioTrackIndices(ADM& adm) {
+  size_t audio_track_index = 0;
+  for (auto& audio_object : adm.audio_objects) {
+    audio_object.first_audio_track_index = audio_track_index;
+    audio_track_index += audio_object.audio_track_uid_ref.size();
+  }
+}
+
 // Checks if the metadata is user defined or part of the common definitions.
 // NOTE: An ADM audioPackFormatID AP_yyyyxxxx which belongs to common
 // definitions would have 'xxxx' in the range [0x0001, 0x0FFF].
@@ -925,6 +935,7 @@ absl::StatusOr<ADM> ParseXmlToAdm(absl::string_view xml_data,
                                             xml_data.length(), true)) {
     case XML_STATUS_OK:
       SetChannelIndices(handler.adm);
+      SetFirstAudioTrackIndices(handler.adm);
       ValidateAudioObjects(handler.adm, handler);
       RemoveLowImportanceAndInvalidAudioObjects(importance_threshold, handler);
       if (!handler.status.ok()) {
-- 
2.43.0


From 48214bebd03f623d7d76cbede0387f3f92623ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:40 +0000
Subject: [PATCH 30/46] fix: ADM metadata paired audio elements with the files
 and layouts of other objects

---
 .../iamf/user_metadata_generator.cc           | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
index 7bf3d6a..9180582 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
@@ -12,10 +12,12 @@
 
 #include "iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.h"
 
+#include <cstddef>
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
 #include <ios>
+#include <map>
 #include <string>
 #include <vector>
 
@@ -71,12 +73,6 @@ absl::StatusOr<iamf_tools_cli_proto::UserMetadata>
 UserMetadataGenerator::GenerateUserMetadata(
     iamf_tools_cli_proto::ProfileVersion profile_version,
     absl::string_view file_prefix) const {
-  std::vector<std::string> audio_pack_format_ids;
-  audio_pack_format_ids.reserve(adm_.audio_objects.size());
-  for (auto audio_object : adm_.audio_objects) {
-    audio_pack_format_ids.push_back(audio_object.audio_pack_format_id_refs[0]);
-  }
-
   auto iamf =
       IAMF::Create(adm_, max_frame_duration_, format_info_.samples_per_sec);
   if (!iamf.ok()) {
@@ -84,6 +80,12 @@ UserMetadataGenerator::GenerateUserMetadata(
   }
   iamf_tools_cli_proto::UserMetadata user_metadata;
 
+  // The input layouts and the wav files are in the order of the audio objects.
+  std::map<std::string, size_t> audio_object_id_to_index;
+  for (size_t i = 0; i < adm_.audio_objects.size(); ++i) {
+    audio_object_id_to_index.insert({adm_.audio_objects[i].id, i});
+  }
+
   // Generate test vector metadata.
   TestVectorMetadataHandler(file_prefix,
                             *user_metadata.mutable_test_vector_metadata());
@@ -109,13 +111,14 @@ UserMetadataGenerator::GenerateUserMetadata(
       return status;
     };
   } else {
-    for (const auto& [unused_audio_object_id, audio_element_id] :
+    for (const auto& [audio_object_id, audio_element_id] :
          iamf->audio_object_to_audio_element_) {
       if (const auto status =
               iamf->audio_element_metadata_builder_
                   .PopulateAudioElementMetadata(
                       audio_element_id, kCodecConfigId,
-                      iamf->input_layouts_[audio_element_id],
+                      iamf->input_layouts_[audio_object_id_to_index.at(
+                          audio_object_id)],
                       *user_metadata.add_audio_element_metadata());
           !status.ok()) {
         return status;
@@ -169,16 +172,17 @@ UserMetadataGenerator::GenerateUserMetadata(
       return status;
     }
   } else {
-    int32_t audio_pack_index = 0;
-    for (const auto& [unused_audio_object_id, audio_element_id] :
+    for (const auto& [audio_object_id, audio_element_id] :
          iamf->audio_object_to_audio_element_) {
+      const size_t audio_object_index =
+          audio_object_id_to_index.at(audio_object_id);
       // The output files have suffixes starting from 1.
-      const std::string wav_file_name =
-          absl::StrCat(file_prefix, "_converted", audio_pack_index + 1, ".wav");
+      const std::string wav_file_name = absl::StrCat(
+          file_prefix, "_converted", audio_object_index + 1, ".wav");
       if (const auto& status =
               AudioFrameMetadataBuilder::PopulateAudioFrameMetadata(
                   wav_file_name, audio_element_id,
-                  iamf->input_layouts_[audio_pack_index++],
+                  iamf->input_layouts_[audio_object_index],
                   *user_metadata.add_audio_frame_metadata());
           !status.ok()) {
         return status;
-- 
2.43.0


From 4f507fe272e042a6bb8e34ae0511fc0a2cfb3c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:40 +0000
Subject: [PATCH 31/46] fix: an ADM programme with too many objects made all
 later ones be skipped

---
 iamf/cli/adm_to_user_metadata/iamf/iamf.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
index 857e781..eaf55cf 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
@@ -162,12 +162,12 @@ void GenerateAudioObjectsMap(
 
     // Remove the unsupported audio programme.
     if (audio_object_groups.size() > kMaxAudioElementPerMix) {
-      // TODO(b/331198492): Fix a bug where all subsequent programmes are
-      //                    skipped - even if they would otherwise be valid.
       std::cout << "Skipping the audioProgramme" << audio_programme.id
                 << "as the number of audioObjects is greater than "
                    "kMaxAudioElementPerMix"
                 << std::endl;
+      audio_object_ids_to_ignore.clear();
+      audio_object_groups.clear();
       continue;
     }
     // Generate the audio object groups for the given audio programme.
-- 
2.43.0


From 1256a57f4b6b84f758a798cba870ffd208ab2b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:51 +0000
Subject: [PATCH 32/46] fix: ADM mixes of objects which are not in the document

---
 iamf/cli/adm_to_user_metadata/iamf/iamf.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
index eaf55cf..cd4d29e 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
@@ -12,6 +12,7 @@
 
 #include "iamf/cli/adm_to_user_metadata/iamf/iamf.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <iostream>
 #include <map>
@@ -148,6 +149,15 @@ void GenerateAudioObjectsMap(
 
               for (const auto& complementary_audio_object_id :
                    audio_object.audio_comple_object_id_ref) {
+                // Skip the complementary objects which are ignored.
+                if (std::none_of(adm.audio_objects.begin(),
+                                 adm.audio_objects.end(),
+                                 [&](const AudioObject& object) {
+                                   return object.id ==
+                                          complementary_audio_object_id;
+                                 })) {
+                  continue;
+                }
                 audio_object_group.audio_objects_ref_ids.push_back(
                     complementary_audio_object_id);
                 audio_object_ids_to_ignore.insert(
@@ -170,6 +180,13 @@ void GenerateAudioObjectsMap(
       audio_object_groups.clear();
       continue;
     }
+    // A mix can not be made of nothing.
+    if (audio_object_groups.empty()) {
+      std::cout << "Skipping the audioProgramme " << audio_programme.id
+                << " as it has no audioObjects." << std::endl;
+      audio_object_ids_to_ignore.clear();
+      continue;
+    }
     // Generate the audio object groups for the given audio programme.
     const auto& audio_program_to_audio_object_ids_map =
         GenerateAudioObjectGroups(audio_object_groups);
-- 
2.43.0


From c521bc47a1a10e558c70cfa996889892ff5feea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:51 +0000
Subject: [PATCH 33/46] fix: crashes on ADM files with missing objects, packs
 or references

---
 iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc |  9 ++++++---
 .../app/adm_to_user_metadata_main_lib.cc        | 17 ++++++++++++++---
 iamf/cli/adm_to_user_metadata/iamf/iamf.cc      |  6 +++++-
 .../iamf/user_metadata_generator.cc             |  4 ++++
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index 5c44904..98b2134 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -455,9 +455,12 @@ absl::Status ValidateAdmObjectForDolbyAdm(const ADM& adm,
                               [&audio_pack_id](const AudioPackFormat& pack) {
                                 return pack.id == audio_pack_id;
                               });
-  size_t pack_index = (pack_id != adm.audio_packs.end())
-                          ? std::distance(adm.audio_packs.begin(), pack_id)
-                          : 0;
+  if (pack_id == adm.audio_packs.end()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("audioPackFormatIDRef= ", audio_pack_id,
+                     " does not resolve to a known audioPackFormat."));
+  }
+  const size_t pack_index = std::distance(adm.audio_packs.begin(), pack_id);
 
   auto num_channels_in_pack =
       adm.audio_packs[pack_index].audio_channel_format_id_refs_map.size();
diff --git a/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc b/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc
index 18b3653..522fbd0 100644
--- a/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc
+++ b/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc
@@ -37,10 +37,20 @@ constexpr char kAudioPackFormatIdFor3OA[] = "AP_00040003";
 // DirectSpeakers (0001) and layout as LFE (1FFF).
 constexpr char kAudioPackFormatIdForLfe[] = "AP_00011FFF";
 
-void ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
+absl::Status ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
     const ProfileVersion profile_version, const int lfe_count,
     ADM& adm_metadata) {
   using enum ProfileVersion;
+  // The audio objects stand for the 3OA and LFE audio elements.
+  if (adm_metadata.audio_objects.size() < static_cast<size_t>(1 + lfe_count)) {
+    return absl::InvalidArgumentError(
+        "There are fewer audioObjects than audio elements.");
+  }
+  for (const auto& audio_object : adm_metadata.audio_objects) {
+    if (audio_object.audio_pack_format_id_refs.empty()) {
+      return absl::InvalidArgumentError("An audioObject has no audioPackFormatIDRef.");
+    }
+  }
   if (profile_version == kIamfBaseProfile) {
     // For IA Base Profile, max channels allowed per mix is 18, hence pan all
     // audio objects(both channel beds and objects) to 3OA (16 channels).
@@ -62,6 +72,7 @@ void ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
           kAudioPackFormatIdForLfe;
     }
   }
+  return absl::OkStatus();
 }
 
 }  // namespace
@@ -88,8 +99,8 @@ GenerateUserMetadataAndSpliceWavFiles(
   ADM adm_metadata = reader->adm_;
 
   if (reader->adm_.file_type == kAdmFileTypeDolby) {
-    ModifyAdmToPanObjectsTo3OAAndSeparateLfe(profile_version, lfe_count,
-                                             adm_metadata);
+    RETURN_IF_NOT_OK(ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
+        profile_version, lfe_count, adm_metadata));
   }
 
   // Generate the user metadata.
diff --git a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
index cd4d29e..052a2d0 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
@@ -262,7 +262,11 @@ absl::StatusOr<IAMF> IAMF::Create(const ADM& adm, int32_t max_frame_duration_ms,
 
   std::vector<IamfInputLayout> input_layouts;
   input_layouts.reserve(adm.audio_objects.size());
-  for (auto audio_object : adm.audio_objects) {
+  for (const auto& audio_object : adm.audio_objects) {
+    if (audio_object.audio_pack_format_id_refs.empty()) {
+      return absl::InvalidArgumentError(
+          "An audioObject has no audioPackFormatIDRef.");
+    }
     const auto input_layout = LookupInputLayoutFromAudioPackFormatId(
         audio_object.audio_pack_format_id_refs[0]);
     if (!input_layout.ok()) {
diff --git a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
index 9180582..a83be31 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
@@ -100,6 +100,10 @@ UserMetadataGenerator::GenerateUserMetadata(
           kCodecConfigId, iamf->num_samples_per_frame_,
           format_info_.bits_per_sample, format_info_.samples_per_sec));
 
+  if (adm_.audio_objects.empty()) {
+    return absl::InvalidArgumentError("No audioObject present.");
+  }
+
   // Mapping of audio element
   constexpr int32_t kFirstAudioElementId = 0;
   if (adm_.audio_programmes.empty()) {
-- 
2.43.0


From 6e79e1f2621570bf7775571ee0b354ed9f0a8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:51 +0000
Subject: [PATCH 34/46] fix: channels after an LFE were panned with the
 position of another channel

---
 iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index bd2d6b1..cca2066 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -578,8 +578,9 @@ absl::Status SeparateLfeAndConvertTo3OA(
   // ADM.
   ADM non_lfe_adm = reader.adm_;
   for (int index = lfe_count - 1; index >= 0; --index) {
+    // The LFE IDs start from 1.
     non_lfe_adm.audio_channels.erase(non_lfe_adm.audio_channels.begin() +
-                                     lfe_ids[index]);
+                                     lfe_ids[index] - 1);
   }
 
   // Modify FormatInfoChunk with non-LFE channel count before invoking the
-- 
2.43.0


From 8bcf3b35b6903fdcb12b0b6ef0a0e13ed21e4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:22 +0000
Subject: [PATCH 35/46] fix: crash when an ADM output file can not be created

---
 .../adm/wav_file_splicer.cc                   | 89 ++++++++++++-------
 1 file changed, 56 insertions(+), 33 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index cca2066..3f2db7c 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -68,6 +68,20 @@ constexpr int kMaxChannelsPerMixBaseEnhanced = 28;
 constexpr int kMaxLfeChannelsAllowed =
     kMaxChannelsPerMixBaseEnhanced - kOutputWavChannels;
 
+// Creates a wav writer or returns a specific status on failure.
+absl::StatusOr<std::unique_ptr<WavWriter>> CreateWavWriter(
+    const std::filesystem::path& wav_file_path, int num_channels,
+    const FormatInfoChunk& wav_file_fmt) {
+  auto wav_writer = WavWriter::Create(
+      wav_file_path.string(), num_channels, wav_file_fmt.samples_per_sec,
+      wav_file_fmt.bits_per_sample, kMaxNumSamplesPerFrame);
+  if (wav_writer == nullptr) {
+    return absl::FailedPreconditionError(absl::StrCat(
+        "Failed to create wav file: \"", wav_file_path.string(), "\"."));
+  }
+  return wav_writer;
+}
+
 void AbortAllWavWriters(
     std::vector<std::unique_ptr<WavWriter>>& audio_object_index_to_wav_writer) {
   for (auto& wav_writer : audio_object_index_to_wav_writer) {
@@ -302,9 +316,11 @@ absl::Status ConvertFromObjectsTo3OA(
       output_file_path / absl::StrCat(file_prefix, "_converted1.wav");
 
   // Output channels set to 16 as objects get panned to 3OA.
-  auto output_wav_writer = WavWriter::Create(
-      output_file.string(), kOutputWavChannels, wav_file_fmt.samples_per_sec,
-      wav_file_fmt.bits_per_sample, kMaxNumSamplesPerFrame);
+  auto output_wav_writer =
+      CreateWavWriter(output_file, kOutputWavChannels, wav_file_fmt);
+  if (!output_wav_writer.ok()) {
+    return output_wav_writer.status();
+  }
 
   // Calculate number of bytes per sample based on bits per sample.
   const int32_t bytes_per_sample =
@@ -382,10 +398,11 @@ absl::Status ConvertFromObjectsTo3OA(
     // and write to an intermediate wav file which will be input to the
     // panner.
     {
-      auto wav_writer = WavWriter::Create(
-          input_file.string(), wav_file_fmt.num_channels,
-          wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
-          kMaxNumSamplesPerFrame);
+      auto wav_writer =
+          CreateWavWriter(input_file, wav_file_fmt.num_channels, wav_file_fmt);
+      if (!wav_writer.ok()) {
+        return wav_writer.status();
+      }
       // Compute the length of audio samples corresponding to the current
       // segment duration. The samples excluded due the rounding error at each
       // segment is accounted in the next segment.
@@ -411,13 +428,13 @@ absl::Status ConvertFromObjectsTo3OA(
 
       RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, processed_seg_length,
                                         total_channel_size, samples_buffer,
-                                        *wav_writer));
+                                        **wav_writer));
     }
 
     // Pan the current wav segment to 3OA and append the output wav.
     RETURN_IF_NOT_OK(PanObjectsToAmbisonics(input_file.string(), input_adm,
                                             audio_block_indices,
-                                            *output_wav_writer));
+                                            **output_wav_writer));
 
     UpdateWavSplicingParams(this_seg_duration, audio_channels, seg_duration,
                             audio_block_indices);
@@ -444,17 +461,18 @@ absl::Status ConvertFromObjectsTo3OA(
   }
   if (sample_count_drift > 0) {
     {
-      auto wav_writer = WavWriter::Create(
-          input_file.string(), wav_file_fmt.num_channels,
-          wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
-          kMaxNumSamplesPerFrame);
+      auto wav_writer =
+          CreateWavWriter(input_file, wav_file_fmt.num_channels, wav_file_fmt);
+      if (!wav_writer.ok()) {
+        return wav_writer.status();
+      }
       RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, sample_count_drift,
                                         total_channel_size, samples_buffer,
-                                        *wav_writer));
+                                        **wav_writer));
     }
     RETURN_IF_NOT_OK(PanObjectsToAmbisonics(input_file.string(), input_adm,
                                             audio_block_indices,
-                                            *output_wav_writer));
+                                            **output_wav_writer));
   }
 
   // Delete the temporary files.
@@ -473,10 +491,8 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
                                  const FormatInfoChunk& wav_file_fmt,
                                  const Bw64Reader::ChunkInfo& data_chunk_info,
                                  const std::vector<int>& lfe_ids) {
-  const size_t bits_per_sample = wav_file_fmt.bits_per_sample;
-  const int32_t bytes_per_sample = bits_per_sample / kBitsPerByte;
+  const int32_t bytes_per_sample = wav_file_fmt.bits_per_sample / kBitsPerByte;
   const int num_channels = wav_file_fmt.num_channels;
-  const size_t samples_per_sec = wav_file_fmt.samples_per_sec;
   const int lfe_count = lfe_ids.size();
   const int non_lfe_count = num_channels - lfe_count;
 
@@ -484,15 +500,19 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
   // the wav writer corresponding to non-LFE channels and subsequent indices
   // correspond to each LFE channel present.
   std::vector<std::unique_ptr<WavWriter>> nonlfe_lfe_wav_writer;
-  nonlfe_lfe_wav_writer.emplace_back(
-      WavWriter::Create(non_lfe_file_path, non_lfe_count, samples_per_sec,
-                        bits_per_sample, kMaxNumSamplesPerFrame));
-  for (size_t lfe_index = 1; lfe_index <= lfe_ids.size(); ++lfe_index) {
-    nonlfe_lfe_wav_writer.emplace_back(WavWriter::Create(
-        (output_file_path /
-         absl::StrCat(file_prefix, "_converted", lfe_index + 1, ".wav"))
-            .string(),
-        1, samples_per_sec, bits_per_sample, kMaxNumSamplesPerFrame));
+  for (size_t index = 0; index <= lfe_ids.size(); ++index) {
+    auto wav_writer =
+        index == 0
+            ? CreateWavWriter(non_lfe_file_path, non_lfe_count, wav_file_fmt)
+            : CreateWavWriter(
+                  output_file_path /
+                      absl::StrCat(file_prefix, "_converted", index + 1, ".wav"),
+                  1, wav_file_fmt);
+    if (!wav_writer.ok()) {
+      AbortAllWavWriters(nonlfe_lfe_wav_writer);
+      return wav_writer.status();
+    }
+    nonlfe_lfe_wav_writer.push_back(*std::move(wav_writer));
   }
 
   // The samples in the input wav are packed in a channel-interleaved fashion.
@@ -646,13 +666,16 @@ absl::Status SpliceWavFilesFromAdm(
     for (size_t audio_object_index = 0;
          audio_object_index < audio_objects.size();
          ++audio_object_index) {
-      audio_object_index_to_wav_writer.emplace_back(WavWriter::Create(
-          (output_file_path / absl::StrCat(file_prefix, "_converted",
-                                           audio_object_index + 1, ".wav"))
-              .string(),
+      auto wav_writer = CreateWavWriter(
+          output_file_path / absl::StrCat(file_prefix, "_converted",
+                                          audio_object_index + 1, ".wav"),
           audio_objects[audio_object_index].audio_track_uid_ref.size(),
-          wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
-          kMaxNumSamplesPerFrame));
+          wav_file_fmt);
+      if (!wav_writer.ok()) {
+        AbortAllWavWriters(audio_object_index_to_wav_writer);
+        return wav_writer.status();
+      }
+      audio_object_index_to_wav_writer.push_back(*std::move(wav_writer));
     }
 
     // Write audio samples into the corresponding output wav file(s).
-- 
2.43.0


From 9dc5fca5bc5f172f82e50019852ef7248cdce647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:02 +0000
Subject: [PATCH 36/46] fix: LFE separation read into a cleared buffer after
 the first block

---
 iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 3f2db7c..41e0194 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -551,7 +551,6 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
     RETURN_IF_NOT_OK(FlushLfeNonLfeWavs(temp_buffer, bytes_to_read,
                                         num_channels, bytes_per_sample,
                                         segment_layout, nonlfe_lfe_wav_writer));
-    temp_buffer.clear();
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From d2c5d8975a78a6c60a1d401afd271bab8822fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:02 +0000
Subject: [PATCH 37/46] fix: ADM mixes of complementary objects lacked the
 other objects of the programme

---
 iamf/cli/adm_to_user_metadata/iamf/iamf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
index 052a2d0..ccab2f6 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
@@ -44,7 +44,7 @@ struct HasComplementaryObjectIdAndAudioObjectGroup {
 // mix. This function returns a 2D vector, where the first dimension represents
 // the audio object group.
 std::vector<std::vector<std::string>> GenerateAudioObjectGroups(
-    std::vector<HasComplementaryObjectIdAndAudioObjectGroup>&
+    std::vector<HasComplementaryObjectIdAndAudioObjectGroup>
         audio_object_groups) {
   std::vector<std::vector<std::string>> output = {};
 
-- 
2.43.0


From 8bb7165aa3d6e9206d2494d5dcc0877d2a6fcd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 38/46] fix: ADM files with object gains gave metadata which
 could not be encoded

---
 .../iamf/mix_presentation_handler.cc                     | 9 +++++----
 .../adm_to_user_metadata/iamf/mix_presentation_handler.h | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.cc b/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.cc
index e6c7cd6..9094ca9 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.cc
@@ -124,7 +124,7 @@ absl::Status SetDefaultLoudnessLayout(
 
 absl::Status SubMixAudioElementMetadataBuilder(
     const AudioObject& audio_object, uint32_t audio_element_id,
-    uint32_t common_parameter_rate,
+    uint32_t parameter_id, uint32_t common_parameter_rate,
     iamf_tools_cli_proto::SubMixAudioElement& sub_mix_audio_element) {
   sub_mix_audio_element.set_audio_element_id(audio_element_id);
 
@@ -156,7 +156,7 @@ absl::Status SubMixAudioElementMetadataBuilder(
 
   auto* param_definition =
       mix_gain_param_definition->mutable_param_definition();
-  param_definition->set_parameter_id(0);
+  param_definition->set_parameter_id(parameter_id);
   param_definition->set_parameter_rate(common_parameter_rate);
   param_definition->set_param_definition_mode(1);
 
@@ -229,7 +229,8 @@ absl::Status MixPresentationHandler::PopulateMixPresentation(
   for (const auto& audio_object : audio_objects) {
     const auto status = SubMixAudioElementMetadataBuilder(
         audio_object, audio_object_id_to_audio_element_id_[audio_object.id],
-        common_parameter_rate_, *mix_presentation_sub_mix.add_audio_elements());
+        next_parameter_id_++, common_parameter_rate_,
+        *mix_presentation_sub_mix.add_audio_elements());
     if (!status.ok()) {
       return status;
     }
@@ -240,7 +241,7 @@ absl::Status MixPresentationHandler::PopulateMixPresentation(
   auto* param_definition =
       mix_gain_param_definition->mutable_param_definition();
 
-  param_definition->set_parameter_id(0);
+  param_definition->set_parameter_id(next_parameter_id_++);
   param_definition->set_parameter_rate(common_parameter_rate_);
   param_definition->set_param_definition_mode(1);
   mix_gain_param_definition->set_default_mix_gain(0);
diff --git a/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.h b/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.h
index 67c0b76..46afc49 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.h
+++ b/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.h
@@ -66,6 +66,8 @@ class MixPresentationHandler {
 
  private:
   const uint32_t common_parameter_rate_;
+  // The mix gains may differ, so that each has a parameter ID of its own.
+  uint32_t next_parameter_id_ = 0;
   std::map<std::string, uint32_t> audio_object_id_to_audio_element_id_;
 };
 
-- 
2.43.0


From 3d5f2578dc1c9ecb08652a6ed0539d6f0ed4d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:28 +0000
Subject: [PATCH 39/46] fix: crashes on ADM files whose channel formats do not
 match the channels

---
 .../adm/wav_file_splicer.cc                   | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 41e0194..4ecf302 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -266,6 +266,24 @@ std::vector<int> GetLfeChannelIDs(
   return lfe_ids;
 }
 
+// Validates that each channel in the file has at least one audio block.
+absl::Status ValidateAudioChannels(
+    const std::vector<AudioChannelFormat>& audio_channels, int num_channels) {
+  if (audio_channels.size() != static_cast<size_t>(num_channels)) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "Expected one audioChannelFormat per channel of the file. There are ",
+        audio_channels.size(), " and ", num_channels, "."));
+  }
+  for (const auto& audio_channel : audio_channels) {
+    if (audio_channel.audio_blocks.empty()) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("audioChannelFormat ", audio_channel.id,
+                       " has no audioBlockFormat."));
+    }
+  }
+  return absl::OkStatus();
+}
+
 // Updates wav splicing parameters such as remaining durations and block indices
 // for each audio channel.
 void UpdateWavSplicingParams(
@@ -578,7 +596,9 @@ absl::Status SeparateLfeAndConvertTo3OA(
                                    data_chunk_info);
   }
 
-  ABSL_CHECK_LT(lfe_count, num_channels);
+  if (lfe_count >= num_channels) {
+    return absl::InvalidArgumentError("There are only LFE channels.");
+  }
   const int non_lfe_count = num_channels - lfe_count;
   const auto& non_lfe_file_path =
       (output_file_path / non_lfe_file_name).string();
@@ -741,6 +761,8 @@ absl::Status SpliceWavFilesFromAdm(
     }
   } else {
     ABSL_CHECK_EQ(adm_file_type, kAdmFileTypeDolby);
+    RETURN_IF_NOT_OK(ValidateAudioChannels(
+        reader.adm_.audio_channels, reader.format_info_.num_channels));
     using enum iamf_tools::ProfileVersion;
     if (profile_version == kIamfBaseProfile) {
       // For base profile version, convert the channel beds and audio objects
-- 
2.43.0


From bb7bee8f52aa4dec17ff0b68ad8b5cec3cbdc2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:14 +0000
Subject: [PATCH 40/46] fix: exceptions without a usable temporary directory
 when converting ADM scenes

---
 .../adm/wav_file_splicer.cc                   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 4ecf302..6b23554 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -22,6 +22,7 @@
 #include <iterator>
 #include <memory>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <vector>
 
@@ -327,7 +328,12 @@ absl::Status ConvertFromObjectsTo3OA(
   samples_buffer.reserve(kSizeToFlush);
 
   // Prepare the file paths and initialize necessary file handling.
-  const auto temp_file_dir = std::filesystem::temp_directory_path();
+  std::error_code error;
+  const auto temp_file_dir = std::filesystem::temp_directory_path(error);
+  if (error) {
+    return absl::NotFoundError(
+        absl::StrCat("Missing temporary directory: ", error.message()));
+  }
   std::filesystem::path input_file =
       temp_file_dir / absl::StrCat(file_prefix, "_adm_segment.wav");
   std::filesystem::path output_file =
@@ -494,7 +500,7 @@ absl::Status ConvertFromObjectsTo3OA(
   }
 
   // Delete the temporary files.
-  if (!std::filesystem::remove(input_file)) {
+  if (!std::filesystem::remove(input_file, error)) {
     return absl::InternalError("Error while removing temporary file.");
   }
   return absl::OkStatus();
@@ -629,7 +635,13 @@ absl::Status SeparateLfeAndConvertTo3OA(
 
   // Calculate data chunk size and set data chunk info for the generated non-LFE
   // file and invoke the panner for the non-LFE file.
-  const size_t file_size = std::filesystem::file_size(non_lfe_file_path);
+  std::error_code error;
+  const size_t file_size =
+      std::filesystem::file_size(non_lfe_file_path, error);
+  if (error) {
+    return absl::InternalError(absl::StrCat(
+        "Error while reading temporary file: ", error.message()));
+  }
   const size_t data_chunk_size = file_size - kExtensibleOffset - kHeaderSize;
   Bw64Reader::ChunkInfo non_lfe_data_chunk_info = {data_chunk_size,
                                                    kExtensibleOffset};
@@ -639,7 +651,7 @@ absl::Status SeparateLfeAndConvertTo3OA(
   non_lfe_file.close();
 
   // Delete the temporary file.
-  if (!std::filesystem::remove(non_lfe_file_path)) {
+  if (!std::filesystem::remove(non_lfe_file_path, error)) {
     return absl::InternalError("Error while removing temporary file.");
   }
   return absl::OkStatus();
-- 
2.43.0


From ad2b95781ad4acebed1029bd0afeb214d7853b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:18 +0000
Subject: [PATCH 41/46] fix: success although ADM output files could not be
 written completely

---
 iamf/cli/adm_to_user_metadata/adm/panner.cc    | 18 ++++++++++++------
 .../adm/wav_file_splicer.cc                    |  9 +++++++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/panner.cc b/iamf/cli/adm_to_user_metadata/adm/panner.cc
index e07e84d..0dd147b 100644
--- a/iamf/cli/adm_to_user_metadata/adm/panner.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/panner.cc
@@ -19,6 +19,7 @@
 #include <cstdint>
 #include <cstdio>
 #include <cstring>
+#include <memory>
 #include <numbers>
 #include <string>
 #include <vector>
@@ -63,7 +64,9 @@ absl::Status PanObjectsToAmbisonics(const std::string& input_filename,
                                     const std::vector<size_t>& block_indices,
                                     WavWriter& wav_writer) {
   // Read input wav file.
-  FILE* input_file = std::fopen(input_filename.c_str(), "rb");
+  const std::unique_ptr<FILE, int (*)(FILE*)> owned_input_file(
+      std::fopen(input_filename.c_str(), "rb"), &std::fclose);
+  FILE* const input_file = owned_input_file.get();
   if (input_file == nullptr) {
     return absl::FailedPreconditionError(
         absl::StrCat("Failed to open file: \"", input_filename,
@@ -72,8 +75,10 @@ absl::Status PanObjectsToAmbisonics(const std::string& input_filename,
 
   // Read header of input wav file.
   ReadWavInfo info;
-  ABSL_CHECK_NE(ReadWavHeader(input_file, &info), 0)
-      << "Error reading header of file \"" << input_file << "\"";
+  if (ReadWavHeader(input_file, &info) == 0) {
+    return absl::FailedPreconditionError(absl::StrCat(
+        "Error reading header of file \"", input_filename, "\"."));
+  }
 
   const int ip_wav_bits_per_sample = info.bit_depth;
   const int ip_wav_nch = info.num_channels;
@@ -151,7 +156,10 @@ absl::Status PanObjectsToAmbisonics(const std::string& input_filename,
     // Read from the input file.
     const size_t samples_read = ReadWavSamples(
         input_file, &info, ip_buffer_int32.data(), ip_buffer_alloc_size);
-    ABSL_CHECK_EQ(samples_read, num_samples_to_read * ip_wav_nch);
+    if (samples_read != num_samples_to_read * ip_wav_nch) {
+      return absl::FailedPreconditionError(absl::StrCat(
+          "Error reading samples of file \"", input_filename, "\"."));
+    }
 
     // Convert int32 interleaved to float planar.
     for (size_t smp = 0; smp < samples_per_frame; ++smp) {
@@ -214,8 +222,6 @@ absl::Status PanObjectsToAmbisonics(const std::string& input_filename,
         max_value_db);
   }
 
-  std::fclose(input_file);
-
   return absl::OkStatus();
 }
 
diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 6b23554..68319f3 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -453,6 +453,7 @@ absl::Status ConvertFromObjectsTo3OA(
       RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, processed_seg_length,
                                         total_channel_size, samples_buffer,
                                         **wav_writer));
+      RETURN_IF_NOT_OK((*wav_writer)->Flush());
     }
 
     // Pan the current wav segment to 3OA and append the output wav.
@@ -493,12 +494,15 @@ absl::Status ConvertFromObjectsTo3OA(
       RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, sample_count_drift,
                                         total_channel_size, samples_buffer,
                                         **wav_writer));
+      RETURN_IF_NOT_OK((*wav_writer)->Flush());
     }
     RETURN_IF_NOT_OK(PanObjectsToAmbisonics(input_file.string(), input_adm,
                                             audio_block_indices,
                                             **output_wav_writer));
   }
 
+  RETURN_IF_NOT_OK((*output_wav_writer)->Flush());
+
   // Delete the temporary files.
   if (!std::filesystem::remove(input_file, error)) {
     return absl::InternalError("Error while removing temporary file.");
@@ -576,6 +580,9 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
                                         num_channels, bytes_per_sample,
                                         segment_layout, nonlfe_lfe_wav_writer));
   }
+  for (auto& wav_writer : nonlfe_lfe_wav_writer) {
+    RETURN_IF_NOT_OK(wav_writer->Flush());
+  }
   return absl::OkStatus();
 }
 
@@ -770,6 +777,8 @@ absl::Status SpliceWavFilesFromAdm(
       RETURN_IF_NOT_OK(FlushToWavWriter(
           interlaced_samples_for_audio_objects[audio_object_index],
           *audio_object_index_to_wav_writer[audio_object_index]));
+      RETURN_IF_NOT_OK(
+          audio_object_index_to_wav_writer[audio_object_index]->Flush());
     }
   } else {
     ABSL_CHECK_EQ(adm_file_type, kAdmFileTypeDolby);
-- 
2.43.0


From 05beb3f43f72c2ccd48cbfc2538f198d2414022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:18 +0000
Subject: [PATCH 42/46] fix: WAV writer kept its file open when the header can
 not be written

---
 iamf/cli/wav_writer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index a893041..491a031 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -166,6 +166,8 @@ std::unique_ptr<WavWriter> WavWriter::Create(const std::string& wav_filename,
              kAudioToTactileResultFailure) {
     ABSL_LOG(ERROR) << "Error writing header of file \"" << wav_filename
                     << "\"";
+    std::fclose(file);
+    std::remove(wav_filename.c_str());
     return nullptr;
   }
 
-- 
2.43.0


From 012d2213bfb734f108c4ddc8ca9fad3af0c552a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:45 +0000
Subject: [PATCH 43/46] fix: the probe ignored the input file given as a
 positional argument

---
 iamf/cli/probe_main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/probe_main.cc b/iamf/cli/probe_main.cc
index 394545d..c1215ac 100644
--- a/iamf/cli/probe_main.cc
+++ b/iamf/cli/probe_main.cc
@@ -314,13 +314,17 @@ constexpr char kUsage[] =
 
 int main(int argc, char** argv) {
   absl::SetProgramUsageMessage(kUsage);
-  absl::ParseCommandLine(argc, argv);
+  const std::vector<char*> positional_args = absl::ParseCommandLine(argc, argv);
   absl::InitializeLog();
   // Suppress the OBU classes' verbose info-level prints; users only want the
   // probe output.
   absl::SetStderrThreshold(absl::LogSeverityAtLeast::kWarning);
 
   std::string input_filename = absl::GetFlag(FLAGS_input_filename);
+  // The first positional argument is the name of the program.
+  if (input_filename.empty() && positional_args.size() > 1) {
+    input_filename = positional_args[1];
+  }
   if (input_filename.empty()) {
     std::fputs(
         "error: no input; pass a filename (or - for stdin), e.g. "
-- 
2.43.0


From a4ca7e34d2f0acca30d83dd5cabf63a47b7fc7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:45 +0000
Subject: [PATCH 44/46] fix: the probe reported success when its report could
 not be written

---
 iamf/cli/probe_main.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/probe_main.cc b/iamf/cli/probe_main.cc
index c1215ac..f0f8927 100644
--- a/iamf/cli/probe_main.cc
+++ b/iamf/cli/probe_main.cc
@@ -389,6 +389,9 @@ int main(int argc, char** argv) {
                  format.c_str());
     return EXIT_FAILURE;
   }
-  std::fputs(out.c_str(), stdout);
+  if (std::fputs(out.c_str(), stdout) < 0 || std::fflush(stdout) != 0) {
+    std::fputs("error: write of the report failed\n", stderr);
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From bf1d5588d1d72064091b37b54e2aefdde064a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:45 +0000
Subject: [PATCH 45/46] fix: success although the user metadata file could not
 be written completely

---
 iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
index a83be31..cb95644 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
@@ -64,6 +64,10 @@ absl::Status UserMetadataGenerator::WriteUserMetadataToFile(
   }
 
   output_file.close();
+  if (!output_file.good()) {
+    return absl::DataLossError(
+        absl::StrCat("Failed to write file_name= ", file_name.string()));
+  }
   ABSL_LOG(INFO) << file_name.string() << " generated successfully.";
 
   return absl::OkStatus();
-- 
2.43.0


From f16669a8c6dfa05e207b445c2a7b1bf1b2aa9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:25 +0000
Subject: [PATCH 46/46] fix: the encoder aborted on an exception without a
 usable temporary directory

---
 iamf/cli/encoder_main.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/encoder_main.cc b/iamf/cli/encoder_main.cc
index 0740156..82635d9 100644
--- a/iamf/cli/encoder_main.cc
+++ b/iamf/cli/encoder_main.cc
@@ -15,6 +15,7 @@
 #include <ios>
 #include <sstream>
 #include <string>
+#include <system_error>
 
 #include "absl/flags/flag.h"
 #include "absl/flags/parse.h"
@@ -124,7 +125,13 @@ GetUserMetadataAndInputWavDirectory(
     // Wav files associated with each audio object will be written to a
     // temporary directory. The encoder will read back in the wav files from
     // this temporary directory.
-    const auto temp_wav_file_directory = std::filesystem::temp_directory_path();
+    std::error_code error;
+    const auto temp_wav_file_directory =
+        std::filesystem::temp_directory_path(error);
+    if (error) {
+      return absl::NotFoundError("No usable temporary directory: " +
+                                 error.message());
+    }
     encoder_input_wav_directory = temp_wav_file_directory;
     return iamf_tools::adm_to_user_metadata::
         GenerateUserMetadataAndSpliceWavFiles(
@@ -169,10 +176,15 @@ int main(int argc, char** argv) {
   ABSL_LOG(INFO) << user_metadata;
 
   // Get the directory for the output .iamf files.
+  std::error_code error;
   const auto& output_iamf_directory =
       absl::GetFlag(FLAGS_output_iamf_directory).empty()
-          ? std::filesystem::temp_directory_path()
+          ? std::filesystem::temp_directory_path(error)
           : std::filesystem::path(absl::GetFlag(FLAGS_output_iamf_directory));
+  if (error) {
+    ABSL_LOG(ERROR) << "No usable temporary directory: " << error.message();
+    return static_cast<int>(absl::StatusCode::kNotFound);
+  }
 
   absl::Status status =
       iamf_tools::TestMain(*user_metadata, input_wav_directory.string(),
-- 
2.43.0

