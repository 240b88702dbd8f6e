prop('C08', 'The encoder writes exactly the IA sequence its configuration and input describe',
 'For every supported configuration and input, the documented encoding loop (GetDescriptorObus, Encode/FinalizeEncode/OutputTemporalUnit while GeneratingTemporalUnits) terminates and yields byte for byte the descriptors and temporal units that the configuration describes: every input sample of every channel once, in order, in the substream and position its label calls for, quantised to the bit depth (nearest, saturating); frames of the configured size with the codec delay in front and the padding behind, and trimming values that make exactly the requested samples audible; parameter blocks, delimiters, metadata and arbitrary OBUs in the unit and place they were asked for; canonical order otherwise. No input samples give no temporal units. A requested trim that cannot be honoured is refused. The encoder only finalises the descriptors once all units are out; the loudness and peaks they then contain are those measured on the presentation as rendered for each layout, and the file written is exactly the final descriptors followed by the units. Decoding the result, for each mix and layout, gives the input mixed and rendered by the standard.',
 ['protocol_states', 'operation_sequences'], 'all configurations within a bounded number of deviations from a default, over 20 dimensions of the user metadata and input',
 'Encoder tests compare a few configurations against each other or check sizes; wrong trimming, dropped or duplicated samples, parameter blocks in the wrong unit or loudness of the wrong layout depend on combinations of codec delay, partial frames, trimming, id order and schedules.',
 ['iamf/cli/iamf_encoder.cc', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc', 'iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc', 'iamf/cli/rendering_mix_presentation_finalizer.cc', 'iamf/cli/obu_sequencer_base.cc', 'iamf/include/iamf_tools/iamf_encoder_interface.h'],
 [('OutputTemporalUnit', 'iamf/cli/iamf_encoder.cc'), ('trimming', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc'), ('MeasureLoudness', 'iamf/cli/rendering_mix_presentation_finalizer.cc')],
 'exhaustive enumeration of configurations with at most k deviations, each run through the real public encoder and decoder and compared with an independent reference of the whole IA sequence (bytes, samples, loudness)',
 'k = 3 (4 thorough), about 45,000 configurations, up to 5 frames; codecs other than LPCM through lossless stand-ins')
