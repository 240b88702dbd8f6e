prop('C15', 'Scalable, expanded and ambisonic elements are encoded exactly',
 'For an audio element of any kind given to the encoder as the channels of its top layer (any ladder of channel layers with non-decreasing channel numbers, any demixing modes over time given per temporal unit or by default, any output gain on any layer, own or shared parameter ids; any expanded layout of the Base-Enhanced profile; ambisonics up to order 4 with any mapping), the coded substreams are exactly the channels which the IAMF down-mix equations give (divided by the output gain of the layer that codes them), the audio element, parameter blocks and trimming are coded as configured, the measured loudness is that of the rendered input, and decoding on the layout of any layer gives that layer back. Recon gains supplied by the user are accepted exactly when they are the gains of the specification for every rebuilt channel of the layer (0 below -80 dB, 1 from -6 dB relative to the mixed channel, else the square root of the ratio of original to decoded level, never above 1), or when the user overrides them; gains, channel positions or layer counts that cannot be coded are refused.',
 ['ladders', 'mode_histories', 'levels'], 'all 175 ladders x demixing histories x output gains; recon gains of every ladder of 2-4 layers x level patterns x codec losses',
 'Unit tests encode one or two ladders with constant samples; down-mixing, output gains, delay and recon gains interact over time.',
 ['iamf/cli/downmixer_manager.cc', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc', 'iamf/cli/recon_gain_generator.cc', 'iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc'],
 [('OutputTemporalUnit', 'iamf/cli/iamf_encoder.cc'), ('ComputeReconGain', 'iamf/cli/recon_gain_generator.cc'), ('GenerateReconGainSubblock', 'iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc')],
 'exhaustive enumeration of ladders, demixing histories, output gains and signal levels on the real encoder, against the down-mix equations',
 'all ladders x demixing mode sequences x gains x levels')
