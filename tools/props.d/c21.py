prop('C21', 'Ambisonics elements and presets come out as the sound field that went in',
 'For every ambisonics preset (orders 0 to 3), with any codec, the samples given per ambisonics channel, decoded and rendered, are those of the same sound field: exactly for the mono configurations and within the rounding of its 16-bit matrices for the Opus third-order projection. For every explicit mono configuration (any channel mapping, any missing channels) the substream of a channel carries the samples given under that channel label, and missing channels are silent; for every projection configuration (any split into coupled and single substreams, any matrix) decoding applies the demixing matrix to the coded channels that were given. This holds in any order of labels and elements, with any substream ids, gains, trims, frame sizes and lengths, and next to other elements of the mix; a number of substream ids that does not fit the configuration, and mixes with too many channels, are refused.',
 ['configurations'], 'all presets x codecs with up to 2 (thorough 3) deviations in 16 dimensions; all mono mappings of order 1, families of orders 0, 2, 3, 4, all projection splits of orders 0 to 4',
 'Tests check one or two configurations at the level of the mixer; no test encodes and decodes a preset, a mapping with holes or an unusual split.',
 ['iamf/cli/ambisonics_mixer.cc', 'iamf/cli/downmixer_manager.cc', 'iamf/cli/downmixer_factory.cc', 'iamf/cli/proto_conversion/downmixing_reconstruction_util.cc', 'iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc', 'iamf/obu/ambisonics_config.cc', 'iamf/cli/obu_with_data_generator.cc', 'iamf/cli/renderer/audio_element_renderer_ambisonics_to_channel.cc'],
 [('AmbisonicsMixer', 'iamf/cli/ambisonics_mixer.cc'), ('CreateAmbisonicsDownmixers', 'iamf/cli/proto_conversion/downmixing_reconstruction_util.cc'), ('FinalizeAmbisonicsConfig', 'iamf/cli/obu_with_data_generator.cc')],
 'exhaustive deviation-bounded enumeration of ambisonics configurations on the real encoder and decoder against independently recorded rendering gains',
 '2 (thorough 3) deviations per preset and codec, 1 (2) per explicit configuration; signals of 12 bits, codecs are lossless stand-ins')
