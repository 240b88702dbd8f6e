prop('C14', 'Every kind of audio element is rendered right on every playback layout',
 'An audio element of any kind renders to each of the 15 sound systems by the published gain matrix of its channel layout (or identically when the layouts match; from the channels of the full layout it belongs to, when it is an expanded layout; from its ambisonics channels otherwise), each output sample within a few 32-bit steps: all single channel layouts; all 20 expanded layouts; mono ambisonics of order 0 to 4 with any mapping of substreams to channels, including left-out channels and any order of substream ids; projection ambisonics with any number of substreams, coupled or not, and any matrix. Several elements of any kinds in one sub-mix are summed with their own gains, then scaled by the mix gain, then trimmed. With headphones and the binaural layout as target, an element that asks for binaural rendering goes through the binaural renderer with exactly its own channels (stereo: passed through or through the virtual speakers of the renderer as configured; trimmed and short frames included), all other elements are rendered as stereo. Mono ambisonics that feed several channels from one substream are refused or rendered right, never wrong.',
 ['element_kinds', 'layouts'], 'all element kinds x 15 playback layouts, and x 2 headphones modes on the binaural layout; pairs and triples of 18 kinds',
 'Unit tests check a few gain tables and one mapping; layout tables, label orders and mappings only meet in whole streams.',
 ['iamf/cli/renderer/audio_element_renderer_channel_to_channel.cc', 'iamf/cli/renderer/audio_element_renderer_ambisonics_to_channel.cc', 'iamf/cli/renderer/renderer_utils.cc', 'iamf/cli/channel_label.cc'],
 [('RenderSamples', 'iamf/cli/renderer/audio_element_renderer_ambisonics_to_channel.cc'), ('LookupEarChannelOrderFromScalableLoudspeakerLayout', 'iamf/cli/channel_label.cc'), ('FinalizeAmbisonicsConfig', 'iamf/cli/obu_with_data_generator.cc')],
 'exhaustive enumeration of element kinds, mappings and layouts on the real decoder, against recorded matrices and an independent renderer',
 'all kinds x all layouts x trimming and gains; pairs and triples of kinds')
