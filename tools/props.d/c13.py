prop('C13', 'Scalable channel audio is reconstructed in every layer and layout',
 'For a channel-based audio element with any ladder of layers (channel numbers never decreasing; layers coded as the IAMF down-mix equations give them, with any output gains), and any sequence of demixing parameter blocks (all modes; w index advancing and saturating; own or shared parameter ids; blocks for a prefix of the stream, then the defaults; none at all), the decoder rebuilds every channel that the down-mix removed: for every playback layout the output equals the one rendered from the uncoded channels of the layer the layout selects (the lowest layer with that very layout, else the top one), with the element and mix gains and trimming applied. Output gains are undone on exactly the channels their flags name. When the stream carries down-mix parameters, 7.1.4 is played on 3.1.2 and 7.1.2 by them.',
 ['ladders', 'mode_histories', 'layouts'], 'all 175 ladders x mode sequences of length 2-3 and 26-unit ramps x output gain flags x playback layouts',
 'Unit tests use single demixers on a few samples; ladders, mode histories, output gains and layouts interact.',
 ['iamf/cli/demixing_manager.cc', 'iamf/cli/parameters_manager.cc', 'iamf/cli/renderer/audio_element_renderer_channel_to_channel.cc', 'iamf/obu/demixing_info_parameter_data.cc'],
 [('DemixDecodedAudioSamples', 'iamf/cli/demixing_manager.cc'), ('GetDownMixingParameters', 'iamf/cli/parameters_manager.cc'), ('DMixPModeToDownMixingParams', 'iamf/obu/demixing_info_parameter_data.cc')],
 'exhaustive enumeration of ladders, demixing histories, output gains and layouts on the real decoder, against the down-mix equations',
 'all ladders x demixing mode sequences x gains x layouts')
