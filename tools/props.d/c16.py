prop('C16', 'The decoder plays the mix and layout the selection rules name',
 'For every list of mix presentations, every set of requested profiles, every requested mix id and every requested layout, the decoder (newly created, or switched with ResetWithNewMix) considers exactly those mixes which a requested profile supports (number of sub-mixes, elements and channels; kinds of elements and layouts; headphones modes; codec config rules A to D; mixes that refer to unknown or unusable elements never), and selects: the first with the requested id; else, for binaural, the first whose only element is binaural, then the first with a binaural layout; for stereo, the first with a single stereo layout and a single stereo element, preferring stereo headphones mode; for other layouts, the first mix which lists it; else the first supported mix. The layout is the requested one, or the first of the mix. When nothing is supported the decoder is refused. Reserved bits never matter. The reported mix, layout and channel number are these, and the samples are those of this mix.',
 ['mix_menus', 'settings'], 'all pairs (thorough: triples) of 51 shapes of mix presentations x profiles x ids x layouts',
 'Unit tests check each rule on one or two hand-written mixes; the rules interact, and the selected sub-mix and layout only show in rendered samples.',
 ['iamf/cli/obu_processor_utils.cc', 'iamf/cli/profile_filter.cc', 'iamf/cli/obu_processor.cc', 'iamf/api/decoder/iamf_decoder.cc'],
 [('FindMixPresentationAndLayout', 'iamf/cli/obu_processor_utils.cc'), ('ProfileFilter::FilterProfilesForMixPresentation', 'iamf/cli/profile_filter.cc'), ('ObuProcessor::InitializeForRendering', 'iamf/cli/obu_processor.cc')],
 'exhaustive enumeration of menus of mixes and of settings on the real decoder against an independent model of the selection rules',
 'all menus of up to two (thorough: three) of 51 shapes')
