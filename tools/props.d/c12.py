prop('C12', 'The file encoder writes exactly the IAMF and WAV files its input describes',
 'TestMain (the library entry of the file encoder) given user metadata and one WAV file per audio element (same length, any of 16/24/32-bit PCM or float, extra channels and chunks, any channel mapping including repeated channels) writes <prefix>.iamf holding exactly the bytes those metadata and samples describe (identical to what the streaming encoder yields, including the measured loudness), and, when rendered output is requested, one WAV per mix presentation and layout with the right name, header, bit depth, length and rendered samples (codec delay and requested trimming included); with an empty prefix no .iamf; and no other file. Missing directories are created. Mix gain parameter blocks that span several temporal units are partitioned without changing their meaning: steps, linear ramps and unsplit Bezier curves keep their values at every tick. Decoding the file for every mix and layout returns the rendered input. An unreadable or corrupt WAV, one with another sample rate, more bits than the codec carries, or lacking a mapped channel, an output directory that cannot be made, and metadata that do not cover the audio are errors, never a crash.',
 ['metadata_choices', 'faults'], 'all combinations of up to 3 (quick) or 4 (thorough) deviations over 19 dimensions of metadata, WAV files and faults',
 'End-to-end tests compare a handful of fixed inputs; the interplay of mapping, lengths, trimming, partitioning and rendered files is combinatorial.',
 ['iamf/cli/encoder_main_lib.cc', 'iamf/cli/wav_sample_provider.cc', 'iamf/cli/wav_reader.cc', 'iamf/cli/wav_writer.cc', 'iamf/cli/parameter_block_partitioner.cc'],
 [('TestMain', 'iamf/cli/encoder_main_lib.cc'), ('ParameterBlockPartitioner', 'iamf/cli/parameter_block_partitioner.cc'), ('WavSampleProvider', 'iamf/cli/wav_sample_provider.cc')],
 'exhaustive enumeration of metadata, WAV and fault choices up to a bound on deviations, on the real code, against an independent byte-exact and sample-exact model',
 'all choices, pairs and triples (quadruples in thorough) of choices over 19 dimensions')
