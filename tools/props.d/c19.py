prop('C19', 'Audio samples cross WAV files and number formats unharmed, errors are reported',
 'Reading a WAV file in frames of any size gives every sample exactly: integers left-justified in 32 bits, floats scaled by 2^31, clipped, NaN as 0, in the right channel and order, with the right count and remaining count, for 16/24/32-bit and float files of any length, also when the file ends early (whole ticks that are there, then the end). Writing: whatever sequence of pushed frames and raw PCM a WAV writer is given, the file after Flush() or destruction is the header for exactly the accepted samples followed by these samples, clipped and truncated to the bit depth (no header when not asked for); refused calls (too many samples, wrong shape, NaN, after Flush or Abort) add nothing; Abort() at any time removes the file and is safe to repeat; what is written reads back identically. If a write, seek or close fails or the disk is full, some call reports it: never success with an incomplete file. Fixed-point (Q7.8, Q0.8), normalised floating-point, little- and big-endian PCM conversions are exact where the value is representable, within one step and clipped otherwise, and refuse what has no value (NaN, out of range). The command-line decoder writes exactly the samples of the decoded stream for every block size, layout, sample type and mix, and exits with an error when it could not.',
 ['operation_sequences', 'faults', 'values'], 'all writer operation sequences over 16 operations to depth 4 (thorough 5); all files up to 30 ticks x formats x frame sizes x truncations; every fault and file size limit',
 'Tests read and write a few fixed files; extremes, partial frames, truncated files, operation orders and full disks do not occur in them.',
 ['iamf/cli/wav_writer.cc', 'iamf/cli/wav_reader.cc', 'iamf/common/utils/numeric_utils.cc', 'iamf/common/utils/numeric_utils.h', 'iamf/cli/sample_processing_utils.cc', 'iamf/api/internal_utils/internal_utils.cc', 'iamf/cli/decoder_main.cc'],
 [('WavWriter', 'iamf/cli/wav_writer.cc'), ('WavReader::ReadFrame', 'iamf/cli/wav_reader.cc'), ('NormalizedFloatingPointToInt32', 'iamf/common/utils/numeric_utils.h'), ('WritePcmSample', 'iamf/cli/sample_processing_utils.cc')],
 'exhaustive enumeration of operation sequences, files, truncation points and I/O faults on the real code against an independent model of the file; exhaustive enumeration of small value domains',
 'depth 2 to 4 over 16 operations (thorough 4 to 5), files up to 30 ticks, all faults of 20 runs; all 16-bit values, structured floats (thorough: all 2^32 integers)')
