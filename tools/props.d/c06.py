prop('C06', 'Malformed input never crashes, hangs or corrupts what was already decoded',
 'Whatever bytes are fed to the decoder or the file prober, they terminate without crashing, undefined behaviour, out-of-bounds access or unbounded memory use, and either produce output or report an error. Every unit the decoder outputs has a whole number of samples for the reported channel count and at most the reported frame size, nothing is written beyond what is reported, and units that were complete before the damage are output unchanged. What is output does not depend on how the damaged stream was split into calls.',
 ['inputs', 'fault_sequences'], 'every single mutation (byte value, truncation, insertion, deletion, OBU-level edit) of a family of streams and every pair of OBU-level edits',
 'Tests feed a handful of hand-made bad streams; the space of damaged streams is combinatorial and failures need a particular byte to be wrong.',
 ['iamf/api/decoder/iamf_decoder.cc', 'iamf/cli/obu_processor.cc', 'iamf/cli/descriptor_obu_parser.cc', 'iamf/cli/probe.cc', 'iamf/obu/', 'iamf/cli/rendering_mix_presentation_finalizer.cc'],
 [('bypassing of unknown OBUs', 'iamf/cli/obu_processor.cc'), ('OBU size validation', 'iamf/obu/obu_header.cc')],
 'exhaustive single-fault (and OBU-level double-fault) enumeration over base streams, executed on the real decoder and prober under ASan+UBSan',
 'all single mutations over 16 boundary values per byte (255 thorough), all truncations, all OBU-level edits and their pairs, 13+ base streams, 3 feeding modes', level='fault_enumeration')
