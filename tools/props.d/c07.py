prop('C07', 'Every history of decoder calls obeys the documented contract',
 'For every order in which a client calls the decoder (Decode with any amount of data including none, GetOutputTemporalUnit, SignalEndOfDecoding, Reset, ResetWithNewMix, moving the object): the queries fail until the descriptors are complete and are right and constant afterwards; units come out exactly once, in order; a call without a pending unit returns no bytes and no error; a too small buffer is refused without losing anything; data given to Decode after the end was signalled is refused; Reset and ResetWithNewMix are refused for a standalone decoder (without effect) and otherwise return to the state right after the descriptors, dropping everything pending, with the newly requested mix in force; a call that fails on bad data leaves a decoder that Reset makes as good as new. Two decoders do not influence each other.',
 ['operation_sequences', 'histories'], 'all call sequences to a depth over an alphabet of 13 calls, in both modes, and all interleavings of two decoders',
 'Tests run a few fixed call orders; state left over after an unusual order (Reset after the end, after garbage, with a unit pending, half a unit buffered) shows only in particular histories.',
 ['iamf/api/decoder/iamf_decoder.cc', 'iamf/include/iamf_tools/iamf_decoder_interface.h', 'iamf/cli/obu_processor.cc'],
 [('Reset', 'iamf/api/decoder/iamf_decoder.cc'), ('rendered_samples bookkeeping', 'iamf/api/decoder/iamf_decoder.cc')],
 'exhaustive enumeration of operation sequences on the real decoder in lock step with an explicit-state model of its contract (DFS to a depth, plus BFS over the model state space)',
 'depth 4 (5-6 thorough), 13 calls, 5 streams, 2 modes; 387+ model states')
