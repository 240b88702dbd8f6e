prop('C09', 'Every history of encoder calls obeys the documented contract',
 'For every order in which a client calls the encoder (Encode with a full frame, a short last frame, some of the audio elements or nothing, OutputTemporalUnit, FinalizeEncode, and the queries at any time), every temporal unit that the input given before finalisation requires comes out exactly once, complete, in order, at most one per call, as soon as its samples are there and never before; a call that has no unit to deliver succeeds with an empty output; samples given after FinalizeEncode have no effect; after FinalizeEncode the encoder is done after a bounded number of calls; GeneratingTemporalUnits is true until the last unit is out and false afterwards; the preliminary descriptors do not change, are reported as final exactly when no more units will come, and do not change afterwards, whatever is called. The caller may reuse its sample buffers as soon as Encode returns. Trivial IA sequences, elements without frames and repeated calls never crash or hang.',
 ['operation_sequences', 'histories'], 'all call sequences to a depth over an alphabet of seven calls on eight kinds of encoder',
 'Tests follow the documented loop; what happens when calls are split, repeated, empty or late depends on the state left by the previous calls and on the codec delay.',
 ['iamf/cli/iamf_encoder.cc', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc', 'iamf/include/iamf_tools/iamf_encoder_interface.h', 'iamf/cli/obu_sequencer_streaming_iamf.cc'],
 [('Encode / OutputTemporalUnit / FinalizeEncode', 'iamf/cli/iamf_encoder.cc'), ('OutputFrames', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc')],
 'exhaustive enumeration of operation sequences on the real encoder in lock step with an explicit model of its contract',
 'depth 5-6 (6-7 thorough), 7 calls, 8 encoder kinds; then drained and decoded')
