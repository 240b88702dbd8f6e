prop('C18', 'Producer and consumer threads, and separate instances, do not interfere',
 'The audio frame generator may be fed by one thread (AddSamples, then Finalize) while another takes the frames (OutputFrames while GeneratingFrames): whatever the interleaving, every frame comes out exactly once, grouped by temporal unit and in order, with the same payload, trims and timestamps as when one thread does everything, no data race or deadlock happens and both threads finish. The same holds for every codec encoder (EncodeAudioFrame and Finalize against FramesAvailable, Pop and Finished): frames are popped in the order they were encoded, a frame reported as available can be popped, Finished() is true only when nothing is left, and encoding after Finalize() fails. Threads that each own their own decoder, encoder or probe do not share unsynchronised state: no data race, and each gets the result it gets alone.',
 ['schedules', 'preemptions'], 'all schedules of two threads up to 4 (thorough 6) preemptions for the generator, 5 (8) for the encoders, 1 (2) for pairs of instances',
 'Unit tests are single-threaded; races, lost frames and deadlocks need particular interleavings.',
 ['iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc', 'iamf/cli/codec/encoder_base.h', 'iamf/cli/codec/flac_encoder.cc', 'iamf/include/iamf_tools/iamf_decoder_interface.h'],
 [('AudioFrameGenerator::OutputFrames', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc'), ('EncoderBase', 'iamf/cli/codec/encoder_base.h')],
 'stateless exploration of all thread schedules up to a preemption bound on the real code (controlled fiber scheduler, ThreadSanitizer as race monitor)',
 'all schedules of two threads up to the preemption bound')
