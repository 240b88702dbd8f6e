prop('C10', 'Every history of OBU sequencer calls obeys the sequencing protocol',
 'For every order of PushDescriptorObus, PushTemporalUnit, UpdateDescriptorObusAndClose, Close and Abort on an OBU sequencer (file, streaming, or any other class derived from the base): descriptors are accepted once and first; temporal units only between the descriptors and the end; the concrete sequencer receives the serialized descriptors with the common frame size, sample rate, bit depth, channel count and first untrimmed timestamp, then every temporal unit exactly once, in order, complete (delimiter if enabled, arbitrary OBUs at their hooks, frames by element and substream) and with its timestamp and number of untrimmed samples, then, only if they changed, the finalized descriptors, then the close. Sequencers that delay the descriptors until the first untrimmed sample get everything that was delayed, also when the sequence ends without such a sample. A unit trimmed at its start after the first untrimmed sample, changed functional properties or a changed size of the descriptors, calls out of place and failures of the concrete sequencer are errors, and every failed call before the close aborts: no output file or streamed data is left. What was closed successfully is not changed by later calls, and a file is not touched before descriptors are written.',
 ['operation_sequences', 'histories', 'faults'], 'all call sequences to a depth over 14 calls on eight kinds of sequencer, with every early failure of the concrete sequencer',
 'The base class keeps a state machine with cached units and abort-on-error; unit tests sample single transitions of it.',
 ['iamf/cli/obu_sequencer_base.cc', 'iamf/cli/obu_sequencer_iamf.cc', 'iamf/cli/obu_sequencer_streaming_iamf.cc', 'iamf/cli/temporal_unit_view.cc'],
 [('PushTemporalUnit / UpdateDescriptorObusAndClose / Close / HandleInitialTemporalUnits', 'iamf/cli/obu_sequencer_base.cc'), ('PushFinalizedDescriptorObus / AbortDerived', 'iamf/cli/obu_sequencer_iamf.cc')],
 'exhaustive enumeration of operation sequences on the real sequencers in lock step with an explicit-state model; fault injection at every call into the concrete class',
 'depth 5 (6 thorough), 14 calls, 8 sequencers, plus 2 calls after the end')
