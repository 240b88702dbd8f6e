prop('C17', 'Probe reports exactly what the sequence contains, wherever it stops',
 'For every IA sequence, Probe reports the descriptor OBUs field by field as they are coded (every raw value and its one label, Q7.8 values as raw / 256, derived fields consistent), and the scan reports exactly the OBUs of the temporal units: number of units, frames and blocks, per-substream frames, samples and trims, per-parameter blocks and durations with the decoded values, byte offsets, timestamps, total samples and duration, and why it stopped (end, truncated, malformed, next sequence, cancelled, budget) with everything up to that point and nothing after. Cut at any byte, the report is that of the OBUs which are complete; data which end within the descriptors are told apart from invalid ones. ProbeFile gives the same report as Probe for every position of its read window. The report does not depend on the order of hash maps. The JSON form is well-formed for every string and carries the values of the report.',
 ['obu_sequences', 'cut_points', 'stops'], 'all sequences of up to 3 (thorough 4) of 27 kinds of OBUs behind three sets of descriptors x scan modes x cut points x cancellation points',
 'Unit tests probe a dozen fixed streams; scan state carries over from OBU to OBU, so errors show only for particular sequences, cuts and stops.',
 ['iamf/cli/probe.cc', 'iamf/cli/probe.h', 'iamf/cli/probe_json.cc', 'iamf/cli/descriptor_obu_parser.cc'],
 [('ScanTemporalUnits', 'iamf/cli/probe.cc'), ('ProbeFromBuffer', 'iamf/cli/probe.cc'), ('ProbeReportToJson', 'iamf/cli/probe_json.cc')],
 'exhaustive enumeration of OBU sequences, cut points and stop points on the real probe against a reference model of the scan',
 'all sequences of up to three OBUs of 27 kinds, every cut and stop')
