#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run to regenerate both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, level='model_checking', observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, level=level, observe=observe))

prop('C01', 'Bit reader behaves as a cursor over the bits of its source',
 'For every sequence of literal, LEB128, expandable-size, string and byte reads, seeks, pushes and flushes on a memory-, file- or stream-backed bit reader of any internal capacity, every returned value, success or failure and reported position equals that of a plain cursor over the bits of the source. A value that is out of range, truncated or over-long is refused, and a refused read never touches memory outside the source or the caller\'s buffer. Data pushed to a stream-backed reader becomes readable exactly once and in order, and flushing discards only what has been read.',
 ['histories', 'inputs'], 'all operation sequences up to a depth over all internal capacities and source lengths that straddle refill boundaries',
 'Whether a refill, seek or flush boundary is mishandled depends on the history of calls and the capacity; the tests try a few fixed sequences with comfortable buffers.',
 ['iamf/common/read_bit_buffer.cc', 'iamf/common/read_bit_buffer.h'],
 [('window refill and seek', 'iamf/common/read_bit_buffer.cc'), ('stream push / flush', 'iamf/common/read_bit_buffer.cc')],
 'exhaustive enumeration of operation sequences on the real bit reader against a list-of-bits model',
 'all operation sequences to depth 4 (quick) / 5 (thorough) over an alphabet of boundary operations, all backends and capacities; every reachable state compared with the model')
prop('C02', 'Bit writer and LEB128 encoders emit exactly the requested bits or fail cleanly',
 'For every sequence of writes of signed and unsigned literals, LEB128 and expandable sizes, strings, byte spans, booleans and flushes, the buffer contents equal the concatenation of the requested bit patterns, and flushing to a file appends exactly those bytes once. A write whose value does not fit the requested width, or that is otherwise illegal, is refused and leaves earlier contents decodable. Minimal and fixed-size LEB128 generation produce the documented length, and values read back are those written.',
 ['histories', 'inputs'], 'all operation sequences up to a depth, at every bit alignment',
 'The result of a write depends on the bit alignment left by all previous writes; tests check single writes from a few alignments.',
 ['iamf/common/write_bit_buffer.cc', 'iamf/common/leb_generator.cc'],
 [('literal writer', 'iamf/common/write_bit_buffer.cc'), ('LEB generator', 'iamf/common/leb_generator.cc')],
 'exhaustive enumeration of operation sequences on the real bit writer against a list-of-bits model, read back through the real reader',
 'all operation sequences to depth 3 (quick) / 4 (thorough) over boundary operations x alignments x generators')
prop('C03', 'Descriptor OBUs parse and rewrite exactly as the IAMF grammar says',
 'Every IA sequence header, codec config, audio element and mix presentation OBU that the IAMF syntax allows is accepted, yields exactly the field values in the bitstream, and is written back byte for byte (with minimal LEB128s), keeping extension headers and unknown trailing bytes. Every OBU that violates the syntax, a size limit or a documented value range is refused, as is every truncation of a valid one, without reading beyond the declared OBU size. The OBU header (type, flags, trimming, extension, size) is decoded and re-encoded consistently for all 32 OBU types.',
 ['inputs', 'configurations'], 'all resolutions of the OBU grammar with a bounded number of non-default choices, all header bytes, all truncations',
 'The grammar has tens of optional and size-dependent parts whose combinations tests sample one at a time; acceptance of bad combinations is rarely tested.',
 ['iamf/obu/obu_header.cc', 'iamf/obu/obu_base.cc', 'iamf/obu/audio_element.cc', 'iamf/obu/codec_config.cc', 'iamf/obu/mix_presentation.cc', 'iamf/obu/ia_sequence_header.cc', 'iamf/obu/ambisonics_config.cc', 'iamf/obu/rendering_config.cc', 'iamf/obu/decoder_config/', 'iamf/obu/param_definitions/'],
 [('OBU framing and footer', 'iamf/obu/obu_base.cc'), ('header validation', 'iamf/obu/obu_header.cc')],
 'exhaustive enumeration of a reference grammar\'s productions within a deviation bound, replayed on the real parsers and writers',
 'all grammar resolutions with <= 2-3 (quick) / 3-6 (thorough) deviations from the default OBU; 64k header forms; all truncations of default and single-deviation OBUs')
prop('C04', 'Temporal-unit and metadata OBUs parse and rewrite as the IAMF grammar says',
 'Every audio frame (explicit or implicit substream), temporal delimiter, metadata OBU and parameter block (mix gain, demixing, recon gain, extension; subblock schedule in the definition or in the block) that the IAMF syntax allows is accepted, yields exactly the field values and subblock durations in the bitstream, and is written back byte for byte. Every one whose schedule is inconsistent, whose values are reserved or out of range, whose parameter identifier does not match or that is cut short is refused. Parsing never reads beyond the declared OBU size and trailing bytes are kept.',
 ['inputs', 'configurations'], 'all resolutions of the grammar with a bounded number of non-default choices and all truncations',
 'Schedules, animation types and per-layer flags multiply into combinations that the tests sample one at a time.',
 ['iamf/obu/parameter_block.cc', 'iamf/obu/audio_frame.cc', 'iamf/obu/metadata_obu.cc', 'iamf/obu/temporal_delimiter.h', 'iamf/obu/mix_gain_parameter_data.cc', 'iamf/obu/recon_gain_info_parameter_data.cc', 'iamf/obu/demixing_info_parameter_data.cc', 'iamf/obu/param_definitions/subblock_schedule.cc'],
 [('schedule parsing', 'iamf/obu/param_definitions/subblock_schedule.cc'), ('parameter block payload', 'iamf/obu/parameter_block.cc')],
 'exhaustive enumeration of a reference grammar\'s productions within a deviation bound, replayed on the real parsers and writers',
 'all grammar resolutions with <= 3-4 (quick) / 4-6 (thorough) deviations; all truncations of default and single-deviation OBUs')
prop('C05', 'Decoded PCM is the specified rendering, however the stream is fed and drained',
 'For a valid IAMF stream of losslessly coded audio, the decoder outputs for every temporal unit the samples the specification prescribes: channels reconstructed from the substreams, rendered to the selected layout, element and output mix gains applied tick by tick, trimmed as signalled and requested, clipped, and packed in the requested sample type and channel order. The selected mix, layout, channel count, sample rate and frame size reported equal those of that output. The sequence of output units is the same for every way of splitting the bytes into calls, every order of draining, standalone or with separately supplied descriptors, and after an output buffer that was too small.',
 ['inputs', 'histories', 'configurations'], 'all cut positions and drain policies of a family of streams, all output layouts, sample types, orderings and trim settings',
 'Tests decode a few streams in one or two chunkings and mostly check sizes; bugs appear only for particular cut points, settings or layouts.',
 ['iamf/api/decoder/iamf_decoder.cc', 'iamf/cli/obu_processor.cc', 'iamf/cli/obu_processor_utils.cc', 'iamf/cli/demixing_module.cc', 'iamf/cli/renderer/', 'iamf/cli/rendering_mix_presentation_finalizer.cc', 'iamf/common/read_bit_buffer.cc'],
 [('incremental parsing and flushing', 'iamf/api/decoder/iamf_decoder.cc'), ('temporal unit assembly', 'iamf/cli/obu_processor.cc'), ('rendering and mixing', 'iamf/cli/rendering_mix_presentation_finalizer.cc')],
 'exhaustive enumeration of cut positions, drain policies and settings over a family of streams on the real decoder, against an independent reference renderer',
 '13 streams x 16 layouts x 16 settings x all mixes; every single cut and all pairs in a window, all byte-at-a-time; third-party codecs replaced by lossless stand-ins')
for extra in sorted(os.listdir(os.path.join(V, 'tools', 'props.d'))) if os.path.isdir(os.path.join(V, 'tools', 'props.d')) else []:
    if extra.endswith('.py'): exec(open(os.path.join(V, 'tools', 'props.d', extra)).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        if p['observe']: d['anchors']['observe_at'] = list(p['observe'])
        f.write(json.dumps(d) + '\n')
NA = []
m = {'version': 1, 'setup_cmd': './tools/setup.sh', 'checks': [
    {'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check ' + p['id'] + ' --thorough', 'technique': p['tech'], 'level': p['level'], 'level_note': p['note']} for p in P], 'not_applicable': NA}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
