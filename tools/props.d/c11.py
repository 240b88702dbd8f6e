prop('C11', 'The output file is all or nothing under any I/O fault, a prefix at any crash',
 'An encoder that writes a file either succeeds in every call and leaves exactly the bytes of the finished sequence (final descriptors followed by every temporal unit) at the path, replacing what was there, or reports an error in some call and leaves no file: for a failure (disk full, I/O error, partial write, interruption) of any single write or seek, at any file size. A write error is never reported as success. When the process dies at any point, the file holds a prefix of the sequence (preliminary descriptors and temporal units in order, possibly with part of the final descriptors over the preliminary ones), from which a decoder gets every temporal unit that is wholly in it. A path that cannot be opened is reported as an error, and whatever is at that path is neither changed nor removed.',
 ['faults', 'crash_points', 'torn_writes'], 'every write and seek of six encoder runs under four faults; every file size limit; every crash point',
 'Deferred writes of buffered streams, fault positions, and crash points are combinatorial and never occur in tests.',
 ['iamf/cli/obu_sequencer_iamf.cc', 'iamf/common/write_bit_buffer.cc', 'iamf/cli/iamf_encoder.cc'],
 [('WriteBufferToFile / FlushAndWriteToFile', 'iamf/common/write_bit_buffer.cc'), ('MaybeRemoveFile / PushFinalizedDescriptorObus', 'iamf/cli/obu_sequencer_iamf.cc')],
 'systematic fault injection: exhaustive enumeration of the failing system call, of the size at which the file system is full, and of crash points, on the real code',
 'every system call of 6 runs x 4 faults, every byte size up to 400 (160 sizes for large files), every snapshot')
