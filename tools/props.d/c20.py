prop('C20', 'ADM/BW64 files become the IAMF sequence they describe, or an error',
 'For every well-formed ADM file, conversion writes one WAV per retained audio object (importance at or above the threshold) holding exactly the samples of its tracks, at the bit depth and rate of the file, and nothing else; every audio element of the metadata is paired with the WAV file, layout and channel labels of its own object; there is one mix presentation per audio programme and choice of complementary objects, with the objects, gains and loudness of that programme, and objects that are unsupported, or programmes that do not fit the profile, only affect the mixes that use them. The metadata can always be encoded, and decoding any of the mixes gives the audio of its objects. Dolby scenes are panned to third-order ambisonics with the position of every channel at every tick (blocks of any length, in step with the audio, gain falling with the distance), the LFE channels in elements of their own in the enhanced profile. No temporary file remains. Files that are cut short, damaged or inconsistent, directories that can not be written and disks that fill up give an error or a complete conversion: never a crash, and never success with incomplete files.',
 ['documents', 'damage', 'faults'], 'all documents within 2 (thorough 3) deviations in 17 dimensions; all scenes within 3 (4) in 10; single and paired damage to every piece of a document, all prefixes, header fields and file size limits',
 'Tests convert a few fixed documents with one-line expectations; combinations of ids, importance, complementary objects, profiles, block timings and damage do not occur in them.',
 ['iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc', 'iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc', 'iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc', 'iamf/cli/adm_to_user_metadata/adm/panner.cc', 'iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc', 'iamf/cli/adm_to_user_metadata/iamf/iamf.cc', 'iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.cc'],
 [('GenerateUserMetadataAndSpliceWavFiles', 'iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc'), ('SpliceWavFilesFromAdm', 'iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc'), ('IAMF::Create', 'iamf/cli/adm_to_user_metadata/iamf/iamf.cc')],
 'exhaustive deviation-bounded enumeration of documents, scenes, damage and file size limits on the real converter, file encoder and decoder against an independent model of the resulting WAV files, mixes and audio',
 '2 to 4 deviations from a base document or scene; damage of one or two pieces (quick: one in eight pairs); objects reference tracks in file order')
