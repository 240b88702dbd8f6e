prop('C22', 'The command-line programs do what was asked, or say that they did not',
 'The command-line encoder, the ADM converter and the probe exit with status 0 only if everything that was asked for is done: the metadata file (binary or text form), the WAV files, the coded files and the probe report (text or JSON) are then exactly those which the library gives for the same input and options, under the expected names, complete, and nothing is left in the temporary folder by the converter. An input may be named by flag, as a positional argument or given on the standard input (probe) with the same result. Unknown flag values, missing, damaged, truncated or contradictory inputs, folders that are missing or cannot be written, a full disk or output device and an unusable temporary folder give a non-zero exit status and no crash, and the probe then prints a message and no partial report.',
 ['command line', 'faults'], 'up to 2 (thorough 4) deviations in 8 dimensions for the converter and 11 for the encoder; every combination of 12 inputs, 7 ways to name them, 4 formats, 4 scans and the duration flag for the probe; every step of file size limits',
 'No test runs the programs: their argument handling, exit status and behaviour on faults are not covered.',
 ['iamf/cli/encoder_main.cc', 'iamf/cli/encoder_main_lib.cc', 'iamf/cli/probe_main.cc', 'iamf/cli/probe_json.cc', 'iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main.cc', 'iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc', 'iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc', 'iamf/cli/wav_sample_provider.cc'],
 [('main', 'iamf/cli/encoder_main.cc'), ('main', 'iamf/cli/probe_main.cc'), ('main', 'iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main.cc')],
 'exhaustive deviation-bounded enumeration of arguments, inputs and faults on the real programs run in child processes, compared with the library',
 'the flag of the ADM converter that shares its name with one of the encoder is renamed when both are built into the check; output of the logging library is not judged')
