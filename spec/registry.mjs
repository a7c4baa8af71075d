// Which contract lemmas decide which property.
export const PROPS = {
  C01: {
    spec: "c01_tl_primitives.ts",
    lemmas: { bytes_roundtrip: {}, int32_roundtrip: {}, int64_roundtrip: {}, int128_roundtrip: {} },
  },
  C02: { spec: "c02_tl_reader_bounds.ts", lemmas: { read_exact: {}, read_integers: {}, read_large_integers: {}, read_byte_string: {}, unread_restores: {} } },
  C03: { spec: "c03_integers.ts", lemmas: { encode_decode: {}, decode_encode: {}, out_of_range_refused: {}, number_out_of_range_refused: {}, random_in_range: {} } },
  C04: { spec: "c04_numbers.ts", lemmas: { modular_power: {}, greatest_common_divisor: {}, residues: {}, factors: { runs: 40, templates: false, maxUnroll: 1 } } },
  C07: { spec: "c07_chat_ids.ts", lemmas: { peer_roundtrip: {}, all_peer_forms_agree: {}, ids_distinct: {}, chat_id_roundtrip: {} } },
  C08: { spec: "c08_dc_ids.ts", lemmas: { dc_roundtrip: {}, dc_ids_distinct: {}, addresses_exist: {} } },
  C05: { spec: "c05_rle.ts", lemmas: { short_strings: { unroll: 12, bounded: "strings of at most 5 bytes" }, long_zero_runs: { unroll: 1000, bounded: "one or two zero runs of the listed lengths" }, encoding_size: { unroll: 12, bounded: "strings of at most 5 bytes" } } },
  C06: { spec: "c06_file_ids.ts", lemmas: { photo_roundtrip: { weight: 3 }, photo_long_reference: {}, document_roundtrip: {}, web_roundtrip: {}, unique_ignores_access: {}, unique_tells_files_apart: {} } },
  C09: { spec: "c09_framing.ts", lemmas: { abridged: {}, abridged_header: {}, intermediate: {}, intermediate_header: {} } },
  C10: { spec: "c10_byte_queue.ts", lemmas: { fifo: { unroll: 12, bounded: "three pushes and three reads of any sizes" }, refuses_short_reads: { unroll: 12, bounded: "two pushes of any sizes" }, long_queues: { weight: 3, bounded: "the listed histories of about a hundred pushes" }, histories: { concreteOnly: true } } },
  C11: { spec: "c11_part_stream.ts", lemmas: { one_chunk: { unroll: 12, bounded: "streams of at most three parts" }, two_chunks: { unroll: 12, bounded: "two chunks, at most two parts" }, parts_do_not_alias_chunks: { unroll: 12, bounded: "one chunk, at most two parts" }, histories: { concreteOnly: true } } },
  C12: { spec: "c12_message_ids.ts", lemmas: { identifiers: {}, previews: {}, identifiers_carry_time: {}, sequence_numbers: {} } },
  C13: { spec: "c13_messages.ts", lemmas: { one_message: {}, containers: { unroll: 12, bounded: "containers of at most two messages of any sizes" }, longer_containers: { unroll: 12, bounded: "three or four messages of at most 40 bytes" }, nested_containers: { unroll: 12, bounded: "the listed shapes" }, confined: { unroll: 12, bounded: "announced lengths of 4, 8 and 12" } } },
  C14: { spec: "c14_ctr.ts", lemmas: { cutting: { unroll: 20 }, state_after_cutting: { unroll: 20 }, decrypts: { unroll: 20 }, concurrent: { unroll: 20 } } },
  C15: { spec: "c15_session_encryption.ts", lemmas: { outgoing: { runs: 60 }, incoming: { runs: 60 }, forged: { runs: 60 }, recovery: { runs: 40 }, other_session: { runs: 40 }, reflected: { runs: 40 } } },
  C16: { spec: "c16_tl_objects.ts", lemmas: { required_field: {}, vectors: { weight: 4 }, wrapped_functions: {}, optional_fields: {}, field_order: {}, bad_objects_refused: {}, bad_encodings_refused: {}, each_constructor: { concreteOnly: true, runs: 150, bounded: "random objects of every constructor of the three schemas, nested up to four levels" } } },
  C17: { spec: "c17_schema.ts", lemmas: { mtproto_identifiers: { runs: 1, maxUnroll: 1000000 }, secret_chat_identifiers: { runs: 1, maxUnroll: 1000000 }, telegram_identifiers: { runs: 1, maxUnroll: 1000000 }, mtproto_references: { runs: 1, maxUnroll: 1000000 }, secret_chat_references: { runs: 1, maxUnroll: 1000000 }, telegram_references: { runs: 1, maxUnroll: 1000000 } } },
  C18: { spec: "c18_obfuscation.ts", lemmas: { header: { cutForever: true }, to_server: { cutForever: true }, from_server: { cutForever: true } } },
  C19: { spec: "c19_updates.ts", lemmas: { one_update: {}, account_history: { weight: 3, bounded: "three updates and three deliveries, in every order" }, one_queued_update: {}, one_container: {}, container_number: {}, one_channel_update: {}, channel_history: { bounded: "two updates and three deliveries, in every order" }, no_loss_on_a_crash: { bounded: "two updates" }, difference_contents: {}, unknown_chat: {}, failing_handler: {}, replay_after_a_restart: { bounded: "at most two stored updates" } } },
  C20: { spec: "c20_requests.ts", assumptions: ["symbolic runs of this property use transparent ciphers and digests: that packets open to what was sealed is decided by C15", "histories of one or two outstanding requests"], lemmas: { replies: { runs: 30, plainCrypto: true }, error_replies: { runs: 30, plainCrypto: true }, bad_salt: { runs: 30, plainCrypto: true }, bad_messages: { runs: 30, plainCrypto: true }, acknowledgements: { runs: 30, plainCrypto: true }, endings: { runs: 30, plainCrypto: true }, failing_transport: { runs: 30, plainCrypto: true }, introductions: { runs: 30, plainCrypto: true }, updates_and_replies: { runs: 30, plainCrypto: true } } },
  C21: { spec: "c21_storage.ts", lemmas: { scalars: {}, lists: { bounded: "lists of at most three values" }, nested: { bounded: "the listed shapes" }, different_values: {}, key_order: { bounded: "keys of at most two parts" }, memory_get_set: {}, memory_counters: {}, memory_branches: {}, memory_listing: { unroll: 12, bounded: "three entries" }, memory_longer_prefix: { unroll: 12, bounded: "two entries" }, memory_range: { unroll: 12, bounded: "three entries" }, web_get_set: { bounded: "two of the listed keys" }, web_listing: { unroll: 40, bounded: "the listed keys and filters" }, web_branches: { unroll: 12, bounded: "two of the listed keys" }, database_get_set: { unroll: 40, bounded: "two of the listed keys" }, database_counters: { unroll: 40 }, database_listing: { unroll: 60, runs: 200, bounded: "the listed keys and filters" }, database_keys: { concreteOnly: true, bounded: "drawn keys" } } },
  C22: { spec: "c22_storage_operations.ts", lemmas: { map_reads: { unroll: 12 }, map_keys: { unroll: 12 }, account_reads: { unroll: 12 }, account_update: {}, commit_failure: { unroll: 12 }, account_commit_race: {}, commit_when: {}, reset_forgets: { unroll: 12 }, objects: { unroll: 12 }, messages: { unroll: 12 }, update_order: { unroll: 20, bounded: "three updates" }, files: { unroll: 12, bounded: "at most three parts" }, references: { unroll: 12, bounded: "at most two references" }, direct_values: { unroll: 12 } } },
  C23: { spec: "c23_files.ts", lemmas: { upload_buffer: { unroll: 80, bounded: "at most five parts" }, upload_big: { unroll: 100, bounded: "up to one part beyond ten megabytes" }, upload_encrypted: { unroll: 80, bounded: "at most three parts" }, upload_stream: { unroll: 80, bounded: "at most three parts" }, upload_errors: { unroll: 80, bounded: "at most three parts" }, upload_cancelled: { unroll: 80, bounded: "at most six parts" }, upload_many: { unroll: 100, bounded: "21 or 22 parts" }, download_long: { unroll: 80, bounded: "four to nine parts" }, download_encrypted_long: { unroll: 80, bounded: "five or six parts" }, upload_progress: { unroll: 80, bounded: "at most three parts" }, bad_sizes: {}, download: { unroll: 80, bounded: "at most three parts" }, download_again: { unroll: 80, bounded: "at most three parts" }, download_encrypted: { unroll: 80, bounded: "at most three parts" }, download_together: { unroll: 80, bounded: "at most two parts each" }, download_cancelled: { unroll: 80, bounded: "at most three parts" } } },
  C24: { spec: "c24_queues.ts", lemmas: { queue_history: { unroll: 12, bounded: "three tasks and the ones they queue" }, longer_queue_history: { concreteOnly: true, runs: 200 }, queues_are_independent: { unroll: 12, bounded: "two queues" }, mutex_history: { unroll: 12, bounded: "three holders" }, longer_mutex_history: { concreteOnly: true, runs: 200 } } },
  C25: { spec: "c25_middleware.ts", lemmas: { chains: { unroll: 20, bounded: "three middleware in six arrangements" }, not_awaited: { unroll: 20, bounded: "three middleware" }, two_updates: { unroll: 20, bounded: "two updates" }, together: { unroll: 20, bounded: "two updates" }, branches: { unroll: 20 }, filters: { unroll: 20 }, accounts: { unroll: 20 }, kinds_of_updates: { unroll: 20, bounded: "the listed kinds" }, data_and_queries: { unroll: 20, bounded: "at most two values" }, chat_types: { unroll: 20 }, commands: { unroll: 20, runs: 300, bounded: "the listed words" }, command_settings: { unroll: 20, runs: 300, bounded: "the listed words" }, not_commands: { unroll: 20, bounded: "the listed prefixes" } } },
  C26: { spec: "c26_secret_messages.ts", lemmas: { sealed: { unroll: 20, bounded: "texts of the listed lengths" }, contents: { unroll: 20, plainCrypto: true }, settings: { unroll: 20, plainCrypto: true }, incoming: { unroll: 80, bounded: "texts of the listed lengths" }, incoming_contents: { unroll: 80, plainCrypto: true }, forged: {}, reflected: {}, wrong_key: {}, malformed: {}, padding: { concreteOnly: true, runs: 1000, bounded: "four texts and every padding to 1132 bytes" }, files: { unroll: 20, plainCrypto: true } } },
  C27: { spec: "c27_secret_order.ts", lemmas: { any_order: { unroll: 80, plainCrypto: true, bounded: "four messages, three arrivals in any order" }, restarts: { unroll: 80, plainCrypto: true, bounded: "three messages" }, wrong_numbers: { unroll: 80, plainCrypto: true }, forgetful: { unroll: 80, plainCrypto: true }, resending: { unroll: 80, plainCrypto: true, bounded: "three messages" }, numbering: { unroll: 80, plainCrypto: true, bounded: "three messages" }, crash_while_sending: { unroll: 80, plainCrypto: true }, kept: { plainCrypto: true } } },
  C28: { spec: "c28_secret_keys.ts", lemmas: { agreement: { unroll: 300, plainCrypto: "real", weight: 1, bounded: "one exchange, restarts between its steps" }, bad_configuration: { unroll: 300, plainCrypto: "real", weight: 1, bounded: "the listed groups" }, bad_request: { unroll: 300, plainCrypto: "real", weight: 1, bounded: "the listed numbers" }, bad_answer: { unroll: 300, plainCrypto: "real", weight: 1, bounded: "the listed answers" }, replacing: { unroll: 300, plainCrypto: "real", weight: 3, bounded: "one replacement, a message of each side at any step" }, crossing: { unroll: 300, plainCrypto: "real", weight: 1, bounded: "two requests at once" }, faults: { unroll: 300, plainCrypto: "real", weight: 1, bounded: "one or two failing sends" }, reordered: { unroll: 300, plainCrypto: "real", weight: 3, bounded: "six messages, one overtaking" }, crashes: { unroll: 300, plainCrypto: "real", weight: 2, bounded: "one crash" }, queued: { unroll: 300, plainCrypto: "real", weight: 4, bounded: "one slow side" }, wrong_exchange: { unroll: 300, plainCrypto: "real", bounded: "the listed messages" } } },
  C29: { spec: "c29_auth_key.ts", lemmas: { agreement: { unroll: 2100, plainCrypto: "real", bounded: "the listed numbers" }, kinds: { unroll: 2100, plainCrypto: "real", bounded: "the listed numbers" }, first_answer: { unroll: 2100, plainCrypto: "real", bounded: "one changed byte, of any value" }, other_nonce: { unroll: 2100, plainCrypto: "real", weight: 2, bounded: "one changed byte, of any value" }, other_parameters: { unroll: 2100, plainCrypto: "real", bounded: "the listed changes" }, other_group: { unroll: 2100, plainCrypto: "real", bounded: "the listed groups" }, refusals: { unroll: 2100, plainCrypto: "real" }, large_numbers: { concreteOnly: true, runs: 60 }, public_keys: { unroll: 2100, plainCrypto: "real", bounded: "the listed sets of keys" } } },
  C30: { spec: "c30_password.ts", lemmas: { proof: { unroll: 2100, plainCrypto: "real", bounded: "the listed passwords, salts and numbers" }, short_numbers: { unroll: 2100, plainCrypto: "real", bounded: "the listed numbers" }, other_password: { unroll: 2100, plainCrypto: "real", bounded: "the listed passwords" }, refused: { unroll: 2100, plainCrypto: "real", bounded: "the listed parameters" } } },
  C33: { spec: "c33_temporary_keys.ts", lemmas: { sealed: { unroll: 300, looseCrypto: true }, connecting: { unroll: 300, plainCrypto: "real", bounded: "the listed faults, at the listed moments" }, ticking: { unroll: 300, plainCrypto: "real", bounded: "the listed faults, at the listed moments" }, repeated: { unroll: 300, plainCrypto: "real", bounded: "the listed faults, at the listed moments" }, lost: { unroll: 300, plainCrypto: "real", bounded: "the listed faults, at the listed moments" }, refused: { unroll: 300, plainCrypto: "real", bounded: "the listed faults, at the listed moments" }, replaced: { unroll: 300, plainCrypto: "real", bounded: "the listed faults, at the listed moments" }, failing: { unroll: 300, plainCrypto: "real", bounded: "the listed faults, at the listed moments" } } },
  C32: { spec: "c32_sign_in.ts", lemmas: { users: { unroll: 300, plainCrypto: "real", bounded: "one account's sign-in and what follows, in the listed ways" }, fixed_answers: { unroll: 300, plainCrypto: "real", bounded: "one account's sign-in and what follows, in the listed ways" }, bots: { unroll: 300, plainCrypto: "real", bounded: "one account's sign-in and what follows, in the listed ways" }, sign_out: { unroll: 300, plainCrypto: "real", bounded: "one account's sign-in and what follows, in the listed ways" }, other_errors: { unroll: 300, plainCrypto: "real", bounded: "one account's sign-in and what follows, in the listed ways" }, other_account: { unroll: 300, plainCrypto: "real", bounded: "one account's sign-in and what follows, in the listed ways" }, auth_strings: { unroll: 300, runs: 300 } } },
  C31: { spec: "c31_client.ts", lemmas: { one_after_another: { unroll: 300, plainCrypto: "real", bounded: "the listed requests, answers and failures" }, at_once: { unroll: 300, plainCrypto: "real", bounded: "the listed requests, answers and failures" }, next_program: { unroll: 300, plainCrypto: "real", bounded: "the listed requests, answers and failures" }, failures: { unroll: 300, plainCrypto: "real", bounded: "the listed requests, answers and failures" }, short_waits: { unroll: 300, plainCrypto: "real", bounded: "the listed requests, answers and failures" }, error_handlers: { unroll: 300, plainCrypto: "real", bounded: "the listed requests, answers and failures" }, not_connected: { unroll: 300, plainCrypto: "real", bounded: "the listed requests, answers and failures" } } },
};
