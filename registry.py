"""The claimed properties and the harnesses that decide them."""

ASSUMPTIONS = [
    "rustc's LLVM IR (opt-level 1, overflow checks and debug assertions on, panic=abort) has the meaning of the source",
    "hopsym interprets the IR correctly (sampled paths are re-run natively and must agree)",
    "Z3 4.8.12 answers correctly",
    "dashmap behaves as the sequential map / set its documentation describes, with per-operation locking (model/dashmap; "
    "counterexamples without a schedule and sampled paths are re-run with the real dashmap)",
    "for connections: tokio's listener, streams and tasks behave as the model in model/tokio (pieces arrive in order, writes are taken in parts, "
    "either side can end or fail, tasks run when the harness says); tokio's io, sync and stream parts are the real ones",
]

# patch: crate, directory under model/, also used for native replays with the real crates
GROUPS = {
    "engine": {"models": [("dashmap", "dashmap", False)]},
    "net": {"models": [("dashmap", "dashmap", False), ("tokio", "tokio", True), ("env_logger", "env_logger", True)]},
}


def H(group, *entries, **kw):
    steps = {"max_steps": 300_000_000}
    return [dict(steps if e.startswith("long_") else {}, **dict(kw, group=group, entry=e)) for e in entries]


def N(*entries, **kw):
    return H("net", *entries, **kw)


def E(*entries, **kw):
    return H("engine", *entries, **kw)


PROPERTIES = {
    "P01": {
        "harnesses": E("req_round_trip_small", "req_round_trip_args", "req_round_trip_long", "req_round_trip_many",
                       "req_arg_ranges", "req_key")
        + E("build_value", real=False),
        "bounds": "every command and key type; 0-4 arguments of 1-3 symbolic bytes; single arguments of 127..65536 bytes "
                  "and 127..255 arguments with symbolic bytes at chosen positions; values of every type with up to 2 items",
        "outside": "argument contents beyond these sizes (the code does not branch on argument bytes)",
    },
    "P02": {
        "harnesses": E("req_incremental", "req_incremental_bytewise", "req_incremental_long", "req_pipeline")
        + E("long_pipeline"),
        "bounds": "every command and key type with 0-2 arguments cut into three pieces at every position; byte-by-byte "
                  "delivery of 0-3 arguments of 0-2 bytes; two pipelined requests; chosen cuts of long requests; 1100 (thorough 2200) requests in one buffer with one context",
        "outside": "more pieces of longer requests; more than two pipelined requests",
    },
    "P03": {
        "harnesses": E("req_any_bytes", "req_any_bytes_pieces", "req_any_bytes_long", "req_after_error", cost=5),
        "bounds": "every buffer of up to 13 bytes in one piece, of up to 10 bytes in three pieces, of 20 bytes for three "
                  "commands; every buffer of 9 bytes after every rejected buffer of up to 4 bytes",
        "outside": "longer arbitrary buffers",
    },
    "P04": {
        "harnesses": E("build_limit", "build_limit_value", "build_empty", "build_empty_late", "build_simple", "build_from_request"),
        "bounds": "builders holding 0-2, 254 and 255 arguments; one further call of every kind; empty items at each place of "
                  "two-item values, and at four places of collections of 127 and 253 (thorough also 40) items",
        "outside": "collections of more than 512 items",
    },
    "P05": {
        "harnesses": E("resp_round_trip", "resp_round_trip_items", real=False) + E("resp_round_trip_text", "resp_round_trip_long")
        + E("long_items", real=False),
        "bounds": "every response type and error code; values with up to 2 (thorough 3) items or bytes of symbolic content, every "
                  "single 1-4 byte character; lengths at the boundaries of the length fields (255, 256, 65535, 65536); sets, maps and lists of 255-300 items",
        "outside": "symbolic content beyond those lengths",
    },
    "P06": {
        "harnesses": E("resp_pieces", "resp_bytewise", "resp_follow_hints", "resp_follow_hints_short", "resp_with_rest",
                       "resp_pieces_long", "resp_announced")
        + E("long_frames"),
        "bounds": "every response type; frames with up to 2 items cut into pieces at every position, delivered byte by byte, "
                  "following the hints exactly or in shorter reads, and with bytes of the next frame behind; 1100 (thorough 2200) frames with one context; the beginning of frames of any announced 32-bit length",
        "outside": "more pieces of longer frames",
    },
    "P07": {
        "harnesses": E("resp_any_bytes", "resp_any_frame", "resp_any_pieces", "resp_after_error"),
        "bounds": "every buffer up to the stated lengths (see the harnesses: 12 bytes whole, 8 in pieces), arbitrary frame contents "
                  "behind consistent lengths, and every short frame after every rejected one",
        "outside": "longer arbitrary buffers",
    },
    "P08": {
        "harnesses": E("code_command", "code_key_type", "code_response_type", "code_errors", "code_names", "code_texts"),
        "bounds": "all 256 codes of every table; all names; texts of up to 4 arbitrary bytes and names with any one byte changed",
        "outside": "longer unrelated texts",
    },
    "P09": {
        "harnesses": E("cmd_counter_int", "cmd_counter_history")
        + E("long_counter"),
        "bounds": "all 64-bit values and amounts; key missing or of any type; any key type argument class; 3 (thorough 4) commands in a row; 275 (thorough 550) steps of one counter",
        "outside": "keys longer than 1 byte (contents only compared)",
    },
    "P10": {
        "harnesses": E("cmd_counter_float", "cmd_counter_history"),
        "bounds": "all doubles as value and amount; key missing or of any type; 3 (thorough 4) commands in a row",
        "outside": "the sign of a zero result and the bits of NaNs",
    },
    "P11": {
        "harnesses": E("cmd_set", "cmd_set_untyped", "cmd_get", "cmd_set_get", "cmd_history", real=False)
        + E("cmd_set_long", "cmd_set_too_long")
        + E("long_keys", real=False),
        "bounds": "key missing or of any type with up to 2 items; every key type; 0-4 further arguments of 0-3 symbolic bytes; "
                  "lengths at the boundaries of the length fields; 2 (thorough 3) arbitrary commands in a row; 1100 (thorough 2200) keys",
        "outside": "longer symbolic contents",
    },
    "P12": {
        "harnesses": E("cmd_append", "cmd_append_history", "cmd_append_limit")
        + E("long_append", "long_append_large"),
        "bounds": "key missing or of any type with up to 2 items; every key type; 0-2 (thorough 3) arguments; 3 (thorough 4) appends in a "
                  "row; lists at the 65535-item limit; 1100 (thorough 2200) appends to one key; 1-65536 bytes appended to values of 255-65536 (thorough 70000) bytes",
        "outside": "longer symbolic contents",
    },
    "P13": {
        "harnesses": E("cmd_delete", "cmd_rename_history") + E("cmd_rename", "cmd_history", real=False)
        + E("long_keys", real=False),
        "bounds": "both keys missing, equal, or of any type; 0-3 arguments; up to 3 commands in a row; one of 1100 (thorough 2200) keys",
        "outside": "keys longer than 2 bytes; renames concurrent with other commands (known finding)",
    },
    "P14": {
        "harnesses": E("cmd_exists", "cmd_is", "cmd_type", "cmd_length_text") + E("cmd_length", "cmd_keys", real=False)
        + E("long_length", "long_map_keys", "long_questions", real=False),
        "bounds": "keys missing or of any type with up to 2 (thorough 3) items; every key type; 0-3 named keys; text of up to 3 arbitrary characters; lengths of 255-70000 bytes, characters or items; 250-255 keys in one question",
        "outside": "larger values",
    },
    "P15": {
        "harnesses": E("cmd_echo", "cmd_echo_many", "stats_history", "stats_unknown_session")
        + E("long_stats"),
        "bounds": "0-4 arguments of symbolic bytes, up to 255 arguments and 65536 bytes; every history of 4 (thorough 5) commands, session starts and ends; 1100 (thorough 2200) commands of one outcome",
        "outside": "longer histories",
    },
    "P16": {
        "harnesses": E("isolate_reads", "isolate_queries", "isolate_counters", "isolate_set", "isolate_moves", "isolate_append", "isolate_history")
        + E("long_keys", real=False) + E("long_names"),
        "bounds": "every command, key type and argument shape (0-4 arguments); two stored keys of any types and one arbitrary further key; "
                  "2 (thorough 3) commands in a row; 1100 (thorough 2200) keys; two keys of 254-65536 (thorough 70000) bytes that differ in one byte or in length",
        "outside": "more stored keys",
    },
    "P17": {
        "harnesses": E("refuse_reads", "refuse_queries", "refuse_counters", "refuse_set", "refuse_moves", "refuse_append")
        + E("long_refused"),
        "bounds": "every command, key type and argument shape (0-4 arguments, including malformed ones); two stored keys of any types; 12 refusals for or of large values and arguments (65535 items, 70000 bytes)",
        "outside": "other large arguments",
    },
    "P18": {
        "harnesses": E("frame_reads", "frame_queries", "frame_counters", "frame_set", "frame_moves", "frame_append", "frame_any_bytes",
                       "frame_pipeline")
        + E("long_output", "long_refused", "long_arguments"),
        "bounds": "every command, key type and argument shape; 12 refusals for or of large values and arguments; every command and key type with 127-255 arguments; every byte string of up to 11 (thorough 13) bytes that parses; "
                  "three pipelined requests; 1100 (thorough 2200) frames in one output",
        "outside": "keys starting with __hop__: (reserved; the engine panics by design)",
    },
    "P19": {
        "harnesses": E("conc_counters_int", "conc_counters_sum", "conc_counters_float", "conc_counters_set", real=False, preempt=2,
                       deep_preempt=3),
        "bounds": "two threads of 1-2 counter commands each with symbolic amounts on a missing or existing key, next to set and delete; every schedule of store accesses with up to 2 (thorough 3) preemptions",
        "outside": "more threads, commands and preemptions",
    },
    "P20": {
        "harnesses": E("conc_writes", "conc_read_write", "conc_reads_writes", "conc_three", "conc_untyped_same_type", "conc_rename",
                       "conc_two_keys", "conc_untyped_keys", "conc_known_rename_set", "conc_known_untyped_set",
                       "conc_known_untyped_append", "conc_known_untyped_length", real=False, preempt=2, deep_preempt=3),
        "bounds": "two or three threads of one or two commands each; key missing or of several types; every schedule of store accesses with up to 2 (thorough 3) preemptions",
        "outside": "more threads, commands and preemptions; lock contention inside dashmap (each operation on the map is one step, as with one shard)",
    },
    "P21": {
        "harnesses": E("count_reads", "count_counters", "count_writes", "count_others", cost=3)
        + E("count_concurrent", real=False, preempt=2, deep_preempt=4, atomic=1)
        + E("long_stats", "long_arguments"),
        "bounds": "every command, key type and argument shape (0-3 arguments) with the key missing or of three types, after an optional other command; three threads; 1100 (thorough 2200) commands of one outcome; every command and key type with 127-255 arguments",
        "outside": "longer histories (P15 covers statistics over histories)",
    },
    "P22": {
        "harnesses": E("metrics_history", "metrics_any_name", "metrics_snapshot")
        + E("metrics_concurrent", "metrics_concurrent_gauge", real=False, preempt=2, deep_preempt=3, atomic=1)
        + E("long_metrics", real=False)
        + E("long_metrics_count"),
        "bounds": "every history of 4 (thorough 5) updates of 3 metrics through two writers; any two 32-bit names; three threads, every schedule of map accesses and atomic operations with up to 2 (thorough 3) preemptions; 1100 (thorough 2200) names and updates of one name; 65540 updates of any name",
        "outside": "longer histories; counters beyond 2^64",
    },
    "P23": {
        "harnesses": E("sessions_history", "sessions_any_id")
        + E("sessions_concurrent", "sessions_end_twice", real=False, preempt=2, deep_preempt=3, atomic=1)
        + E("long_sessions", real=False)
        + E("long_sessions_ids", max_steps=200000000),
        "bounds": "every history of 5 (thorough 6) starts and ends; removing any 32-bit id; three threads, every schedule of map accesses and atomic operations with up to 2 (thorough 3) preemptions; 1100 (thorough 2200) sessions at once, 65540 in a row beside one that stays",
        "outside": "ids after 2^32 sessions",
    },
    "P24": {
        "harnesses": E("pubsub_history", "pubsub_any", "pubsub_close", "pubsub_close_pending")
        + E("pubsub_concurrent", real=False, preempt=3, deep_preempt=5, atomic=1)
        + E("long_pubsub", real=False),
        "bounds": "every history of 4 (thorough 5) operations on 2 sessions and 2 keys; any two session ids and keys of up to 2 bytes; removal with a message being sent or sent before; two threads, every schedule of map accesses and atomic operations with up to 3 (thorough 5) preemptions; 550 (thorough 1100) subscriptions of one session or one key",
        "outside": "more sessions and keys; nothing in the engine publishes yet, so messages are not looked at",
    },
    "P25": {
        "harnesses": E("timer_duration", "timer_history"),
        "bounds": "any clock readings (seconds up to 2^63-1, nanoseconds below 10^9) that do not go backwards; every sequence of 5 (thorough 6) calls",
        "outside": "clock readings outside what clock_gettime returns",
    },
    "P26": {
        "harnesses": N("mem_increment", "mem_decrement", "mem_set", "mem_get", "mem_append", "mem_length", "mem_keys", "mem_query",
                       "raw_counter", "raw_value", "raw_get", "raw_keys", "mem_limits", "mem_history", "mem_stats", "mem_apart", real=False)
        + N("mem_many", real=False) + N("mem_many_values", real=False, max_steps=300000000),
        "bounds": "every request the client can build, and every method of the backend with every key type; key of 0-1 symbolic bytes, missing or "
                  "of any type with up to 2 (thorough 3) items; arguments of up to 2 (thorough 3) symbolic bytes; 255, 256 and 257 keys; lists of 127-255 items; "
                  "2 (thorough 3) calls in a row; two clients; 300 (thorough 600) calls",
        "outside": "calls from several threads at once (P19 and P20 are about the engine underneath)",
    },
    "P27": {
        "harnesses": N("server_stream", "server_pipeline", "server_any_bytes", "server_after_parse_error", "server_two", "server_failing",
                       "server_accept_error", "server_large", "server_bind_error", "server_port", "server_host")
        + N("server_many_requests", "server_many_connections", "server_full_reads", real=False),
        "bounds": "one or two requests of every outcome cut into two (thorough three) pieces at every position, with the task run after every piece or "
                  "later, and responses taken whole, byte by byte or 5 at a time; every stream of up to 4 (thorough 5) bytes in two pieces; "
                  "every refused request of up to 2 bytes with up to 3 bytes behind it and a request after it; two connections in every order; "
                  "input or output failing at every point; requests and responses of 4-70 KB; requests that end exactly where one or two full reads end, or a byte beside it; HOST and PORT of up to 2 unknown characters in several forms; 300 (thorough 600) requests on one connection; 270 (thorough 520) connections",
        "outside": "the sockets themselves and tokio's reactor and scheduler (connections are a model: pieces arrive, writes are taken in parts, "
                   "either fails); connections on several threads at once; a connection whose peer is unknown when it is accepted",
    },
    "P28": {
        "harnesses": N("client_counter", "client_set", "client_get", "client_append", "client_others", "client_query", "backend_counter",
                       "backend_value", "backend_get", "backend_others", "response_any", "response_bytes", "response_end", "request_fails",
                       "connect_fails", "two_calls", "cancelled_call", "large_response", "end_to_end_one", "end_to_end_two",
                       "end_to_end_more", "end_to_end_stats", real=False)
        + N("many_calls", "large_request", real=False) + N("many_values", real=False, max_steps=300000000),
        "bounds": "every request of the client and every method of the backend with keys and arguments of up to 2 symbolic bytes; every response "
                  "of every type with up to 2 items and every response of up to 8 arbitrary bytes, in pieces at every position; the connection ending "
                  "or failing at every byte; two calls at once in every order of 4 (thorough 5) steps; a call given up at every point; "
                  "client and server joined over a modelled connection; 300 (thorough 600) calls; requests and responses of up to 70000 bytes; lists of 127-255 items and as many keys",
        "outside": "the sockets themselves; more than two calls at once; the typed requests given responses of another type by a server that isn't hop's "
                   "(they panic; only the backend's methods are held to arbitrary responses); allocation for a response length that a hostile server makes up",
    },
    "P29": {
        "harnesses": N("parse_any", "parse_names", "parse_types", "parse_words", "parse_integers", "parse_booleans", "parse_floats", "parse_many"),
        "bounds": "every line of up to 4 (thorough 5) characters of 1-2 bytes; every command name and every command with every key type, and "
                  "each with any one character changed, added or missing; every command with 6 key types and up to 3 (thorough 4) words of up to 1 character; integers of up to "
                  "2 (thorough 3) unknown characters and at the limits of 64 bits; booleans near true and false; 254-300 words",
        "outside": "floats other than those of a table of 18 spellings (Rust's own parser decides them); longer unrelated lines",
    },
    "P30": {
        "harnesses": N("cli_counter", "cli_amount", "cli_set", "cli_append", "cli_get", "cli_length", "cli_keys", "cli_is", "cli_echo",
                       "cli_print_bytes", "cli_stats", "cli_history", real=False)
        + N("cli_many", real=False, max_steps=300000000)
        + N("cli_print_int", cost=3),
        "bounds": "every command with the key types it can have, no, some or one word too many, on a store with the key missing or of any type with up to 2 items; "
                  "words of one symbolic character of 1-2 bytes; integers of up to 2 (thorough 4) unknown digits and near the limits of 64 bits; 1-2 arbitrary bytes; "
                  "3 (thorough 4) commands in a row; 8 commands with 128-256 (thorough 16-256) words and what they leave read back",
        "outside": "floats other than those of a table (Rust's own formatting decides them); key types of commands that take none, and words after those a command "
                   "takes (both are ignored); backends other than the in-memory one; the program around it (P31)",
    },
    "P31": {
        "harnesses": N("shell_lines", "shell_pieces", "shell_last_line", "shell_long_line", "shell_many_lines", "shell_failures"),
        "bounds": "2 (thorough 3) lines of 6 forms (two that set, two that read or count, an empty one, an unknown command) with a key and values of 2 "
                  "symbolic characters, each line in up to two pieces cut anywhere, one by one, in pieces or together, ended by a line feed, CR LF or "
                  "blanks; output taken whole or a byte at a time; a last line without an end; lines of 8191..20000 characters; 40 (thorough 100) lines in "
                  "a row; input failing after a line, output failing after 0..5 bytes",
        "outside": "input that isn't UTF-8 (ends the program with an error); what is printed for a line (P30: here it is what process gives for the same "
                   "line on another in-memory client); standard input, output and the runtime are models",
    },
    "P32": {
        "harnesses": E("api_store", "api_store_values", "api_values", "api_values_from"),
        "bounds": "3 (thorough 4) operations (insert, remove, key_or_insert_with, writing through key_mut) on a store and its clone, on two keys of one "
                  "symbolic byte; every type of value replaced by every other, with up to 2 items; every accessor and conversion of values with up to 2 items",
        "outside": "longer histories (long_* of other properties run hundreds of commands); keys starting with __hop__: (reserved); concurrent use (P19, P20)",
    },
    "P33": {
        "harnesses": E("api_config", "api_engines"),
        "bounds": "0-3 settings of each kind with symbolic values in any order, on builders and their copies; 3 (thorough 4) commands on an engine, its clone "
                  "and another engine, with subscriptions and statistics",
        "outside": "the effect of the settings on the engine: none is documented or implemented",
    },
}
