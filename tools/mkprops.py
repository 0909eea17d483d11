#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here) and MANIFEST.json (from registry.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPERTIES

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files.split(),
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


RQ = "engine/src/command/request/"
RS = "engine/src/command/response/"

p("P01", "Requests survive encoding and decoding unchanged",
  "Building a request from any command, optional key type and non-empty arguments (up to 255), encoding it and parsing the bytes "
  "yields a request with the same command, key type, key, argument count, arguments (singly, by range and as a whole) and encoding. "
  "Values of every type become the arguments that represent them: numbers as 8 bytes big endian, booleans as one byte, lists and sets "
  "as their items, maps as their alternating keys and values.",
  "inputs", "every command, key type, argument list and value",
  "Tests build a handful of fixed requests; the encoding must be right for every length, count, key type and content.",
  RQ + "mod.rs " + RQ + "builder.rs " + RQ + "context.rs",
  [("request builder", RQ + "builder.rs"), ("argument positions", RQ + "mod.rs"), ("parser", RQ + "context.rs")],
  observe=["bytes of the built request", "accessors of the parsed request"])
p("P02", "Requests may arrive in any pieces and back to back",
  "However a request's bytes are split, the parser reports it incomplete for each proper prefix and returns it exactly when the last "
  "byte is there, identical to parsing it in one piece. Bytes that follow the request are not consumed: the parsed request covers "
  "exactly its own bytes, so back-to-back requests are each parsed in turn.",
  "inputs histories", "every request, every way to split it, every sequence of requests",
  "Tests feed few requests at few split points; any of the exponentially many splits may expose a stale parser state.",
  RQ + "context.rs", [("incremental parser state", RQ + "context.rs")],
  state=[("parser stage, positions", "how far the current request is parsed", RQ + "context.rs")],
  observe=["result of each feed"])
p("P03", "The request parser is total and exact on arbitrary bytes",
  "For arbitrary bytes the request parser never panics and agrees with the wire format: it reports an unknown command or key type as "
  "that error, waits for more bytes exactly when the request is incomplete, and otherwise returns the request those bytes encode. "
  "After reporting an error, it parses the next bytes as if they were the first.",
  "inputs histories", "every byte string, whole or in pieces, also after an earlier error",
  "Malformed input is unbounded; tests cover one or two invalid bytes.",
  RQ + "context.rs " + RQ + "mod.rs", [("parser", RQ + "context.rs"), ("parse errors", RQ + "mod.rs")],
  observe=["result of each feed"])
p("P04", "The request builder refuses what cannot be encoded and stays usable",
  "Adding an argument or value is refused exactly if it or one of its items is empty, if it would exceed 255 arguments, or if the "
  "command takes no arguments at all. A refused addition leaves the request being built exactly as it was; the same holds for "
  "builders made from an existing request.",
  "inputs histories", "every sequence of additions",
  "The limits only show at 255 arguments and at the n-th item of a value, which tests do not reach.",
  RQ + "builder.rs", [("argument limit and emptiness checks", RQ + "builder.rs")], observe=["results of additions", "the built request"])
p("P05", "Responses survive encoding and decoding unchanged",
  "Every response (any value of any type, every dispatch error and every parse error) is encoded as one frame that starts with its "
  "length and decodes to an equal response: byte strings, text and lists exactly, maps and sets with the same members, floats with "
  "the same bits (any NaN stays a NaN).",
  "inputs", "every response whose map keys fit 255 bytes and whose set items fit 65535 bytes",
  "Tests decode a few hand-written frames; lengths, counts and contents are unbounded.",
  RS + "mod.rs " + RS + "context.rs", [("response encoder", RS + "mod.rs"), ("response decoder", RS + "context.rs")],
  observe=["encoded bytes", "decoded response"])
p("P06", "Responses may arrive in any pieces and reads are exactly as long as needed",
  "While a response frame is incomplete the decoder asks for a positive number of further bytes that never exceeds what is missing of "
  "that frame, so that reading exactly that many always completes the frame without touching the next one. However the frame is "
  "split, the decoder concludes exactly at its last byte with the same response as in one piece.",
  "inputs histories", "every response, every way to split its frame",
  "A hint that is too long blocks forever, one that is zero loops; tests only feed whole frames.",
  RS + "context.rs", [("missing-byte hints", RS + "context.rs")],
  state=[("decoder stage", "how far the frame is decoded", RS + "context.rs")], observe=["instruction returned by each feed"])
p("P07", "The response decoder is total on arbitrary bytes",
  "For arbitrary bytes the response decoder never panics: it reports a malformed frame (unknown response type, unknown error code, "
  "invalid text) as that error, and asks for more bytes only while the frame is incomplete. After an error it decodes the next frame "
  "as if it were the first.",
  "inputs histories", "every byte string, also after an earlier error",
  "Malformed frames are unbounded; tests contain a few valid ones.",
  RS + "context.rs " + RS + "mod.rs", [("decoder", RS + "context.rs")], observe=["result of each feed"])
p("P08", "Wire codes and names are one-to-one and stable",
  "Each command, key type, response type, dispatch error and parse error has one fixed wire code; converting a code to its meaning "
  "and back is the identity and every other code is rejected. Parsing the textual name of a command returns the one it "
  "names, and every other text is rejected.",
  "inputs", "all 256 codes of each table and every short text",
  "Tests assert a few entries; a swapped or missing entry elsewhere goes unseen.",
  "engine/src/command/command_id.rs engine/src/command/mod.rs engine/src/state/mod.rs " + RS + "mod.rs",
  [("code tables", "engine/src/command/command_id.rs"), ("key type table", "engine/src/state/mod.rs")],
  observe=["conversions"])
C = "engine/src/command/r#impl/"
p("P09", "Integer counters add and subtract exactly, wrapping around at the limits",
  "Incrementing or decrementing (by one, or by a given 64-bit amount) a key that holds an integer or does not exist (counted as 0) "
  "stores and returns the exact two's complement 64-bit sum or difference, for every stored value and amount. A key holding another "
  "type is refused as a different type and stays unchanged.",
  "inputs", "every stored integer and amount, present or missing keys, every key type argument",
  "Overflow and extreme operands need particular values; tests use small numbers.",
  "engine/src/command/impl/increment.rs engine/src/command/impl/decrement.rs engine/src/command/impl/increment_by.rs engine/src/command/impl/decrement_by.rs",
  [("increment", "engine/src/command/impl/increment.rs"), ("decrement", "engine/src/command/impl/decrement.rs"),
   ("increment by", "engine/src/command/impl/increment_by.rs"), ("decrement by", "engine/src/command/impl/decrement_by.rs")],
  observe=["response", "value read back"])
p("P10", "Float counters follow IEEE double arithmetic",
  "Incrementing or decrementing with the float key type (by one, or by a given double) a key that holds a float or does not exist "
  "(counted as 0.0) stores and returns the IEEE double precision sum or difference, including infinities and NaN. A key of another "
  "type is refused and stays unchanged.",
  "inputs", "every stored double and amount", "Rounding, infinities and NaN need particular values; tests use small numbers.",
  "engine/src/command/impl/increment.rs engine/src/command/impl/decrement.rs engine/src/command/impl/increment_by.rs engine/src/command/impl/decrement_by.rs",
  [("float arm of the counters", "engine/src/command/impl/increment.rs")], observe=["response", "value read back"])
p("P11", "What was set is what is read",
  "Setting a key to a value stores exactly that value, whatever type the key had before if the key type is given (else the existing type, else bytes), "
  "returns it, and a later get returns it until the key is changed; a get with another key type is refused as a different type. "
  "Arguments that do not form a value of that type are refused and change nothing.",
  "inputs histories", "every key, key type, previous state and argument list",
  "The combinations of previous type, requested type and argument shapes are far more than the tests try.",
  "engine/src/command/impl/set.rs engine/src/command/impl/get.rs engine/src/state/value.rs",
  [("set", "engine/src/command/impl/set.rs"), ("get", "engine/src/command/impl/get.rs")], observe=["responses"])
p("P12", "Append extends bytes, strings and lists at their end",
  "Appending to a key (missing keys start empty) keeps everything that was there in order, adds the given arguments in order at the "
  "end, and returns the whole result; the type is the given key type, else the existing one, else bytes. Types that cannot be appended "
  "to, or a key of a different type, are refused and stay unchanged.",
  "inputs histories", "every previous value, key type and list of valid arguments",
  "Tests append once to one value.", "engine/src/command/impl/append.rs",
  [("append", "engine/src/command/impl/append.rs")], observe=["response", "value read back"])
p("P13", "Delete and rename move or remove exactly one key",
  "Deleting an existing key removes it and returns its name; renaming an existing key to an unused name makes its unchanged value "
  "available under the new name only and returns the new name. Deleting or renaming a missing key, renaming onto an existing one, or naming no "
  "key is refused with the error for that reason and changes nothing.",
  "inputs histories", "every state of both keys, every value type",
  "Tests delete and rename one key each.", "engine/src/command/impl/delete.rs engine/src/command/impl/rename.rs",
  [("delete", "engine/src/command/impl/delete.rs"), ("rename", "engine/src/command/impl/rename.rs")], observe=["responses", "values read back"])
p("P14", "Queries tell the truth about the stored state",
  "Exists is true exactly if all named keys exist, Is exactly if all named keys exist with the given type, Type is the type of the "
  "stored value, Length the number of bytes, characters (of a string) or items of it, and Keys exactly the keys of a map; each refuses the requests "
  "that make no sense for it with the documented error.",
  "inputs", "every state of the named keys, every key type", "Tests try a few states per command.",
  "engine/src/command/impl/exists.rs engine/src/command/impl/is.rs engine/src/command/impl/type.rs engine/src/command/impl/length.rs engine/src/command/impl/keys.rs",
  [("queries", "engine/src/command/impl/")], observe=["responses"])
p("P15", "Echo and stats report what they are asked for",
  "Echo returns its arguments in order as a list. Stats returns exactly the counters of successful and failed commands and of started "
  "and ended sessions, each as a 64-bit big endian number equal to the events so far (those that never happened may be absent).",
  "inputs histories", "every argument list, every history of commands and sessions", "Tests echo one argument and look at one counter.",
  "engine/src/command/impl/echo.rs engine/src/command/impl/stats.rs", [("echo", "engine/src/command/impl/echo.rs"), ("stats", "engine/src/command/impl/stats.rs")],
  observe=["responses"])
p("P16", "Commands touch only the keys they name, and queries touch nothing",
  "After any command, every key other than the ones it writes holds exactly what it held before, and no key appears or disappears "
  "apart from those. Commands that only read (exists, get, is, keys, length, type, echo, stats) leave the whole store unchanged.",
  "inputs histories", "every command, every argument list, every other key", "Tests hold one key at a time.",
  "engine/src/state/mod.rs engine/src/command/impl/", [("state access", "engine/src/state/mod.rs")], observe=["any other key read back"])
p("P17", "A refused command leaves the store as it was",
  "Whenever a command answers with an error, whatever the reason, every key holds exactly what it held before.",
  "inputs histories", "every command, key type, argument list and previous state that is refused",
  "The refusal paths (short arguments, wrong types, missing keys) combine in many ways that tests skip.",
  "engine/src/command/impl/ engine/src/hop.rs", [("error paths of the commands", "engine/src/command/impl/")], observe=["values read back"])
p("P18", "Every request gets exactly one well-formed response frame",
  "Dispatching any request that can be parsed never panics; it appends exactly one complete response frame that holds a value to the "
  "output, or returns an error and leaves the output alone, for the caller to send as a frame. What was in the output before stays in place.",
  "inputs histories", "every parseable request in every state (internal __hop__: keys aside)",
  "A panic or a half-written frame for one unusual request breaks the connection; tests send usual ones.",
  "engine/src/hop.rs engine/src/command/mod.rs", [("dispatch", "engine/src/hop.rs")], observe=["output buffer"])
p("P19", "Concurrent counter updates are never lost",
  "When several clients change counters at the same time (increments and decrements, by one or by amounts, integer or float, on existing or new keys), the final value "
  "is the sum of all updates and the returned values are those of some order of the updates.",
  "schedules inputs", "every interleaving of the store accesses of concurrent commands, every amount",
  "Losing an update needs a particular interleaving that a test run will not hit.",
  "engine/src/command/impl/increment.rs engine/src/state/mod.rs", [("entry-locked updates", "engine/src/state/mod.rs")],
  observe=["responses", "value read back"])
p("P20", "Concurrent commands on a key act as in some order, without deadlock",
  "Set, get, append, delete, counters and queries (exists, is, type, length, keys) that run at the same time, whether they name the type of "
  "their key or the key keeps its type, return and leave what some sequential order of them would, and always finish. The same goes for a "
  "rename next to commands on its source and reads of its destination. (Writes to the destination of a rename, and set, append and length "
  "without a key type while the type of the key changes, are not atomic: known findings.)",
  "schedules inputs", "every interleaving of the store accesses of two or three concurrent commands",
  "Needs particular interleavings.", "engine/src/command/impl engine/src/state/mod.rs", [("locking of entries", "engine/src/state/mod.rs")],
  observe=["responses", "values read back"])
p("P21", "Command statistics count every command exactly once",
  "After any sequence of commands, sequential or concurrent, the counters of successful and failed commands equal the number of commands "
  "that answered with a value and with an error.",
  "histories schedules", "every sequence and interleaving of commands", "Tests look at single commands.",
  "engine/src/lib.rs lib/metrics/src/lib.rs", [("metric writer in dispatch", "engine/src/hop.rs")], observe=["stats command"])
p("P22", "Metrics are exact",
  "A counter reads as the number of its increments and a gauge as the last value written to it, whatever the sequence, the names and the number of "
  "writers, also concurrent ones; a metric never written reads as none. A snapshot has exactly the metrics and values at its time and "
  "keeps them. Writers and readers report whether the metrics they belong to still exist, and refuse to write and read nothing once they don't.",
  "histories schedules", "every sequence and interleaving of updates", "Tests make one update.",
  "lib/metrics/src/lib.rs", [("metrics map", "lib/metrics/src/lib.rs")], observe=["reader", "snapshot"])
p("P23", "Every session has an id of its own and is counted once",
  "Sessions started by any number of clients, also at the same time, get ids no session had before, are kept under their id with their token, and "
  "can be ended exactly once (removing reports whether there was such a session), which doesn't affect the others; the statistics count each "
  "start and each end of an existing session exactly once.",
  "histories schedules", "every sequence and interleaving of starts and ends", "Races on the id allocation need particular interleavings.",
  "engine/src/session/manager.rs", [("session manager", "engine/src/session/manager.rs")], observe=["session ids", "stats"])
p("P24", "Subscriptions exist exactly from subscribing to unsubscribing",
  "A session has a subscription to a key exactly if it subscribed to it and neither unsubscribed nor was removed since; other keys and sessions are "
  "unaffected. Subscribe makes one unless there is one (and then returns none), unsubscribe and remove report whether there were any, and "
  "a subscription that ended is gone; removing a session closes the channels of its subscriptions and no others. Concurrent calls act as in some order.",
  "histories schedules inputs", "every sequence and interleaving of operations on a few sessions and keys", "Tests cover one subscription at a time.",
  "engine/src/pubsub/manager.rs engine/src/pubsub/mod.rs", [("pubsub manager", "engine/src/pubsub/manager.rs")], observe=["get", "results", "closed channels"])
p("P25", "The timer measures exactly the time it ran",
  "The duration of a stopped timer is the difference of the readings of the monotonic clock at its start and its stop, to the nanosecond, and stays that; "
  "it is none before the timer is stopped. A timer starts unless it was started since the last reset, stops exactly if it runs, and is as new after a reset.",
  "inputs histories", "every clock reading and every order of operations", "Carry between nanoseconds and seconds needs particular clock readings.",
  "lib/timer/src/lib.rs", [("timer", "lib/timer/src/lib.rs")], observe=["duration", "results"])
p("P26", "The in-memory client returns what the commands return, typed",
  "Each request of the in-memory client (counters, get, set, append, delete, exists, is, keys, length, rename, type, echo, stats) does to its own "
  "database exactly what the command it stands for does with the same key, key type and arguments, and returns that command's value in the type the "
  "request promises. A command that is refused, a request that cannot be built (an argument too long, too many or none) and a key type the command "
  "does not support are returned as errors that say so, never as panics, and leave the database as it was. Two clients share nothing.",
  "inputs histories", "every typed call with every argument and state", "Tests call a few of them once.",
  "client/src/backend/memory.rs client/src/request/", [("memory backend", "client/src/backend/memory.rs")], observe=["results of calls", "database state"])
p("P27", "The server answers every request of a connection, in order",
  "However the bytes of a connection arrive (in pieces, several requests at once), the server sends, in order, exactly one response frame per complete "
  "request, the one the command gives on the database all connections share, as soon as the request is complete; an incomplete request is kept until the "
  "rest arrives. What is no request is answered with its parse error, what was received along with it is dropped, and the connection goes on with what "
  "is sent next. A connection that ends or fails at any point, or could not be accepted, is closed and affects no other connection, and new ones are "
  "served. The server listens on HOST and PORT if they are an address and a port, and on 0.0.0.0 and 46733 otherwise; that it cannot is returned as an error.",
  "inputs histories faults", "every sequence of requests, every split into reads, every point of failure", "Splits are decided by the network.",
  "server/src/main.rs", [("connection loop", "server/src/main.rs")], observe=["bytes sent", "connections served"])
p("P28", "The server client pairs each call with its own response",
  "Each call of the networked client writes exactly the request it stands for (command, key type, key, arguments) and returns the value of the response the "
  "server sent to it, however the response bytes arrive, also when several calls are made at once or one is given up half way: no call ever returns the "
  "response of another. An error the server sends, a response of another type than the call's, bytes that are no response, and a connection "
  "that ends or fails at any point are returned as errors by the backend's methods, never as values or panics.",
  "inputs histories schedules faults", "every request, every response, every split into reads, every interleaving of calls", "Splits and interleavings are decided by the network.",
  "client/src/backend/server.rs client/src/request/", [("server backend", "client/src/backend/server.rs")], observe=["bytes sent", "results of calls"])
p("P29", "The command line is parsed into the request it says",
  "A line of a command name, an optional :type and space-separated arguments is parsed into exactly that command, key type and those arguments, typed "
  "as the key type says (an amount without a type is an integer; a value of integers, floats and booleans is the number or boolean written); everything else is rejected with the "
  "reason (no command, unknown command or type, argument not of the type, no key, incomplete pair of a map, request that cannot be built), never with a panic.",
  "inputs", "every short line", "Tests cover a few lines.", "cli/lib/src/parse.rs", [("line parser", "cli/lib/src/parse.rs")], observe=["parsed command"])
p("P30", "The command line runs what was parsed and prints the result",
  "Processing a line performs exactly the command it names on the database and prints its result: text and bytes as text (what is not UTF-8 replaced), "
  "numbers and booleans as usual, lists, sets and maps one item per line (key=value for maps), type names, and the four numbers of stats. "
  "A command that is refused prints a sentence saying why and changes nothing; a line that is no command is returned as an error. No line panics.",
  "inputs histories", "every short line in every state", "Tests cover a few lines.", "cli/lib/src/process.rs cli/lib/src/print.rs",
  [("processing", "cli/lib/src/process.rs")], observe=["printed text", "database state"])
p("P31", "The command line program answers every line until its input ends",
  "The program shows a prompt, runs the next line (without the blanks at its end) on one database it keeps throughout, shows the line's output or, if it is "
  "no command, what is wrong with it, each on lines of their own, and goes on with the next, however its input arrives: what was entered is answered before "
  "more is waited for. It ends without an error exactly when its input ends (a last line needs no end), and with the error if reading or writing fails.",
  "inputs histories", "every sequence of lines, every way they arrive", "Nothing tests the program; its behaviour depends on sequences of lines and how they arrive.",
  "cli/bin/src/main.rs", [("read, run and print loop", "cli/bin/src/main.rs")], observe=["standard output", "result of main"])
p("P32", "The store maps each key to its last value, and values know their type",
  "For users of the engine as a library: after any inserts, removals, insertions of missing keys and writes through references, a key is there, with its last "
  "value and that value's type, exactly if it was put there and not removed since; inserting and removing return what was there, other keys are unaffected and "
  "clones share it all. A value is of exactly the type it was made with: only the accessors of that type give its content, and what is written through them is what it is then.",
  "inputs histories", "every sequence of operations, keys and values", "Tests check single operations on fixed keys.",
  "engine/src/state/mod.rs engine/src/state/value.rs", [("store", "engine/src/state/mod.rs"), ("values", "engine/src/state/value.rs")],
  observe=["results of the store's and the values' methods"])
p("P33", "Engines are configured as built, shared by their clones and separate otherwise",
  "An engine has the settings its builder was given last, and the defaults (pubsub enabled, any number of sessions) for the others; builders that are copied "
  "are independent. Clones of an engine have the same store, statistics and subscriptions; engines made separately share none of these.",
  "inputs histories", "every order of settings, every sequence of commands on several engines", "Tests build one fixed configuration.",
  "engine/src/hop.rs", [("builder and configuration", "engine/src/hop.rs")], observe=["configuration accessors", "stores and statistics"])

NA = {}
for q in P:
    if q["id"] not in PROPERTIES:
        NA[q["id"]] = "Not claimed (yet): the harnesses for it are not built."

LEVEL_NOTE = ("Every path of the listed harnesses through the compiled code is executed symbolically and each assertion is decided for "
              "all values of its symbolic inputs within the stated bounds (Z3, or term rewriting where both sides are the same term). "
              "Bounds: %s. Outside: %s. Trusts rustc's IR, hopsym, Z3 and the models of dashmap and of tokio's network; sampled paths and all counterexamples "
              "are re-run natively.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    checks = []
    for q in P:
        if q["id"] in PROPERTIES:
            r = PROPERTIES[q["id"]]
            checks.append({
                "property": q["id"],
                "quick_cmd": "python3 check.py %s" % q["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                "technique": "symbolic execution of rustc's LLVM IR with Z3 (bounded)",
                "level": "model_checking",
                "level_note": LEVEL_NOTE % (r["bounds"], r["outside"]),
            })
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "hooks": {"guard": "none", "enable": "no hooks are needed: the harnesses use public items only", "source_commits": []},
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": "check.py builds hopsym and the LLVM IR of the harness crates with the crates of /repo's working tree, runs the "
                 "harnesses of registry.py, validates sampled paths natively and writes the evidence.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
