#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
DB = "crates/sourisdb/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
V, I, IM, B = DB+"values.rs", DB+"types/integer.rs", DB+"types/imaginary.rs", DB+"types/binary.rs"
ST, CU, HU, BI = DB+"store.rs", DB+"utilities/cursor.rs", DB+"utilities/huffman.rs", DB+"utilities/bits.rs"
BH, BL, BR = DB+"types/binary/huffman.rs", DB+"types/binary/lz.rs", DB+"types/binary/rle.rs"
DS, DD, DV, DM, DE = ["crates/sourisd/src/"+x for x in ("v1_routes/state.rs","v1_routes/db.rs","v1_routes/value.rs","main.rs","error.rs")]
AC, SC, CL, AX = DB+"client/async_client.rs", DB+"client/sync_client.rs", DB+"client.rs", DB+"axum.rs"
MM, MV = "crates/mouse/src/main.rs", "crates/mouse/src/value_utils.rs"

prop("C01", "Every tag written is read back as the same kind, and unknown tags are errors",
 "Each kind of value, integer sign state, complex-number form and binary compression method is written with a tag that no other one uses, and reading that tag selects exactly the same kind, sign, form or method again. The tag written in front of a value is always the tag of that value's own kind. Any tag value that is not assigned is rejected with an error when read.",
 ["inputs"], "all 16 value kinds, 3 sign states, 10 complex forms, 4 compression methods, and all 256 possible tag bytes",
 "Tests write and read values of six kinds; nothing reads the unassigned tags or compares the two tables.",
 [V, I, IM, B], [("ValueTy tag tables", V+": From<ValueTy> for u8, TryFrom<u8> for ValueTy, Value::as_ty"), ("SignedState tables", I), ("complex form table", IM+": Imaginary::ser/deser"), ("compression tags", B)])
prop("C02", "Writer and reader of every non-container value agree field by field",
 "For every non-container kind of value (character, string, binary, boolean, integer, complex, timestamp, JSON, null, both floats, timezone, both IP address kinds), the bytes written are read back as the same fields, in the same order, with the same width, byte order and sign information, and the reader consumes exactly what the writer wrote. This holds with and without a huffman table for text.",
 ["inputs"], "every value of every non-container kind, with and without a huffman tree",
 "Unit tests round-trip samples of six kinds without a huffman table; timestamps, addresses, timezones, JSON and cartesian numbers are never serialised by a test.",
 [V, I, IM, B, HU], [("Value::ser", V), ("Value::deser", V), ("Integer::ser/deser", I), ("Imaginary::ser/deser", IM)])
prop("C03", "Arrays and maps of every size come back with every element and entry",
 "An array or map of any length - including empty ones, ones too long for the inline length, and ones nested in each other - is written as its length followed by exactly its elements (in order) or its entries (each key immediately followed by its own value), and reading it back yields exactly those elements or entries. Reading a container stops exactly after its last element, so that whatever follows it is read from the right place.",
 ["inputs"], "every length and nesting of arrays and maps",
 "No test serialises a map or an array; the documentation example has its assertions commented out.",
 [V], [("container headers", V+": Value::ser, Value::deser_array_or_map_len"), ("stack machine of the reader", V+": Value::deser")])
prop("C04", "A serialised store names its own layout and opens again",
 "A serialised store starts with the fixed magic bytes and one byte that says whether a huffman table precedes the data and which compression method was used; opening it checks the magic, uses exactly the method the byte names, reads a huffman table if and only if one was written, and hands that table to the reader of the contents. Data produced by one compression method is never labelled with another method's tag or given to another method's decompressor.",
 ["inputs"], "every store content and so every combination of huffman table and compression method",
 "No test serialises or opens a whole store.",
 [ST, B, BH, BL, BR], [("Store::ser/deser", ST), ("candidate list and dispatch", B+": BinaryData::ser/deser")])
prop("C05", "Huffman encoding and decoding walk the tree in the same directions",
 "The bit recorded for going to one child of a huffman tree while encoding is the bit that takes the decoder to that same child, for every tree including one with a single symbol; the serialised form of a tree is read back with the same children on the same sides and the same symbols at the leaves. Bits that do not end on a symbol, and symbols the tree does not have, are reported as errors.",
 ["inputs"], "every huffman tree and every bit sequence",
 "Tests use trees of a few symbols; single-symbol trees and truncated bit sequences are not decoded.",
 [HU, BI], [("Huffman::add_node_to_table / decode", HU), ("Node::ser / Node::deser", HU)])
prop("C06", "Decoding bytes never panics",
 "Reading a store, a value, a huffman table, a bit string or compressed binary from any bytes whatsoever returns a value or an error and never panics (no out-of-range indexing, arithmetic overflow, failed unwrap or 'unreachable' code reached).",
 ["inputs"], "every byte string given to a decoding entry point",
 "Tests only decode bytes that the encoder produced.",
 [V, I, IM, B, BH, BL, BR, ST, CU, HU, BI], [("checked reads", CU), ("decoders", V+", "+I+", "+HU+", "+BI)])
prop("C07", "A length found in the input never sizes memory before the input backs it",
 "A length or count decoded from input bytes is never used to reserve or fill memory unless it has first been checked against the bytes actually available; otherwise memory use grows only with data actually read.",
 ["inputs"], "every byte string given to a decoding entry point",
 "Tests never decode a forged length.",
 [V, B, BH, BL, BR, BI], [("reading element by element", V+": Value::deser"), ("un_lz / un_huffman / un_rle", BL+", "+BH+", "+BR)])
prop("C08", "Nested input cannot exhaust the stack of the decoder",
 "Decoding untrusted bytes never recurses once per level of nesting without a fixed bound: either nesting is handled with an explicit heap stack, or recursion is cut off with an error at a fixed depth.",
 ["inputs"], "every nesting depth of values and huffman trees",
 "Tests nest at most two levels.",
 [V, HU], [("explicit stack", V+": Value::deser"), ("depth limit", HU+": Node::deser")])
prop("C09", "A failed read or parse always surfaces as an error",
 "When any part of the bytes being decoded is missing, malformed or out of range, the decoding operation as a whole returns an error; it never substitutes a default, skips the part, or returns a partial result as success.",
 ["inputs"], "every byte string and every point at which decoding can fail",
 "Tests only decode well-formed bytes.",
 [V, I, IM, B, BH, BL, BR, ST, HU, BI], [("error propagation in decoders", V+", "+ST+", "+B)])
prop("C10", "Stored integers convert to a machine integer exactly or not at all",
 "Converting a stored integer to any of the twelve machine integer types succeeds only if that type can represent the stored value, and otherwise returns an error: too many bytes for the type, a negative number for an unsigned type, and a number outside a signed type's range are all refused. It never wraps or truncates.",
 ["inputs"], "all stored integers and all twelve target types",
 "Tests convert back to the type the integer came from, for which every value fits.",
 [I], [("TryFrom<Integer> for each integer type", I)])
prop("C11", "Floats convert to stored integers exactly or not at all",
 "Converting a single- or double-precision float to a stored integer succeeds for every whole number within range, giving exactly that number, and returns an error for NaN, infinities, numbers with a fractional part (positive or negative; a distance from a whole number of up to the documented tolerance of one machine epsilon may count as none) and numbers too large in magnitude; both precisions follow the same rules.",
 ["inputs"], "all f32 and f64 values",
 "Tests do not convert floats to integers beyond one documentation example.",
 [I], [("TryFrom<f64>/TryFrom<f32> for Integer", I)])
prop("C12", "Equal values hash equally",
 "Two values (or integers, complex numbers, or bit strings) that compare equal always produce the same hash: positive and negative zero, integers of different declared signedness, and maps holding the same entries in a different internal order included.",
 ["inputs"], "all pairs of equal values",
 "Tests hash only bit strings.",
 [V, I, IM, BI], [("Hash and PartialEq impls", V+", "+I+", "+IM+", "+BI)])
prop("C13", "Values exported to tagged JSON import back as the same kind and content",
 "For the kinds that get a type tag in JSON (complex numbers in both forms, timestamps, timezones, binary data, and both IP address kinds), importing what was exported with tags gives back the same kind with the same parts in the same roles. The type tag exported is that of the value's own kind and is present exactly when tags were asked for.",
 ["inputs"], "every value of a tagged kind",
 "No test converts a value to JSON and back.",
 [V, B], [("Value::convert_to_json / convert_from_json, BinaryData::to_json", V+", "+B)])
prop("C14", "The read cursor stays within its data and failed reads do not move it",
 "The position of a cursor is always between zero and the length of its data; a read, peek or move that would leave that range reports failure and leaves the position unchanged, and a successful one advances by exactly the amount read. Seeking places the cursor relative to the start, the current position or the end as asked, or reports an error without moving.",
 ["inputs", "histories"], "every sequence of cursor operations with any arguments",
 "One test makes a dozen in-range calls and one failing read; seeking is not tested.",
 [CU], [("Cursor methods", CU)], [{"name": "pos", "meaning": "index of the next element, at most the length of the data", "where": CU}])
prop("C15", "Existing data is only replaced when overwriting was asked for",
 "On the daemon, creating a database that already exists leaves its contents untouched unless overwriting was requested, in which case it is emptied; uploading contents replaces the whole database when overwriting was requested and otherwise adds the uploaded keys while leaving all other keys in place; writing a key that exists changes it only if key overwriting was requested. A request to add a key to an absent database creates it only if creation was requested, and operations on one database never change another.",
 ["inputs", "histories"], "every combination of existing/absent database and key and of the request's flags",
 "The daemon has no tests.",
 [DS, DD, DV], [("SourisState methods", DS)], [{"name": "dbs", "meaning": "the in-memory databases by name", "where": DS}])
prop("C16", "The daemon reports what actually happened",
 "The outcome reported for each request matches the state change: created is reported exactly when the database did not exist before, existing when it did; each key-insertion outcome names the case that occurred; not-found is reported exactly when the database or key was absent. Clearing leaves an existing but empty database, removal leaves no database, key removal removes that key only.",
 ["inputs", "histories"], "every combination of existing/absent database and key and of the request's flags",
 "The daemon has no tests.",
 [DS, DD, DV], [("SourisState methods and route handlers", DS+", "+DD+", "+DV)])
prop("C17", "A read never serves a database older than an acknowledged change",
 "Once a request that changes a database has been acknowledged, no later download of that database returns contents from before the change, however requests interleave: every change discards the cached serialised copy after taking the lock on the databases, and a serialised copy is only cached, under the name it was read from, while that lock is still held.",
 ["schedules", "histories"], "every interleaving of concurrent requests",
 "The daemon has no tests, and the race needs a particular interleaving.",
 [DS], [("db_cache invalidation under the dbs lock", DS)], [{"name": "db_cache", "meaning": "serialised databases by name", "where": DS}])
prop("C18", "Only safe database names ever enter the daemon",
 "No request can create a database, by whichever route, under a name that is reserved (`meta`), contains non-ASCII characters, or could escape the data directory when used in a file name (contains a path separator); such a request is refused with the invalid-name error and changes nothing, while names made only of ASCII letters, digits, `-` and `_` other than the reserved one are never refused. Database files are only ever written or removed inside the daemon's data directory.",
 ["inputs"], "every name in every request that can create a database",
 "The daemon has no tests.",
 [DS, DD, DV], [("name validation in each creating method", DS)])
prop("C19", "Each request acts on the databases in one critical section",
 "Each request handler that reads or changes the databases takes the databases lock exactly once, does all of its reading and changing of them while holding it, never re-locks while holding it, and always releases it before finishing.",
 ["schedules"], "every path through every request handler and every interleaving",
 "The daemon has no tests, and lost updates or deadlocks need particular interleavings.",
 [DS], [("dbs mutex", DS)], [{"name": "dbs", "meaning": "mutex-protected map of databases", "where": DS}])
prop("C20", "A crash while saving never destroys the previously saved file",
 "Database and index files are never modified in place: new contents are written in full to a different file, flushed to disk, and only then renamed over the old file, with any failure reported. At every crash point the file under the final name holds either the complete old or the complete new contents.",
 ["crash_points", "fault_sequences"], "every crash point and I/O failure during a save",
 "The daemon has no tests and crashes are not simulated.",
 [DS], [("write_to_file", DS)])
prop("C21", "What a save writes is what the next start loads",
 "Every database that was saved is listed in the index under the key that start-up looks up, and start-up opens each listed database from the same directory, file name pattern and format that saving used and registers it under the same name; a database whose file could not be written is not silently treated as saved, and one that cannot be read is not silently dropped.",
 ["histories", "fault_sequences"], "every set of databases and every save/restart history",
 "The daemon has no tests.",
 [DS], [("SourisState::save / SourisState::new", DS)])
prop("C22", "Every change acknowledged before a graceful stop is saved",
 "On a graceful stop the daemon saves its state after the last in-flight request has been answered, so that no acknowledged change is lost; periodic saving continues until then and a failed save does not end it.",
 ["schedules", "histories"], "every interleaving of requests with the stop signal and the saver task",
 "The daemon has no tests, and the loss needs a request in flight during shutdown.",
 [DM], [("main / shutdown_signal / saver task", DM)])
prop("C23", "Saving and file removal cannot interleave with changes to the databases",
 "Files are written from, and removed for, the databases only while the databases lock is held, so that a removed database's file is not resurrected or a re-created database's file removed by a concurrent request; removing a database also removes its file, and an absent file is not an error while any other removal failure is reported.",
 ["schedules", "fault_sequences"], "every interleaving of removal, re-creation and saving",
 "The daemon has no tests, and the race needs a particular interleaving.",
 [DS], [("SourisState::remove_db / save", DS)])
prop("C24", "Both clients speak exactly the daemon's protocol",
 "Every operation of the synchronous and asynchronous clients sends the method and path of an existing daemon route, with exactly the query parameters that route requires, each carrying the argument it is named for, and with a body exactly where the route expects one in the format it expects.",
 ["inputs"], "every client operation with any arguments",
 "The clients are never run against a daemon by a test; documentation examples only compile.",
 [AC, SC, CL, DM, DD, DV], [("request construction in each client method", AC+", "+SC), ("router table and query structs", DM+", "+DD+", "+DV)])
prop("C25", "Error and success statuses mean the same to daemon and clients",
 "The daemon answers a missing database with 'gone', an internal I/O failure with a server error, and every fault in the request (bad name, missing key, malformed data) with a client error; no error is ever answered with a success status. Clients report a missing database as absent only on that status, report created/existing from the statuses the daemon uses for them, and turn every other failure status into an error.",
 ["inputs"], "every error kind and every status",
 "No test looks at a status.",
 [DE, AX, AC, SC, CL], [("IntoResponse for SourisError", DE), ("SourisRejection::status", AX), ("status handling in the clients", AC+", "+SC)])
prop("C26", "The command-line tool builds the kind of value the user picked",
 "In the interactive value prompt every kind of value is offered, and choosing a kind always produces a value of exactly that kind, with the parts entered used in the roles they were asked for.",
 ["inputs"], "every kind that can be picked and every answer to the prompts",
 "The command-line tool has no tests.",
 [MV], [("get_value_from_stdin", MV)])
prop("C27", "Declining a confirmation changes nothing",
 "When the user of the command-line tool answers no to a confirmation before a change (clearing a database, adding, updating or removing an entry), no request that modifies data is sent to the daemon; answering yes sends exactly the announced change for the chosen database and key.",
 ["inputs", "histories"], "every command and every sequence of answers to prompts",
 "The command-line tool has no tests.",
 [MM], [("fun_main", MM)])
prop("C28", "Every advertised feature combination builds",
 "The library type-checks with every combination of its cargo features, including none (no_std), so that a user can enable any subset of the standard-library, JSON/serde, web-framework and client features.",
 ["configurations"], "all subsets of the six cargo features",
 "Tests are only built with all features on.",
 [DB+"lib.rs", AC, SC, CL], [("cfg attributes and Cargo features", DB+"lib.rs")])
prop("C29", "Compressed binary is never larger than storing it uncompressed",
 "Serialising binary data considers storing it unchanged as well as every compression method and keeps a shortest result, so that no binary value or store grows by being compressed.",
 ["inputs"], "every byte string",
 "Tests check that compressed data decompresses, not which form is chosen.",
 [B], [("BinaryData::ser", B)])
prop("C30", "Bit strings keep exactly the bits that were pushed",
 "A bit string always holds exactly as many storage bytes as its number of bits needs; the n-th bit pushed is stored at, displayed from and popped from the same place; and writing one out and reading it back keeps the count and consumes exactly the storage bytes that count needs, for every count.",
 ["inputs", "histories"], "every sequence of pushes and pops and every length, including lengths beyond 16 million bits",
 "Tests push and pop a few short sequences.",
 [BI], [("Bits::push / pop / ser / deser / Display", BI)], [{"name": "valid_bits", "meaning": "number of bits held", "where": BI}, {"name": "backing", "meaning": "storage bytes", "where": BI}])
prop("C31", "Decompressing what any compressor produced gives the original bytes",
 "For every byte string, run-length, Lempel-Ziv and huffman compression followed by the matching decompression yields the original byte string.",
 ["inputs"], "every byte string",
 "Property tests sample up to 256 random bytes.",
 [BH, BL, BR], [("rle/un_rle, lz/un_lz, huffman/un_huffman", BR+", "+BL+", "+BH)])
prop("C32", "Conversion between polar and cartesian form preserves the number",
 "Converting a complex number between polar and cartesian form yields the same number up to floating-point rounding, with the argument within [-pi, pi] for every input including zero.",
 ["inputs"], "every complex number",
 "Three documentation examples.",
 [IM], [("polar_from_cartesian, to_cartesian_form", IM)])
prop("C33", "Integers survive their own encoding",
 "For every machine integer of every type, storing it, writing it out, reading it back and converting it to that type yields the same number, equal (and hashing equal) to the stored integer it came from.",
 ["inputs"], "every integer of twelve types",
 "Property tests sample i128, u32, i32 and u8.",
 [I], [("From impls, Integer::ser/deser, PartialEq", I)])
prop("C34", "The command-line tool handles all of what was chosen and reports failures",
 "Through the command-line tool, exporting writes the JSON of the whole chosen database (with type annotations exactly when asked) to the file named and touches no file when there is nothing to write, importing stores what the whole content of the file named describes, and showing prints the chosen database. Whenever a request, a prompt, a file operation or reading the JSON fails, the tool ends with a failure status instead of success.",
 ["inputs", "faults"], "every command, every choice and every failing step",
 "The command-line tool has no tests.",
 [MM], [("fun_main, pick_db, main", MM)])
prop("C35", "Integers are the same number as text and through serde",
 "An integer's text is the decimal numeral of its number; reading the numeral of any number from -2^127 up to 2^128 - 1 gives that number, and a text that is not such a numeral is refused. Serialising an integer with serde passes on its number, and deserialising a number of any machine type gives the integer of that number.",
 ["inputs"], "every integer, and every text",
 "Documentation examples and a property test of one type.",
 [I], [("Display, FromStr, Serialize, Deserialize for Integer", I)])
prop("C36", "Typed access to a value agrees with what it holds",
 "Every typed accessor, mutable accessor, extractor, test and conversion of a value succeeds exactly when the value is of the kind asked for and then gives the very content it holds; a refused conversion names the kind found and the kind expected. A machine integer turned into a value comes back as the same number to every integer type that can hold it, and only a map becomes a store.",
 ["inputs"], "every accessor of every kind on values of every kind",
 "The tests use a few accessors on values of the right kind.",
 [V, "crates/sourisdb/src/store.rs"], [("as_ty! accessors, TryFrom<Value>, From integers", V), ("TryFrom<Value> for Store", "crates/sourisdb/src/store.rs")])
prop("C37", "Arithmetic on stored integers is exact or refused",
 "Adding, subtracting, multiplying or dividing two stored integers gives the exact result (truncated towards zero for division), operands in their order, whenever both operands and the result fit the arithmetic used: unsigned 128-bit when both operands are unsigned, signed 128-bit otherwise. When they do not fit it panics (with overflow checks on) instead of giving another number.",
 ["inputs"], "every pair of stored integers of every sign state",
 "Tests add, subtract, multiply and divide small numbers of a few types.",
 [I], [("integer_trait_impl! (Add, Sub, Mul, Div for Integer)", I)])
prop("C38", "Plain JSON documents come back as they were",
 "A JSON document without type annotations (null, booleans, integers of 64 bits, floats, text, arrays and objects in any nesting) that is imported as a value or as a store and exported again, with or without annotations, is the same document: same structure, same keys, same text, same numbers, integers staying integers and floats floats. Data stored through the store's serde entry points is stored as its JSON form and read back from its JSON form without annotations.",
 ["inputs"], "every JSON document",
 "The tests import and export two small documents.",
 [V, ST], [("Value::convert_from_json, convert_to_json", V), ("Store::from_json, to_json, to_bytes, from_bytes", ST), ("Integer::to_json, from_json", I)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
