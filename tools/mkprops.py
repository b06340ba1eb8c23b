#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO1 = ["decode.go", "decoder.go", "encode.go", "encoder.go", "buffer.go"]
GO2 = ["v2/decode.go", "v2/decoder.go", "v2/encode.go", "v2/encoder.go", "v2/buffer.go"]
RS, TS = ["decoder.rs", "encoder.rs", "kind.rs"], ["decoder.ts", "encoder.ts", "kind.ts"]
C = ["c_bindings/lib.rs", "c_bindings/decoder.rs", "c_bindings/encoder.rs", "c_bindings/types.rs", "polyglot.h"]
DEC = ["decode.go", "decoder.go", "v2/decode.go", "v2/decoder.go", "decoder.rs", "decoder.ts", "c_bindings/decoder.rs", "c_bindings/lib.rs"]
ENC = ["encode.go", "encoder.go", "buffer.go", "v2/encode.go", "v2/encoder.go", "v2/buffer.go", "encoder.rs", "encoder.ts", "c_bindings/encoder.rs", "c_bindings/lib.rs"]
GENGO = ["generator/golang/templates/", "generator/golang/generator.go", "v2/generator/golang/templates/", "v2/generator/golang/generator.go"]
def m(n, w): return {"name": n, "where": w}
def st(n, w): return {"name": n, "meaning": w}
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Encoded values decode to the same values in the same order",
  "In every implementation (Go, Go v2, Rust, C, TypeScript), decoding what the encoder produced, with the calls that match the encoding calls, yields exactly the values that were encoded, in order, for every sequence of values of every kind. "
  "It leaves no byte over, and it does not depend on the encoder's initial storage, on how often it was reset and reused, or on attempts to decode as other kinds in between.",
  ["inputs", "histories"], "Every finite sequence of (kind, value) pairs over all kinds, full integer and float ranges, strings and byte strings of any content and length, and every kind of encoder storage.",
  "The tests encode a few fixed values per kind, mostly one value per buffer; they cannot range over values (varint and sign boundaries, non-ASCII text, NaN), mixed sequences, lengths or reuse.",
  sorted(set(DEC + ENC)), [m("encode* / decode* pairs", "encode.go, decode.go, v2/encode.go, v2/decode.go"), m("Encoder/Decoder traits", "encoder.rs, decoder.rs"), m("Encoder/Decoder classes", "encoder.ts, decoder.ts")],
  [st("out", "bytes the encoder has produced since created or reset"), st("pos", "how much of its input the decoder has consumed")], ["public encoder and decoder calls"])
p("C02", "All implementations write the one defined byte encoding",
  "Every encoding call appends exactly the bytes the wire format defines for that value (kind tag, shortest variable-length integers, zigzag for signed ones, big-endian floats, length-prefixed text and bytes), and changes nothing already written. "
  "Therefore the same values give the same bytes from every implementation.",
  ["inputs", "histories"], "Every value of every kind, after every history of earlier encoding calls, in all five implementations.",
  "The integration data checks a dozen literals against one implementation at a time; agreement for all values (every varint length, lengths beyond 2 MiB or 256 MiB, negative extremes) is a statement over all inputs.",
  ENC, [m("varint and zigzag encoding", "encode.go, v2/encode.go, encoder.rs, encoder.ts"), m("kind tags", "kind.rs, kind.ts, encode.go, v2/encode.go")],
  [st("out", "bytes produced")], ["bytes returned by the encoder after each call"])
p("C03", "Decoding any bytes is exact and never crashes",
  "For every byte string and every decoding call, a decoder returns the value the wire format defines for the bytes at its position and moves past exactly those bytes, or, if there is no such value, reports an error. "
  "It never panics, throws a foreign exception, reads outside its input, writes to it, loops forever or returns a value for a malformed or truncated encoding.",
  ["inputs"], "Every byte string (damaged, truncated, hostile or random) at every position, and every decoding call, in all five implementations.",
  "The tests decode well-formed values plus one or two truncations; malformed inputs form an unbounded space and each check for room or tag is only exercised by a particular one.",
  DEC, [m("bounds and tag checks", "decode.go, v2/decode.go, decoder.rs, decoder.ts, c_bindings/decoder.rs")],
  [st("inp, pos", "input and position of the decoder")], ["result of each decoding call"])
p("C04", "A failed decode consumes nothing",
  "When a decoding call fails, for whatever reason and at whatever depth of the value, the decoder is left exactly as before the call: the same bytes remain, and any later call, of the same or another kind, behaves as if the failed one had never been made.",
  ["inputs", "histories"], "Every byte string, every position, every failing call, and every continuation after it.",
  "The tests check that a mismatched kind can be retried for a few values; failures that occur after part of a compound value has been read (tag right, length or payload wrong) need specific inputs and are not sampled.",
  DEC, [m("position restored on error", "decode.go, v2/decode.go, decoder.rs, decoder.ts, c_bindings/decoder.rs")],
  [st("pos", "position of the decoder")], ["remaining length and results of later decoding calls"])
p("C05", "A wrong-kind decode reports the error of the requested kind",
  "Asking for a value of one kind where the input holds a value of another kind (or a container of other element kinds, or nothing valid) always fails, and the error names the kind that was asked for.",
  ["inputs", "programs"], "All pairs of requested and present kinds, including element kinds of lists and maps, at every position of every input.",
  "The tests try one or two wrong kinds; the full matrix of requested kind, present kind and element kinds, in each implementation, is never covered.",
  DEC, [m("one error per kind", "decode.go, v2/decode.go, decoder.rs, decoder.ts")], None, ["error returned by decoding calls"])
p("C06", "Variable-length integers are accepted exactly when in range",
  "A variable-length integer is accepted if and only if it ends within the input, within the number of bytes its width can need, and its value fits the width; the value returned is then the one encoded, whatever its padding. "
  "Truncated, overlong and out-of-range encodings are errors and never yield a wrapped or partial value.",
  ["inputs"], "Every byte sequence in every integer position (values, lengths, container sizes) for 16, 32 and 64 bits, signed and unsigned.",
  "Tests use a handful of values and one overflow case; unrolled fast paths and per-byte limits each have their own boundary.",
  DEC, [m("varint decoding", "decode.go, v2/decode.go, decoder.rs, decoder.ts")], None, ["result of integer, size and length decoding"])
p("C07", "Encoding never depends on or overruns its storage",
  "Whatever storage an encoder starts from (none, a size hint, a slice of a larger array, a full buffer) and whenever that storage has to grow, the bytes produced are those of an encoder with unlimited room; nothing already written is lost or altered, also where it was handed out before or is itself the value being written, and no byte outside the encoder's own storage is touched, neither around it nor in or behind the values it is given.",
  ["inputs", "configurations", "histories"], "Every initial storage and every sequence of values, with growth falling on every byte position of every kind.",
  "Growth happens at exact size boundaries per kind; the tests encode into one default buffer that rarely grows, and Go v2 writes several bytes at computed offsets without re-checking.",
  ENC, [m("reserve then write", "buffer.go, encode.go, v2/buffer.go, v2/encode.go, encoder.ts")], [st("out", "bytes produced"), st("capacity", "room left")], ["bytes after each call; memory around a supplied buffer"])
p("C08", "Byte buffers behave as a growable byte string",
  "A Go buffer always reads as exactly the bytes written to it in order since it was created or reset; growing, resetting, moving the write position, and creating it from an existing slice have their documented effect on length, capacity and content and on nothing else.",
  ["histories"], "Every history of write, grow, move, reset and encode calls from every way of creating a buffer.",
  "The tests make single calls on fresh buffers; the state (offset, length, capacity, aliasing) is built up by histories.",
  ["buffer.go", "v2/buffer.go"], [m("Buffer", "buffer.go, v2/buffer.go")], [st("content", "bytes written"), st("capacity", "room")], ["Bytes, Len, Cap and Write results"])
p("C09", "Decoded values stay what they were",
  "A value returned by a decoder keeps its content for as long as the caller holds it: overwriting or reusing the input, decoding further values, and encoding others do not change it, unless the caller passed that same destination in again. The value is the caller's own: writing over it changes no other value, and neither the input nor what the decoder returns later. "
  "A destination supplied by the caller ends up holding exactly the decoded bytes, whatever its previous length, capacity or content.",
  ["histories", "inputs"], "Every sequence of decoding calls, destinations and later writes to the input memory.",
  "Aliasing shows only when input memory is reused after decoding or when destinations of particular lengths and capacities are passed; the tests compare values immediately.",
  ["decode.go", "decoder.go", "v2/decode.go", "v2/decoder.go", "decoder.ts", "decoder.rs"], [m("copying of strings and bytes", "decode.go, v2/decode.go, decoder.ts")], None, ["values held across later operations"])
p("C10", "Pooled buffers and decoders are exclusive and come out empty",
  "A buffer or decoder taken from a pool is held by exactly one taker until it is returned, and it comes out in its initial state with nothing of its previous use visible. "
  "This holds for every interleaving of concurrent takers, including after unusual use such as buffers that have grown or that did not come from the pool, or decoders abandoned in the middle of their input.",
  ["schedules", "histories"], "Every interleaving of take, use and return by any number of goroutines, for the buffer pools of Go v2 and the decoder pool of Go v1.",
  "The pool tests take and return one buffer in one goroutine; sharing and leftovers appear only under particular histories and schedules.",
  ["decoder.go", "v2/pool.go", "v2/buffer.go"], [m("buffer pool", "v2/pool.go"), m("decoder pool", "decoder.go")], [st("holder", "who holds each object"), st("content", "what each object contains")], ["objects and their content on take"])
p("C11", "Every C call reports its outcome through the status",
  "Every function of the C interface that takes a status sets it on every call, whatever it held before: pass on success, null pointer when a required pointer is null, failure otherwise. "
  "Unless it passes, it returns its null or zero value, has no effect on the encoder, the decoder or the caller's memory, and never crashes. (The status pointer itself must not be null.)",
  ["inputs", "programs"], "Every function, every combination of null and valid pointers, every prior status value, and every sequence of calls.",
  "The C tests call functions with valid pointers and look at the success code; null combinations and stale status values are unexplored.",
  C, [m("extern functions", "c_bindings/lib.rs"), m("status type", "c_bindings/types.rs")], [st("status", "last status"), st("handles", "live encoders, decoders and values")], ["status and return value of each call"])
p("C12", "C handles and values own their memory exactly once",
  "Every encoder, decoder, buffer, string, error and byte value the C interface hands out stays valid and unchanged until its own free call, independent of the encoder, decoder or input memory it came from, and is completely released by that call. "
  "No sequence of calls that follows the ownership rules reads or writes freed memory, frees twice or leaks.",
  ["histories"], "Every ownership-respecting sequence of create, encode, decode, use and free calls over several live handles.",
  "The C tests run one linear life cycle per kind with no memory checker; misuse appears only in particular orders and sizes.",
  C, [m("handle creation and release", "c_bindings/lib.rs, c_bindings/encoder.rs, c_bindings/decoder.rs, c_bindings/types.rs")], [st("heap", "live allocations and their owners")], ["memory checker over call histories"])
p("C13", "Generated messages decode to what was encoded",
  "For every message type in the schema language the Go generators support (messages and enums with scalar, enum, message, repeated and map fields and oneofs, proto3 or proto2, in one or several files of a package), a message encoded by the generated code and decoded by the generated code of the same type, into a new or a used message, is equal to the original, field by field, including nested messages, lists, maps, enums and empty values. "
  "It can be preceded and followed by other values in the same buffer. "
  "(An absent message field stays absent in Go v2 and reads as a new, empty message in Go v1; absent elements of lists and maps read as empty messages.)",
  ["programs", "inputs", "histories"], "Every supported schema, every value of its messages, every other content of the buffer and every previous content of the message decoded into.",
  "No test covers generated code for arbitrary schemas; each combination of field cardinality and type goes through its own template branch.",
  GENGO, [m("encode/decode templates", "generator/golang/templates, v2/generator/golang/templates")], None, ["Encode and Decode of generated types"])
p("C14", "Generated decoders withstand any input",
  "For every message type and every byte string, a generated Go decoder either returns the message the input starts with or an error; it never panics, never runs or allocates out of proportion to the input, and never reports success for input that does not start with an encoding of that message type.",
  ["programs", "inputs"], "Every supported schema and every byte string, including truncated and damaged encodings, hostile sizes for lists and maps, and encodings of other message types.",
  "No test feeds generated decoders malformed input.",
  GENGO, [m("decode templates", "generator/golang/templates/decode.templ, v2/generator/golang/templates/decode.templ")], None, ["Decode of generated types"])
p("C15", "Generated code writes one message layout",
  "The bytes a generated encoder writes are determined by the schema and the message value alone: first the scalar and enum fields, then the repeated fields, then the message and map fields, each group in declaration order and each field in the wire encoding of its type (map entries in any order). "
  "Encoding appends to the buffer and changes neither what it held before nor the message. Hence the generated code of both Go versions reads each other's messages.",
  ["programs", "inputs"], "Every supported schema, every value of its messages, both generator versions.",
  "The layout is fixed by templates that no test compares with a definition or with each other.",
  GENGO, [m("encode templates", "generator/golang/templates/encode.templ, v2/generator/golang/templates/encode.templ")], None, ["bytes written by generated encoders"])
p("C16", "Generated code carries absent messages and errors",
  "A generated Go encoder of an absent message writes a single nil value, in every place a message can stand, and the decoder reads that as absent (Go v1: as a new, empty message), leaving nothing of what the decoded-into message held before. "
  "A message written as an error is that one error value, and is never decoded as a message of a type that has fields to read; decoding into an absent message is an error.",
  ["programs", "inputs", "histories"], "Every message type, every nesting, nil or error in place of any message, every previous content of the message decoded into.",
  "The nil and error paths of generated code are untested.",
  GENGO, [m("nil and error handling in templates", "generator/golang/templates, v2/generator/golang/templates")], None, ["Encode, Error and Decode of generated types"])
p("C17", "Decoding never allocates beyond what its input can hold",
  "The memory a decoder allocates while decoding is bounded by a small multiple of the bytes it was given: sizes announced by the input are checked against the bytes present before they are acted on.",
  ["inputs"], "Every byte string, in particular hostile length prefixes.",
  "A hostile length with a short input is an input class no test includes, and functional results do not show the allocation.",
  ["decode.go", "v2/decode.go", "decoder.rs"], [m("length check before allocation", "decode.go, v2/decode.go, decoder.rs")], None, ["bytes allocated per decoding call"])
p("C18", "The generator accepts every supported schema, deterministically",
  "For every schema in the language the Go generators support (messages, nested or recursive, and enums, with scalar, enum, message, repeated and map fields and oneofs, proto3 or proto2, with or without services, in any package, in one or several files of it, and with any names whose Go forms differ), generation succeeds, answers with one file per schema file it was asked for, named as the plugin parameters say, gives the same output every time whatever else is in the request, and the output compiles and contains one type per message and enum with exactly the declared fields, in the declared types, and one constant per enum value, numbered in declaration order, each called by the camel case of its name (an identifier that other packages can use, whatever the name), in a package called by the last part of the schema's package wherever Go allows that name. A new message has all fields empty. Fields, encoding and decoding added through the generator's hooks take their place in the code.",
  ["programs", "configurations"], "Every supported schema.",
  "The tests generate code for a fixed schema; each combination of names, nesting, field types and cardinality is its own path through the templates.",
  GENGO, [m("code generator", "generator/golang, v2/generator/golang, protoc-gen-go-polyglot")], None, ["generated files and their exported identifiers"])
p("C19", "Independent encoders and decoders do not affect each other",
  "In every implementation any number of encoders and decoders can be alive at once, their calls interleaved in any order (and, for Go and Rust, made in parallel by different threads without data races), and each behaves exactly as if it were the only one: what one writes, reads, returns or fails on never depends on what another does.",
  ["schedules", "histories"], "Every set of uses of encoders and decoders, every interleaving of their calls, every parallel schedule.",
  "Each test uses one encoder or decoder at a time; state shared between them shows only when uses overlap.",
  ["encode.go", "decode.go", "decoder.go", "buffer.go", "v2/encode.go", "v2/decode.go", "v2/buffer.go", "encoder.rs", "decoder.rs", "encoder.ts", "decoder.ts", "c_bindings/"],
  [m("no state outside encoder, decoder and buffer", "all implementations"), m("decoder and buffer pools", "decoder.go, v2/pool.go")], None, ["results of interleaved and parallel calls"])
p("C20", "Generated Rust code reads and writes the same messages",
  "For every schema the Rust generators support (proto3 messages and enums, nested or not, with scalar, enum, message, repeated and map fields, no message containing itself other than through repeated or map fields, and names that are not reserved in Rust), both Rust generators succeed, give the same output every time, and their output compiles; every generated message has exactly the declared fields in the declared types and every enum exactly the declared values, numbered in declaration order. A message is encoded in the one layout all generated code shares (scalar and enum fields, repeated fields, messages and maps, each in declaration order) without being changed; decoding gives the encoded message back, with the cursor exactly behind it, leaving what follows readable. Any other bytes decode to the message their layout says, or to an absent message where they start with nil, or to an error: never a panic, never memory out of proportion to the input, and an absent message within a message or an undeclared enum value is an error.",
  ["programs", "inputs", "configurations"], "Every supported schema, every message of it, every input for its decoders.",
  "The Rust generator has one schema in its tests, and nothing compiles or runs what it generates for another; each combination of cardinality, type and nesting is its own path through the templates.",
  ["generator/rust/templates/", "generator/rust/generator.go", "generator/rust/imports.go", "v2/generator/rust/templates/", "v2/generator/rust/generator.go", "v2/generator/rust/imports.go", "protoc-gen-rs-polyglot/", "decoder.rs", "encoder.rs"],
  [m("code generator", "generator/rust, v2/generator/rust, protoc-gen-rs-polyglot"), m("codec used by generated code", "encoder.rs, decoder.rs")], None,
  ["generated files, whether they compile", "encodings, decoded messages, cursor positions and memory"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
