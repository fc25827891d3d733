#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
F = 'binschema/src/'
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": [f if '/' in f and not f.startswith('serde/') and not f.startswith('coder/') else F + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
P = [
p("C01", "Variable-length integers are exactly FORMAT.txt and lossless",
  "Every u32, u64, u128, i32, i64 and i128 is encoded as exactly the var-len uint or sint byte sequence FORMAT.txt defines, and decoding any byte stream that begins with those bytes gives the same integer back and consumes exactly those bytes. On any byte stream at all, decoding consumes up to and including the first byte without the continuation bit and yields the integer FORMAT.txt assigns to those bytes, or fails if there are too many bytes, if the stream ends first or if the integer does not fit the requested type: it never truncates or wraps it.",
  ["inputs"], "all 2^128 unsigned and all 2^128 signed integers, and all byte streams",
  "the unit tests try |n| < 2048 (at most two encoded bytes) and no foreign byte stream; the sign boundary, the 128 bit limits and continuation handling are never reached",
  ["var_len.rs", "encoder.rs", "decoder.rs", "FORMAT.txt/"],
  [("write_var_len_uint / write_var_len_sint", "binschema/src/var_len.rs"), ("read_var_len_uint / read_var_len_sint", "binschema/src/var_len.rs"), ("try_from range checks", "binschema/src/decoder.rs")],
  ["bytes written by Encoder::encode_{u,i}{32,64,128}", "result and bytes consumed of Decoder::decode_{u,i}{32,64,128}"]),
p("C02", "Leaf values are encoded exactly as FORMAT.txt and come back bit for bit",
  "For every u8, u16, i8, i16, f32, f64, char, bool, str, byte string and unit, encoding writes exactly the bytes FORMAT.txt assigns to the value, and decoding a stream beginning with those bytes returns the identical value (floats bit for bit, strings and byte strings of any length, char over the whole Unicode scalar range) and consumes exactly those bytes. Decoding bytes that denote no value of the type (bool other than 0 or 1, option marker other than 0 or 1, char outside the Unicode scalar values, text that is not UTF-8) is refused; it never yields a substitute value.",
  ["inputs"], "all values of every leaf type, and all byte streams",
  "the existing tests encode a handful of values; NaN payloads, surrogate or out-of-range chars, invalid UTF-8, long strings and non-0/1 markers never occur in them",
  ["encoder.rs", "decoder.rs", "FORMAT.txt/"],
  [("encode_le_bytes / decode_le_bytes", "binschema/src/encoder.rs, binschema/src/decoder.rs"), ("decode_char, decode_bool, begin_option, decode_str_into, decode_bytes_into", "binschema/src/decoder.rs")],
  ["bytes written by the Encoder leaf methods", "results of the Decoder leaf methods"]),
p("C03", "Enum ordinals use the minimal fixed width and stay in range",
  "An enum value of an enum schema with n variants starts with its variant ordinal in little-endian order in exactly the least number of bytes able to hold n - 1 (no byte at all when n is 1), and decoding gives the same ordinal back after consuming exactly that many bytes. An ordinal read from a stream that is n or more, or any stream for an enum without variants, is refused as malformed data, and a variant ordinal outside the schema is refused when encoding.",
  ["inputs"], "all variant counts and ordinals, all byte streams",
  "tests use enums of at most ten variants, so only the one-byte width is ever exercised and no bad ordinal is ever decoded",
  ["var_len.rs", "encoder.rs", "decoder.rs", "coder/coder.rs"],
  [("ord_byte_len, write_ord, read_ord", "binschema/src/var_len.rs"), ("begin_enum", "binschema/src/encoder.rs, binschema/src/decoder.rs")],
  ["bytes written by Encoder::begin_enum", "result and bytes consumed of Decoder::begin_enum"]),
p("C04", "A finished encoder wrote exactly one valid encoding of its schema",
  "Whatever sequence of encoding calls a program makes, correct or not, if the coder then reports that it is finished, the bytes written are exactly the FORMAT.txt encoding of a value that conforms to the schema: fixed lengths, declared sequence lengths, tuple arity, field and variant names and order, and nesting all as the schema requires. A call is accepted exactly when it is a next step the schema allows at that point.",
  ["inputs", "histories"], "all schemas and all finite sequences of Encoder calls with any arguments",
  "the tests only make the correct calls that serde makes for four types; wrong, missing, repeated or reordered calls are never tried",
  ["coder/coder.rs", "encoder.rs"],
  [("validation of every call against the top of the coder stack", "binschema/src/coder/coder.rs"), ("bytes written after validation", "binschema/src/encoder.rs")],
  ["CoderState::is_finished", "the bytes in the Write"],
  [("coder stack", "what remains to be coded", "binschema/src/coder/coder.rs")]),
p("C05", "A finished decoder consumed exactly one valid message",
  "Whatever sequence of decoding calls a program makes on any byte stream, if the coder then reports that it is finished, the bytes consumed from the stream are exactly one valid message of the schema, what the calls returned (values, lengths, option markers, variant ordinals) is the content of that message, and not one byte after the message was read. No call reads a byte that is not part of the element it decodes.",
  ["inputs", "histories"], "all schemas, all byte streams and all finite sequences of Decoder calls",
  "tests decode only what the encoder just wrote, with nothing after it, using the correct calls",
  ["coder/coder.rs", "decoder.rs"],
  [("validation of every call against the top of the coder stack", "binschema/src/coder/coder.rs"), ("read_exact of exactly the element", "binschema/src/decoder.rs")],
  ["CoderState::is_finished", "the position of the Read", "results of the Decoder methods"]),
p("C06", "A rejected call changes nothing",
  "When an encoding or decoding call fails as an API usage error or a schema non-conformance, the coder is left exactly as it was before the call and no byte was written or read, so that the program can go on with a correct call as if the failed one had not been made. This includes beginning an enum with a wrong variant ordinal or name.",
  ["inputs", "histories"], "all schemas, all reachable coder states and all rejected Encoder and Decoder calls",
  "no test makes a failing call",
  ["coder/coder.rs", "encoder.rs", "decoder.rs"],
  [("validation before any state change", "binschema/src/coder/coder.rs"), ("cancel_enum", "binschema/src/coder/coder.rs, binschema/src/encoder.rs")],
  ["ErrorKind of the result", "later behaviour of the coder", "bytes written or read"]),
p("C07", "After a fatal error the coder refuses everything and is never finished",
  "When an encoding or decoding call fails with an IO, malformed data, platform limits or illegal schema error, whichever call it is and wherever in the value, every later coding call on that coder is refused as an API usage error without writing or reading anything, and the coder never again reports that it is finished. No other kind of failure puts the coder in that state. (Asking what the coder needs next is not a coding call.)",
  ["inputs", "histories", "fault_sequences"], "all schemas, all histories, every reader or writer failing at any byte, all malformed streams",
  "no test injects an IO error or malformed bytes",
  ["coder/coder.rs", "encoder.rs", "decoder.rs", "var_len.rs"],
  [("mark_broken on every fallible read and write", "binschema/src/encoder.rs, binschema/src/decoder.rs"), ("broken check before every call", "binschema/src/coder/coder.rs")],
  ["ErrorKind of the results", "CoderState::is_finished"],
  [("broken", "irrecoverable error latch", "binschema/src/coder/coder.rs")]),
p("C08", "Dynamic values round-trip and encode as FORMAT.txt says",
  "Encoding any dynamic value that conforms to a schema succeeds, finishes the coder and writes exactly the bytes FORMAT.txt assigns to that value under that schema; a value that does not conform never leads to a finished coder. Decoding a dynamic value from any stream beginning with those bytes returns the same value, finishes the coder and consumes exactly those bytes.",
  ["inputs"], "all values, all schemas (recursive ones included) and all streams",
  "the dynamic Value type is not used by any test",
  ["value.rs", "encoder.rs", "decoder.rs", "coder/coder.rs"],
  [("Value::encode_to, Value::decode_from, ScalarValue::*", "binschema/src/value.rs")],
  ["Value::encode_to", "Value::decode_from"]),
p("C09", "recurse(n) means the schema n levels up in the schema tree",
  "Wherever a recurse of level n occurs in a schema, coding it behaves exactly as coding the schema found n levels up in the schema tree from it, also after other recurses have been entered and at any nesting depth of the value. A recurse of level 0 or one reaching above the root is refused as an illegal schema when it is reached, without looping, and never resolves to something else.",
  ["inputs", "histories"], "all schemas with recurses of any level at any place, and all nesting depths of values",
  "tests have recursion of levels 1 to 3 to the root only, where counting coder frames and counting schema levels agree",
  ["coder/coder.rs", "FORMAT.txt/"],
  [("push_need", "binschema/src/coder/coder.rs")],
  ["which calls are accepted after entering a recurse", "Encoder::need / Decoder::need"],
  [("parent links of frames", "enclosing schema in the schema tree", "binschema/src/coder/coder.rs")]),
p("C10", "Finished means finished",
  "A coder reports that it is finished exactly when one whole value of the schema has been coded by successful calls and no fatal error occurred: not before the last part (an end of sequence, tuple or struct included) is coded, and always right after it, auto-finishing every enclosing option and enum. Once it is finished every further coding call is refused, and whether it is queried by flag or by result is consistent.",
  ["inputs", "histories"], "all schemas and all sequences of Encoder or Decoder calls",
  "tests look at the finished state only after complete, correct coding",
  ["coder/coder.rs"],
  [("pop with auto finish", "binschema/src/coder/coder.rs"), ("is_finished, is_finished_or_err", "binschema/src/coder/coder.rs")],
  ["CoderState::is_finished", "CoderState::is_finished_or_err"]),
p("C11", "Decoding untrusted bytes never panics and never trusts their lengths",
  "Decoding any byte stream against any schema, with the decoding calls or into a dynamic value, ends in a value or an error: it never panics, overflows, indexes out of bounds or reaches code marked unreachable. The memory allocated for a string, byte string or sequence is bounded by a constant plus a constant multiple of the data actually read or elements actually decoded, whatever length the stream declares.",
  ["inputs", "histories"], "all byte streams, all schemas (illegal recurses included); resource exhaustion by genuinely large data and stack exhaustion by nesting excluded",
  "tests never decode foreign bytes",
  ["decoder.rs", "value.rs", "var_len.rs", "coder/coder.rs"],
  [("read_onto in bounded chunks, capped capacity", "binschema/src/decoder.rs, binschema/src/value.rs"), ("unreachable! arms", "binschema/src/coder/coder.rs, binschema/src/value.rs")],
  ["Decoder methods", "Value::decode_from"]),
p("C12", "serde values round-trip through their schema, empty ones included",
  "Serializing a serde value to a schema that describes it succeeds, finishes the coder and writes the bytes FORMAT.txt assigns to it, and deserializing those bytes with the same schema gives an equal value, finishes the coder and consumes exactly those bytes. This holds for every kind of the serde data model the crate maps (scalars, strings, bytes, options, sequences, tuples, maps, structs, unit, newtype and every enum variant form), for empty ones and wherever they are nested, and for deserializing into a self-describing target.",
  ["inputs", "programs"], "all values of all serde types within the mapped data model",
  "the tests round-trip five values, none containing an empty collection, a tuple or struct variant beyond one, or bytes",
  ["serde/mod.rs", "serde/de.rs", "serde/ser.rs"],
  [("Serializer for &mut Encoder", "binschema/src/serde/mod.rs"), ("Deserializer for &mut Decoder, SeqDecoder, MapDecoder, StructDecoder, EnumDecoder", "binschema/src/serde/de.rs")],
  ["Serialize / Deserialize through Encoder / Decoder"]),
p("C13", "The known schema of a standard type is the one serde uses for it",
  "For every standard library type that has a known schema (scalars, strings, unit, options, the collections and maps, arrays, slices, tuples, ranges, bounds, references, boxes and cows) serializing any value of the type with its known schema succeeds and finishes the coder, and so does deserializing it where serde supports that. The schema is the same wherever in a larger schema the type occurs, apart from recurses.",
  ["inputs", "programs"], "all standard types with a known schema, instantiated with any types, and all their values",
  "tests use five of the types and no ranges, bounds, sets, deques, lists or heaps",
  ["known_schema.rs"],
  [("impl KnownSchema for standard types", "binschema/src/known_schema.rs")],
  ["KnownSchema::schema", "Serialize through Encoder"]),
p("C14", "Recurse levels in known and derived schemas point at the right type",
  "In the schema of a type that contains itself, directly, through other types or mutually, through any of options, collections, maps, tuples, boxes, references, newtypes, structs and enum variants, every recurse refers to exactly the schema of the type that recurs there. The derived schema of a struct or enum (without serde attributes that rename, skip or restructure) has the fields and variants serde uses, in order and by name, so that values of the type round-trip at any recursion depth.",
  ["inputs", "programs"], "all nestings of types with known schemas around recursive types, and all values",
  "one test has one recursive enum with struct variants",
  ["known_schema.rs", "binschema_derive/src/lib.rs"],
  [("RecurseStack", "binschema/src/known_schema.rs"), ("derive(KnownSchema)", "binschema_derive/src/lib.rs")],
  ["KnownSchema::schema", "Serialize / Deserialize of recursive types"],
  [("RecurseStack layers", "types of the enclosing schema tree levels", "binschema/src/known_schema.rs")]),
p("C15", "The meta-schema is that of FORMAT.txt and describes every schema",
  "The known schema of schemas is exactly the meta-schema of FORMAT.txt, and every schema whatsoever, at any depth, can be serialized with it, which writes the FORMAT.txt encoding of the schema, and deserialized again to an equal schema.",
  ["inputs"], "all schemas",
  "one test round-trips a single schema",
  ["known_schema.rs", "schema.rs", "FORMAT.txt/"],
  [("impl KnownSchema for Schema", "binschema/src/known_schema.rs"), ("derived Serialize and Deserialize of Schema", "binschema/src/schema.rs")],
  ["Schema::schema", "Serialize / Deserialize of Schema"]),
p("C16", "A reused coder allocation is a fresh coder",
  "A coder made from the allocation recovered from another coder, however that one was used and in whatever state it ended (unfinished, broken or finished), behaves exactly as a coder made from a new allocation, for schemas of any lifetime. Creating, recovering, reusing, cloning and dropping allocations in any order never frees memory twice, leaks it or uses it after it is freed.",
  ["histories", "inputs"], "all sequences of creating, using, recovering, cloning and dropping coders and allocations",
  "tests reuse an allocation only after a finished coding, and cannot see memory errors",
  ["coder/coder_alloc.rs", "coder/coder.rs"],
  [("CoderStateAlloc::from_stack, into_stack, Drop, Clone", "binschema/src/coder/coder_alloc.rs"), ("CoderState::new, into_alloc", "binschema/src/coder/coder.rs")],
  ["behaviour of CoderState after reuse", "memory safety"]),
p("C17", "Errors carry the kind that tells what went wrong",
  "A call refused because the program asked for something out of place fails as API usage, because the data does not fit the schema as schema non-conformance, because the stream does not hold a valid message as malformed data, because of an illegal recurse as illegal schema, because a length exceeds the platform as platform limits, and because the reader or writer failed (a stream that ends too early included) as IO. No call reports one of these conditions as another kind.",
  ["inputs", "histories", "fault_sequences"], "all failing calls of encoder and decoder in all states",
  "no test looks at an error kind",
  ["error.rs", "var_len.rs", "coder/coder.rs", "encoder.rs", "decoder.rs"],
  [("error!/ensure!/bail! kinds", "binschema/src/error.rs and all users"), ("From<io::Error>", "binschema/src/error.rs")],
  ["Error::kind of every failing call"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        x["anchors"]["files"] = [s.rstrip('/') for s in x["anchors"]["files"]]
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
