MODS = ['error', 'schema', 'var_len', 'coder', 'encoder', 'decoder', 'value', 'serde', 'known_schema', 'shapes']
# parts of the proof which can be left out when the verifier cannot read them on a tree
GROUPS = {
    'value': dict(specs=['spec_4_value.rs', 'spec_5_conform.rs', 'spec_6_dec.rs'], contracts=['50_value.vc'], mods=['value'], needs=[]),
    'known': dict(specs=['spec_9_known.rs'], contracts=['70_known.vc'], mods=['known_schema'], needs=['value']),
    'shapes': dict(specs=['spec_91_shapes.rs'], contracts=['72_shapes.vc'], mods=['shapes'], needs=['known']),
    'serde': dict(specs=['spec_7_serde.rs', 'spec_71_write.rs', 'spec_8_de.rs'], contracts=['60_serde.vc', '61_de.vc'], mods=['serde'], needs=['value']),
    'meta': dict(specs=['spec_95_meta.rs'], contracts=['71_derived.vc'], mods=[], needs=['known', 'serde']),
    'std': dict(specs=['spec_96_std.rs'], contracts=[], mods=[], needs=['known', 'serde', 'meta']),
}
PROPS = ['C%02d' % i for i in range(1, 18)]
CAMPAIGNS = set(PROPS)
# which search program: `typed` is the one with the (slow to build) derived and standard types
CRATE = {p: ('typed' if p in ('C13', 'C14') else 'falsifier') for p in PROPS}
SHARDS = 8
SECS = {'quick': {'default': 20}, 'thorough': {'default': 240}}
HANG = 60
VERUS_THREADS = 6
VERUS_TIMEOUT = {'quick': 330, 'thorough': 400}
MAX_DEMOTE = 8
VERUS_VERSION = '0.2026.09.13.671956e'
LEVEL = {p: ('exploration' if p == 'C14' else 'proof') for p in PROPS}
TRUST = [
    'Verus, its vstd library and Z3 are trusted',
    'rustc -Zunpretty=expanded and the extractor (/verif/extractor) are trusted to keep the meaning; the rewrites and how often each was applied are counted in trusted_base',
    'debug-log output (coder debug logging) is dropped by the extraction and not verified',
    'usize is 64 bits wide',
    'no vector is larger than half the address space (axiom_stack, axiom_backed), lengths of strings and vectors fit usize (axiom_string_len, axiom_vec_len), and a value nests no deeper than memory holds (axiom_depth)',
    'termination of Value::decode_from, and its use of the machine stack, are not proved (see known-findings.txt)',
]
TRUST_PROP = {'C12': [
    'a type of the user obeys the contracts of the traits Serialize, Visitor and DeserializeSeed in spec_7 and spec_8: it hands on the errors of the coder and leaves it in a state calls can produce',
    'the Serialize and Deserialize impls serde itself has or derives are not verified; they are known by what they do (`does`, `visits`, `takes`)',
    'serde::de::value::{StrDeserializer, UsizeDeserializer} hand over the string or number they were made from',
]}
_std = [
    "serde's Serialize impls for the standard types make the calls written in spec_71, spec_95 and spec_96 (a list, set, heap or map is its elements in the order they are iterated, a tuple its elements in turn); those impls are not part of /repo",
    'the address of the schema function tells types apart (axiom_addr), and tells which type a schema is of (axiom_known)',
]
TRUST_PROP['C13'] = _std
TRUST_PROP['C14'] = _std[1:] + [
    'the functions which derive(KnownSchema) generates are verified for the types in /verif/shapes, whose field types are parameters (the derive does not look into them); that values of the field types conform to their own schemas is assumed there',
    'which types are levels of the schema tree and which are not (newtypes) is a property of the type (axiom_through)',
]
TRUST_PROP['C15'] = [
    'axiom_schema_does: where a schema is within a schema, serializing it does what the derived function, verified by itself, does (recursion rule; schemas are finite)',
    'axiom_schema_depth: a schema nests no deeper than memory holds',
    "serde's derived Serialize impls are taken from the expanded source with the serializer made the crate's Encoder (extractor/src/derived.rs)",
] + _std[:1]
BOUNDED = {
    'C13': ["deserializing the standard types (serde's Deserialize impls, outside /repo): searched, see rule"],
    'C14': ['types whose shape is none of those in /verif/shapes: searched over about 190 derived types, see rule', 'round trips of values of derived types: searched, see rule'],
    'C15': ["deserializing schemas (serde's derived Deserialize impls of Schema, ScalarType, SeqSchema, StructSchemaField, EnumSchemaVariant): searched, see rule"],
}
# property -> (harnesses, file of the crate they are appended to, module)
KANI = {'C16': ('kani/alloc.rs', 'binschema/src/coder/coder_alloc.rs', 'coder::coder_alloc')}
KANI_TIMEOUT = 240
RULE = {}
# how each recorded (not repaired) finding of known-findings.txt shows itself: this run of the falsifier fails
PROBES = {'C11': ['deep-probe', '2000000']}
KNOWN = []
for _l in open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'known-findings.txt')):
    if _l.startswith('property='):
        _p, _t = _l[len('property='):].strip().split(' ', 1)
        KNOWN.append(dict(property=_p, probe=PROBES[_p], text=_t))
_coding = ('each case is a schema (28 fixed ones, 14 illegal ones and random ones up to depth 5 with recurses), a value of it or a random stream, and a history of calls: '
  'the right calls, every wrong call of a pool before each right call, IO failing at every byte, random right and wrong calls; after every call the result, the bytes, the finished flag and a set of probe calls '
  'are compared with a reference transition model written from FORMAT.txt. Distinct and non-trivial: different (history, schema, IO behaviour), at least one call accepted')
RULE.update({p: _coding for p in ('C04', 'C05', 'C06', 'C07', 'C09', 'C10', 'C17')})
RULE['C01'] = 'integers (all boundary patterns of every width, then random of random bit length) encoded and decoded, and random and systematic byte streams decoded, each compared with a reference written from FORMAT.txt over bignums; distinct: different (type, integer or stream)'
RULE['C02'] = 'every u8/u16/i8/i16/bool/char boundary and random leaf values, strings and byte strings up to beyond the read chunk size, and streams that denote no value, each compared with a reference; distinct: different (type, value or stream)'
RULE['C03'] = 'enums of every size around the width boundaries with ordinals at and around every boundary, encoded and decoded, and random ordinal bytes; distinct: different (variants, ordinal or bytes)'
RULE['C08'] = 'schemas with conforming values (round trip, bytes against a reference) and with values changed so that they do not conform; distinct: different (schema, value)'
RULE['C11'] = 'valid messages with bytes changed, cut or inserted, lengths replaced by hostile ones, and random bytes, decoded with calls and into values under a watching allocator; distinct: different (schema, stream)'
RULE['C16'] = 'random sequences of new, recover, reuse, clone and drop of allocations around coders left unfinished, broken or finished, with schemas of different lifetimes, under an allocator which checks double free, leak and use of freed memory; distinct: different sequence'
RULE['C12'] = 'serde types of every form of the data model (random, with empty ones and recursion, and concrete derived and std ones), serialized and deserialized under the schema that describes them, also into a self-describing target, against the reference encoding; distinct: different (type, value)'
RULE['C13'] = 'every standard type with a known schema, at random nesting, whose schema is compared with one written down here and whose random values are serialized and deserialized under it; distinct: different (type, value)'
RULE['C14'] = 'about 190 derived types in mutually recursive groups (generated) and by hand: the schema is walked along a description of the type, each recurse has to lead to the layer of the type at the recurse, and random values round-trip; distinct: different (type, seed)'
RULE['C15'] = 'the known schema of schemas against the meta-schema typed in from FORMAT.txt; schemas fixed, random and thousands of levels deep serialized and deserialized as values of it against the reference encoding; distinct: different schema'
TECHNIQUE = {'default': 'deductive verification (Verus contracts on the extracted crate code), failing inputs searched with a differential falsifier'}
NOT_CLAIMED = {}
_n = 'Contracts on the functions extracted from /repo on every run, discharged by Verus for all inputs; std models, extraction rewrites and assumed contracts are listed in the evidence. '
NOTE = {p: _n for p in PROPS}
NOTE['C08'] = _n + 'Value::encode_to and Value::decode_from are proved against a grammar (spec_4 to spec_6) of which round trip, determinism and conformance are lemmas; partial correctness only.'
NOTE['C12'] = _n + 'Every method of the Serializer, Deserializer and access traits which the crate implements is proved equal to the calls, bytes and hand-overs that the data model assigns to it; the impls of the user types and of serde are parameters.'
NOTE['C13'] = _n + 'Proved: each known schema is the one written in 70_known.vc, and any value of any nesting of the standard types conforms to it, wherever in a schema tree, and is what the calls of its serde impl write (spec_96). Bounded: deserializing (serde impls outside /repo), searched.'
NOTE['C14'] = 'Proved by Verus: RecurseStack; the known schemas of the standard types at any layers; what derive(KnownSchema) generates for each shape of struct and enum in /verif/shapes, over any field types and layers; that a recurse leads to a schema of the type it stands for, and that values of those shapes conform (theorem_recurse_place, lemma_of_*). Bounded: other shapes and round trips, searched over about 190 types.'
NOTE['C15'] = _n + 'Proved: the known schema of schemas is the meta-schema of FORMAT.txt, every schema conforms to it, and the derived Serialize impls write it to the end with the bytes of FORMAT.txt. Bounded: the derived Deserialize impls, searched.'
NOTE['C16'] = 'CoderState::new and into_alloc proved by Verus; the contract it assumes of CoderStateAlloc (whose raw pointers it cannot see) is discharged by Kani for stacks of any capacity and length, with memory safety, no double free and no leak; whole histories are also searched with a watching allocator (bounded).'
