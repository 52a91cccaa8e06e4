#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})

RD, WR, VA, VM = "value/src/reader.rs", "value/src/writer.rs", "value/src/values.rs", "value/src/macros.rs"
EN, DE, LI = "src/encode.rs", "src/decode.rs", "src/lib.rs"
DEN, DDE, DCO = "derive/src/encode.rs", "derive/src/decode.rs", "derive/src/common.rs"
SS, SD, SM = "src/serde/ser.rs", "src/serde/de.rs", "src/serde/mod.rs"

prop("P01", "Strict decoding accepts exactly canonical CBOR",
 "For every byte string, strict decoding succeeds if and only if the bytes are exactly one well-formed, canonically encoded item of the supported subset (shortest heads, valid UTF-8, strictly ascending map keys, no floats, no simple values other than false/true/null/undefined, no indefinite lengths, nothing after the item). The value it returns is the one those bytes denote.",
 ["inputs"], "all byte strings, under every nesting limit",
 "Unit tests list a few dozen byte strings; acceptance is a set over all byte strings, with interacting rules (head width x major type x map position x nesting).",
 [RD], [("item dispatch, minimal heads, key ordering, extraneous data", RD)], observe=["result of the strict readers"])
prop("P02", "The encoder only ever emits canonical CBOR of the value",
 "Encoding any value either is refused or appends exactly the canonical encoding of that value: shortest heads, definite lengths, and the entries of every map at every depth (also inside map keys) in ascending order of their encoded keys, whatever order they were supplied in. It is refused exactly when some map holds two entries with the same key or the nesting limit is exceeded.",
 ["inputs"], "all values, including unsorted and duplicate-key maps at any position, all integer and length ranges",
 "Tests compare a handful of values; head width boundaries, nested unsorted maps and map-valued keys are unbounded combinations.",
 [WR, VA], [("map sorting and duplicate detection", WR), ("head emission", WR), ("value ordering", VA)])
prop("P03", "Encoding and strict decoding are inverse bijections",
 "Whatever strict decoding accepts re-encodes to the identical bytes. Whatever encoding produces is accepted by strict decoding under the same nesting limit and gives back the original value with map entries in canonical order. Hence each value has exactly one accepted encoding.",
 ["inputs", "histories"], "all byte strings and all values; all sequences of encode/decode steps",
 "A round-trip law over infinite domains; tests check one direction on fixed vectors.",
 [RD, WR, VA], [("reader and writer agree on order, widths and limits", RD + ", " + WR)])
prop("P04", "Non-strict decoding relaxes exactly the documented rules",
 "Non-strict decoding accepts everything strict decoding accepts, with the same result. Beyond that it tolerates only non-shortest integer and length heads, unordered or duplicate map keys (all entries kept in input order), data after the item, and floats and unknown simple values, which become undefined; it still rejects truncation, invalid UTF-8, reserved additional information and excessive nesting with the matching error.",
 ["inputs"], "all byte strings",
 "Two decoders have to agree on an infinite common domain and differ on precisely described inputs.",
 [RD, LI, "difffuzz/src/lib.rs"], [("non-strict switch", RD)])
prop("P05", "Nesting limits are exact and symmetric",
 "For every limit, including none and negative ones, decoding and encoding succeed if and only if the depth of the data does not exceed it, where every array, map key, map value and tag content is one level deeper than its container and an empty container adds no level. The default limits are 64 levels for decoding bytes into types and 127 for the untyped reader and every writer, and exceeding one is reported as too much nesting, never as a crash or as success.",
 ["inputs", "configurations"], "all values and byte strings, all limits in the signed byte range plus none, every entry point",
 "Depth and limit are both unbounded parameters; tests use a few shapes with one or two limits, not each container position at each exact boundary.",
 [RD, WR, LI, SM], [("remaining depth counters", RD + ", " + WR), ("default limits", LI + ", " + SM)])
prop("P06", "No input makes decoding crash",
 "Decoding never panics, aborts or hangs: for every byte string or value, every target type and every entry point (untyped, typed, non-strict, serde) it returns a value or an error. This holds for input of any depth, because every entry point limits nesting unless the caller explicitly asks for no limit.",
 ["inputs", "programs"], "all byte strings and values against all target types",
 "Absence of panics is a universally quantified claim; the existing tests contain no malformed typed inputs for most types.",
 [RD, DE, DDE, SD, "src/macros.rs"], [("bounds-checked reads, error returns", RD), ("length and type checks in typed decoders", DE + ", " + DDE)])
prop("P07", "A rejected input reports its first defect",
 "When strict or non-strict decoding rejects a byte string, the error identifies the first defect met reading from left to right, with the error kind that belongs to that defect; a map key is judged out of order as soon as it has been read completely, and data left over is only reported when the item itself is sound.",
 ["inputs"], "all byte strings with one or several defects",
 "The order of checks matters only for inputs with several defects, which are combinatorially many.",
 [RD], [("check order in item decoding", RD)])
prop("P08", "Value order is the canonical order",
 "Comparison of values is a total order consistent with equality, and on values whose maps are in canonical order it coincides with the byte-wise order of their canonical encodings. Two such values are equal exactly when their encodings are.",
 ["inputs"], "all pairs and triples of values",
 "Order laws quantify over pairs and triples across all type combinations and lengths; tests compare a fixed chain.",
 [VA], [("comparison", VA)])
prop("P09", "Writing appends and never disturbs what is there",
 "Encoding into a non-empty buffer leaves the existing bytes untouched and appends exactly what it would write into an empty buffer, in every sequence of calls; a refused write also leaves the bytes already there untouched. The order in which map entries were inserted never influences the output.",
 ["inputs", "histories"], "all sequences of write calls with arbitrary values, limits and initial contents",
 "A property of call sequences; tests always write once into an empty buffer.",
 [WR], [("append-only output", WR)], state=[("output buffer", "bytes written so far", WR)])
prop("P10", "Primitive types convert without loss or are refused",
 "Integers of every width, wide unsigned integers carried as big-endian byte strings without leading zeros, booleans, characters, strings and byte strings encode to the one CBOR item for their value, and decoding yields exactly the number or text in the item. A value outside the target's range is refused as a size error and any other kind of item as a type error, never truncated, wrapped or reinterpreted.",
 ["inputs"], "all values of each primitive type and all CBOR items offered to it",
 "Ranges have boundaries at every power of two and each (type, item kind) pair has its own verdict; tests sample a few.",
 [EN, DE], [("integer range conversion", DE), ("wide integer byte strings", EN + ", " + DE), ("specialised byte vectors and arrays", EN + ", " + DE)])
prop("P11", "Containers encode element by element and decode all or nothing",
 "Vectors, fixed-size arrays, tuples, sets, maps and options encode to an array (byte string for bytes), map or the bare element or null, with one entry per element. Decoding accepts exactly the corresponding shape, decodes each element in its place, checks lengths of fixed-size arrays, never drops or invents elements (a tuple reads its leading elements), and fails as a whole with the error of an offending element.",
 ["inputs", "programs"], "all compositions of container types, all items offered to them",
 "Type compositions are an infinite family and each element position can be defective; tests use a few fixed compositions.",
 [EN, DE], [("container implementations", EN + ", " + DE)])
prop("P12", "Null, undefined and missing follow one default rule",
 "At every position that supports defaults (top level, struct fields present or absent, enum payloads, transparent wrappers, embedded types) null, undefined and absence are equivalent and yield the type's default, or a missing-field error where the type has no default. At element positions (sequence items, map keys and values, tuple members) there is no default: only types that themselves represent null accept it. A type marked to have or not to have a default obeys the mark.",
 ["inputs", "programs"], "all types, all positions, the three ways of being absent",
 "The rule is a cross product of positions, types and spellings of absence; tests cover a handful of cells.",
 [DE, DDE, LI], [("default hook", DE), ("field extraction", DDE)])
prop("P13", "Derived structs map fields to keys exactly",
 "A derived struct with named fields encodes to a map with one entry per non-skipped field under its name or chosen text or integer key, as an array in declaration order if so marked or unnamed, and as its only field if transparent. Decoding picks each field by its key independent of declaration order and of the order of entries, rejects unknown, surplus or missing-without-default data, and with unknown fields allowed ignores unknown entries wherever they sort and decodes the known ones as if the others were absent.",
 ["inputs", "programs"], "all struct definitions (field names, renames, order, marks) and all items offered to them",
 "Field definitions are programs: the key order, mixing of integer and text keys and position of unknown keys are combinatorial and tests cover a few definitions.",
 [DEN, DDE, DCO, "src/macros.rs"], [("field sorting at macro expansion and linear merge at run time", DDE)])
prop("P14", "Field options do what they say on both sides",
 "An optional field of a map is omitted exactly when its encoded-side value is the type's empty value, or when the given predicate says so, and is otherwise present; a skipped field is never written and always takes its default on decoding; custom per-field conversions are applied on encoding and on decoding wherever specified (struct fields, variant fields, the only field of transparent structs and newtype variants), including together with the other options. No option affects any other field.",
 ["inputs", "programs"], "all combinations of field options, field types and field values",
 "Options interact pairwise; tests use each mostly alone.",
 [DEN, DDE, EN], [("optional encoding", DEN + ", " + EN), ("custom conversion hooks", DEN + ", " + DDE)])
prop("P15", "Externally tagged enums encode and select variants exactly",
 "A derived enum encodes a unit variant as its key (name, chosen key or explicit discriminant) and any other variant as a one-entry map from its key to its contents, or the bare contents if untagged or embedded. Decoding selects the variant whose key is present and decodes its contents strictly, never yields a skipped variant, tries embedded types only when no own variant matches, and refuses maps with another number of entries and unknown keys.",
 ["inputs", "programs"], "all enum definitions and all items offered to them",
 "Enum definitions are programs with many attribute combinations; tests have a few definitions and mostly valid inputs.",
 [DEN, DDE], [("variant encoders and decoders", DEN + ", " + DDE)])
prop("P16", "Internally tagged enums keep the tag inside the map",
 "A derived enum with an internal tag encodes every variant as the map of its fields plus the tag entry (without the entry for the variant marked as fallback), for every kind of variant it accepts. Decoding finds the tag wherever it sorts, removes it before decoding the fields strictly, selects the fallback exactly when the tag is absent, undefined or names it, and refuses unknown tags and items that are not maps.",
 ["inputs", "programs"], "all internally tagged definitions and all items offered to them",
 "Tag position relative to field keys, fallback and unit variants multiply; tests show one enum.",
 [DEN, DDE], [("tag insertion and extraction", DEN + ", " + DDE)])
prop("P17", "Types advertised as maps always encode as maps",
 "Whenever a type is usable where an always-a-map type is demanded, each of its values encodes to a map, and asking for its entries returns all entries of that encoding. A type that may encode otherwise is not usable there.",
 ["inputs", "programs"], "all derived and built-in types and their values",
 "The marker is computed by the derive macro for an unbounded family of definitions; no test observes it for most of them.",
 [EN, DEN], [("marker derivation", DEN)])
prop("P18", "Contradictory derive annotations are refused at compile time",
 "Deriving is refused with a compile error at the offending definition for: annotations that do not exist there or are malformed; transparent on anything but a one-field tuple struct; contradictory default or tagging marks; embedding into something other than a one-field variant or in an internally tagged enum; arrays in internally tagged enums, or contents there that do not encode as a map; two fallbacks; decoding an untagged enum; predicates on array elements; a default that the type does not have; fields whose type cannot be encoded or decoded; unions. Every definition without such an annotation compiles, also for generic types.",
 ["programs"], "all type definitions with annotations",
 "There are no compile-fail tests at all in the repository.",
 [DEN, DDE, DCO], [("attribute validation", DCO + ", " + DEN + ", " + DDE)])
prop("P19", "Serde serialization agrees with native encoding",
 "Serializing through serde yields the canonical encoding of the corresponding CBOR value: numbers, text, bytes, sequences, maps, options, structs and enum variants map to the same items as natively encoded data of the same shape, with a one-element array for a newtype struct and null for unit. Floating point numbers and duplicate keys are refused with an error and nothing is dropped or reordered within sequences.",
 ["inputs", "programs"], "all serde-serializable data",
 "The serde data model is open-ended; tests show one struct and one enum.",
 [SS, SM], [("serializer", SS)])
prop("P20", "Serde deserialization never alters data",
 "Deserializing through serde returns exactly the data in the item or an error: numbers are never wrapped or truncated whatever integer type they are offered as, kinds are never confused, tags and floats are refused, byte strings, text, options, maps, structs and all four kinds of enum variant are matched by shape wherever the target itself does not accept several kinds (fixed-length sequences read their leading elements). What serde serialized comes back unchanged, and byte input obeys the strict rules and the 64-level limit.",
 ["inputs", "programs"], "all items against all deserializable types",
 "Each (type, item) pair has a verdict, with number ranges beyond 64 bits in play; tests round-trip a few values.",
 [SD, SM], [("deserializer", SD)])
prop("P21", "Map destructuring finds exactly the requested keys",
 "Extracting a sorted list of keys from a sorted map yields for each key its value if present and nothing otherwise, for any mixture of present, absent and foreign keys. The strict variant additionally reports an unknown entry that precedes the requested key instead of skipping it, and leaves later entries for the caller. The accompanying key assertion fails exactly when the keys are not in strictly ascending canonical order.",
 ["inputs"], "all sorted maps and all sorted key lists",
 "Linear merging depends on the interleaving of two lists; tests use a few lists.",
 [VM, "src/macros.rs"], [("peek and advance loop", VM + ", src/macros.rs")])
prop("P22", "Value construction helpers build the denoted value",
 "The value-building conversions and macros produce the value their arguments denote for all arguments: integers choose unsigned or negative by sign, maps keep all entries in the given order, optional map entries appear exactly when present, arrays keep order, and text, bytes, booleans, tags and the simple constants are carried over unchanged. A simple value number maps to one of the four supported constants or to nothing.",
 ["inputs"], "all arguments, in particular integer boundaries and optional entries",
 "Conversions are defined over whole integer and string domains; tests use samples.",
 [VA, VM], [("conversions", VA), ("macros", VM)])
prop("P23", "Equal data encodes to equal bytes",
 "Encoding is a function of the data: encoding equal values of one type gives identical bytes no matter how hash-based collections iterate, how entries were inserted, or which entry point is used. Different values of a type whose encoding is lossless give different bytes.",
 ["inputs", "schedules", "histories"], "all values of types containing sets and maps, all iteration orders and insertion histories",
 "Hash iteration order is randomised per collection, so a test sees one order.",
 [EN, WR], [("map sorting", WR), ("set encoding", EN)])
prop("P24", "Derived types round-trip",
 "For every derived or composed type without one-sided or lossy options, decoding the encoding of any value gives back that value, strictly and non-strictly. With skipped fields or variants, the rest still comes back and the skipped parts are defaults or an error.",
 ["inputs", "programs"], "all type definitions and all their values",
 "Encoder and decoder are two separately generated programs per definition; tests check a few definitions with few values.",
 [DEN, DDE, EN, DE], [("encoder/decoder pair", DEN + ", " + DDE)])
prop("P25", "Decoding effort is bounded by the input actually present",
 "A length or count announced in the input never makes decoding reserve memory or work ahead of the bytes that are really there: memory use stays within a constant factor of the input length and truncated or lying headers are rejected promptly.",
 ["inputs"], "all byte strings, in particular headers announcing huge lengths at any nesting position",
 "Resource bounds are not asserted by any test.",
 [RD], [("no preallocation from untrusted lengths, early bounds checks", RD)])
prop("P26", "The foreign-function decoder verdict matches the library",
 "The C-callable decoding entry point returns zero exactly for the byte strings non-strict decoding accepts within the typed nesting limit and one for all others, without crashing for any input.",
 ["inputs"], "all byte strings",
 "Its only test decodes five inputs and does not call the entry point itself.",
 ["difffuzz/src/lib.rs", RD], [("verdict mapping", "difffuzz/src/lib.rs")])
prop("P27", "All entry points tell the same story",
 "Decoding bytes into a type is decoding the value those bytes denote into the type, encoding a type to bytes is encoding its value, and the strict and non-strict typed entry points agree whenever strict decoding accepts the bytes. Malformed bytes are reported as a parsing failure before any typed error.",
 ["inputs", "programs"], "all types, byte strings and values",
 "Agreement between several entry points over all inputs; tests exercise them separately.",
 [LI, SM, EN, DE], [("entry points", LI + ", " + SM)])
prop("P28", "Serde errors tell what was wrong",
 "An error of the serde layer tells what was wrong. Bytes that are not a strict encoding within 64 levels are reported as a byte decoding error that carries the decoder's first error, whatever the target type, and never otherwise; a value that cannot be encoded as a byte encoding error that carries the encoder's reason; floating point numbers, and tags where the target takes any item, as unsupported; items that are not 128-bit numbers or characters as value errors with the reason; everything that serde itself objects to as other errors. Nothing wrong with the data is blamed on the bytes or the other way round.",
 ["inputs", "programs"], "all byte strings, items and serde types",
 "Errors combine the target's type with the whole input; the tests match three particular errors.",
 [SM, "src/serde/error.rs", SD, SS], [("error conversions", "src/serde/error.rs"), ("entry points", SM)])
prop("P29", "The same outcomes on 32-bit targets as on 64-bit ones",
 "On targets whose address space is smaller than a length can announce (WebAssembly, for which runtimes using this library are compiled), reading, writing, ordering, building, destructuring, encoding and decoding have exactly the outcomes they have on 64-bit hosts: an announced length beyond the address space is missing data and never a shorter length, and integers, tags, counts and nesting limits are not narrowed to the size of a pointer.",
 ["inputs", "programs"], "all byte strings, values and types, on a target with 32-bit pointers",
 "The tests only run on the 64-bit host.",
 [RD, "value/src/writer.rs", "value/src/values.rs", DE, EN], [("conversions to and from pointer-sized integers", RD)])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
