#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json; run after editing a property here."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None, **({"state": state} if state else {})),
        _note=level_note))

REF = "Trusts the reference decoder in harness/src/refdec.rs (written independently from the format; it agrees exactly with boxcars on all 144 replays shipped with the repository) and the generators; finds a break only if a generated case reaches it."

prop("C01", "Parsing is total",
 "Parsing any byte sequence, under every combination of checksum and network options, ends with either a replay or an error: it never panics, aborts, overflows the stack or an integer, or runs forever, and it leaves the input untouched. The error it returns can be formatted and its source chain walked, and a replay it returns can be serialized.",
 ["inputs", "configurations"], "every byte string x 3 checksum policies x 3 network policies",
 "The tests parse about 140 fixed files, a few of them broken; arbitrary damage, hostile nesting and random network bits are outside that sample.",
 ["src/parser.rs", "src/header.rs", "src/core_parser.rs", "src/bits.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs", "src/errors.rs"],
 [("checked reads that return an error when data runs out", "src/core_parser.rs CoreParser::take_*, src/bits.rs"), ("nesting limit of header properties", "src/header.rs parse_nested_rdict"), ("list, text and frame limits", "src/core_parser.rs repeat, src/network/mod.rs parse")],
 ["ParserBuilder::parse", "Display/Debug/source of ParseError", "Serialize of Replay"],
 "Random, damaged, hostile and near-valid inputs under all nine option combinations, in worker processes with 2 MB thread stacks, overflow checks and debug assertions on; a signal or 60 s of CPU time counts as a violation.")

prop("C02", "Header fidelity",
 "For every well-formed header, the parsed replay holds exactly the version numbers, game type and property list that were written: same keys, same order, duplicates kept, same types and bit-identical values at any nesting, with declared property sizes ignored and the conventions of each file version respected. The typed accessors of a property return its value for the matching type and nothing for any other. A header that is not well-formed is rejected with the error that describes its first defect.",
 ["inputs"], "all well-formed headers of every version, and damaged variants of them",
 "Tests cover single properties cut from one replay and snapshots of real files; they do not cover combinations, orderings, duplicates, versions, wrong sizes or damage.",
 ["src/header.rs", "src/models.rs", "src/core_parser.rs", "src/parser.rs"],
 [("recursive property list decoding", "src/header.rs parse_rdict, array_property"), ("accessors", "src/models.rs HeaderProp")],
 ["Replay::properties and version fields", "HeaderProp::as_*"],
 "Headers are generated together with the value they encode and compared field by field; damaged headers are compared with the reference decoder. " + REF)

prop("C03", "Body and footer fidelity",
 "For every well-formed body, the parsed replay holds exactly the levels, keyframes, debug entries, tick marks, packages, objects, names, class indices and class network cache that were written, in order, with header and content sizes and stored checksums, whatever network data lies between and whatever follows the body. A body that is not well-formed is rejected with the error that describes its first defect.",
 ["inputs"], "all well-formed bodies and damaged variants of them",
 "Snapshot tests see the lists of real replays only, where some lists are always empty and indices always small.",
 ["src/parser.rs", "src/core_parser.rs", "src/models.rs"],
 [("section splitting", "src/parser.rs Parser::parse, crc_section"), ("list decoders", "src/parser.rs parse_body, parse_tickmarks, parse_keyframe, parse_debuginfo, parse_classindex, parse_classcache")],
 ["all list fields of Replay"],
 "Bodies are generated together with the lists they encode and compared; damaged bodies are compared with the reference decoder. " + REF)

prop("C04", "Text decoding",
 "Text with a positive size decodes as Windows-1252 and text with a negative size as UTF-16LE (unpaired surrogates replaced), without its terminator, to the same string wherever in the file it occurs, including at any bit offset inside the network data; size 0 is the empty text. Property names and class names must be UTF-8, and anything else is rejected.",
 ["inputs"], "every Windows-1252 byte, every UTF-16 unit, and generated texts of all sizes in every place that holds text",
 "Tests decode three fixed strings.",
 ["src/parsing_utils.rs", "src/core_parser.rs", "src/bits.rs", "src/network/attributes.rs"],
 [("byte text", "src/core_parser.rs parse_text, parse_str"), ("bit stream text", "src/network/attributes.rs decode_text"), ("encodings", "src/parsing_utils.rs decode_windows1252, decode_utf16")],
 ["strings of Replay, Attribute::String"],
 "All 256 single bytes and all 65,536 UTF-16 units are enumerated, plus generated texts; expected values come from a table in the harness, not from boxcars or its encoding library. " + REF)

prop("C05", "calc_crc is the documented CRC-32",
 "For every byte sequence, calc_crc returns the MSB-first CRC-32 with polynomial 0x04C11DB7 and the game's initial value and final inversion, independent of length and alignment of the slice.",
 ["inputs"], "all byte slices of any length and alignment",
 "Tests compare fixed inputs; the implementation has separate paths for 16-byte chunks, tails and table rows that a sample need not reach.",
 ["src/crc.rs", "src/data.rs", "src/lib.rs"],
 [("slicing-by-16 loop and tail", "src/crc.rs calc_crc")],
 ["calc_crc"],
 "Differential against a bit-at-a-time CRC, plus linearity under single bit flips, lengths 0 to several KB at every alignment.")

prop("C06", "Checksum policies",
 "With checksums always checked, a replay is accepted only if both stored checksums are right, and a wrong one is reported with the stored and the computed value before any content of that section is judged. With checksums checked on error, readable sections are accepted whatever their checksums, and a section that cannot be read is reported as corrupt (naming the section and wrapping the cause) exactly if its checksum is wrong, otherwise with the plain cause. With checks off, the stored checksums influence nothing but the two fields that show them.",
 ["inputs", "configurations", "fault_sequences"], "files with every combination of readable/unreadable sections and right/wrong checksums under the three policies",
 "Tests exercise two fixed corrupt files.",
 ["src/parser.rs", "src/crc.rs"],
 [("policy dispatch", "src/parser.rs Parser::crc_section")],
 ["result of parse under CrcCheck::{Always,OnError,Never}"],
 "All eight combinations per generated file, the rule itself restated in the check and a bit-level CRC; " + REF)

prop("C07", "Network policies",
 "Skipping network data yields the same replay as decoding it except that it has no frames; decoding with errors ignored yields the frames that mandatory decoding yields when that succeeds and none when it fails, and never fails where skipping succeeds. Mandatory decoding fails only for reasons in the network data, and header and body errors are the same under all three. Defaults are checksum on error and ignored network errors, every spelling of an option is equivalent, the last one wins, and a header without a frame count has an empty frame list.",
 ["inputs", "configurations"], "files and damaged files x 9 option combinations x sequences of builder calls",
 "Tests use one policy per fixed file and never relate the outcomes of different policies.",
 ["src/parser.rs", "src/network/mod.rs"],
 [("policy dispatch", "src/parser.rs Parser::parse"), ("builder", "src/parser.rs ParserBuilder")],
 ["parse under every option combination"],
 "Metamorphic: relates results of the policies to each other; no model of the format is needed.")

prop("C08", "Frames replay the actor history written in the network data",
 "Decoding yields, frame by frame and in order, the times, deltas, new actors, updates and deletions that the bit stream holds, up to the declared number of frames or the end marker. An update resolves against the object its actor id was last created with and is rejected once the actor is deleted, at every id; re-creating an id replaces the previous actor. A history that breaks a rule (unknown actor, object, class or stream, time or delta out of range, missing data) fails with the error that names the rule, and asking for fewer frames yields a prefix.",
 ["histories", "inputs", "configurations"], "generated histories of create/update/delete over several frames, all id ranges and channel limits, with and without an injected fault",
 "Snapshots digest a few real matches; lifecycle corner cases (id reuse, ids above the array segment, deletion then update, markers, odd channel limits) do not occur in them.",
 ["src/network/frame_decoder.rs", "src/network/mod.rs", "src/network/models.rs", "src/bits.rs"],
 [("frame loop", "src/network/frame_decoder.rs decode_frames, decode_frame"), ("actor table", "src/network/frame_decoder.rs SegmentedArray")],
 ["Replay::network_frames", "NetworkError/FrameError"],
 "Model-based: a history is generated, encoded and compared with what an independent decoder reads; " + REF,
 state=[dict(name="actors", meaning="which object each live actor id stands for", where="src/network/frame_decoder.rs decode_frames")])

prop("C09", "Attribute payloads decode to the values written",
 "For every attribute kind and every file version, an update decodes to exactly the values its bits hold, under the layout that kind has at that version, and consumes exactly those bits, so that what follows in the stream is read correctly. Payload bits that are not a valid value are rejected with the error for that kind.",
 ["inputs", "configurations"], "all attribute kinds x file versions x generated or arbitrary payload bits",
 "Unit tests decode one or two fixed payloads of a few kinds; real replays reach only the versions and branches players happened to produce.",
 ["src/network/attributes.rs", "src/network/models.rs", "src/bits.rs"],
 [("per-kind decoders", "src/network/attributes.rs AttributeDecoder::decode*"), ("product values", "src/network/attributes.rs ProductValueDecoder")],
 ["Frame::updated_actors[].attribute"],
 "Every kind in turn, generated values encoded by the harness and arbitrary bits; both compared with the reference decoder. " + REF)

prop("C10", "Stream ids resolve through the class hierarchy",
 "The attribute a stream id stands for on an actor is the one its class, or its nearest listed ancestor, assigns to that id in the class network cache: attributes are inherited along the documented hierarchy, skipping ancestors that are not listed, a descendant's entry overrides an ancestor's, and the width of stream ids follows from the largest id in force. Parent and cache ids, the order of cache entries of different classes, and unrelated objects do not matter; an attribute without a known layout is an error only when an update uses it.",
 ["inputs", "programs"], "generated object lists and class network caches with inheritance, overrides, duplicates, unknown and unlisted entries",
 "Every real replay carries one of a handful of near-identical caches.",
 ["src/network/mod.rs", "src/network/object_index.rs", "src/data.rs"],
 [("attribute accumulation", "src/network/mod.rs net_traversal"), ("hierarchy walk", "src/network/object_index.rs hierarchy")],
 ["Frame::updated_actors[].{stream_id,object_id,attribute}"],
 "Generated caches resolved by an independent model, plus metamorphic changes to parts that must not matter. " + REF)

prop("C11", "New actors carry the spawn data their class and version call for",
 "A new actor has a name id exactly if the file version (and for one range, the match type) calls for it, a location exactly if its class or nearest listed ancestor spawns with one, and a rotation exactly if that one spawns with a rotation; the values are those in the stream, and the following bits are read from the right place.",
 ["inputs", "configurations"], "all catalogued classes and level instances x versions around every threshold x match types",
 "Real replays show each class under few versions and never with missing ancestors.",
 ["src/network/frame_decoder.rs", "src/network/mod.rs", "src/network/models.rs", "src/network/object_index.rs"],
 [("spawn resolution", "src/network/mod.rs parse (spawns)"), ("new actor decoding", "src/network/frame_decoder.rs parse_new_actor")],
 ["Frame::new_actors"],
 REF)

prop("C12", "Vectors, rotations and quaternions decode exactly",
 "The public decoders of integer vectors, float vectors, rotations, quaternions (both encodings) and trajectories return exactly the value in the bits for every size prefix, network version and bit offset, advance by exactly its length, and return nothing when the data ends inside it.",
 ["inputs", "configurations"], "all network versions, size prefixes, component values and bit offsets",
 "Tests decode one fixed value per type.",
 ["src/network/models.rs", "src/network/attributes.rs", "src/bits.rs"],
 [("decoders", "src/network/models.rs Vector3i, Vector3f, Rotation, Quaternion, Trajectory")],
 ["return value and reader position"],
 "Differential against independent decoders written over a plain bit array.")

prop("C13", "Truncation is detected",
 "No strict prefix of a file that parses and ends with its body is itself accepted as a replay, under any options. When only the network data is cut short, mandatory decoding either fails or returns frames that are a prefix of the original ones, and never a frame with values that were not in the file.",
 ["inputs", "crash_points", "configurations"], "every prefix of small generated files, sampled prefixes of larger and real ones, every cut of the network data",
 "The tests contain one truncated file.",
 ["src/parser.rs", "src/core_parser.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs", "src/bits.rs"],
 [("checked reads", "src/core_parser.rs, src/bits.rs"), ("missing data reported by each element", "src/network/attributes.rs")],
 ["result of parse on prefixes"],
 "Every prefix is a generated crash point. Metamorphic (prefix rejected, frames a prefix), plus the reference decoder. " + REF)

prop("C14", "Decoded frames survive serialization exactly",
 "Every frame, new actor, update and attribute, written with serde and read back, is the same value down to the bit, in JSON (whenever its floats are finite), CBOR and a compact format that is not self-describing.",
 ["inputs"], "frames and attributes of every kind with arbitrary values",
 "No test deserializes anything but fixed attribute samples; extreme integers, empty and missing parts, and other formats are not covered.",
 ["src/network/models.rs", "src/network/attributes.rs", "src/serde_utils.rs"],
 [("derived and custom serde implementations", "src/network/attributes.rs, src/network/models.rs, src/serde_utils.rs")],
 ["Serialize/Deserialize of Frame, NewActor, UpdatedAttribute, Attribute"],
 "Round trip through three formats, compared bit by bit through a serializer written for the harness.")

prop("C15", "Replay JSON carries every value, in order, without loss",
 "The JSON of a parsed replay is valid and carries every field and value of it: header properties as a map with order and repeated keys kept, 64-bit integers as decimal strings, floats that read back to the same value, byte and struct properties as objects with their names, absent parts as null, and every frame, attribute and list in order. Pretty and plain output carry the same document, and the other serde formats accept the replay as well.",
 ["inputs"], "parsed replays with arbitrary properties, lists and frames",
 "Snapshot tests show the JSON of a few real replays without duplicate keys, extreme numbers or unusual characters.",
 ["src/models.rs", "src/serde_utils.rs", "src/network/attributes.rs", "src/network/models.rs"],
 [("property map serialization", "src/models.rs pair_vec, HeaderProp"), ("64-bit integers as strings", "src/serde_utils.rs, src/models.rs")],
 ["serde_json::to_string(&Replay)"],
 "The output is read by a JSON parser that keeps order and repetitions and compared with the value; attribute names and values are taken from the derived Debug form.")

prop("C16", "Parsing is a function of the bytes",
 "Parsing the same bytes with the same options gives the same replay or the same error, with identical text and JSON, whatever was parsed before, at whatever address the bytes lie, on however many threads at once, and whatever follows the body.",
 ["inputs", "schedules", "histories"], "repeated, relocated, interleaved and concurrent parses of valid, faulty and damaged files",
 "Tests parse each file once per process.",
 ["src/parser.rs", "src/network/mod.rs", "src/network/frame_decoder.rs", "src/errors.rs"],
 [("no shared state; hash maps keyed deterministically", "src/network/mod.rs")],
 ["result, Display, Debug and JSON of parse"],
 "Metamorphic; concurrency is sampled by real threads, not enumerated.")

prop("C17", "Memory stays in proportion to the input",
 "The memory parsing holds at any moment is bounded by a constant plus a multiple of the size of the input, whatever lengths, counts and limits the input declares.",
 ["inputs"], "declared list lengths, text sizes, frame counts, nesting and network sizes, true and false, plus valid and damaged files",
 "No test measures memory, and real files declare what they contain.",
 ["src/core_parser.rs", "src/header.rs", "src/network/mod.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs"],
 [("list limit before reservation", "src/core_parser.rs repeat"), ("frame count limit", "src/network/mod.rs parse"), ("text limits", "src/core_parser.rs parse_text, src/network/attributes.rs decode_text")],
 ["peak heap of parse, through the global allocator"],
 "Peak heap of the parsing thread against 3 MB + 60 bytes per input byte + 500 per byte of network data (measured use stays below half of it) and 0.7 MB per level of declared nested arrays. Known finding F1 (objects x inherited attributes) is allowed only up to 400 bytes per pair.")

prop("C18", "Limits",
 "Lists of up to 25,000 elements and texts of up to 10,000 characters (in the network data 1,024 bytes or 512 UTF-16 units) are accepted in full; longer or negative counts are rejected as too large without being read, everywhere lists and texts occur. A frame count larger than the number of network bytes, or negative, is rejected as such.",
 ["inputs"], "every list, every kind of text and the frame count at, next to and far beyond its limit",
 "No test goes near a limit.",
 ["src/core_parser.rs", "src/network/attributes.rs", "src/network/mod.rs"],
 [("list limit", "src/core_parser.rs repeat"), ("text limit", "src/core_parser.rs"), ("network text limit", "src/network/attributes.rs decode_text"), ("frame limit", "src/network/mod.rs parse")],
 ["result of parse"],
 "Exhaustive over places x boundary values; " + REF)

prop("C19", "Errors tell what is wrong",
 "Every error names what went wrong: the part and the offset at which reading stopped for header and body errors, the offending numbers (a size and what was left for it), name or kind, and for network errors the frame reached, the actor, the stream and the object names involved. Its source chain leads from the outermost error to the cause.",
 ["inputs", "fault_sequences"], "errors of all kinds from damaged files and faulty histories",
 "Tests match a few messages of fixed corrupt files.",
 ["src/errors.rs", "src/parser.rs", "src/header.rs", "src/network/frame_decoder.rs"],
 [("section and offset wrapping", "src/parser.rs, src/header.rs"), ("frame context", "src/errors.rs FrameContext")],
 ["Display, source of ParseError, NetworkError, FrameError, AttributeError"],
 "The damaged place is known to the generator; messages are only required to contain the facts, not a wording.")

prop("C20", "Every catalogued attribute, class and spawn kind keeps its meaning",
 "Each attribute name the library knows decodes under its layout, and each class it knows spawns as catalogued and inherits the attributes of each of its catalogued ancestors, in files of any version.",
 ["inputs", "configurations"], "every entry of the three catalogues, in whole files with generated values",
 "Real replays use a part of the catalogue; an altered entry for the rest goes unnoticed.",
 ["src/data.rs"],
 [("catalogues", "src/data.rs")],
 ["decoded frames"],
 "The catalogue as of the pinned commit, copied into harness/src/tables.rs, is the oracle; every entry is decoded at least once per run. Entries added later are not judged.")

prop("C21", "Agreement with a second decoder",
 "For real replays, and for real replays damaged anywhere, the library and an independently written decoder agree: both accept with identical contents, including every frame, or both reject for the same reason.",
 ["inputs"], "all replays in the repository and damaged versions of them",
 "Snapshots pin digests of undamaged files only.",
 ["src/parser.rs", "src/network/mod.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs", "src/header.rs"],
 [("whole parser", "src/parser.rs Parser::parse")],
 ["parse"],
 REF)

SCHEMA_KEYS = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in SCHEMA_KEYS}) + "\n")

TECH = {
 "C05": "property-based testing: differential against a bitwise CRC",
 "C07": "property-based testing: metamorphic relations between policies",
 "C08": "model-based property testing of generated actor histories against a reference decoder",
 "C14": "property-based testing: serde round trip in three formats",
 "C16": "property-based testing: metamorphic (repeat, relocate, interleave, concurrent)",
 "C17": "property-based testing with a measuring allocator",
 "C01": "fuzzing with structured generators and a crash/hang oracle",
 "C13": "property-based testing: prefixes as crash points, metamorphic and differential",
 "C21": "differential fuzzing of real and damaged replays against a reference decoder",
}
m = dict(version=1, setup_cmd="bash ./check.sh setup",
  checks=[dict(property=p["id"], quick_cmd=f"bash ./check.sh {p['id']}",
     thorough_cmd=f"VERIF_TIER=thorough bash ./check.sh {p['id']}",
     technique=TECH.get(p["id"], "property-based testing: generated inputs against the values they encode and a reference decoder"),
     level="exploration", level_note=p["_note"]) for p in P],
  not_applicable=[],
  notes="No hooks: every check uses boxcars through its public API. See DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
for p in P:
    assert len(p["title"]) <= 80
