#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEC = "internal/prutal/decoder.go"
ENC = "internal/prutal/encoder.go"
SIZ = "internal/prutal/sizer.go"
SPAN = "internal/prutal/span.go"
MAPD = "internal/wire/decoder_map.go"
MAPE = "internal/wire/encoder_map.go"
MAPS = "internal/wire/size_map.go"
PKD = "internal/wire/decoder_packed.go"
PKE = "internal/wire/encoder_packed.go"
LSE = "internal/wire/encoder_list.go"
WENC = "internal/wire/encoder.go"
WDEC = "internal/wire/decoder.go"
WSIZ = "internal/wire/size.go"
PW = "internal/protowire/wire.go"
HACK = "internal/hack/hack.go"
DESC = "internal/desc/desc.go"
TYPE = "internal/desc/type.go"
TAG = "internal/desc/tag.go"
MAPC = "internal/desc/map.go"
UTIL = "internal/desc/utils.go"
FUNCS = "internal/desc/funcs.go"
API = "prutal.go"

T0 = "The tests decode or encode a few dozen hand-written messages; "

P = []
def prop(id, title, stmt, over, quant, why, files, mech, note="", state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    a["observe_at"] = observe or ["Marshal", "MarshalAppend", "Size", "Unmarshal"]
    a["hook_needed"] = None
    P.append(dict(p=dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=a), note=note))

prop("C01", "Singular scalar fields decode as the protobuf encoding prescribes",
 "For every well-formed input, each singular scalar field of a message (all 15 scalar kinds and enums, plain or optional) ends up with exactly the value the last occurrence of that field number on the wire encodes, with protobuf's rules for varint width, truncation to 32 bits, zig-zag and bool. Fields that do not occur keep their zero value (or stay absent when optional). Field numbers of any size up to the maximum are matched exactly, in any order, with unknown fields in between.",
 ["inputs"], "every value of every scalar kind, every varint length from 1 to 10 bytes including non-minimal ones, every order of occurrences, every field number",
 T0 + "a varint alone has 2^64 values in up to ten lengths, times kinds, field numbers and orders.",
 [DEC, WDEC, PW, TYPE], [("field loop and scalar decoding", DEC), ("varint parsing", PW), ("zig-zag", PW), ("lookup of a field by number", DESC)])

prop("C02", "Repeated fields decode packed and unpacked input, in order",
 "A repeated field holds, after decoding, every element on the wire in wire order, whatever mix of packed records and single elements they arrive in and whether or not the field is declared packed. Elements already decoded are never lost, duplicated or changed while the list grows, and empty packed records add nothing. This holds for every element kind, including strings, byte strings and messages held by pointer or by value.",
 ["inputs"], "every interleaving of packed runs and single elements, every element value and varint length, lengths across the growth steps of the list",
 T0 + "they use short lists in one encoding at a time, and almost no mixture of encodings or growth boundary.",
 [DEC, PKD, HACK], [("packed list decoders", PKD), ("slice growth", DEC), ("slice header manipulation", HACK)])

prop("C03", "Map fields decode every valid entry",
 "For every map type and every well-formed map entry, decoding stores the entry's key and value under protobuf's rules: either part may be missing (zero value, or an empty message), they may come in either order or be repeated (the last one counts), unknown fields inside an entry are skipped, and a later entry replaces an earlier one with the same key. Entries with different keys never disturb each other.",
 ["inputs"], "all 12 key kinds times all value kinds, every key and value, every entry shape, up to two entries",
 "There are over 180 key/value combinations with specialised code for many; tests exercise a handful with entries in canonical shape.",
 [DEC, MAPD, TYPE], [("specialised map decoders", MAPD), ("generic map decoder", DEC), ("choice of decoder per key and value kind", FUNCS)])

prop("C04", "A oneof holds the last member on the wire, and keeps zero members",
 "After decoding, a oneof holds exactly the member that occurred last on the wire, with its value, for scalar, string, bytes, enum and message members, and a message member that occurs repeatedly is merged. When encoding, the member that is set is always written, even when its value is zero or empty, and nothing is written for an unset oneof. Two oneofs in one message, and oneofs next to ordinary fields, do not influence each other.",
 ["inputs"], "every sequence of up to three oneof members with every value; every oneof state when encoding; both ways generated code declares the wrapper types",
 "Tests set one non-zero member at a time; sequences of members and zero members are a product they do not enumerate.",
 [DEC, ENC, SIZ, DESC, TYPE], [("wrapper lookup and allocation", DEC), ("encoding through the interface field", ENC), ("discovery of wrapper types", DESC)])

prop("C05", "Concatenated encodings merge; decoding adds to a populated message",
 "Decoding the concatenation of two inputs gives the same message as decoding the first and then decoding the second into the result. Scalars are overwritten, lists are appended to, map entries are added or replaced, and singular message fields are merged field by field at every depth. In a concatenation unknown fields accumulate in order; a separate decode starts the unknown fields kept by the outermost message afresh.",
 ["inputs", "histories"], "every pair of well-formed inputs within the bounds, for every field shape",
 "No test decodes into a populated message in more than one or two ways; the property is about pairs of inputs.",
 [DEC, MAPD, PKD], [("reuse of an allocated sub-message", DEC), ("append instead of replace", DEC), ("map insertion", MAPD)])

prop("C06", "Encoding produces a valid, exact and minimal encoding of the message",
 "Whatever message is encoded, the bytes are well-formed protobuf that, read by an independent decoder, give exactly the populated fields of the message and nothing else: right field numbers, wire types, values, list order, packed or unpacked as declared, and every length prefix equal to what follows it. The encoding is as short as the format allows, so unset fields and zero values of fields without presence are not written, and unknown fields held by the message are written unchanged.",
 ["inputs"], "every value of every field of every kind, presence state, list length, map content and nesting within the bounds; payload lengths around the points where the length prefix grows",
 T0 + "they compare outputs for chosen values; length-prefix boundaries, sign extension and mixes of fields are unbounded.",
 [ENC, WENC, LSE, PKE, MAPE, PW], [("message encoder", ENC), ("append functions per kind", WENC), ("map encoders", MAPE), ("packed encoders", PKE)])

prop("C07", "Decoding what was encoded gives the same message back",
 "For every message, encoding succeeds (within the nesting limit) and decoding the result into an empty message gives an equal message, including field presence, oneof members, list order, map contents, nested messages and unknown fields.",
 ["inputs"], "every message of the checked types within the bounds on populated fields, list and map sizes, string lengths and nesting",
 T0 + "round trips are tested on one filled-in message per feature, not over all values and combinations.",
 [ENC, DEC, WENC, WDEC, MAPE, MAPD, PKE, PKD], [("encoder", ENC), ("decoder", DEC)])

prop("C08", "The computed size is the length of the encoding",
 "For every message, the size computed without encoding equals the number of bytes that encoding it produces, and whenever one of the two reports an error, so does the other. This holds for all field kinds, nested length prefixes, oneofs, maps and unknown fields.",
 ["inputs"], "every message within the bounds, and payload lengths around every point where a length prefix grows",
 "Sizer and encoder are separate code with per-kind specialisations; tests compare them on a few fixed messages.",
 [SIZ, WSIZ, MAPS, ENC], [("sizer", SIZ), ("size functions per kind", WSIZ), ("map sizers", MAPS)])

prop("C09", "Appending an encoding leaves the rest of the buffer alone",
 "Appending an encoded message to a buffer returns the buffer's old contents followed by exactly the bytes that encoding into an empty buffer gives, whatever the buffer's length and spare capacity. Bytes before the insertion point and bytes of the underlying array beyond the result are never altered.",
 ["inputs", "configurations"], "every prefix and every amount of spare capacity around the size of the encoding, for every field shape",
 "Tests append to nil or to an ample buffer; the case that matters is capacity running out in the middle of a length-prefixed part.",
 [ENC, WENC, MAPE, LSE, PKE], [("length prefix insertion", ENC), ("append functions", WENC)])

prop("C10", "Encoding and sizing only read the message and can be repeated",
 "Encoding or sizing a message changes neither the message nor anything it refers to, including lists, maps, byte strings and unknown fields, and the result refers to memory of its own. Doing it again gives the same result (up to the order of map entries), so several encodings of one message cannot influence each other.",
 ["inputs", "histories"], "every message within the bounds, encoded and sized repeatedly",
 "Tests look at the output, not at whether the source was written to or is shared with the output.",
 [ENC, SIZ, MAPE, HACK], [("field access through raw pointers", ENC), ("map iteration", HACK), ("shared scratch buffers", "internal/prutal/prutal.go")])

prop("C11", "Malformed and truncated input is rejected, valid input is accepted",
 "Decoding returns an error for every input that is not a well-formed message: truncated fields, overlong or overflowing varints, lengths beyond the end, illegal field numbers or wire types, unmatched group markers, and malformed packed runs, map entries or nested messages. It returns no error for every well-formed input whose fields have the declared wire types, and nothing after a malformed point is ever taken for valid data.",
 ["inputs"], "every byte string up to the stated length, and every proper prefix of every generated well-formed input",
 "Malformed inputs are an open set: tests list about a dozen.",
 [DEC, MAPD, PKD, PW, WDEC], [("bounds checks of the field loop", DEC), ("varint overflow checks", PW), ("group skipping", PW), ("length checks in packed and map decoders", PKD)])

prop("C12", "No input makes decoding crash or touch memory it should not",
 "Whatever bytes are decoded, into an empty or an already populated message, decoding returns normally or with an error: it never panics, never loops forever and never reads or writes outside the input and the message. A message left behind by a failed decode is still safe to read, encode and size.",
 ["inputs"], "every byte string up to the stated length for every message shape, into empty and populated messages",
 "The decoder works with raw pointers and unchecked memory; a test only covers the byte strings it contains.",
 [DEC, MAPD, PKD, HACK, SPAN, PW], [("unsafe pointer arithmetic", DEC), ("bounds checks", PW), ("bump allocator", SPAN)])

prop("C13", "Decoded messages share no memory with the input or each other",
 "After decoding, changing the input buffer changes nothing in the decoded message, and changing or appending to any string, byte string or list of one field never affects another field, another message or the input. Unknown fields kept by the message are copies as well.",
 ["inputs", "histories"], "every well-formed input within the bounds, every byte of the input overwritten afterwards, every list and byte string appended to",
 "Tests compare decoded values right away and do not mutate buffers afterwards; the allocator that packs several values into one block makes neighbours adjacent.",
 [DEC, SPAN, MAPD], [("copying allocator", SPAN), ("string and bytes decoding", DEC)])

prop("C14", "What decoding leaves behind depends only on the input",
 "The result of decoding is determined by the input and the message decoded into: decoding the same bytes again, after any other decoding and whatever the heap held before, gives the same outcome and the same message. Leftover contents of recycled or spare memory, including the unused capacity of existing lists, never show up in a decoded message, also when decoding fails half-way.",
 ["inputs", "histories"], "every byte string up to the stated length, with arbitrary prior heap contents; every well-formed input into lists with stale capacity",
 "A test process rarely has dirty recycled memory at the right place, so leaks of old contents do not show.",
 [DEC, SPAN, HACK, MAPD], [("zeroing of reused memory", DEC), ("pooled decoders and temporaries", "internal/prutal/prutal.go"), ("uncleared block allocation", SPAN)])

prop("C15", "Memory used for decoding is proportional to the input",
 "Decoding an input of n bytes allocates at most a fixed constant plus a fixed multiple of n, no matter what lengths, counts or nesting the input claims. A short input can therefore not make the decoder reserve memory for data that is not there.",
 ["inputs"], "every byte string up to the stated length for every message shape",
 "It needs an adversarial length field; tests use honest ones.",
 [DEC, PKD, MAPD, SPAN], [("preallocation of lists", DEC), ("element counting of packed runs", PKD), ("block sizes", SPAN)])

prop("C16", "Nesting is limited to the same depth in decoding, encoding and sizing",
 "Messages nested up to the documented limit of 1000 levels decode, encode and size successfully, and deeper ones are rejected with an error by all three, no matter whether the nesting runs through singular fields, lists, maps or oneofs in any mixture. Whatever one of the operations accepts the others accept, so an accepted message can be sent on.",
 ["inputs", "programs"], "depths around the limit through every combination of singular, list and map steps",
 "Tests try one kind of nesting at one depth; the operations count levels independently.",
 [DEC, ENC, SIZ], [("depth counter of the decoder", DEC), ("depth counter of the encoder", ENC), ("depth counter of the sizer", SIZ)])

prop("C17", "Unknown fields survive decoding and encoding",
 "A message type that keeps unknown fields retains, byte for byte and in order, every field of the input it has no declaration for, including groups and fields inside nested messages, and writes them out again when encoded or sized. A type that does not keep them drops them without affecting any known field. Decoding into a message again leaves it with the unknown fields of the new input, each exactly once.",
 ["inputs", "histories"], "every sequence of known and unknown fields of all wire types within the bounds, for every way a type can keep them",
 "Tests have one or two unknown fields of simple wire types in one place.",
 [DEC, ENC, SIZ, DESC, PW], [("collection of unknown fields", DEC), ("skipping of fields and groups", PW), ("detection of the holding field", DESC)])

prop("C18", "Everything a decoded message refers to stays visible to the collector",
 "All memory reachable from a decoded message is kept alive by it: no pointer is ever stored where the garbage collector does not look. A collection at any later time leaves every string, byte string, list, map and nested message intact.",
 ["inputs", "schedules"], "every well-formed input within the bounds, a collection at any point after decoding",
 "A lost pointer only shows when a collection happens at the right moment and the memory is reused.",
 [DEC, SPAN, HACK, MAPD], [("choice between pointer-free and scanned allocation", DEC), ("block allocator", SPAN), ("raw memory clearing and growth", HACK)])

prop("C19", "Struct tags mean what they say",
 "A field is encoded and decoded under exactly the field number and with exactly the encoding its protobuf struct tag states, wherever in the tag they stand; names and default values in a tag never act as options, whatever text they contain. A type with a tag that lacks a supported encoding or a field number from 1 to 536870911, or in which two fields have the same number, is refused with an error by every operation.",
 ["inputs", "programs"], "every sequence of digits as a field number within the bounds, every text of names and default values, every pair of field numbers",
 "Tests use a few fixed tags; numbers span 2^29 values in up to ten digits plus everything too large, and default values are free text.",
 [TAG, DESC], [("parsing of struct tags", TAG), ("field table and duplicate check", DESC)],
 note="Struct types are built with reflect.StructOf from tags whose characters are symbolic.")

prop("C20", "Only struct types that can be represented are accepted",
 "Every operation refuses, with an error, a message type that has a field whose Go type cannot hold what its protobuf tag declares (wrong kind or width for the encoding, pointer to pointer, slice of slices, map of maps, slices without rep, wrong map keys and so on), and accepts the types the generators produce. For every accepted type, any input at all leaves memory intact: only the declared fields and the holder of unknown fields change, and the result can be encoded, sized and decoded again. A field is a holder of unknown fields only if it is a direct field of type []byte or *[]byte.",
 ["programs", "inputs"], "every combination of 30 Go types in 8 shapes, 6 encodings and 3 labels, map keys and values likewise; every short input for the accepted ones",
 "Tests name some twenty bad types; the product of Go types, shapes, encodings and labels has thousands of members, and one wrongly accepted type lets input overwrite memory.",
 [DESC, TYPE, UTIL, FUNCS], [("check of types against tags", DESC), ("kinds allowed per encoding", UTIL), ("parsing of Go types", TYPE), ("choice of codec functions", FUNCS)])

prop("C21", "Neither concurrency nor the order of first uses changes any outcome",
 "Any number of goroutines may decode, encode and size messages at the same time, including encoding one shared message and including the very first use of message types that refer to each other: every call returns what it returns when made alone, there is no data race, deadlock or crash. Likewise the order in which types are first used never matters, also when some use of a type that cannot be supported failed before.",
 ["schedules", "histories"], "every schedule of two goroutines with a bounded number of preemptions at synchronisation operations, data races decided by happens-before; every order of first uses within the bounds",
 "Type descriptors are parsed once per process behind a lock and a lock-free table; a test runs one schedule and one order.",
 [DESC, TYPE, MAPC, "internal/prutal/prutal.go"], [("descriptor parsing under a lock", DESC), ("lock-free descriptor table", MAPC), ("type cache and failed parses", DESC), ("pooled decoders", "internal/prutal/prutal.go"), ("pooled map temporaries", TYPE)],
 note="Preemptions are bounded (parameter sw); goroutines switch at synchronisation operations only, which is complete for programs without data races, and races are reported separately.")

G = "prutalgen/pkg/prutalgen/"
GOBS = ["the prutalgen command: .proto files in, Go code out", "prutalgen.Loader", "prutalgen.GoCodeGen"]
GT = "The tests of the generator hold a few hand-written .proto files; "

prop("C22", "Numbers in a .proto file mean what they say",
 "A field number, enum number or reserved range written as any integer literal (decimal, octal or hexadecimal, with a sign where allowed) is taken at exactly its value, or the file is refused when the text is no literal or the number is not allowed there. Accepted are all field numbers from 1 to 536870911 except 19000 to 19999, and all enum numbers from -2147483648 to 2147483647. A message or enum is refused exactly when a number occurs twice (enums: without allow_alias), or a number or name that it uses is reserved; ranges include both ends, 'max' and several ranges per statement, oneof members and map fields count, and nested declarations do not. The generated code, its tags and its enum tables carry the same numbers.",
 ["inputs"], "every integer literal around each limit in every base; every combination of numbers, ranges and names of the stated sizes",
 GT + "the literals, ranges and their collisions are products that only the limits of 29, 31, 32 and 64 bits make interesting.",
 [G + "field.go", G + "enum.go", G + "reserved.go", G + "utils.go", G + "code.go"], [("field numbers", G + "field.go"), ("enum numbers and aliases", G + "enum.go"), ("reserved numbers and names", G + "reserved.go"), ("generated enum tables and struct tags", G + "code.go")], observe=GOBS)

prop("C23", "A generated field is encoded as its declaration says",
 "For every combination of field type, label (singular, optional, required, repeated, oneof member, map key or value), syntax (proto2, proto3, edition 2023 with field_presence and repeated_field_encoding at file or field level), packed option and pointer option, the generated Go field has the type the declaration asks for, and a value of the generated type decoded and encoded by this library has exactly the encoding protobuf prescribes for the declaration: field number, wire type, zig-zag, packing, and presence of zero values.",
 ["inputs", "configurations"], "every combination of type, label, syntax, packing and pointer options; every value of a field within the bounds",
 GT + "the rules for packing and presence interact over four syntaxes and three levels of options, several hundred combinations.",
 [G + "field.go", G + "code.go", G + "type.go", G + "consts.go", G + "option.go", TAG, DESC], [("presence, packing and pointer rules", G + "field.go"), ("generated struct tags", G + "code.go"), ("types of scalars", G + "consts.go"), ("options", G + "option.go")], observe=GOBS + ["Marshal", "Unmarshal"])

prop("C24", "String literals have the value they spell",
 "A string literal in a .proto file has exactly the bytes it spells: every escape sequence stands for its byte, either quote may be used and the other needs no escape, and adjacent literals are joined. A file with text that is no valid literal is refused.",
 ["inputs"], "every literal of the stated length, alone and adjacent to others",
 GT + "three-byte literals alone number in the millions, and escapes are decided by what follows them.",
 [G + "utils.go", G + "option.go", "prutalgen/internal/protobuf/text/decode_string.go"], [("unquoting", "prutalgen/internal/protobuf/text/decode_string.go"), ("option values", G + "option.go")], observe=GOBS)

prop("C25", "Comments never change the generated code",
 "A comment of any text (without a directive, NUL or byte order mark) at any place between two tokens of a .proto file changes neither whether the file is accepted nor any declaration of the generated code, which stays valid Go.",
 ["inputs"], "every comment text of the stated length in every form at every place of a file with every kind of declaration",
 GT + "comments are copied into the generated code at many places, each with its own formatting, and a few characters (line ends, '%', '*/', backquotes) matter.",
 [G + "comment.go", G + "codewriter.go", G + "code.go", G + "prutalgen.go"], [("comments attached to declarations", G + "comment.go"), ("writing code", G + "codewriter.go"), ("comments in generated code", G + "code.go")], observe=GOBS)

prop("C26", "Type references mean the type protobuf's scoping rules select",
 "A type name used in a field, map or method refers to the declaration that protobuf's rules select: innermost scope first, through nested messages and the components of the package, names with a leading dot from the root, over the file itself, its imports and their public imports. References that no rule resolves are refused, and so are types of files that are not imported. Messages and enums are never confused.",
 ["programs"], "every arrangement of equal and different names of nested messages, enums and packages, and every reference of up to three parts, within the bounds",
 GT + "shadowing needs equal names at several levels, and the arrangements of names, packages, imports and references number in the thousands.",
 [G + "type.go", G + "proto.go", G + "message.go", G + "utils.go"], [("resolution of references", G + "type.go"), ("search in files and imports", G + "proto.go"), ("search in messages", G + "message.go")], observe=GOBS)

prop("C27", "Code of files in several Go packages compiles and refers to the right types",
 "Whatever import paths and package names the files of a program are given, by go_package options or M options (which take precedence), the code generated for each file compiles together with the others: imports name the right packages and nothing is imported unused, package names are valid identifiers and are used consistently, also when packages have the same name, a name already in use or a path whose last element is no identifier. References denote the types of the right package.",
 ["configurations"], "every package path with the stated number of arbitrary characters after several prefixes, with and without explicit names, against several other packages",
 GT + "names clash only for particular pairs of paths, and tests use distinct plain ones.",
 [G + "proto.go", G + "type.go", G + "code.go", G + "codewriter.go", G + "prutalgen.go", "prutalgen/pkg/utils/args/go_opts.go"], [("Go packages of files", G + "proto.go"), ("import names", G + "proto.go"), ("imports of generated code", G + "codewriter.go"), ("command line options", "prutalgen/pkg/utils/args/go_opts.go")], observe=GOBS)

prop("C28", "Every declaration appears in the generated code under its protoc-gen-go name",
 "Each message, nested message, enum, enum value, field, oneof and oneof member of a .proto file has its declaration in the generated code, under the name protoc-gen-go gives it (camel-casing, prefixes of enclosing messages and enums, underscores added on collisions with methods, getters and nested types), with its original name in struct tags and enum tables; there are no other declarations, and the code is valid Go.",
 ["inputs"], "every identifier of the stated length after several prefixes, for each of nine kinds of names in a file with all kinds of declarations",
 GT + "camel-casing and conflicts depend on letters, digits and underscores at particular places and on pairs of names.",
 [G + "message.go", G + "field.go", G + "enum.go", G + "oneof.go", G + "code.go", "prutalgen/internal/protobuf/strs/strings.go"], [("names of messages and conflicts", G + "message.go"), ("names of oneofs", G + "oneof.go"), ("names of enum values", G + "enum.go"), ("generated declarations", G + "code.go")], observe=GOBS)

prop("C29", "Generator directives and options take effect where they are given",
 "The directives no_pointer, no_enum_prefix, no_enum_mapping, unknown_fields and no_unknown_fields (in comments starting //prutalgen:, alone or in a list) and the gogoproto options they correspond to take effect exactly on the declaration they are given for, and on those inside it: file, message, enum, enum value or field, before the declaration or behind it. The more specific place decides over the more general, and a directive over options. Anything else in comments has no effect.",
 ["inputs", "configurations"], "every directive in eight spellings with an arbitrary character, at every place, with every setting of the competing options, nested and top-level",
 GT + "the tests name each directive once at one place; spelling, place and precedence multiply.",
 [G + "directive.go", G + "comment.go", G + "field.go", G + "enum.go", G + "message.go", G + "option.go"], [("parsing of directives", G + "directive.go"), ("comments of declarations", G + "comment.go"), ("pointer rule", G + "field.go"), ("enum prefix and mapping", G + "enum.go"), ("unknown fields", G + "message.go")], observe=GOBS)

prop("C30", "Services are reported to code generators as declared",
 "For every service of a .proto file, the loader reports its methods in order with their names, Go names, comments, options, request and response types (resolved by the scoping rules, with their Go package) and, for each side separately, whether it is a stream.",
 ["inputs"], "every name of the stated length after several prefixes, also names that look like keywords; every combination of streams, references and method endings",
 GT + "a method has four independent places for streams and names, and the tests have two methods.",
 [G + "service.go", G + "type.go", G + "option.go", G + "comment.go"], [("services and methods", G + "service.go"), ("type references", G + "type.go"), ("options", G + "option.go")], observe=["prutalgen.Loader"])

prop("C31", "Imports are loaded once, in order, from the right place; cycles are refused",
 "Loading a .proto file loads every file it imports directly or indirectly exactly once, and reports them so that each file comes before the files it imports; import cycles and missing files are refused. A file is taken from the first include directory that has it. The generated file is written, once and with nothing else, at the place its import path or its source path says, is valid Go for any command line, and belongs to the package declared.",
 ["programs", "configurations"], "every import graph over up to four files (with cycles: three), in both orders of import statements; every distribution of a file over three include directories",
 GT + "they have one graph; there are hundreds over four files.",
 [G + "prutalgen.go", G + "utils.go", G + "code.go"], [("loading of imports", G + "prutalgen.go"), ("topological order", G + "utils.go"), ("search in include directories", G + "prutalgen.go"), ("placing of output", G + "code.go")], observe=GOBS)

NOTE = ("Bounded: every path of the harness over the SSA of the current source is explored with symbolic inputs, and every assertion and memory access is decided by z3 "
        "(cvc5 re-decides assertions in the thorough tier); nothing is claimed outside the bounds printed in the evidence. Trusted: the symbolic executor (sampled paths are replayed natively and compared on every run), "
        "its models of the Go runtime and standard library, the reference codec of the harness, and the solvers. ")

NA = []

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["p"]) + "\n")
    na = {n for n, _ in NA}
    m = {"version": 1, "setup_cmd": "bash run.sh setup",
         "checks": [{"property": x["p"]["id"], "quick_cmd": f"bash run.sh {x['p']['id']} quick", "thorough_cmd": f"bash run.sh {x['p']['id']} thorough",
                     "evidence_file": f"evidence/{x['p']['id']}.json",
                     "technique": "symbolic execution of the Go SSA with SMT solving (z3), counterexamples replayed natively",
                     "level": "model_checking", "level_note": (NOTE + x["note"]).strip()} for x in P if x["p"]["id"] not in na],
         "not_applicable": [{"property": n, "reason": r} for n, r in NA]}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
