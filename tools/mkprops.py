#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the text is editable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
T="the one stable test only instantiates a reflected struct; the repository's larger tests (which do not build here) sample a fixed list of values"
p("C01","JSON to binary produces the ABI's canonical encoding",
 "Converting a JSON value to binary for an ABI type succeeds exactly when the value matches the type (fields present in declared order and no others, variants given as a two-element array naming one of the alternatives, scalars in range), and then yields exactly the type's canonical encoding: base-struct fields first, little-endian scalars, minimal varuint32 counts, one presence byte per optional, alternative index per variant. Nothing is produced when the conversion fails. The whole text must be a single JSON value, at most 128 containers deep; a quoted number and a number are interchangeable where a scalar is read from text.",
 ["inputs","configurations"],"every ABI, every type in it (any nesting of structs with bases, arrays, optionals, variants, aliases), every JSON value or token sequence",
 T+"; nested arrays with deferred sizes, variants in arrays and missing/extra/reordered fields multiply beyond any list",
 ["src/abieos.hpp","src/abi.cpp","include/eosio/to_bin.hpp","include/eosio/from_json.hpp"],
 [("ordered stack machine json_to_bin over token stream","src/abieos.hpp:json_to_bin(json_to_bin_state)"),("size_insertions: array counts spliced in afterwards","src/abieos.hpp:json_to_bin"),("scalar codecs","include/eosio/from_json.hpp, to_bin.hpp")],
 [("json_to_bin_state.stack","types being encoded, position, pending size","src/abieos.hpp"),("size_insertions","pending array counts","src/abieos.hpp")],
 ["abieos_json_to_bin return value, abieos_get_bin_data/size"])
p("C02","Binary to JSON inverts the encoding and rejects everything else",
 "Decoding a binary succeeds exactly when the bytes are an encoding of the type followed by nothing (no missing bytes, no extra bytes, variant index in range, varuints at most five bytes, at most 128 open containers; any nonzero bool or presence byte reads as true and over-long varuints are accepted), and returns the JSON text of the encoded value with every struct field, array element and alternative in order. Encoding that JSON again reproduces the original bytes whenever they were a canonical encoding (of values that have a text: symbol codes with letters only, symbols of one to seven letters).",
 ["inputs","configurations"],"every ABI and type, every byte string including truncations, extensions and mutations of valid encodings",
 T+"; truncation at every byte and index/length corruption are not sampled",
 ["src/abieos.hpp","include/eosio/from_bin.hpp","include/eosio/to_json.hpp","include/eosio/varint.hpp"],
 [("bin_to_json stack machine","src/abieos.hpp:bin_to_json"),("bounds checks of input_stream","include/eosio/stream.hpp"),("Extra data check","src/abieos.cpp:abieos_bin_to_json")],
 [("bin_to_json_state.stack","types being decoded, position, array size","src/abieos.hpp")],
 ["abieos_bin_to_json / abieos_hex_to_json result"])
p("C03","Field order never matters to the reorderable conversion",
 "The order-insensitive conversion yields, for any permutation of the members of any object in the input (and any additional unknown members), exactly the bytes the ordered conversion yields for the declared order, and it fails exactly when a required member is missing or some value does not fit its type. When a member name is repeated the last occurrence counts. The same limit of 128 open containers applies to the text and to the type.",
 ["inputs","configurations"],"every ABI type, every JSON value, every permutation/duplication/addition of members at every nesting level",
 T+"; permutations at several nesting levels are not sampled",
 ["src/abieos.hpp"],
 [("json_to_jvalue event machine","src/abieos.hpp:json_to_jvalue"),("jvalue_to_bin stack machine","src/abieos.hpp:json_to_bin(jvalue_to_bin_state)")],
 [("json_to_jvalue_state.stack","open containers and pending key","src/abieos.hpp"),("jvalue_to_bin_state.stack","types being encoded","src/abieos.hpp")],
 ["abieos_json_to_bin_reorderable result vs abieos_json_to_bin"])
p("C04","Binary extensions may be absent only at the tail",
 "A field whose type carries the extension marker may be omitted from JSON, or be absent from the binary, only at the very end of the outermost data (the end of the root struct, recursively through a last field, optional or variant, never inside an array or before other data), and once one is omitted every later field must be an omitted extension as well. A present extension is encoded exactly like its underlying type, and decoding data with omitted extensions yields JSON without those members.",
 ["inputs","configurations"],"every placement of extension fields in nested structs/bases/variants/optionals/arrays and every suffix of them omitted, in both JSON conversions and in decoding",
 T+"; extension handling is tested on a single two-level struct",
 ["src/abieos.hpp","src/abi.cpp"],
 [("allow_extensions propagation to the last field only","src/abieos.hpp"),("skipped_extension latch","src/abieos.hpp")],
 [("skipped_extension","an extension has been omitted","src/abieos.hpp"),("allow_extensions","per stack entry: still at the tail","src/abieos.hpp")],
 ["C API conversions"])
p("C05","An ABI is accepted iff it is well formed, and resolution always ends",
 "Loading an ABI succeeds exactly when all type names resolve: no unknown type, no missing or duplicate or builtin-shadowing name, no circular alias or inheritance chain, bases are structs, optionals and arrays are not nested in each other and extensions are only outermost and never behind an alias, and no chain met while resolving is deeper than 32. Loading always terminates, and an accepted ABI gives every type name (aliases, inherited fields, derived optional/array/extension types) the meaning its definition states.",
 ["inputs","configurations"],"every set of type aliases, structs, variants (any reference graph, including cycles and chains around the depth limit) and every queried type name",
 T+"; reference graphs and cycles through alias/base/variant/suffix combinations are not enumerated",
 ["src/abi.cpp","include/eosio/abi.hpp"],
 [("get_type suffix parsing and nesting rules","src/abi.cpp:get_type"),("resolve/fill with depth limit","src/abi.cpp:resolve"),("try_emplace duplicate detection","src/abi.cpp:convert")],
 [("abi.abi_types","name -> resolved type","include/eosio/abi.hpp")],
 ["abieos_set_abi result; conversions with queried type names"])
p("C06","A context's answers depend only on the ABIs successfully loaded into it",
 "After any history of calls, the outcome of a conversion or of an action/table type lookup depends only on its arguments and on the ABI most recently loaded successfully for that contract in that context: failed calls, queries, derived-type lookups, other contracts and other contexts have no influence, and a failed load leaves the previously loaded ABI in force. A failed call reports failure with a non-empty error; a successful JSON-to-binary result stays retrievable (raw and as hex) until the next JSON-to-binary conversion.",
 ["histories"],"every interleaving of API calls (loads in any format, failing or not, conversions, lookups, getters, null arguments) over several contracts and contexts",
 T+" on one fresh history; no test interleaves failures, reloads and contexts",
 ["src/abieos.cpp","include/eosio/abieos.h"],
 [("contracts map keyed by contract name","src/abieos.cpp"),("handle_exceptions converts every exception to an error","src/abieos.cpp"),("result_str/result_bin ownership","src/abieos.cpp")],
 [("context.contracts","contract -> ABI","src/abieos.cpp"),("context.result_bin","last JSON-to-binary result","src/abieos.cpp"),("context.last_error","last error text","src/abieos.cpp")],
 ["all abieos_* functions"])
p("C07","Hostile input is answered, never crashes, hangs or exhausts memory",
 "For any ABI bytes or text, any type name, any JSON text and any binary, every public conversion returns a result or an error: it never reads or writes outside its buffers, never recurses as deep as the input says (ABI-driven conversions stop at 128 open containers, ABI resolution at 32 links), always ends, and never allocates memory out of proportion to its input because of a length field in it. Three findings are recorded: arrays of values of no size, long inheritance chains (quadratic memory), and recursive C++ types (recursion per level).",
 ["inputs","configurations"],"every byte string at every parsing entry point (ABI JSON/binary/hex, JSON values, binaries, keys, reflected types)",
 T+"; hostile lengths, deep nesting and truncations at each entry point are unsampled",
 ["src/abieos.hpp","src/abi.cpp","src/abieos.cpp","include/eosio/from_bin.hpp","include/eosio/stream.hpp","include/eosio/from_json.hpp"],
 [("max_stack_size","src/abieos.hpp"),("input_stream bounds checks","include/eosio/stream.hpp"),("depth limit in ABI resolution","src/abi.cpp")],
 None,["driver built with AddressSanitizer, memory and time limits"])
p("C08","Database keys sort exactly like the values they encode",
 "For any two values of a key-able type, comparing their keys byte by byte gives the same order as comparing the values, equal values (including positive and negative zero) have equal keys, and no key is a proper prefix of a different value's key. This holds for integers, floats, bools, enums, names, strings (with embedded zero bytes), optionals, variants, tuples, arrays, sequences, sets, maps and structs of these; NaNs have no order and assets of different symbols are not compared.",
 ["inputs"],"every pair of values of every key-able type, including nested containers and embedded zero bytes",
 T+"; order and prefix-freedom are pairwise properties over unbounded values",
 ["include/eosio/to_key.hpp"],
 [("big-endian with sign bias, float bit flips, zero-escaping, element markers","include/eosio/to_key.hpp")],None,["convert_to_key"])
p("C09","Names and 64-bit values correspond one to one, in order",
 "Every 64-bit value prints as a text of at most 13 name characters without trailing dots, which converts back (leniently and strictly) to that value; the strict conversion accepts exactly the texts of at most 13 characters of the alphabet whose 13th is at most 'j' and rejects all others; the lenient conversion ignores characters beyond the thirteenth and reads characters outside the alphabet as dots. Length, prefix and suffix agree with the printed text, and numeric order of values equals dot-lowest lexicographic order of texts.",
 ["inputs"],"every 64-bit value and every text",
 T+"; 2^64 values and arbitrary texts",
 ["include/eosio/chain_conversions.hpp","include/eosio/name.hpp","include/eosio/murmur.hpp","tools/name.cpp"],
 [("string_to_name, string_to_name_strict, name_to_string","include/eosio/chain_conversions.hpp"),("name::length/suffix/prefix, hash_name","include/eosio/name.hpp")],None,
 ["abieos_string_to_name, abieos_name_to_string, eosio::name"])
p("C10","Integer text converts exactly or is rejected",
 "Parsing decimal text as an integer of any width (8 to 128 bits, signed or unsigned, fixed or variable length) yields exactly the number written when it is in the type's range and an error otherwise, whether or not it is quoted; every value prints as its shortest decimal text, quoted iff wider than 32 bits, and parses back to itself. The portable fixed-size decimal routines (decimal_to_binary, binary_to_decimal) agree with them on every nonempty digit string and every value.",
 ["inputs"],"every integer text (sign, leading zeros, range borders, junk) and every value of every width",
 T+"; the range borders of ten types combine with sign/leading zero/junk forms",
 ["include/eosio/from_json.hpp","include/eosio/to_json.hpp","include/eosio/abieos_numeric.hpp","include/eosio/varint.hpp"],
 [("from_json_int overflow test","include/eosio/from_json.hpp"),("int_to_json","include/eosio/to_json.hpp"),("decimal_to_binary / binary_to_decimal","include/eosio/abieos_numeric.hpp")],None,["json_to_bin / bin_to_json of integer types"])
p("C11","Floating-point text round-trips and parsing is correctly rounded",
 "Every finite float or double prints as decimal text of at most 24 characters that reads back as the identical value (including subnormals and negative zero), infinities and NaN print as the quoted words Infinity, -Infinity and NaN, and these words read back as such. Parsing a decimal text yields the nearest representable value, and text that is not a number or overflows is rejected.",
 ["inputs"],"every 32- and 64-bit floating-point bit pattern and every decimal text",
 T+"; 2^64 bit patterns, with errors confined to rare significands/exponents",
 ["include/eosio/fpconv.c","include/eosio/powers.h","include/eosio/to_json.hpp","include/eosio/from_json.hpp"],
 [("Grisu2 in fpconv_dtoa, power table","include/eosio/fpconv.c, powers.h"),("strtod/strtof based parsing","include/eosio/from_json.hpp")],None,["bin_to_json/json_to_bin of float32/float64, fpconv_dtoa"])
p("C12","Key and signature texts round-trip and corrupted ones are rejected",
 "Every public key, private key and signature of every supported kind prints as prefix plus Base58 of its bytes and a RIPEMD-160 checksum over bytes and kind, and that text (and the legacy public-key form) parses back to the same value. A prefixed text is accepted only if it is Base58 over exactly the 58-letter alphabet, its checksum matches for that kind and it holds exactly one value, so altered, truncated, extended or wrong-kind texts are rejected (up to checksum collision). Base58 itself is a bijection between byte strings (leading zeros included) and texts over its alphabet.",
 ["inputs"],"every key/signature value and every text, in particular every corruption of a valid text",
 T+"; corruptions per position, leading zero bytes and foreign characters are not sampled",
 ["src/crypto.cpp","include/eosio/crypto.hpp","include/eosio/abieos_ripemd160.hpp"],
 [("base58_to_binary, binary_to_base58","src/crypto.cpp"),("string_to_key / key_to_string checksum","src/crypto.cpp")],None,["public_key_from_string etc., json_to_bin/bin_to_json of key types, to_base58/from_base58"])
p("C13","RIPEMD-160 is computed correctly for every message and chunking",
 "The digest of any message equals the RIPEMD-160 function of that message, no matter how the message is split over successive updates and how its length falls relative to the 64-byte block and padding borders.",
 ["inputs","histories"],"every message length and every split into updates",
 T+"; padding borders and chunk splits (a state machine over the block buffer) are not sampled",
 ["include/eosio/abieos_ripemd160.hpp"],
 [("update buffer/compress/digest padding","include/eosio/abieos_ripemd160.hpp")],
 [("ripemd160_state","chaining value, buffered bytes, bit length","include/eosio/abieos_ripemd160.hpp")],["ripemd160_init/update/digest"])
p("C14","Times convert exactly between counts and ISO text",
 "Every time point from year 0 to 9999, every 32-bit second count and every block slot in that range prints as its proleptic Gregorian UTC date and time with millisecond precision and parses back to the same millisecond (second, half-second slot); parsing a well-formed text yields the instant it denotes (fractions beyond the type's precision truncated) or fails when the type cannot hold it, and text that does not have the form YYYY-MM-DDTHH:MM:SS with optional fraction is rejected (texts of that form that denote no date, such as the 31st of April, are outside of this property). Conversions between the three representations agree with the instants they denote.",
 ["inputs"],"every representable instant (leap years, century rules, month ends) and every text",
 T+"; leap-year and border combinations, malformed texts",
 ["include/eosio/chain_conversions.hpp","include/eosio/time.hpp"],
 [("civil calendar algorithms","include/eosio/chain_conversions.hpp"),("time_point, time_point_sec, block_timestamp","include/eosio/time.hpp")],None,["bin_to_json/json_to_bin of time types, time.hpp classes"])
p("C15","Symbol and asset texts round-trip and malformed ones are rejected",
 "Every valid symbol, symbol code and asset prints as text that parses back to the same value, with exactly the precision and sign it carries; parsing accepts only one to seven capital letters as a code, requires the comma between precision and code, and takes the number of digits after the point as an asset's precision (the space before the code may be missing or repeated). Malformed texts and amounts or precisions that do not fit are rejected.",
 ["inputs"],"every amount, precision and code, and every text",
 T+"; sign, precision 0..18, leading zeros, spaces and malformed variants multiply",
 ["include/eosio/chain_conversions.hpp","include/eosio/symbol.hpp","include/eosio/asset.hpp"],
 [("string_to_symbol_code, string_to_symbol, string_to_asset and printers","include/eosio/chain_conversions.hpp"),("symbol_code constructor/validity","include/eosio/symbol.hpp")],None,["json_to_bin/bin_to_json of symbol, symbol_code, asset; from_string"])
p("C16","Asset arithmetic is exact or fails",
 "Addition, subtraction, negation, multiplication, division and comparison of valid assets give the exact integer result when the symbols agree and the result's magnitude stays below 2^62, and fail otherwise (different symbols or contracts, out of range, division by zero); an asset or symbol built from components is accepted exactly when amount and symbol code are valid. A failed operation never returns a wrapped or wrong amount.",
 ["inputs","histories"],"every pair of amounts, factors and symbols, and every sequence of such operations",
 "no test covers the arithmetic at all",
 ["include/eosio/asset.hpp","include/eosio/symbol.hpp"],
 [("range and symbol checks in the operators","include/eosio/asset.hpp"),("symbol validity","include/eosio/symbol.hpp")],None,["eosio::asset, extended_asset, symbol operators"])
p("C17","Variable-length integers encode minimally and decode exactly",
 "Every 32-bit value has one minimal encoding of one to five bytes (zig-zag for signed) which decodes to that value consuming exactly those bytes; decoding any byte string either consumes a prefix of at most five (ten for 64-bit lengths) bytes whose last has a clear top bit and yields the low bits it spells, or fails without reading past the end.",
 ["inputs"],"every value and every byte string up to the length bounds",
 T+"; borders at 7-bit multiples, over-long and truncated encodings",
 ["include/eosio/from_bin.hpp","include/eosio/to_bin.hpp","include/eosio/varint.hpp"],
 [("varuint32_to_bin/from_bin, varuint64_from_bin, varint32","include/eosio/to_bin.hpp, from_bin.hpp, varint.hpp")],None,["varuint32/varint32 codecs"])
p("C18","Streams never pass their bounds and sizes match what is written",
 "A fixed-size output buffer accepts a write exactly when it fits in the remaining space and is otherwise left untouched with an error; an input stream delivers exactly the next bytes or fails without moving; the size-counting stream reports exactly the number of bytes the same writes produce. Consequently every one-shot binary, key or JSON conversion yields exactly as many bytes as it reserved, whatever the value.",
 ["inputs","histories"],"every sequence of stream operations over every buffer size, and every value of every serializable type",
 "no test drives the streams at their borders",
 ["include/eosio/stream.hpp","include/eosio/to_bin.hpp","include/eosio/to_json.hpp","include/eosio/to_key.hpp"],
 [("fixed_buf_stream/input_stream checks","include/eosio/stream.hpp"),("size_stream two-pass conversion","include/eosio/to_bin.hpp:convert_to_bin")],
 [("pos/end","cursor","include/eosio/stream.hpp")],["stream classes, convert_to_bin/convert_to_json/format_json/convert_to_key"])
p("C19","Reflected C++ types behave exactly like their generated ABI",
 "For every reflected type that can be added to an ABI (structs with bases, vectors, optionals, variants, chain types), the static binary and JSON codecs, the ABI generated from the type and the ABI-driven codecs describe the same format: they produce and accept the same bytes and JSON, list members in base-first declaration order under the same names, and binary and JSON round-trips give back an equal value.",
 ["inputs","programs"],"every reflected type and every value of it",
 "the stable test only checks that one struct's fields and methods can be enumerated",
 ["include/eosio/reflection.hpp","include/eosio/for_each_field.hpp","include/eosio/abi.hpp","include/eosio/from_bin.hpp","include/eosio/to_bin.hpp","include/eosio/types.hpp","include/eosio/map_macro.h"],
 [("EOSIO_REFLECT field enumeration","include/eosio/reflection.hpp"),("add_type ABI generation","include/eosio/abi.hpp"),("static codecs","include/eosio/from_bin.hpp, to_bin.hpp, from_json.hpp, to_json.hpp")],None,["convert_to_bin/convert_from_bin/convert_to_json/from_json of reflected types, abi generated by add_type"])
p("C20","JSON output is always well-formed, escaped, valid UTF-8",
 "Whatever bytes a string holds, the text produced for it is a valid JSON string in valid UTF-8 which parses back to the same bytes when they were valid UTF-8, with each byte of an invalid sequence replaced by a question mark and quotes, backslashes and control characters escaped. Pretty-printed output differs from compact output only in whitespace.",
 ["inputs"],"every byte string, in every string-valued position; every value for pretty printing",
 T+"; truncated/over-long/surrogate sequences next to escapes are unsampled",
 ["include/eosio/to_json.hpp","include/eosio/stream.hpp"],
 [("to_json(string_view) scanner","include/eosio/to_json.hpp"),("pretty_stream","include/eosio/stream.hpp")],None,["bin_to_json of string, convert_to_json, format_json"])
p("C21","An ABI means the same in every format and survives export",
 "The same ABI definition loaded as JSON, as binary or as hex gives identical type meanings, action and table types (unknown JSON members and absent optional sections ignored); exporting a loaded ABI back to a definition and loading that again preserves the meaning of every user-defined type (actions and tables are not exported). Definitions with an unsupported version, malformed text or truncated binary are refused in every format.",
 ["inputs","configurations"],"every ABI definition and every truncation or corruption of its three forms",
 T+"; equivalence across formats and export is not tested at all beyond one fixture",
 ["src/abieos.cpp","src/abi.cpp","include/eosio/abi.hpp"],
 [("abi_def reflection and might_not_exist","include/eosio/abi.hpp"),("convert in both directions","src/abi.cpp"),("check_abi_version","src/abieos.hpp")],None,["abieos_set_abi, abieos_set_abi_bin, abieos_set_abi_hex, convert(abi, abi_def)"])
p("C22","Ship-protocol and container codecs are lossless",
 "Every state-history message, transaction trace and standard container (vector, list, deque, set, map, pair, tuple, array, optional, variant, length-prefixed opaque value) decodes from its encoding to an equal value consuming exactly those bytes, and truncated input is always refused. Decoding into an object that already holds a value gives the same result as decoding into a fresh one. An opaque value yields precisely the value it was packed from, and partial reads of an opaque sequence deliver its elements in order.",
 ["inputs"],"every message kind, optional presence, variant alternative and nesting (including recursive traces), every truncation point",
 T+"; no test covers the protocol structures",
 ["include/eosio/ship_protocol.hpp","include/eosio/opaque.hpp","include/eosio/from_bin.hpp","include/eosio/to_bin.hpp"],
 [("reflected protocol structs","include/eosio/ship_protocol.hpp"),("opaque length prefix","include/eosio/opaque.hpp"),("container codecs","include/eosio/from_bin.hpp, to_bin.hpp")],None,["convert_to_bin / convert_from_bin, opaque<T>"])
p("C23","Fixed-size byte values keep byte order, padding and comparison",
 "A fixed-size byte value (checksum of 20, 32 or 64 bytes, odd sizes included) built from bytes or words gives back exactly those bytes in order (when built from bytes the unused tail of the words is zero), encodes as those bytes, prints as their uppercase hex and parses only hex of exactly that length in either case. Equality and ordering of such values, and of reflected structs, are lexicographic over bytes respectively members.",
 ["inputs"],"every byte content of every size and every pair compared; every hex text",
 T+"; comparison and word/byte packing across sizes is untested",
 ["include/eosio/fixed_bytes.hpp","include/eosio/operators.hpp","include/eosio/bytes.hpp","include/eosio/float.hpp"],
 [("fixed_bytes word packing","include/eosio/fixed_bytes.hpp"),("EOSIO_COMPARE","include/eosio/operators.hpp"),("hex codec","include/eosio/from_json.hpp, to_json.hpp")],None,["fixed_bytes API, json_to_bin/bin_to_json of checksum types"])
p("C24","Clock values and integer wrappers compute exactly in any history",
 "Durations, time points, second and half-second-slot times, unsigned_int and signed_int behave as the integers they hold: after any history of constructions, conversions, additions, subtractions, increments and assignments whose exact results fit, every value and every comparison between them (and with plain integers) is the one of exact arithmetic; times in seconds add and subtract modulo 2^32, converting an instant in range to seconds or slots picks the second or slot it lies in, converting back gives that second's or slot's first instant, and next() of the last representable slot is refused.",
 ["inputs","history"],"every history of clock operations over values up to the limits of the types",
 T+"; no test combines the operations",
 ["include/eosio/time.hpp","include/eosio/varint.hpp"],
 [("microseconds, time_point, time_point_sec, block_timestamp","include/eosio/time.hpp"),("unsigned_int, signed_int conversions and comparison","include/eosio/varint.hpp")],None,["operators and conversions of the clock types and of unsigned_int/signed_int"])
p("C25","Contexts are independent and results stay valid, on threads too",
 "What a context hands out (a string, a binary, an error text) stays readable and unchanged until the next call on that same context, whatever is done with other contexts meanwhile, including destroying them. Contexts (and the stateless conversions of names, symbols, keys and values) used on different threads at the same time answer exactly as they would alone, without data races.",
 ["history","schedules"],"every interleaving of calls on several contexts, from one thread or several",
 T+"; the tests use one context from one thread",
 ["src/abieos.cpp","src/abieos.h","src/abi.cpp","include/eosio/abi.hpp"],
 [("abieos_context result_str, result_bin, last_error","src/abieos.cpp"),("table of built-in types","include/eosio/abi.hpp"),("abieos_create, abieos_destroy","src/abieos.cpp")],None,["the C interface (abieos.h) and the static conversions"])
p("C26","Converting between related types keeps what both have",
 "Converting an object to a related type carries every member both types have, by name whatever the order (directly, in arrays element by element, in optionals, from whichever alternative a variant holds), changes nothing the source does not have (which stays as it was, or is fresh where a new object is made), and leaves the source alone. Reading an object that travels as another type consumes exactly that type's encoding, refuses what that type refuses, and yields the converted object.",
 ["inputs","configurations"],"every pair of related types, every value of the source, every state of the destination, every chain of such conversions",
 T+"; no test uses conversions at all",
 ["include/eosio/convert.hpp","include/eosio/from_bin.hpp","include/eosio/varint.hpp"],
 [("convert: by name, elementwise, through variants and optionals","include/eosio/convert.hpp"),("serialize_as","include/eosio/from_bin.hpp:from_bin(T&, S&)"),("convert(varuint32, uint32_t)","include/eosio/varint.hpp")],None,["convert(src, dst, choose_first/choose_second)","from_bin of a type with serialize_as"])
p("C27","The name tool converts everything it is given and reports the rest",
 "Called as name2num the tool turns every name it is given into its value, called as num2name every value (decimal, 0x hexadecimal, 0 octal, below 2^64) into its name; -r/--reverse turns the direction around, -x/--hex and -d/--dec (the last one counts) choose how values are printed, wherever the options stand. It takes its arguments, or the lines of its input when there are none, prints one line per conversion in order, skips and complains about each thing that is not a name or a value and goes on with the others; its status is 0 if everything was converted, 1 if something was not, and 2, with nothing converted, for -h/--help or an option there is none of. (Blanks, signs and 0b in front of values are not specified.)",
 ["inputs","configurations"],"every argument list and input",
 T+"; no test runs the tool",
 ["tools/name.cpp","include/eosio/name.hpp"],
 [("argument loop, handle_one","tools/name.cpp"),("name(string_view), to_string","include/eosio/name.hpp")],None,["standard output, exit status and standard error of the tool"])
p("C28","The JSON token reader hands out every token once, in order",
 "Reading a JSON text token by token yields exactly its tokens, in order, each once: looking at a token does not take it, a call that asks for another token than the one that is next is refused (or says no) and takes nothing, the one that asks for it takes it and answers with what it carries (strings unescaped, numbers as written, empty keys and strings included). The end is reported when all tokens have been taken and not before, and never for a text that is not JSON; strings handed out stay as they are while the text lives, whatever is read after them.",
 ["history","inputs"],"every text and every sequence of calls, until the first error of the text itself (the reader cannot be used after one)",
 T+"; the tests only read whole values",
 ["include/eosio/from_json.hpp"],
 [("json_token_stream","include/eosio/from_json.hpp")],None,["json_token_stream: peek_token, eat_token, get_*, maybe_get_key, complete, get_end"])
p("C29","Built without native 128-bit integers, the library answers the same",
 "Compiled for platforms whose compiler has no 128-bit integers (ABIEOS_NO_INT128), the library reads, writes and converts values of int128 and uint128, alone and inside of every other type, and everything else, exactly as it otherwise does: the same texts and bytes are accepted, with the same results, and the same are refused.",
 ["configurations","inputs"],"every integer text and every 16 bytes, in every position of every type",
 "no test builds this configuration, whose 128-bit arithmetic is code of its own",
 ["src/abieos.hpp","include/eosio/abieos_numeric.hpp"],
 [("struct uint128, struct int128: from_json, to_json, from_bin, to_bin","src/abieos.hpp"),("decimal_to_binary, binary_to_decimal, negate","include/eosio/abieos_numeric.hpp")],None,["json_to_bin, bin_to_json, from_json, to_json of int128 and uint128"])
p("C30","A conversion's hook is called throughout, can end it, and changes nothing",
 "The hook given to a conversion of abi_type (the caller's way to set a deadline) is called at least once for each value inside of a container (the members, elements and alternatives that are converted), with no more than one value read between two calls, also where a count in the input promises values without end. What it throws ends the conversion, reaches the caller as it is, and the hook is not called again. A hook that throws nothing, even one that converts something else or the same again meanwhile, has no influence on the result, and an ended conversion has none on later ones.",
 ["inputs","history"],"every value, input and conversion, every call at which the hook ends it, every conversion made by the hook",
 "no test passes a hook",
 ["src/abieos.hpp","src/abi.cpp","include/eosio/abi.hpp"],
 [("loops of json_to_bin and bin_to_json that call f()","src/abieos.hpp"),("abi_type::json_to_bin, json_to_bin_reorderable, bin_to_json","src/abi.cpp")],None,["abi_type::bin_to_json, json_to_bin, json_to_bin_reorderable with a std::function"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
