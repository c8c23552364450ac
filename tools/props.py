"""The checks: for each property the harness, the symbolic executions (jobs), and what is stated about bounds."""

COMMON_STUBS = [
    "operator new/delete, the C++ exception runtime, std exception classes, red-black tree and hashtable helpers and a "
    "few libc string/number functions are replaced by the small bodies in engine/rt.cpp; allocation never fails unless "
    "a harness limits it",
    "the text building of CppRuntimeException (operator<<, append) is cut out of the encoding except where noted "
    "(keep_messages), so the contents of messages are not decided there",
]
COMMON_ASSUMPTIONS = [
    "x86-64 Linux, LLVM 18 -O2 bitcode of the current /repo/runtime/src, little endian, 64-bit size_t",
    "symbolic pointers are resolved by case split over live objects; every assertion, bounds check and trap is decided "
    "by simplification or by z3 over all input values of the path",
]

PROPS = {}


def prop(pid, harness, jobs, **kw):
    kw.update(harness=harness, jobs=jobs)
    PROPS[pid] = kw


def J(entry, reach=(), **kw):
    tier = kw.pop("tier", "quick")
    opts = {k[4:]: kw.pop(k) for k in list(kw) if k.startswith("opt_")}
    d = {"entry": entry, "params": kw, "tier": tier, "reach": list(reach)}
    d.update(opts)
    return d

TO = "@REPO@/runtime/test/test_object/std_allocator/"


prop("C01", "c01.cpp",
     [J("h_write", ["written"], kind=k) for k in range(5)] +
     [J("h_read", ["read"], kind=k) for k in range(5)] +
     [J("h_sequence", ["sequence"])] +
     [J("h_types", ["typed"], group=g) for g in range(8)] +
     [J("h_dyntypes", ["typed"], type=t) for t in range(8)],
     bounds=["24-byte buffers with arbitrary content", "write start offsets 0..39 bits, read start offsets 0..71 bits "
             "reached in three ways", "all widths 1..32 / 1..64, all values", "sequences of three fields over ten widths "
             "and eight offsets", "all 128 fixed-width integer types and all dynamic-width types and widths"],
     outside=["longer buffers and sequences", "the 32-bit build of the reader"])

prop("C02", "c02.cpp", raw=True, jobs=
     [J("h_reject", ["accepted", "rejected"], kind=k, counting=c) for k in range(4) for c in (0, 1)] +
     [J("h_capacity", ["fits", "full"], kind=k) for k in range(5)] +
     [J("h_constructor", ["accepted", "rejected"], reader=k) for k in range(2)],
     bounds=["all width arguments 0..255 and all values at start offsets 0..9", "bit capacities {0,1,3,7,8,9,12,16,17,31,"
             "32,33,40,63,64,65,71,72} with every position in the last 66 bits", "byte arrays, strings and bit buffers up "
             "to 4 bytes", "all 64-bit sizes given to the constructors of reader and writer for spans of 0..9 bytes"],
     outside=["larger buffers", "raw pointer constructors given a size larger than the memory"])

prop("C03", "c03.cpp", raw=True, jobs=
     [J("h_ops", ["accepted", "rejected"], cap=c) for c in range(10)] +
     [J("h_end", ["accepted", "rejected"], cap=c) for c in range(0, 136, 8)] +
     [J("h_cache", ["accepted", "rejected"], cap=c) for c in [1] + list(range(8, 128, 8))] +
     [J("h_compound", ["accepted", "rejected"], kind=k) for k in range(15)],
     bounds=["arbitrary bytes", "sequences of three operations out of 15 kinds on ten stream lengths up to 131 bits",
             "stream lengths 0..135 bits, every position in the last 66 bits, every width, and from the beginning two reads of every width",
             "variable length and float reads on streams up to 75 bits, bytes, strings and bit buffers up to 43 bits"],
     outside=["longer streams and sequences"])

prop("C04", "c04.cpp",
     [J("h_write", ["written"] + ([] if k in (3, 7) else ["rejected"]), kind=k) for k in range(9)] +
     [J("h_read", ["read", "rejected"], kind=k) for k in range(9)] +
     [J("h_count", ["counted"], kind=k) for k in range(9)],
     bounds=["all values of all nine variable length types at eight bit offsets", "all byte sequences up to the longest "
             "encoding, complete or cut at any byte or within a byte"],
     outside=[])

prop("C05", "c05.cpp",
     [J("h_half_to_float", ["half"]), J("h_float_to_half", ["special", "small", "large", "near"]), J("h_full", ["full"])],
     bounds=["all 2^16 half, 2^32 single and 2^64 double precision bit patterns", "bit offsets 0..7 (half), 0 and 5 "
             "(narrowing), 0..15 (single, double)"],
     outside=[])

prop("C06", "c06.cpp", raw=True, jobs=
     [J("h_bytes_string", ["roundtrip"], mode=m, string=s) for m in (0, 1) for s in (0, 1)] +
     [J("h_bitbuffer", ["roundtrip"], mode=m) for m in (0, 1)] + [J("h_mixed", ["mixed"])],
     bounds=["byte arrays and strings of 0..9 bytes at 16 offsets and of 126..130 bytes (two byte length prefix) at two "
             "offsets", "bit buffers of 0..40 and 125..137 bits at ten offsets, with and without spare storage",
             "all contents"],
     outside=["longer data"])

prop("C07", "c07.cpp",
     [J("h_align", ["aligned", "beyond"] if f >= 80 else ["aligned"], **{"from": f}) for f in (0, 40, 80, 120, 240, 260)] +
     [J("h_jump", ["beyond", "back", "forward"], length=k) for k in range(6)] + [J("h_size", ["size"]), J("h_patch", ["patched"])],
     bounds=["35 alignments from 1 to 600 bits, positions 0..159 and 240..299, capacities of 300 and 640 bits, arbitrary "
             "buffer contents", "size calculation for the 35 alignments: all 32-bit positions for powers of two, positions below 700 for the others", "patching fields of "
             "1..33 bits behind the current position", "streams of six lengths up to 192 bits: from every position, after reading "
             "nothing, 1, 9 or 64 bits, to every position"],
     outside=["alignment zero (not a valid schema)"])

prop("C08", "c08.cpp",
     [J("h_fixed", ["sized"], group=g) for g in range(8)] + [J("h_var", ["sized"], type=t) for t in range(13)] +
     [J("h_blob", ["sized"], type=t) for t in range(3)] + [J("h_long", ["long", "toolong"], string=s) for s in (0, 1)],
     bounds=["all values of all fixed, variable length and floating point types at nine bit offsets", "contents up to 20 "
             "bytes; lengths alone up to 2^64 for the length arithmetic"],
     outside=["predicted sizes of 2^32 bits and more, which the 32-bit size type cannot express"])

prop("C13", "c13.cpp",
     [J("h_fixed", ["in", "out"] if g not in (3, 7) else ["in", "out"], group=g) for g in range(8)] +
     [J("h_var", ["in"] if t in (3, 7) else ["in", "out"], type=t) for t in range(9)] +
     [J("h_dyn", ["in", "out", "badwidth"], type=t) for t in range(8)] +
     [J("h_operators", ["operator"], type=t) for t in range(8)] + [J("h_other", ["other"])],
     bounds=["all values of the underlying type for all 128 fixed width, 9 variable length and 8 dynamic types with widths 0 "
             "to 3 above the maximum", "all operand pairs without signed overflow for eight types (multiplication and left "
             "shift with operands of half the width, 32 and 64 bit products and quotients by nine selected operands)"],
     outside=["dynamic widths further above the maximum"])


prop("C14", "c14.cpp",
     [J("h_values", ["valid", "invalid"], type=t) for t in (0, 1)] + [J("h_names", ["known", "unknown"], type=t) for t in (0, 1)] +
     [J("h_read", ["read", "rejected"], type=t) for t in (0, 1)] +
     [J("h_bitmask", ["bitmask"] if t == 0 else ["bitmask", "unwritable"], type=t) for t in (0, 1)] +
     [J("h_packed", ["packed"], type=t) for t in range(3)] + [J("h_packed_any", ["read", "rejected"], type=t) for t in (0, 1)],
     extra_sources=[TO + "CreatorEnum.cpp", TO + "CreatorBitmask.cpp"],
     bounds=["all raw values, all names up to 9 characters, all bytes at nine offsets and 33 stream lengths", "a generated 8-bit "
             "enumeration and bitmask, a hand written enumeration over varint16 and a bitmask over bit:13", "packed runs of "
             "three elements and arbitrary 9-byte packed streams"],
     outside=["the generator which produces the item tables"])

prop("C26", "c26.cpp",
     [J("h_bounds", ["valid", "invalid"], small=1), J("h_bounds", ["invalid"], small=0), J("h_numbits", ["many", "done"]),
      J("h_convert", ["converted", "rejected"])],
     bounds=["all 64-bit lengths, values and sizes"], outside=["32-bit platforms"])

prop("C17", "c17.cpp",
     [J("h_history", ["done"], type=t, steps=3, failing=0) for t in (0, 1)] +
     [J("h_history", ["done", "threw"], type=t, steps=2, failing=1) for t in (0, 1, 2)] + [J("h_list", ["list"])],
     bounds=["all histories of three operations (two with failing copies) out of 14 kinds over two optionals, all values, small "
             "(in place) and large (heap) values", "lists of up to four recursive nodes replaced by each of their own parts"],
     outside=["longer histories"])

prop("C18", "c18.cpp",
     [J("h_any", ["done"], steps=3, failing=0), J("h_any", ["done", "threw"], steps=2, failing=1),
      J("h_variant", ["done"], steps=3, failing=0), J("h_variant", ["done", "threw"], steps=2, failing=1), J("h_nested", ["nested"])],
     bounds=["all histories of three operations (two with a failure at any of the first three constructions) out of 19 kinds over "
             "two anys and 13 kinds over two variants, all values", "values in place, on the heap and with failing moves, two "
             "alternatives of one type", "nested lists of up to three elements replaced by each of their parts"],
     outside=["longer histories"])

PP = "@REPO@/runtime/test/test_object/ppmr_allocator/"
prop("C19", "c19.cpp",
     [J("h_optional", ["done"], type=t, steps=3, failing=0) for t in (0, 1, 2)] +
     [J("h_optional", ["done", "threw"], type=t, steps=2, failing=1) for t in (0, 1, 3)] +
     [J(h, ["done"], propagate=p, steps=s, failing=0) for h, s in (("h_any", 2), ("h_variant", 3)) for p in (0, 1)] +
     [J(h, ["done", "threw"], propagate=p, steps=2, failing=1) for h in ("h_any", "h_variant") for p in (0, 1)] +
     [J(h, [h[2:]], propagate=p) for h in ("h_unique", "h_blobs") for p in (0, 1)] + [J("h_object", ["object"])],
     extra_sources=[PP + "CreatorObject.cpp", PP + "CreatorNested.cpp", PP + "CreatorEnum.cpp", PP + "CreatorBitmask.cpp"],
     bounds=["allocators which are all different, propagating and not", "histories of two or three operations over two optionals, "
             "anys and variants, with and without a failure at one of the first three constructions", "bit buffers, byte arrays and "
             "strings of up to 4 bytes", "a generated object with all kinds of fields in eight shapes"],
     outside=["longer histories", "swapping heap optionals of unequal non-propagating allocators, undefined as for the standard containers"])

prop("C15", "c15.cpp", raw=True, jobs=
     [J("h_construct", ["constructed", "rejected"]), J("h_values", ["value"]), J("h_compare", ["equal", "less"]), J("h_hash", ["hash"])],
     bounds=["storage of up to three bytes with all contents", "all 64-bit sizes for construction, 0..20 bits for copies and moves, "
             "0..24 bits for comparison, 0..31 bits for hashing, with and without spare bits and bytes"],
     outside=["longer bit buffers"])

prop("C16", "c16.cpp",
     [J("h_numbers", ["equal", "ordered"], type=t) for t in range(11)] + [J("h_sequences", ["equal", "ordered"], kind=k) for k in range(4)] +
     [J("h_compounds", ["equal", "ordered"], kind=k) for k in range(8)],
     extra_sources=[TO + "CreatorObject.cpp", TO + "CreatorNested.cpp", TO + "CreatorEnum.cpp", TO + "CreatorBitmask.cpp",
                    TO + "ReflectableUnion.cpp"],
     bounds=["all triples of numbers for ten numeric kinds (floating point without NaN)", "sequences of up to two elements, optionals, "
             "variants with three alternatives, extended fields, bitmasks", "two generated objects in several shapes and their views"],
     outside=["longer sequences", "NaN"])

FEW_WIDE = {10: [(0, 12), (16, 18), (33, 35), (49, 50), (57, 58), (60, 64)], 17: [(0, 15), (26, 28), (42, 43), (56, 57)],
            11: [(0, 32), (33, 64)]}
WIDE = {10: [(0, 16), (17, 27), (28, 38), (39, 48), (49, 57), (58, 64)],
        17: [(0, 19), (20, 31), (32, 42), (43, 51), (52, 57)], 11: [(0, 32), (33, 64)]}
prop("C09", "c09.cpp",
     [J("h_packed", ["plain"] if t == 0 else ["packed", "plain"], type=t, min=0, max=2, layouts=1, few=0, low=lo, high=hi)
      for t in range(19) for lo, hi in FEW_WIDE.get(t, [(0, 64)])] +
     [J("h_packed", ["packed", "plain"], tier="thorough", type=t, min=0, max=2, layouts=1, few=0, low=lo, high=hi)
      for t in (10, 17) for lo, hi in WIDE[t]] +
     [J("h_packed", ["plain"] if t == 0 else ["packed", "plain"], type=t, min=1, max=2, layouts=4, few=3, low=0, high=64)
      for t in range(19)] +
     [J("h_packed", ["packed", "plain"], type=t, min=3, max=3, layouts=1, few=2 if t in (9, 10, 11, 12, 17) else 4,
        low=0, high=64) for t in range(1, 19)] +
     [J("h_compounds", ["one field packed"], min=0, max=2), J("h_unpackable"),
      J("h_compounds", ["one field packed"], tier="thorough", min=3, max=3)] +
     [J("h_packed", ["packed", "plain"], type=0, min=8, max=8, layouts=1, few=6, low=0, high=64)] +
     [J("h_packed", ["packed", "plain"], tier="thorough", type=t, min=3, max=3, layouts=4,
        few=4 if t in (9, 10, 11, 12, 17) else 6, low=0, high=64) for t in range(1, 19)],
     bounds=["arrays of up to 2 elements with all values of 19 types (differences of every number of bits, both directions; for the "
             "two widest variable length types the quick tier takes differences of about 25 of the numbers of bits)",
             "3 elements with differences of 0, 8, half the width and all bits (0 and 8 only for the widest variable length "
             "types), up to 8 elements of the one bit type", "four layouts at bit offsets 0 and 5", "up to 2 (thorough 3) "
             "compounds with two packable fields around one which is not", "arrays of floats, strings and byte arrays "
             "through the packed functions"],
     outside=["longer arrays", "reading packed data no writer produces (no property is claimed for it beyond C12)"])

prop("C11", "c11.cpp",
     [J("h_plain", ["array"], type=t, min=0, max=2) for t in range(26)] +
     [J("h_plain", ["array"], type=t, min=3, max=3, tier="thorough") for t in range(26)] +
     [J("h_implicit", ["implicit"], type=t) for t in range(8)] + [J("h_long", ["long"])] +
     [J("h_validate", ["valid", "wrong length", "out of range"]), J("h_validate_blocks", ["valid", "out of range"])],
     bounds=["arrays of up to 2 (thorough 3) elements of 26 types with all values, four layouts, three bit offsets",
             "implicit arrays of eight fixed width types over streams of up to three elements and one bit",
             "arrays of 126 to 130 bytes (length of one and two bytes)", "validation of up to three elements of four types "
             "with all underlying values and all 64-bit lengths, in all five layouts"],
     outside=["longer arrays", "offsets computed by generated code"])

prop("C12", "c12.cpp",
     [J("h_hostile", ["read", "rejected"], type=t, layout=l, start=3, whole=2 if t == 13 else 3) for t in range(14) for l in range(4)] +
     [J("h_packed", ["read", "rejected"], type=t, most={3: 84, 10: 144}.get(t, 24), layout=l, start=3) for t in range(11) for l in range(4)],
     bounds=["arrays of 14 types in four layouts over arbitrary streams which hold up to three elements and parts of them, every "
             "announced length (all 64 bits, or every length prefix) except 7 to 4096", "preallocation limits of 0, 20 and 4096 bytes",
             "packed arrays over arbitrary streams of up to 28 bits, every descriptor"],
     outside=["packed arrays of equal elements announce any length without data; lengths above four are not explored there"])

FULL = 0x7FFFFF
prop("C20", "c20.cpp",
     [J("h_int", ["positive"] + (["negative"] if t > 3 else []), type=t) for t in range(8)] + [J("h_wrapped", ["wrapped"])] +
     [J("h_float", ["special" if e > 189 else "finite"], exponent=e, mask=FULL) for e in [0, 1, 100, 112, 117, 120, 124, 126, 127,
                                                                                     190, 220, 254, 255]] +
     [J("h_float", ["finite"], exponent=e, mask=0x7F) for e in [128, 130, 133, 136, 140, 145, 149, 150, 155, 163, 170, 186, 189]] +
     [J("h_float", ["finite"], exponent=e, mask=0x3FF00) for e in [130, 136, 149]] +
     [J("h_float", ["finite"], exponent=e, mask=0x7F0000) for e in [136, 145, 155]] +
     [J("h_float", ["finite"], tier="thorough", exponent=e, mask=FULL) for e in [2, 50, 110, 115, 116, 118, 119, 121, 122, 123, 125, 128,
                                                                               129, 130, 131, 132]] +
     [J("h_float", ["finite"], tier="thorough", exponent=e, mask=m) for m in [0x7F0000, 0x3FF00] for e in [133, 139, 147, 152, 165, 180]] +
     [J("h_message", ["whole", "cut"])],
     keep_messages=True,
     bounds=["all values of all integer types", "single precision numbers: all mantissas of exponents up to 2^0 (a sample of "
             "exponents), groups of 7 to 10 free mantissa bits for larger ones, the other bits all 0 or all 1",
             "messages of up to 1200 characters put together from four parts, around the limit"],
     outside=["the remaining mantissas of numbers above 2", "the text of an exception put together by generated code"])

JSON_STUBS = ["stream buffers are those of the harness; the stream classes of libstdc++ are encoded with an empty locale, formatted "
              "output of integers and booleans, strtoll, strtoull and strtod are models in engine/rt.cpp (strtod is exact up to 15 "
              "digits and powers of ten up to 22)"]

prop("C21", "c21.cpp",
     [J("h_roundtrip", ["same"], length=n) for n in range(5)] +
     [J("h_roundtrip", ["same"], length=5, tier="thorough")] +
     [J("h_long", ["same"], length=17, at=a) for a in range(16)] +
     [J("h_decode", ["rejected"] + (["accepted"] if n > 1 else []), length=n) for n in range(1, 10)] +
     [J("h_decode", ["rejected", "accepted"], length=n, tier="thorough") for n in (10, 11)],
     stubs=JSON_STUBS,
     bounds=["all texts of up to 4 (thorough 5) arbitrary bytes, followed by anything or nothing", "texts of 17 bytes of which any "
             "two are arbitrary and the others need no escape", "decoding of all texts of up to 9 (thorough 11) bytes which start with a "
             "quote"],
     outside=["longer texts"])

prop("C22", "c22.cpp",
     [J("h_integral", ["same"], type=t, digits=d) for t in range(8) for d in range(1, {0: 3, 1: 5, 2: 10, 3: 20}[t % 4] + 1)
      if not (t == 7 and d == 20)] +
     [J("h_literals", ["same"])] +
     [J("h_limits", ["overflow"] + (["value"] if not e else []), negative=n, extra=e) for n in (0, 1) for e in (0, 1)] +
     [J("h_any", ["rejected", "accepted"], length=n) for n in range(1, 7)] +
     [J("h_any", ["rejected", "accepted"], length=7, tier="thorough")] +
     [J("h_literal", ["rejected", "accepted"], literal=l) for l in range(6)] +
     [J("h_double", ["rejected", "accepted"])],
     stubs=JSON_STUBS,
     bounds=["all values of all integer types", "all integers with up to 21 digits and up to one leading zero, followed by any other "
             "character or by digits behind the end of the text", "all texts of up to 6 (thorough 7) bytes which start with no quote",
             "all literals with one arbitrary character at any place, cut anywhere", "floating point numbers with up to 3 digits before "
             "and after the point and exponents of -15..15"],
     outside=["text of floating point numbers (formatted by the C++ library)", "floating point numbers with more digits or larger exponents"])

prop("C23", "c23.cpp",
     [J("h_chunks", ["failed"] + (["end"]), length=n, first=f) for n in range(2, 4) for f in range(1, n)] +
     [J("h_chunks", ["failed", "end"], tier="thorough", length=4, first=f) for f in range(1, 4)] +
     [J("h_cut", ["failed", "end"], text=t) for t in range(13)] +
     [J("h_tokens", ["tokens"], items=3, start=s) for s in range(15)] +
     [J("h_grammar", ["accepted"] + ["rejected"] * (t > 0), tokens=t, space=s) for t, s in ((0, 0), (1, 0), (2, 1), (7, 0))] +
     [J("h_memory", ["done"], propagating=p) for p in (0, 1)],
     stubs=JSON_STUBS,
     bounds=["every text of up to 3 (thorough 4) arbitrary bytes in every division into up to three portions; 13 longer texts with literals, numbers, strings and line ends, with a character before and up to 2 arbitrary bytes behind, in every division into up to three portions",
             "every sequence of 3 tokens and white spaces of 15 kinds with the position of each token",
             "every sequence of up to 7 tokens of 8 kinds against a stack automaton of the grammar, each token arriving as a portion of its own",
             "one text of three values in every division with a fixed distance of the second cut, for two allocators whose default resource refuses"],
     outside=["nesting deep enough to exhaust the stack", "embedded zero bytes are only required to be handled the same however they arrive"])

OBJECTS = ["CreatorObject", "CreatorNested", "CreatorEnum", "CreatorBitmask", "ReflectableObject", "ReflectableNested", "ReflectableEnum",
           "ReflectableChoice", "ReflectableUnion"]
prop("C24", "c24.cpp",
     [J("h_roundtrip", ["written"], part=p) for p in range(5)] +
     [J("h_invalid", ["written", "refused"]), J("h_indexed", ["written", "refused"]), J("h_view", ["view"])] +
     [J("h_bytes", ["refused"] + ["object"] * (n >= 8), length=n) for n in range(0, 13)] +
     [J("h_choice", ["read"]), J("h_choice_empty", opt_known=True)],
     extra_sources=[TO + x + ".cpp" for x in OBJECTS],
     bounds=["generated objects with all kinds of members (structure, enumeration, bitmask, choice, union, optional, array, string, bytes, extern): "
             "all values of all numbers and characters, strings of up to 3 bytes, bytes of up to 2, bit buffers of 0, 5 or 8 bits, arrays of up to 2 "
             "elements; all combinations of choice and union cases with the selector", "all byte sequences of up to 12 bytes read as such an object",
             "an object with a parameter, a constraint, an offset and alignment: all values",
             "six ways of writing and reading: to bits, to bytes, from object, view and data view, into new and used objects, with a preallocation limit"],
     outside=["the code generator itself: the generated sample objects in /repo stand for its output", "files", "longer arrays and strings"])

prop("C27", "c27.cpp",
     [J("h_span", ["span"]), J("h_at", ["element", "refused"]), J("h_numbers", ["equal", "different"]),
      J("h_walk", ["walked"], steps=2), J("h_walk", ["walked"], tier="thorough", steps=3)],
     bounds=["spans of 0..4 elements with all parts, made in every way", "array views of 0..4 elements: all 64-bit indexes; all walks of two (thorough: three) moves of "
             "ten kinds between all positions", "all pairs of arrays of up to three 8-bit numbers"],
     outside=["spans made with a size larger than their memory, parts which are not within the span (preconditions)"])
