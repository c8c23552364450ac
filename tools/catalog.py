"""Source of properties.jsonl and of the MANIFEST entries (tools/gen.py writes both)."""

R = "runtime/src/zserio/"
PROPERTIES = []
NOT_APPLICABLE = {}


def P(pid, title, statement, over, qtext, why, files, mech, state=None, na=None):
    e = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": [R + f if "/" not in f else f for f in files],
                     "mechanism": [{"name": n, "where": R + w if "/" not in w else w} for n, w in mech]}}
    if state:
        e["anchors"]["state"] = [{"name": n, "meaning": m, "where": R + w} for n, m, w in state]
    PROPERTIES.append(e)
    if na:
        NOT_APPLICABLE[pid] = na


P("C01", "Fixed-width values are bit exact on the wire and read back unchanged",
  "Writing an in-range integer or bool of any fixed or dynamic width (1 to 64 bits, signed or unsigned) at any bit "
  "position stores exactly that many bits, most significant bit first in two's complement, leaves every other bit of "
  "the buffer untouched and advances the position by that width. Reading the same width at the same position, however "
  "that position was reached, returns the value and advances the position by that width.",
  ["inputs", "histories"], "all values, all widths, all start offsets within a byte and across the read cache, all "
  "previous buffer contents",
  "The unit tests write a handful of values per width, mostly in one fixed sequence over zeroed buffers; the product of "
  "width, offset, value and previous contents cannot be enumerated.",
  ["BitStreamWriter.cpp", "BitStreamReader.cpp", "BitStreamWriter.h", "BitStreamReader.h", "Types.h"],
  [("masked byte-wise write", "BitStreamWriter.cpp writeUnsignedBits32Impl"),
   ("64-bit cache read", "BitStreamReader.cpp readUnsignedBitsImpl, loadCacheNext")],
  [("bit index and read cache", "next bit and prefetched word", "BitStreamReader.h ReaderContext")])

P("C02", "The writer rejects what does not fit and never writes outside the buffer",
  "A write fails with the library's exception exactly when the width is outside the permitted range, the value is not "
  "representable in the width, or the remaining capacity in bits is too small; otherwise it succeeds. A rejected fixed "
  "width write changes neither the position nor the buffer, and no write touches anything beyond the given capacity. "
  "Readers and writers cannot be created with a bit size larger than their memory.",
  ["inputs"], "all widths and values, all positions near the end, all capacities including partial bytes",
  "The existing tests try a few overflowing values and one or two full buffers; rejection has to be exact for every "
  "width, value and remaining capacity.",
  ["BitStreamWriter.cpp", "BitStreamWriter.h", "BitStreamReader.cpp", "BitStreamReader.h"],
  [("value and width checks", "BitStreamWriter.cpp writeBits, writeSignedBits"),
   ("capacity check", "BitStreamWriter.cpp checkCapacity")])

P("C03", "Reading untrusted bytes never leaves the stream and failed reads change nothing",
  "For any bytes and any stream length in bits, every read either returns a value made only of bits inside the stream "
  "or fails with the library's exception, exactly when fewer bits remain than the value needs (or the width or encoding "
  "is invalid). A fixed width read that fails at the end leaves position and later results unchanged. The position never "
  "moves beyond the end of the stream.",
  ["inputs", "histories"], "all stream contents, all stream lengths up to the bound, all short sequences of reads",
  "Tests read well formed data with a few truncations; the prefetching cache has many alignment and remaining-length "
  "cases reached only by particular combinations of earlier reads.",
  ["BitStreamReader.cpp", "BitStreamReader.h"],
  [("cache refill at the end", "BitStreamReader.cpp loadCacheNext"),
   ("end of stream detection", "BitStreamReader.cpp throwEof")],
  [("bit index and read cache", "next bit and prefetched word", "BitStreamReader.h ReaderContext")])

P("C04", "Variable length integers have their documented encoding, length and range",
  "Each of the nine variable length types writes every value of its range in the shortest documented encoding, reading "
  "returns the value, and values outside the range are rejected without changing the stream. Reading any bytes follows "
  "the documented encoding, rejects sizes of more than 31 bits and truncated data, and never yields a value outside the "
  "range of the type. The predicted size equals the encoded size.",
  ["inputs"], "all 16, 32 and 64 bit values, all byte sequences, all bit offsets within a byte",
  "The tests check values around each length boundary; full ranges of 64-bit types and all malformed encodings are out "
  "of reach.",
  ["BitStreamWriter.cpp", "BitStreamReader.cpp", "Types.cpp", "Types.h"],
  [("shared varnum writer", "BitStreamWriter.cpp writeUnsignedVarNum, writeSignedVarNum"),
   ("per type readers", "BitStreamReader.cpp readVarInt16 to readVarSize"),
   ("length calculation", "Types.cpp")])

P("C05", "Floats keep their bit pattern and half precision conversion is faithful",
  "Single and double precision values read back with the bit pattern that was written. Every half precision pattern "
  "widens to the exact value, and writing it back gives the same pattern. Narrowing to half precision is monotonic "
  "rounding to a neighbouring representable value, keeps NaN a NaN, and turns too large finite values into infinity.",
  ["inputs"], "all half and single precision bit patterns and all double precision bit patterns",
  "The tests convert a few constants; rounding, subnormals, overflow and NaN payloads span the whole domain.",
  ["FloatUtil.cpp", "BitStreamReader.cpp", "BitStreamWriter.cpp"],
  [("narrowing and widening", "FloatUtil.cpp convertFloatToUInt16, convertUInt16ToFloat")])

P("C06", "Byte arrays, strings and bit buffers survive the stream at any alignment",
  "A byte array, string or bit buffer written at any bit offset is stored as its length followed by its contents, "
  "leaves the neighbouring bits untouched, and reads back equal to what was written with the following data intact.",
  ["inputs"], "all contents and lengths up to the bound, all alignments, lengths with one and two byte prefixes",
  "The aligned and unaligned copy paths and the last partial byte behave differently; tests cover only a few shapes.",
  ["BitStreamWriter.cpp", "BitStreamReader.h", "Bytes.h", "String.h", "BitBuffer.h"],
  [("bulk write", "BitStreamWriter.cpp writeBytes, writeString"),
   ("bulk read", "BitStreamReader.h readBytes, readString, readBitBuffer")])

P("C07", "Alignment and repositioning land where asked and preserve data",
  "Aligning a reader or writer moves to the next multiple of the alignment, or fails if that lies beyond the end; the "
  "skipped bits are written as zero; after moving the reader to any position inside the stream, reading continues with the "
  "bits at that position, whatever was read before. Repositioning the writer and patching a field changes only that field's bits, and "
  "size prediction uses the same rounding.",
  ["inputs", "histories"], "all start positions up to the bound, 35 alignments, arbitrary previous contents",
  "Tests align to a few powers of two from a few positions; larger and odd alignments crossing the cache are not tried.",
  ["BitStreamReader.cpp", "BitStreamWriter.cpp", "BitPositionUtil.h"],
  [("alignment", "BitStreamReader.cpp alignTo"), ("alignment of the writer", "BitStreamWriter.cpp alignTo"),
   ("rounding", "BitPositionUtil.h alignTo")])

P("C08", "Predicted bit size equals what is written",
  "For every basic value, byte array, string and bit buffer the predicted bit size at any position equals the number of "
  "bits the writer actually advances, including when the writer only counts; offset initialisation advances by the same "
  "amount. Contents longer than the format permits are rejected by size prediction and writing alike.",
  ["inputs"], "all values of all basic types and all lengths within the bound",
  "Sizes feed buffer allocation and offsets, so a single wrong value corrupts whole messages; tests compare a few "
  "constants.",
  ["Types.h", "Bytes.h", "String.h", "BitBuffer.h", "BitStreamWriter.cpp"],
  [("size functions", "Types.h, Bytes.h, String.h, BitBuffer.h bitSizeOf"), ("writer", "BitStreamWriter.cpp")])

P("C13", "Numeric wrapper types accept exactly their range and behave like numbers",
  "For every numeric schema type, validation, packing and checked construction accept exactly the values in the range of "
  "its declared width and reject all others, and the advertised limits are that range. For dynamic widths the range "
  "follows the given width and impossible widths are rejected. Arithmetic, bitwise and comparison operators on wrapped "
  "numbers give the same results as on the plain numbers.",
  ["inputs"], "all values of the underlying types, all widths, all operand pairs within the bound",
  "Almost two hundred types share templates specialised by width and sign; tests sample some widths and few values.",
  ["Types.h"],
  [("limits and validation", "Types.h NumericLimits, detail::validate"), ("operators", "Types.h NumericTypeWrapper")])

P("C14", "Enumerations and bitmasks accept exactly their declared values",
  "Converting a raw number or a name to an enumeration succeeds exactly for declared items and ordinals, names, and "
  "values agree with each other. Reading an enumeration, plain or packed, yields a declared item or fails, never any "
  "other value, and what was written reads back. Bitmask operators, reading and writing agree with the raw bits, and "
  "bits outside the declared width cannot be written.",
  ["inputs"], "all raw values, all short names, all byte sequences up to the bound",
  "Undeclared values reach the conversion mostly from corrupted data, which tests do not enumerate.",
  ["Enums.h", "Bitmasks.h"],
  [("enumerations", "Enums.h"), ("bitmasks", "Bitmasks.h"), ("packed delta reading", "DeltaContext.h")])

P("C17", "Optional values follow value semantics through every history",
  "After any sequence of assignments, copies, moves, swaps, emplacements and resets an optional holds exactly the value "
  "the history gives it, whether stored in place or on the heap, also when the argument is a part of its own value. "
  "Accessing an empty optional is rejected. Every contained object is destroyed exactly once, and an operation which "
  "throws leaves the optional usable and leaks nothing.",
  ["histories", "fault_sequences"], "all histories up to the bound, all values, a failure at each copy",
  "Value and heap storage, allocators and recursive types combine into many more states than single operation tests visit.",
  ["Optional.h", "UniquePtr.h"],
  [("storage", "Optional.h"), ("heap storage", "UniquePtr.h")])

P("C26", "Array bounds, bit counts and size conversions are exact for every number",
  "The valid value range computed for a bit field of any length, the number of bits computed for any number of values, "
  "and the conversion of sizes to 32 bits are exact for all 64-bit arguments; arguments without a valid answer are "
  "rejected.",
  ["inputs"], "all 64-bit arguments",
  "These helpers guard widths and sizes everywhere else; tests check a handful of constants.",
  ["BitFieldUtil.cpp", "BuiltInOperators.cpp", "SizeConvertUtil.cpp"],
  [("bit field bounds", "BitFieldUtil.cpp"), ("numbits", "BuiltInOperators.cpp"), ("sizes", "SizeConvertUtil.cpp")])

P("C15", "Bit buffers are values made of exactly their bits",
  "A bit buffer accepts exactly the bit sizes its storage can hold. It is equal to another one exactly when both have the "
  "same bits, spare bits of the last byte never matter, order is lexicographical with prefixes first, and equal bit buffers "
  "have equal hash codes. Copies and moves preserve the bits, and a moved-from bit buffer remains safe to use.",
  ["inputs"], "all contents and sizes up to the bound, all 64-bit sizes for construction",
  "Bit sizes that are no multiple of eight and garbage in spare bits multiply the cases; tests use a few buffers.",
  ["BitBuffer.h"],
  [("construction", "BitBuffer.h constructors"), ("comparison and hash", "BitBuffer.h operator==, operator<, hashCode")],
  [("bits and size", "bytes and the number of valid bits", "BitBuffer.h BasicBitBuffer")])

P("C16", "Comparison operators and hash codes are consistent for all value types",
  "For every kind of value (numbers, byte arrays, strings, bit buffers, arrays, optionals, variants, extended values, "
  "bitmasks, generated objects and their views) the six comparison operators agree with each other and form a total order, "
  "excluding NaN. Equal values have equal hash codes, and views compare like the data they show.",
  ["inputs"], "all values, all triples of values up to the bound",
  "Laws over pairs and triples of values are what ordered and hashed containers rely on; tests compare a few pairs.",
  ["HashCodeUtil.h", "ArrayView.h", "View.h", "Optional.h", "Variant.h", "Extended.h", "Bytes.h"],
  [("hashing", "HashCodeUtil.h calcHashCode"), ("order of arrays", "ArrayView.h operator<"),
   ("order of optionals", "Optional.h comparison operators")])

P("C18", "Type erased values and variants hold exactly what their history gives them",
  "After any sequence of emplacements, assignments, copies, moves, swaps and resets an any or variant holds exactly the "
  "type, index and value that follow from the history, also when the argument is a part of its own value. Access "
  "succeeds exactly for the held type or active index, and visiting calls the visitor with the active value. Every value is "
  "destroyed exactly once, and an operation that throws leaves the old value or none.",
  ["histories", "fault_sequences"], "all histories up to the bound, all values, a failure at each construction",
  "In place, heap and throwing-move values take different code paths which combine over a history and with exceptions.",
  ["Any.h", "Variant.h"],
  [("holders", "Any.h HeapHolder, NonHeapHolder"), ("copy and move", "Any.h copy, move, clearHolder"),
   ("active index", "Variant.h")])

P("C19", "Memory comes from the user's allocator and returns to where it came from",
  "With any allocators, propagating or not, equal or not, every block is returned to the allocator which handed it out, "
  "exactly once and with the size it was allocated with, also when constructions fail. Everything below an object "
  "created, copied, moved or deserialized with an allocator uses that allocator and nothing is taken from elsewhere.",
  ["histories", "fault_sequences", "configurations"], "all histories up to the bound, all propagation traits, a failure at each construction",
  "Wrong propagation shows only with stateful unequal allocators in particular orders of copy, move and swap.",
  ["AllocatorHolder.h", "Any.h", "Optional.h", "UniquePtr.h", "BitBuffer.h"],
  [("propagation", "Any.h, Optional.h assignment and swap"), ("deleter", "UniquePtr.h"),
   ("polymorphic allocators", "ppmr/PropagatingPolymorphicAllocator.h")])

P("C09", "Packed arrays use the smallest exact delta form, only when it is shorter",
  "A packed array stores a flag, the width of the largest difference, its first element and then differences of exactly "
  "that width; every field of a compound is packed on its own. It is packed exactly when this is shorter, otherwise, and "
  "for types which cannot be packed, its elements are stored as they are. Reading gives back every element, and predicted "
  "sizes and offsets of aligned elements match what is written.",
  ["inputs"], "all elements of all packable types up to the bound, all layouts",
  "The choice and the width depend on all elements at once, with limits at 62 bits and at sizes where both forms tie.",
  ["DeltaContext.h", "ArrayView.h"],
  [("packing decision", "DeltaContext.h init, finishInit"), ("packed layouts", "ArrayView.h writePacked, readPacked")],
  [("differences", "previous element and the width of differences", "DeltaContext.h DeltaContext")])

P("C11", "Arrays of every layout store their elements one after another and read back",
  "Writing an array stores its length first where the schema leaves it open, then the elements in order in their own "
  "encoding, each on a byte boundary where the array is indexed; reading returns equal elements and consumes exactly these "
  "bits, whatever the target held before. Predicted size, the size found while initializing offsets and the written size "
  "are the same, and each recorded offset is the byte position of its element. An implicit array takes as many whole "
  "elements as the rest of the stream holds, and validation fails exactly for a wrong length or an element out of range.",
  ["inputs", "configurations"], "all element values of all element types, lengths up to the bound, all layouts and start "
  "offsets", "Tests write a few hand picked arrays per layout at position zero; element type, layout, start offset and values "
  "multiply.", ["ArrayView.h", "ArrayTraits.h", "View.h", "Types.h"],
  [("element loops", "ArrayView.h write, read, bitSizeOf, initializeOffsets"), ("implicit length", "ArrayView.h readArrayLength"),
   ("array validation", "ArrayView.h validate")])

P("C12", "Arrays in untrusted data are bounded by the data and by the preallocation limit",
  "Whatever length an array announces in front of it or takes from another field, reading it either returns exactly as many "
  "elements as announced, decoded from the stream, or fails with the library's exception because the stream does not hold "
  "them. Memory reserved in advance never exceeds the configured preallocation limit, and otherwise grows only with the "
  "elements really read.",
  ["inputs"], "all stream contents up to the bound, all announced lengths up to 64 bits, several limits, packed and plain",
  "Tests announce one or two too large lengths; lengths whose product with the element size overflows and truncation at each "
  "bit are never sampled.", ["ArrayView.h", "DeltaContext.h", "BitStreamReader.h"],
  [("length check", "ArrayView.h read"), ("preallocation limit", "ArrayView.h read, readPacked"),
   ("packed element reading", "DeltaContext.h read")])

P("C20", "Numbers become their exact decimal text and messages never overrun",
  "Every integer of every type is turned into its decimal digits with a minus sign where needed and nothing else, a "
  "single precision number into its sign, integer part and thousandths, and the special values into their names. The "
  "message of an exception is all the text appended to it in order, cut at the capacity of its buffer and always "
  "terminated; copies have the same message.",
  ["inputs"], "all integers of all types, all magnitudes of single precision numbers, all lengths of messages around the capacity",
  "The tests convert a few limits and short messages; a wrong pair of digits or a text one character too long shows only "
  "for particular values and lengths.",
  ["StringConvertUtil.h", "CppRuntimeException.h", "CppRuntimeException.cpp"],
  [("pairs of digits", "StringConvertUtil.h convertIntToString"), ("fraction", "StringConvertUtil.h convertFloatToString"),
   ("fixed size message", "CppRuntimeException.cpp append, appendImpl")])

P("C21", "Strings survive JSON and malformed string literals are rejected",
  "Every string, whatever bytes it has, is written as a quoted JSON literal without control characters, and decoding that literal "
  "gives back exactly the string and consumes exactly the literal. Any other text starting with a quote is decoded exactly when "
  "it is a terminated string with supported escapes, otherwise it gives no value, and nothing beyond the text is read.",
  ["inputs"], "all strings and all string literals up to the bound, anything following",
  "Escapes, control characters, bytes above 127 and literals cut within an escape combine; tests use a few hand written literals.",
  ["JsonEncoder.h", "JsonEncoder.cpp", "JsonDecoder.h"],
  [("escaping", "JsonEncoder.cpp encodeString"), ("unescaping", "JsonDecoder.h decodeString, decodeUnicodeEscape")])

P("C22", "JSON numbers and literals are decoded exactly, within the given text only",
  "Every integer of every type, true, false, null and the special floating point values survive being written and decoded. Text is "
  "decoded as a number or literal exactly when it starts with one, the longest such prefix is consumed, its type and value are "
  "exact, an integer which does not fit into 64 bits is reported as an overflow without a value, and neither characters behind "
  "the number nor behind the end of the text have an influence.",
  ["inputs"], "all integers, all texts up to the bound, all characters behind",
  "Values next to the 64-bit limits, truncated literals and exponents, and text which is not terminated are not sampled.",
  ["JsonDecoder.h", "JsonEncoder.h", "JsonEncoder.cpp"],
  [("classification", "JsonDecoder.h decodeValue, checkNumber"), ("integers", "JsonDecoder.h decodeSigned, decodeUnsigned"),
   ("literals", "JsonDecoder.h decodeLiteral, JsonEncoder.cpp")])

P("C23", "JSON tokens and grammar do not depend on how the text arrives",
  "The tokens of a JSON text, their values and their line and column positions, and whether and where an unknown token is reported, are "
  "the same however the text is divided into the portions which the stream delivers. The parser accepts exactly the sequences of "
  "tokens which are elements of the JSON grammar and reports one element at a time with its events in order, "
  "with all memory taken from the given allocator. The end of the text stays the end.",
  ["inputs", "schedules"], "all short texts, all divisions, all token sequences up to the bound",
  "The tests deliver each text at once; errors at the border of two portions depend on the position of the border and on what follows.",
  ["JsonTokenizer.h", "JsonTokenizer.cpp", "JsonParser.h"],
  [("portions", "JsonTokenizer.h next, decodeNext, readContent"), ("white space and positions", "JsonTokenizer.h skipWhitespaces, setPosition"),
   ("grammar", "JsonParser.h parseElement, parseObject, parseArray, parseMembers")])

P("C24", "Whole objects are written and read back unchanged through every entry point",
  "Serializing a consistent object gives exactly the bits of its schema, padded with zeros to bytes, whichever entry point is used, and "
  "every way of reading them gives an equal object, whatever the target held before. Objects whose values, choice or union case, or "
  "constraints are inconsistent are refused before anything is returned, and offsets are set to the real positions. Arbitrary bytes "
  "either fail cleanly or give an object which is written and read again unchanged.",
  ["inputs"], "all values of sample objects, all short byte sequences",
  "The tests serialize a few fixed objects into new ones; combinations of members, reused targets and corrupt bytes are not sampled.",
  ["SerializeUtil.h", "DataView.h", "View.h", "BitStreamReader.h"],
  [("serialize and deserialize", "SerializeUtil.h serialize, serializeToBytes, deserialize, deserializeFromBytes"), ("owning view", "DataView.h")])

P("C27", "Spans and array views give exactly their elements",
  "A span and each of its parts refer to exactly the elements asked for, in order, and writing through them changes nothing else. An array "
  "view accepts exactly the indexes of its elements, gives each element together with its owner and index, and its iterators move, "
  "compare and subtract like positions. Views over equal elements are equal and are ordered lexicographically.",
  ["inputs", "histories"], "all indexes, all walks of iterators up to the bound, all small arrays",
  "The tests access a few valid indexes and iterate forwards; arithmetic of iterators and invalid indexes are hardly sampled.",
  ["Span.h", "ArrayView.h"],
  [("parts of spans", "Span.h first, last, subspan"), ("element access", "ArrayView.h at, front, back"), ("iterators", "ArrayView.h ConstIterator")])
