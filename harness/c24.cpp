// C24: whole objects through the serialization functions: exact bits, size, equality, validation, ownership.
#include "common.h"

#include "zserio/ConstraintException.h"
#include "zserio/DataView.h"
#include "zserio/SerializeUtil.h"
#include "zserio/String.h"
#include <test_object/std_allocator/CreatorObject.h>
#include <test_object/std_allocator/ReflectableObject.h>

using namespace zserio;
using namespace test_object::std_allocator;

// ---- an object with a parameter, a constraint, an offset and alignment, written the way the generator writes it
namespace sample
{
struct Indexed
{
    using allocator_type = std::allocator<uint8_t>;
    Indexed() noexcept : Indexed(allocator_type()) {}
    explicit Indexed(const allocator_type& allocator) noexcept : head(), offset(), text(allocator), tail() {}
    UInt3 head;
    mutable UInt16 offset;
    String text;
    UInt6 tail;
};
inline bool operator==(const Indexed& a, const Indexed& b)
{
    return a.head == b.head && a.offset == b.offset && a.text == b.text && a.tail == b.tail;
}
} // namespace sample

namespace zserio
{
template <>
class View<sample::Indexed>
{
public:
    View(const sample::Indexed& data, UInt6 limit) noexcept : m_data(&data), m_limit(limit) {}
    UInt6 limit() const { return m_limit; }
    UInt3 head() const { return m_data->head; }
    UInt16 offset() const { return m_data->offset; }
    std::string_view text() const { return m_data->text; }
    UInt6 tail() const { return m_data->tail; }
    const sample::Indexed& zserioData() const { return *m_data; }

protected:
    View(const sample::Indexed& data, const View& other) noexcept : m_data(&data), m_limit(other.m_limit) {}

private:
    const sample::Indexed* m_data;
    UInt6 m_limit;
};

namespace detail
{
template <>
struct ObjectTraits<sample::Indexed>
{
    static void validate(const View<sample::Indexed>& view, std::string_view)
    {
        detail::validate(view.limit(), "'Indexed.limit'");
        detail::validate(view.head(), "'Indexed.head'");
        detail::validate(view.text(), "'Indexed.text'");
        detail::validate(view.tail(), "'Indexed.tail'");
        if (!(view.tail() <= view.limit()))
            throw ConstraintException("Constraint violated");
    }
    static BitSize bitSizeOf(const View<sample::Indexed>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.head(), end);
        end += detail::bitSizeOf(view.offset(), end);
        end = alignTo(8, end);
        end += detail::bitSizeOf(view.text(), end);
        end += detail::bitSizeOf(view.tail(), end);
        return end - bitPosition;
    }
    static BitSize initializeOffsets(const View<sample::Indexed>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.head(), end);
        end += detail::bitSizeOf(view.offset(), end);
        end = alignTo(8, end);
        view.zserioData().offset = static_cast<uint16_t>(end / 8);
        end += detail::bitSizeOf(view.text(), end);
        end += detail::bitSizeOf(view.tail(), end);
        return end - bitPosition;
    }
    static void write(BitStreamWriter& writer, const View<sample::Indexed>& view)
    {
        detail::write(writer, view.head());
        detail::write(writer, view.offset());
        writer.alignTo(8);
        detail::write(writer, view.text());
        detail::write(writer, view.tail());
    }
    static View<sample::Indexed> read(BitStreamReader& reader, sample::Indexed& data, UInt6 limit)
    {
        View<sample::Indexed> view(data, limit);
        detail::read(reader, data.head);
        detail::read(reader, data.offset);
        reader.alignTo(8);
        if (reader.getBitPosition() != static_cast<size_t>(data.offset) * 8)
            throw CppRuntimeException("Wrong offset");
        detail::read(reader, data.text);
        detail::read(reader, data.tail);
        if (!(view.tail() <= view.limit()))
            throw ConstraintException("Constraint violated");
        return view;
    }
};
} // namespace detail
} // namespace zserio

namespace
{
// the expected stream
struct Bits
{
    uint8_t data[160] = {};
    size_t size = 0;
    void put(unsigned n, uint64_t v)
    {
        spec::put(data, size, n, v);
        size += n;
    }
    void align()
    {
        size = (size + 7) / 8 * 8;
    }
    template <typename T>
    void bytes(const T& t)
    {
        put(8, t.size());
        for (size_t i = 0; i < t.size(); ++i)
            put(8, static_cast<uint8_t>(t[i]));
    }
};

String text(size_t max)
{
    String s;
    const size_t n = zs_choose(0, max, "text length");
    for (size_t i = 0; i < n; ++i)
        s.push_back(static_cast<char>(zs_u8("character")));
    return s;
}

Bytes someBytes(size_t max)
{
    Bytes b;
    const size_t n = zs_choose(0, max, "bytes length");
    for (size_t i = 0; i < n; ++i)
        b.push_back(zs_u8("byte"));
    return b;
}

BitBuffer bitBuffer(uint8_t* last, size_t* size)
{
    static const size_t sizes[] = {0, 5, 8};
    *size = sizes[zs_choose(0, 2, "bit buffer")];
    std::vector<uint8_t> data;
    *last = zs_u8("bits");
    if (*size)
        data.push_back(*last);
    return BitBuffer(std::move(data), *size);
}

void put(Bits& bits, uint8_t last, size_t size)
{
    bits.put(8, size);
    bits.put(static_cast<unsigned>(size), static_cast<uint8_t>(last >> (8 - size)));
}

// small: only the numbers are free
CreatorNested nested(Bits& bits, bool small)
{
    CreatorNested n;
    n.value = zs_u32("nested value");
    bits.put(32, n.value);
    if (!small)
        n.text = text(2);
    bits.bytes(n.text);
    uint8_t last = 0;
    size_t size = 0;
    if (!small)
        n.externData = bitBuffer(&last, &size);
    put(bits, last, size);
    if (!small)
        n.bytesData = someBytes(2);
    bits.bytes(n.bytesData);
    static const CreatorEnum items[] = {CreatorEnum::ONE, CreatorEnum::TWO, CreatorEnum::MinusOne};
    n.creatorEnum = items[zs_choose(0, small ? 0 : 2, "item")];
    bits.put(8, static_cast<uint8_t>(static_cast<int8_t>(n.creatorEnum)));
    const uint8_t mask = zs_u8("mask");
    n.creatorBitmask = CreatorBitmask(UInt8(mask));
    bits.put(8, mask);
    return n;
}

CreatorObject creator(Bits& bits, size_t part)
{
    CreatorObject o;
    o.value = zs_u32("value");
    bits.put(32, o.value);
    o.nested = nested(bits, part != 0);
    if (part == 1)
        o.text = text(3);
    bits.bytes(o.text);
    const size_t numNested = part == 2 ? zs_choose(0, 2, "nested elements") : 0;
    bits.put(8, numNested);
    for (size_t i = 0; i < numNested; ++i)
        o.nestedArray.push_back(nested(bits, i != 0));
    const size_t numTexts = part == 1 ? zs_choose(0, 2, "texts") : 0;
    bits.put(8, numTexts);
    for (size_t i = 0; i < numTexts; ++i)
    {
        o.textArray.push_back(text(1));
        bits.bytes(o.textArray.back());
    }
    const bool arrays = part == 3;
    const bool hasExtern = arrays && zs_choose(0, 1, "extern");
    bits.put(1, hasExtern);
    if (hasExtern)
    {
        o.externArray.emplace();
        const size_t n = zs_choose(0, 2, "extern elements");
        bits.put(8, n);
        for (size_t i = 0; i < n; ++i)
        {
            uint8_t last;
            size_t size;
            o.externArray->push_back(bitBuffer(&last, &size));
            put(bits, last, size);
        }
    }
    const bool hasBytes = arrays && zs_choose(0, 1, "bytes");
    bits.put(1, hasBytes);
    if (hasBytes)
    {
        o.bytesArray.emplace();
        const size_t n = zs_choose(0, 2, "bytes elements");
        bits.put(8, n);
        for (size_t i = 0; i < n; ++i)
        {
            o.bytesArray->push_back(someBytes(1));
            bits.bytes(o.bytesArray->back());
        }
    }
    const bool hasBool = zs_choose(0, 1, "bool");
    bits.put(1, hasBool);
    if (hasBool)
    {
        const bool b = zs_bool("flag");
        o.optionalBool = Bool(b);
        bits.put(1, b);
    }
    const bool hasNested = part == 4 && zs_choose(0, 1, "optional nested");
    bits.put(1, hasNested);
    if (hasNested)
        o.optionalNested = nested(bits, false);
    return o;
}

// an object whose every part holds something which has to disappear
CreatorObject used()
{
    CreatorObject o;
    o.value = 77;
    o.nested.text = "old text";
    o.nested.bytesData.push_back(7);
    o.nested.externData = BitBuffer(std::vector<uint8_t>{1, 2}, 11);
    o.text = "old";
    o.nestedArray.resize(3);
    o.textArray.push_back("old text which is longer than others");
    o.externArray.emplace();
    o.externArray->resize(2);
    o.bytesArray.emplace();
    o.bytesArray->push_back(Bytes());
    o.optionalBool = Bool(true);
    o.optionalNested.emplace();
    o.optionalNested->text = "old";
    return o;
}

template <typename ALLOC>
void sameBits(const BasicBitBuffer<ALLOC>& buffer, const Bits& bits)
{
    zs_assert(buffer.getBitSize() == bits.size, "size in bits");
    zs_assert(spec::same(buffer.getBuffer(), bits.data, (bits.size + 7) / 8), "bits of the object");
}

void sameBytes(const Vector<uint8_t>& bytes, const Bits& bits)
{
    zs_assert(bytes.size() == (bits.size + 7) / 8, "size in bytes");
    zs_assert(spec::same(bytes.data(), bits.data, bytes.size()), "bytes of the object, padded with zeros");
}
} // namespace

// every entry point writes and reads the same bits
ENTRY h_roundtrip()
{
    Bits bits;
    const CreatorObject object = creator(bits, zs_param("part"));
    const BitBuffer buffer = serialize(object);
    sameBits(buffer, bits);
    switch (zs_choose(0, 5, "way"))
    {
    case 0:
        {
            const DataView<CreatorObject> view = deserialize<CreatorObject>(buffer);
            zs_assert(view.zserioData() == object, "read back as data view");
            sameBits(serialize(view), bits);
            break;
        }
    case 1:
        {
            CreatorObject old = used();
            const View<CreatorObject> view = deserialize(buffer, old);
            zs_assert(old == object && &view.zserioData() == &old, "read into a used object");
            break;
        }
    case 2:
        {
            const Vector<uint8_t> bytes = serializeToBytes(object);
            sameBytes(bytes, bits);
            const DataView<CreatorObject> view = deserializeFromBytes<CreatorObject>(bytes);
            zs_assert(view.zserioData() == object, "read back from bytes");
            sameBytes(serializeToBytes(view), bits);
            break;
        }
    case 3:
        {
            const View<CreatorObject> view(object);
            sameBits(serialize(view), bits);
            const Vector<uint8_t> bytes = serializeToBytes(view);
            sameBytes(bytes, bits);
            CreatorObject old = used();
            (void)deserializeFromBytes(bytes, old);
            zs_assert(old == object, "read from bytes into a used object");
            break;
        }
    case 4:
        {
            const DataView<CreatorObject> view(object);
            zs_assert(view.zserioData() == object && &view.zserioData() != &object, "own copy");
            sameBits(serialize(view), bits);
            break;
        }
    default:
        {
            const size_t limit = zs_choose(0, 1, "preallocation");
            const DataView<CreatorObject> view = deserialize<CreatorObject>(buffer, ArrayPreallocation(limit));
            zs_assert(view.zserioData() == object, "read back with a preallocation limit");
            break;
        }
    }
    zs_reach("written");
}

namespace
{
ReflectableObject reflectableObject(Bits& bits, bool& valid)
{
    ReflectableObject o;
    o.stringField = text(1);
    bits.bytes(o.stringField);
    const uint32_t value = zs_u32("value");
    o.reflectableNested.value = UInt31(value);
    valid = (value >> 31) == 0;
    bits.put(31, value);
    static const ReflectableEnum items[] = {ReflectableEnum::VALUE1, ReflectableEnum::VALUE2};
    const size_t item = zs_choose(0, 1, "item");
    o.reflectableEnum = items[item];
    bits.put(8, static_cast<uint8_t>(enumToValue(o.reflectableEnum)));
    const size_t chosen = zs_choose(0, 2, "case of the choice");
    valid = valid & (chosen == (item == 0 ? 1 : 2));
    if (chosen == 1)
    {
        const String s = text(1);
        bits.bytes(s);
        o.reflectableChoice.emplace<ReflectableChoice::Tag::valueStr>(s);
    }
    else if (chosen == 2)
    {
        const uint32_t v = zs_u32("choice value");
        bits.put(32, v);
        o.reflectableChoice.emplace<ReflectableChoice::Tag::value32>(v);
    }
    const size_t united = zs_choose(0, 2, "case of the union");
    valid = valid & (united != 0);
    if (united == 1)
    {
        bits.put(8, 0);
        const uint32_t v = zs_u32("union value");
        bits.put(32, v);
        o.reflectableUnion.emplace<ReflectableUnion::Tag::value32>(v);
    }
    else if (united == 2)
    {
        bits.put(8, 1);
        const String s = text(1);
        bits.bytes(s);
        o.reflectableUnion.emplace<ReflectableUnion::Tag::valueStr>(s);
    }
    return o;
}
} // namespace

// only consistent objects are written, through every entry point
ENTRY h_invalid()
{
    Bits bits;
    bool valid;
    const ReflectableObject object = reflectableObject(bits, valid);
    const size_t way = zs_choose(0, 4, "way");
    const bool threw = spec::throws([&] {
        switch (way)
        {
        case 0: sameBits(serialize(object), bits); break;
        case 1: sameBytes(serializeToBytes(object), bits); break;
        case 2: sameBits(serialize(View<ReflectableObject>(object)), bits); break;
        case 3: sameBytes(serializeToBytes(View<ReflectableObject>(object)), bits); break;
        default:
            {
                const DataView<ReflectableObject> view(object);
                sameBits(serialize(view), bits);
                const BitBuffer buffer = serialize(view);
                const DataView<ReflectableObject> back = deserialize<ReflectableObject>(buffer);
                zs_assert(back.zserioData() == object, "read back");
            }
        }
    });
    zs_assert(threw == !valid, "exactly the consistent objects are accepted");
    zs_reach(threw ? "refused" : "written");
}

// arbitrary bytes either fail or give an object which is written and read again unchanged
ENTRY h_bytes()
{
    const size_t n = zs_param("length");
    std::vector<uint8_t> data(n);
    zs_bytes(data.data(), n, "data");
    ReflectableObject first;
    first.stringField = "old";
    first.reflectableUnion.emplace<ReflectableUnion::Tag::valueStr>("old");
    zs_alloc_limit(2048, true);
    if (spec::throws([&] { (void)deserializeFromBytes(Span<const uint8_t>(data), first); }))
    {
        zs_reach("refused");
        return;
    }
    const BitBuffer buffer = serialize(first);
    zs_assert(buffer.getBitSize() <= 8 * n, "an object is not larger than what it was read from");
    ReflectableObject second;
    (void)deserialize(buffer, second);
    zs_assert(first == second, "the object is read back");
    zs_reach("object");
}

// offsets, constraints and parameters
ENTRY h_indexed()
{
    sample::Indexed object;
    const uint8_t limit = zs_u8("limit"), head = zs_u8("head"), tail = zs_u8("tail");
    zs_assume(limit < 64);
    object.head = UInt3(head);
    object.tail = UInt6(tail);
    object.offset = zs_u16("old offset");
    object.text = text(2);
    const bool valid = head < 8 && tail <= limit;
    Bits bits;
    bits.put(3, head);
    bits.put(16, 3);
    bits.align();
    bits.bytes(object.text);
    bits.put(6, tail);
    const size_t way = zs_choose(0, 4, "way");
    const bool threw = spec::throws([&] {
        switch (way)
        {
        case 0: sameBits(serialize(object, UInt6(limit)), bits); break;
        case 1: sameBytes(serializeToBytes(object, UInt6(limit)), bits); break;
        case 2: sameBits(serialize(View<sample::Indexed>(object, UInt6(limit))), bits); break;
        case 3: sameBytes(serializeToBytes(View<sample::Indexed>(object, UInt6(limit))), bits); break;
        default:
            {
                const DataView<sample::Indexed> view(object, UInt6(limit));
                sameBits(serialize(view), bits);
                sameBytes(serializeToBytes(view), bits);
            }
        }
    });
    zs_assert(threw == !valid, "exactly the objects which satisfy the constraint are written");
    if (threw)
    {
        zs_reach("refused");
        return;
    }
    if (way < 4)
        zs_assert(object.offset == 3, "the offset is set");
    const uint8_t other = zs_u8("other limit");
    zs_assume(other < 64);
    const BitBuffer buffer(std::vector<uint8_t>(bits.data, bits.data + (bits.size + 7) / 8), bits.size);
    object.offset = 3;
    sample::Indexed back;
    const bool refused = spec::throws([&] {
        if (way & 1)
            (void)deserialize(buffer, back, UInt6(other));
        else
        {
            const DataView<sample::Indexed> view = deserialize<sample::Indexed>(buffer, UInt6(other));
            zs_assert(view.limit() == other, "the parameter is kept");
            back = view.zserioData();
        }
    });
    zs_assert(refused == (tail > other), "the constraint is checked with the parameter of the reader");
    if (!refused)
        zs_assert(back == object, "read back");
    zs_reach("written");
}

// a data view owns its object
ENTRY h_view()
{
    Bits bits;
    CreatorObject object = creator(bits, 1);
    const CreatorObject original = object;
    const size_t way = zs_choose(0, 2, "way");
    auto check = [&](const DataView<CreatorObject>& view) {
        const CreatorObject& data = view.zserioData();
        const uint8_t* begin = reinterpret_cast<const uint8_t*>(&view);
        const uint8_t* at = reinterpret_cast<const uint8_t*>(&data);
        zs_assert(at >= begin && at < begin + sizeof(view), "the object is inside of the view");
        zs_assert(data == original && view.value() == original.value && view.text() == std::string_view(original.text),
                "the view shows its own object");
        zs_assert(view.textArray().size() == original.textArray.size(), "elements");
        zs_assert(view.nested().param() == original.value && view.nested().value() == original.nested.value,
                "the nested view has its parameter from the own object");
    };
    if (way == 0)
    {
        const DataView<CreatorObject> view(object);
        object = used();
        check(view);
    }
    else if (way == 1)
    {
        const DataView<CreatorObject> view(std::move(object));
        check(view);
        const DataView<CreatorObject> copy(view);
        check(copy);
        check(view);
    }
    else
    {
        auto* view = new DataView<CreatorObject>(object);
        const DataView<CreatorObject> moved(std::move(*view));
        delete view;
        check(moved);
    }
    zs_reach("view");
}

// an object which held another case of a choice takes over the case of the data
static void choice(bool empty)
{
    ReflectableChoice used;
    if (zs_choose(0, 1, "old case"))
        used.emplace<ReflectableChoice::Tag::value32>(zs_u32("old"));
    else
        used.emplace<ReflectableChoice::Tag::valueStr>("old");
    uint8_t data[4];
    zs_bytes(data, 4, "data");
    zs_assume(data[0] < 4);
    const ReflectableEnum item = empty ? ReflectableEnum::VALUE3
                                       : (zs_choose(0, 1, "item") ? ReflectableEnum::VALUE1 : ReflectableEnum::VALUE2);
    ReflectableChoice fresh;
    (void)deserializeFromBytes(Span<const uint8_t>(data), fresh, item);
    (void)deserializeFromBytes(Span<const uint8_t>(data), used, item);
    zs_assert(used.index() == fresh.index(), "the case of the data");
    if (!empty)
        zs_assert(used == fresh, "the value of the data");
    zs_reach("read");
}

ENTRY h_choice()
{
    choice(false);
}

ENTRY h_choice_empty()
{
    choice(true);
}
