// C09/C10 packed arrays: exact delta format, smallest sufficient width, only when shorter; sizes and offsets agree.
#include "arrays.h"

using namespace arrays;

// a compound with two packable fields around one which is never packed, written the way the generator writes it
namespace sample
{
struct Item
{
    zserio::Int<9> first;
    zserio::Float32 plain;
    zserio::UInt8 second;
};
} // namespace sample
namespace zserio
{
template <>
class View<sample::Item>
{
public:
    explicit View(const sample::Item& data) : m_data(&data) {}
    Int<9> first() const { return m_data->first; }
    Float32 plain() const { return m_data->plain; }
    UInt8 second() const { return m_data->second; }

private:
    const sample::Item* m_data;
};
namespace detail
{
template <>
struct ObjectTraits<sample::Item>
{
    struct PackingContext
    {
        DeltaContext first;
        DeltaContext second;
    };
    using V = View<sample::Item>;
    static BitSize bitSizeOf(const V& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.first(), end);
        end += detail::bitSizeOf(view.plain(), end);
        end += detail::bitSizeOf(view.second(), end);
        return end - bitPosition;
    }
    static void write(BitStreamWriter& writer, const V& view)
    {
        detail::write(writer, view.first());
        detail::write(writer, view.plain());
        detail::write(writer, view.second());
    }
    static V read(BitStreamReader& reader, sample::Item& data)
    {
        V view(data);
        detail::read(reader, data.first);
        detail::read(reader, data.plain);
        detail::read(reader, data.second);
        return view;
    }
    static void initContext(PackingContext& context, const V& view)
    {
        detail::initContext(context.first, view.first());
        detail::initContext(context.second, view.second());
    }
    static BitSize bitSizeOf(PackingContext& context, const V& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(context.first, view.first(), end);
        end += detail::bitSizeOf(view.plain(), end);
        end += detail::bitSizeOf(context.second, view.second(), end);
        return end - bitPosition;
    }
    static void write(PackingContext& context, BitStreamWriter& writer, const V& view)
    {
        detail::write(context.first, writer, view.first());
        detail::write(writer, view.plain());
        detail::write(context.second, writer, view.second());
    }
    static void read(PackingContext& context, BitStreamReader& reader, sample::Item& data)
    {
        detail::read(context.first, reader, data.first);
        detail::read(reader, data.plain);
        detail::read(context.second, reader, data.second);
    }
};
} // namespace detail
} // namespace zserio

namespace
{
const size_t CAP = 80;

template <ArrayType AT, typename T>
void packed(size_t n, unsigned few, unsigned low, unsigned high)
{
    using K = Kind<T>;
    DynOwner owner;
    Vector<T> raw;
    raw.reserve(n);
    const unsigned last = maxDifference<T>();
    for (size_t i = 0; i < n; ++i)
    {
        if (i == 0)
        {
            raw.push_back(anyElement<T>());
            continue;
        }
        unsigned bits;
        if (few)
        {
            const unsigned some[6] = {0, 8, last / 2 + 1, last, 1, last - 1};
            bits = last == 0 ? 0 : last < 8 ? zs_choose(0, last, "bits") : some[zs_choose(0, few - 1, "bits")];
        }
        else
        {
            bits = zs_choose(low < last ? low : last, high < last ? high : last, "bits");
        }
        raw.push_back(nextElement(raw[i - 1], bits, bits > 0 && zs_choose(0, 1, "down") != 0));
    }
    const auto view = makeView(raw, owner);
    const size_t start = zs_choose(0, 1, "start") * 5;
    BitSize offsetAt[8] = {};
    size_t numOffsets = 0;
    const BitSize size = detail::bitSizeOfPacked<AT>(view, static_cast<BitSize>(start));
    const BitSize initSize =
            detail::initializeOffsetsPacked<AT>(view, static_cast<BitSize>(start), Offsets{offsetAt, &numOffsets});
    zs_assert(numOffsets == (isAligned(AT) ? n : 0), "one offset for each aligned element");
    uint8_t out[CAP] = {};
    BitStreamWriter w(Span<uint8_t>(out, CAP));
    w.setBitPosition(start);
    detail::writePacked<AT>(w, view);
    zs_assert(w.getBitPosition() == start + size && size == initSize, "packed size as predicted");

    // decode by the documented format
    size_t pos = start;
    if (isAuto(AT))
    {
        zs_assert(spec::get(out, pos, 8) == n, "length before the elements");
        pos += 8;
    }
    if (n > 0)
    {
        if (isAligned(AT))
            pos = up8(pos);
        if (isAligned(AT))
            zs_assert(offsetAt[0] * 8 == pos, "offset of the first element");
        const bool isPacked = spec::bit(out, pos++) != 0;
        unsigned width = 0;
        if (isPacked)
        {
            width = static_cast<unsigned>(spec::get(out, pos, 6));
            pos += 6;
        }
        uint64_t previous = K::decode(out, pos);
        zs_assert(previous == K::number(raw[0]), "first element is stored as is");
        size_t plain = 1 + plainBits(raw[0]);
        uint64_t all = 0;
        for (size_t i = 1; i < n; ++i)
        {
            if (isAligned(AT))
            {
                pos = up8(pos);
                zs_assert(offsetAt[i] * 8 == pos, "offset of an element");
            }
            const uint64_t number = K::number(raw[i]);
            if (isPacked)
            {
                if (width > 0)
                {
                    previous += static_cast<uint64_t>(spec::sext(spec::get(out, pos, width + 1), width + 1));
                    pos += width + 1;
                }
            }
            else
            {
                previous = K::decode(out, pos);
            }
            zs_assert(previous == number, "element");
            const uint64_t before = K::number(raw[i - 1]);
            const bool less = K::isSigned ? static_cast<int64_t>(before) < static_cast<int64_t>(number) : before < number;
            all |= less ? number - before : before - number;
            plain += plainBits(raw[i]);
        }
        zs_assert(pos == w.getBitPosition(), "nothing after the last element");
        // the largest width with which packing is still shorter; differences of more than 62 bits are never packed
        int limit = -1;
        for (int i = 0; i <= 62 && n > 1; ++i)
        {
            if (7 + plainBits(raw[0]) + (n - 1) * (i + (i > 0 ? 1 : 0)) < plain)
                limit = i;
        }
        if (isPacked)
        {
            zs_assert(static_cast<int>(width) <= limit, "packed only when this is shorter");
            zs_assert((all >> width) == 0 && (width == 0 || (all >> (width - 1)) == 1),
                    "smallest width which holds all differences");
        }
        else
        {
            zs_assert(limit < 0 || (all >> limit) != 0, "packed when this is shorter");
        }
        zs_reach(isPacked ? "packed" : "plain");
    }
    else
    {
        zs_assert(pos == w.getBitPosition(), "an empty array has no elements");
    }

    BitStreamReader r(Span<const uint8_t>(out, CAP), w.getBitPosition());
    r.setBitPosition(start);
    Vector<T> back;
    back.resize(zs_choose(0, 1, "stale"));
    readAll<AT, T>(r, back, owner, isAuto(AT) ? 0 : n, true);
    zs_assert(back.size() == n, "length reads back");
    bool same = true;
    for (size_t i = 0; i < n; ++i)
        same = same & (K::number(back[i]) == K::number(raw[i]));
    zs_assert(same, "elements read back");
    zs_assert(r.getBitPosition() == w.getBitPosition(), "reading consumes what was written");
}
} // namespace

ENTRY h_packed()
{
    const size_t n = zs_choose(zs_param("min"), zs_param("max"), "length");
    const unsigned layout = zs_param("layouts") == 1 ? 0 : zs_choose(0, 3, "layout");
    forType(zs_param("type"), [&](auto t) {
        forLayout(layout, [&](auto at) {
            if constexpr (at.value != ArrayType::IMPLICIT)
                packed<at.value, decltype(t)>(n, zs_param("few"), zs_param("low"), zs_param("high"));
        });
    });
}

namespace
{
// one field of the compounds: descriptor, first element as is, then differences
template <typename T>
struct FieldDecoder
{
    bool packed = false;
    unsigned width = 0;
    uint64_t previous = 0;
    uint64_t next(const uint8_t* d, size_t& pos, bool isFirst)
    {
        if (isFirst)
        {
            packed = spec::bit(d, pos++) != 0;
            if (packed)
            {
                width = static_cast<unsigned>(spec::get(d, pos, 6));
                pos += 6;
            }
        }
        if (isFirst || !packed)
        {
            previous = Kind<T>::decode(d, pos);
        }
        else if (width > 0)
        {
            previous += static_cast<uint64_t>(spec::sext(spec::get(d, pos, width + 1), width + 1));
            pos += width + 1;
        }
        return previous;
    }
};

template <typename T>
bool packsShorter(const T* v, size_t n, unsigned& width)
{
    uint64_t all = 0;
    size_t plain = 1 + plainBits(v[0]);
    for (size_t i = 1; i < n; ++i)
    {
        const uint64_t a = Kind<T>::number(v[i - 1]);
        const uint64_t b = Kind<T>::number(v[i]);
        const bool less = Kind<T>::isSigned ? static_cast<int64_t>(a) < static_cast<int64_t>(b) : a < b;
        all |= less ? b - a : a - b;
        plain += plainBits(v[i]);
    }
    width = 0;
    while (width < 64 && (all >> width) != 0)
        ++width;
    return n > 1 && 7 + plainBits(v[0]) + (n - 1) * (width + (width > 0 ? 1 : 0)) < plain;
}

template <ArrayType AT>
void compounds(size_t n)
{
    Vector<sample::Item> raw;
    raw.reserve(n);
    Int<9> first[4] = {};
    UInt8 second[4] = {};
    for (size_t i = 0; i < n; ++i)
    {
        if (i == 0)
        {
            first[i] = anyElement<Int<9>>();
            second[i] = anyElement<UInt8>();
        }
        else
        {
            const unsigned b = zs_choose(0, 9, "bits");
            first[i] = nextElement(first[i - 1], b, b > 0 && zs_choose(0, 1, "down") != 0);
            const unsigned c = zs_choose(0, 2, "bits of second") * 4;
            second[i] = nextElement(second[i - 1], c, i == 1);
        }
        sample::Item item{first[i], Float32(static_cast<float>(i) * 1.5F), second[i]};
        raw.push_back(item);
    }
    const ArrayView<const sample::Item> view(raw);
    const size_t start = zs_choose(0, 1, "start") * 3;
    BitSize offsetAt[4] = {};
    size_t numOffsets = 0;
    const BitSize size = detail::bitSizeOfPacked<AT>(view, static_cast<BitSize>(start));
    const BitSize initSize =
            detail::initializeOffsetsPacked<AT>(view, static_cast<BitSize>(start), Offsets{offsetAt, &numOffsets});
    uint8_t out[CAP] = {};
    BitStreamWriter w(Span<uint8_t>(out, CAP));
    w.setBitPosition(start);
    detail::writePacked<AT>(w, view);
    zs_assert(w.getBitPosition() == start + size && size == initSize, "packed size of compounds as predicted");
    size_t pos = start;
    if (isAuto(AT))
    {
        zs_assert(spec::get(out, pos, 8) == n, "number of compounds");
        pos += 8;
    }
    FieldDecoder<Int<9>> da;
    FieldDecoder<UInt8> db;
    for (size_t i = 0; i < n; ++i)
    {
        if (isAligned(AT))
        {
            pos = up8(pos);
            zs_assert(offsetAt[i] * 8 == pos, "offset of a compound");
        }
        zs_assert(da.next(out, pos, i == 0) == Kind<Int<9>>::number(first[i]), "first field of a compound");
        uint32_t f;
        const float value = static_cast<float>(i) * 1.5F;
        memcpy(&f, &value, 4);
        zs_assert(spec::get(out, pos, 32) == f, "a field which is not packed");
        pos += 32;
        zs_assert(db.next(out, pos, i == 0) == Kind<UInt8>::number(second[i]), "last field of a compound");
    }
    zs_assert(pos == w.getBitPosition(), "nothing after the last compound");
    zs_assert(numOffsets == (isAligned(AT) ? n : 0), "one offset for each compound");
    if (n > 0)
    {
        unsigned width;
        zs_assert(packsShorter(first, n, width) == da.packed, "the first field is packed when this is shorter");
        zs_assert(!da.packed || width == da.width, "width of the first field");
        zs_assert(packsShorter(second, n, width) == db.packed, "the last field is packed when this is shorter");
        zs_assert(!db.packed || width == db.width, "width of the last field");
        if (da.packed != db.packed)
            zs_reach("one field packed");
    }
    BitStreamReader r(Span<const uint8_t>(out, CAP), w.getBitPosition());
    r.setBitPosition(start);
    Vector<sample::Item> back;
    detail::readPacked<AT>(r, back, isAuto(AT) ? 0 : n);
    zs_assert(back.size() == n && r.getBitPosition() == w.getBitPosition(), "compounds read back");
    bool same = true;
    for (size_t i = 0; i < n; ++i)
    {
        same = same & (Kind<Int<9>>::number(back[i].first) == Kind<Int<9>>::number(first[i])) &
                (Kind<UInt8>::number(back[i].second) == Kind<UInt8>::number(second[i])) &
                (static_cast<float>(back[i].plain) == static_cast<float>(i) * 1.5F);
    }
    zs_assert(same, "fields read back");
}

// types which cannot be packed are stored by the packed functions exactly as by the plain ones
template <ArrayType AT, typename T>
void unpackable(size_t n)
{
    Vector<T> raw;
    for (size_t i = 0; i < n; ++i)
    {
        if constexpr (std::is_same_v<T, String>)
        {
            char c[2] = {static_cast<char>(zs_u8("char")), static_cast<char>(zs_u8("char"))};
            raw.emplace_back(c, zs_choose(0, 2, "characters"));
        }
        else if constexpr (std::is_same_v<T, Bytes>)
        {
            raw.emplace_back();
            const unsigned k = zs_choose(0, 2, "bytes");
            for (unsigned j = 0; j < k; ++j)
                raw.back().push_back(zs_u8("byte"));
        }
        else
        {
            raw.push_back(T(static_cast<typename T::ValueType>(static_cast<int>(i) * -2)));
        }
    }
    const ArrayView<const T> view(raw);
    const size_t start = zs_choose(0, 1, "start") * 3;
    uint8_t a[CAP] = {};
    uint8_t b[CAP] = {};
    BitStreamWriter wa(Span<uint8_t>(a, CAP));
    BitStreamWriter wb(Span<uint8_t>(b, CAP));
    wa.setBitPosition(start);
    wb.setBitPosition(start);
    BitSize oa[8] = {};
    BitSize ob[8] = {};
    size_t na = 0;
    size_t nb = 0;
    const BitSize p = static_cast<BitSize>(start);
    zs_assert(detail::bitSizeOfPacked<AT>(view, p) == detail::bitSizeOf<AT>(view, p), "size of an unpackable array");
    zs_assert(detail::initializeOffsetsPacked<AT>(view, p, Offsets{oa, &na}) ==
                    detail::initializeOffsets<AT>(view, p, Offsets{ob, &nb}),
            "size of an unpackable array with offsets");
    zs_assert(na == nb && memcmp(oa, ob, sizeof oa) == 0, "offsets of an unpackable array");
    detail::writePacked<AT>(wa, view);
    detail::write<AT>(wb, view);
    zs_assert(wa.getBitPosition() == wb.getBitPosition() && spec::same(a, b, CAP), "an unpackable array");
    BitStreamReader r(Span<const uint8_t>(a, CAP), wa.getBitPosition());
    r.setBitPosition(start);
    Vector<T> back;
    detail::readPacked<AT>(r, back, isAuto(AT) ? 0 : n);
    zs_assert(back == raw && r.getBitPosition() == wa.getBitPosition(), "an unpackable array reads back");
}
} // namespace

ENTRY h_compounds()
{
    const size_t n = zs_choose(zs_param("min"), zs_param("max"), "length");
    forLayout(zs_choose(0, 3, "layout"), [&](auto at) {
        if constexpr (at.value != ArrayType::IMPLICIT)
            compounds<at.value>(n);
    });
}

ENTRY h_unpackable()
{
    const size_t n = zs_choose(0, 2, "length");
    forLayout(zs_choose(0, 3, "layout"), [&](auto at) {
        if constexpr (at.value != ArrayType::IMPLICIT)
        {
            switch (zs_choose(0, 4, "type"))
            {
            case 0: unpackable<at.value, Float16>(n); break;
            case 1: unpackable<at.value, Float32>(n); break;
            case 2: unpackable<at.value, Float64>(n); break;
            case 3: unpackable<at.value, String>(n); break;
            default: unpackable<at.value, Bytes>(n); break;
            }
        }
    });
}
