// C12 arrays in untrusted data: whatever length is announced, reading returns exactly the elements of the stream or
// fails, and never allocates more up front than the given limit.
#include "arrays.h"
#include "zserio/Bytes.h"
#include "zserio/String.h"

using namespace arrays;

namespace
{
// decodes one element from [pos, end); false when it does not fit or is not valid
template <typename T, typename = void>
struct Reference
{
    static bool next(const uint8_t* d, size_t& pos, size_t end, uint64_t& v)
    {
        if (end - pos < Kind<T>::minBits)
            return false;
        v = Kind<T>::decode(d, pos);
        return true;
    }
    static bool matches(const T& t, uint64_t v) { return Kind<T>::number(t) == v; }
    static constexpr size_t bits = Kind<T>::minBits;
};

template <typename T, unsigned FORMAT>
struct VarReference
{
    static bool next(const uint8_t* d, size_t& pos, size_t end, uint64_t& v)
    {
        uint64_t mag;
        bool neg;
        const varint::Spec f = varint::formatOf(FORMAT);
        const unsigned n = varint::decode(f, d, pos, end - pos, mag, neg);
        if (n == 0 || (FORMAT == 8 && mag > f.maxAbs))
            return false;
        pos += n * 8;
        v = FORMAT == 3 && neg && n == 1 && mag == 0 ? UINT64_C(1) << 63 : neg ? ~mag + 1 : mag;
        return true;
    }
    static bool matches(const T& t, uint64_t v) { return Kind<T>::number(t) == v; }
    static constexpr size_t bits = 8;
};
template <> struct Reference<VarInt16> : VarReference<VarInt16, 0> {};
template <> struct Reference<VarUInt32> : VarReference<VarUInt32, 5> {};
template <> struct Reference<VarSize> : VarReference<VarSize, 8> {};
template <>
struct Reference<sample::Color>
{
    static bool next(const uint8_t* d, size_t& pos, size_t end, uint64_t& v)
    {
        if (!Reference<VarInt16>::next(d, pos, end, v))
            return false;
        const int64_t s = static_cast<int64_t>(v);
        return s == -5 || s == 0 || s == 3 || s == 16383;
    }
    static bool matches(const sample::Color& t, uint64_t v) { return static_cast<uint64_t>(static_cast<int64_t>(t)) == v; }
    static constexpr size_t bits = 8;
};
template <>
struct Reference<Float32>
{
    static bool next(const uint8_t* d, size_t& pos, size_t end, uint64_t& v)
    {
        if (end - pos < 32)
            return false;
        v = spec::get(d, pos, 32);
        pos += 32;
        return true;
    }
    static bool matches(const Float32& t, uint64_t v)
    {
        const float f = t;
        uint32_t b;
        memcpy(&b, &f, 4);
        return b == v;
    }
    static constexpr size_t bits = 32;
};
// strings and byte arrays: the value is the position of the contents and the length
template <typename T>
struct BlobReference
{
    static const uint8_t*& data()
    {
        static const uint8_t* d;
        return d;
    }
    static bool next(const uint8_t* d, size_t& pos, size_t end, uint64_t& v)
    {
        data() = d;
        uint64_t length;
        if (!Reference<VarSize>::next(d, pos, end, length) || length > (end - pos) / 8)
            return false;
        length = zs_concretize(length);
        v = pos << 8 | length;
        pos += length * 8;
        return true;
    }
    static bool matches(const T& t, uint64_t v)
    {
        if (t.size() != (v & 0xFF))
            return false;
        bool same = true;
        for (size_t i = 0; i < t.size(); ++i)
            same = same & (static_cast<uint8_t>(t[i]) == spec::get(data(), (v >> 8) + i * 8, 8));
        return same;
    }
    static constexpr size_t bits = 8;
};
template <> struct Reference<String> : BlobReference<String> {};
template <> struct Reference<Bytes> : BlobReference<Bytes> {};

const size_t MAX_ELEMENTS = 40;

template <ArrayType AT, typename T, typename V>
void readOne(BitStreamReader& r, V& raw, size_t length, bool packed)
{
    if constexpr (std::is_same_v<T, String> || std::is_same_v<T, Bytes> || detail::is_float_wrapper_v<T>)
    {
        if (packed)
            detail::readPacked<AT>(r, raw, length);
        else
            detail::read<AT>(r, raw, length);
    }
    else
    {
        DynOwner owner;
        readAll<AT, T>(r, raw, owner, length, packed);
    }
}

// returns whether reading failed
template <ArrayType AT, typename T>
bool readLimited(BitStreamReader& r, Vector<T>& raw, size_t length, bool packed, size_t limit, size_t elements)
{
    const size_t grown = elements * 2 * sizeof(T);
    const size_t bound = grown > limit ? grown : limit;
    zs_alloc_limit(bound > 1024 ? bound : 1024, true); // exceptions need up to 1024 bytes
    const bool failed = spec::throws([&] { readOne<AT, T>(r, raw, length, packed); });
    zs_alloc_limit(~UINT64_C(0), false);
    zs_assert(r.getBitPosition() <= r.getBufferBitSize(), "the position stays inside the stream");
    return failed;
}

template <ArrayType AT, typename T>
void hostile(size_t extra)
{
    using R = Reference<T>;
    uint8_t data[40];
    zs_bytes(data, sizeof data, "data");
    const size_t start = zs_param("start");
    const size_t room = 3 * R::bits + extra;
    const size_t bits = start + (isAuto(AT) ? 16 : 0) +
            (R::bits == 1 ? zs_choose(0, room, "bits") : (R::bits * zs_choose(0, zs_param("whole"), "whole") + zs_choose(0, 2, "part") * (R::bits - 1) / 2));
    const size_t limits[3] = {0, 20, 4096};
    const size_t limit = limits[zs_choose(0, 2, "limit")];
    uint64_t length = zs_u64("length");
    size_t pos = start;
    bool valid = true;
    if (isAuto(AT))
    {
        uint64_t announced = 0;
        valid = Reference<VarSize>::next(data, pos, bits, announced);
        length = announced;
    }
    zs_assume(length <= 6 || length > 4096); // the size of what is reserved is explored case by case
    size_t n = 0;
    uint64_t v[MAX_ELEMENTS];
    while (valid && n < length)
    {
        if (isAligned(AT))
        {
            if (up8(pos) > bits)
                break;
            pos = up8(pos);
        }
        if (!R::next(data, pos, bits, v[n]))
            break;
        ++n;
    }
    valid = valid && n == length;
    BitStreamReader r(Span<const uint8_t>(data, sizeof data), bits, ArrayPreallocation(limit));
    r.setBitPosition(start);
    Vector<T> raw;
    const bool failed = readLimited<AT>(r, raw, length, false, limit, bits / R::bits + 1);
    zs_assert(failed == !valid, "reading an array fails exactly when the stream does not hold it");
    if (failed)
    {
        zs_reach("rejected");
        return;
    }
    zs_assert(raw.size() == n && r.getBitPosition() == pos, "as many elements as announced");
    bool same = true;
    for (size_t i = 0; i < n; ++i)
        same = same & R::matches(raw[i], v[i]);
    zs_assert(same, "the elements of the stream");
    if (n > 0)
        zs_reach("read");
}

// packed arrays from arbitrary data
template <ArrayType AT, typename T>
void hostilePacked(size_t most)
{
    using R = Reference<T>;
    uint8_t data[40];
    zs_bytes(data, sizeof data, "data");
    const size_t start = zs_param("start");
    const size_t bits = start + (isAuto(AT) ? 8 : 0) + zs_choose(0, 6, "bits") * (most / 6);
    const size_t limit = zs_choose(0, 1, "limit") * 40;
    uint64_t length = zs_u64("length");
    size_t pos = start;
    bool valid = true;
    if (isAuto(AT))
    {
        uint64_t announced = 0;
        valid = Reference<VarSize>::next(data, pos, bits, announced);
        length = announced;
    }
    // the reference: elements until the data ends
    size_t n = 0;
    const unsigned widths[10] = {0, 1, 2, 3, 7, 8, 15, 31, 62, 63};
    const bool packed = zs_choose(0, 1, "packed") != 0;
    const unsigned width = packed ? widths[zs_choose(0, 9, "width")] : 0;
    while (valid && n < length)
    {
        if (isAligned(AT))
        {
            if (up8(pos) > bits)
                break;
            pos = up8(pos);
        }
        if (n == 0)
        {
            if (pos + 1 > bits)
                break;
            spec::setBit(data, pos++, packed);
            if (packed)
            {
                if (pos + 6 > bits)
                    break;
                spec::put(data, pos, 6, width);
                pos += 6;
            }
        }
        uint64_t v;
        if (n == 0 || !packed)
        {
            if (!R::next(data, pos, bits, v))
                break;
        }
        else if (width > 0)
        {
            if (pos + width + 1 > bits)
                break;
            pos += width + 1;
        }
        else
        {
            zs_assume(length <= 4); // equal elements take no room at all
        }
        ++n;
    }
    valid = valid && n == length;
    BitStreamReader r(Span<const uint8_t>(data, sizeof data), bits, ArrayPreallocation(limit));
    r.setBitPosition(start);
    Vector<T> raw;
    const bool failed = readLimited<AT>(r, raw, length, true, limit, bits + 6);
    if (!std::is_enum_v<T>)
        zs_assert(failed == !valid, "reading a packed array fails exactly when the stream does not hold it");
    if (failed)
    {
        zs_reach("rejected");
        return;
    }
    zs_assert(raw.size() == length, "as many elements as announced");
    if (!std::is_enum_v<T>)
        zs_assert(r.getBitPosition() == pos, "everything of the packed array is consumed");
    if (n > 0)
        zs_reach("read");
}

template <typename F>
void forElement(unsigned type, F&& f)
{
    switch (type)
    {
    case 0: f(Bool()); break;
    case 1: f(UInt8()); break;
    case 2: f(Int<9>()); break;
    case 3: f(UInt<33>()); break;
    case 4: f(VarInt16()); break;
    case 5: f(VarUInt32()); break;
    case 6: f(VarSize()); break;
    case 7: f(DynInt16()); break;
    case 8: f(sample::Color()); break;
    case 9: f(sample::Flags()); break;
    case 10: f(Int64()); break;
    case 11: f(Float32()); break;
    case 12: f(String()); break;
    default: f(Bytes()); break;
    }
}
} // namespace

ENTRY h_hostile()
{
    forElement(static_cast<unsigned>(zs_param("type")), [&](auto t) {
        forLayout(static_cast<unsigned>(zs_param("layout")), [&](auto at) {
            if constexpr (at.value != ArrayType::IMPLICIT)
                hostile<at.value, decltype(t)>(isAligned(at.value) ? 16 : 1);
        });
    });
}

ENTRY h_packed()
{
    forElement(static_cast<unsigned>(zs_param("type")), [&](auto t) {
        forLayout(static_cast<unsigned>(zs_param("layout")), [&](auto at) {
            if constexpr (at.value != ArrayType::IMPLICIT && detail::is_packable_v<decltype(t)>)
                hostilePacked<at.value, decltype(t)>(zs_param("most"));
        });
    });
}
