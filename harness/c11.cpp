// C11 plain arrays: layout of every kind of array and element, predicted sizes, offsets, reading back; implicit arrays;
// validation of length and elements.
#include "arrays.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/OutOfRangeException.h"
#include "zserio/ArrayLengthException.h"
#include "zserio/String.h"

using namespace arrays;

// a compound whose size depends on its position and which holds an offset, written the way the generator writes it
namespace sample
{
struct Block
{
    zserio::UInt3 head;
    zserio::UInt16 offset;
    zserio::UInt8 tail;
};
} // namespace sample
namespace zserio
{
template <>
class View<sample::Block>
{
public:
    explicit View(sample::Block& data) : m_data(data) {}
    UInt3 head() const { return m_data.head; }
    UInt16 offset() const { return m_data.offset; }
    UInt8 tail() const { return m_data.tail; }
    sample::Block& zserioData() const { return m_data; }

private:
    sample::Block& m_data;
};
namespace detail
{
template <>
struct ObjectTraits<sample::Block>
{
    static BitSize bitSizeOf(const View<sample::Block>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.head(), end);
        end += detail::bitSizeOf(view.offset(), end);
        end = alignTo(8, end);
        end += detail::bitSizeOf(view.tail(), end);
        return end - bitPosition;
    }
    static BitSize initializeOffsets(const View<sample::Block>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.head(), end);
        end += detail::bitSizeOf(view.offset(), end);
        end = alignTo(8, end);
        view.zserioData().offset = static_cast<uint16_t>(end / 8);
        end += detail::bitSizeOf(view.tail(), end);
        return end - bitPosition;
    }
    static void write(BitStreamWriter& writer, const View<sample::Block>& view)
    {
        detail::write(writer, view.head());
        detail::write(writer, view.offset());
        writer.alignTo(8);
        detail::write(writer, view.tail());
    }
    static View<sample::Block> read(BitStreamReader& reader, sample::Block& data)
    {
        View<sample::Block> view(data);
        detail::read(reader, data.head);
        detail::read(reader, data.offset);
        reader.alignTo(8);
        detail::read(reader, data.tail);
        return view;
    }
    static void validate(const View<sample::Block>& view, std::string_view)
    {
        detail::validate(view.head(), "Block.head");
        detail::validate(view.tail(), "Block.tail");
    }
};
} // namespace detail
} // namespace zserio

namespace
{
const size_t CAP = 160;

// ---- any element and its stored form ----
template <typename T, typename = void>
struct Elem
{
    static T any(size_t) { return anyElement<T>(); }
    static void stored(const uint8_t* d, size_t& pos, const T& t)
    {
        zs_assert(Kind<T>::decode(d, pos) == Kind<T>::number(t), "stored number");
    }
    static bool same(const T& a, const T& b) { return Kind<T>::number(a) == Kind<T>::number(b); }
};

template <typename F, typename B, unsigned N>
struct FloatElem
{
    static F any(size_t i)
    {
        if (N == 16)
            return F(static_cast<typename F::ValueType>(static_cast<int>(i) * -3) / 2);
        B bits = static_cast<B>(zs_u64("bits"));
        const B exponents = N == 32 ? static_cast<B>(0x7F800000U) : static_cast<B>(UINT64_C(0x7FF0000000000000));
        zs_assume((bits & exponents) != exponents); // finite
        typename F::ValueType v;
        memcpy(&v, &bits, sizeof v);
        return F(v);
    }
    static B bitsOf(const F& f)
    {
        const typename F::ValueType v = f;
        B b;
        memcpy(&b, &v, sizeof b);
        return b;
    }
    static void stored(const uint8_t* d, size_t& pos, const F& t)
    {
        if (N == 16)
        {
            static const uint16_t half[4] = {0x0000, 0xBE00, 0xC200, 0xC480}; // 0 -1.5 -3 -4.5
            const unsigned i = t == F(0.0F) ? 0 : t == F(-1.5F) ? 1 : t == F(-3.0F) ? 2 : 3;
            zs_assert(spec::get(d, pos, 16) == half[i] || (i == 0 && spec::get(d, pos, 16) == 0x8000), "stored half");
        }
        else
            zs_assert(spec::get(d, pos, N) == bitsOf(t), "stored floating point number");
        pos += N;
    }
    static bool same(const F& a, const F& b) { return N == 16 ? a == b : bitsOf(a) == bitsOf(b); }
};
template <> struct Elem<Float16> : FloatElem<Float16, uint32_t, 16> {};
template <> struct Elem<Float32> : FloatElem<Float32, uint32_t, 32> {};
template <> struct Elem<Float64> : FloatElem<Float64, uint64_t, 64> {};

template <>
struct Elem<String>
{
    static String any(size_t)
    {
        const char c[2] = {static_cast<char>(zs_u8("char")), static_cast<char>(zs_u8("char"))};
        return String(c, zs_choose(0, 2, "characters"));
    }
    static void stored(const uint8_t* d, size_t& pos, const String& t)
    {
        zs_assert(spec::get(d, pos, 8) == t.size(), "stored length");
        pos += 8;
        for (size_t i = 0; i < t.size(); ++i, pos += 8)
            zs_assert(spec::get(d, pos, 8) == static_cast<uint8_t>(t[i]), "stored character");
    }
    static bool same(const String& a, const String& b) { return a == b; }
};
template <>
struct Elem<Bytes>
{
    static Bytes any(size_t)
    {
        Bytes b;
        const unsigned k = static_cast<unsigned>(zs_choose(0, 2, "bytes"));
        for (unsigned j = 0; j < k; ++j)
            b.push_back(zs_u8("byte"));
        return b;
    }
    static void stored(const uint8_t* d, size_t& pos, const Bytes& t)
    {
        zs_assert(spec::get(d, pos, 8) == t.size(), "stored length");
        pos += 8;
        for (size_t i = 0; i < t.size(); ++i, pos += 8)
            zs_assert(spec::get(d, pos, 8) == t[i], "stored byte");
    }
    static bool same(const Bytes& a, const Bytes& b) { return a == b; }
};
template <>
struct Elem<BitBuffer>
{
    static BitBuffer any(size_t)
    {
        const uint8_t c[2] = {zs_u8("byte"), zs_u8("byte")};
        return BitBuffer(Span<const uint8_t>(c, 2), zs_choose(0, 4, "bits") * 3);
    }
    static void stored(const uint8_t* d, size_t& pos, const BitBuffer& t)
    {
        zs_assert(spec::get(d, pos, 8) == t.getBitSize(), "stored length in bits");
        pos += 8;
        for (size_t i = 0; i < t.getBitSize(); ++i, ++pos)
            zs_assert(spec::bit(d, pos) == spec::bit(t.getData().data(), i), "stored bit");
    }
    static bool same(const BitBuffer& a, const BitBuffer& b) { return a == b; }
};
template <>
struct Elem<sample::Block>
{
    static sample::Block any(size_t)
    {
        return {Kind<UInt3>::of(zs_u64("head")), UInt16(zs_u16("offset")), UInt8(zs_u8("tail"))};
    }
    static void stored(const uint8_t* d, size_t& pos, const sample::Block& t)
    {
        zs_assert(spec::get(d, pos, 3) == t.head, "head of a block");
        const size_t offset = spec::get(d, pos + 3, 16);
        pos = up8(pos + 19);
        zs_assert(offset * 8 == pos, "offset stored in a block");
        zs_assert(spec::get(d, pos, 8) == t.tail, "tail of a block");
        pos += 8;
    }
    static bool same(const sample::Block& a, const sample::Block& b)
    {
        return (a.head == b.head) & (a.offset == b.offset) & (a.tail == b.tail);
    }
};

template <typename T>
struct TraitsOf
{
    using type = ArrayTraits<T>;
};
template <typename V>
struct TraitsOf<detail::DynIntWrapper<V>>
{
    using type = DynTraits<detail::DynIntWrapper<V>>;
};

template <typename T>
auto viewOf(Vector<T>& raw, const DynOwner& owner)
{
    using Traits = typename TraitsOf<T>::type;
    if constexpr (std::is_same_v<T, sample::Block>)
        return ArrayView<T>(raw);
    else if constexpr (detail::is_dummy_array_owner_v<detail::array_owner_type_t<Traits>>)
        return ArrayView<const T, Traits>(raw);
    else
        return ArrayView<const T, Traits>(raw, owner);
}

template <ArrayType AT, typename T>
void readBack(BitStreamReader& r, Vector<T>& back, size_t length)
{
    using Traits = typename TraitsOf<T>::type;
    if constexpr (detail::is_dummy_array_owner_v<detail::array_owner_type_t<Traits>>)
    {
        detail::read<AT>(r, back, length);
    }
    else
    {
        DynOwner owner;
        detail::readWithTraits<AT, Traits>(r, back, owner, length);
    }
}

template <ArrayType AT, typename T>
void plain(size_t n)
{
    DynOwner owner;
    Vector<T> raw;
    raw.reserve(n);
    for (size_t i = 0; i < n; ++i)
        raw.push_back(Elem<T>::any(i));
    const auto view = viewOf(raw, owner);
    const size_t start = AT == ArrayType::IMPLICIT ? 3 : zs_choose(0, 2, "start") * 3;
    BitSize offsetAt[8] = {};
    size_t numOffsets = 0;
    const BitSize size = detail::bitSizeOf<AT>(view, static_cast<BitSize>(start));
    const BitSize initSize =
            detail::initializeOffsets<AT>(view, static_cast<BitSize>(start), Offsets{offsetAt, &numOffsets});
    zs_assert(numOffsets == (isAligned(AT) ? n : 0), "one offset for each aligned element");
    uint8_t out[CAP] = {};
    BitStreamWriter w(Span<uint8_t>(out, CAP));
    w.setBitPosition(start);
    detail::write<AT>(w, view);
    zs_assert(w.getBitPosition() == start + size && size == initSize, "size as predicted");

    size_t pos = start;
    if (isAuto(AT))
    {
        zs_assert(spec::get(out, pos, 8) == n, "length before the elements");
        pos += 8;
    }
    for (size_t i = 0; i < n; ++i)
    {
        if (isAligned(AT))
        {
            pos = up8(pos);
            zs_assert(offsetAt[i] * 8 == pos, "offset of an element");
        }
        Elem<T>::stored(out, pos, raw[i]);
    }
    zs_assert(pos == w.getBitPosition(), "nothing after the last element");

    BitStreamReader r(Span<const uint8_t>(out, CAP), w.getBitPosition());
    r.setBitPosition(start);
    Vector<T> back;
    back.resize(zs_choose(0, 1, "stale") * 2);
    readBack<AT>(r, back, isAuto(AT) ? 0 : n);
    zs_assert(back.size() == n, "length reads back");
    bool same = true;
    for (size_t i = 0; i < n; ++i)
        same = same & Elem<T>::same(back[i], raw[i]);
    zs_assert(same, "elements read back");
    zs_assert(r.getBitPosition() == w.getBitPosition(), "reading consumes what was written");
    zs_reach("array");
}

template <typename F>
void forElement(unsigned type, F&& f)
{
    switch (type)
    {
    case 19: f(Float16()); break;
    case 20: f(Float32()); break;
    case 21: f(Float64()); break;
    case 22: f(String()); break;
    case 23: f(Bytes()); break;
    case 24: f(BitBuffer()); break;
    case 25: f(sample::Block()); break;
    default: forType(type, f); break;
    }
}
} // namespace

ENTRY h_plain()
{
    const size_t n = zs_choose(zs_param("min"), zs_param("max"), "length");
    forElement(static_cast<unsigned>(zs_param("type")), [&](auto t) {
        forLayout(static_cast<unsigned>(zs_choose(0, 3, "layout")), [&](auto at) {
            if constexpr (at.value != ArrayType::IMPLICIT)
                plain<at.value, decltype(t)>(n);
        });
    });
}

// ---- implicit arrays: as many elements as fit into the rest of the stream ----
namespace
{
template <typename T, unsigned N>
void implicit()
{
    uint8_t data[24];
    zs_bytes(data, sizeof data, "data");
    const size_t start = zs_choose(0, 2, "start") * 5;
    const size_t bits = start + zs_choose(0, 3 * N + 1 < 180 ? 3 * N + 1 : 140, "bits");
    zs_assume(N <= 8 || bits % 8 < 2 || (bits - start) % N < 2);
    BitStreamReader r(Span<const uint8_t>(data, sizeof data), bits);
    r.setBitPosition(start);
    Vector<T> back;
    back.resize(zs_choose(0, 1, "stale") * 2);
    detail::read<ArrayType::IMPLICIT>(r, back);
    const size_t n = (bits - start) / N;
    zs_assert(back.size() == n, "an implicit array takes as many elements as fit");
    size_t pos = start;
    uint8_t again[24] = {};
    BitStreamWriter w(Span<uint8_t>(again, sizeof again));
    for (size_t i = 0; i < n; ++i)
    {
        if constexpr (!detail::is_float_wrapper_v<T>)
            zs_assert(Kind<T>::decode(data, pos) == Kind<T>::number(back[i]), "element of an implicit array");
        else
            Elem<T>::stored(data, pos, back[i]);
    }
    zs_assert(r.getBitPosition() == pos, "position behind the last whole element");
    const ArrayView<const T> view(back);
    zs_assert(detail::bitSizeOf<ArrayType::IMPLICIT>(view, 3) == n * N &&
                    detail::initializeOffsets<ArrayType::IMPLICIT>(view, 3) == n * N,
            "size of an implicit array");
    detail::write<ArrayType::IMPLICIT>(w, view);
    zs_assert(w.getBitPosition() == n * N, "written implicit array");
    for (size_t i = 0; i < n * N; i += N)
        zs_assert(spec::get(again, i, N) == spec::get(data, start + i, N), "written as it was read");
    zs_reach("implicit");
}
} // namespace

ENTRY h_implicit()
{
    switch (zs_param("type"))
    {
    case 0: implicit<Bool, 1>(); break;
    case 1: implicit<Int8, 8>(); break;
    case 2: implicit<UInt<33>, 33>(); break;
    case 3: implicit<Int64, 64>(); break;
    case 4: implicit<UInt16, 16>(); break;
    case 5: implicit<Int<9>, 9>(); break;
    case 6: implicit<Float32, 32>(); break;
    default: implicit<Float64, 64>(); break;
    }
}

// ---- longer arrays, whose length takes more than one byte ----
ENTRY h_long()
{
    const size_t n = zs_choose(126, 130, "length");
    Vector<UInt8> raw;
    raw.reserve(n);
    for (size_t i = 0; i < n; ++i)
        raw.push_back(UInt8(i < 2 || i > n - 3 ? zs_u8("value") : static_cast<uint8_t>(i * 7)));
    forLayout(static_cast<unsigned>(zs_choose(0, 3, "layout")), [&](auto at) {
        if constexpr (at.value != ArrayType::IMPLICIT)
        {
            const size_t start = zs_choose(0, 1, "start") * 6;
            uint8_t out[160] = {};
            BitStreamWriter w(Span<uint8_t>(out, sizeof out));
            w.setBitPosition(start);
            const ArrayView<const UInt8> view(raw);
            const BitSize size = detail::bitSizeOf<at.value>(view, static_cast<BitSize>(start));
            detail::write<at.value>(w, view);
            zs_assert(w.getBitPosition() == start + size, "size as predicted");
            size_t pos = start;
            if (isAuto(at.value))
            {
                if (n < 128)
                    zs_assert(spec::get(out, pos, 8) == n, "length");
                else
                    zs_assert(spec::get(out, pos, 16) == (0x8000U | (n / 128 << 8) | n % 128), "long length");
                pos += n < 128 ? 8 : 16;
            }
            if (isAligned(at.value))
                pos = up8(pos);
            for (size_t i = 0; i < n; ++i, pos += 8)
                zs_assert(spec::get(out, pos, 8) == raw[i], "element");
            zs_assert(pos == w.getBitPosition(), "end");
            BitStreamReader r(Span<const uint8_t>(out, sizeof out), pos);
            r.setBitPosition(start);
            Vector<UInt8> back;
            detail::read<at.value>(r, back, isAuto(at.value) ? 0 : n);
            zs_assert(back == raw && r.getBitPosition() == pos, "reads back");
            zs_reach("long");
        }
    });
}

// ---- validation ----
namespace
{
template <typename F>
unsigned outcome(F&& f)
{
    try
    {
        f();
    }
    catch (const ArrayLengthException&)
    {
        return 1;
    }
    catch (const OutOfRangeException&)
    {
        return 2;
    }
    return 0;
}

template <ArrayType AT, typename T, typename N>
void validated(size_t n, int64_t low, int64_t high)
{
    Vector<T> raw;
    bool bad = false;
    for (size_t i = 0; i < n; ++i)
    {
        const N v = static_cast<N>(zs_u64("value"));
        bad = bad | (v < static_cast<N>(low)) | (v > static_cast<N>(high));
        raw.push_back(T(v));
    }
    DynOwner owner;
    const auto view = viewOf(raw, owner);
    const bool checked = AT == ArrayType::NORMAL || AT == ArrayType::ALIGNED;
    const size_t length = zs_choose(0, 1, "given") ? n : zs_u64("length");
    const unsigned got = outcome([&] { detail::validate<AT>(view, "field", length); });
    const unsigned expected = checked && length != n ? 1 : bad ? 2 : 0;
    zs_assert(got == expected, "validation finds wrong lengths and elements out of range, and nothing else");
    zs_reach(got == 0 ? "valid" : got == 1 ? "wrong length" : "out of range");
}
} // namespace

ENTRY h_validate()
{
    const size_t n = zs_choose(0, 3, "length");
    forLayout(static_cast<unsigned>(zs_choose(0, 4, "layout")), [&](auto at) {
        switch (zs_choose(0, 3, "type"))
        {
        case 0: validated<at.value, Int<9>, int16_t>(n, -256, 255); break;
        case 1: validated<at.value, UInt<33>, uint64_t>(n, 0, (INT64_C(1) << 33) - 1); break;
        case 2: validated<at.value, VarInt16, int16_t>(n, -16383, 16383); break;
        default: validated<at.value, DynInt16, int16_t>(n, -1024, 1023); break;
        }
    });
}

ENTRY h_validate_blocks()
{
    const size_t n = zs_choose(0, 3, "length");
    Vector<sample::Block> raw;
    bool bad = false;
    for (size_t i = 0; i < n; ++i)
    {
        const uint8_t head = zs_u8("head");
        bad = bad | (head > 7);
        raw.push_back(sample::Block{UInt3(head), UInt16(0), UInt8(0)});
    }
    const ArrayView<sample::Block> view(raw);
    zs_assert(outcome([&] { detail::validate<ArrayType::AUTO>(view, "blocks"); }) == (bad ? 2U : 0U), "blocks are validated");
    zs_assert(outcome([&] { detail::validate<ArrayType::ALIGNED>(view, "blocks", n); }) == (bad ? 2U : 0U), "blocks are validated");
    zs_reach(bad ? "out of range" : "valid");
}
