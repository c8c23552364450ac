// Shared by the array harnesses: element kinds with symbolic values, an independent decoder of single elements, owners,
// compounds written the way the generator writes them.
#pragma once
#include "common.h"
#include "sample.h"
#include "varint.h"
#include "zserio/ArrayView.h"
#include "zserio/SerializeUtil.h"
#include "zserio/Types.h"

namespace arrays
{

using namespace zserio;
using detail::ArrayType;

struct DynOwner
{
    uint8_t numBits = 11;
};

template <typename T>
struct DynTraits
{
    using OwnerType = DynOwner;
    static View<T> at(const DynOwner& owner, const T& e, size_t) { return View<T>(e, owner.numBits); }
    static void read(BitStreamReader& r, const DynOwner& owner, T& e, size_t) { detail::read(r, e, owner.numBits); }
    static void read(detail::DeltaContext& c, BitStreamReader& r, const DynOwner& owner, T& e, size_t)
    {
        detail::read(c, r, e, owner.numBits);
    }
};

// ---- element kinds: how to make a value, its number as 64 bits, and how its plain encoding is decoded ----

template <typename T, typename = void>
struct Kind;

template <BitSize N, bool S>
struct Kind<detail::FixedIntWrapper<N, S>>
{
    using T = detail::FixedIntWrapper<N, S>;
    using Number = typename T::ValueType;
    using Traits = ArrayTraits<T>;
    static T of(uint64_t v)
    {
        zs_assume(S ? spec::fitsS(static_cast<int64_t>(v), N) : spec::fitsU(v, N));
        return T(static_cast<typename T::ValueType>(v));
    }
    static uint64_t number(T t) { return static_cast<uint64_t>(static_cast<typename T::ValueType>(t)); }
    static uint64_t decode(const uint8_t* d, size_t& pos)
    {
        const uint64_t v = spec::get(d, pos, N);
        pos += N;
        return S ? static_cast<uint64_t>(spec::sext(v, N)) : v;
    }
    static constexpr bool isSigned = S;
    static constexpr size_t minBits = N;
};

template <>
struct Kind<Bool>
{
    using T = Bool;
    using Number = uint8_t;
    using Traits = ArrayTraits<T>;
    static T of(uint64_t v)
    {
        zs_assume(v < 2);
        return T(v != 0);
    }
    static uint64_t number(T t) { return static_cast<bool>(t) ? 1 : 0; }
    static uint64_t decode(const uint8_t* d, size_t& pos) { return spec::bit(d, pos++); }
    static constexpr bool isSigned = false;
    static constexpr size_t minBits = 1;
};

template <typename W, unsigned FORMAT>
struct VarKind
{
    using T = W;
    using Number = typename T::ValueType;
    using Traits = ArrayTraits<T>;
    static T of(uint64_t v)
    {
        const varint::Spec f = varint::formatOf(FORMAT);
        if (isSigned && FORMAT != 3)
            zs_assume(static_cast<int64_t>(v) <= static_cast<int64_t>(f.maxAbs) &&
                    static_cast<int64_t>(v) >= -static_cast<int64_t>(f.maxAbs));
        else if (!isSigned)
            zs_assume(v <= f.maxAbs);
        return T(static_cast<typename T::ValueType>(v));
    }
    static uint64_t number(T t) { return static_cast<uint64_t>(static_cast<typename T::ValueType>(t)); }
    static uint64_t decode(const uint8_t* d, size_t& pos)
    {
        uint64_t mag;
        bool neg;
        const unsigned n = varint::decode(varint::formatOf(FORMAT), d, pos, 1000, mag, neg);
        pos += n * 8;
        if (FORMAT == 3 && neg && n == 1 && mag == 0)
            return UINT64_C(1) << 63;
        return neg ? ~mag + 1 : mag;
    }
    static constexpr bool isSigned = FORMAT < 4;
    static constexpr size_t minBits = 8;
};
template <> struct Kind<VarInt16> : VarKind<VarInt16, 0> {};
template <> struct Kind<VarInt32> : VarKind<VarInt32, 1> {};
template <> struct Kind<VarInt64> : VarKind<VarInt64, 2> {};
template <> struct Kind<VarInt> : VarKind<VarInt, 3> {};
template <> struct Kind<VarUInt16> : VarKind<VarUInt16, 4> {};
template <> struct Kind<VarUInt32> : VarKind<VarUInt32, 5> {};
template <> struct Kind<VarUInt64> : VarKind<VarUInt64, 6> {};
template <> struct Kind<VarUInt> : VarKind<VarUInt, 7> {};
template <> struct Kind<VarSize> : VarKind<VarSize, 8> {};

// dynamic width elements of 11 bits, the width comes from the owner
template <typename V>
struct Kind<detail::DynIntWrapper<V>>
{
    using T = detail::DynIntWrapper<V>;
    using Number = V;
    using Traits = DynTraits<T>;
    static constexpr bool isSigned = std::is_signed_v<V>;
    static T of(uint64_t v)
    {
        zs_assume(isSigned ? spec::fitsS(static_cast<int64_t>(v), 11) : spec::fitsU(v, 11));
        return T(static_cast<V>(v));
    }
    static uint64_t number(T t) { return static_cast<uint64_t>(static_cast<V>(t)); }
    static uint64_t decode(const uint8_t* d, size_t& pos)
    {
        const uint64_t v = spec::get(d, pos, 11);
        pos += 11;
        return isSigned ? static_cast<uint64_t>(spec::sext(v, 11)) : v;
    }
    static constexpr size_t minBits = 11;
};

template <>
struct Kind<sample::Color>
{
    using T = sample::Color;
    using Number = int16_t;
    using Traits = ArrayTraits<T>;
    static uint64_t number(T t) { return static_cast<uint64_t>(static_cast<int64_t>(t)); }
    static uint64_t decode(const uint8_t* d, size_t& pos) { return Kind<VarInt16>::decode(d, pos); }
    static constexpr bool isSigned = true;
    static constexpr size_t minBits = 8;
};

template <>
struct Kind<sample::Flags>
{
    using T = sample::Flags;
    using Number = uint16_t;
    using Traits = ArrayTraits<T>;
    static T of(uint64_t v) { return T(Kind<UInt13>::of(v)); }
    static uint64_t number(T t) { return Kind<UInt13>::number(t.getValue()); }
    static uint64_t decode(const uint8_t* d, size_t& pos) { return Kind<UInt13>::decode(d, pos); }
    static constexpr bool isSigned = false;
    static constexpr size_t minBits = 13;
};

template <typename T>
T anyElement()
{
    if constexpr (std::is_enum_v<T>)
        return EnumTraits<T>::values[zs_choose(0, 3, "item")];
    else
        return Kind<T>::of(zs_u64("value"));
}

// the element which differs from the previous one by a magnitude of exactly the given number of bits; every value is
// reached by exactly one direction and number of bits
template <typename T>
T nextElement(const T& previous, unsigned bits, bool down)
{
    if constexpr (std::is_enum_v<T>)
    {
        return anyElement<T>();
    }
    else
    {
        uint64_t m = bits == 0 ? 0 : UINT64_C(1) << (bits - 1);
        if (bits > 1)
            m |= zs_u64("difference") & ((UINT64_C(1) << (bits - 1)) - 1);
        using N = typename Kind<T>::Number;
        using U = std::make_unsigned_t<N>;
        const N p = static_cast<N>(Kind<T>::number(previous));
        const N v = static_cast<N>(static_cast<U>(down ? static_cast<U>(p) - static_cast<U>(m)
                                                       : static_cast<U>(p) + static_cast<U>(m)));
        if (bits > 0)
            zs_assume(down ? v < p : p < v);
        return Kind<T>::of(static_cast<uint64_t>(v));
    }
}

// number of bits of the largest difference
template <typename T>
constexpr unsigned maxDifference()
{
    if (std::is_same_v<T, Bool>) return 1;
    if (std::is_enum_v<T>) return 0;
    if (std::is_same_v<T, sample::Flags>) return 13;
    if (std::is_same_v<T, Int8> || std::is_same_v<T, UInt8>) return 8;
    if (std::is_same_v<T, Int<9>>) return 9;
    if (std::is_same_v<T, UInt<33>>) return 33;
    if (std::is_same_v<T, Int<63>>) return 63;
    if (std::is_same_v<T, VarInt16>) return 15;
    if (std::is_same_v<T, VarUInt32>) return 29;
    if (std::is_same_v<T, VarSize>) return 31;
    if (std::is_same_v<T, DynInt16> || std::is_same_v<T, DynUInt64>) return 11;
    if (std::is_same_v<T, VarInt64>) return 57;
    if (std::is_same_v<T, UInt16>) return 16;
    return 64;
}

template <typename T>
auto makeView(const Vector<T>& raw, const DynOwner& owner)
{
    using Traits = typename Kind<T>::Traits;
    if constexpr (detail::is_dummy_array_owner_v<detail::array_owner_type_t<Traits>>)
        return ArrayView<const T, Traits>(raw);
    else
        return ArrayView<const T, Traits>(raw, owner);
}

// plain size of one element
template <typename T>
size_t plainBits(const T& t)
{
    if constexpr (!detail::is_dummy_array_owner_v<detail::array_owner_type_t<typename Kind<T>::Traits>>)
        return 11;
    else
        return detail::bitSizeOf(t);
}

struct Offsets
{
    BitSize* at;
    size_t* count;
    void setOffset(size_t i, BitSize byteOffset) const
    {
        zs_assert(i == *count, "offsets are set in the order of the elements");
        at[i] = byteOffset;
        ++*count;
    }
};

constexpr bool isAligned(ArrayType t) { return t == ArrayType::ALIGNED || t == ArrayType::ALIGNED_AUTO; }
constexpr bool isAuto(ArrayType t) { return t == ArrayType::AUTO || t == ArrayType::ALIGNED_AUTO; }
inline size_t up8(size_t pos) { return (pos + 7) / 8 * 8; }

template <typename F>
void forLayout(unsigned layout, F&& f)
{
    switch (layout)
    {
    case 0: f(std::integral_constant<ArrayType, ArrayType::NORMAL>()); break;
    case 1: f(std::integral_constant<ArrayType, ArrayType::AUTO>()); break;
    case 2: f(std::integral_constant<ArrayType, ArrayType::ALIGNED>()); break;
    case 3: f(std::integral_constant<ArrayType, ArrayType::ALIGNED_AUTO>()); break;
    default: f(std::integral_constant<ArrayType, ArrayType::IMPLICIT>()); break;
    }
}

template <typename F>
void forType(unsigned type, F&& f)
{
    switch (type)
    {
    case 0: f(Bool()); break;
    case 1: f(Int8()); break;
    case 2: f(UInt8()); break;
    case 3: f(Int<9>()); break;
    case 4: f(UInt<33>()); break;
    case 5: f(Int64()); break;
    case 6: f(UInt64()); break;
    case 7: f(Int<63>()); break;
    case 8: f(VarInt16()); break;
    case 9: f(VarUInt32()); break;
    case 10: f(VarInt()); break;
    case 11: f(VarUInt()); break;
    case 12: f(VarSize()); break;
    case 13: f(DynInt16()); break;
    case 14: f(DynUInt64()); break;
    case 15: f(sample::Color()); break;
    case 16: f(sample::Flags()); break;
    case 17: f(VarInt64()); break;
    default: f(UInt16()); break;
    }
}

template <ArrayType AT, typename T, typename V>
void readAll(BitStreamReader& r, V& raw, DynOwner& owner, size_t length, bool packed)
{
    using Traits = typename Kind<T>::Traits;
    if constexpr (detail::is_dummy_array_owner_v<detail::array_owner_type_t<Traits>>)
    {
        if constexpr (AT != ArrayType::IMPLICIT)
        {
            if (packed)
                return detail::readPacked<AT>(r, raw, length);
        }
        detail::read<AT>(r, raw, length);
    }
    else
    {
        if constexpr (AT != ArrayType::IMPLICIT)
        {
            if (packed)
                return detail::readPackedWithTraits<AT, Traits>(r, raw, owner, length);
            detail::readWithTraits<AT, Traits>(r, raw, owner, length);
        }
    }
}

} // namespace arrays
