// An enumeration and a bitmask written the way the generator writes them, over a signed variable and a 13-bit type.
#pragma once
#include <string_view>

#include "zserio/Bitmasks.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/Enums.h"
#include "zserio/HashCodeUtil.h"

namespace sample
{
enum class Color : int16_t
{
    RED = -5,
    NONE = 0,
    REDDISH = 3,
    BLUE = 16383
};

class Flags
{
public:
    using ZserioType = ::zserio::UInt13;
    enum class Values : ZserioType::ValueType
    {
        A = 1,
        B = 64,
        C = 4096
    };
    constexpr Flags() noexcept : m_value(0) {}
    constexpr Flags(Values value) noexcept : m_value(static_cast<ZserioType::ValueType>(value)) {}
    constexpr explicit Flags(ZserioType value) noexcept : m_value(value) {}
    constexpr explicit operator ZserioType() const { return m_value; }
    constexpr ZserioType getValue() const { return m_value; }

private:
    ZserioType m_value;
};
inline constexpr bool operator==(const Flags& l, const Flags& r) { return l.getValue() == r.getValue(); }
inline constexpr bool operator!=(const Flags& l, const Flags& r) { return l.getValue() != r.getValue(); }
inline constexpr bool operator<(const Flags& l, const Flags& r) { return l.getValue() < r.getValue(); }
inline constexpr Flags operator&(const Flags& l, const Flags& r)
{
    return Flags(static_cast<Flags::ZserioType::ValueType>(l.getValue() & r.getValue()));
}
} // namespace sample

namespace zserio
{
template <>
struct EnumTraits<::sample::Color>
{
    static constexpr ::std::array<::std::string_view, 4> names = {{"RED", "NONE", "REDDISH", "BLUE"}};
    static constexpr ::std::array<::sample::Color, 4> values = {
            {::sample::Color::RED, ::sample::Color::NONE, ::sample::Color::REDDISH, ::sample::Color::BLUE}};
    static constexpr ::std::string_view enumName = "Color";
    using ZserioType = ::zserio::VarInt16;
};

template <>
inline size_t enumToOrdinal(::sample::Color value)
{
    switch (value)
    {
    case ::sample::Color::RED: return 0;
    case ::sample::Color::NONE: return 1;
    case ::sample::Color::REDDISH: return 2;
    case ::sample::Color::BLUE: return 3;
    default: throw ::zserio::CppRuntimeException("Unknown value for enumeration Color!");
    }
}

template <>
inline ::sample::Color valueToEnum(::zserio::VarInt16 rawValue)
{
    switch (rawValue)
    {
    case -5:
    case 0:
    case 3:
    case 16383: return static_cast<::sample::Color>(static_cast<int16_t>(rawValue));
    default: throw ::zserio::CppRuntimeException("Unknown value for enumeration Color: ") << rawValue << "!";
    }
}
} // namespace zserio

namespace std
{
template <>
struct hash<::sample::Color>
{
    size_t operator()(const ::sample::Color& value) const
    {
        uint32_t result = ::zserio::HASH_SEED;
        result = ::zserio::calcHashCode(result, ::zserio::enumToValue(value));
        return static_cast<size_t>(result);
    }
};
template <>
struct hash<::sample::Flags>
{
    size_t operator()(const ::sample::Flags& value) const
    {
        uint32_t result = ::zserio::HASH_SEED;
        result = ::zserio::calcHashCode(result, static_cast<::sample::Flags::ZserioType::ValueType>(value.getValue()));
        return static_cast<size_t>(result);
    }
};
} // namespace std
