// C20 numbers as text and messages of exceptions.
#include <cmath>

#include "common.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/Types.h"

using namespace zserio;

namespace
{
// every magnitude up to the largest one of the type exactly once, with its decimal digits: the digits of the maximum up to
// some pair of digits, then a smaller pair, then any pairs
struct Number
{
    char text[24];
    unsigned length;
};

template <typename U>
[[gnu::always_inline]] inline U anyMagnitude(uint64_t max, Number& n)
{
    unsigned char pairs[10];
    unsigned numPairs = 0;
    for (uint64_t m = max; m > 0; m /= 100)
        pairs[numPairs++] = static_cast<unsigned char>(m % 100);
    U v = 0;
    unsigned at = 0;
    const auto put = [&](unsigned char tens, unsigned char ones, bool one) {
        if (!one)
            n.text[at++] = static_cast<char>('0' + tens);
        n.text[at++] = static_cast<char>('0' + ones);
    };
    // how many pairs there are and how many of them are those of the maximum
    const unsigned count = static_cast<unsigned>(zs_choose(1, numPairs, "pairs"));
    const unsigned common = count == numPairs ? static_cast<unsigned>(zs_choose(0, numPairs, "common")) : 0;
    for (unsigned i = 0; i < count; ++i)
    {
        const unsigned char limit = pairs[count - 1 - i]; // used only below the common prefix of a number of full length
        unsigned tens, ones;
        bool one = false;
        if (i < common)
        {
            tens = limit / 10;
            ones = limit % 10;
            one = i == 0 && tens == 0;
        }
        else
        {
            const bool bounded = count == numPairs && i == common;
            const unsigned first = i == 0 ? (count == 1 ? 0 : 1) : 0;
            const unsigned last = bounded ? limit - 1U : 99U;
            if (limit == 0 && bounded)
                zs_stop();
            if (first > last)
                zs_stop();
            // the first pair has one or two digits
            one = i == 0 && first < 10 && (last < 10 || zs_choose(0, 1, "one") != 0);
            const unsigned lo = i == 0 && !one && first < 10 ? 10 : first;
            const unsigned hi = one && last > 9 ? 9 : last;
            const unsigned pair = lo + zs_u8("pair") % (hi - lo + 1);
            tens = pair / 10;
            ones = pair % 10;
            v = static_cast<U>(v * 100 + pair);
            put(static_cast<unsigned char>(tens), static_cast<unsigned char>(ones), one);
            continue;
        }
        v = static_cast<U>(v * 100 + static_cast<U>(tens * 10 + ones));
        put(static_cast<unsigned char>(tens), static_cast<unsigned char>(ones), one);
    }
    n.length = at;
    return v;
}

template <typename T>
void integers()
{
    using U = std::make_unsigned_t<T>;
    const bool negative = std::is_signed_v<T> && zs_choose(0, 1, "negative") != 0;
    const uint64_t max = static_cast<uint64_t>(std::numeric_limits<T>::max()) + (negative ? 1 : 0);
    Number n{};
    const U magnitude = anyMagnitude<U>(max, n);
    const T value = static_cast<T>(negative ? static_cast<U>(0 - magnitude) : magnitude);
    std::array<char, 24> buffer;
    for (char& c : buffer)
        c = static_cast<char>(0xEE);
    const char* text = convertIntToString(buffer, value);
    zs_assert(text >= buffer.data() && text < buffer.data() + buffer.size(), "the text is in the buffer");
    bool minus = false;
    if (negative)
    {
        zs_assume(magnitude != 0);
        minus = true;
        zs_assert(*text == '-', "sign");
        ++text;
    }
    for (unsigned i = 0; i < n.length; ++i)
        zs_assert(text[i] == n.text[i], "decimal digits");
    zs_assert(text[n.length] == '\0' && text + n.length == buffer.data() + buffer.size() - 1, "nothing more");
    zs_reach(minus ? "negative" : "positive");
}

template <typename T, typename W>
void wrapped()
{
    const T v = static_cast<T>(zs_u64("value"));
    zs_assume(v < 1000 && static_cast<int64_t>(v) > -100);
    const auto a = toString<std::allocator<char>>(v);
    const auto b = toString<std::allocator<char>>(W(v));
    zs_assert(a == b, "a wrapped number has the text of its value");
    std::array<char, 24> buffer = {};
    zs_assert(std::string_view(convertIntToString(buffer, v)) == a, "the same text as a string");
    zs_reach("wrapped");
}
} // namespace

ENTRY h_int()
{
    switch (zs_param("type"))
    {
    case 0: integers<uint8_t>(); break;
    case 1: integers<uint16_t>(); break;
    case 2: integers<uint32_t>(); break;
    case 3: integers<uint64_t>(); break;
    case 4: integers<int8_t>(); break;
    case 5: integers<int16_t>(); break;
    case 6: integers<int32_t>(); break;
    default: integers<int64_t>(); break;
    }
}

ENTRY h_wrapped()
{
    switch (zs_choose(0, 4, "type"))
    {
    case 0: wrapped<int16_t, Int16>(); break;
    case 1: wrapped<uint64_t, VarUInt>(); break;
    case 2: wrapped<int8_t, Int8>(); break;
    case 3: wrapped<uint32_t, UInt<20>>(); break;
    default:
        zs_assert(toString<std::allocator<char>>(Bool(true)) == "true" && toString<std::allocator<char>>(false) == "false",
                "booleans");
        break;
    }
}

// floating point numbers: sign, integer part and three digits behind the point
ENTRY h_float()
{
    uint32_t bits = zs_u32("mantissa") & static_cast<uint32_t>(zs_param("mask"));
    if (zs_choose(0, 1, "rest") != 0)
        bits |= 0x007FFFFFU & ~static_cast<uint32_t>(zs_param("mask"));
    const unsigned exponent = static_cast<unsigned>(zs_param("exponent"));
    const bool negative = zs_choose(0, 1, "negative") != 0;
    bits |= exponent << 23 | (negative ? 0x80000000U : 0);
    float value;
    memcpy(&value, &bits, 4);
    std::array<char, 24> integerBuffer = {};
    std::array<char, 24> fractionBuffer = {};
    const char* integer = nullptr;
    const char* fraction = nullptr;
    convertFloatToString(integerBuffer, fractionBuffer, value, integer, fraction);
    if (exponent == 255 || exponent >= 127 + 63)
    {
        zs_assert(fraction == nullptr, "no fraction");
        const bool nan = exponent == 255 && (bits & 0x007FFFFFU) != 0;
        zs_assert(std::string_view(integer) == (nan ? "NaN" : negative ? "-Inf" : "+Inf"), "special values");
        zs_reach("special");
        return;
    }
    zs_assert(integer != nullptr && fraction != nullptr, "both parts");
    const bool minus = *integer == '-';
    zs_assert(!minus || negative, "only negative numbers have a sign");
    uint64_t whole = 0;
    const char* p = minus ? integer + 1 : integer;
    for (; *p != '\0'; ++p)
        whole = whole * 10 + static_cast<uint64_t>(*p - '0');
    unsigned thousandths = 0;
    unsigned n = 0;
    for (; fraction[n] != '\0'; ++n)
        thousandths = thousandths * 10 + static_cast<unsigned>(fraction[n] - '0');
    zs_assert(n == 3 || (n == 1 && thousandths == 0), "three digits behind the point, or a zero");
    zs_assert(!negative || minus || (whole == 0 && thousandths == 0), "the sign is kept");
    // exact: magnitude = mantissa * 2^(exponent - 150), here below 2^16
    const uint64_t mantissa = (exponent ? 0x00800000U : 0) | (bits & 0x007FFFFFU);
    if (exponent >= 150)
    {
        zs_assert(whole == mantissa << (exponent - 150) && thousandths == 0, "integer part");
        zs_reach("finite");
        return;
    }
    const unsigned shift = exponent ? 150 - exponent : 149;
    const uint64_t exact = shift < 40 ? (mantissa * 1000) >> shift : 0; // truncated number of thousandths
    zs_assert(whole == exact / 1000, "integer part");
    const uint64_t got = whole * 1000 + thousandths;
    zs_assert(got == exact || got == exact + 1, "fraction, up to one rounding in single precision");
    zs_reach("finite");
}

// messages never exceed their buffer and are cut at its end
ENTRY h_message()
{
    static char text[1200];
    const size_t lengths[9] = {0, 1, 3, 255, 509, 510, 511, 512, 600};
    const size_t a = lengths[zs_choose(0, 8, "a")];
    const size_t b = lengths[zs_choose(0, 8, "b")];
    for (size_t i = 0; i < a + b; ++i)
        text[i] = static_cast<char>('A' + i % 50);
    // the bytes around the end are any characters but the terminator
    for (size_t i = 508; i < 514 && i < a + b; ++i)
    {
        text[i] = static_cast<char>(zs_u8("char"));
        zs_assume(text[i] != 0);
    }
    const uint32_t number = 4000000000U + zs_u8("number") % 100;
    CppRuntimeException e;
    const bool asString = zs_choose(0, 1, "string") != 0;
    if (asString)
    {
        char first[1200];
        memcpy(first, text, a);
        first[a] = 0;
        e << first;
    }
    else
        e << std::string_view(text, a);
    e << std::string_view(text + a, b) << number << (number > 5);
    std::array<char, 24> digits;
    const std::string_view tail(convertIntToString(digits, number));
    const char* what = e.what();
    size_t n = 0;
    while (what[n] != 0)
        ++n;
    const size_t all = a + b + tail.size() + 4;
    zs_assert(n == (all < 511 ? all : 511), "the message is cut at 511 characters");
    bool same = true;
    for (size_t i = 0; i < n; ++i)
    {
        const char expected = i < a + b ? text[i] : i < a + b + tail.size() ? tail[i - a - b] : "true"[i - a - b - tail.size()];
        same = same & (what[i] == expected);
    }
    zs_assert(same, "the text as appended");
    zs_reach(all < 511 ? "whole" : "cut");
    CppRuntimeException copy(e);
    zs_assert(std::string_view(copy.what()) == std::string_view(what, n), "a copy has the same message");
}
