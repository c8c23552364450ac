// C22 numbers and literals as JSON text.
#include <cmath>
#include <limits>

#include "common.h"
#include "stream.h"
#include "zserio/JsonDecoder.h"
#include "zserio/JsonEncoder.h"

using namespace zserio;
using JsonDecoder = BasicJsonDecoder<>;

namespace
{
// a number with its digits: those of the limit up to some position, then a smaller (larger) digit, then any digits; with fewer
// digits than the limit any digits
struct Number
{
    uint64_t value;
    bool above;
    unsigned length;
    char text[32];
};

[[gnu::always_inline]] inline unsigned anyDigit(unsigned lo, unsigned hi)
{
    if (lo > 0 || hi < 9)
        return static_cast<unsigned>(zs_choose(lo, hi, "digit"));
    return zs_u8("digit") % 10U;
}

[[gnu::always_inline]] inline Number number(uint64_t limit, unsigned count, bool zero = true)
{
    Number n{};
    unsigned char digits[20];
    unsigned numDigits = 0;
    for (uint64_t m = limit; m > 0; m /= 10)
        digits[numDigits++] = static_cast<unsigned char>(m % 10);
    uint64_t v = 0;
    unsigned at = 0;
    if (count > numDigits)
        zs_stop();
    const unsigned common = count == numDigits ? static_cast<unsigned>(zs_choose(0, numDigits, "common")) : 0;
    const bool larger = count == numDigits && common < numDigits && zs_choose(0, 1, "larger") != 0;
    for (unsigned i = 0; i < count; ++i)
    {
        unsigned lo = i == 0 && (count > 1 || !zero) ? 1 : 0;
        unsigned hi = 9;
        if (count == numDigits)
        {
            const unsigned l = digits[count - 1 - i];
            if (i < common)
                lo = hi = l;
            else if (i == common && larger)
                lo = l + 1;
            else if (i == common)
            {
                if (l == 0)
                    zs_stop();
                hi = l - 1;
            }
        }
        if (lo > hi)
            zs_stop();
        const unsigned d = lo == hi ? lo : anyDigit(lo, hi);
        v = v * 10 + d;
        n.text[at++] = static_cast<char>('0' + d);
    }
    n.value = v;
    n.above = larger;
    n.length = at;
    return n;
}

template <typename T>
void integral(unsigned count)
{
    const bool negative = std::is_signed_v<T> && zs_choose(0, 1, "negative") != 0;
    const uint64_t max = static_cast<uint64_t>(std::numeric_limits<T>::max()) + (negative ? 1 : 0);
    const Number n = number(max, count, !negative);
    if (n.above)
        zs_stop();
    const T value = static_cast<T>(negative ? uint64_t(0) - n.value : n.value);
    stream::Out out;
    std::ostream os(&out);
    JsonEncoder::encodeIntegral(os, value);
    const size_t sign = negative ? 1 : 0;
    zs_assert(out.size == n.length + sign && (!negative || out.data[0] == '-'), "length and sign of the number");
    zs_assert(spec::same(reinterpret_cast<const uint8_t*>(out.data) + sign,
            reinterpret_cast<const uint8_t*>(n.text), n.length), "digits of the number");
    JsonDecoder decoder;
    const auto result = decoder.decodeValue(std::string_view(out.data, out.size));
    zs_assert(result.numReadChars == out.size && !result.integerOverflow, "the number is read to its end");
    if (negative)
        zs_assert(result.value.isType<int64_t>() && result.value.get<int64_t>() == static_cast<int64_t>(value),
                "the same negative number");
    else
        zs_assert(result.value.isType<uint64_t>() && result.value.get<uint64_t>() == static_cast<uint64_t>(value),
                "the same number");
    zs_reach("same");
}

bool digit(uint8_t c)
{
    return c >= '0' && c <= '9';
}

// independent reading of what is no string
enum Kind { NOTHING, NULL_VALUE, TRUE_VALUE, FALSE_VALUE, NAN_VALUE, PLUS_INF, MINUS_INF, SIGNED, UNSIGNED, DOUBLE };
struct Token
{
    Kind kind;
    size_t length;
    uint64_t value; // of an integer, or the mantissa
    int scale;
    bool negative;
};

bool starts(const uint8_t* p, size_t n, const char* literal)
{
    size_t i = 0;
    for (; literal[i] != 0; ++i)
        if (i >= n || p[i] != static_cast<uint8_t>(literal[i]))
            return false;
    return true;
}

Token reference(const uint8_t* p, size_t n)
{
    static const struct
    {
        const char* text;
        Kind kind;
        size_t length;
    } literals[] = {{"null", NULL_VALUE, 4}, {"true", TRUE_VALUE, 4}, {"false", FALSE_VALUE, 5}, {"NaN", NAN_VALUE, 3},
            {"Infinity", PLUS_INF, 8}, {"-Infinity", MINUS_INF, 9}};
    for (const auto& l : literals)
        if (starts(p, n, l.text))
            return {l.kind, l.length, 0, 0, false};
    // [-] digits [ . digits ] [ e [+-] digits ], with at least one digit in front of the exponent
    Token t{NOTHING, 0, 0, 0, false};
    size_t at = 0;
    if (at < n && p[at] == '-')
    {
        t.negative = true;
        ++at;
    }
    size_t numDigits = 0;
    for (; at < n && digit(p[at]); ++at, ++numDigits)
        t.value = t.value * 10 + (p[at] & 15U);
    bool isDouble = false;
    if (at < n && p[at] == '.')
    {
        isDouble = true;
        ++at;
        for (; at < n && digit(p[at]); ++at, ++numDigits, --t.scale)
            t.value = t.value * 10 + (p[at] & 15U);
    }
    if (numDigits == 0)
        return t;
    if (at < n && (p[at] == 'e' || p[at] == 'E'))
    {
        isDouble = true;
        ++at;
        bool minus = false;
        if (at < n && (p[at] == '+' || p[at] == '-'))
        {
            minus = zs_concretize(p[at] == '-') != 0;
            ++at;
        }
        size_t expDigits = 0;
        int x = 0;
        for (; at < n && digit(p[at]); ++at, ++expDigits)
            x = x * 10 + static_cast<int>(zs_concretize(p[at] & 15));
        if (expDigits == 0)
            return t;
        t.scale += minus ? -x : x;
    }
    t.length = at;
    t.kind = isDouble ? DOUBLE : t.negative ? SIGNED : UNSIGNED;
    return t;
}

const double POWERS[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18,
        1e19, 1e20, 1e21, 1e22};

bool sameDouble(double a, double b)
{
    uint64_t x, y;
    std::memcpy(&x, &a, 8);
    std::memcpy(&y, &b, 8);
    return x == y;
}

// decodes text (without anything behind it) and compares with the reference
void check(const uint8_t* text, size_t n, bool values = true)
{
    const Token expected = reference(text, n);
    JsonDecoder decoder;
    const auto result = decoder.decodeValue(std::string_view(reinterpret_cast<const char*>(text), n));
    zs_assert(!result.integerOverflow, "a short number does not overflow");
    zs_assert(result.numReadChars <= n, "nothing is read beyond the text");
    if (expected.kind == NOTHING)
    {
        zs_assert(!result.value.hasValue(), "what is no value gives no value");
        zs_reach("rejected");
        return;
    }
    zs_assert(result.value.hasValue(), "a value is decoded");
    zs_assert(result.numReadChars == expected.length, "the value is read to its end");
    switch (expected.kind)
    {
    case NULL_VALUE:
        zs_assert(result.value.isType<std::nullptr_t>(), "null");
        break;
    case TRUE_VALUE:
    case FALSE_VALUE:
        zs_assert(result.value.isType<bool>() && result.value.get<bool>() == (expected.kind == TRUE_VALUE), "bool");
        break;
    case NAN_VALUE:
        zs_assert(result.value.isType<double>() && std::isnan(result.value.get<double>()), "not a number");
        break;
    case PLUS_INF:
    case MINUS_INF:
        zs_assert(result.value.isType<double>() &&
                        sameDouble(result.value.get<double>(), expected.kind == PLUS_INF ? INFINITY : -INFINITY),
                "infinity");
        break;
    case UNSIGNED:
        zs_assert(result.value.isType<uint64_t>() && result.value.get<uint64_t>() == expected.value, "unsigned number");
        break;
    case SIGNED:
        zs_assert(result.value.isType<int64_t>() &&
                        result.value.get<int64_t>() == static_cast<int64_t>(0 - expected.value),
                "signed number");
        break;
    default:
        {
            zs_assert(result.value.isType<double>(), "floating point number");
            const int scale = expected.scale;
            if (!values || scale < -22 || scale > 22)
                break;
            double v = static_cast<double>(expected.value);
            v = scale >= 0 ? v * POWERS[scale] : v / POWERS[-scale];
            zs_assert(sameDouble(result.value.get<double>(), expected.negative ? -v : v), "value of the floating point number");
            break;
        }
    }
    zs_reach("accepted");
}
} // namespace

// every integer of every type survives
ENTRY h_integral()
{
    const unsigned count = static_cast<unsigned>(zs_param("digits"));
    switch (zs_param("type"))
    {
    case 0: return integral<uint8_t>(count);
    case 1: return integral<uint16_t>(count);
    case 2: return integral<uint32_t>(count);
    case 3: return integral<uint64_t>(count);
    case 4: return integral<int8_t>(count);
    case 5: return integral<int16_t>(count);
    case 6: return integral<int32_t>(count);
    default: return integral<int64_t>(count);
    }
}

// the literals survive
ENTRY h_literals()
{
    stream::Out out;
    std::ostream os(&out);
    const uint64_t which = zs_choose(0, 5, "literal");
    const double infinity = std::numeric_limits<double>::infinity();
    switch (which)
    {
    case 0: JsonEncoder::encodeNull(os); break;
    case 1: JsonEncoder::encodeBool(os, true); break;
    case 2: JsonEncoder::encodeBool(os, false); break;
    case 3: JsonEncoder::encodeFloatingPoint(os, std::numeric_limits<double>::quiet_NaN()); break;
    case 4: JsonEncoder::encodeFloatingPoint(os, infinity); break;
    default: JsonEncoder::encodeFloatingPoint(os, -infinity); break;
    }
    JsonEncoder::encodeIntegral(os, uint8_t(1)); // the state of the stream is as before
    static const char* const texts[] = {"null1", "true1", "false1", "NaN1", "Infinity1", "-Infinity1"};
    const size_t n = std::strlen(texts[which]);
    zs_assert(out.size == n && std::memcmp(out.data, texts[which], n) == 0, "text of the literal");
    check(reinterpret_cast<const uint8_t*>(out.data), n - 1);
    zs_reach("same");
}

// integers around the limits of 64 bits, in the middle of other digits
ENTRY h_limits()
{
    const bool negative = zs_param("negative") != 0;
    const uint64_t limit = negative ? uint64_t(1) << 63 : ~uint64_t(0);
    const unsigned zeros = static_cast<unsigned>(zs_choose(0, 1, "zeros"));
    const unsigned extra = static_cast<unsigned>(zs_param("extra"));
    const Number n = number(limit, negative ? 19 : 20);
    char text[40];
    size_t at = 0;
    if (negative)
        text[at++] = '-';
    for (unsigned i = 0; i < zeros; ++i)
        text[at++] = '0';
    for (unsigned i = 0; i < n.length; ++i)
        text[at++] = n.text[i];
    for (unsigned i = 0; i < extra; ++i)
        text[at++] = static_cast<char>('0' + anyDigit(0, 9));
    const size_t length = at;
    // behind the number: nothing, or something which does not continue it; then another digit
    uint8_t next = zs_u8("next");
    zs_assume(!digit(next) && next != '.' && next != 'e' && next != 'E');
    const bool end = zs_choose(0, 1, "end") != 0;
    text[at++] = end ? '7' : static_cast<char>(next);
    text[at++] = '7';
    JsonDecoder decoder;
    const auto result = decoder.decodeValue(std::string_view(text, end ? length : at));
    zs_assert(result.numReadChars == length, "the number is read to its end");
    const bool overflow = n.above || extra > 0;
    zs_assert(result.integerOverflow == overflow, "overflow is reported exactly when the number has no 64 bits");
    if (overflow)
    {
        zs_assert(!result.value.hasValue(), "no value in case of overflow");
        zs_reach("overflow");
    }
    else
    {
        if (negative)
            zs_assert(result.value.isType<int64_t>() &&
                            static_cast<uint64_t>(result.value.get<int64_t>()) == 0 - n.value,
                    "negative number");
        else
            zs_assert(result.value.isType<uint64_t>() && result.value.get<uint64_t>() == n.value, "number");
        zs_reach("value");
    }
}

// any text which is no string
ENTRY h_any()
{
    const size_t n = zs_param("length");
    uint8_t* text = new uint8_t[n];
    zs_bytes(text, n, "text");
    zs_assume(text[0] != '"');
    check(text, n, n < 5);
    delete[] text;
}

// the literals with one wrong or missing character, and something behind them
ENTRY h_literal()
{
    static const char* const literals[] = {"null", "true", "false", "NaN", "Infinity", "-Infinity"};
    const char* literal = literals[zs_param("literal")];
    const size_t n = std::strlen(literal);
    uint8_t* text = new uint8_t[n + 1];
    for (size_t i = 0; i < n; ++i)
        text[i] = static_cast<uint8_t>(literal[i]);
    text[n] = zs_u8("next");
    const size_t wrong = zs_choose(0, n, "wrong");
    text[wrong] = zs_u8("wrong");
    zs_assume(text[0] != '"');
    const size_t length = zs_choose(1, n + 1, "length");
    uint8_t* exact = new uint8_t[length];
    for (size_t i = 0; i < length; ++i)
        exact[i] = text[i];
    check(exact, length);
    delete[] exact;
    delete[] text;
}

// floating point numbers of every form
ENTRY h_double()
{
    uint8_t text[32];
    size_t at = 0;
    if (zs_choose(0, 1, "minus"))
        text[at++] = '-';
    const unsigned whole = static_cast<unsigned>(zs_choose(0, 3, "whole"));
    for (unsigned i = 0; i < whole; ++i)
        text[at++] = static_cast<uint8_t>('0' + anyDigit(0, 9));
    if (zs_choose(0, 1, "dot"))
    {
        text[at++] = '.';
        const unsigned fraction = static_cast<unsigned>(zs_choose(0, 3, "fraction"));
        for (unsigned i = 0; i < fraction; ++i)
            text[at++] = static_cast<uint8_t>('0' + anyDigit(0, 9));
    }
    const unsigned exponent = static_cast<unsigned>(zs_choose(0, 4, "exponent"));
    if (exponent)
    {
        text[at++] = zs_choose(0, 1, "capital") ? 'E' : 'e';
        if (exponent > 1)
            text[at++] = exponent == 2 ? '+' : '-';
        if (exponent < 4)
        {
            const unsigned x = static_cast<unsigned>(zs_choose(0, 15, "x"));
            if (x > 9)
                text[at++] = '1';
            text[at++] = static_cast<uint8_t>('0' + x % 10);
        }
    }
    const size_t n = at;
    if (n == 0)
        zs_stop();
    uint8_t* exact = new uint8_t[n];
    for (size_t i = 0; i < n; ++i)
        exact[i] = text[i];
    check(exact, n);
    delete[] exact;
}
