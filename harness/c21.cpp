// C21 strings as JSON text.
#include "common.h"
#include "stream.h"
#include "zserio/JsonDecoder.h"
#include "zserio/JsonEncoder.h"

using namespace zserio;
using JsonDecoder = BasicJsonDecoder<>;

namespace
{
constexpr size_t MAX = 8;

// independent reading of a JSON string as the library supports it: the length read, or 0 if there is no string
struct Decoded
{
    bool valid;
    size_t read;
    size_t length;
    uint8_t text[16];
};

int hexDigit(uint8_t c)
{
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a' && c <= 'f')
        return c - 'a' + 10;
    if (c >= 'A' && c <= 'F')
        return c - 'A' + 10;
    return -1;
}

Decoded reference(const uint8_t* p, size_t n)
{
    Decoded d{};
    size_t at = 1;
    while (at < n)
    {
        uint8_t c = p[at++];
        if (c == '"')
        {
            d.valid = true;
            d.read = at;
            return d;
        }
        if (c == '\\')
        {
            if (at == n)
                return d;
            const uint8_t e = p[at++];
            if (e == '"' || e == '\\')
                c = e;
            else if (e == 'b')
                c = 8;
            else if (e == 'f')
                c = 12;
            else if (e == 'n')
                c = 10;
            else if (e == 'r')
                c = 13;
            else if (e == 't')
                c = 9;
            else if (e == 'u')
            {
                if (n - at < 4 || p[at] != '0' || p[at + 1] != '0')
                    return d;
                const int high = hexDigit(p[at + 2]);
                const int low = hexDigit(p[at + 3]);
                if (high < 0 || low < 0)
                    return d;
                c = static_cast<uint8_t>(high * 16 + low);
                at += 4;
            }
            else
                return d;
        }
        d.text[d.length++] = c;
    }
    return d;
}
} // namespace

// every text survives encoding and decoding, followed by anything
ENTRY h_roundtrip()
{
    const size_t n = zs_param("length");
    uint8_t text[MAX + 1];
    zs_bytes(text, MAX + 1, "text");
    stream::Out out;
    std::ostream os(&out);
    JsonEncoder::encodeString(os, std::string_view(reinterpret_cast<const char*>(text), n));
    zs_assert(os.good(), "the stream is still good");
    zs_assert(out.size >= n + 2 && out.data[0] == '"' && out.data[out.size - 1] == '"', "the text is quoted");
    bool plain = true;
    for (size_t i = 0; i < out.size; ++i)
        plain = plain & (static_cast<uint8_t>(out.data[i]) >= 0x20);
    zs_assert(plain, "no control characters in the encoded text");
    const size_t size = out.size;
    const size_t more = zs_choose(0, 1, "more");
    out.data[size] = static_cast<char>(text[MAX]); // anything may follow
    JsonDecoder decoder;
    const auto result = decoder.decodeValue(std::string_view(out.data, size + more));
    zs_assert(result.numReadChars == size, "the decoder reads exactly the encoded text");
    zs_assert(result.value.hasValue() && result.value.isType<String>(), "the decoded value is a string");
    const String& decoded = result.value.get<String>();
    zs_assert(decoded.size() == n, "the decoded text has the same length");
    zs_assert(spec::same(reinterpret_cast<const uint8_t*>(decoded.data()), text, n), "the decoded text is the same");
    zs_reach("same");
}

// a text long enough for memory of its own, two characters of it are anything
ENTRY h_long()
{
    const size_t n = zs_param("length");
    uint8_t text[40];
    zs_bytes(text, n, "text");
    const size_t first = zs_param("at");
    const size_t second = zs_choose(first + 1, n - 1, "second");
    for (size_t i = 0; i < n; ++i)
        zs_assume(i == first || i == second || (text[i] >= 0x20 && text[i] != '"' && text[i] != '\\'));
    stream::Out out;
    std::ostream os(&out);
    JsonEncoder::encodeString(os, std::string_view(reinterpret_cast<const char*>(text), n));
    JsonDecoder decoder;
    const auto result = decoder.decodeValue(std::string_view(out.data, out.size));
    zs_assert(result.numReadChars == out.size, "the decoder reads exactly the encoded text");
    zs_assert(result.value.hasValue() && result.value.isType<String>(), "the decoded value is a string");
    const String& decoded = result.value.get<String>();
    zs_assert(decoded.size() == n, "the decoded text has the same length");
    zs_assert(spec::same(reinterpret_cast<const uint8_t*>(decoded.data()), text, n), "the decoded text is the same");
    zs_reach("same");
}

// any text starting with a quote: exactly the strings are accepted
ENTRY h_decode()
{
    const size_t n = zs_param("length");
    uint8_t* text = new uint8_t[n];
    text[0] = '"';
    zs_bytes(text + 1, n - 1, "text");
    const Decoded expected = reference(text, n);
    JsonDecoder decoder;
    const auto result = decoder.decodeValue(std::string_view(reinterpret_cast<const char*>(text), n));
    zs_assert(!result.integerOverflow, "a string does not overflow");
    if (!expected.valid)
    {
        zs_assert(!result.value.hasValue(), "what is no string gives no value");
        zs_assert(result.numReadChars >= 1 && result.numReadChars <= n, "nothing is read beyond the text");
        zs_reach("rejected");
    }
    else
    {
        zs_assert(result.value.hasValue() && result.value.isType<String>(), "a string is decoded");
        zs_assert(result.numReadChars == expected.read, "the string is read to its closing quote");
        const String& decoded = result.value.get<String>();
        zs_assert(decoded.size() == expected.length, "length of the decoded text");
        zs_assert(spec::same(reinterpret_cast<const uint8_t*>(decoded.data()), expected.text, expected.length),
                "decoded text");
        zs_reach("accepted");
    }
    delete[] text;
}
