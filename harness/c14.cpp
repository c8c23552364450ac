// C14: enumerations and bitmasks: conversions, names, stream form.
#include "common.h"

#include "sample.h"
#include "zserio/ArrayTraits.h"
#include <test_object/std_allocator/CreatorBitmask.h>
#include <test_object/std_allocator/CreatorEnum.h>

using namespace zserio;
using test_object::std_allocator::CreatorBitmask;
using test_object::std_allocator::CreatorEnum;

namespace
{
template <typename E>
using Raw = typename EnumTraits<E>::ZserioType;
template <typename E>
using RawValue = typename Raw<E>::ValueType;

template <typename E>
bool isItem(int64_t v)
{
    bool found = false;
    for (E e : EnumTraits<E>::values)
        found = found | (static_cast<int64_t>(static_cast<std::underlying_type_t<E>>(e)) == v);
    return found;
}

template <typename E>
void values()
{
    const RawValue<E> raw = static_cast<RawValue<E>>(zs_u64("value"));
    E e{};
    const bool threw = spec::throws([&] { e = valueToEnum<E>(raw); });
    zs_assert(threw == !isItem<E>(raw), "exactly the items have a value");
    if (threw)
    {
        // an enumeration variable holding no item is refused where a name or ordinal is needed
        const E bad = static_cast<E>(raw);
        zs_assert(spec::throws([&] { (void)enumToString(bad); }), "no name for a value without item");
        zs_reach("invalid");
        return;
    }
    zs_assert(static_cast<RawValue<E>>(enumToValue(e)) == raw, "value of the item");
    zs_assert(static_cast<RawValue<E>>(builtin::valueOf(e)) == raw, "valueof operator");
    const size_t ord = enumToOrdinal(e);
    zs_assert(ord < EnumTraits<E>::values.size() && EnumTraits<E>::values[ord] == e, "ordinal of the item");
    const std::string_view name = enumToString(e);
    zs_assert(stringToEnum<E>(name) == e, "name converts back to the item");
    zs_reach("valid");
}

template <typename E>
void names()
{
    char text[10];
    const size_t len = zs_choose(0, 9, "length");
    zs_bytes(text, len, "text");
    E e{};
    const std::string_view sv(text, len);
    const bool threw = spec::throws([&] { e = stringToEnum<E>(sv); });
    size_t match = EnumTraits<E>::names.size();
    for (size_t i = EnumTraits<E>::names.size(); i-- > 0;)
    {
        const std::string_view n = EnumTraits<E>::names[i];
        bool eq = n.size() == len;
        for (size_t j = 0; eq && j < len; ++j)
            eq = n[j] == text[j];
        if (eq)
            match = i;
    }
    zs_assert(threw == (match == EnumTraits<E>::names.size()), "exactly the names of items convert");
    if (!threw)
    {
        zs_assert(e == EnumTraits<E>::values[match], "name converts to its own item");
        zs_reach("known");
    }
    else
        zs_reach("unknown");
}

// any bytes: reading an enumeration behaves as reading its raw type and converting
template <typename E>
void readAny()
{
    uint8_t buf[6];
    zs_bytes(buf, sizeof buf, "buffer");
    const size_t pos = zs_choose(0, 8, "pos"), bits = zs_choose(8, 40, "bits");
    zs_assume(pos <= bits);
    BitStreamReader r1(Span<const uint8_t>(buf), bits), r2(Span<const uint8_t>(buf), bits);
    r1.setBitPosition(pos);
    r2.setBitPosition(pos);
    Raw<E> raw{};
    E e{};
    const bool t1 = spec::throws([&] { detail::read(r1, raw); });
    const bool t2 = spec::throws([&] { detail::read(r2, e); });
    const bool ok = !t1 && isItem<E>(static_cast<RawValue<E>>(raw));
    zs_assert(t2 == !ok, "only items are read");
    if (!ok)
    {
        zs_reach("rejected");
        return;
    }
    zs_assert(static_cast<int64_t>(e) == static_cast<int64_t>(static_cast<RawValue<E>>(raw)), "item read");
    zs_assert(r1.getBitPosition() == r2.getBitPosition(), "same bits consumed");
    uint8_t out[8] = {0}, ref[8] = {0};
    BitStreamWriter w1(Span<uint8_t>(out, 8)), w2(Span<uint8_t>(ref, 8));
    w1.setBitPosition(pos);
    w2.setBitPosition(pos);
    detail::write(w1, e);
    detail::write(w2, raw);
    zs_assert(w1.getBitPosition() == w2.getBitPosition() && spec::same(out, ref, 8), "written like its value");
    zs_assert(detail::bitSizeOf(e) == w1.getBitPosition() - pos, "size of the item");
    zs_assert(!spec::throws([&] { detail::validate(e, "field"); }), "items validate");
    zs_reach("read");
}

template <typename B>
B fromRaw(typename B::ZserioType::ValueType v)
{
    return B(typename B::ZserioType(v));
}

template <typename B, unsigned BITS>
void bitmask()
{
    using V = typename B::ZserioType::ValueType;
    const V a = static_cast<V>(zs_u64("a")), b = static_cast<V>(zs_u64("b"));
    const B x = fromRaw<B>(a), y = fromRaw<B>(b);
    zs_assert(static_cast<V>(x.getValue()) == a, "raw value is kept");
    zs_assert(static_cast<V>(builtin::valueOf(x)) == a, "valueof operator");
    zs_assert(builtin::isSet(x, y) == ((a & b) == b), "isset operator");
    const bool fits = (static_cast<uint64_t>(a) >> BITS) == 0;
    zs_assert(spec::throws([&] { detail::validate(x, "field"); }) == !fits, "validation follows the raw type");
    uint8_t buf[4] = {0xA5, 0x5A, 0xFF, 0x00}, old[4] = {0xA5, 0x5A, 0xFF, 0x00};
    const size_t pos = zs_choose(0, 12, "pos");
    BitStreamWriter w(Span<uint8_t>(buf, 4));
    w.setBitPosition(pos);
    const bool threw = spec::throws([&] { detail::write(w, x); });
    zs_assert(threw == !fits, "exactly representable masks are written");
    if (threw)
    {
        zs_reach("unwritable");
        return;
    }
    spec::put(old, pos, BITS, a);
    zs_assert(spec::same(buf, old, 4) && w.getBitPosition() == pos + BITS && detail::bitSizeOf(x) == BITS, "stream form");
    BitStreamReader r(Span<const uint8_t>(buf, 4));
    r.setBitPosition(pos);
    B z;
    detail::read(r, z);
    zs_assert(z == x, "read back with all bits, named or not");
    zs_reach("bitmask");
}

// two elements through one delta context equal their raw values through another
template <typename T, typename R>
void packed(const T (&e)[3], const R (&raw)[3])
{
    uint8_t out[16] = {0}, ref[16] = {0};
    BitStreamWriter w1(Span<uint8_t>(out, 16)), w2(Span<uint8_t>(ref, 16));
    detail::DeltaContext c1, c2, s1, s2;
    for (int i = 0; i < 3; ++i)
    {
        detail::initContext(c1, e[i]);
        c2.init(raw[i]);
    }
    s1 = c1;
    s2 = c2;
    for (int i = 0; i < 3; ++i)
    {
        zs_assert(detail::bitSizeOf(s1, e[i]) == s2.bitSizeOf(raw[i]), "packed size like the value");
        detail::write(c1, w1, e[i]);
        c2.write(w2, raw[i]);
    }
    zs_assert(w1.getBitPosition() == w2.getBitPosition() && spec::same(out, ref, 16), "packed like the value");
    BitStreamReader r(Span<const uint8_t>(out, 16));
    detail::DeltaContext d;
    for (int i = 0; i < 3; ++i)
    {
        T t{};
        detail::read(d, r, t);
        zs_assert(t == e[i], "packed element reads back");
    }
    zs_assert(r.getBitPosition() == w1.getBitPosition(), "packed read consumes what was written");
    zs_reach("packed");
}

template <typename E>
void packedEnum()
{
    E e[3];
    Raw<E> raw[3];
    for (int i = 0; i < 3; ++i)
    {
        e[i] = EnumTraits<E>::values[zs_choose(0, EnumTraits<E>::values.size() - 1, "item")];
        raw[i] = enumToValue(e[i]);
    }
    packed(e, raw);
}

// a corrupted packed stream never yields a value which is no item
template <typename E>
void packedAny()
{
    uint8_t buf[9];
    zs_bytes(buf, sizeof buf, "buffer");
    BitStreamReader r(Span<const uint8_t>(buf, sizeof buf));
    detail::DeltaContext d;
    unsigned n = 0;
    E e[3] = {};
    const bool threw = spec::throws([&] {
        for (n = 0; n < 3; ++n)
            detail::read(d, r, e[n]);
    });
    for (unsigned i = 0; i < n; ++i)
        zs_assert(isItem<E>(static_cast<int64_t>(e[i])), "packed reading yields items only");
    zs_assert(r.getBitPosition() <= 72, "inside the stream");
    zs_reach(threw ? "rejected" : "read");
}
} // namespace

ENTRY h_values()
{
    zs_param("type") == 0 ? values<CreatorEnum>() : values<sample::Color>();
}

ENTRY h_names()
{
    zs_param("type") == 0 ? names<CreatorEnum>() : names<sample::Color>();
}

ENTRY h_read()
{
    zs_param("type") == 0 ? readAny<CreatorEnum>() : readAny<sample::Color>();
}

ENTRY h_bitmask()
{
    zs_param("type") == 0 ? bitmask<CreatorBitmask, 8>() : bitmask<sample::Flags, 13>();
}

ENTRY h_packed()
{
    switch (zs_param("type"))
    {
    case 0: packedEnum<CreatorEnum>(); break;
    case 1: packedEnum<sample::Color>(); break;
    default:
    {
        sample::Flags f[3];
        UInt13 raw[3];
        for (int i = 0; i < 3; ++i)
        {
            const uint16_t v = zs_u16("mask");
            zs_assume(v < 8192);
            raw[i] = v;
            f[i] = sample::Flags(raw[i]);
        }
        packed(f, raw);
        break;
    }
    }
}

ENTRY h_packed_any()
{
    zs_param("type") == 0 ? packedAny<CreatorEnum>() : packedAny<sample::Color>();
}
