// C16: comparison and hashing of every kind of value form consistent laws.
#include "common.h"
#include "sample.h"

#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/DataView.h"
#include "zserio/Extended.h"
#include "zserio/Optional.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Variant.h"
#include "zserio/Vector.h"
#include "zserio/View.h"
#include "test_object/std_allocator/CreatorEnum.h"
#include "test_object/std_allocator/CreatorNested.h"
#include "test_object/std_allocator/CreatorObject.h"
#include "test_object/std_allocator/ReflectableUnion.h"

using namespace zserio;
using namespace test_object::std_allocator;

namespace
{
template <typename T>
uint32_t hashOf(const T& x)
{
    return zserio::calcHashCode(HASH_SEED, x);
}

// operators of one pair agree with each other
template <typename T>
void pair(const T& a, const T& b)
{
    const bool e = a == b, l = a < b, g = b < a;
    zs_assert((b == a) == e, "equality is symmetric");
    zs_assert((a != b) == !e && (b != a) == !e, "inequality is the opposite of equality");
    zs_assert(static_cast<int>(e) + static_cast<int>(l) + static_cast<int>(g) == 1, "exactly one of less, equal, greater");
    zs_assert((a > b) == g && (a <= b) == !g && (a >= b) == !l, "derived order operators");
    zs_assert(a == a && !(a < a) && !(a != a) && a <= a && a >= a && !(a > a), "reflexive");
}

template <typename T>
void triple(const T& a, const T& b, const T& c)
{
    pair(a, b);
    if (a < b && b < c)
    {
        zs_assert(a < c, "order is transitive");
        zs_reach("ordered");
    }
    if (a == b)
    {
        zs_assert((a < c) == (b < c) && (a == c) == (b == c), "equal values are interchangeable");
        zs_assert(hashOf(a) == hashOf(b), "equal values have equal hash codes");
        zs_reach("equal");
    }
}

template <typename T>
void numbers()
{
    using V = typename T::ValueType;
    const T a(static_cast<V>(zs_u64("a"))), b(static_cast<V>(zs_u64("b"))), c(static_cast<V>(zs_u64("c")));
    zs_assert((a == b) == (static_cast<V>(a) == static_cast<V>(b)) && (a < b) == (static_cast<V>(a) < static_cast<V>(b)),
            "compare like the numbers");
    triple(a, b, c);
}

template <typename T, typename R>
void floats(T (*make)(R))
{
    const T a = make(static_cast<R>(zs_u64("a"))), b = make(static_cast<R>(zs_u64("b"))), c = make(static_cast<R>(zs_u64("c")));
    using V = typename T::ValueType;
    zs_assume(static_cast<V>(a) == static_cast<V>(a) && static_cast<V>(b) == static_cast<V>(b) && static_cast<V>(c) == static_cast<V>(c));
    triple(a, b, c);
}
Float16 mk16(uint16_t v) { return Float16(convertUInt16ToFloat(v)); }
Float32 mk32(uint32_t v) { return Float32(convertUInt32ToFloat(v)); }
Float64 mk64(uint64_t v) { return Float64(convertUInt64ToDouble(v)); }

std::vector<uint8_t> someBytes(const char* name, size_t n)
{
    std::vector<uint8_t> r(n);
    zs_bytes(r.data(), n, name);
    return r;
}

// the order of sequences: lexicographical, a prefix comes first
template <typename C>
bool seqLess(const C& a, const C& b)
{
    bool decided = false, r = false;
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    {
        const bool lt = a[i] < b[i], gt = b[i] < a[i];
        r = r | (!decided & lt);
        decided = decided | lt | gt;
    }
    return r | (!decided & (a.size() < b.size()));
}

struct Lengths
{
    size_t a, b, c;
    Lengths() : a(zs_choose(0, 2, "na")), b(zs_choose(0, 2, "nb")), c(zs_choose(0, 2, "nc")) {}
};

void sequences(unsigned kind)
{
    const Lengths n;
    const auto x = someBytes("a", n.a), y = someBytes("b", n.b), z = someBytes("c", n.c);
    const auto less = [](const std::vector<uint8_t>& p, const std::vector<uint8_t>& q) { return seqLess(p, q); };
    switch (kind)
    {
    case 0:
    {
        const BytesView a(x), b(y), c(z);
        triple(a, b, c);
        zs_assert((a < b) == less(x, y), "lexicographical order");
        zs_assert(hashOf(a) == hashOf(Bytes(x)), "the view has the hash code of its bytes");
        break;
    }
    case 1:
    {
        const auto str = [](const std::vector<uint8_t>& v) { return std::string_view(reinterpret_cast<const char*>(v.data()), v.size()); };
        const String p(str(x)), q(str(y)), r(str(z));
        triple(p, q, r);
        triple(str(x), str(y), str(z));
        zs_assert((p < q) == less(x, y), "lexicographical order of unsigned characters");
        zs_assert(hashOf(p) == hashOf(str(x)), "the view has the hash code of its string");
        break;
    }
    case 2:
    {
        const auto vec = [](const std::vector<uint8_t>& v) {
            Vector<Int8> r;
            for (uint8_t e : v)
                r.push_back(static_cast<int8_t>(e));
            return r;
        };
        const Vector<Int8> p = vec(x), q = vec(y), r = vec(z);
        triple(p, q, r);
        zs_assert((p < q) == seqLess(p, q), "lexicographical order");
        const ArrayView<const Int8> a(p), b(q), c(r);
        triple(a, b, c);
        zs_assert((a < b) == (p < q) && (a == b) == (p == q) && hashOf(a) == hashOf(p), "the view compares like its array");
        break;
    }
    default:
    {
        // bit buffers are compared by bits
        Vector<BitBuffer> p, q;
        for (uint8_t e : x)
            p.push_back(BitBuffer(Span<const uint8_t>(&e, 1), 4));
        for (uint8_t e : y)
            q.push_back(BitBuffer(Span<const uint8_t>(&e, 1), 5));
        const ArrayView<const BitBuffer> a(p), b(q);
        pair(a, b);
        zs_assert((a < b) == (p < q) && (a == b) == (p == q), "the view compares like its array");
        zs_assert(hashOf(a) == hashOf(p), "the view has the hash code of its array");
        if (a == b)
        {
            zs_assert(hashOf(a) == hashOf(b), "hash");
            zs_reach("equal");
        }
        else
            zs_reach("ordered");
        break;
    }
    }
}

template <typename T>
Optional<T> someOptional(uint8_t v)
{
    Optional<T> r;
    if (zs_choose(0, 1, "present"))
        r.emplace(v);
    return r;
}

struct Wide // held on the heap
{
    uint32_t v;
    uint8_t pad[40];
    explicit Wide(uint32_t x) : v(x) {}
    bool operator==(const Wide& o) const { return v == o.v; }
    bool operator!=(const Wide& o) const { return v != o.v; }
    bool operator<(const Wide& o) const { return v < o.v; }
    bool operator>(const Wide& o) const { return v > o.v; }
    bool operator<=(const Wide& o) const { return v <= o.v; }
    bool operator>=(const Wide& o) const { return v >= o.v; }
};

enum class Tag : size_t
{
    A,
    B,
    C
};
using Var = Variant<Tag, UInt8, UInt32, UInt8>;

Var someVariant(uint8_t v)
{
    switch (zs_choose(0, 2, "tag"))
    {
    case 0: return Var(in_place_index<Tag::A>, v);
    case 1: return Var(in_place_index<Tag::B>, v);
    default: return Var(in_place_index<Tag::C>, v);
    }
}

Extended<UInt8> someExtended(uint8_t v)
{
    Extended<UInt8> r{UInt8(v)};
    r.setPresent(zs_choose(0, 1, "present"));
    return r;
}

CreatorNested someNested(uint8_t v)
{
    CreatorNested r;
    r.value = v;
    r.text = String(1, static_cast<char>(v));
    if (zs_choose(0, 1, "bits"))
        r.externData = BitBuffer(Span<const uint8_t>(&v, 1), 3);
    r.creatorEnum = (v & 1) ? CreatorEnum::ONE : CreatorEnum::MinusOne;
    return r;
}

CreatorObject someObject(uint8_t v)
{
    CreatorObject r;
    r.value = 7;
    const unsigned shape = zs_choose(0, 3, "shape");
    if (shape & 1)
        r.textArray.push_back(String(1, static_cast<char>(v)));
    if (shape & 2)
        r.optionalBool.emplace((v & 1) != 0);
    if (shape == 0)
        r.value = v;
    return r;
}

ReflectableUnion someUnion(uint8_t v)
{
    ReflectableUnion r;
    switch (zs_choose(0, 2, "tag"))
    {
    case 0: r.emplace<ReflectableUnion::Tag::value32>(v); break;
    case 1: r.emplace<ReflectableUnion::Tag::valueStr>(String(1, static_cast<char>(v))); break;
    default: break;
    }
    return r;
}

// views are compared like the data they show
template <typename T, typename... ARGS>
void viewLaws(const T& x, const T& y, const T& z, ARGS... args)
{
    triple(x, y, z);
    const View<T> a(x, args...), b(y, args...), c(z, args...);
    triple(a, b, c);
    zs_assert((a == b) == (x == y) && (a < b) == (x < y), "views are compared like their data");
}
} // namespace

ENTRY h_numbers()
{
    switch (zs_param("type"))
    {
    case 0: numbers<UInt5>(); break;
    case 1: numbers<Int33>(); break;
    case 2: numbers<Int64>(); break;
    case 3: numbers<VarUInt>(); break;
    case 4: numbers<VarInt16>(); break;
    case 5: numbers<DynUInt32>(); break;
    case 6:
    {
        const Bool a(zs_bool("a")), b(zs_bool("b")), c(zs_bool("c"));
        pair(a, b);
        zs_assert(a != b || hashOf(a) == hashOf(b), "hash code of booleans");
        zs_reach("equal");
        zs_reach("ordered");
        break;
    }
    case 7: floats<Float16, uint16_t>(mk16); break;
    case 8: floats<Float32, uint32_t>(mk32); break;
    case 9: floats<Float64, uint64_t>(mk64); break;
    default:
    {
        using V = View<DynInt16>;
        const V a(static_cast<int16_t>(zs_u16("a")), zs_u8("na")), b(static_cast<int16_t>(zs_u16("b")), zs_u8("nb")),
                c(static_cast<int16_t>(zs_u16("c")), zs_u8("nc"));
        triple(a, b, c);
        break;
    }
    }
}

ENTRY h_sequences()
{
    sequences(zs_param("kind"));
}

ENTRY h_compounds()
{
    const uint8_t x = zs_u8("a"), y = zs_u8("b"), z = zs_u8("c");
    switch (zs_param("kind"))
    {
    case 0:
    {
        const auto a = someOptional<UInt8>(x), b = someOptional<UInt8>(y), c = someOptional<UInt8>(z);
        triple(a, b, c);
        zs_assert((a < b) == (b.has_value() && (!a.has_value() || *a < *b)), "empty optionals come first");
        const UInt8 v(z);
        zs_assert((a == v) == (a.has_value() && *a == v) && (v == a) == (a == v) && (a != v) == !(a == v) && (v != a) == !(a == v) &&
                (a < v) == (!a.has_value() || *a < v) && (v > a) == (a < v) && (v < a) == (a.has_value() && v < *a) &&
                (a > v) == (v < a) && (a <= v) == !(a > v) && (v >= a) == (a <= v) && (a >= v) == !(a < v) && (v <= a) == (a >= v),
                "comparison with a value");
        zs_assert((a == std::nullopt) == !a.has_value() && (std::nullopt == a) == !a.has_value() && (a != std::nullopt) == a.has_value() &&
                !(a < std::nullopt) && (std::nullopt < a) == a.has_value() && (a > std::nullopt) == a.has_value() &&
                (a <= std::nullopt) == !a.has_value() && a >= std::nullopt && std::nullopt <= a && (std::nullopt >= a) == !a.has_value() &&
                (std::nullopt != a) == a.has_value() && !(std::nullopt > a),
                "comparison with nothing");
        break;
    }
    case 1:
    {
        const auto a = someOptional<Wide>(x), b = someOptional<Wide>(y), c = someOptional<Wide>(z);
        pair(a, b);
        if (a < b && b < c)
        {
            zs_assert(a < c, "transitive");
            zs_reach("ordered");
        }
        if (a == b)
            zs_reach("equal");
        break;
    }
    case 2: triple(someVariant(x), someVariant(y), someVariant(z)); break;
    case 3: triple(someExtended(x), someExtended(y), someExtended(z)); break;
    case 4:
    {
        const auto flags = [](uint8_t v) {
            sample::Flags f(static_cast<sample::Flags::ZserioType>(v));
            return f;
        };
        const auto a = flags(x), b = flags(y);
        zs_assert((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y), "compare like the raw bits");
        if (a == b)
        {
            zs_assert(hashOf(a) == hashOf(b), "hash of bitmasks");
            zs_reach("equal");
        }
        else
        {
            const auto item = [](uint8_t v) { return (v & 1) ? sample::Color::RED : sample::Color::BLUE; };
            zs_assert(item(x) != item(y) || hashOf(item(x)) == hashOf(item(y)), "hash of enumeration items");
            zs_reach("ordered");
        }
        break;
    }
    case 5: viewLaws(someNested(x), someNested(y), someNested(z), UInt32(9)); break;
    case 6: viewLaws(someObject(x), someObject(y), someObject(z)); break;
    default: viewLaws(someUnion(x), someUnion(y), someUnion(z)); break;
    }
}
