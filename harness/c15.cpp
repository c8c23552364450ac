// C15: bit buffers are values: sequences of exactly their bits.
#include "common.h"

#include "zserio/BitBuffer.h"

using namespace zserio;

namespace
{
// the specification's view of a bit sequence
struct Bits
{
    size_t n = 0;
    bool b[32];
};

Bits bitsOf(const uint8_t* data, size_t n)
{
    Bits r;
    r.n = n;
    for (size_t i = 0; i < n; ++i)
        r.b[i] = spec::bit(data, i);
    return r;
}

bool eq(const Bits& x, const Bits& y)
{
    if (x.n != y.n)
        return false;
    bool r = true;
    for (size_t i = 0; i < x.n; ++i)
        r = r & (x.b[i] == y.b[i]);
    return r;
}

// lexicographical order of bits, a prefix comes first
bool less(const Bits& x, const Bits& y)
{
    bool decided = false, r = false;
    for (size_t i = 0; i < x.n && i < y.n; ++i)
    {
        const bool differ = x.b[i] != y.b[i];
        r = r | (!decided & differ & y.b[i]);
        decided = decided | differ;
    }
    return r | (!decided & (x.n < y.n));
}

void holds(const BitBuffer& x, const Bits& s)
{
    zs_assert(x.getBitSize() == s.n && x.getByteSize() == (s.n + 7) / 8, "size");
    zs_assert(x.getBytes().size() >= x.getByteSize() && x.getData().size() >= x.getByteSize(), "storage");
    bool same = true;
    for (size_t i = 0; i < s.n; ++i)
        same = same & (spec::bit(x.getBuffer(), i) == s.b[i]) & (spec::bit(x.getData().data(), i) == s.b[i]) &
                (spec::bit(x.getBytes().data(), i) == s.b[i]);
    zs_assert(same, "contents");
}

// every operation which reads an object
void usable(const BitBuffer& x)
{
    const BitBuffer copy(x);
    zs_assert(copy == x && !(copy < x) && copy.hashCode() == x.hashCode() && copy.getBitSize() == x.getBitSize(), "usable");
}
} // namespace

ENTRY h_construct()
{
    uint8_t data[3];
    zs_bytes(data, sizeof(data), "data");
    const size_t bytes = zs_choose(0, 3, "bytes");
    const uint64_t bits = zs_u64("bits");
    bool accepted = false, accepted2 = false;
    try
    {
        const BitBuffer x(Span<const uint8_t>(data, bytes), bits);
        accepted = true;
        zs_assert(x.getBitSize() == bits, "size");
    }
    catch (const CppRuntimeException&)
    {}
    std::vector<uint8_t> v(data, data + bytes);
    try
    {
        const BitBuffer x(std::move(v), bits);
        accepted2 = true;
        zs_assert(x.getBitSize() == bits, "size");
    }
    catch (const CppRuntimeException&)
    {}
    zs_assert(accepted == (bits <= 8 * bytes) && accepted2 == accepted, "sizes beyond the storage are rejected");
    if (!accepted)
        zs_reach("rejected");
    holds(BitBuffer(Span<const uint8_t>(data, bytes)), bitsOf(data, 8 * bytes));
    holds(BitBuffer(std::vector<uint8_t>(data, data + bytes)), bitsOf(data, 8 * bytes));
    zs_reach("constructed");
}

ENTRY h_values()
{
    uint8_t data[3], other[3];
    zs_bytes(data, sizeof(data), "data");
    zs_bytes(other, sizeof(other), "other");
    const size_t n = zs_choose(0, 20, "n"), m = zs_choose(0, 20, "m");
    const Bits s = bitsOf(data, n), t = bitsOf(other, m);
    BitBuffer x(Span<const uint8_t>(data, 3), n), y(Span<const uint8_t>(other, zs_choose(0, 1, "spare") ? 3 : (m + 7) / 8), m);
    holds(x, s);
    holds(y, t);
    switch (zs_choose(0, 7, "op"))
    {
    case 0:
    {
        BitBuffer z(x);
        holds(z, s);
        holds(x, s);
        break;
    }
    case 1:
    {
        BitBuffer z(std::move(x));
        holds(z, s);
        usable(x);
        x = y;
        holds(x, t);
        break;
    }
    case 2:
        y = x;
        holds(y, s);
        holds(x, s);
        break;
    case 3:
        y = std::move(x);
        holds(y, s);
        usable(x);
        break;
    case 4:
        std::swap(x, y);
        holds(x, t);
        holds(y, s);
        break;
    case 5:
    {
        BitBuffer z(x, std::allocator<uint8_t>()), u(std::move(y), std::allocator<uint8_t>());
        holds(z, s);
        holds(u, t);
        usable(y);
        break;
    }
    case 6:
    {
        BitBuffer& self = x;
        x = self;
        holds(x, s);
        break;
    }
    default:
    {
        BitBuffer z(n);
        Bits zero;
        zero.n = n;
        for (bool& b : zero.b)
            b = false;
        holds(z, zero);
        for (size_t i = 0; i < z.getByteSize(); ++i)
            z.getBuffer()[i] = data[i];
        holds(z, s);
        zs_assert(z == x && z.hashCode() == x.hashCode(), "contents written through the buffer");
        break;
    }
    }
    zs_reach("value");
}

ENTRY h_compare()
{
    uint8_t data[3], other[3];
    zs_bytes(data, sizeof(data), "data");
    zs_bytes(other, sizeof(other), "other");
    const size_t n = zs_choose(0, 24, "n"), m = zs_choose(0, 24, "m");
    const Bits s = bitsOf(data, n), t = bitsOf(other, m);
    const BitBuffer x(Span<const uint8_t>(data, 3), n), y(Span<const uint8_t>(other, 3), m);
    const bool equal = eq(s, t), lt = less(s, t), gt = less(t, s);
    zs_assert((x == y) == equal && (x != y) == !equal, "equality of the bits, spare bits do not matter");
    zs_assert((x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "lexicographical order, prefixes first");
    if (equal)
        zs_reach("equal");
    zs_assert(x == x && !(x < x) && x <= x, "reflexive");
    if (lt)
        zs_reach("less");
}

// bit buffers of the same bits, which h_compare shows to be the equal ones, have the same hash code
ENTRY h_hash()
{
    uint8_t data[4], other[4];
    zs_bytes(data, sizeof(data), "data");
    zs_bytes(other, sizeof(other), "other");
    const size_t n = zs_choose(0, 31, "n");
    const size_t full = n / 8;
    for (size_t i = 0; i < full; ++i)
        other[i] = data[i];
    const uint8_t mask = static_cast<uint8_t>(0xFF00U >> (n % 8));
    other[full] = static_cast<uint8_t>((data[full] & mask) | (other[full] & static_cast<uint8_t>(~mask)));
    const BitBuffer x(Span<const uint8_t>(data, 4), n), y(Span<const uint8_t>(other, zs_choose(full + 1, 4, "bytes")), n);
    zs_assert(x == y, "equal");
    zs_assert(x.hashCode() == y.hashCode(), "equal bit buffers have equal hash codes");
    zs_assert(std::hash<BitBuffer>()(x) == x.hashCode() && calcHashCode(HASH_SEED, x) == calcHashCode(HASH_SEED, y), "all hash functions agree");
    zs_reach("hash");
}
