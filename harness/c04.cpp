// C04: variable length integers: documented byte layout, minimal length, exact ranges, total decoder.
#include "common.h"
#include "varint.h"

using namespace zserio;
using namespace varint;

namespace
{

template <typename T>
void writeOne(BitStreamWriter& w, T v)
{
    detail::write(w, v);
}

template <typename T>
typename T::ValueType anyValue()
{
    return static_cast<typename T::ValueType>(zs_u64("value"));
}

const size_t N = 12;

template <typename T>
void checkWrite(unsigned kind)
{
    const Spec f = formatOf(kind);
    const typename T::ValueType raw = anyValue<T>();
    uint64_t mag;
    bool neg, inRange;
    splitValue<T>(raw, f, mag, neg, inRange);
    uint8_t now[N], want[N];
    zs_bytes(now, N, "buffer");
    memcpy(want, now, N);
    const size_t pos = zs_choose(0, 7, "pos");
    BitStreamWriter w(Span<uint8_t>(now, N));
    w.setBitPosition(pos);
    const bool failed = spec::throws([&] { writeOne<T>(w, T(raw)); });
    zs_assert(failed == !inRange, "a value is accepted exactly when it is in the documented range");
    if (failed)
    {
        zs_reach("rejected");
        zs_assert(spec::same(now, want, N) && w.getBitPosition() == pos, "a rejected value writes nothing");
        zs_assert(spec::throws([&] { (void)detail::bitSizeOf(T(raw)); }), "no size for values out of range");
        zs_assert(spec::throws([&] { detail::validate(T(raw), "v"); }), "values out of range do not validate");
        return;
    }
    uint8_t enc[16] = {};
    const unsigned n = encode(f, mag, neg, enc);
    for (unsigned i = 0; i < n; ++i)
        spec::put(want, pos + i * 8, 8, enc[i]);
    zs_assert(spec::same(now, want, N), "documented layout in the fewest bytes");
    zs_assert(w.getBitPosition() == pos + n * 8, "position after the write");
    zs_assert(detail::bitSizeOf(T(raw)) == n * 8, "reported size");
    zs_assert(!spec::throws([&] { detail::validate(T(raw), "v"); }), "values in range validate");
    BitStreamReader r(now, N);
    r.setBitPosition(pos);
    T back;
    detail::read(r, back);
    zs_assert(static_cast<typename T::ValueType>(back) == raw, "value reads back");
    zs_assert(r.getBitPosition() == pos + n * 8, "position after the read");
    zs_reach("written");
}

template <typename T>
void checkRead(unsigned kind)
{
    using V = typename T::ValueType;
    const Spec f = formatOf(kind);
    uint8_t buf[N];
    zs_bytes(buf, N, "buffer");
    const size_t pos = zs_choose(0, 7, "pos");
    const size_t avail = zs_choose(0, f.maxBytes, "bytes") * 8 + zs_choose(0, 1, "odd") * 3;
    BitStreamReader r(buf, pos + avail, BitsTag());
    r.setBitPosition(pos);
    T back;
    const bool failed = spec::throws([&] { detail::read(r, back); });
    uint64_t mag;
    bool neg;
    const unsigned n = decode(f, buf, pos, avail, mag, neg);
    const bool tooBig = kind == 8 && mag > f.maxAbs;
    zs_assert(failed == (n == 0 || tooBig), "decoding fails exactly at the end of the stream or for sizes out of range");
    if (failed)
    {
        zs_reach("rejected");
        return;
    }
    zs_assert(r.getBitPosition() == pos + n * 8, "position after the read");
    uint64_t want = neg ? ~mag + 1 : mag;
    if (kind == 3 && neg && n == 1 && mag == 0)
        want = UINT64_C(1) << 63;
    zs_assert(static_cast<V>(back) == static_cast<V>(want), "decoded value");
    zs_reach("read");
}

template <typename F>
void forKind(unsigned kind, F&& f)
{
    switch (kind)
    {
    case 0: f(VarInt16()); break;
    case 1: f(VarInt32()); break;
    case 2: f(VarInt64()); break;
    case 3: f(VarInt()); break;
    case 4: f(VarUInt16()); break;
    case 5: f(VarUInt32()); break;
    case 6: f(VarUInt64()); break;
    case 7: f(VarUInt()); break;
    default: f(VarSize()); break;
    }
}
} // namespace

ENTRY h_write()
{
    const unsigned kind = zs_param("kind");
    forKind(kind, [&](auto t) { checkWrite<decltype(t)>(kind); });
}

ENTRY h_read()
{
    const unsigned kind = zs_param("kind");
    forKind(kind, [&](auto t) { checkRead<decltype(t)>(kind); });
}

// the writer without a buffer only counts
ENTRY h_count()
{
    const unsigned kind = zs_param("kind");
    forKind(kind, [&](auto t) {
        using T = decltype(t);
        const Spec f = formatOf(kind);
        const typename T::ValueType raw = anyValue<T>();
        uint64_t mag;
        bool neg, inRange;
        splitValue<T>(raw, f, mag, neg, inRange);
        BitStreamWriter w{Span<uint8_t>()};
        const bool failed = spec::throws([&] { writeOne<T>(w, T(raw)); });
        zs_assert(failed == !inRange, "same range without a buffer");
        if (!failed)
        {
            uint8_t enc[16] = {};
            zs_assert(w.getBitPosition() == 8 * encode(f, mag, neg, enc), "counted size");
            zs_reach("counted");
        }
    });
}
