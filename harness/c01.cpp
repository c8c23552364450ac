// C01: fixed-width values land MSB first on exactly their bits and read back unchanged.
#include "common.h"

using namespace zserio;

namespace
{
const size_t N = 24;

struct Buf
{
    uint8_t now[N];
    uint8_t old[N];
    Buf()
    {
        zs_bytes(now, N, "buffer");
        memcpy(old, now, N);
    }
};

void checkWrite(Buf& b, BitStreamWriter& w, size_t pos, unsigned nb, uint64_t v)
{
    spec::put(b.old, pos, nb, v);
    zs_assert(w.getBitPosition() == pos + nb, "position advances by exactly the written width");
    zs_assert(spec::same(b.now, b.old, N), "value is stored MSB first and neighbouring bits are untouched");
    zs_reach("written");
}
} // namespace

// one write of any width at any bit offset into a buffer of arbitrary content
ENTRY h_write()
{
    Buf b;
    BitStreamWriter w(Span<uint8_t>(b.now, N));
    const unsigned kind = zs_param("kind");
    const size_t pos = zs_choose(0, 39, "pos");
    w.setBitPosition(pos);
    if (kind == 0)
    {
        const unsigned nb = zs_choose(1, 32, "numBits");
        const uint32_t v = zs_u32("value");
        zs_assume(spec::fitsU(v, nb));
        w.writeUnsignedBits32(v, nb);
        checkWrite(b, w, pos, nb, v);
    }
    else if (kind == 1)
    {
        const unsigned nb = zs_choose(1, 32, "numBits");
        const int32_t v = static_cast<int32_t>(zs_u32("value"));
        zs_assume(spec::fitsS(v, nb));
        w.writeSignedBits32(v, nb);
        checkWrite(b, w, pos, nb, static_cast<uint64_t>(static_cast<int64_t>(v)));
    }
    else if (kind == 2)
    {
        const unsigned nb = zs_choose(1, 64, "numBits");
        const uint64_t v = zs_u64("value");
        zs_assume(spec::fitsU(v, nb));
        w.writeUnsignedBits64(v, nb);
        checkWrite(b, w, pos, nb, v);
    }
    else if (kind == 3)
    {
        const unsigned nb = zs_choose(1, 64, "numBits");
        const int64_t v = static_cast<int64_t>(zs_u64("value"));
        zs_assume(spec::fitsS(v, nb));
        w.writeSignedBits64(v, nb);
        checkWrite(b, w, pos, nb, static_cast<uint64_t>(v));
    }
    else
    {
        const bool v = zs_bool("value");
        w.writeBool(Bool(v));
        checkWrite(b, w, pos, 1, v ? 1 : 0);
    }
}

// one read of any width at any bit offset, reached by repositioning or by a preceding read (cache states)
ENTRY h_read()
{
    uint8_t buf[N];
    zs_bytes(buf, N, "buffer");
    const unsigned kind = zs_param("kind");
    BitStreamReader r(buf, N);
    const size_t pos = zs_choose(0, 71, "pos");
    const unsigned how = zs_choose(0, 2, "how");
    if (how == 0)
    {
        r.setBitPosition(pos);
    }
    else if (how == 1)
    {
        if (pos >= 64)
            r.readUnsignedBits64(64);
        if (pos % 64 != 0)
            zs_assert(r.readUnsignedBits64(pos % 64) == spec::get(buf, pos / 64 * 64, pos % 64), "value of the read before");
    }
    else
    {
        for (size_t i = 0; i < pos; i += 23)
            r.readUnsignedBits32(pos - i < 23 ? pos - i : 23);
    }
    zs_assert(r.getBitPosition() == pos, "position before");
    unsigned nb = 1;
    if (kind == 0 || kind == 1)
        nb = zs_choose(1, 32, "numBits");
    else if (kind == 2 || kind == 3)
        nb = zs_choose(1, 64, "numBits");
    const uint64_t raw = spec::get(buf, pos, nb);
    if (kind == 0)
        zs_assert(r.readUnsignedBits32(nb) == raw, "unsigned value up to 32 bits");
    else if (kind == 1)
        zs_assert(r.readSignedBits32(nb) == spec::sext(raw, nb), "signed value up to 32 bits");
    else if (kind == 2)
        zs_assert(r.readUnsignedBits64(nb) == raw, "unsigned value up to 64 bits");
    else if (kind == 3)
        zs_assert(r.readSignedBits64(nb) == spec::sext(raw, nb), "signed value up to 64 bits");
    else
        zs_assert(static_cast<bool>(r.readBool()) == (raw != 0), "bool value");
    zs_assert(r.getBitPosition() == pos + nb, "position advances by exactly the read width");
    // what follows is still read correctly from the cache
    zs_assert(r.readUnsignedBits32(17) == spec::get(buf, pos + nb, 17), "following value");
    zs_reach("read");
}

// a sequence of writes followed by the same sequence of reads
ENTRY h_sequence()
{
    static const unsigned widths[] = {1, 3, 7, 8, 13, 31, 32, 33, 50, 64};
    Buf b;
    BitStreamWriter w(Span<uint8_t>(b.now, N));
    size_t pos = zs_choose(0, 7, "pos");
    w.setBitPosition(pos);
    unsigned nb[3];
    uint64_t v[3];
    size_t p = pos;
    for (int i = 0; i < 3; ++i)
    {
        nb[i] = widths[zs_choose(0, 9, "width")];
        if (p + nb[i] > N * 8)
            zs_stop();
        v[i] = zs_u64("value");
        zs_assume(spec::fitsU(v[i], nb[i]));
        if (i == 1)
        {
            const int64_t s = spec::sext(v[i], nb[i]);
            w.writeSignedBits64(s, nb[i]);
        }
        else
        {
            w.writeUnsignedBits64(v[i], nb[i]);
        }
        spec::put(b.old, p, nb[i], v[i]);
        p += nb[i];
    }
    zs_assert(spec::same(b.now, b.old, N), "the stream is the concatenation of the fields");
    BitStreamReader r(b.now, p, BitsTag());
    r.setBitPosition(pos);
    for (int i = 0; i < 3; ++i)
    {
        if (i == 1)
            zs_assert(r.readSignedBits64(nb[i]) == spec::sext(v[i], nb[i]), "signed field");
        else
            zs_assert(r.readUnsignedBits64(nb[i]) == v[i], "unsigned field");
    }
    zs_assert(r.getBitPosition() == p, "end position");
    zs_reach("sequence");
}

namespace
{
template <typename T>
void typed(unsigned bits, bool isSigned)
{
    using V = typename T::ValueType;
    Buf b;
    BitStreamWriter w(Span<uint8_t>(b.now, N));
    const size_t pos = zs_choose(0, 7, "pos");
    w.setBitPosition(pos);
    const uint64_t raw = zs_u64("value");
    zs_assume(spec::fitsU(raw, bits));
    const V v = isSigned ? static_cast<V>(spec::sext(raw, bits)) : static_cast<V>(raw);
    const T value(v);
    detail::write(w, value);
    checkWrite(b, w, pos, bits, raw);
    BitStreamReader r(b.now, N);
    r.setBitPosition(pos);
    T back;
    detail::read(r, back);
    zs_assert(static_cast<V>(back) == v, "typed value reads back");
    zs_assert(r.getBitPosition() == pos + bits, "typed read position");
    zs_reach("typed");
}

template <typename T>
void dynTyped(unsigned maxBits, bool isSigned)
{
    using V = typename T::ValueType;
    Buf b;
    BitStreamWriter w(Span<uint8_t>(b.now, N));
    const size_t pos = zs_choose(0, 7, "pos");
    const unsigned bits = zs_choose(1, maxBits, "numBits");
    w.setBitPosition(pos);
    const uint64_t raw = zs_u64("value");
    zs_assume(spec::fitsU(raw, bits));
    const V v = isSigned ? static_cast<V>(spec::sext(raw, bits)) : static_cast<V>(raw);
    const T value(v);
    detail::write(w, value, static_cast<uint8_t>(bits));
    checkWrite(b, w, pos, bits, raw);
    BitStreamReader r(b.now, N);
    r.setBitPosition(pos);
    T back;
    detail::read(r, back, static_cast<uint8_t>(bits));
    zs_assert(static_cast<V>(back) == v, "dynamic width value reads back");
    zs_assert(r.getBitPosition() == pos + bits, "dynamic width read position");
    zs_reach("typed");
}

template <size_t... I>
void dispatchFixed(unsigned k, std::index_sequence<I...>)
{
    (void)((k == I ? (typed<Int<I + 1>>(I + 1, true), true) : k == I + 64 ? (typed<UInt<I + 1>>(I + 1, false), true) : false) || ...);
}
} // namespace

// every fixed-width integer type, signed and unsigned, 1 to 64 bits
ENTRY h_types()
{
    const unsigned g = zs_param("group");
    dispatchFixed(zs_choose(g * 16, g * 16 + 15, "type"), std::make_index_sequence<64>());
}

// every dynamic-width integer type and width
ENTRY h_dyntypes()
{
    switch (zs_param("type"))
    {
    case 0: dynTyped<DynInt8>(8, true); break;
    case 1: dynTyped<DynInt16>(16, true); break;
    case 2: dynTyped<DynInt32>(32, true); break;
    case 3: dynTyped<DynInt64>(64, true); break;
    case 4: dynTyped<DynUInt8>(8, false); break;
    case 5: dynTyped<DynUInt16>(16, false); break;
    case 6: dynTyped<DynUInt32>(32, false); break;
    default: dynTyped<DynUInt64>(64, false); break;
    }
}
