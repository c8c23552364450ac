// C06: byte arrays, strings and bit buffers on the wire.
#include "common.h"

#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/String.h"

using namespace zserio;

namespace
{
const size_t N = 180;

// length prefix as documented for sizes below 2^14
unsigned putSize(uint8_t* p, size_t pos, uint32_t size)
{
    if (size < 128)
    {
        spec::put(p, pos, 8, size);
        return 8;
    }
    spec::put(p, pos, 16, ((0x80U | (size >> 7)) << 8) | (size & 127U));
    return 16;
}

template <typename V>
bool sameContent(const V& v, const uint8_t* d, size_t n)
{
    bool ok = v.size() == n;
    if (ok)
        for (size_t i = 0; i < n; ++i)
            ok = ok & (static_cast<uint8_t>(v[i]) == d[i]);
    return ok;
}

size_t chooseLength(unsigned mode)
{
    if (mode == 0)
        return zs_choose(0, 9, "length");
    return zs_choose(126, 130, "length");
}
} // namespace

ENTRY h_bytes_string()
{
    const unsigned mode = zs_param("mode");
    const size_t len = chooseLength(mode);
    uint8_t data[136];
    zs_bytes(data, len, "data");
    uint8_t now[N], want[N];
    zs_bytes(now, len + 6, "buffer");
    memcpy(want, now, len + 6);
    const size_t pos = mode == 0 ? zs_choose(0, 15, "pos") : zs_choose(0, 1, "pos") * 5 + 3 * zs_param("string");
    const bool isString = zs_param("string");
    BitStreamWriter w(Span<uint8_t>(now, len + 6));
    w.setBitPosition(pos);
    const std::string_view sv(reinterpret_cast<const char*>(data), len);
    const BytesView bv(data, len);
    const bool typed = mode == 0 && zs_choose(0, 1, "typed") != 0;
    if (isString)
        typed ? detail::write(w, sv) : w.writeString(sv);
    else
        typed ? detail::write(w, bv) : w.writeBytes(bv);
    size_t p = pos + putSize(want, pos, len);
    for (size_t i = 0; i < len; ++i)
        spec::put(want, p + i * 8, 8, data[i]);
    p += len * 8;
    zs_assert(spec::same(now, want, len + 6), "length prefix followed by the raw bytes");
    zs_assert(w.getBitPosition() == p, "position after the write");
    zs_assert((isString ? detail::bitSizeOf(sv, 0) : detail::bitSizeOf(bv, 0)) == p - pos, "reported size");
    BitStreamReader r(now, p, BitsTag());
    r.setBitPosition(pos);
    if (isString)
    {
        String s;
        if (typed)
            detail::read(r, s);
        else
            s = r.readString();
        zs_assert(sameContent(s, data, len), "string reads back");
    }
    else
    {
        Bytes b;
        if (typed)
            detail::read(r, b);
        else
            b = r.readBytes();
        zs_assert(sameContent(b, data, len), "bytes read back");
    }
    zs_assert(r.getBitPosition() == p, "position after the read");
    zs_reach("roundtrip");
    // one bit less in the stream
    BitStreamReader cut(now, p - 1, BitsTag());
    cut.setBitPosition(pos);
    zs_assert(spec::throws([&] {
        if (isString)
            cut.readString();
        else
            cut.readBytes();
    }),
            "a truncated value is rejected");
}

ENTRY h_bitbuffer()
{
    const size_t bits = zs_param("mode") == 0 ? zs_choose(0, 40, "bitSize") : zs_choose(125, 137, "bitSize");
    const size_t bytes = (bits + 7) / 8;
    const size_t spare = zs_choose(0, 1, "spare"); // storage longer than needed
    uint8_t data[20];
    zs_bytes(data, bytes + spare, "data");
    const BitBuffer bb(Span<const uint8_t>(data, bytes + spare), bits);
    zs_assert(bb.getBitSize() == bits && bb.getByteSize() == bytes, "sizes of the bit buffer");
    uint8_t now[28], want[28];
    zs_bytes(now, bytes + 6, "buffer");
    memcpy(want, now, bytes + 6);
    const size_t pos = zs_choose(0, 9, "pos");
    BitStreamWriter w(Span<uint8_t>(now, bytes + 6));
    w.setBitPosition(pos);
    const bool typed = zs_choose(0, 1, "typed") != 0;
    if (typed)
        detail::write(w, BitBufferView(bb));
    else
        w.writeBitBuffer(bb);
    size_t p = pos + putSize(want, pos, bits);
    for (size_t i = 0; i < bits; ++i)
        spec::setBit(want, p + i, spec::bit(data, i));
    p += bits;
    zs_assert(spec::same(now, want, bytes + 6), "bit size prefix followed by the bits");
    zs_assert(w.getBitPosition() == p, "position after the write");
    zs_assert(detail::bitSizeOf(BitBufferView(bb), 0) == p - pos, "reported size");
    zs_assert(detail::initializeOffsets(BitBufferView(bb), 3) == p - pos, "offsets advance by the size");
    BitStreamReader r(now, p, BitsTag());
    r.setBitPosition(pos);
    BitBuffer back;
    if (typed)
        detail::read(r, back);
    else
        back = r.readBitBuffer();
    bool ok = back.getBitSize() == bits;
    for (size_t i = 0; i < bits && ok; ++i)
        ok = ok & (spec::bit(back.getBuffer(), i) == spec::bit(data, i));
    zs_assert(ok, "bits read back");
    zs_assert(back == bb, "bit buffers compare equal");
    zs_assert(r.getBitPosition() == p, "position after the read");
    zs_reach("roundtrip");
    if (p > pos)
    {
        BitStreamReader cut(now, p - 1, BitsTag());
        cut.setBitPosition(pos);
        zs_assert(spec::throws([&] { cut.readBitBuffer(); }), "a truncated value is rejected");
    }
}

// several values one after the other, read back with preceding odd fields so that every alignment occurs
ENTRY h_mixed()
{
    uint8_t now[32];
    zs_bytes(now, 32, "buffer");
    uint8_t data[6];
    zs_bytes(data, 6, "data");
    const size_t l1 = zs_choose(0, 3, "l1");
    const size_t l2 = zs_choose(0, 3, "l2");
    const size_t odd = zs_choose(1, 8, "odd");
    BitStreamWriter w(Span<uint8_t>(now, 32));
    w.writeUnsignedBits32(0, odd);
    w.writeString(std::string_view(reinterpret_cast<const char*>(data), l1));
    const BitBuffer bb(Span<const uint8_t>(data, 6), 19 + l2);
    w.writeBitBuffer(bb);
    w.writeBytes(BytesView(data + 3, l2));
    w.writeUnsignedBits32(5, 3);
    const size_t end = w.getBitPosition();
    zs_assert(end == odd + 8 + 8 * l1 + 8 + 19 + l2 + 8 + 8 * l2 + 3, "total size");
    BitStreamReader r(now, end, BitsTag());
    zs_assert(r.readUnsignedBits32(odd) == 0, "first field");
    zs_assert(sameContent(r.readString(), data, l1), "string");
    zs_assert(r.readBitBuffer() == bb, "bit buffer");
    zs_assert(sameContent(r.readBytes(), data + 3, l2), "bytes");
    zs_assert(r.readUnsignedBits32(3) == 5, "last field");
    zs_assert(r.getBitPosition() == end, "end");
    zs_reach("mixed");
}
