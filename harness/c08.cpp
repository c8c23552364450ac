// C08: predicted sizes equal the bits actually written, for every built-in type.
#include "common.h"

#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/String.h"

using namespace zserio;

namespace
{
template <typename T>
void checkSize(const T& value, size_t maxBytes)
{
    uint8_t buf[64];
    zs_bytes(buf, maxBytes, "buffer");
    const size_t pos = zs_choose(0, 8, "pos");
    BitStreamWriter w(Span<uint8_t>(buf, maxBytes));
    w.setBitPosition(pos);
    BitStreamWriter c{Span<uint8_t>()};
    c.setBitPosition(pos);
    const bool f1 = spec::throws([&] { detail::write(w, value); });
    const bool f2 = spec::throws([&] { detail::write(c, value); });
    size_t size = 0, off = 0;
    const bool f3 = spec::throws([&] { size = detail::bitSizeOf(value, static_cast<BitSize>(pos)); });
    const bool f4 = spec::throws([&] { off = detail::initializeOffsets(value, static_cast<BitSize>(pos)); });
    zs_assert(f1 == f2 && f3 == f4 && f1 == f3, "all agree on which values are writable");
    if (f1)
    {
        zs_reach("unwritable");
        return;
    }
    zs_assert(w.getBitPosition() - pos == size, "size is the number of bits written");
    zs_assert(c.getBitPosition() == w.getBitPosition(), "writer without buffer counts the same");
    zs_assert(off == size, "offset calculation advances by the size");
    zs_assert(!spec::throws([&] { detail::validate(value, "field"); }), "writable values validate");
    zs_reach("sized");
}

template <size_t... I>
void fixed(unsigned k, std::index_sequence<I...>)
{
    const uint64_t raw = zs_u64("value");
    (void)((k == I ? (zs_assume(spec::fitsU(raw, I + 1)),
                             checkSize(Int<I + 1>(static_cast<typename Int<I + 1>::ValueType>(spec::sext(raw, I + 1))), 12), true)
                   : k == I + 64 ? (zs_assume(spec::fitsU(raw, I + 1)),
                                           checkSize(UInt<I + 1>(static_cast<typename UInt<I + 1>::ValueType>(raw)), 12), true)
                                 : false) ||
            ...);
}
} // namespace

ENTRY h_fixed()
{
    const unsigned g = zs_param("group");
    fixed(zs_choose(g * 16, g * 16 + 15, "type"), std::make_index_sequence<64>());
}

ENTRY h_var()
{
    const uint64_t raw = zs_u64("value");
    switch (zs_param("type"))
    {
    case 0: checkSize(VarInt16(static_cast<int16_t>(raw)), 12); break;
    case 1: checkSize(VarInt32(static_cast<int32_t>(raw)), 12); break;
    case 2: checkSize(VarInt64(static_cast<int64_t>(raw)), 12); break;
    case 3: checkSize(VarInt(static_cast<int64_t>(raw)), 12); break;
    case 4: checkSize(VarUInt16(static_cast<uint16_t>(raw)), 12); break;
    case 5: checkSize(VarUInt32(static_cast<uint32_t>(raw)), 12); break;
    case 6: checkSize(VarUInt64(raw), 12); break;
    case 7: checkSize(VarUInt(raw), 12); break;
    case 8: checkSize(VarSize(static_cast<uint32_t>(raw)), 12); break;
    case 9: checkSize(Bool((raw & 1U) != 0), 12); break;
    case 10:
    {
        float f;
        const uint32_t b = static_cast<uint32_t>(raw);
        memcpy(&f, &b, 4);
        checkSize(Float16(f), 12);
        break;
    }
    case 11:
    {
        float f;
        const uint32_t b = static_cast<uint32_t>(raw);
        memcpy(&f, &b, 4);
        checkSize(Float32(f), 12);
        break;
    }
    default:
    {
        double d;
        memcpy(&d, &raw, 8);
        checkSize(Float64(d), 12);
        break;
    }
    }
}

ENTRY h_blob()
{
    uint8_t data[24];
    const size_t len = zs_choose(0, 20, "length");
    zs_bytes(data, len, "data");
    switch (zs_param("type"))
    {
    case 0: checkSize(BytesView(data, len), 40); break;
    case 1: checkSize(std::string_view(reinterpret_cast<const char*>(data), len), 40); break;
    default:
    {
        const size_t rest = zs_choose(0, len == 0 ? 0 : 7, "rest");
        const BitBuffer bb(Span<const uint8_t>(data, len), len * 8 - rest);
        checkSize(BitBufferView(bb), 40);
        break;
    }
    }
}

// every length: predicted and counted size of byte arrays and strings, up to what 32-bit sizes can express
ENTRY h_long()
{
    const uint64_t len = zs_u64("length");
    const uint8_t dummy = 0;
    const bool str = zs_param("string");
    const std::string_view sv(reinterpret_cast<const char*>(&dummy), len);
    const BytesView bv(&dummy, len);
    BitStreamWriter c{Span<uint8_t>()};
    const size_t pos = zs_choose(0, 3, "byte") * 8;
    const bool wide = len >= 128; // byte position stays aligned either way
    (void)wide;
    c.setBitPosition(pos);
    size_t size = 0;
    const bool f3 = spec::throws([&] { size = str ? detail::bitSizeOf(sv, 0) : detail::bitSizeOf(bv, 0); });
    const bool f2 = spec::throws([&] {
        if (str)
            c.writeString(sv);
        else
            c.writeBytes(bv);
    });
    const bool tooLong = len > 0x7FFFFFFFU;
    zs_assert(f2 == tooLong && f3 == tooLong, "lengths are limited to 31 bits");
    if (tooLong)
    {
        zs_reach("toolong");
        return;
    }
    const uint64_t prefix = len < (1U << 7) ? 8 : len < (1U << 14) ? 16 : len < (1U << 21) ? 24 : len < (1U << 28) ? 32 : 40;
    zs_assert(c.getBitPosition() == pos + prefix + len * 8, "counted size");
    if (len < (UINT64_C(1) << 29) - 8)
    {
        zs_assert(size == prefix + len * 8, "predicted size");
        zs_reach("long");
    }
}
