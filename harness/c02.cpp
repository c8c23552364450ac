// C02: writes that cannot be represented or do not fit are rejected; nothing outside the bit capacity is modified.
#include "common.h"

#include <memory>
#include <vector>

using namespace zserio;

namespace
{
// returns 0 accepted, 1 rejected, 2 rejected for insufficient capacity
template <typename F>
int outcome(F&& f)
{
    try
    {
        f();
    }
    catch (const BitStreamWriter::InsufficientCapacityException&)
    {
        return 2;
    }
    catch (const CppRuntimeException&)
    {
        return 1;
    }
    return 0;
}
} // namespace

// every width argument 0..255 and every value: accepted exactly when the value is representable
ENTRY h_reject()
{
    const size_t N = 16;
    uint8_t now[N];
    uint8_t old[N];
    zs_bytes(now, N, "buffer");
    memcpy(old, now, N);
    const bool counting = zs_param("counting");
    BitStreamWriter w(counting ? Span<uint8_t>() : Span<uint8_t>(now, N));
    const size_t pos = zs_choose(0, 9, "pos");
    w.setBitPosition(pos);
    const unsigned kind = zs_param("kind");
    const unsigned nb = zs_choose(0, 255, "numBits");
    int o;
    bool ok;
    uint64_t raw;
    if (kind == 0)
    {
        const uint32_t v = zs_u32("value");
        ok = nb >= 1 && nb <= 32 && spec::fitsU(v, nb);
        raw = v;
        o = outcome([&] { w.writeUnsignedBits32(v, nb); });
    }
    else if (kind == 1)
    {
        const int32_t v = static_cast<int32_t>(zs_u32("value"));
        ok = nb >= 1 && nb <= 32 && spec::fitsS(v, nb);
        raw = static_cast<uint64_t>(static_cast<int64_t>(v));
        o = outcome([&] { w.writeSignedBits32(v, nb); });
    }
    else if (kind == 2)
    {
        const uint64_t v = zs_u64("value");
        ok = nb >= 1 && nb <= 64 && spec::fitsU(v, nb);
        raw = v;
        o = outcome([&] { w.writeUnsignedBits64(v, nb); });
    }
    else
    {
        const int64_t v = static_cast<int64_t>(zs_u64("value"));
        ok = nb >= 1 && nb <= 64 && spec::fitsS(v, nb);
        raw = static_cast<uint64_t>(v);
        o = outcome([&] { w.writeSignedBits64(v, nb); });
    }
    zs_assert((o == 0) == ok, "a write is accepted exactly when width and value are representable");
    zs_assert(o != 2, "there is room for every width");
    if (o == 0)
    {
        zs_reach("accepted");
        zs_assert(w.getBitPosition() == pos + nb, "position of an accepted write");
        if (!counting)
            spec::put(old, pos, nb, raw);
    }
    else
    {
        zs_reach("rejected");
        zs_assert(w.getBitPosition() == pos, "a rejected write does not move the position");
    }
    zs_assert(spec::same(now, old, N), "buffer content");
}

// bit capacity: 0..72 bits on an exactly sized heap buffer, every kind of write
ENTRY h_capacity()
{
    static const unsigned caps[] = {0, 1, 3, 7, 8, 9, 12, 16, 17, 31, 32, 33, 40, 63, 64, 65, 71, 72};
    static const unsigned widths[] = {1, 2, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 40, 63, 64};
    const size_t cap = caps[zs_choose(0, 17, "capacity")];
    const size_t bytes = (cap + 7) / 8;
    std::unique_ptr<uint8_t[]> now(new uint8_t[bytes + 1]);
    uint8_t* exact = new uint8_t[bytes];
    std::unique_ptr<uint8_t[]> guard(exact);
    uint8_t old[16];
    zs_bytes(exact, bytes, "buffer");
    memcpy(old, exact, bytes);
    const unsigned kind = zs_param("kind");
    std::unique_ptr<BitStreamWriter> wp;
    if (zs_choose(0, 1, "constructor") == 0)
        wp.reset(new BitStreamWriter(exact, cap, BitsTag()));
    else
        wp.reset(new BitStreamWriter(Span<uint8_t>(exact, bytes), cap));
    BitStreamWriter& w = *wp;
    zs_assert(w.getBufferBitSize() == cap, "reported capacity");
    const size_t low = cap > 66 ? cap - 66 : 0;
    const size_t pos = zs_choose(low, cap, "pos");
    w.setBitPosition(pos);
    size_t need;
    int o;
    uint64_t v = 0;
    if (kind == 0) // fixed width
    {
        need = widths[zs_choose(0, 14, "width")];
        v = zs_u64("value");
        zs_assume(spec::fitsU(v, need));
        o = outcome([&] {
            if (need <= 32)
                w.writeUnsignedBits32(static_cast<uint32_t>(v), need);
            else
                w.writeUnsignedBits64(v, need);
        });
    }
    else if (kind == 1) // signed, bool, float
    {
        switch (zs_choose(0, 4, "op"))
        {
        case 0: need = 1; o = outcome([&] { w.writeBool(true); }); break;
        case 1: need = 16; o = outcome([&] { w.writeFloat16(Float16(1.0F)); }); break;
        case 2: need = 32; o = outcome([&] { w.writeFloat32(Float32(1.0F)); }); break;
        case 3: need = 64; o = outcome([&] { w.writeFloat64(Float64(1.0)); }); break;
        default: need = 33; o = outcome([&] { w.writeSignedBits64(-1, 33); }); break;
        }
    }
    else if (kind == 2) // variable length
    {
        const uint64_t u = zs_choose(0, 3, "size") * 2 + 1;
        v = UINT64_C(1) << (u * 7 - 1);
        need = u * 8;
        o = outcome([&] { w.writeVarUInt(VarUInt(v)); });
    }
    else if (kind == 3) // bytes, string, bit buffer
    {
        uint8_t data[4];
        zs_bytes(data, 4, "data");
        const size_t len = zs_choose(0, 4, "len");
        switch (zs_choose(0, 2, "op"))
        {
        case 0:
            need = 8 + len * 8;
            o = outcome([&] { w.writeBytes(BytesView(data, len)); });
            break;
        case 1:
            need = 8 + len * 8;
            o = outcome([&] { w.writeString(std::string_view(reinterpret_cast<const char*>(data), len)); });
            break;
        default:
        {
            const size_t rest = zs_choose(0, len == 0 ? 0 : 7, "rest");
            BitBuffer bb(Span<const uint8_t>(data, len), len * 8 - rest);
            need = 8 + len * 8 - rest;
            o = outcome([&] { w.writeBitBuffer(bb); });
            break;
        }
        }
    }
    else // repositioning
    {
        const size_t to = zs_choose(0, cap + 3, "to");
        o = outcome([&] { w.setBitPosition(to); });
        zs_assert((o == 0) == (to <= cap) && o != 1, "repositioning beyond the capacity is rejected");
        zs_assert(w.getBitPosition() == (to <= cap ? to : pos), "position after repositioning");
        zs_assert(spec::same(exact, old, bytes), "repositioning does not modify the buffer");
        zs_reach("fits");
        zs_reach("full");
        return;
    }
    if (pos + need <= cap)
    {
        zs_assert(o == 0, "a write that fits is accepted");
        zs_assert(w.getBitPosition() == pos + need, "position of an accepted write");
        zs_reach("fits");
    }
    else
    {
        zs_assert(o == 2, "a write that does not fit is rejected for insufficient capacity");
        zs_assert(w.getBitPosition() <= cap, "position never exceeds the capacity");
        if (kind < 2)
        {
            zs_assert(w.getBitPosition() == pos, "a rejected fixed width write does not move the position");
            zs_assert(spec::same(exact, old, bytes), "a rejected fixed width write does not modify the buffer");
        }
        zs_reach("full");
    }
    bool keep = true;
    for (size_t i = 0; i < pos; ++i)
        keep = keep & (spec::bit(exact, i) == spec::bit(old, i));
    for (size_t i = cap; i < bytes * 8; ++i)
        keep = keep & (spec::bit(exact, i) == spec::bit(old, i));
    zs_assert(keep, "bits before the start and beyond the capacity are untouched");
    if (pos + need <= cap)
    {
        bool tail = true;
        for (size_t i = pos + need; i < cap; ++i)
            tail = tail & (spec::bit(exact, i) == spec::bit(old, i));
        zs_assert(tail, "bits behind the written value are untouched");
    }
}

// a buffer with explicit bit size is accepted exactly when the bytes are there
ENTRY h_constructor()
{
    uint8_t buf[9];
    zs_bytes(buf, 9, "buffer");
    const size_t size = zs_choose(0, 9, "bytes");
    const uint64_t bits = zs_u64("bits");
    const uint64_t bytesNeeded = bits / 8 + (bits % 8 != 0);
    if (zs_param("reader") == 0)
    {
        const int o = outcome([&] {
            BitStreamWriter w(Span<uint8_t>(buf, size), bits);
            zs_assert(w.getBufferBitSize() == bits && w.getBitPosition() == 0, "fresh writer");
        });
        zs_assert((o == 0) == (bytesNeeded <= size), "writer accepts the buffer exactly when it holds the bits");
        zs_reach(o == 0 ? "accepted" : "rejected");
    }
    else
    {
        const int o = outcome([&] {
            BitStreamReader r(Span<const uint8_t>(buf, size), bits);
            zs_assert(r.getBufferBitSize() == bits && r.getBitPosition() == 0, "fresh reader");
        });
        zs_assert((o == 0) == (bytesNeeded <= size), "reader accepts the buffer exactly when it holds the bits");
        zs_reach(o == 0 ? "accepted" : "rejected");
    }
}
