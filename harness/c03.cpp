// C03: readers on arbitrary bytes: memory safe, exact end-of-stream decision, consistent state after a failure.
#include "common.h"

#include <memory>

using namespace zserio;

namespace
{
struct Stream
{
    size_t cap;
    size_t bytes;
    std::unique_ptr<uint8_t[]> data;
    std::unique_ptr<BitStreamReader> r;

    explicit Stream(size_t bits) : cap(bits), bytes((bits + 7) / 8), data(new uint8_t[(bits + 7) / 8])
    {
        zs_bytes(data.get(), bytes, "buffer");
        r.reset(new BitStreamReader(data.get(), cap, BitsTag()));
    }
};

// one operation with its expectation; pos is the specified position and is advanced
void step(Stream& s, size_t& pos, unsigned op)
{
    static const unsigned widths[] = {1, 4, 7, 8, 11, 16, 25, 32, 33, 57, 63, 64};
    const uint8_t* d = s.data.get();
    BitStreamReader& r = *s.r;
    bool failed = false;
    size_t need = 0;
    uint64_t got = 0, want = 0;
    if (op < 12)
    {
        need = widths[op];
        const bool fits = pos + need <= s.cap;
        want = fits ? spec::get(d, pos, need) : 0;
        failed = spec::throws([&] {
            if (need > 32)
                got = (op & 1U) != 0 ? r.readUnsignedBits64(need)
                                     : static_cast<uint64_t>(r.readSignedBits64(need)) & (need == 64 ? ~UINT64_C(0) : (UINT64_C(1) << need) - 1);
            else
                got = (op & 1U) != 0 ? r.readUnsignedBits32(need)
                                     : static_cast<uint64_t>(r.readSignedBits32(need)) & ((UINT64_C(1) << need) - 1);
        });
        zs_assert(failed == !fits, "a read succeeds exactly when its bits are in the stream");
        if (!failed)
        {
            zs_assert(got == want, "value read");
            pos += need;
        }
    }
    else if (op == 12)
    {
        size_t to = 0;
        switch (zs_choose(0, 4, "to"))
        {
        case 0: to = s.cap / 2 + 1; break;
        case 1: to = s.cap; break;
        case 2: to = s.cap + 1; break;
        case 3: to = pos / 8 * 8 + 3; break;
        default: to = s.cap > 70 ? 67 : 0; break;
        }
        failed = spec::throws([&] { r.setBitPosition(to); });
        zs_assert(failed == (to > s.cap), "repositioning fails exactly beyond the end");
        if (!failed)
            pos = to;
    }
    else if (op == 13)
    {
        const size_t al = zs_choose(1, 3, "alignment") * 8;
        const size_t to = (pos + al - 1) / al * al;
        failed = spec::throws([&] { r.alignTo(al); });
        zs_assert(failed == (to > s.cap), "alignment fails exactly beyond the end");
        if (!failed)
            pos = to;
    }
    else
    {
        const unsigned bad = zs_choose(0, 1, "bad") != 0 ? 0 : 65;
        failed = spec::throws([&] {
            if (zs_choose(0, 1, "signed") != 0)
                r.readSignedBits64(bad);
            else
                r.readUnsignedBits64(bad);
        });
        zs_assert(failed, "unsupported widths are rejected");
    }
    zs_reach(failed ? "rejected" : "accepted");
    zs_assert(r.getBitPosition() == pos, "position after the operation");
}
} // namespace

// sequences of three operations
ENTRY h_ops()
{
    static const unsigned caps[] = {0, 5, 8, 13, 61, 64, 66, 75, 128, 131};
    Stream s(caps[zs_param("cap")]);
    size_t pos = 0;
    step(s, pos, zs_choose(0, 14, "op"));
    step(s, pos, zs_choose(0, 14, "op"));
    step(s, pos, zs_choose(0, 14, "op"));
}

// from every position of streams of every length, every width, then whatever is left is still readable
ENTRY h_end()
{
    Stream s(zs_choose(zs_param("cap"), zs_param("cap") + 7, "capacity"));
    const size_t left = zs_choose(0, s.cap < 66 ? s.cap : 66, "left");
    size_t pos = s.cap - left;
    s.r->setBitPosition(pos);
    const unsigned nb = zs_choose(1, 64, "numBits");
    uint64_t v = 0;
    const bool failed = spec::throws([&] { v = s.r->readUnsignedBits64(nb); });
    zs_assert(failed == (nb > left), "a read succeeds exactly when its bits are in the stream");
    if (!failed)
    {
        zs_assert(v == spec::get(s.data.get(), pos, nb), "value read");
        pos += nb;
        zs_reach("accepted");
    }
    else
    {
        zs_reach("rejected");
    }
    zs_assert(s.r->getBitPosition() == pos, "position after the operation");
    const size_t rest = s.cap - pos;
    if (rest > 0 && rest <= 64)
        zs_assert(s.r->readUnsignedBits64(rest) == spec::get(s.data.get(), pos, rest), "the rest of the stream");
    zs_assert(spec::throws([&] { s.r->readBool(); }) || rest > 64, "nothing behind the end");
}

// the same with the read cache in an arbitrary state before the failing read
ENTRY h_cache()
{
    Stream s(zs_choose(zs_param("cap"), zs_param("cap") + 7, "capacity"));
    const unsigned first = zs_choose(1, 64, "first");
    size_t pos = 0;
    if (!spec::throws([&] { s.r->readUnsignedBits64(first); }))
        pos = first;
    const unsigned nb = zs_choose(1, 64, "numBits");
    uint64_t v = 0;
    const bool failed = spec::throws([&] { v = s.r->readUnsignedBits64(nb); });
    zs_assert(failed == (pos + nb > s.cap), "a read succeeds exactly when its bits are in the stream");
    if (!failed)
    {
        zs_assert(v == spec::get(s.data.get(), pos, nb), "value read");
        pos += nb;
        zs_reach("accepted");
    }
    else
    {
        zs_reach("rejected");
    }
    zs_assert(s.r->getBitPosition() == pos, "position after the operation");
    if (pos < s.cap)
        zs_assert(s.r->readUnsignedBits32(1) == spec::bit(s.data.get(), pos), "the next bit");
}

// compound reads (variable length numbers, floats, bytes, strings, bit buffers) on arbitrary bytes
ENTRY h_compound()
{
    Stream s(zs_choose(0, zs_param("kind") < 12 ? 9 : 5, "bytes") * 8 + zs_choose(0, 1, "odd") * 3);
    const size_t start = zs_choose(0, s.cap < 9 ? s.cap : 9, "start");
    s.r->setBitPosition(start);
    BitStreamReader& r = *s.r;
    const unsigned kind = zs_param("kind");
    zs_alloc_limit(1024, true); // the exception object itself takes about 600 bytes
    const bool failed = spec::throws([&] {
        switch (kind)
        {
        case 0: r.readVarInt16(); break;
        case 1: r.readVarInt32(); break;
        case 2: r.readVarInt64(); break;
        case 3: r.readVarInt(); break;
        case 4: r.readVarUInt16(); break;
        case 5: r.readVarUInt32(); break;
        case 6: r.readVarUInt64(); break;
        case 7: r.readVarUInt(); break;
        case 8: r.readVarSize(); break;
        case 9: r.readFloat16(); break;
        case 10: r.readFloat32(); break;
        case 11: r.readFloat64(); break;
        case 12: { auto b = r.readBytes(); zs_assert(b.size() * 8 <= s.cap, "size of bytes"); break; }
        case 13: { auto b = r.readString(); zs_assert(b.size() * 8 <= s.cap, "size of string"); break; }
        default: { auto b = r.readBitBuffer(); zs_assert(b.getBitSize() <= s.cap, "size of bit buffer"); break; }
        }
    });
    zs_reach(failed ? "rejected" : "accepted");
    const size_t pos = r.getBitPosition();
    zs_assert(pos >= start && pos <= s.cap, "position stays inside the stream");
    const size_t p = zs_concretize(pos);
    if (p < s.cap)
        zs_assert(r.readUnsignedBits32(1) == spec::bit(s.data.get(), p), "the next bit");
}
