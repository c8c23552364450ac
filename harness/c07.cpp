// C07: alignment and repositioning.
#include "common.h"

#include "zserio/BitPositionUtil.h"

using namespace zserio;

namespace
{
const size_t N = 80;
size_t chooseAlignment()
{
    static const unsigned large[] = {24, 32, 48, 63, 64, 65, 72, 100, 128, 129, 200, 255, 256, 257, 300, 320, 512, 600};
    const unsigned i = zs_choose(1, 35, "alignment");
    return i <= 17 ? i : large[i - 18];
}
} // namespace

ENTRY h_align()
{
    uint8_t now[N], want[N];
    zs_bytes(now, N, "buffer");
    memcpy(want, now, N);
    const size_t al = chooseAlignment();
    const size_t pos = zs_choose(zs_param("from"), zs_param("from") + 39, "pos");
    size_t to = pos;
    while (to % al != 0)
        ++to;
    const size_t cap = zs_choose(0, 1, "capacity") == 0 ? N * 8 : 300;
    zs_assume(pos <= cap);
    // writer
    BitStreamWriter w(Span<uint8_t>(now, N), cap);
    w.setBitPosition(pos);
    const bool failed = spec::throws([&] { w.alignTo(al); });
    zs_assert(failed == (to > cap), "aligning fails exactly when the boundary is beyond the capacity");
    if (!failed)
    {
        for (size_t i = pos; i < to; ++i)
            spec::setBit(want, i, 0);
        zs_assert(w.getBitPosition() == to, "writer stops at the next multiple");
        zs_assert(spec::same(now, want, N), "padding is zero bits and nothing else is touched");
        zs_reach("aligned");
    }
    else
    {
        zs_reach("beyond");
        zs_assert(spec::same(now, want, N) && w.getBitPosition() == pos, "a rejected alignment changes nothing");
    }
    // counting writer
    BitStreamWriter c{Span<uint8_t>()};
    c.setBitPosition(pos);
    c.alignTo(al);
    zs_assert(c.getBitPosition() == to, "writer without buffer counts the padding");
    zs_assert(alignTo(static_cast<BitSize>(al), static_cast<BitSize>(pos)) == to, "size calculation agrees");
    // reader
    BitStreamReader r(now, cap, BitsTag());
    r.setBitPosition(pos);
    zs_assert(spec::throws([&] { r.alignTo(al); }) == (to > cap), "reader fails exactly beyond the end");
    if (to <= cap)
    {
        zs_assert(r.getBitPosition() == to, "reader stops at the next multiple");
        if (to + 9 <= cap)
            zs_assert(r.readUnsignedBits32(9) == spec::get(now, to, 9), "value behind the alignment");
    }
}

// size calculation for all values: the smallest multiple not below the position
ENTRY h_size()
{
    const BitSize al = static_cast<BitSize>(chooseAlignment());
    const BitSize pos = zs_u32("pos");
    zs_assume((al & (al - 1)) == 0 ? pos < 0xFFFFF000U : pos < 700U);
    const BitSize to = alignTo(al, pos);
    zs_assert(to % al == 0, "multiple of the alignment");
    zs_assert(to >= pos && to - pos < al, "nearest one at or behind the position");
    zs_reach("size");
}

// going back to patch a field (as for offsets) and forward again
ENTRY h_patch()
{
    uint8_t now[16], want[16];
    zs_bytes(now, 16, "buffer");
    memcpy(want, now, 16);
    BitStreamWriter w(Span<uint8_t>(now, 16));
    const size_t at = zs_choose(0, 20, "at");
    const size_t nb = zs_choose(1, 33, "numBits");
    const size_t end = zs_choose(0, 7, "end") + 70;
    const uint64_t v = zs_u64("value");
    zs_assume(spec::fitsU(v, nb));
    w.setBitPosition(end);
    w.setBitPosition(at);
    w.writeUnsignedBits64(v, nb);
    w.setBitPosition(end);
    w.writeUnsignedBits32(0x155, 9);
    spec::put(want, at, nb, v);
    spec::put(want, end, 9, 0x155);
    zs_assert(spec::same(now, want, 16), "only the patched fields change");
    BitStreamReader r(now, 16);
    r.setBitPosition(end);
    zs_assert(r.readUnsignedBits32(9) == 0x155, "later field first");
    r.setBitPosition(at);
    zs_assert(r.readUnsignedBits64(nb) == v, "then the earlier one");
    r.setBitPosition(end + 2);
    zs_assert(r.readUnsignedBits32(7) == (0x155 & 0x7F), "and forward again");
    zs_reach("patched");
}

// from any position, after any read which filled the cache, to any other position, including beyond the end
ENTRY h_jump()
{
    uint8_t data[24];
    zs_bytes(data, 24, "data");
    const size_t lengths[6] = {63, 72, 80, 125, 136, 192};
    const size_t n = lengths[zs_param("length")];
    const size_t from = zs_choose(0, n, "from");
    const size_t widths[4] = {0, 1, 9, 64};
    const size_t nb = widths[zs_choose(0, 3, "numBits")];
    zs_assume(from + nb <= n);
    const size_t to = zs_choose(0, n + 3, "to");
    BitStreamReader r(data, n, BitsTag());
    r.setBitPosition(from);
    if (nb > 0)
        (void)r.readUnsignedBits64(static_cast<uint8_t>(nb));
    const bool failed = spec::throws([&] { r.setBitPosition(to); });
    zs_assert(failed == (to > n), "going beyond the end fails");
    const size_t at = failed ? from + nb : to;
    zs_assert(r.getBitPosition() == at, "position as set");
    const size_t next = n - at < 8 ? n - at : 8;
    if (next > 0)
        zs_assert(r.readUnsignedBits32(static_cast<uint8_t>(next)) == spec::get(data, at, static_cast<unsigned>(next)), "reading continues there");
    const size_t rest = n - at - next < 64 ? n - at - next : 64;
    if (rest > 0)
        zs_assert(r.readUnsignedBits64(static_cast<uint8_t>(rest)) == spec::get(data, at + next, static_cast<unsigned>(rest)),
                "and goes on behind it");
    zs_assert(spec::throws([&] { (void)r.readUnsignedBits64(64); }) == (n - at - next - rest < 64), "until the end");
    zs_reach(failed ? "beyond" : to < from + nb ? "back" : "forward");
}
