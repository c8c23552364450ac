// C05: floating point values on the wire.
#include "common.h"

#include "zserio/FloatUtil.h"

using namespace zserio;

namespace
{
uint32_t bitsOf(float f)
{
    uint32_t b;
    memcpy(&b, &f, 4);
    return b;
}

float floatOf(uint32_t b)
{
    float f;
    memcpy(&f, &b, 4);
    return f;
}

// magnitude of a finite half (or 2^16 for infinity) in units of 2^-47
uint64_t halfMag(uint16_t h)
{
    const unsigned e = (h >> 10) & 31U;
    const uint64_t m = h & 0x3FFU;
    return (e == 0 ? m : (1024 + m) << (e - 1)) << 23;
}

// magnitude of a float with exponent 103..143 in units of 2^-47
uint64_t floatMag(unsigned e, uint32_t m)
{
    return (UINT64_C(0x800000) + m) << (e - 103);
}

const size_t N = 12;
} // namespace

// half -> single: the same IEEE 754 number
ENTRY h_half_to_float()
{
    uint8_t buf[N];
    zs_bytes(buf, N, "buffer");
    const size_t pos = zs_choose(0, 7, "pos");
    const unsigned e = zs_choose(0, 31, "exponent");
    const uint16_t m = zs_u16("significand");
    zs_assume(m < 1024);
    const bool neg = zs_bool("sign");
    const uint16_t h = static_cast<uint16_t>((neg ? 0x8000U : 0U) | (e << 10) | m);
    spec::put(buf, pos, 16, h);
    BitStreamReader r(buf, N);
    r.setBitPosition(pos);
    const Float16 value = r.readFloat16();
    const uint32_t f = bitsOf(static_cast<float>(value));
    zs_assert(bitsOf(convertUInt16ToFloat(h)) == f, "reader and conversion agree");
    zs_assert((f >> 31) == (neg ? 1U : 0U), "sign");
    const unsigned fe = (f >> 23) & 255U;
    const uint32_t fm = f & 0x7FFFFFU;
    if (e == 31)
    {
        zs_assert(fe == 255 && (fm != 0) == (m != 0), "infinity and NaN are preserved");
    }
    else if (e == 0)
    {
        if (m == 0)
            zs_assert(fe == 0 && fm == 0, "zero");
        else
        {
            zs_assert(fe >= 103 && fe <= 113, "exponent of a subnormal");
            zs_assert(floatMag(zs_concretize(fe), fm) == halfMag(h), "value of a subnormal");
        }
    }
    else
    {
        zs_assert(fe == e + 112 && floatMag(e + 112, fm) == halfMag(h), "value of a normal");
    }
    // and back
    zs_assert(!(e == 31 && m != 0) || (convertFloatToUInt16(floatOf(f)) & 0x7C00U) == 0x7C00U, "NaN back");
    uint8_t out[N];
    memcpy(out, buf, N);
    BitStreamWriter w(Span<uint8_t>(out, N));
    w.setBitPosition(pos);
    w.writeFloat16(value);
    zs_assert(spec::same(out, buf, N), "writing back gives the same bits");
    zs_assert(w.getBitPosition() == pos + 16 && r.getBitPosition() == pos + 16, "positions");
    zs_reach("half");
}

// single -> half: exact when representable, otherwise nearest
ENTRY h_float_to_half()
{
    const unsigned e = zs_choose(0, 255, "exponent");
    const uint32_t m = zs_u32("significand");
    zs_assume(m < 0x800000U);
    const bool neg = zs_bool("sign");
    const float f = floatOf((neg ? 0x80000000U : 0U) | (e << 23) | m);
    uint8_t buf[4];
    zs_bytes(buf, 4, "buffer");
    BitStreamWriter w(Span<uint8_t>(buf, 4));
    const size_t pos = zs_choose(0, 1, "pos") * 5;
    w.setBitPosition(pos);
    w.writeFloat16(Float16(f));
    const uint16_t h = static_cast<uint16_t>(spec::get(buf, pos, 16));
    zs_assert((h >> 15) == (neg ? 1U : 0U), "sign");
    const uint16_t a = h & 0x7FFFU;
    if (e == 255)
    {
        zs_assert(m == 0 ? a == 0x7C00U : a > 0x7C00U, "infinity and NaN are preserved");
        zs_reach("special");
    }
    else if (e < 103)
    {
        zs_assert(a == 0, "magnitudes below the smallest half precision number become zero");
        zs_reach("small");
    }
    else if (e > 142)
    {
        zs_assert(a == 0x7C00U, "magnitudes beyond half precision become infinity");
        zs_reach("large");
    }
    else
    {
        // the two half precision neighbours are lower and lower + 1 (bit patterns of consecutive magnitudes are
        // consecutive, 0x7C00 standing for 2^16); rest is the distance from lower in units of 2^-s ulp
        const unsigned drop = e >= 113 ? 13 : 126 - e;
        const uint64_t full = 0x800000U + m;
        const uint64_t lower = e >= 113 ? (static_cast<uint64_t>(e - 112) << 10) + (m >> 13) : full >> drop;
        const uint64_t rest = full & ((UINT64_C(1) << drop) - 1);
        const uint64_t half = UINT64_C(1) << (drop - 1);
        zs_assert(a == lower || a == lower + 1, "one of the two enclosing half precision values");
        zs_assert(rest >= half || a == lower, "not rounded up below the middle");
        zs_assert(rest <= half || a == lower + 1, "not rounded down above the middle");
        zs_reach("near");
    }
}

// single and double: all bits survive
ENTRY h_full()
{
    uint8_t now[20], want[20];
    zs_bytes(now, 20, "buffer");
    memcpy(want, now, 20);
    const size_t pos = zs_choose(0, 15, "pos");
    BitStreamWriter w(Span<uint8_t>(now, 20));
    w.setBitPosition(pos);
    const uint32_t f = zs_u32("float");
    const uint64_t d = zs_u64("double");
    double dv;
    memcpy(&dv, &d, 8);
    w.writeFloat32(Float32(floatOf(f)));
    w.writeFloat64(Float64(dv));
    spec::put(want, pos, 32, f);
    spec::put(want, pos + 32, 64, d);
    zs_assert(spec::same(now, want, 20), "IEEE 754 bits on the wire");
    BitStreamReader r(now, 20);
    r.setBitPosition(pos);
    const Float32 fb = r.readFloat32();
    const Float64 db = r.readFloat64();
    double dbv = static_cast<double>(db);
    uint64_t dbits;
    memcpy(&dbits, &dbv, 8);
    zs_assert(bitsOf(static_cast<float>(fb)) == f, "single precision bits read back");
    zs_assert(dbits == d, "double precision bits read back");
    zs_assert(w.getBitPosition() == pos + 96 && r.getBitPosition() == pos + 96, "positions");
    zs_assert(detail::bitSizeOf(fb) == 32 && detail::bitSizeOf(db) == 64 && detail::bitSizeOf(Float16()) == 16, "sizes");
    zs_assert(convertFloatToUInt32(convertUInt32ToFloat(f)) == f && convertDoubleToUInt64(convertUInt64ToDouble(d)) == d,
            "conversions");
    zs_reach("full");
}
