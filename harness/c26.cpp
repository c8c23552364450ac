// C26: arithmetic helpers used by generated code.
#include "common.h"

#include "zserio/BitFieldUtil.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/SizeConvertUtil.h"

using namespace zserio;

// bounds of bit fields of every requested length
ENTRY h_bounds()
{
    const size_t length = zs_param("small") ? zs_choose(0, 70, "length") : zs_u64("length");
    const bool isSigned = zs_bool("signed");
    int64_t lo = 0;
    uint64_t hi = 0;
    const bool t1 = spec::throws([&] { lo = getBitFieldLowerBound(length, isSigned); });
    const bool t2 = spec::throws([&] { hi = getBitFieldUpperBound(length, isSigned); });
    const bool valid = length >= 1 && length <= 64;
    zs_assert(t1 == !valid && t2 == !valid, "exactly lengths 1 to 64 have bounds");
    if (!valid)
    {
        zs_reach("invalid");
        return;
    }
    // v is between the bounds exactly when its low bits represent it
    const uint64_t v = zs_u64("v");
    const unsigned shift = static_cast<unsigned>(64 - length);
    if (isSigned)
    {
        const int64_t s = static_cast<int64_t>(v);
        const bool fits = (static_cast<int64_t>(v << shift) >> shift) == s;
        zs_assert((s >= lo && s <= static_cast<int64_t>(hi)) == fits, "signed bounds");
        zs_assert(hi <= static_cast<uint64_t>(INT64_MAX), "upper bound of a signed field is a signed value");
    }
    else
        zs_assert(lo == 0 && (v <= hi) == (((v << shift) >> shift) == v), "unsigned bounds");
    zs_reach("valid");
}

// numbits: the least n with 2^n >= value (1 for 1, 0 for 0)
ENTRY h_numbits()
{
    const uint64_t v = zs_u64("value");
    const unsigned n = builtin::numBits(v);
    if (v == 0)
        zs_assert(n == 0, "numbits of zero");
    else if (v == 1)
        zs_assert(n == 1, "numbits of one");
    else
    {
        zs_assert(n >= 1 && n <= 64, "numbits range");
        const uint64_t last = v - 1; // the largest of v values counted from zero
        zs_assert(n == 64 || (last >> n) == 0, "all values can be encoded");
        zs_assert((last >> (n - 1)) != 0, "no bit is wasted");
        zs_reach("many");
    }
    zs_reach("done");
}

ENTRY h_convert()
{
    const uint64_t v = zs_u64("value");
    uint32_t n = 0;
    const bool threw = spec::throws([&] { n = convertSizeToUInt32(v); });
    zs_assert(threw == (v > UINT32_MAX), "exactly 32-bit sizes convert");
    if (!threw)
        zs_assert(n == v, "converted size");
    zs_assert(convertUInt64ToSize(v) == v, "64-bit sizes convert on this platform");
    zs_reach(threw ? "rejected" : "converted");
}
