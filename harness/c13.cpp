// C13: checked conversions, validation and numeric limits of all numeric types.
#include "common.h"

#include "zserio/OutOfRangeException.h"
#include "zserio/Types.h"

using namespace zserio;

namespace
{
enum Outcome
{
    VALUE,
    OUT_OF_RANGE,
    OTHER
};

template <typename F>
Outcome run(F&& f)
{
    try
    {
        f();
    }
    catch (const OutOfRangeException&)
    {
        return OUT_OF_RANGE;
    }
    catch (const CppRuntimeException&)
    {
        return OTHER;
    }
    return VALUE;
}

// lo and hi: the documented bounds, as 64-bit patterns of V
template <typename T>
void checkRange(uint64_t raw, int64_t slo, uint64_t hi, bool isSigned)
{
    using V = typename T::ValueType;
    const V v = static_cast<V>(raw);
    const bool in = isSigned ? static_cast<int64_t>(v) >= slo && static_cast<int64_t>(v) <= static_cast<int64_t>(hi)
                             : static_cast<uint64_t>(v) <= hi;
    const Outcome expected = in ? VALUE : OUT_OF_RANGE;
    T w(V(0));
    V back = 0;
    zs_assert(run([&] { w = fromCheckedValue<T>(v); }) == expected, "conversion from a built-in value is range checked");
    zs_assert(run([&] { back = toCheckedValue(T(v)); }) == expected, "conversion to a built-in value is range checked");
    zs_assert(run([&] { detail::validate(T(v), "field"); }) == expected, "validation agrees with the range");
    zs_assert(run([&] { detail::validate(T(v), ""); }) == expected, "validation without field name agrees too");
    if (in)
    {
        zs_assert(static_cast<V>(w) == v && back == v, "checked conversions keep the value");
        zs_reach("in");
    }
    else
        zs_reach("out");
    zs_assert(static_cast<V>(NumericLimits<T>::min()) == static_cast<V>(slo), "minimum");
    zs_assert(static_cast<V>(NumericLimits<T>::max()) == static_cast<V>(hi), "maximum");
    zs_assert(static_cast<V>(T(v)) == v, "unchecked wrapping keeps the value");
}

uint64_t upper(unsigned bits, bool isSigned)
{
    return isSigned ? (~UINT64_C(0) >> 1) >> (64 - bits) : ~UINT64_C(0) >> (64 - bits);
}

int64_t lower(unsigned bits, bool isSigned)
{
    return isSigned ? static_cast<int64_t>(~UINT64_C(0) << (bits - 1)) : 0;
}

template <size_t... I>
void fixed(unsigned k, std::index_sequence<I...>)
{
    const uint64_t raw = zs_u64("value");
    (void)((k == I ? (checkRange<Int<I + 1>>(raw, lower(I + 1, true), upper(I + 1, true), true), true)
                   : k == I + 64 ? (checkRange<UInt<I + 1>>(raw, 0, upper(I + 1, false), false), true)
                                 : false) ||
            ...);
}

template <typename T>
void dyn(bool isSigned)
{
    using V = typename T::ValueType;
    const unsigned width = sizeof(V) * 8;
    const BitSize numBits = static_cast<BitSize>(zs_choose(0, width + 3, "numBits"));
    const V v = static_cast<V>(zs_u64("value"));
    const bool valid = numBits >= 1 && numBits <= width;
    const bool in = valid &&
            (isSigned ? static_cast<int64_t>(v) >= lower(numBits, true) &&
                                    static_cast<int64_t>(v) <= static_cast<int64_t>(upper(numBits, true))
                      : static_cast<uint64_t>(v) <= upper(numBits, false));
    const Outcome expected = in ? VALUE : OUT_OF_RANGE;
    T w(V(0));
    V back = 0;
    zs_assert(run([&] { w = fromCheckedValue<T>(v, numBits); }) == expected, "conversion from a built-in value is range checked");
    zs_assert(run([&] { back = toCheckedValue(T(v), numBits); }) == expected, "conversion to a built-in value is range checked");
    zs_assert(run([&] { detail::validate(T(v), numBits, "field"); }) == expected, "validation agrees with the range");
    V lo = 0, hi = 0;
    const Outcome l = run([&] { lo = NumericLimits<T>::min(numBits); });
    const Outcome h = run([&] { hi = NumericLimits<T>::max(numBits); });
    if (!valid)
    {
        zs_assert(h == OUT_OF_RANGE && (!isSigned || l == OUT_OF_RANGE), "limits of an impossible width are rejected");
        zs_reach("badwidth");
        return;
    }
    zs_assert(l == VALUE && h == VALUE, "limits of possible widths exist");
    zs_assert(lo == static_cast<V>(lower(numBits, isSigned)) && hi == static_cast<V>(upper(numBits, isSigned)), "limits");
    if (in)
    {
        zs_assert(static_cast<V>(w) == v && back == v, "checked conversions keep the value");
        zs_reach("in");
    }
    else
        zs_reach("out");
}

// operators of the wrapper behave like those of the built-in type
template <typename T>
void operators()
{
    using V = typename T::ValueType;
    const V a = static_cast<V>(zs_u64("a"));
    V b = static_cast<V>(zs_u64("b"));
    T w(a);
    V x = a;
    const unsigned width = sizeof(V) * 8;
    const bool isSigned = std::is_signed_v<V>;
    const unsigned op = zs_choose(0, 13, "operator");
    if (op >= 6 && op <= 8 && width > 16) // wide products and quotients only by selected operands
    {
        static const int8_t factors[] = {0, 1, -1, 2, 3, 10, -7, 64, 100};
        b = static_cast<V>(factors[zs_choose(0, 8, "factor")]);
    }
    using W = __int128;
    const W lo = isSigned ? static_cast<W>(lower(width, true)) : 0;
    const W hi = static_cast<W>(upper(width, isSigned));
    auto fits = [&](W r) { return !isSigned || (r >= lo && r <= hi); };
    switch (op)
    {
    case 0:
    case 1:
        zs_assume(!isSigned || static_cast<W>(a) < hi);
        if (op == 0)
            zs_assert(static_cast<V>(++w) == ++x, "++w");
        else
            zs_assert(static_cast<V>(w++) == x++, "w++");
        break;
    case 2:
    case 3:
        zs_assume(!isSigned || static_cast<W>(a) > lo);
        if (op == 2)
            zs_assert(static_cast<V>(--w) == --x, "--w");
        else
            zs_assert(static_cast<V>(w--) == x--, "w--");
        break;
    case 4:
        zs_assume(fits(static_cast<W>(a) + static_cast<W>(b)));
        w += b, x = static_cast<V>(x + b);
        break;
    case 5:
        zs_assume(fits(static_cast<W>(a) - static_cast<W>(b)));
        w -= b, x = static_cast<V>(x - b);
        break;
    case 6:
        // only factors whose product is representable in the promoted type: half the width each
        zs_assume(static_cast<W>(a) >= -(W(1) << (width / 2 - 1)) && static_cast<W>(a) < (W(1) << (width / 2 - 1)) &&
                static_cast<W>(b) >= -(W(1) << (width / 2 - 1)) && static_cast<W>(b) < (W(1) << (width / 2 - 1)));
        w *= b, x = static_cast<V>(x * b);
        break;
    case 7:
        zs_assume(b != 0 && !(isSigned && static_cast<W>(a) == lo));
        w /= b, x = static_cast<V>(x / b);
        break;
    case 8:
        zs_assume(b != 0 && !(isSigned && static_cast<W>(a) == lo));
        w %= b, x = static_cast<V>(x % b);
        break;
    case 9: w &= b, x = static_cast<V>(x & b); break;
    case 10: w |= b, x = static_cast<V>(x | b); break;
    case 11: w ^= b, x = static_cast<V>(x ^ b); break;
    case 12:
        zs_assume(b >= 0 && static_cast<uint64_t>(b) < width / 2 && a >= 0 && static_cast<uint64_t>(a) < (UINT64_C(1) << (width / 2 - 1)));
        w <<= b, x = static_cast<V>(x << b);
        break;
    default:
        zs_assume(b >= 0 && static_cast<uint64_t>(b) < width);
        w >>= b, x = static_cast<V>(x >> b);
        break;
    }
    zs_assert(static_cast<V>(w) == x, "compound operator result");
    zs_assert((T(a) < T(b)) == (a < b) && (T(a) == T(b)) == (a == b) && (T(a) >= b) == (a >= b), "comparisons");
    zs_reach("operator");
}
} // namespace

ENTRY h_fixed()
{
    const unsigned g = zs_param("group");
    fixed(zs_choose(g * 16, g * 16 + 15, "type"), std::make_index_sequence<64>());
}

ENTRY h_var()
{
    const uint64_t raw = zs_u64("value");
    switch (zs_param("type"))
    {
    case 0: checkRange<VarInt16>(raw, -((1 << 14) - 1), (1 << 14) - 1, true); break;
    case 1: checkRange<VarInt32>(raw, -((1 << 28) - 1), (1 << 28) - 1, true); break;
    case 2: checkRange<VarInt64>(raw, -((INT64_C(1) << 56) - 1), (INT64_C(1) << 56) - 1, true); break;
    case 3: checkRange<VarInt>(raw, INT64_MIN, INT64_MAX, true); break;
    case 4: checkRange<VarUInt16>(raw, 0, (1 << 15) - 1, false); break;
    case 5: checkRange<VarUInt32>(raw, 0, (1 << 29) - 1, false); break;
    case 6: checkRange<VarUInt64>(raw, 0, (UINT64_C(1) << 57) - 1, false); break;
    case 7: checkRange<VarUInt>(raw, 0, UINT64_MAX, false); break;
    default: checkRange<VarSize>(raw, 0, (UINT64_C(1) << 31) - 1, false); break;
    }
}

ENTRY h_dyn()
{
    switch (zs_param("type"))
    {
    case 0: dyn<DynInt8>(true); break;
    case 1: dyn<DynInt16>(true); break;
    case 2: dyn<DynInt32>(true); break;
    case 3: dyn<DynInt64>(true); break;
    case 4: dyn<DynUInt8>(false); break;
    case 5: dyn<DynUInt16>(false); break;
    case 6: dyn<DynUInt32>(false); break;
    default: dyn<DynUInt64>(false); break;
    }
}

ENTRY h_operators()
{
    switch (zs_param("type"))
    {
    case 0: operators<Int7>(); break;
    case 1: operators<Int13>(); break;
    case 2: operators<DynInt32>(); break;
    case 3: operators<VarInt>(); break;
    case 4: operators<UInt8>(); break;
    case 5: operators<DynUInt16>(); break;
    case 6: operators<VarSize>(); break;
    default: operators<UInt64>(); break;
    }
}

// bool and floating point types have no invalid values
ENTRY h_other()
{
    const bool a = zs_bool("a"), b = zs_bool("b");
    const Bool x(a), y(b);
    zs_assert(fromCheckedValue<Bool>(a) == x && toCheckedValue(x) == a, "bool conversions");
    zs_assert((x < y) == (!a && b) && (x > y) == (a && !b) && (x <= y) == (!a || b) && (x >= y) == (a || !b) &&
                    (x == y) == (a == b) && (x != y) == (a != b),
            "bool comparisons");
    zs_assert(static_cast<bool>(NumericLimits<Bool>::max()) && !static_cast<bool>(NumericLimits<Bool>::min()), "bool limits");
    const uint64_t raw = zs_u64("bits");
    double d;
    memcpy(&d, &raw, 8);
    const double d2 = toCheckedValue(fromCheckedValue<Float64>(d));
    uint64_t raw2;
    memcpy(&raw2, &d2, 8);
    zs_assert(raw == raw2 && run([&] { detail::validate(Float64(d), "field"); }) == VALUE, "float64 conversions keep the bits");
    const uint32_t fraw = static_cast<uint32_t>(raw);
    float f;
    memcpy(&f, &fraw, 4);
    const float f2 = toCheckedValue(fromCheckedValue<Float32>(f));
    const float f3 = toCheckedValue(fromCheckedValue<Float16>(f));
    uint32_t fraw2, fraw3;
    memcpy(&fraw2, &f2, 4);
    memcpy(&fraw3, &f3, 4);
    zs_assert(fraw == fraw2 && fraw == fraw3, "float conversions keep the bits");
    const float h1 = NumericLimits<Float16>::max(), h2 = NumericLimits<Float16>::min();
    zs_assert(h1 == 65504.0F && h2 == 0x1p-14F, "half precision limits");
    zs_reach("other");
}
