// Independent specification of the variable length integers: documented byte layout and ranges.
#pragma once
#include "common.h"

namespace varint
{

struct Spec
{
    unsigned maxBytes;
    bool isSigned;
    uint64_t maxAbs; // largest magnitude
};

// kind -> documented format
inline Spec formatOf(unsigned kind)
{
    switch (kind)
    {
    case 0: return {2, true, (UINT64_C(1) << 14) - 1};
    case 1: return {4, true, (UINT64_C(1) << 28) - 1};
    case 2: return {8, true, (UINT64_C(1) << 56) - 1};
    case 3: return {9, true, (UINT64_C(1) << 63) - 1};
    case 4: return {2, false, (UINT64_C(1) << 15) - 1};
    case 5: return {4, false, (UINT64_C(1) << 29) - 1};
    case 6: return {8, false, (UINT64_C(1) << 57) - 1};
    case 7: return {9, false, ~UINT64_C(0)};
    default: return {5, false, (UINT64_C(1) << 31) - 1};
    }
}

// number of value bits an encoding of n bytes holds
inline unsigned valueBits(const Spec& f, unsigned n)
{
    return n * 7 - (f.isSigned ? 1 : 0) + (n == f.maxBytes ? 1 : 0);
}

// encodes a magnitude and a sign, returns the number of bytes
inline unsigned encode(const Spec& f, uint64_t mag, bool neg, uint8_t* out)
{
    unsigned n = 1;
    while (n < f.maxBytes && !spec::fitsU(mag, valueBits(f, n)))
        ++n;
    size_t pos = 0;
    unsigned left = valueBits(f, n);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned room = 8;
        if (f.isSigned && i == 0)
        {
            spec::setBit(out, pos++, neg);
            --room;
        }
        if (i + 1 < f.maxBytes)
        {
            spec::setBit(out, pos++, i + 1 < n);
            --room;
        }
        left -= room;
        spec::put(out, pos, room, (mag >> left) & ((UINT64_C(1) << room) - 1));
        pos += room;
    }
    return n;
}

// decodes, returns the number of bytes or 0 when more than avail bits are needed; the value may have up to 36 bits
// for sizes
inline unsigned decode(const Spec& f, const uint8_t* d, size_t pos, size_t avail, uint64_t& mag, bool& neg)
{
    mag = 0;
    neg = false;
    for (unsigned i = 0; i < f.maxBytes; ++i)
    {
        if ((i + 1) * 8 > avail)
            return 0;
        unsigned room = 8;
        size_t p = pos + i * 8;
        if (f.isSigned && i == 0)
        {
            neg = spec::bit(d, p++) != 0;
            --room;
        }
        bool more = false;
        if (i + 1 < f.maxBytes)
        {
            more = spec::bit(d, p++) != 0;
            --room;
        }
        mag = (mag << room) | spec::get(d, p, room);
        if (!more)
            return i + 1;
    }
    return f.maxBytes;
}

// value <-> magnitude and sign; the only magnitude without a counterpart is -2^63, written as minus zero
template <typename T>
void splitValue(typename T::ValueType v, const Spec& f, uint64_t& mag, bool& neg, bool& inRange)
{
    const int64_t s = static_cast<int64_t>(v);
    neg = f.isSigned && s < 0;
    mag = static_cast<uint64_t>(s);
    if (!f.isSigned)
        mag = static_cast<uint64_t>(v);
    else if (neg)
        mag = ~mag + 1;
    inRange = mag <= f.maxAbs;
    if (f.maxBytes == 9 && f.isSigned && mag == UINT64_C(1) << 63)
    {
        mag = 0;
        neg = true;
        inRange = true;
    }
}

} // namespace varint
