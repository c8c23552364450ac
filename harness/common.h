// Shared by all harnesses: an independent, bit-by-bit specification of the zserio bit stream.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <utility>

#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zsym.h"

#define ENTRY extern "C" void

namespace spec
{

// bit number pos of a buffer, most significant bit of byte 0 first
inline unsigned bit(const uint8_t* p, size_t pos)
{
    return (p[pos / 8] >> (7 - pos % 8)) & 1U;
}

inline void setBit(uint8_t* p, size_t pos, unsigned v)
{
    const uint8_t m = static_cast<uint8_t>(0x80U >> (pos % 8));
    p[pos / 8] = static_cast<uint8_t>((p[pos / 8] & static_cast<uint8_t>(~m)) | ((v & 1U) << (7 - pos % 8)));
}

inline void put(uint8_t* p, size_t pos, unsigned numBits, uint64_t v)
{
    for (unsigned i = 0; i < numBits; ++i)
        setBit(p, pos + i, static_cast<unsigned>(v >> (numBits - 1 - i)) & 1U);
}

inline uint64_t get(const uint8_t* p, size_t pos, unsigned numBits)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < numBits; ++i)
        v = (v << 1) | bit(p, pos + i);
    return v;
}

inline int64_t sext(uint64_t v, unsigned numBits)
{
    if (numBits < 64 && ((v >> (numBits - 1)) & 1U))
        v |= ~UINT64_C(0) << numBits;
    return static_cast<int64_t>(v);
}

inline bool fitsU(uint64_t v, unsigned numBits)
{
    return numBits >= 64 || (v >> numBits) == 0;
}

inline bool fitsS(int64_t v, unsigned numBits)
{
    return numBits >= 64 || (v >= -(INT64_C(1) << (numBits - 1)) && v <= (INT64_C(1) << (numBits - 1)) - 1);
}

inline bool same(const uint8_t* a, const uint8_t* b, size_t n)
{
    bool ok = true;
    for (size_t i = 0; i < n; ++i)
        ok = ok & (a[i] == b[i]);
    return ok;
}

// runs f and reports whether it left with the library's exception type; other exceptions end the run as uncaught
template <typename F>
bool throws(F&& f)
{
    try
    {
        f();
    }
    catch (const zserio::CppRuntimeException&)
    {
        return true;
    }
    return false;
}

} // namespace spec
