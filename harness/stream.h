// Stream buffers of the harness, so that the real stream classes read and write plain memory.
#pragma once
#include <istream>
#include <ostream>
#include <streambuf>

namespace stream
{

// collects what is written
class Out : public std::streambuf
{
public:
    static constexpr size_t CAPACITY = 1024;
    char data[CAPACITY];
    size_t size = 0;

protected:
    int_type overflow(int_type c) override
    {
        zs_assert(size < CAPACITY, "more text than the harness allows for");
        data[size++] = traits_type::to_char_type(c);
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        zs_assert(n >= 0 && size + static_cast<size_t>(n) <= CAPACITY, "more text than the harness allows for");
        for (std::streamsize i = 0; i < n; ++i)
            data[size++] = s[i];
        return n;
    }
};

// gives out a text in up to three portions
class In : public std::streambuf
{
public:
    In(const char* text, size_t size, size_t first = ~size_t(0), size_t second = ~size_t(0)) :
            m_text(text), m_size(size), m_cuts{first < size ? first : size, second < size ? second : size, size}
    {}

protected:
    std::streamsize xsgetn(char* to, std::streamsize capacity) override
    {
        while (m_next < 3 && m_cuts[m_next] <= m_at)
            ++m_next;
        const size_t end = m_next < 3 ? m_cuts[m_next] : m_size;
        std::streamsize n = 0;
        while (m_at < end && n < capacity)
            to[n++] = m_text[m_at++];
        return n;
    }

private:
    const char* m_text;
    size_t m_size;
    size_t m_cuts[3];
    size_t m_at = 0;
    size_t m_next = 0;
};

} // namespace stream
