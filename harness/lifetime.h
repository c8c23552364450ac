// Values and allocators which notice every misuse: reading or destroying what is not alive, leaks, freeing through an
// allocator other than the allocating one.
#pragma once
#include <memory>
#include <new>

#include "common.h"

namespace life
{
struct Boom
{};

inline const void* objects[32]; // addresses of live values
inline size_t numObjects = 0;
inline unsigned throwIn = 0; // the throwIn-th next construction from a value fails; 0: never

inline bool alive(const void* p)
{
    bool found = false;
    for (size_t i = 0; i < numObjects; ++i)
        found = found | (objects[i] == p);
    return found;
}

inline void born(const void* p)
{
    zs_assert(!alive(p), "value constructed over a live value");
    zs_assert(numObjects < 32, "harness capacity");
    objects[numObjects++] = p;
}

inline void died(const void* p)
{
    size_t i = 0;
    while (i < numObjects && objects[i] != p)
        ++i;
    zs_assert(i < numObjects, "value destroyed which is not alive");
    objects[i] = objects[--numObjects];
}

inline void mayThrow()
{
    if (throwIn != 0 && --throwIn == 0)
        throw Boom();
}

constexpr uint32_t MOVED = 0xDEAD0001U;

// SIZE 4: fits everywhere; larger: held on the heap by optionals and anys
template <size_t SIZE, bool THROWING_MOVE = false>
class Value
{
public:
    explicit Value(uint32_t v = 0) : m_v(v)
    {
        mayThrow();
        born(this);
    }
    Value(const Value& o) : m_v(o.get())
    {
        mayThrow();
        born(this);
    }
    Value(Value&& o) noexcept(!THROWING_MOVE) : m_v(o.get())
    {
        if (THROWING_MOVE)
            mayThrow();
        o.m_v = MOVED;
        born(this);
    }
    Value& operator=(const Value& o)
    {
        zs_assert(alive(this), "assignment to a dead value");
        const uint32_t v = o.get();
        mayThrow();
        m_v = v;
        return *this;
    }
    Value& operator=(Value&& o) noexcept(!THROWING_MOVE)
    {
        zs_assert(alive(this), "assignment to a dead value");
        if (THROWING_MOVE)
            mayThrow();
        if (this != &o)
        {
            m_v = o.get();
            o.m_v = MOVED;
        }
        return *this;
    }
    ~Value()
    {
        died(this);
        m_v = 0xDEADDEADU;
    }
    uint32_t get() const
    {
        zs_assert(alive(this), "use of a dead value");
        return m_v;
    }

private:
    uint32_t m_v;
    char m_pad[SIZE - 4 == 0 ? 1 : SIZE - 4];
};

template <bool T>
class Value<4, T>
{
public:
    explicit Value(uint32_t v = 0) : m_v(v)
    {
        mayThrow();
        born(this);
    }
    Value(const Value& o) : m_v(o.get())
    {
        mayThrow();
        born(this);
    }
    Value(Value&& o) noexcept(!T) : m_v(o.get())
    {
        if (T)
            mayThrow();
        o.m_v = MOVED;
        born(this);
    }
    Value& operator=(const Value& o)
    {
        zs_assert(alive(this), "assignment to a dead value");
        const uint32_t v = o.get();
        mayThrow();
        m_v = v;
        return *this;
    }
    Value& operator=(Value&& o) noexcept(!T)
    {
        zs_assert(alive(this), "assignment to a dead value");
        if (T)
            mayThrow();
        if (this != &o)
        {
            m_v = o.get();
            o.m_v = MOVED;
        }
        return *this;
    }
    ~Value()
    {
        died(this);
        m_v = 0xDEADDEADU;
    }
    uint32_t get() const
    {
        zs_assert(alive(this), "use of a dead value");
        return m_v;
    }

private:
    uint32_t m_v;
};

template <size_t S, bool M>
bool operator==(const Value<S, M>& a, const Value<S, M>& b)
{
    return a.get() == b.get();
}
template <size_t S, bool M>
bool operator!=(const Value<S, M>& a, const Value<S, M>& b)
{
    return a.get() != b.get();
}
template <size_t S, bool M>
bool operator<(const Value<S, M>& a, const Value<S, M>& b)
{
    return a.get() < b.get();
}
template <size_t S, bool M>
bool operator>(const Value<S, M>& a, const Value<S, M>& b)
{
    return a.get() > b.get();
}

struct Block
{
    void* p;
    size_t bytes;
    unsigned owner;
};
inline Block blocks[32];
inline size_t numBlocks = 0;

// allocators with different ids are not equal
template <typename T, bool PROPAGATE>
struct Alloc
{
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<PROPAGATE>;
    using propagate_on_container_move_assignment = std::bool_constant<PROPAGATE>;
    using propagate_on_container_swap = std::bool_constant<PROPAGATE>;
    using is_always_equal = std::false_type;
    template <typename U>
    struct rebind
    {
        using other = Alloc<U, PROPAGATE>;
    };
    Alloc() noexcept = default;
    explicit Alloc(unsigned i) noexcept : id(i) {}
    template <typename U>
    Alloc(const Alloc<U, PROPAGATE>& o) noexcept : id(o.id)
    {}
    T* allocate(size_t n)
    {
        void* p = ::operator new(n * sizeof(T));
        zs_assert(numBlocks < 32, "harness capacity");
        blocks[numBlocks].p = p;
        blocks[numBlocks].bytes = n * sizeof(T);
        blocks[numBlocks].owner = id;
        ++numBlocks;
        return static_cast<T*>(p);
    }
    void deallocate(T* p, size_t n)
    {
        size_t i = 0;
        while (i < numBlocks && blocks[i].p != p)
            ++i;
        zs_assert(i < numBlocks, "memory freed which is not allocated");
        zs_assert(blocks[i].owner == id, "memory freed through another allocator");
        zs_assert(blocks[i].bytes == n * sizeof(T), "memory freed with another size");
        blocks[i] = blocks[--numBlocks];
        ::operator delete(p);
    }
    unsigned id = 0;
};
template <typename A, typename B, bool P>
bool operator==(const Alloc<A, P>& a, const Alloc<B, P>& b)
{
    return a.id == b.id;
}
template <typename A, typename B, bool P>
bool operator!=(const Alloc<A, P>& a, const Alloc<B, P>& b)
{
    return a.id != b.id;
}

template <typename ALLOC>
ALLOC make(unsigned id)
{
    if constexpr (std::is_same_v<ALLOC, std::allocator<uint8_t>>)
        return ALLOC();
    else
        return ALLOC(id);
}

inline void checkNothingLeft()
{
    zs_assert(numObjects == 0, "every value is destroyed");
    zs_assert(numBlocks == 0, "all memory is returned");
}

// runs f, reports whether it threw Boom
template <typename F>
bool booms(F&& f)
{
    bool b = false;
    try
    {
        f();
    }
    catch (const Boom&)
    {
        b = true;
    }
    throwIn = 0;
    return b;
}
} // namespace life
