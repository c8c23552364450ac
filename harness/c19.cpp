// C19: memory is taken from the allocator given by the user and returned to the allocator it came from.
#include "anyhist.h"
#include "opthist.h"

#include <memory_resource>

#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/Bytes.h"
#include "zserio/SerializeUtil.h"
#include "zserio/String.h"
#include "zserio/UniquePtr.h"
#include "test_object/ppmr_allocator/CreatorObject.h"

using namespace zserio;

namespace
{
using Prop = life::Alloc<uint8_t, true>;
using NonProp = life::Alloc<uint8_t, false>;
} // namespace

ENTRY h_optional()
{
    const unsigned steps = zs_param("steps");
    const bool failing = zs_param("failing");
    switch (zs_param("type"))
    {
    case 0: opthist::history<life::Value<40>, Prop>(steps, failing); break;
    case 1: opthist::history<life::Value<40>, NonProp>(steps, failing); break;
    case 2: opthist::history<life::Value<4>, Prop>(steps, failing); break;
    default: opthist::history<life::Value<40, true>, NonProp>(steps, failing); break;
    }
}

ENTRY h_any()
{
    const unsigned steps = zs_param("steps");
    const bool failing = zs_param("failing");
    if (zs_param("propagate"))
        anyhist::any<Prop>(steps, failing);
    else
        anyhist::any<NonProp>(steps, failing);
}

ENTRY h_variant()
{
    const unsigned steps = zs_param("steps");
    const bool failing = zs_param("failing");
    if (zs_param("propagate"))
        anyhist::variant<Prop>(steps, failing);
    else
        anyhist::variant<NonProp>(steps, failing);
}

namespace
{
template <typename ALLOC>
void unique()
{
    using V = life::Value<8, true>;
    using P = UniquePtr<V, RebindAlloc<ALLOC, V>>;
    {
        const uint32_t v = zs_u32("v"), w = zs_u32("w");
        life::throwIn = zs_choose(0, 2, "fail");
        const bool fails = life::throwIn != 0;
        const bool threw = life::booms([&] {
            P p = allocate_unique<V>(ALLOC(1), v);
            zs_assert(p && p->get() == v && life::numObjects == 1 && life::numBlocks == 1, "allocated");
            P q = allocate_unique<V>(ALLOC(2), w);
            zs_assert(q->get() == w && life::numObjects == 2, "allocated");
            switch (zs_choose(0, 5, "op"))
            {
            case 0:
            {
                P r(std::move(p));
                zs_assert(!p && r->get() == v && life::numObjects == 2, "moved");
                break;
            }
            case 1:
                p = std::move(q);
                zs_assert(!q && p->get() == w && life::numObjects == 1, "move assigned");
                break;
            case 2:
                p.swap(q);
                zs_assert(p->get() == w && q->get() == v && life::numObjects == 2, "swapped");
                break;
            case 3:
                p.reset();
                zs_assert(!p && life::numObjects == 1 && life::numBlocks == 1, "reset");
                break;
            case 4:
            {
                P r;
                r = std::move(p);
                p = std::move(q);
                q = std::move(r);
                zs_assert(p->get() == w && q->get() == v && life::numObjects == 2, "rotated");
                break;
            }
            default: break;
            }
        });
        zs_assert(threw == fails, "a failing constructor is reported");
    }
    life::checkNothingLeft();
    zs_reach("unique");
}

// bit buffers, byte arrays and strings with the given allocator, read from a stream
template <typename ALLOC>
void blobs()
{
    {
        uint8_t data[4];
        zs_bytes(data, sizeof(data), "data");
        const ALLOC a(1), b(2);
        const size_t bits = zs_choose(0, 32, "bits");
        BasicBitBuffer<ALLOC> x(Span<const uint8_t>(data, 4), bits, a);
        zs_assert(x.get_allocator() == a, "allocator is kept");
        BasicBitBuffer<ALLOC> y(x, b);
        zs_assert(y.get_allocator() == b && y == x, "copied with another allocator");
        switch (zs_choose(0, 5, "op"))
        {
        case 0: y = x; break;
        case 1: y = BasicBitBuffer<ALLOC>(bits, a); break;
        case 2:
        {
            BasicBitBuffer<ALLOC> z(std::move(x), b);
            zs_assert(z == y && z.get_allocator() == b, "moved to another allocator");
            y = std::move(z);
            break;
        }
        case 3:
        {
            BasicBitBuffer<ALLOC> z(std::move(y));
            zs_assert(z == x && z.get_allocator() == b, "moved");
            x = std::move(z);
            break;
        }
        case 4:
        {
            uint8_t stream[8];
            BitStreamWriter w(stream, sizeof(stream));
            w.writeBitBuffer(x);
            BitStreamReader r(stream, sizeof(stream));
            auto z = r.readBitBuffer<ALLOC>(b);
            zs_assert(z == x && z.get_allocator() == b, "read with the given allocator");
            break;
        }
        default:
        {
            uint8_t stream[16];
            BitStreamWriter w(stream, sizeof(stream));
            const unsigned n = zs_choose(0, 4, "n");
            w.writeBytes(Span<const uint8_t>(data, n));
            w.writeString(std::string_view(reinterpret_cast<const char*>(data), n));
            BitStreamReader r(stream, sizeof(stream));
            auto z = r.readBytes<ALLOC>(b);
            using CharAlloc = RebindAlloc<ALLOC, char>;
            auto s = r.readString<CharAlloc>(CharAlloc(b));
            zs_assert(z.size() == n && z.get_allocator() == b && s.size() == n && s.get_allocator() == b, "read with the given allocator");
            break;
        }
        }
    }
    life::checkNothingLeft();
    zs_reach("blobs");
}

// a memory resource which hands out an arena and counts
struct Arena : std::pmr::memory_resource
{
    alignas(16) unsigned char memory[6000];
    size_t used = 0, live = 0, calls = 0;
    void* do_allocate(size_t n, size_t align) override
    {
        zs_assert(align <= 16, "harness");
        used = (used + 15) / 16 * 16;
        zs_assert(used + n <= sizeof(memory), "harness capacity");
        void* p = memory + used;
        used += n;
        live += n;
        ++calls;
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t) override
    {
        zs_assert(p >= memory && p < memory + sizeof(memory), "memory returned to the resource it came from");
        zs_assert(n <= live, "no more memory is returned than was taken");
        live -= n;
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
};
struct Forbidden : std::pmr::memory_resource
{
    void* do_allocate(size_t, size_t) override
    {
        zs_assert(false, "memory taken from the default resource");
        return nullptr;
    }
    void do_deallocate(void*, size_t, size_t) override
    {
        zs_assert(false, "memory returned to the default resource");
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
};

using Obj = test_object::ppmr_allocator::CreatorObject;
using Nested = test_object::ppmr_allocator::CreatorNested;

void fill(Obj& o, const Obj::allocator_type& a, unsigned shape, uint32_t v)
{
    // long texts, so that they do not fit in place
    o.value = v;
    o.nested.value = 5;
    o.nested.text = ppmr::String(40, 'n', a);
    o.text = ppmr::String(40, 't', a);
    if (shape & 1)
    {
        o.textArray.emplace_back(ppmr::String(30, 'x', a));
        o.nestedArray.emplace_back();
        o.nestedArray.back().text = ppmr::String(50, 'y', a);
    }
    if (shape & 2)
    {
        o.externArray.emplace();
        o.externArray->emplace_back(zserio::ppmr::BitBuffer(size_t(19), a));
        o.bytesArray.emplace();
        o.bytesArray->emplace_back(3, zserio::UInt8(7));
    }
    if (shape & 4)
    {
        o.optionalBool = true;
        o.optionalNested.emplace();
        o.optionalNested->text = ppmr::String(25, 'z', a);
    }
}
} // namespace

ENTRY h_unique()
{
    if (zs_param("propagate"))
        unique<Prop>();
    else
        unique<NonProp>();
}

ENTRY h_blobs()
{
    if (zs_param("propagate"))
        blobs<Prop>();
    else
        blobs<NonProp>();
}

// a generated object with polymorphic allocators: everything below it uses the resource of the object
ENTRY h_object()
{
    static Arena one, two;
    static Forbidden forbidden;
    std::pmr::memory_resource* old = std::pmr::set_default_resource(&forbidden);
    const uint64_t before = zs_heap_live();
    {
        const unsigned shape = zs_choose(0, 7, "shape");
        const uint32_t v = zs_u32("v");
        const Obj::allocator_type a(&one), b(&two);
        Obj x(a);
        fill(x, a, shape, v);
        const size_t liveOne = one.live;
        zs_assert(liveOne > 0 && two.live == 0, "memory from the given resource");
        switch (zs_choose(0, 7, "op"))
        {
        case 0:
        {
            Obj y(x, b);
            zs_assert(y == x && two.live > 0 && one.live == liveOne, "copied with another allocator");
            break;
        }
        case 1:
        {
            Obj y(x);
            zs_assert(y == x && two.live == 0 && one.live > liveOne, "copied with the allocator");
            break;
        }
        case 2:
        {
            Obj y(b);
            y = x;
            zs_assert(y == x && two.live == 0, "copy assigned, allocator propagated");
            break;
        }
        case 3:
        {
            const size_t calls = one.calls;
            Obj y(std::move(x));
            zs_assert(one.calls == calls, "moved without allocation");
            Obj z(b);
            z = std::move(y);
            zs_assert(one.calls == calls && two.calls == 0 && z.value == v, "move assigned without allocation");
            break;
        }
        case 4:
        {
            Obj y(std::move(x), b);
            zs_assert(two.live > 0 && y.value == v, "moved to another allocator");
            break;
        }
        case 5:
        {
            const auto bits = serialize(x, ppmr::PropagatingPolymorphicAllocator<uint8_t>(&two));
            zs_assert(one.live == liveOne && two.live > 0, "serialized to the given resource");
            Obj y(b);
            const size_t liveTwo = two.live;
            auto view = deserialize(bits, y);
            zs_assert(y == x && one.live == liveOne && two.live > liveTwo, "deserialized to the resource of the object");
            break;
        }
        case 6:
        {
            const auto bits = serialize(x, ppmr::PropagatingPolymorphicAllocator<uint8_t>(&two));
            auto view = deserialize<Obj>(bits, b);
            zs_assert(view == View<Obj>(x) && one.live == liveOne, "deserialized with the given allocator");
            break;
        }
        default:
        {
            Obj y(b);
            std::swap(x, y);
            zs_assert(y.value == v && two.live == 0, "swapped");
            break;
        }
        }
    }
    zs_assert(one.live == 0 && two.live == 0, "all memory is returned");
    zs_assert(zs_heap_live() == before, "no memory from elsewhere is left");
    std::pmr::set_default_resource(old);
    zs_reach("object");
}
