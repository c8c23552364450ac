// C17: optionals behave like values through every short history of operations, also when copies fail.
#include "opthist.h"

using namespace zserio;
using opthist::history;

namespace
{
// a recursive structure: a list held by optionals
struct Node
{
    using IS_RECURSIVE = void;
    explicit Node(uint32_t v) : value(v) {}
    life::Value<4> value;
    Optional<Node> next;
};
} // namespace

ENTRY h_history()
{
    const unsigned steps = zs_param("steps");
    const bool failing = zs_param("failing");
    switch (zs_param("type"))
    {
    case 0: history<life::Value<4>, std::allocator<uint8_t>>(steps, failing); break;
    case 1: history<life::Value<40>, std::allocator<uint8_t>>(steps, failing); break;
    default: history<life::Value<40, true>, std::allocator<uint8_t>>(steps, failing); break;
    }
}

// replacing a list by a part of itself, by copy and by move, keeps the rest
ENTRY h_list()
{
    const uint64_t before = zs_heap_live();
    {
        uint32_t v[4];
        Optional<Node> head;
        const unsigned n = zs_choose(1, 4, "length");
        Optional<Node>* tail = &head;
        for (unsigned i = 0; i < n; ++i)
        {
            v[i] = zs_u32("v");
            tail->emplace(v[i]);
            tail = &(*tail)->next;
        }
        zs_assert(!tail->has_value(), "list ends");
        const unsigned at = zs_choose(0, n - 1, "at");
        Optional<Node>* where = &head;
        for (unsigned i = 0; i < at; ++i)
            where = &(*where)->next;
        const unsigned skip = zs_choose(1, 2, "skip");
        Optional<Node>* from = &(*where)->next;
        if (skip == 2)
        {
            if (!from->has_value())
                zs_stop();
            from = &(*from)->next;
        }
        switch (zs_choose(0, 2, "how"))
        {
        case 0: *where = *from; break;
        case 1: *where = std::move(*from); break;
        default:
            if (!from->has_value())
                zs_stop();
            *where = **from;
            break;
        }
        unsigned i = 0;
        for (const Optional<Node>* p = &head; p->has_value(); p = &(*p)->next)
        {
            if (i == at)
                i += skip;
            zs_assert(i < n && (*p)->value.get() == v[i], "remaining elements in order");
            ++i;
        }
        zs_assert(i == n || (i == at && at + skip == n), "no element is lost");
        zs_assert(life::numObjects == n - skip, "removed elements are destroyed");
    }
    life::checkNothingLeft();
    zs_assert(zs_heap_live() == before, "no heap block is left");
    zs_reach("list");
}
