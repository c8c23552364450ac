// C18: type erased values and variants hold exactly what the history gives them.
#include "anyhist.h"

using namespace zserio;

ENTRY h_any()
{
    anyhist::any<std::allocator<uint8_t>>(zs_param("steps"), zs_param("failing"));
}

ENTRY h_variant()
{
    anyhist::variant<std::allocator<uint8_t>>(zs_param("steps"), zs_param("failing"));
}

namespace
{
// recursive values: a tree of any, a list of variants
struct Node;
enum class Kind : size_t
{
    NUMBER,
    NODE
};
using Link = Variant<Kind, uint32_t, std::vector<Node>>;
struct Node
{
    life::Value<4> value;
    Link next;
    explicit Node(uint32_t v) : value(v) {}
    bool operator==(const Node& o) const
    {
        return value == o.value && next == o.next;
    }
};
struct ANode
{
    life::Value<4> value;
    Any next;
    explicit ANode(uint32_t v) : value(v) {}
};
} // namespace

// replacing a nested value by a part of itself
ENTRY h_nested()
{
    const uint64_t before = zs_heap_live();
    {
        const unsigned n = zs_choose(1, 3, "length");
        uint32_t v[3];
        Link head;
        Any ahead;
        Link* tail = &head;
        Any* atail = &ahead;
        for (unsigned i = 0; i < n; ++i)
        {
            v[i] = zs_u32("v");
            tail->emplace<Kind::NODE>().emplace_back(v[i]);
            tail = &tail->get<Kind::NODE>()[0].next;
            atail->set(ANode(v[i]));
            atail = &atail->get<ANode>().next;
        }
        switch (zs_choose(0, 3, "how"))
        {
        case 0:
            head = head.get<Kind::NODE>()[0].next;
            ahead = std::as_const(ahead).get<ANode>().next;
            break;
        case 1:
            head = std::move(head.get<Kind::NODE>()[0].next);
            ahead = std::move(ahead.get<ANode>().next);
            break;
        case 2:
            if (n < 2)
                zs_stop();
            head = head.get<Kind::NODE>()[0].next.get<Kind::NODE>()[0].next;
            ahead = std::as_const(ahead).get<ANode>().next.get<ANode>().next;
            break;
        default:
        {
            // a part of another type
            const uint32_t first = v[0];
            head = Link(in_place_index<Kind::NUMBER>, first);
            ahead = std::as_const(ahead).get<ANode>().value;
            zs_assert(head.get<Kind::NUMBER>() == first && ahead.get<life::Value<4>>().get() == first, "a part of the value");
            ahead.reset();
            zs_assert(life::numObjects == 0, "removed elements are destroyed");
            zs_reach("nested");
            zs_stop();
        }
        }
        unsigned count = 0;
        for (const Link* p = &head; p->index() == Kind::NODE; p = &p->get<Kind::NODE>()[0].next)
            ++count;
        unsigned acount = 0;
        for (const Any* p = &ahead; p->hasValue(); p = &p->get<ANode>().next)
            ++acount;
        zs_assert(count == acount && count < n, "remaining elements");
        const unsigned skip = n - count;
        unsigned i = skip;
        for (const Link* p = &head; p->index() == Kind::NODE; p = &p->get<Kind::NODE>()[0].next)
            zs_assert(p->get<Kind::NODE>()[0].value.get() == v[i++], "remaining elements in order");
        i = skip;
        for (const Any* p = &ahead; p->hasValue(); p = &p->get<ANode>().next)
            zs_assert(p->get<ANode>().value.get() == v[i++], "remaining elements in order");
        zs_assert(life::numObjects == 2 * count, "removed elements are destroyed");
    }
    life::checkNothingLeft();
    zs_assert(zs_heap_live() == before, "no heap block is left");
    zs_reach("nested");
}
