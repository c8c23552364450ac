// C27: spans and array views give exactly their elements.
#include "common.h"

#include <type_traits>

#include "zserio/ArrayView.h"
#include "zserio/Span.h"
#include "zserio/Types.h"

using namespace zserio;

namespace
{
constexpr size_t MAX = 4;

template <typename T, size_t E, typename P>
void isPart(const Span<T, E>& s, P base, size_t offset, size_t count)
{
    zs_assert(s.data() == base + offset, "start of the span");
    zs_assert(s.size() == count, "size of the span");
    zs_assert(s.empty() == (count == 0) && s.size_bytes() == count * sizeof(T), "emptiness and size in bytes");
    zs_assert(s.begin() == base + offset && s.end() == base + offset + count, "begin and end");
    size_t i = 0;
    for (auto& e : s)
    {
        zs_assert(&e == base + offset + i && &s[i] == &e, "element of the span");
        ++i;
    }
    zs_assert(i == count, "number of elements visited");
    for (auto it = s.rbegin(); it != s.rend(); ++it)
        zs_assert(&*it == base + offset + --i, "element visited backwards");
    zs_assert(i == 0, "number of elements visited backwards");
    if (count)
        zs_assert(&s.front() == base + offset && &s.back() == base + offset + count - 1, "first and last element");
}

template <size_t O, typename S, typename P>
void fixedParts(const S& s, P base, size_t n)
{
    if (O > n)
        return;
    isPart(s.template subspan<O>(), base, O, n - O);
    isPart(s.template first<O>(), base, 0, O);
    isPart(s.template last<O>(), base, n - O, O);
    if (O + 1 <= n)
        isPart(s.template subspan<O, 1>(), base, O, 1);
    if (O + 2 <= n)
        isPart(s.template subspan<O, 2>(), base, O, 2);
    isPart(s.template subspan<O, 0>(), base, O, 0);
}

template <typename S, typename P>
void allParts(const S& s, P base, size_t n)
{
    isPart(s, base, 0, n);
    const size_t offset = zs_choose(0, n, "offset");
    const size_t count = zs_choose(0, n - offset, "count");
    isPart(s.subspan(offset, count), base, offset, count);
    isPart(s.subspan(offset), base, offset, n - offset);
    isPart(s.first(count), base, 0, count);
    isPart(s.last(count), base, n - count, count);
}

template <typename T>
void parts(T* base, size_t n)
{
    const Span<T> s(base, n);
    isPart(Span<T>(base, base + n), base, 0, n);
    allParts(s, base, n);
    fixedParts<0>(s, base, n);
    fixedParts<1>(s, base, n);
    fixedParts<2>(s, base, n);
    fixedParts<3>(s, base, n);
    const Span<const T> c(s);
    isPart(c, base, 0, n);
    Span<T> copy;
    isPart(copy, static_cast<T*>(nullptr), 0, 0);
    copy = s;
    isPart(copy, base, 0, n);
}
} // namespace

ENTRY h_span()
{
    const size_t n = zs_choose(0, MAX, "size");
    std::vector<uint32_t> v(n);
    for (size_t i = 0; i < n; ++i)
        v[i] = zs_u32("element");
    const std::vector<uint32_t> old = v;
    const bool constant = zs_choose(0, 1, "constant");
    if (constant)
        parts<const uint32_t>(v.data(), n);
    else
        parts<uint32_t>(v.data(), n);
    Span<uint32_t> s(v);
    isPart(s, v.data(), 0, n);
    isPart(Span<const uint32_t>(v), v.data(), 0, n);
    isPart(Span<const uint32_t>(old), old.data(), 0, n);
    // fixed extents
    std::array<uint32_t, 3> a{};
    uint32_t plain[3] = {};
    const std::array<uint32_t, 3>& constantArray = a;
    isPart(Span<uint32_t>(a), a.data(), 0, 3);
    isPart(Span<uint32_t, 3>(a), a.data(), 0, 3);
    isPart(Span<const uint32_t>(constantArray), a.data(), 0, 3);
    isPart(Span<const uint32_t, 3>(constantArray), a.data(), 0, 3);
    isPart(Span<uint32_t>(plain), static_cast<uint32_t*>(plain), 0, 3);
    const Span<uint32_t, 3> fixed(plain);
    if (n == 0)
        allParts(fixed, static_cast<uint32_t*>(plain), 3);
    isPart(fixed.subspan<0>(), static_cast<uint32_t*>(plain), 0, 3);
    isPart(fixed.subspan<1>(), static_cast<uint32_t*>(plain), 1, 2);
    isPart(fixed.subspan<3>(), static_cast<uint32_t*>(plain), 3, 0);
    isPart(fixed.subspan<1, 1>(), static_cast<uint32_t*>(plain), 1, 1);
    isPart(fixed.first<2>(), static_cast<uint32_t*>(plain), 0, 2);
    isPart(fixed.last<2>(), static_cast<uint32_t*>(plain), 1, 2);
    static_assert(decltype(fixed.subspan<1>())::extent == 2 && decltype(fixed.last<2>())::extent == 2, "extents");
    isPart(Span<const uint32_t>(fixed), static_cast<uint32_t*>(plain), 0, 3);
    isPart(Span<uint32_t, 0>(), static_cast<uint32_t*>(nullptr), 0, 0);
    // writing through a span changes exactly that element
    if (n)
    {
        const size_t at = zs_choose(0, n - 1, "written");
        const uint32_t value = zs_u32("new element");
        s[at] = value;
        for (size_t i = 0; i < n; ++i)
            zs_assert(v[i] == (i == at ? value : old[i]), "written element");
    }
    zs_reach("span");
}

namespace
{
// elements are views which remember the owner and the index they were made for
struct Owner
{
    uint16_t id = 0;
};
struct Element
{
    uint32_t value;
};
struct ElementView
{
    const Element* element;
    uint16_t owner;
    size_t index;
};
struct Traits
{
    using OwnerType = Owner;
    static ElementView at(const Owner& owner, const Element& e, size_t index) { return ElementView{&e, owner.id, index}; }
};
using Owned = ArrayView<const Element, Traits>;

struct Data
{
    std::vector<Element> v;
    uint16_t id;
    void fill()
    {
        const size_t n = zs_choose(0, MAX, "size");
        for (size_t i = 0; i < n; ++i)
            v.push_back(Element{zs_u32("element")});
        id = zs_u16("owner");
    }
    void check(const ElementView& e, size_t i)
    {
        zs_assert(e.element == v.data() + i, "element of the array");
        zs_assert(e.owner == id && e.index == i, "owner and index of the element");
    }
};
} // namespace

// access by index
ENTRY h_at()
{
    Data d;
    d.fill();
    const Owned view(Span<const Element>(d.v), Owner{d.id});
    const size_t n = d.v.size();
    zs_assert(view.size() == n && view.empty() == (n == 0) && view.zserioData().data() == d.v.data(), "size");
    const uint64_t index = zs_u64("index");
    ElementView e{nullptr, 0, 0};
    const bool threw = spec::throws([&] { e = view.at(index); });
    zs_assert(threw == (index >= n), "exactly the indexes of elements are accepted");
    if (!threw)
    {
        zs_assert(e.element->value == d.v[index].value && e.owner == d.id && e.index == index, "element");
        const ElementView same = view[index];
        zs_assert(same.element == e.element && same.owner == d.id && same.index == index, "element without check");
    }
    zs_assert(spec::throws([&] { e = view.front(); }) == (n == 0), "first element exists exactly in a non-empty array");
    if (n)
        d.check(e, 0);
    zs_assert(spec::throws([&] { e = view.back(); }) == (n == 0), "last element exists exactly in a non-empty array");
    if (n)
        d.check(e, n - 1);
    size_t i = 0;
    for (auto x : view)
        d.check(x, i++);
    zs_assert(i == n, "every element is visited");
    for (auto it = view.rbegin(); it != view.rend(); ++it)
        d.check(*it, --i);
    zs_assert(i == 0, "every element is visited backwards");
    const Owned copy(view);
    for (auto it = copy.cbegin(); it != copy.cend(); it++)
    {
        d.check(*it, i);
        zs_assert(it->index == i, "member of an element");
        ++i;
    }
    for (auto it = copy.crbegin(); it != copy.crend(); it++)
        d.check(*it, --i);
    zs_reach(threw ? "refused" : "element");
}

// iterators move like numbers
ENTRY h_walk()
{
    Data d;
    d.fill();
    const Owned view(Span<const Element>(d.v), Owner{d.id});
    const size_t n = d.v.size();
    Owned::ConstIterator it = view.begin();
    size_t pos = 0;
    for (size_t step = 0; step < zs_param("steps"); ++step)
    {
        const Owned::ConstIterator before = it;
        const size_t old = pos;
        const uint64_t target = zs_u64("target"); // any position from the beginning to the end
        zs_assume(target <= n);
        const auto distance = static_cast<ptrdiff_t>(target - pos);
        switch (zs_choose(0, 9, "move"))
        {
        case 0: zs_assume(target == old + 1); it = ++it; pos = target; break;
        case 1: zs_assume(target == old + 1); zs_assert(it++ == before, "old position"); pos = target; break;
        case 2: zs_assume(target + 1 == old); it = --it; pos = target; break;
        case 3: zs_assume(target + 1 == old); zs_assert(it-- == before, "old position"); pos = target; break;
        case 4: it += distance; pos = target; break;
        case 5: it -= -distance; pos = target; break;
        case 6: it = it + distance; pos = target; break;
        case 7: it = distance + it; pos = target; break;
        case 8: it = it - -distance; pos = target; break;
        default:
            {
                ElementView e{nullptr, 0, 0};
                const bool threw = spec::throws([&] { e = it[distance]; });
                zs_assert(threw == (target >= n), "element at a distance");
                if (!threw)
                    zs_assert(e.element->value == d.v[target].value && e.index == target, "element at a distance");
            }
        }
        zs_assert(it - view.begin() == static_cast<ptrdiff_t>(pos), "position");
        zs_assert(view.end() - it == static_cast<ptrdiff_t>(n - pos), "distance to the end");
        zs_assert((it == before) == (pos == old) && (it != before) == (pos != old), "equality of positions");
        zs_assert((it < before) == (pos < old) && (it > before) == (pos > old), "order of positions");
        zs_assert((it <= before) == (pos <= old) && (it >= before) == (pos >= old), "order of positions");
        ElementView e{nullptr, 0, 0};
        const bool threw = spec::throws([&] { e = *it; });
        zs_assert(threw == (pos == n), "element at the position");
        if (!threw)
            zs_assert(e.element->value == d.v[pos].value && e.index == pos && e.owner == d.id, "element at the position");
        const bool arrow = spec::throws([&] { e.index = it->index; });
        zs_assert(arrow == (pos == n), "member at the position");
        zs_assert(arrow || e.index == pos, "member at the position");
    }
    zs_reach("walked");
}

// views over numbers
ENTRY h_numbers()
{
    const size_t n = zs_choose(0, 3, "size"), m = zs_choose(0, 3, "other size");
    std::vector<Int8> a, b;
    bool equal = n == m;
    int order = 0;
    for (size_t i = 0; i < n; ++i)
        a.push_back(Int8(static_cast<int8_t>(zs_u8("element"))));
    for (size_t i = 0; i < m; ++i)
        b.push_back(Int8(static_cast<int8_t>(zs_u8("other element"))));
    for (size_t i = 0; i < n && i < m && order == 0; ++i)
        order = int8_t(a[i]) < int8_t(b[i]) ? -1 : int8_t(a[i]) > int8_t(b[i]) ? 1 : 0;
    if (order == 0)
        order = n < m ? -1 : n > m ? 1 : 0;
    equal = order == 0;
    const ArrayView<const Int8> x{Span<const Int8>(a)}, y{Span<const Int8>(b)};
    for (size_t i = 0; i < n; ++i)
        zs_assert(x.at(i) == a[i] && x[i] == a[i], "element");
    zs_assert((x == y) == equal && (x != y) == !equal, "equality");
    zs_assert((x < y) == (order < 0) && (x > y) == (order > 0), "order");
    zs_assert((x <= y) == (order <= 0) && (x >= y) == (order >= 0), "order");
    zs_assert(x.begin() == x.end() ? n == 0 : n != 0, "emptiness");
    zs_assert(std::distance(x.begin(), x.end()) == static_cast<ptrdiff_t>(n), "number of elements");
    zs_reach(equal ? "equal" : "different");
}
