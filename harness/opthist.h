// Histories of operations over two optionals, compared with a model.
#pragma once
#include "lifetime.h"

#include "zserio/Optional.h"

namespace opthist
{
using namespace zserio;
struct Model
{
    bool has = false;
    bool known = true;
    uint32_t v = 0;
};

template <typename O>
void check(O& o, Model& m, const char*)
{
    const O& c = o;
    zs_assert(c.has_value() == m.has && static_cast<bool>(c) == m.has && (c == std::nullopt) == !m.has, "engaged as expected");
    uint32_t got = 0, got2 = 0;
    bool t1 = false, t2 = false;
    try
    {
        got = c.value().get();
    }
    catch (const BadOptionalAccess&)
    {
        t1 = true;
    }
    try
    {
        got2 = (*o).get();
    }
    catch (const BadOptionalAccess&)
    {
        t2 = true;
    }
    zs_assert(t1 == !m.has && t2 == !m.has, "access fails exactly on empty optionals");
    if (m.has)
    {
        zs_assert(got == got2 && c->get() == got, "all accessors agree");
        if (m.known)
            zs_assert(got == m.v, "expected value");
        m.v = got;
        m.known = true;
    }
}

// what a throwing operation may leave behind: the old value or nothing
template <typename O>
void afterThrow(O& o, Model& m)
{
    if (m.has && !o.has_value())
        m.has = false;
}

template <typename T, typename ALLOC>
void history(unsigned steps, bool failing)
{
    using O = BasicOptional<ALLOC, T>;
    constexpr bool heap = detail::is_optional_heap_allocated_v<T>;
    const uint64_t before = zs_heap_live();
    {
        O o[2] = {O(life::make<ALLOC>(1)), O(life::make<ALLOC>(2))};
        Model m[2];
        for (unsigned s = 0; s < steps; ++s)
        {
            const unsigned op = zs_choose(0, 13, "op");
            const unsigned i = zs_choose(0, 1, "target"), j = 1 - i;
            const unsigned fail = failing ? zs_choose(0, 2, "fail") : 0;
            const uint32_t v = zs_u32("v");
            Model r = m[i];
            bool moved = false, stolen = false;
            bool threw = false;
            switch (op)
            {
            case 0:
                life::throwIn = fail;
                threw = life::booms([&] { o[i].emplace(v); });
                r = {true, true, v};
                break;
            case 1:
                threw = life::booms([&] {
                    T t(v);
                    life::throwIn = fail;
                    o[i] = std::move(t);
                });
                r = {true, true, v};
                break;
            case 2:
                threw = life::booms([&] {
                    const T t(v);
                    life::throwIn = fail;
                    o[i] = t;
                });
                r = {true, true, v};
                break;
            case 3:
                life::throwIn = fail;
                threw = life::booms([&] { o[i] = o[j]; });
                r = m[j];
                break;
            case 4:
                life::throwIn = fail;
                threw = life::booms([&] { o[i] = std::move(o[j]); });
                r = m[j];
                moved = true;
                break;
            case 5:
                if (heap && !std::allocator_traits<ALLOC>::propagate_on_container_swap::value &&
                        !(o[0].get_allocator_ref() == o[1].get_allocator_ref()))
                    zs_stop(); // swapping these is undefined, as for all containers
                if (failing)
                    zs_stop();
                o[i].swap(o[j]);
                std::swap(m[i], m[j]);
                r = m[i];
                break;
            case 6:
                o[i].reset();
                r.has = false;
                break;
            case 7:
                o[i] = std::nullopt;
                r.has = false;
                break;
            case 8:
            {
                O& self = o[i];
                life::throwIn = fail;
                threw = life::booms([&] { o[i] = self; });
                break;
            }
            case 9:
                if (!m[i].has)
                    zs_stop();
                life::throwIn = fail;
                threw = life::booms([&] { o[i] = *std::as_const(o[i]); });
                break;
            case 10:
                life::throwIn = fail;
                threw = life::booms([&] {
                    const O c(o[i]);
                    Model n = m[i];
                    life::throwIn = 0;
                    zs_assert(c.has_value() == n.has && (!n.has || c->get() == n.v), "copy has the value");
                    zs_assert(c == o[i] && !(c != o[i]) && !(c < o[i]) && !(c > o[i]), "copy is equal");
                });
                break;
            case 11:
                if (failing)
                    zs_stop();
                {
                    O c(std::move(o[i]));
                    zs_assert(c.has_value() == m[i].has && (!m[i].has || c->get() == m[i].v), "moved value");
                    o[i] = std::move(c); // give it back
                }
                break;
            case 12:
                life::throwIn = fail;
                threw = life::booms([&] {
                    O c(o[i], life::make<ALLOC>(2 - i));
                    life::throwIn = 0;
                    zs_assert(c.has_value() == m[i].has && (!m[i].has || c->get() == m[i].v), "copy with allocator");
                    O d(std::move(c), life::make<ALLOC>(1));
                    zs_assert(d.has_value() == m[i].has && (!m[i].has || d->get() == m[i].v), "move with allocator");
                    const T def(v);
                    zs_assert(d.value_or(def).get() == (m[i].has ? m[i].v : v), "value or default");
                });
                break;
            default:
                threw = life::booms([&] {
                    T t(v);
                    life::throwIn = fail;
                    O c(std::in_place, life::make<ALLOC>(1), t);
                    life::throwIn = 0;
                    zs_assert(c.has_value() && c->get() == v && c == t && !(c != t), "constructed in place");
                    zs_assert((c == o[i]) == (m[i].has && m[i].v == v), "equality with another optional");
                    zs_assert((c < o[i]) == (m[i].has && v < m[i].v), "order");
                    zs_assert((o[i] < c) == (!m[i].has || m[i].v < v), "empty optionals come first");
                });
                break;
            }
            if (threw)
            {
                zs_reach("threw");
                if (op != 10 && op != 12 && op != 13)
                    afterThrow(o[i], m[i]);
                if (moved && m[j].has) // a failed move leaves the source valid
                {
                    m[j].has = o[j].has_value();
                    m[j].known = false;
                }
            }
            else
            {
                m[i] = r;
                if (moved && m[j].has)
                {
                    // the source may keep a moved-from value or be emptied
                    m[j].has = o[j].has_value();
                    m[j].known = false;
                }
            }
            (void)stolen;
            check(o[0], m[0], "0");
            check(o[1], m[1], "1");
            zs_assert(life::numObjects == static_cast<size_t>(m[0].has) + static_cast<size_t>(m[1].has), "one live value per engaged optional");
        }
    }
    life::checkNothingLeft();
    zs_assert(zs_heap_live() == before, "no heap block is left");
    zs_reach("done");
}
} // namespace opthist
