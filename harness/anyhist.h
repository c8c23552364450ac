// Histories of operations over two type erased values or two variants, compared with a model.
#pragma once
#include "lifetime.h"

#include "zserio/Any.h"
#include "zserio/Variant.h"

namespace anyhist
{
using namespace zserio;
using Small = life::Value<4>;        // in place
using Big = life::Value<40>;         // on the heap
using Awkward = life::Value<4, true>; // small, but its move can fail

enum Kind : unsigned
{
    NONE,
    SMALL,
    BIG,
    AWKWARD
};

struct Model
{
    unsigned kind = NONE;
    bool known = true;
    uint32_t v = 0;
};

template <typename T, typename A>
bool readAs(A& a, uint32_t& v)
{
    const A& c = a;
    bool thrown = false, thrown2 = false;
    uint32_t got = 0, got2 = 0;
    try
    {
        got = c.template get<T>().get();
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    try
    {
        got2 = a.template get<T>().get();
    }
    catch (const CppRuntimeException&)
    {
        thrown2 = true;
    }
    const T* p = c.template get_if<T>();
    T* q = a.template get_if<T>();
    zs_assert(thrown == thrown2 && (p == nullptr) == thrown && p == q, "accessors agree");
    zs_assert(c.template isType<T>() == !thrown, "the type test agrees with access");
    if (!thrown)
        zs_assert(got == got2 && p->get() == got, "accessors give the same value");
    v = got;
    return !thrown;
}

template <typename A>
void check(A& a, Model& m)
{
    zs_assert(a.hasValue() == (m.kind != NONE), "holds a value as expected");
    uint32_t v[4] = {0, 0, 0, 0};
    const bool s = readAs<Small>(a, v[SMALL]), b = readAs<Big>(a, v[BIG]), w = readAs<Awkward>(a, v[AWKWARD]);
    zs_assert(s == (m.kind == SMALL) && b == (m.kind == BIG) && w == (m.kind == AWKWARD), "holds the expected type only");
    zs_assert(!a.template isType<uint32_t>() && a.template get_if<uint32_t>() == nullptr, "holds no other type");
    if (m.known && m.kind != NONE)
        zs_assert(v[m.kind] == m.v, "expected value");
    m.v = v[m.kind];
    m.known = true;
}

template <typename A, typename T>
bool store(A& a, unsigned how, uint32_t v, unsigned fail)
{
    return life::booms([&] {
        if (how == 0)
        {
            life::throwIn = fail;
            T& r = a.template emplace<T>(v);
            life::throwIn = 0;
            zs_assert(r.get() == v && &r == a.template get_if<T>(), "emplace returns the stored value");
        }
        else if (how == 1)
        {
            const T t(v);
            life::throwIn = fail;
            a.set(t);
            life::throwIn = 0;
            zs_assert(t.get() == v, "copied from");
        }
        else
        {
            T t(v);
            life::throwIn = fail;
            a = std::move(t);
        }
    });
}

template <typename ALLOC>
void any(unsigned steps, bool failing)
{
    using A = BasicAny<ALLOC>;
    const uint64_t before = zs_heap_live();
    {
        A a[2] = {A(life::make<ALLOC>(1)), A(life::make<ALLOC>(2))};
        Model m[2];
        for (unsigned s = 0; s < steps; ++s)
        {
            const unsigned op = zs_choose(0, 18, "op");
            const unsigned i = zs_choose(0, 1, "target"), j = 1 - i;
            const unsigned fail = failing ? zs_choose(0, 3, "fail") : 0;
            const uint32_t v = zs_u32("v");
            Model r = m[i];
            bool threw = false, moved = false, fresh = false;
            switch (op)
            {
            case 0: case 1: case 2: threw = store<A, Small>(a[i], op % 3, v, fail); r = {SMALL, true, v}; break;
            case 3: case 4: case 5: threw = store<A, Big>(a[i], op % 3, v, fail); r = {BIG, true, v}; break;
            case 6: case 7: case 8: threw = store<A, Awkward>(a[i], op % 3, v, fail); r = {AWKWARD, true, v}; break;
            case 9:
                life::throwIn = fail;
                threw = life::booms([&] { a[i] = a[j]; });
                r = m[j];
                break;
            case 10:
                life::throwIn = fail;
                threw = life::booms([&] { a[i] = std::move(a[j]); });
                r = m[j];
                moved = true;
                break;
            case 11:
                if (failing)
                    zs_stop();
                a[i].swap(a[j]);
                std::swap(m[i], m[j]);
                r = m[i];
                break;
            case 12:
                a[i].reset();
                r = Model();
                break;
            case 13:
            {
                A& self = a[i];
                life::throwIn = fail;
                threw = life::booms([&] { a[i] = self; });
                break;
            }
            case 14: // its own value
                if (m[i].kind == NONE)
                    zs_stop();
                life::throwIn = fail;
                threw = life::booms([&] {
                    const A& c = a[i];
                    if (m[i].kind == SMALL)
                        a[i] = c.template get<Small>();
                    else if (m[i].kind == BIG)
                        a[i] = c.template get<Big>();
                    else
                        a[i].set(c.template get<Awkward>());
                });
                break;
            case 15:
                life::throwIn = fail;
                threw = life::booms([&] {
                    A c(a[i]);
                    life::throwIn = 0;
                    Model n = m[i];
                    check(c, n);
                });
                fresh = true;
                break;
            case 16:
                life::throwIn = fail;
                threw = life::booms([&] {
                    A c(a[i], life::make<ALLOC>(2 - i));
                    A d(c, life::make<ALLOC>(1));
                    life::throwIn = 0;
                    Model n = m[i];
                    check(c, n);
                    check(d, n);
                });
                fresh = true;
                break;
            case 17:
                if (failing)
                    zs_stop();
                {
                    A c(std::move(a[i]));
                    Model n = m[i];
                    check(c, n);
                    A d(std::move(c), life::make<ALLOC>(2 - i));
                    check(d, n);
                    a[i] = std::move(d); // give it back
                }
                break;
            default:
                life::throwIn = fail;
                threw = life::booms([&] {
                    A c(Big(v), life::make<ALLOC>(1));
                    life::throwIn = 0;
                    Model n = {BIG, true, v};
                    check(c, n);
                });
                fresh = true;
                break;
            }
            if (threw)
            {
                zs_reach("threw");
                // the old value or nothing; a failed move may leave a moved-from value
                if (!fresh && !a[i].hasValue())
                    m[i].kind = NONE;
                if (moved)
                {
                    if (!a[j].hasValue())
                        m[j].kind = NONE;
                    m[j].known = false;
                }
            }
            else
            {
                m[i] = r;
                if (moved && m[j].kind != NONE)
                {
                    if (!a[j].hasValue())
                        m[j].kind = NONE;
                    m[j].known = false;
                }
            }
            check(a[0], m[0]);
            check(a[1], m[1]);
            zs_assert(life::numObjects == static_cast<size_t>(m[0].kind != NONE) + static_cast<size_t>(m[1].kind != NONE),
                    "one live value per held value");
        }
    }
    life::checkNothingLeft();
    zs_assert(zs_heap_live() == before, "no heap block is left");
    zs_reach("done");
}

enum class Idx : size_t
{
    FIRST,
    BIG,
    SECOND, // same type as the first
    NUMBER,
    AWKWARD
};
constexpr size_t NPOS = std::variant_npos;

struct VModel
{
    size_t index = 0;
    bool known = true;
    uint32_t v = 0;
};

template <typename V, Idx I>
uint32_t raw(const V& x)
{
    if constexpr (I == Idx::NUMBER)
        return x.template get<I>();
    else
        return x.template get<I>().get();
}

template <Idx I, typename V>
void checkAt(V& x, VModel& m)
{
    const V& c = x;
    const bool here = m.index == static_cast<size_t>(I);
    bool thrown = false;
    uint32_t got = 0;
    try
    {
        got = raw<V, I>(c);
    }
    catch (const BadVariantAccess&)
    {
        thrown = true;
    }
    zs_assert(thrown == !here && (x.template get_if<I>() != nullptr) == here && (c.template get_if<I>() != nullptr) == here,
            "access succeeds exactly at the active index");
    if (here)
    {
        if (m.known)
            zs_assert(got == m.v, "expected value");
        m.v = got;
        m.known = true;
    }
}

struct Visitor
{
    uint32_t operator()(uint32_t v) const
    {
        return v;
    }
    template <size_t S, bool M>
    uint32_t operator()(const life::Value<S, M>& v) const
    {
        return v.get();
    }
};

template <typename V>
void check(V& x, VModel& m, int)
{
    const V& c = x;
    zs_assert(static_cast<size_t>(c.index()) == m.index, "active index");
    zs_assert(c.valueless_by_exception() == (m.index == NPOS), "valueless");
    checkAt<Idx::FIRST>(x, m);
    checkAt<Idx::BIG>(x, m);
    checkAt<Idx::SECOND>(x, m);
    checkAt<Idx::NUMBER>(x, m);
    checkAt<Idx::AWKWARD>(x, m);
    bool thrown = false, thrown2 = false;
    uint32_t got = 0, got2 = 0;
    try
    {
        got = c.visit(Visitor());
    }
    catch (const BadVariantAccess&)
    {
        thrown = true;
    }
    try
    {
        x.visit([&](const auto& e) { got2 = Visitor()(e); });
    }
    catch (const BadVariantAccess&)
    {
        thrown2 = true;
    }
    zs_assert(thrown == (m.index == NPOS) && thrown2 == thrown, "visiting fails exactly when valueless");
    if (!thrown)
        zs_assert(got == m.v && got2 == m.v, "the visitor gets the active value");
}

template <Idx I, typename V>
void emplaceAt(V& x, uint32_t v)
{
    auto& r = x.template emplace<I>(v);
    const unsigned t = life::throwIn;
    life::throwIn = 0;
    zs_assert(&r == x.template get_if<I>(), "emplace returns the stored value");
    life::throwIn = t;
}

inline size_t objs(const VModel& m)
{
    return m.index != NPOS && m.index != static_cast<size_t>(Idx::NUMBER) ? 1 : 0;
}

template <typename ALLOC>
void variant(unsigned steps, bool failing)
{
    using V = BasicVariant<ALLOC, Idx, Small, Big, Small, uint32_t, Awkward>;
    const uint64_t before = zs_heap_live();
    {
        V x[2] = {V(life::make<ALLOC>(1)), V(in_place_index<Idx::BIG>, life::make<ALLOC>(2), 7U)};
        VModel m[2] = {{0, true, 0}, {1, true, 7}};
        for (unsigned s = 0; s < steps; ++s)
        {
            const unsigned op = zs_choose(0, 12, "op");
            const unsigned i = zs_choose(0, 1, "target"), j = 1 - i;
            const unsigned fail = failing ? zs_choose(0, 3, "fail") : 0;
            const uint32_t v = zs_u32("v");
            VModel r = m[i];
            bool threw = false, moved = false, fresh = false;
            life::throwIn = fail;
            switch (op)
            {
            case 0: threw = life::booms([&] { emplaceAt<Idx::FIRST>(x[i], v); }); r = {0, true, v}; break;
            case 1: threw = life::booms([&] { emplaceAt<Idx::BIG>(x[i], v); }); r = {1, true, v}; break;
            case 2: threw = life::booms([&] { emplaceAt<Idx::SECOND>(x[i], v); }); r = {2, true, v}; break;
            case 3: threw = life::booms([&] { emplaceAt<Idx::NUMBER>(x[i], v); }); r = {3, true, v}; break;
            case 4: threw = life::booms([&] { emplaceAt<Idx::AWKWARD>(x[i], v); }); r = {4, true, v}; break;
            case 5:
                threw = life::booms([&] { x[i] = x[j]; });
                r = m[j];
                break;
            case 6:
                threw = life::booms([&] { x[i] = std::move(x[j]); });
                r = m[j];
                moved = true;
                break;
            case 7:
                if (failing)
                    zs_stop();
                x[i].swap(x[j]);
                std::swap(m[i], m[j]);
                r = m[i];
                break;
            case 8:
            {
                V& self = x[i];
                threw = life::booms([&] { x[i] = self; });
                break;
            }
            case 9:
                threw = life::booms([&] {
                    V c(x[i]);
                    life::throwIn = 0;
                    VModel n = m[i];
                    check(c, n, 0);
                    zs_assert(c == x[i] && !(c != x[i]) && !(c < x[i]) && c >= x[i] && c <= x[i], "a copy is equal");
                });
                fresh = true;
                break;
            case 10:
                threw = life::booms([&] {
                    V c(x[i], life::make<ALLOC>(2 - i));
                    life::throwIn = 0;
                    VModel n = m[i];
                    check(c, n, 0);
                });
                fresh = true;
                break;
            case 11:
                if (failing)
                    zs_stop();
                {
                    V c(std::move(x[i]));
                    VModel n = m[i];
                    check(c, n, 0);
                    V d(std::move(c), life::make<ALLOC>(2 - i));
                    check(d, n, 0);
                    x[i] = std::move(d); // give it back
                }
                break;
            default:
                threw = life::booms([&] {
                    V c(in_place_index<Idx::SECOND>, life::make<ALLOC>(1), v);
                    life::throwIn = 0;
                    VModel n = {2, true, v};
                    check(c, n, 0);
                    zs_assert((c == x[i]) == (m[i].index == 2 && m[i].v == v), "equality");
                    if (m[i].index != NPOS)
                    {
                        zs_assert((c < x[i]) == (2 < m[i].index || (m[i].index == 2 && v < m[i].v)), "order");
                        zs_assert((c > x[i]) == (2 > m[i].index || (m[i].index == 2 && v > m[i].v)), "order");
                    }
                });
                fresh = true;
                break;
            }
            if (threw)
            {
                zs_reach("threw");
                if (!fresh && x[i].valueless_by_exception())
                    m[i].index = NPOS;
                if (moved)
                {
                    if (x[j].valueless_by_exception())
                        m[j].index = NPOS;
                    m[j].known = m[j].index == static_cast<size_t>(Idx::NUMBER);
                }
            }
            else
            {
                m[i] = r;
                if (moved)
                {
                    if (x[j].valueless_by_exception())
                        m[j].index = NPOS;
                    m[j].known = false;
                }
            }
            check(x[0], m[0], 0);
            check(x[1], m[1], 0);
            zs_assert(life::numObjects == objs(m[0]) + objs(m[1]), "one live value per held value");
        }
    }
    life::checkNothingLeft();
    zs_assert(zs_heap_live() == before, "no heap block is left");
    zs_reach("done");
}
} // namespace anyhist
