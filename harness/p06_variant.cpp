// P06: variant
#include "p06_common.hpp"

using namespace p06;

namespace
{

// ---- variant ---------------------------------------------------------------------------------------------------
enum class Ix : size_t
{
    A,
    B,
    C,
    D,
    E,
    F,
    G,
    H // the same type as B
};
template <typename ALLOC>
using VariantOf =
        zserio::BasicVariant<ALLOC, Ix, uint32_t, Small, SmallThrowingMove, Big, Own, Text<ALLOC>, BigThrowingMove, Small>;

template <typename ALLOC, typename F>
void withIndex(size_t i, const F& f)
{
    switch (i)
    {
    case 0:
        f(Is<uint32_t>(), std::integral_constant<Ix, Ix::A>());
        break;
    case 1:
        f(Is<Small>(), std::integral_constant<Ix, Ix::B>());
        break;
    case 2:
        f(Is<SmallThrowingMove>(), std::integral_constant<Ix, Ix::C>());
        break;
    case 3:
        f(Is<Big>(), std::integral_constant<Ix, Ix::D>());
        break;
    case 4:
        f(Is<Own>(), std::integral_constant<Ix, Ix::E>());
        break;
    case 5:
        f(Is<Text<ALLOC>>(), std::integral_constant<Ix, Ix::F>());
        break;
    case 6:
        f(Is<BigThrowingMove>(), std::integral_constant<Ix, Ix::G>());
        break;
    default:
        f(Is<Small>(), std::integral_constant<Ix, Ix::H>());
        break;
    }
}

struct ToValue
{
    template <typename T>
    uint64_t operator()(const T& v) const
    {
        return valueOf(v);
    }
};

template <typename ALLOC>
M observeVariant(Ctx& ctx, VariantOf<ALLOC>& a)
{
    const VariantOf<ALLOC>& c = a;
    M m;
    const size_t index = static_cast<size_t>(c.index());
    if (c.valueless_by_exception())
    {
        if (index != std::variant_npos)
        {
            ctx.fail("holder-inconsistent", "a valueless variant has index %zu", index);
        }
        expectError(ctx, "visiting a valueless variant", [&] {
            (void)c.visit(ToValue());
        });
        expectError(ctx, "visiting a valueless mutable variant", [&] {
            (void)a.visit(ToValue());
        });
        unsigned visits = 0;
        expectError(ctx, "visiting a valueless variant for nothing", [&] {
            c.visit([&](const auto&) {
                ++visits;
            });
        });
        expectError(ctx, "visiting a valueless mutable variant for nothing", [&] {
            a.visit([&](auto&&) {
                ++visits;
            });
        });
        expectError(ctx, "getting from a valueless mutable variant", [&] {
            (void)a.template get<Ix(0)>();
        });
        if (visits != 0)
        {
            ctx.fail("visit-wrong-value", "a visitor of a valueless variant was called");
        }
        expectError(ctx, "hashing a valueless variant", [&] {
            (void)zserio::calcHashCode(1U, c);
        });
    }
    else if (index >= 8)
    {
        ctx.fail("holder-inconsistent", "a variant with a value has index %zu", index);
    }
    for (size_t i = 0; i < 8; ++i)
    {
        withIndex<ALLOC>(i, [&](auto tag, auto ix) {
            using T = typename decltype(tag)::type;
            constexpr Ix I = decltype(ix)::value;
            const T* p = c.template get_if<I>();
            if (p != a.template get_if<I>())
            {
                ctx.fail("holder-inconsistent", "constant and mutable access disagree");
            }
            if ((p != nullptr) != (index == i))
            {
                ctx.fail("holder-inconsistent", "the variant says it holds alternative %zu, but alternative %zu is %s",
                        index, i, p != nullptr ? "there" : "missing");
            }
            if (p != nullptr)
            {
                m.type = static_cast<int>(i);
                m.v = valueOf(*p);
                if (&c.template get<I>() != p || &a.template get<I>() != p)
                {
                    ctx.fail("holder-inconsistent", "get and get_if disagree");
                }
            }
            else
            {
                expectError(ctx, "getting an alternative that is not held", [&] {
                    (void)c.template get<I>();
                });
            }
        });
    }
    if (m.type >= 0)
    {
        if (c.visit(ToValue()) != m.v || zserio::visit(ToValue(), a) != m.v)
        {
            ctx.fail("visit-wrong-value", "visiting gives another value than getting");
        }
        unsigned visits = 0;
        uint64_t seen[2] = {};
        c.visit([&](const auto& value) {
            seen[0] = valueOf(value);
            ++visits;
        });
        a.visit([&](auto&& value) {
            seen[1] = valueOf(value);
            ++visits;
        });
        if (visits != 2 || seen[0] != m.v || seen[1] != m.v)
        {
            ctx.fail("visit-wrong-value", "a visitor without a result was called %u times", visits);
        }
        if (m.v != MOVED)
        {
            uint32_t expected = zserio::calcHashCode(7U, index);
            withIndex<ALLOC>(index, [&](auto, auto ix) {
                using zserio::calcHashCode;
                expected = calcHashCode(expected, *c.template get_if<decltype(ix)::value>());
            });
            if (zserio::calcHashCode(7U, c) != expected)
            {
                ctx.fail("hash-wrong-value", "the hash code is not that of the held value");
            }
        }
    }
    (void)(c < c);
    ctx.check();
    return m;
}

template <typename ALLOC>
void variantHistory(Ctx& ctx)
{
    MemoryScope scope;
    {
        using V = VariantOf<ALLOC>;
        Slots<V, 3> all;
        const auto obs = [&](V& a) {
            return observeVariant<ALLOC>(ctx, a);
        };
        do
        {
            const size_t i = ctx.choose(3);
            const size_t j = ctx.choose(3);
            Slot<V>& x = all.s[i];
            Slot<V>& y = all.s[j];
            const size_t op = ctx.choose(12);
            const size_t type = ctx.choose(8);
            const uint64_t v = 1 + ctx.choose(1000);
            const ALLOC alloc = allocatorNo<ALLOC>(ctx.choose(2));
            const M nv{static_cast<int>(type), v};
            const M oldX = x.m;
            const M oldY = y.m;
            ctx.step();
            ctx.shape(op * 64 + type * 8 + static_cast<uint64_t>(x.m.type + 1) + (i == j ? 1000 : 0));
            ctx.shape(static_cast<uint64_t>(y.m.type + 1));
            const auto say = [&](const char* what) {
                ctx.log("variant %zu (alternative %d) %s, other %zu (alternative %d), alternative %zu", i, x.m.type,
                        what, j, y.m.type, type);
                count(std::string("op.variant-").append(what).substr(0, 50).c_str());
            };
            switch (op)
            {
            case 0: // construct default
            case 1: // in place
            {
                x.drop();
                x.m = EMPTY;
                say(op == 0 ? "construct" : "construct in place");
                Out o = Out::OK;
                withIndex<ALLOC>(type, [&](auto tag, auto ix) {
                    using T = typename decltype(tag)::type;
                    constexpr Ix I = decltype(ix)::value;
                    T value = make<T>(v, alloc);
                    o = perform(ctx, [&] {
                        if (op == 0)
                        {
                            x.build(alloc);
                        }
                        else
                        {
                            x.build(zserio::in_place_index<I>, alloc, static_cast<const T&>(value));
                        }
                    });
                });
                settle(ctx, x, {o != Out::OK ? EMPTY : op == 0 ? M{0, 0} : nv}, obs, "the new variant");
                break;
            }
            case 2:
            case 3: // copy construct
                if (!y.alive || i == j)
                {
                    break;
                }
                x.drop();
                x.m = EMPTY;
                {
                    say(op == 2 ? "copy construct" : "copy construct with allocator");
                    const Out o = perform(ctx, [&] {
                        if (op == 2)
                        {
                            x.build(static_cast<const V&>(y.h()));
                        }
                        else
                        {
                            x.build(static_cast<const V&>(y.h()), alloc);
                        }
                    });
                    settle(ctx, x, {o == Out::OK ? oldY : EMPTY}, obs, "the copy");
                    settle(ctx, y, {oldY}, obs, "the source");
                }
                break;
            case 4:
            case 5: // move construct
                if (!y.alive || i == j)
                {
                    break;
                }
                x.drop();
                x.m = EMPTY;
                {
                    say(op == 4 ? "move construct" : "move construct with allocator");
                    const Out o = perform(ctx, [&] {
                        if (op == 4)
                        {
                            x.build(std::move(y.h()));
                        }
                        else
                        {
                            x.build(std::move(y.h()), alloc);
                        }
                    });
                    settle(ctx, x, {o == Out::OK ? oldY : EMPTY}, obs, "the new variant");
                    settle(ctx, y, {EMPTY, oldY, leftover(oldY)}, obs, "the source");
                }
                break;
            case 6: // copy assign
                if (x.alive && y.alive)
                {
                    say("copy assign");
                    const Out o = perform(ctx, [&] {
                        x.h() = static_cast<const V&>(y.h());
                    });
                    if (i != j)
                    {
                        settle(ctx, x, o == Out::OK ? std::vector<M>{oldY} : std::vector<M>{EMPTY, oldX}, obs,
                                "the target");
                    }
                    settle(ctx, y, {oldY}, obs, "the source");
                }
                break;
            case 7: // move assign
                if (x.alive && y.alive)
                {
                    say("move assign");
                    const Out o = perform(ctx, [&] {
                        x.h() = std::move(y.h());
                    });
                    if (i != j)
                    {
                        settle(ctx, x, o == Out::OK ? std::vector<M>{oldY} : std::vector<M>{EMPTY, oldX}, obs,
                                "the target");
                        settle(ctx, y, {EMPTY, oldY, leftover(oldY)}, obs, "the source");
                    }
                    else
                    {
                        settle(ctx, x, {oldX}, obs, "the variant moved onto itself");
                    }
                }
                break;
            case 8:
            case 9: // emplace
                if (x.alive)
                {
                    Out o = Out::OK;
                    say(op == 8 ? "emplace by copy" : "emplace by move");
                    withIndex<ALLOC>(type, [&](auto tag, auto ix) {
                        using T = typename decltype(tag)::type;
                        constexpr Ix I = decltype(ix)::value;
                        T value = make<T>(v, alloc);
                        o = perform(ctx, [&] {
                            if (op == 8)
                            {
                                x.h().template emplace<I>(static_cast<const T&>(value));
                            }
                            else
                            {
                                x.h().template emplace<I>(std::move(value));
                            }
                        });
                    });
                    settle(ctx, x, o == Out::OK ? std::vector<M>{nv} : std::vector<M>{EMPTY, oldX}, obs,
                            "the variant");
                }
                break;
            case 10: // swap
                if (x.alive && y.alive)
                {
                    say("swap");
                    const Out o = perform(ctx, [&] {
                        x.h().swap(y.h());
                    });
                    if (o == Out::OK)
                    {
                        settle(ctx, x, {oldY}, obs, "the first of the swapped");
                        settle(ctx, y, {oldX}, obs, "the second of the swapped");
                    }
                    else
                    {
                        settle(ctx, x, {oldX, oldY, EMPTY}, obs, "the first of the swapped");
                        settle(ctx, y, {oldY, oldX, EMPTY}, obs, "the second of the swapped");
                    }
                }
                break;
            default: // compare
                if (x.alive && y.alive)
                {
                    say("compare");
                    const V& a = x.h();
                    const V& b = y.h();
                    bool eq = false;
                    bool lt = false;
                    perform(ctx, [&] {
                        eq = a == b;
                        lt = a < b;
                        (void)(a > b);
                    });
                    if (oldX.type >= 0 && oldY.type >= 0 && oldX.v < MOVED && oldY.v < MOVED &&
                            (eq != (oldX.type == oldY.type && oldX.v == oldY.v) || (eq && lt) ||
                                    (oldX.type == oldY.type && oldX.type != 5 && lt != (oldX.v < oldY.v)) ||
                                    (oldX.type != oldY.type && lt != (oldX.type < oldY.type))))
                    {
                        ctx.fail("compare-wrong", "comparison disagrees with the held values");
                    }
                }
                break;
            }
            size_t expected = 0;
            for (auto& s : all.s)
            {
                settle(ctx, s, {s.m}, obs, "an uninvolved variant");
                expected += s.m.type > 0 && s.m.type != 5 ? 1 : 0;
                ctx.mixHash(static_cast<uint64_t>(s.m.type));
            }
            if (g_live.size() != expected)
            {
                ctx.fail("value-leaked", "%zu contained values are alive instead of %zu", g_live.size(), expected);
            }
            ctx.state(static_cast<uint64_t>(
                    10000 + (all.s[0].m.type + 1) * 100 + (all.s[1].m.type + 1) * 10 + all.s[2].m.type + 1));
        } while (ctx.more(9, 10));
    }
    finish(ctx);
}

} // namespace

namespace p06
{
void variant_std(Ctx& ctx)
{
    variantHistory<StdAlloc>(ctx);
}
void variant_pmr(Ctx& ctx)
{
    variantHistory<PmrAlloc>(ctx);
}
void variant_ppmr(Ctx& ctx)
{
    variantHistory<PpmrAlloc>(ctx);
}
} // namespace p06
