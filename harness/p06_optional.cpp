// P06: optional
#include "p06_common.hpp"

using namespace p06;

namespace
{

// ---- optional --------------------------------------------------------------------------------------------------
template <typename H>
M observeOptional(Ctx& ctx, H& a)
{
    const H& c = a;
    M m;
    if (c.has_value() != static_cast<bool>(c) || (c == std::nullopt) == c.has_value())
    {
        ctx.fail("holder-inconsistent", "the ways to ask for a value disagree");
    }
    if (c.has_value())
    {
        m.type = 0;
        m.v = valueOf(c.value());
        if (&*c != &c.value() || &*a != &a.value() || &a.value() != &c.value())
        {
            ctx.fail("holder-inconsistent", "the ways to get the value disagree");
        }
        if (m.v != MOVED)
        {
            using zserio::calcHashCode;
            if (calcHashCode(7U, c) != calcHashCode(7U, *c))
            {
                ctx.fail("hash-wrong-value", "the hash code is not that of the held value");
            }
        }
    }
    else
    {
        expectError(ctx, "getting the value of an empty optional", [&] {
            (void)c.value();
        });
        expectError(ctx, "getting the value of an empty optional", [&] {
            (void)*a;
        });
        if (zserio::calcHashCode(7U, c) != 7U)
        {
            ctx.fail("hash-wrong-value", "an empty optional changes the hash code");
        }
    }
    ctx.check();
    return m;
}

template <typename ALLOC, typename T, typename U>
void optionalHistory(Ctx& ctx)
{
    constexpr bool SAME = std::is_same_v<T, U>;
    // swapping contained containers with different allocators is their own precondition
    constexpr bool AWARE = std::is_same_v<T, Text<ALLOC>> && std::is_constructible_v<ALLOC, std::pmr::memory_resource*>;
    {
        using H = zserio::BasicOptional<ALLOC, T>;
        using HU = zserio::BasicOptional<ALLOC, U>;
        Slots<H, 3> all;
        const auto obs = [&](H& a) {
            return observeOptional(ctx, a);
        };
        do
        {
            const size_t i = ctx.choose(3);
            const size_t j = ctx.choose(3);
            Slot<H>& x = all.s[i];
            Slot<H>& y = all.s[j];
            const size_t op = ctx.choose(21);
            const uint64_t v = 1 + ctx.choose(1000);
            const ALLOC alloc = allocatorNo<ALLOC>(ctx.choose(2));
            const M nv{0, v};
            const M oldX = x.m;
            const M oldY = y.m;
            ctx.step();
            ctx.shape(op * 64 + static_cast<uint64_t>(x.m.type + 1) + (i == j ? 10000 : 0) + sizeof(T) * 100000);
            ctx.shape(static_cast<uint64_t>(y.m.type + 1));
            const auto say = [&](const char* what) {
                ctx.log("optional %zu (%s) %s, other %zu (%s)", i, x.m.type < 0 ? "empty" : "full", what, j,
                        y.m.type < 0 ? "empty" : "full");
                count(std::string("op.optional-").append(what).substr(0, 50).c_str());
            };
            switch (op)
            {
            case 0:
            case 1:
            case 2: // construct with a value
            {
                x.drop();
                x.m = EMPTY;
                T value = make<T>(v, alloc);
                say(op == 0 ? "construct by copy" : op == 1 ? "construct by move" : "construct in place");
                const Out o = perform(ctx, [&] {
                    if (op == 0)
                    {
                        x.build(static_cast<const T&>(value), alloc);
                    }
                    else if (op == 1)
                    {
                        x.build(std::move(value), alloc);
                    }
                    else
                    {
                        x.build(std::in_place, alloc, static_cast<const T&>(value));
                    }
                });
                if (op != 1 && valueOf(value) != v)
                {
                    ctx.fail("source-changed", "copying a value changed it");
                }
                settle(ctx, x, {o == Out::OK ? nv : EMPTY}, obs, "the new optional");
                break;
            }
            case 3:
            case 4: // copy construct
                if (!y.alive || i == j)
                {
                    break;
                }
                x.drop();
                x.m = EMPTY;
                {
                    say(op == 3 ? "copy construct" : "copy construct with allocator");
                    const Out o = perform(ctx, [&] {
                        if (op == 3)
                        {
                            x.build(static_cast<const H&>(y.h()));
                        }
                        else
                        {
                            x.build(static_cast<const H&>(y.h()), alloc);
                        }
                    });
                    settle(ctx, x, {o == Out::OK ? oldY : EMPTY}, obs, "the copy");
                    settle(ctx, y, {oldY}, obs, "the source");
                }
                break;
            case 5:
            case 6: // move construct
                if (!y.alive || i == j)
                {
                    break;
                }
                x.drop();
                x.m = EMPTY;
                {
                    say(op == 5 ? "move construct" : "move construct with allocator");
                    const Out o = perform(ctx, [&] {
                        if (op == 5)
                        {
                            x.build(std::move(y.h()));
                        }
                        else
                        {
                            x.build(std::move(y.h()), alloc);
                        }
                    });
                    settle(ctx, x, {o == Out::OK ? oldY : EMPTY}, obs, "the new optional");
                    settle(ctx, y, {EMPTY, leftover(oldY)}, obs, "the source");
                }
                break;
            case 7: // copy assign
                if (x.alive && y.alive)
                {
                    say("copy assign");
                    const Out o = perform(ctx, [&] {
                        x.h() = static_cast<const H&>(y.h());
                    });
                    if (i != j)
                    {
                        settle(ctx, x, o == Out::OK ? std::vector<M>{oldY} : std::vector<M>{EMPTY, oldX}, obs,
                                "the target");
                    }
                    settle(ctx, y, {oldY}, obs, "the source");
                }
                break;
            case 8: // move assign
                if (x.alive && y.alive)
                {
                    say("move assign");
                    const Out o = perform(ctx, [&] {
                        x.h() = std::move(y.h());
                    });
                    if (i != j)
                    {
                        settle(ctx, x, o == Out::OK ? std::vector<M>{oldY} : std::vector<M>{EMPTY, oldX}, obs,
                                "the target");
                        settle(ctx, y, o == Out::OK ? std::vector<M>{EMPTY, leftover(oldY)}
                                                    : std::vector<M>{EMPTY, oldY},
                                obs, "the source");
                    }
                    else
                    {
                        settle(ctx, x, {oldX}, obs, "the optional moved onto itself");
                    }
                }
                break;
            case 9:
            case 10: // assign a value
                if (x.alive)
                {
                    T value = make<T>(v, alloc);
                    say(op == 9 ? "assign value by copy" : "assign value by move");
                    const Out o = perform(ctx, [&] {
                        if (op == 9)
                        {
                            x.h() = static_cast<const T&>(value);
                        }
                        else
                        {
                            x.h() = std::move(value);
                        }
                    });
                    if (op == 9 && valueOf(value) != v)
                    {
                        ctx.fail("source-changed", "copying a value changed it");
                    }
                    settle(ctx, x, o == Out::OK ? std::vector<M>{nv} : std::vector<M>{EMPTY, oldX}, obs,
                            "the optional");
                }
                break;
            case 11: // assign a contained value
                if (x.alive && y.alive && y.m.type >= 0)
                {
                    say("assign the value of the other");
                    const Out o = perform(ctx, [&] {
                        x.h() = static_cast<const T&>(y.h().value());
                    });
                    if (i != j)
                    {
                        settle(ctx, x, o == Out::OK ? std::vector<M>{oldY} : std::vector<M>{EMPTY, oldX}, obs,
                                "the target");
                        settle(ctx, y, {oldY}, obs, "the source");
                    }
                    else
                    {
                        settle(ctx, x, o == Out::OK ? std::vector<M>{oldX} : std::vector<M>{EMPTY, oldX}, obs,
                                "the optional assigned its own value");
                    }
                }
                break;
            case 12: // emplace
                if (x.alive)
                {
                    T value = make<T>(v, alloc);
                    say("emplace");
                    const Out o = perform(ctx, [&] {
                        if (&x.h().emplace(static_cast<const T&>(value)) != &*x.h())
                        {
                            throw Violation();
                        }
                    });
                    settle(ctx, x, o == Out::OK ? std::vector<M>{nv} : std::vector<M>{EMPTY, oldX}, obs,
                            "the optional");
                }
                break;
            case 13: // swap
                if (x.alive && y.alive)
                {
                    if (AWARE)
                    {
                        break;
                    }
                    say("swap");
                    const Out o = perform(ctx, [&] {
                        x.h().swap(y.h());
                    });
                    if (o == Out::OK)
                    {
                        settle(ctx, x, {oldY}, obs, "the first of the swapped");
                        settle(ctx, y, {oldX}, obs, "the second of the swapped");
                    }
                    else
                    {
                        // contents may be moved from when the move of a contained value throws
                        settle(ctx, x, {oldX, oldY, EMPTY, {0, ANY_VALUE}}, obs, "the first of the swapped");
                        settle(ctx, y, {oldY, oldX, EMPTY, {0, ANY_VALUE}}, obs, "the second of the swapped");
                    }
                }
                break;
            case 14:
            case 15: // reset
                if (x.alive)
                {
                    say("reset");
                    perform(ctx, [&] {
                        if (op == 14)
                        {
                            x.h().reset();
                        }
                        else
                        {
                            x.h() = std::nullopt;
                        }
                    });
                    settle(ctx, x, {EMPTY}, obs, "the optional");
                }
                break;
            case 16: // conversions from another optional
            case 17:
            case 18:
            case 19:
                if constexpr (!SAME)
                {
                    HU other(alloc);
                    M src;
                    if (ctx.flip(3, 4))
                    {
                        other = make<U>(v, alloc);
                        src = nv;
                    }
                    if (op <= 17)
                    {
                        x.drop();
                        x.m = EMPTY;
                    }
                    else if (!x.alive)
                    {
                        break;
                    }
                    say(op == 16 ? "convert construct by copy" : op == 17 ? "convert construct by move"
                                    : op == 18                              ? "convert assign by copy"
                                                                             : "convert assign by move");
                    const Out o = perform(ctx, [&] {
                        if (op == 16)
                        {
                            x.build(static_cast<const HU&>(other));
                        }
                        else if (op == 17)
                        {
                            x.build(std::move(other));
                        }
                        else if (op == 18)
                        {
                            x.h() = static_cast<const HU&>(other);
                        }
                        else
                        {
                            x.h() = std::move(other);
                        }
                    });
                    settle(ctx, x,
                            o == Out::OK         ? std::vector<M>{src}
                                    : op <= 17 ? std::vector<M>{EMPTY}
                                                : std::vector<M>{EMPTY, oldX},
                            obs, "the target");
                    const M left = observeOptional(ctx, other);
                    if (op == 16 || op == 18 ? !fits(left, src) : !fits(left, leftover(src)) && !fits(left, EMPTY))
                    {
                        ctx.fail("source-changed", "the source of a conversion holds something else now");
                    }
                }
                break;
            default: // compare
                if (x.alive && y.alive)
                {
                    say("compare");
                    const H& a = x.h();
                    const H& b = y.h();
                    bool eq = false;
                    bool lt = false;
                    bool gt = false;
                    perform(ctx, [&] {
                        eq = a == b;
                        lt = a < b;
                        gt = a > b;
                    });
                    const bool bothKnown = (oldX.type < 0 || oldX.v < MOVED) && (oldY.type < 0 || oldY.v < MOVED);
                    const bool wantEq = oldX.type == oldY.type && (oldX.type < 0 || oldX.v == oldY.v);
                    if (bothKnown && (eq != wantEq || (eq && (lt || gt)) || (!eq && lt == gt)))
                    {
                        ctx.fail("compare-wrong", "comparison disagrees with the held values");
                    }
                }
                break;
            }
            if (!x.alive)
            {
                say("construct empty");
                perform(ctx, [&] {
                    x.build(alloc);
                });
                settle(ctx, x, {EMPTY}, obs, "the optional");
            }
            size_t expected = 0;
            for (auto& s : all.s)
            {
                settle(ctx, s, {s.m}, obs, "an uninvolved optional");
                expected += s.m.type == 0 && IsInstrumented<T>::value ? 1 : 0;
                ctx.mixHash(static_cast<uint64_t>(s.m.type));
            }
            if (g_live.size() != expected)
            {
                ctx.fail("value-leaked", "%zu contained values are alive instead of %zu", g_live.size(), expected);
            }
        } while (ctx.more(9, 10));
    }
}

template <typename ALLOC>
void optionals(Ctx& ctx)
{
    MemoryScope scope;
    switch (ctx.choose(6))
    {
    case 0:
        optionalHistory<ALLOC, Small, Big>(ctx);
        break;
    case 1:
        optionalHistory<ALLOC, Big, Small>(ctx);
        break;
    case 2:
        optionalHistory<ALLOC, SmallThrowingMove, Small>(ctx);
        break;
    case 3:
        optionalHistory<ALLOC, BigThrowingMove, Big>(ctx);
        break;
    case 4:
        optionalHistory<ALLOC, Own, Own>(ctx);
        break;
    default:
        optionalHistory<ALLOC, Text<ALLOC>, Text<ALLOC>>(ctx);
        break;
    }
    finish(ctx);
}

} // namespace

namespace p06
{
void optional_std(Ctx& ctx)
{
    optionals<StdAlloc>(ctx);
}
void optional_pmr(Ctx& ctx)
{
    optionals<PmrAlloc>(ctx);
}
void optional_ppmr(Ctx& ctx)
{
    optionals<PpmrAlloc>(ctx);
}
} // namespace p06
