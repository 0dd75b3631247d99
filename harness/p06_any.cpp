// P06: type-erased holder
#include "p06_common.hpp"

using namespace p06;

namespace
{

// ---- type-erased holder ---------------------------------------------------------------------------------------
template <typename ALLOC, typename F>
void withType(size_t i, const F& f)
{
    switch (i)
    {
    case 0:
        f(Is<uint32_t>());
        break;
    case 1:
        f(Is<Small>());
        break;
    case 2:
        f(Is<SmallThrowingMove>());
        break;
    case 3:
        f(Is<Big>());
        break;
    case 4:
        f(Is<Own>());
        break;
    case 5:
        f(Is<Text<ALLOC>>());
        break;
    default:
        f(Is<BigThrowingMove>());
        break;
    }
}
constexpr size_t NUM_TYPES = 7;

template <typename ANY, typename ALLOC>
M observeAny(Ctx& ctx, ANY& a)
{
    M m;
    const ANY& c = a;
    size_t found = 0;
    for (size_t i = 0; i < NUM_TYPES; ++i)
    {
        withType<ALLOC>(i, [&](auto tag) {
            using T = typename decltype(tag)::type;
            const T* p = c.template get_if<T>();
            T* q = a.template get_if<T>();
            if (p != q)
            {
                ctx.fail("holder-inconsistent", "constant and mutable access disagree");
            }
            if (c.template isType<T>() != (p != nullptr))
            {
                ctx.fail("holder-inconsistent", "the holder says it holds type %zu but has no such value", i);
            }
            if (p != nullptr)
            {
                ++found;
                m.type = static_cast<int>(i);
                m.v = valueOf(*p);
                if (&c.template get<T>() != p || &a.template get<T>() != p)
                {
                    ctx.fail("holder-inconsistent", "get and get_if disagree");
                }
            }
            else
            {
                expectError(ctx, "getting a type that is not held", [&] {
                    (void)c.template get<T>();
                });
            }
        });
    }
    if (c.hasValue() != (found == 1))
    {
        ctx.fail("holder-inconsistent", "hasValue() is %d with %zu values", c.hasValue() ? 1 : 0, found);
    }
    ctx.check();
    return m;
}

template <typename ALLOC>
void anyHistory(Ctx& ctx)
{
    MemoryScope scope;
    {
        using ANY = zserio::BasicAny<ALLOC>;
        Slots<ANY, 3> all;
        const auto obs = [&](ANY& a) {
            return observeAny<ANY, ALLOC>(ctx, a);
        };
        do
        {
            const size_t i = ctx.choose(3);
            const size_t j = ctx.choose(3);
            Slot<ANY>& x = all.s[i];
            Slot<ANY>& y = all.s[j];
            const size_t op = ctx.choose(15);
            const size_t type = ctx.choose(NUM_TYPES);
            const uint64_t v = 1 + ctx.choose(1000);
            const ALLOC alloc = allocatorNo<ALLOC>(ctx.choose(2));
            const M nv{static_cast<int>(type), v};
            const M oldX = x.m;
            const M oldY = y.m;
            ctx.step();
            ctx.shape(op * 64 + type * 8 + static_cast<uint64_t>(x.m.type + 1) + (i == j ? 1000 : 0));
            ctx.shape(static_cast<uint64_t>(y.m.type + 1));
            const auto say = [&](const char* what) {
                ctx.log("any %zu (type %d) %s, other %zu (type %d), type %zu", i, x.m.type, what, j, y.m.type, type);
                count(std::string("op.any-").append(what).substr(0, 50).c_str());
            };
            switch (op)
            {
            case 0:
            case 1: // build from a value
            {
                x.drop();
                x.m = EMPTY;
                Out o = Out::OK;
                withType<ALLOC>(type, [&](auto tag) {
                    using T = typename decltype(tag)::type;
                    T value = make<T>(v, alloc);
                    say(op == 0 ? "construct by copy" : "construct by move");
                    o = perform(ctx, [&] {
                        if (op == 0)
                        {
                            x.build(static_cast<const T&>(value), alloc);
                        }
                        else
                        {
                            x.build(std::move(value), alloc);
                        }
                    });
                    if (op == 0 && valueOf(value) != v)
                    {
                        ctx.fail("source-changed", "copying a value changed it");
                    }
                });
                settle(ctx, x, o == Out::OK ? std::vector<M>{nv} : std::vector<M>{EMPTY}, obs, "the new any");
                break;
            }
            case 2:
            case 3: // copy construct
                if (!y.alive || i == j)
                {
                    break;
                }
                x.drop();
                x.m = EMPTY;
                {
                    say(op == 2 ? "copy construct" : "copy construct with allocator");
                    const Out o = perform(ctx, [&] {
                        if (op == 2)
                        {
                            x.build(static_cast<const ANY&>(y.h()));
                        }
                        else
                        {
                            x.build(static_cast<const ANY&>(y.h()), alloc);
                        }
                    });
                    settle(ctx, x, {o == Out::OK ? oldY : EMPTY}, obs, "the copy");
                    settle(ctx, y, {oldY}, obs, "the source");
                }
                break;
            case 4:
            case 5: // move construct
                if (!y.alive || i == j)
                {
                    break;
                }
                x.drop();
                x.m = EMPTY;
                {
                    say(op == 4 ? "move construct" : "move construct with allocator");
                    const Out o = perform(ctx, [&] {
                        if (op == 4)
                        {
                            x.build(std::move(y.h()));
                        }
                        else
                        {
                            x.build(std::move(y.h()), alloc);
                        }
                    });
                    settle(ctx, x, {o == Out::OK ? oldY : EMPTY}, obs, "the new any");
                    settle(ctx, y, o == Out::OK ? std::vector<M>{EMPTY} : std::vector<M>{EMPTY, oldY}, obs,
                            "the source");
                }
                break;
            case 6: // copy assign
                if (x.alive && y.alive)
                {
                    say("copy assign");
                    const Out o = perform(ctx, [&] {
                        x.h() = static_cast<const ANY&>(y.h());
                    });
                    if (i != j)
                    {
                        settle(ctx, x, o == Out::OK ? std::vector<M>{oldY} : std::vector<M>{EMPTY, oldX}, obs,
                                "the target");
                    }
                    settle(ctx, y, {oldY}, obs, "the source");
                }
                break;
            case 7: // move assign
                if (x.alive && y.alive)
                {
                    say("move assign");
                    const Out o = perform(ctx, [&] {
                        x.h() = std::move(y.h());
                    });
                    if (i != j)
                    {
                        settle(ctx, x, o == Out::OK ? std::vector<M>{oldY} : std::vector<M>{EMPTY, oldX}, obs,
                                "the target");
                        settle(ctx, y, o == Out::OK ? std::vector<M>{EMPTY} : std::vector<M>{EMPTY, oldY}, obs,
                                "the source");
                    }
                    else
                    {
                        settle(ctx, x, {oldX}, obs, "the any moved onto itself");
                    }
                }
                break;
            case 8:
            case 9:
            case 10: // set
                if (x.alive)
                {
                    Out o = Out::OK;
                    withType<ALLOC>(type, [&](auto tag) {
                        using T = typename decltype(tag)::type;
                        T value = make<T>(v, alloc);
                        say(op == 8 ? "set by copy" : op == 9 ? "set by move" : "assign value");
                        o = perform(ctx, [&] {
                            if (op == 8)
                            {
                                x.h().set(static_cast<const T&>(value));
                            }
                            else if (op == 9)
                            {
                                x.h().set(std::move(value));
                            }
                            else
                            {
                                x.h() = static_cast<const T&>(value);
                            }
                        });
                    });
                    settle(ctx, x, o == Out::OK ? std::vector<M>{nv} : std::vector<M>{EMPTY, oldX}, obs, "the any");
                }
                break;
            case 11: // emplace
                if (x.alive)
                {
                    Out o = Out::OK;
                    withType<ALLOC>(type, [&](auto tag) {
                        using T = typename decltype(tag)::type;
                        say("emplace");
                        o = perform(ctx, [&] {
                            if constexpr (std::is_same_v<T, Text<ALLOC>>)
                            {
                                char text[64];
                                snprintf(text, sizeof(text), "..............................%u",
                                        static_cast<unsigned>(v));
                                x.h().template emplace<T>(static_cast<const char*>(text));
                            }
                            else if constexpr (std::is_integral_v<T>)
                            {
                                x.h().template emplace<T>(static_cast<T>(v));
                            }
                            else
                            {
                                x.h().template emplace<T>(v);
                            }
                        });
                    });
                    settle(ctx, x, o == Out::OK ? std::vector<M>{nv} : std::vector<M>{EMPTY, oldX}, obs, "the any");
                }
                break;
            case 12: // swap
                if (x.alive && y.alive)
                {
                    say("swap");
                    const Out o = perform(ctx, [&] {
                        x.h().swap(y.h());
                    });
                    if (o == Out::OK)
                    {
                        settle(ctx, x, {oldY}, obs, "the first of the swapped");
                        settle(ctx, y, {oldX}, obs, "the second of the swapped");
                    }
                    else
                    {
                        settle(ctx, x, {oldX, oldY, EMPTY}, obs, "the first of the swapped");
                        settle(ctx, y, {oldY, oldX, EMPTY}, obs, "the second of the swapped");
                    }
                }
                break;
            case 13: // reset
                if (x.alive)
                {
                    say("reset");
                    perform(ctx, [&] {
                        x.h().reset();
                    });
                    settle(ctx, x, {EMPTY}, obs, "the any");
                }
                break;
            default:
                x.drop();
                x.m = EMPTY;
                say("construct empty");
                perform(ctx, [&] {
                    x.build(alloc);
                });
                settle(ctx, x, {EMPTY}, obs, "the any");
                break;
            }
            size_t expected = 0;
            for (auto& s : all.s)
            {
                settle(ctx, s, {s.m}, obs, "an uninvolved any");
                expected += s.m.type > 0 && s.m.type != 5 ? 1 : 0;
                ctx.mixHash(static_cast<uint64_t>(s.m.type));
            }
            if (g_live.size() != expected)
            {
                ctx.fail("value-leaked", "%zu contained values are alive instead of %zu", g_live.size(), expected);
            }
            ctx.state(static_cast<uint64_t>((all.s[0].m.type + 1) * 100 + (all.s[1].m.type + 1) * 10 + all.s[2].m.type + 1));
        } while (ctx.more(9, 10));
    }
    finish(ctx);
}

} // namespace

namespace p06
{
void any_std(Ctx& ctx)
{
    anyHistory<StdAlloc>(ctx);
}
void any_pmr(Ctx& ctx)
{
    anyHistory<PmrAlloc>(ctx);
}
void any_ppmr(Ctx& ctx)
{
    anyHistory<PpmrAlloc>(ctx);
}
} // namespace p06
