// P06: value holders stay consistent when allocation or copying fails.
#include "p06_common.hpp"

namespace p06
{
void any_std(Ctx& ctx);
void any_pmr(Ctx& ctx);
void any_ppmr(Ctx& ctx);
void variant_std(Ctx& ctx);
void variant_pmr(Ctx& ctx);
void variant_ppmr(Ctx& ctx);
void optional_std(Ctx& ctx);
void optional_pmr(Ctx& ctx);
void optional_ppmr(Ctx& ctx);
} // namespace p06

using namespace p06;

namespace
{

// ---- owning pointer ------------------------------------------------------------------------------------------------
template <typename ALLOC>
void uniquePtrs(Ctx& ctx)
{
    MemoryScope scope;
    {
        using A = zserio::RebindAlloc<ALLOC, Big>;
        using P = zserio::UniquePtr<Big, A>;
        std::unique_ptr<P> p[3]; // holders of the holder, to control its construction
        M m[3];
        constexpr bool ASSIGNABLE = std::is_move_assignable_v<P>;
        do
        {
            const size_t i = ctx.choose(3);
            const size_t j = ctx.choose(3);
            const uint64_t v = 1 + ctx.choose(1000);
            const ALLOC alloc = allocatorNo<ALLOC>(ctx.choose(2));
            const size_t op = ctx.choose(5);
            ctx.step();
            ctx.shape(op * 64 + static_cast<uint64_t>(m[i].type + 1) * 8 + static_cast<uint64_t>(m[j].type + 1));
            ctx.log("pointer %zu (%s) operation %zu, other %zu (%s)", i, m[i].type < 0 ? "empty" : "full", op, j,
                    m[j].type < 0 ? "empty" : "full");
            switch (op)
            {
            case 0: // allocate
            {
                p[i].reset();
                m[i] = EMPTY;
                const Out o = perform(ctx, [&] {
                    P fresh = zserio::allocate_unique<Big>(alloc, v);
                    Untracked u;
                    p[i] = std::make_unique<P>(std::move(fresh));
                });
                if (o == Out::OK)
                {
                    m[i] = {0, v};
                }
                break;
            }
            case 1: // move construct
                if (p[j] && i != j)
                {
                    p[i].reset();
                    p[i] = std::make_unique<P>(std::move(*p[j]));
                    m[i] = m[j];
                    m[j] = EMPTY;
                }
                break;
            case 2: // move assign
                if constexpr (ASSIGNABLE)
                {
                    if (p[i] && p[j] && i != j)
                    {
                        perform(ctx, [&] {
                            *p[i] = std::move(*p[j]);
                        });
                        m[i] = m[j];
                        m[j] = EMPTY;
                    }
                }
                break;
            case 3: // swap
                if constexpr (std::is_swappable_v<typename P::deleter_type>)
                {
                    if (p[i] && p[j])
                    {
                        perform(ctx, [&] {
                            p[i]->swap(*p[j]);
                        });
                        std::swap(m[i], m[j]);
                    }
                }
                break;
            default:
                if (p[i])
                {
                    perform(ctx, [&] {
                        p[i]->reset();
                    });
                    m[i] = EMPTY;
                }
                break;
            }
            size_t expected = 0;
            for (size_t k = 0; k < 3; ++k)
            {
                if (p[k] && static_cast<bool>(*p[k]) != (m[k].type >= 0))
                {
                    ctx.fail("wrong-content", "pointer %zu is %s", k, *p[k] ? "not empty" : "empty");
                }
                if (m[k].type >= 0)
                {
                    ++expected;
                    if ((*p[k])->get() != m[k].v)
                    {
                        ctx.fail("wrong-content", "pointer %zu points to another value", k);
                    }
                }
            }
            ctx.check();
            if (g_live.size() != expected)
            {
                ctx.fail("value-leaked", "%zu contained values are alive instead of %zu", g_live.size(), expected);
            }
        } while (ctx.more(9, 10));
        for (auto& x : p)
        {
            x.reset();
        }
    }
    finish(ctx);
}

// ---- bit buffer ----------------------------------------------------------------------------------------------------
template <typename ALLOC>
void bitBuffers(Ctx& ctx)
{
    MemoryScope scope;
    {
        using B = zserio::BasicBitBuffer<ALLOC>;
        struct BM
        {
            size_t bits = 0;
            std::vector<uint8_t> bytes;
            bool unknown = false;
        };
        Slots<B, 3> all;
        BM m[3];
        const auto matches = [&](B& b, const BM& want) {
            if (b.getBitSize() != want.bits || b.getByteSize() != (want.bits + 7) / 8 ||
                    b.getBytes().size() != want.bytes.size())
            {
                return false;
            }
            return std::equal(want.bytes.begin(), want.bytes.end(), b.getBytes().begin());
        };
        // any state must at least be consistent
        const auto query = [&](B& b, size_t k) {
            if (b.getBytes().size() < b.getByteSize())
            {
                ctx.fail("holder-inconsistent", "bit buffer %zu claims %zu bits but has %zu bytes", k, b.getBitSize(),
                        b.getBytes().size());
            }
            (void)b.hashCode();
            const B other(b, ALLOC(b.getBytes().get_allocator()));
            if (!(b == other) || b != other || b < other)
            {
                ctx.fail("compare-wrong", "a copy of bit buffer %zu differs", k);
            }
            if (other.hashCode() != b.hashCode())
            {
                ctx.fail("compare-wrong", "a copy of bit buffer %zu has another hash code", k);
            }
            if (b.getByteSize() != 0)
            {
                // one bit changed: another value when the bit belongs to the buffer, the same one otherwise
                std::vector<uint8_t> bytes(b.getBytes().begin(), b.getBytes().end());
                const size_t bit = ctx.choose(b.getByteSize() * 8);
                bytes[bit / 8] = static_cast<uint8_t>(bytes[bit / 8] ^ (0x80u >> (bit % 8)));
                const B near(zserio::Span<const uint8_t>(bytes.data(), bytes.size()), b.getBitSize(),
                        ALLOC(b.getBytes().get_allocator()));
                const bool same = bit >= b.getBitSize();
                if ((b == near) != same || (near == b) != same || (b != near) == same)
                {
                    ctx.fail("compare-wrong", "bit buffer %zu of %zu bits and the same with bit %zu changed are %s", k,
                            b.getBitSize(), bit, same ? "different" : "equal");
                }
                if ((b < near) + (near < b) != (same ? 0 : 1) || (same && near.hashCode() != b.hashCode()))
                {
                    ctx.fail("compare-wrong", "order of bit buffer %zu of %zu bits and the same with bit %zu changed", k,
                            b.getBitSize(), bit);
                }
                SIM_COUNT("check.compare-near");
            }
        };
        do
        {
            const size_t i = ctx.choose(3);
            const size_t j = ctx.choose(3);
            Slot<B>& x = all.s[i];
            Slot<B>& y = all.s[j];
            const size_t op = ctx.choose(8);
            const ALLOC alloc = allocatorNo<ALLOC>(ctx.choose(2));
            ctx.step();
            ctx.shape(op * 64 + (i == j ? 32 : 0) + std::min<size_t>(m[i].bits / 8, 4) * 4 +
                    std::min<size_t>(m[j].bits / 8, 3));
            ctx.log("bit buffer %zu (%zu bits) operation %zu, other %zu (%zu bits)", i, m[i].bits, op, j, m[j].bits);
            switch (op)
            {
            case 0:
            case 1: // from data
            {
                x.drop();
                m[i] = BM();
                BM n;
                n.bytes.resize(ctx.choose(5) * ctx.choose(40));
                for (auto& b : n.bytes)
                {
                    b = ctx.choose(3) == 0 ? 0 : static_cast<uint8_t>(ctx.choose(256));
                }
                n.bits = n.bytes.empty() ? 0 : n.bytes.size() * 8 - ctx.choose(8);
                const Out o = perform(ctx, [&] {
                    x.build(zserio::Span<const uint8_t>(n.bytes.data(), n.bytes.size()), n.bits, alloc);
                });
                if (o == Out::OK)
                {
                    m[i] = n;
                }
                break;
            }
            case 2:
            case 3: // copy construct
                if (y.alive && i != j)
                {
                    x.drop();
                    m[i] = BM();
                    const Out o = perform(ctx, [&] {
                        if (op == 2)
                        {
                            x.build(static_cast<const B&>(y.h()));
                        }
                        else
                        {
                            x.build(static_cast<const B&>(y.h()), alloc);
                        }
                    });
                    if (o == Out::OK)
                    {
                        m[i] = m[j];
                    }
                }
                break;
            case 4:
            case 5: // move construct
                if (y.alive && i != j)
                {
                    x.drop();
                    const BM old = m[j];
                    m[i] = BM();
                    const Out o = perform(ctx, [&] {
                        if (op == 4)
                        {
                            x.build(std::move(y.h()));
                        }
                        else
                        {
                            x.build(std::move(y.h()), alloc);
                        }
                    });
                    if (o == Out::OK)
                    {
                        m[i] = old;
                        m[j].unknown = true;
                    }
                }
                break;
            case 6: // copy assign
                if (x.alive && y.alive)
                {
                    const Out o = perform(ctx, [&] {
                        x.h() = static_cast<const B&>(y.h());
                    });
                    if (o == Out::OK)
                    {
                        m[i] = m[j];
                    }
                    else if (i != j)
                    {
                        m[i].unknown = true;
                    }
                }
                break;
            default: // move assign
                if (x.alive && y.alive && i != j)
                {
                    const BM old = m[j];
                    const Out o = perform(ctx, [&] {
                        x.h() = std::move(y.h());
                    });
                    m[j].unknown = true;
                    if (o == Out::OK)
                    {
                        m[i] = old;
                    }
                    else
                    {
                        m[i].unknown = true;
                    }
                }
                break;
            }
            for (size_t k = 0; k < 3; ++k)
            {
                if (!all.s[k].alive)
                {
                    continue;
                }
                B& b = all.s[k].h();
                query(b, k);
                if (m[k].unknown) // left behind by a move or a failed assignment: adopt what it holds
                {
                    m[k].unknown = false;
                    m[k].bits = b.getBitSize();
                    m[k].bytes.assign(b.getBytes().begin(), b.getBytes().end());
                }
                else if (!matches(b, m[k]))
                {
                    ctx.fail("wrong-content", "bit buffer %zu holds something else than it was given", k);
                }
                SIM_COUNT("check.content");
                for (size_t l = 0; l < 3; ++l)
                {
                    const auto masked = [](const BM& v) {
                        std::vector<uint8_t> r(v.bytes.begin(), v.bytes.begin() + static_cast<std::ptrdiff_t>((v.bits + 7) / 8));
                        if (v.bits % 8 != 0)
                        {
                            r.back() = static_cast<uint8_t>(r.back() & (0xFFu << (8 - v.bits % 8)));
                        }
                        return r;
                    };
                    if (l != k && all.s[l].alive && !m[l].unknown &&
                            (b == all.s[l].h()) != (m[k].bits == m[l].bits && masked(m[k]) == masked(m[l])))
                    {
                        ctx.fail("compare-wrong", "comparison of bit buffers %zu and %zu", k, l);
                    }
                }
            }
        } while (ctx.more(9, 10));
    }
    finish(ctx);
}

const std::vector<Scenario> SCENARIOS = {
        {"any", 3, any_std},
        {"any-pmr", 3, any_pmr},
        {"any-ppmr", 3, any_ppmr},
        {"variant", 2, variant_std},
        {"variant-pmr", 2, variant_pmr},
        {"variant-ppmr", 2, variant_ppmr},
        {"optional", 2, optional_std},
        {"optional-pmr", 2, optional_pmr},
        {"optional-ppmr", 2, optional_ppmr},
        {"unique-ptr", 1, uniquePtrs<StdAlloc>},
        {"unique-ptr-pmr", 1, uniquePtrs<PmrAlloc>},
        {"unique-ptr-ppmr", 1, uniquePtrs<PpmrAlloc>},
        {"bit-buffer", 1, bitBuffers<StdAlloc>},
        {"bit-buffer-pmr", 1, bitBuffers<PmrAlloc>},
        {"bit-buffer-ppmr", 1, bitBuffers<PpmrAlloc>},
};

} // namespace

namespace sim
{
const char* const PROPERTY = "P06";
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
void warmup()
{
    g_live.reserve(1024);
}
void beginRun()
{
    g_live.clear();
    g_boom.clear();
}
} // namespace sim
