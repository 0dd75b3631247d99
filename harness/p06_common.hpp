// P06: instrumented contained values, model and fault plan shared by the scenarios.
#pragma once
#include "sim.hpp"

#include <memory>
#include <unordered_set>
#include <zserio/Any.h>
#include <zserio/BitBuffer.h>
#include <zserio/HashCodeUtil.h>
#include <zserio/Optional.h>
#include <zserio/UniquePtr.h>
#include <zserio/Variant.h>
#include <zserio/pmr/Any.h>
#include <zserio/ppmr/Any.h>
#include <zserio/ppmr/PropagatingPolymorphicAllocator.h>

using namespace sim;

namespace p06
{

constexpr uint64_t MOVED = 999999999999ULL; // what a moved-from value holds

// ---- contained values ---------------------------------------------------------------------------------------
struct Boom : public std::exception
{
    const char* what() const noexcept override
    {
        return "boom";
    }
};
inline FailPlan g_boom; // which copy, move or construction of a contained value throws
inline std::unordered_set<const void*> g_live; // instrumented values alive

inline void born(const void* p)
{
    Untracked u;
    if (!g_live.insert(p).second)
    {
        g_ctx->flag("built-over-live-value", "a value was constructed over a live one");
    }
}
inline void died(const void* p)
{
    Untracked u;
    if (g_live.erase(p) == 0)
    {
        g_ctx->flag("destroyed-twice", "a value was destroyed that was not alive");
    }
}
inline void used(const void* p)
{
    Untracked u;
    if (g_live.count(p) == 0)
    {
        g_ctx->flag("used-after-destruction", "a value was used that was not alive");
    }
}
inline void mayThrow()
{
    if (g_boom.next())
    {
        SIM_COUNT("fault.value-throws");
        throw Boom();
    }
}

struct Conversion
{};

// PAD bytes of ballast, NTM: moving never throws
template <size_t PAD, bool NTM>
struct Pad
{
    char ballast[PAD] = {};
};
template <bool NTM>
struct Pad<0, NTM>
{};
template <size_t PAD, bool NTM>
class Val : private Pad<PAD, NTM>
{
public:
    Val()
    {
        mayThrow();
        m_v = 0;
        born(this);
    }
    explicit Val(uint64_t v)
    {
        mayThrow();
        m_v = v;
        born(this);
    }
    Val(const Val& o)
    {
        used(&o);
        mayThrow();
        m_v = o.m_v;
        born(this);
    }
    Val(Val&& o) noexcept(NTM)
    {
        used(&o);
        if constexpr (!NTM)
        {
            mayThrow();
        }
        m_v = o.m_v;
        o.m_v = MOVED;
        born(this);
    }
    template <size_t P2, bool N2>
    Val(const Val<P2, N2>& o)
    {
        used(&o);
        mayThrow();
        m_v = o.m_v;
        born(this);
    }
    template <size_t P2, bool N2>
    Val(Val<P2, N2>&& o)
    {
        used(&o);
        mayThrow();
        m_v = o.m_v;
        o.m_v = MOVED;
        born(this);
    }
    Val& operator=(const Val& o)
    {
        used(this);
        used(&o);
        mayThrow();
        m_v = o.m_v;
        return *this;
    }
    Val& operator=(Val&& o) noexcept(NTM)
    {
        used(this);
        used(&o);
        if constexpr (!NTM)
        {
            mayThrow();
        }
        if (this != &o)
        {
            m_v = o.m_v;
            o.m_v = MOVED;
        }
        return *this;
    }
    ~Val()
    {
        died(this);
        m_v = MOVED - 1;
    }
    uint64_t get() const
    {
        used(this);
        return m_v;
    }
    uint64_t m_v;
};
template <size_t P1, bool N1, size_t P2, bool N2>
bool operator==(const Val<P1, N1>& a, const Val<P2, N2>& b)
{
    return a.get() == b.get();
}
template <size_t P1, bool N1, size_t P2, bool N2>
bool operator!=(const Val<P1, N1>& a, const Val<P2, N2>& b)
{
    return a.get() != b.get();
}
template <size_t P1, bool N1, size_t P2, bool N2>
bool operator<(const Val<P1, N1>& a, const Val<P2, N2>& b)
{
    return a.get() < b.get();
}
template <size_t P1, bool N1, size_t P2, bool N2>
bool operator>(const Val<P1, N1>& a, const Val<P2, N2>& b)
{
    return b < a;
}
template <size_t P, bool N>
uint32_t calcHashCode(uint32_t seed, const Val<P, N>& v)
{
    return zserio::calcHashCode(seed, v.get());
}

// a small value whose copy allocates
class Own
{
public:
    Own() :
            Own(0)
    {}
    explicit Own(uint64_t v) :
            m_p(new uint64_t(v))
    {
        born(this);
    }
    Own(const Own& o) :
            m_p(new uint64_t(o.get()))
    {
        born(this);
    }
    Own(Own&& o) noexcept :
            m_p(o.m_p)
    {
        used(&o);
        o.m_p = nullptr;
        born(this);
    }
    Own& operator=(const Own& o)
    {
        used(this);
        uint64_t* p = new uint64_t(o.get());
        delete m_p;
        m_p = p;
        return *this;
    }
    Own& operator=(Own&& o) noexcept
    {
        used(this);
        used(&o);
        std::swap(m_p, o.m_p);
        if (this != &o)
        {
            delete o.m_p;
            o.m_p = nullptr;
        }
        return *this;
    }
    ~Own()
    {
        died(this);
        delete m_p;
    }
    uint64_t get() const
    {
        used(this);
        return m_p != nullptr ? *m_p : MOVED;
    }

private:
    uint64_t* m_p;
};
inline bool operator==(const Own& a, const Own& b)
{
    return a.get() == b.get();
}
inline bool operator<(const Own& a, const Own& b)
{
    return a.get() < b.get();
}
inline bool operator>(const Own& a, const Own& b)
{
    return b.get() < a.get();
}
inline uint32_t calcHashCode(uint32_t seed, const Own& v)
{
    return zserio::calcHashCode(seed, v.get());
}

template <typename ALLOC>
using Text = std::basic_string<char, std::char_traits<char>, zserio::RebindAlloc<ALLOC, char>>;

using Small = Val<0, true>;
using SmallThrowingMove = Val<0, false>;
using Big = Val<40, true>;
using BigThrowingMove = Val<200, false>;

template <typename T>
struct Is
{
    using type = T;
};

template <typename T, typename = void>
struct IsInstrumented : std::false_type
{};
template <typename T>
struct IsInstrumented<T, std::enable_if_t<std::is_same_v<T, Own>>> : std::true_type
{};
template <size_t P, bool N>
struct IsInstrumented<Val<P, N>> : std::true_type
{};

template <typename T>
uint64_t valueOf(const T& v)
{
    if constexpr (std::is_integral_v<T>)
    {
        return v;
    }
    else if constexpr (IsInstrumented<T>::value)
    {
        return v.get();
    }
    else
    {
        return v.empty() ? MOVED : strtoull(v.c_str() + 30, nullptr, 10);
    }
}
// v is below 2^32
template <typename T, typename ALLOC>
T make(uint64_t v, const ALLOC& alloc)
{
    if constexpr (std::is_integral_v<T>)
    {
        return static_cast<T>(v);
    }
    else if constexpr (IsInstrumented<T>::value)
    {
        return T(v);
    }
    else
    {
        T t(30, '.', alloc);
        t += std::to_string(v).c_str();
        return t;
    }
}

// ---- model ---------------------------------------------------------------------------------------------------
constexpr uint64_t ANY_VALUE = UINT64_MAX; // wildcard
struct M
{
    int type = -1; // no value
    uint64_t v = 0;
};
inline bool fits(const M& m, const M& pattern)
{
    return m.type == pattern.type && (m.type == -1 || pattern.v == ANY_VALUE || m.v == pattern.v);
}
const M EMPTY;
inline M leftover(const M& m) // a moved-from value of the same type
{
    return {m.type, ANY_VALUE};
}

// ---- memory --------------------------------------------------------------------------------------------------
inline Resource g_res0("resource 0");
inline Resource g_res1("resource 1");
inline Resource g_resDefault("default resource");

template <typename ALLOC>
ALLOC allocatorNo(size_t i)
{
    if constexpr (std::is_constructible_v<ALLOC, std::pmr::memory_resource*>)
    {
        return ALLOC(i == 0 ? static_cast<std::pmr::memory_resource*>(&g_res0) : &g_res1);
    }
    else
    {
        (void)i;
        return ALLOC();
    }
}

struct MemoryScope
{
    MemoryScope()
    {
        old = std::pmr::set_default_resource(&g_resDefault);
        for (Resource* r : {&g_res0, &g_res1, &g_resDefault})
        {
            r->plan.clear();
        }
    }
    ~MemoryScope()
    {
        std::pmr::set_default_resource(old);
    }
    std::pmr::memory_resource* old;
};

enum class Out
{
    OK,
    BOOM,
    NO_MEMORY,
    ERROR
};
inline const char* name(Out o)
{
    return o == Out::OK ? "done" : o == Out::BOOM ? "value threw" : o == Out::NO_MEMORY ? "out of memory" : "error";
}

// runs one operation, possibly under a fault
template <typename F>
Out perform(Ctx& ctx, const F& f)
{
    const size_t fault = ctx.pick({3, 2, 2});
    if (fault == 1)
    {
        g_boom.set(ctx.choose(4), ctx.flip(1, 4) ? UINT64_MAX : 1);
    }
    else if (fault == 2)
    {
        const uint64_t at = ctx.choose(3);
        const uint64_t len = ctx.flip(1, 4) ? UINT64_MAX : 1;
        g_heap.plan.set(at, len);
        for (Resource* r : {&g_res0, &g_res1, &g_resDefault})
        {
            r->plan.set(at, len);
        }
    }
    Out out = Out::OK;
    try
    {
        Tracked t;
        f();
    }
    catch (const Boom&)
    {
        out = Out::BOOM;
    }
    catch (const std::bad_alloc&)
    {
        out = Out::NO_MEMORY;
    }
    catch (const zserio::CppRuntimeException&)
    {
        out = Out::ERROR;
    }
    const bool noMemory =
            g_heap.plan.fired + g_res0.plan.fired + g_res1.plan.fired + g_resDefault.plan.fired != 0;
    const bool threw = g_boom.fired != 0;
    if (noMemory)
    {
        SIM_COUNT("fault.allocation");
    }
    ctx.nontrivial = ctx.nontrivial || noMemory || threw;
    g_boom.clear();
    g_heap.plan.clear();
    for (Resource* r : {&g_res0, &g_res1, &g_resDefault})
    {
        r->plan.clear();
    }
    ctx.log("    %s", name(out));
    if (noMemory != (out == Out::NO_MEMORY) || threw != (out == Out::BOOM))
    {
        ctx.fail("exception-lost", "%s, but the operation ended with: %s",
                noMemory ? "an allocation failed" : threw ? "a value threw" : "nothing failed", name(out));
    }
    ctx.check();
    ctx.shape(static_cast<uint64_t>(out));
    return out;
}

// storage for one holder
template <typename H>
struct Slot
{
    alignas(H) unsigned char raw[sizeof(H)];
    bool alive = false;
    M m;
    H& h()
    {
        return *reinterpret_cast<H*>(raw);
    }
    template <typename... A>
    void build(A&&... a)
    {
        memset(raw, 0xa5, sizeof(raw));
        new (raw) H(std::forward<A>(a)...);
        alive = true;
    }
    void drop()
    {
        if (alive)
        {
            alive = false;
            Tracked t;
            h().~H();
        }
    }
};

template <typename H, size_t N>
struct Slots
{
    Slot<H> s[N];
    ~Slots()
    {
        for (auto& x : s)
        {
            x.drop();
        }
    }
};

template <typename E>
void expectError(Ctx& ctx, const char* what, const E& e)
{
    try
    {
        e();
    }
    catch (const zserio::CppRuntimeException&)
    {
        return;
    }
    catch (const std::exception& ex)
    {
        ctx.fail("wrong-error", "%s fails with %s", what, ex.what());
    }
    ctx.fail("missing-error", "%s returned normally", what);
}

inline void finish(Ctx& ctx)
{
    ctx.check();
    if (!g_live.empty())
    {
        ctx.fail("value-leaked", "%zu contained values are alive after all holders were destroyed", g_live.size());
    }
    if (g_heap.liveBlocks != 0)
    {
        ctx.fail("memory-leaked", "%llu blocks were not given back",
                static_cast<unsigned long long>(g_heap.liveBlocks));
    }
    for (Resource* r : {&g_res0, &g_res1, &g_resDefault})
    {
        r->checkEmpty("after all holders were destroyed");
    }
    ctx.check();
    SIM_COUNT("check.balance");
}

// brings a slot's model in line with what may be left after an operation
template <typename S, typename OBS>
void settle(Ctx& ctx, S& slot, const std::vector<M>& allowed, const OBS& observe, const char* who)
{
    const M now = slot.alive ? observe(slot.h()) : EMPTY;
    bool ok = false;
    for (const auto& a : allowed)
    {
        ok = ok || fits(now, a);
    }
    if (!ok)
    {
        std::string s;
        for (const auto& a : allowed)
        {
            s += " (" + std::to_string(a.type) + ":" +
                    (a.v == ANY_VALUE ? std::string("any") : std::to_string(a.v)) + ")";
        }
        ctx.fail("wrong-content", "%s holds (%d:%llu), expected one of%s", who, now.type,
                static_cast<unsigned long long>(now.v), s.c_str());
    }
    slot.m = now;
    SIM_COUNT("check.content");
}

using PmrAlloc = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrAlloc = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;
using StdAlloc = std::allocator<uint8_t>;

} // namespace p06
