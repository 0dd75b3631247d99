// P07: the dynamic interfaces of single values and arrays of every built-in type take what they need, and hand out what
// they make, from the allocator they were given, and from nowhere else.
#pragma once

#include "sim.hpp"

#include <zserio/ArrayView.h>
#include <zserio/IntrospectableView.h>
#include <zserio/ReflectableData.h>

#include <zserio/ppmr/BitBuffer.h>
#include <zserio/ppmr/Bytes.h>
#include <zserio/ppmr/String.h>
#include <zserio/ppmr/Vector.h>

#include <memory_resource>
#include <optional>

using namespace sim;

namespace
{
constexpr unsigned R = 3;

struct Memory
{
    Resource res[R] = {Resource("first"), Resource("second"), Resource("third")};
    Resource def = Resource("default");
    std::pmr::memory_resource* old;
    Memory() :
            old(std::pmr::set_default_resource(&def))
    {}
    ~Memory()
    {
        std::pmr::set_default_resource(old);
    }
};

template <typename P, typename ALLOC>
void ask(const P& p, const ALLOC& a, const char* want, std::string& got)
{
    if (p->isArray())
    {
        for (size_t i = 0; i < p->size(); ++i)
        {
            ask(p->at(i), a, want, got);
        }
        (void)p->getAnyValue(a);
        return;
    }
    {
        const auto any = p->getAnyValue(a);
        if (!any.hasValue())
        {
            got = "nothing";
            return;
        }
    }
    if (want != nullptr)
    {
        const auto text = p->toString(a);
        Untracked u;
        got.assign(text.data(), text.size());
    }
}

template <typename TRAITS, typename A, typename ALLOC>
auto look(const std::basic_string<char, TRAITS, A>& s, const ALLOC& a)
{
    return zserio::introspectable(std::string_view(s), a);
}
template <typename A, typename ALLOC>
auto look(const zserio::BasicBitBuffer<A>& b, const ALLOC& a)
{
    return zserio::introspectable(zserio::BasicBitBufferView<A>(b), a);
}

template <typename ALLOC>
struct Bench
{
    Ctx& ctx;
    Memory& mem;
    unsigned r;
    size_t form; // single or array, to change or to look at only

    // f makes one dynamic interface with the given allocator and asks it
    template <typename F>
    void with(const char* type, const char* want, const F& f)
    {
        Resource& own = mem.res[r];
        ctx.log("%s, form %zu, %s resource", type, form, own.name());
        std::optional<uint64_t> fault;
        if (ctx.flip(1, 3))
        {
            fault = ctx.choose(4);
            own.plan.set(*fault, 1);
        }
        ctx.shape(fault ? *fault + 1 : 0);
        const uint64_t heap = g_heap.allocs;
        const uint64_t def = mem.def.allocs;
        uint64_t others = 0;
        for (unsigned i = 0; i < R; ++i)
        {
            others += i == r ? 0 : mem.res[i].allocs;
        }
        const uint64_t asked = own.allocs;
        const uint64_t live = own.liveBlocks;
        std::string got;
        bool ok = true;
        {
            Tracked t;
            try
            {
                f(ALLOC(&own), want, got);
            }
            catch (const std::bad_alloc&)
            {
                ok = false;
            }
        }
        const bool fired = own.plan.fired != 0;
        own.plan.clear();
        if (fired)
        {
            SIM_COUNT("fault.allocation");
            ctx.nontrivial = true;
        }
        if (ok == fired)
        {
            ctx.fail(ok ? "swallowed" : "wrong-error", "%s: a refused allocation and the outcome do not match", type);
        }
        if (mem.def.allocs != def)
        {
            ctx.fail("default-resource-used", "%s: the default resource was asked %llu times", type,
                    static_cast<unsigned long long>(mem.def.allocs - def));
        }
        for (unsigned i = 0; i < R; ++i)
        {
            others -= i == r ? 0 : mem.res[i].allocs;
        }
        if (others != 0)
        {
            ctx.fail("wrong-resource", "%s: another resource was asked", type);
        }
        if (g_heap.allocs != heap && !fired)
        {
            ctx.fail("global-heap-used", "%s: the global heap was asked %llu times", type,
                    static_cast<unsigned long long>(g_heap.allocs - heap));
        }
        if (own.allocs == asked && !fired)
        {
            ctx.fail("wrong-resource", "%s: the %s resource was not asked", type, own.name());
        }
        if (own.liveBlocks != live)
        {
            ctx.fail("leak", "%s: %llu blocks are left in the %s resource", type,
                    static_cast<unsigned long long>(own.liveBlocks - live), own.name());
        }
        if (ok && want != nullptr && got != want)
        {
            ctx.fail("wrong-reflected-value", "%s says '%s' instead of '%s'", type, got.c_str(), want);
        }
        SIM_COUNT("check.dynamic-value");
    }

    template <typename V>
    void number(const char* type, V value, const char* want)
    {
        using Vec = zserio::Vector<V, zserio::RebindAlloc<ALLOC, V>>;
        Vec many({value, value, value}, zserio::RebindAlloc<ALLOC, V>(&mem.res[(r + 1) % R]));
        with(type, want, [&](const ALLOC& a, const char* w, std::string& got) {
            switch (form)
            {
            case 0:
                ask(zserio::reflectable(value, a), a, w, got);
                break;
            case 1:
                ask(zserio::introspectable(value, a), a, w, got);
                break;
            case 2:
                ask(zserio::reflectableArray(many, a), a, w, got);
                break;
            case 3:
                ask(zserio::reflectableArray(std::as_const(many), a), a, w, got);
                break;
            default:
                ask(zserio::introspectableArray(zserio::ArrayView<const V>(many), a), a, w, got);
                break;
            }
        });
    }
    template <typename V>
    void text(const char* type, V& value, const char* want)
    {
        with(type, want, [&](const ALLOC& a, const char* w, std::string& got) {
            switch (form % 3)
            {
            case 0:
                ask(zserio::reflectable(value, a), a, w, got);
                break;
            case 1:
                ask(zserio::reflectable(std::as_const(value), a), a, w, got);
                break;
            default:
                ask(look(value, a), a, w, got);
                break;
            }
        });
    }
};

// a history of questions about the values of one list
template <typename ALLOC, typename F>
void runValues(Ctx& ctx, size_t types, const F& f)
{
    Memory mem;
    {
        do
        {
            ctx.step();
            Bench<ALLOC> b{ctx, mem, static_cast<unsigned>(ctx.choose(R)), ctx.choose(5)};
            const size_t type = ctx.choose(types);
            ctx.shape(type * 16 + b.form);
            ctx.state(type * 16 + b.form);
            f(b, type);
        } while (ctx.more(5, 6));
    }
    for (auto& r : mem.res)
    {
        r.checkEmpty("everything was destroyed");
    }
    mem.def.checkEmpty("everything was destroyed");
}

using Alloc = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;
} // namespace
