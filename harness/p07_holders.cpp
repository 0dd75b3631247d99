// P07: single holders and containers over several resources. A model says in which resource the data of a holder has
// to be after any history of construction, assignment and swapping.
#include "sim.hpp"

#include <zserio/Extended.h>
#include <zserio/pmr/Any.h>
#include <zserio/pmr/BitBuffer.h>
#include <zserio/pmr/Optional.h>
#include <zserio/pmr/String.h>
#include <zserio/pmr/UniquePtr.h>
#include <zserio/pmr/Variant.h>
#include <zserio/pmr/Vector.h>
#include <zserio/ppmr/Any.h>
#include <zserio/ppmr/BitBuffer.h>
#include <zserio/ppmr/Optional.h>
#include <zserio/ppmr/String.h>
#include <zserio/ppmr/Variant.h>
#include <zserio/ppmr/Vector.h>

#include <array>
#include <memory_resource>
#include <optional>

using namespace sim;

namespace
{
constexpr unsigned R = 3;
constexpr unsigned DEF = R;
constexpr size_t SLOTS = 3;

struct Memory
{
    Resource res[R] = {Resource("first"), Resource("second"), Resource("third")};
    Resource def = Resource("default");
    std::pmr::memory_resource* old;
    Memory() :
            old(std::pmr::set_default_resource(&def))
    {}
    ~Memory()
    {
        std::pmr::set_default_resource(old);
    }
    Resource& at(unsigned i)
    {
        return i == DEF ? def : res[i];
    }
};

enum class Tag : size_t
{
    NUMBER,
    TEXT,
    BYTES
};

// a value of the kind a generated structure with one optional field is: small, but with memory of its own
template <typename ALLOC>
struct Small
{
    using allocator_type = ALLOC;
    using String = zserio::BasicString<zserio::RebindAlloc<ALLOC, char>>;
    zserio::BasicOptional<ALLOC, String> text;
    Small() = default;
    explicit Small(const ALLOC& a) :
            text(a)
    {}
    Small(Small&&) = default;
    Small(const Small&) = default;
    Small(Small&& o, const ALLOC& a) :
            text(std::move(o.text), a)
    {}
    Small(const Small& o, const ALLOC& a) :
            text(o.text, a)
    {}
    Small& operator=(Small&&) = default;
    Small& operator=(const Small&) = default;
};
static_assert(sizeof(Small<std::pmr::polymorphic_allocator<uint8_t>>) <= 3 * sizeof(void*));

template <typename ALLOC>
struct Types
{
    using String = zserio::BasicString<zserio::RebindAlloc<ALLOC, char>>;
    using Bytes = zserio::BasicBytes<ALLOC>;
    using Bits = zserio::BasicBitBuffer<ALLOC>;
    using Any = zserio::BasicAny<ALLOC>;
    using OptString = zserio::BasicOptional<ALLOC, String>;
    using OptSmall = zserio::BasicOptional<ALLOC, Small<ALLOC>>;
    using Var = zserio::BasicVariant<ALLOC, Tag, zserio::UInt32, String, Bytes>;
    using Opts = zserio::Vector<OptString, zserio::RebindAlloc<ALLOC, OptString>>;
    using Strings = zserio::Vector<String, zserio::RebindAlloc<ALLOC, String>>;
};

template <typename ALLOC>
zserio::BasicString<zserio::RebindAlloc<ALLOC, char>> text(uint32_t v, const ALLOC& a)
{
    zserio::BasicString<zserio::RebindAlloc<ALLOC, char>> s(a);
    s.assign(40 + v % 8, static_cast<char>('a' + v % 26));
    return s;
}
template <typename S>
bool isText(const S& s, uint32_t v)
{
    return s.size() == 40 + v % 8 && s.front() == static_cast<char>('a' + v % 26) && s.back() == s.front();
}

// how a value gets into a holder and how to recognise it
template <typename H, typename ALLOC>
struct Put;
template <typename ALLOC>
struct Put<zserio::BasicAny<ALLOC>, ALLOC>
{
    using T = Types<ALLOC>;
    static void put(typename T::Any& h, uint32_t v, const ALLOC& a)
    {
        switch (v % 3)
        {
        case 0:
            h.set(text(v, a));
            break;
        case 1:
            h.template emplace<Small<ALLOC>>().text.emplace(text(v, a));
            break;
        default:
            h.template emplace<typename T::Strings>().push_back(text(v, a));
        }
    }
    static bool is(const typename T::Any& h, uint32_t v)
    {
        switch (v % 3)
        {
        case 0:
            return isText(h.template get<typename T::String>(), v);
        case 1:
            return isText(*h.template get<Small<ALLOC>>().text, v);
        default:
            return isText(h.template get<typename T::Strings>().at(0), v);
        }
    }
    static void make(std::optional<typename T::Any>& d, uint32_t v, const ALLOC& a, const ALLOC&)
    {
        // a value which is handed over brings its memory with it, so it comes from the resource of the Any
        if (v % 3 == 0)
        {
            d.emplace(text(v, a), a);
        }
        else if (v % 3 == 1)
        {
            Small<ALLOC> source(a);
            source.text.emplace(text(v, a));
            d.emplace(std::move(source), a);
        }
        else
        {
            typename T::Strings source(a);
            source.push_back(text(v, a));
            d.emplace(std::move(source), a);
        }
    }
    static void clear(typename T::Any& h)
    {
        h.reset();
    }
};
template <typename ALLOC>
struct Put<typename Types<ALLOC>::OptString, ALLOC>
{
    using H = typename Types<ALLOC>::OptString;
    static void put(H& h, uint32_t v, const ALLOC& a)
    {
        if (v % 2 == 0)
        {
            h = text(v, a);
        }
        else
        {
            h.emplace(text(v, a));
        }
    }
    static bool is(const H& h, uint32_t v)
    {
        return isText(*h, v);
    }
    static void make(std::optional<H>& d, uint32_t v, const ALLOC& a, const ALLOC& b)
    {
        auto source = text(v, b);
        switch (v % 4)
        {
        case 0:
            d.emplace(std::as_const(source), a);
            break;
        case 1:
            d.emplace(std::move(source), a);
            break;
        case 2:
            d.emplace(std::in_place, a, source);
            break;
        default:
            d.emplace(std::in_place, a, source.begin(), source.end());
        }
    }
    static void clear(H& h)
    {
        h.reset();
    }
};
template <typename ALLOC>
struct Put<typename Types<ALLOC>::OptSmall, ALLOC>
{
    using H = typename Types<ALLOC>::OptSmall;
    static void put(H& h, uint32_t v, const ALLOC& a)
    {
        if (v % 2 == 0)
        {
            Small<ALLOC> s(a);
            s.text = text(v, a);
            h = std::move(s);
        }
        else
        {
            h.emplace().text.emplace(text(v, a));
        }
    }
    static bool is(const H& h, uint32_t v)
    {
        return isText(*h->text, v);
    }
    static void make(std::optional<H>& d, uint32_t v, const ALLOC& a, const ALLOC& b)
    {
        Small<ALLOC> source(b);
        source.text.emplace(text(v, b));
        switch (v % 3)
        {
        case 0:
            d.emplace(std::as_const(source), a);
            break;
        case 1:
            d.emplace(std::move(source), a);
            break;
        default:
            d.emplace(std::in_place, a, source);
        }
    }
    static void clear(H& h)
    {
        h.reset();
    }
};
template <typename ALLOC>
struct Put<typename Types<ALLOC>::Var, ALLOC>
{
    using H = typename Types<ALLOC>::Var;
    static void put(H& h, uint32_t v, const ALLOC& a)
    {
        if (v % 2 == 0)
        {
            h.template emplace<Tag::TEXT>(text(v, a));
        }
        else
        {
            h.template emplace<Tag::BYTES>().assign(40 + v % 8, static_cast<uint8_t>('a' + v % 26));
        }
    }
    static bool is(const H& h, uint32_t v)
    {
        return v % 2 == 0 ? isText(h.template get<Tag::TEXT>(), v) : isText(h.template get<Tag::BYTES>(), v);
    }
    static void make(std::optional<H>& d, uint32_t v, const ALLOC& a, const ALLOC& b)
    {
        if (v % 2 == 0)
        {
            const auto source = text(v, b);
            d.emplace(zserio::in_place_index<Tag::TEXT>, a, source);
        }
        else
        {
            typename Types<ALLOC>::Bytes source(40 + v % 8, static_cast<uint8_t>('a' + v % 26), b);
            d.emplace(zserio::in_place_index<Tag::BYTES>, a, std::move(source));
        }
    }
    static void clear(H& h)
    {
        h.template emplace<Tag::NUMBER>();
    }
};
template <typename ALLOC>
struct Put<typename Types<ALLOC>::Opts, ALLOC>
{
    using H = typename Types<ALLOC>::Opts;
    static void put(H& h, uint32_t v, const ALLOC& a)
    {
        h.clear();
        h.resize(2);
        h.back() = text(v, a);
        h.emplace_back();
    }
    static bool is(const H& h, uint32_t v)
    {
        return h.size() == 3 && isText(*h[1], v);
    }
    static void make(std::optional<H>& d, uint32_t v, const ALLOC& a, const ALLOC& b)
    {
        H source(b);
        put(source, v, b);
        d.emplace(source, a);
    }
    static void clear(H& h)
    {
        h.clear();
        h.shrink_to_fit();
    }
};
template <typename ALLOC>
struct Put<typename Types<ALLOC>::Bits, ALLOC>
{
    using H = typename Types<ALLOC>::Bits;
    static void put(H& h, uint32_t v, const ALLOC& a)
    {
        zserio::Vector<uint8_t, ALLOC> b(40 + v % 8, static_cast<uint8_t>('a' + v % 26), a);
        if (v % 2 == 0)
        {
            h = H(b, b.size() * 8, a);
        }
        else
        {
            h = H(std::move(b), 8 * (40 + v % 8));
        }
    }
    static bool is(const H& h, uint32_t v)
    {
        return isText(h.getBytes(), v);
    }
    static void make(std::optional<H>& d, uint32_t v, const ALLOC& a, const ALLOC& b)
    {
        zserio::Vector<uint8_t, ALLOC> source(40 + v % 8, static_cast<uint8_t>('a' + v % 26), b);
        if (v % 2 == 0)
        {
            d.emplace(zserio::Span<const uint8_t>(source), a);
        }
        else
        {
            d.emplace(zserio::Span<const uint8_t>(source), source.size() * 8, a);
        }
    }
    static void clear(H& h)
    {
        h = H(zserio::Span<const uint8_t>(), 0, h.get_allocator());
    }
};

// extended members of compounds are wrapped
template <typename H, typename ALLOC>
struct Put<zserio::Extended<H>, ALLOC>
{
    static void put(zserio::Extended<H>& h, uint32_t v, const ALLOC& a)
    {
        h.setPresent(v % 3 != 0);
        Put<H, ALLOC>::put(h.value(), v, a);
    }
    static bool is(const zserio::Extended<H>& h, uint32_t v)
    {
        return h.isPresent() == (v % 3 != 0) && static_cast<bool>(h) == h.isPresent() && Put<H, ALLOC>::is(*h, v) &&
                h.operator->() == &h.value();
    }
    static void make(std::optional<zserio::Extended<H>>& d, uint32_t v, const ALLOC& a, const ALLOC&)
    {
        d.emplace(a);
        put(*d, v, a);
    }
    static void clear(zserio::Extended<H>& h)
    {
        Put<H, ALLOC>::clear(*h);
        h.setPresent(false);
    }
};

template <typename H, typename = void>
struct HasSwap : std::false_type
{};
template <typename H>
struct HasSwap<H, std::void_t<decltype(std::declval<H&>().swap(std::declval<H&>()))>> : std::true_type
{};
template <typename H>
void swapOf(H& a, H& b, bool own)
{
    if constexpr (HasSwap<H>::value)
    {
        if (own)
        {
            a.swap(b);
            return;
        }
    }
    using std::swap;
    swap(a, b);
}

template <typename H, typename ALLOC, bool PPMR>
class World
{
    struct Slot
    {
        std::optional<H> h;
        unsigned home = 0; // resource of its allocator
        bool full = false;
        bool known = true;
        uint32_t v = 0;
    };
    Ctx& ctx;
    Memory mem;
    Slot slots[SLOTS];
    using P = Put<H, ALLOC>;

    ALLOC alloc(unsigned i)
    {
        return ALLOC(&mem.at(i));
    }
    size_t pick(bool present)
    {
        size_t n = 0;
        for (auto& s : slots)
        {
            n += s.h.has_value() == present ? 1 : 0;
        }
        size_t k = n == 0 ? 0 : ctx.choose(n);
        for (size_t i = 0; n != 0 && i < SLOTS; ++i)
        {
            if (slots[i].h.has_value() == present && k-- == 0)
            {
                return i;
            }
        }
        return SLOTS;
    }
    // returns false when memory was refused
    template <typename FN>
    bool run(const FN& f)
    {
        const bool fault = ctx.flip(1, 6);
        if (fault)
        {
            const uint64_t at = ctx.choose(3);
            for (unsigned i = 0; i <= DEF; ++i)
            {
                mem.at(i).plan.set(at, 1);
            }
        }
        bool ok = true;
        try
        {
            Tracked t;
            f();
        }
        catch (const std::bad_alloc&)
        {
            ok = false;
        }
        uint64_t fired = 0;
        for (unsigned i = 0; i <= DEF; ++i)
        {
            fired += mem.at(i).plan.fired;
            mem.at(i).plan.clear();
        }
        if (fired != 0)
        {
            SIM_COUNT("fault.allocation");
            ctx.nontrivial = true;
        }
        if (!ok)
        {
            ctx.log("  out of memory");
            ctx.shape(99);
            if (fired == 0)
            {
                ctx.fail("wrong-error", "out of memory without a refused allocation");
            }
        }
        return ok;
    }
    void check(const char* what)
    {
        unsigned may = 0;
        for (auto& s : slots)
        {
            if (s.h)
            {
                may |= 1U << s.home;
                if (s.known && s.full && !P::is(*s.h, s.v))
                {
                    ctx.fail("wrong-value", "after %s the holder does not have its value", what);
                }
            }
        }
        for (unsigned i = 0; i <= DEF; ++i)
        {
            if ((may & (1U << i)) == 0 && mem.at(i).liveBlocks != 0)
            {
                ctx.fail(i == DEF ? "default-resource" : "wrong-resource",
                        "%s: %llu blocks are in the %s resource, which no holder was given", what,
                        static_cast<unsigned long long>(mem.at(i).liveBlocks), mem.at(i).name());
            }
        }
        // a holder that lives alone in its resource and has a value has its data there
        for (auto& s : slots)
        {
            if (s.h && s.known && s.full && mem.at(s.home).liveBlocks == 0)
            {
                ctx.fail("wrong-resource", "%s: the value of a holder is not in its %s resource", what,
                        mem.at(s.home).name());
            }
        }
        if (g_heap.liveBlocks != 0)
        {
            ctx.fail("global-heap", "%s: %llu blocks are on the global heap", what,
                    static_cast<unsigned long long>(g_heap.liveBlocks));
        }
        SIM_COUNT("check.whereabouts");
    }

public:
    explicit World(Ctx& c) :
            ctx(c)
    {}
    ~World()
    {
        Tracked t;
        for (auto& s : slots)
        {
            s.h.reset();
        }
    }
    void go()
    {
        ctx.shape(PPMR ? 1 : 2);
        while (ctx.more(15, 16))
        {
            ctx.step();
            const size_t op = ctx.pick({3, 4, 2, 2, 2, 2, 3, 3, 2, 1, 1});
            const size_t i = pick(op == 0 || (op >= 2 && op <= 5) ? false : true);
            const size_t j = op == 0 || op == 1 || op >= 9 ? 0 : pick(true);
            if (i == SLOTS || j == SLOTS)
            {
                continue;
            }
            Slot& d = slots[i];
            Slot& s = slots[j];
            const unsigned r = static_cast<unsigned>(ctx.choose(R));
            const ALLOC a = alloc(r);
            ctx.shape(sim::mix(op * 64 + i * 16 + j * 4 + r));
            const char* what = "";
            switch (op)
            {
            case 0:
                what = "construction";
                ctx.log("construct %zu in %u", i, r);
                d = Slot();
                d.home = r;
                if (ctx.flip(1, 3))
                {
                    what = "construction from a value";
                    const ALLOC other = alloc(static_cast<unsigned>(ctx.choose(R)));
                    d.v = static_cast<uint32_t>(ctx.choose(24));
                    d.full = true;
                    ctx.log("  from a value, %u", d.v);
                    if (!run([&] {
                            P::make(d.h, d.v, a, other);
                        }))
                    {
                        d.h.reset();
                        d.full = false;
                    }
                    break;
                }
                {
                    Tracked t;
                    d.h.emplace(a);
                }
                break;
            case 1:
            {
                what = "setting a value";
                d.v = static_cast<uint32_t>(ctx.choose(24));
                ctx.log("set %zu to %u", i, d.v);
                const ALLOC own = alloc(d.home);
                d.known = run([&] {
                    P::put(*d.h, d.v, own);
                });
                d.full = true;
                break;
            }
            case 2:
            case 3:
            case 4:
            case 5:
            {
                const bool move = op == 3 || op == 5;
                const bool withAlloc = op >= 4;
                what = move ? withAlloc ? "move construction with allocator" : "move construction"
                            : withAlloc ? "copy construction with allocator" : "copy construction";
                ctx.log("%s of %zu from %zu, %u", what, i, j, r);
                d.home = withAlloc ? r : move || PPMR ? s.home : DEF;
                d.full = s.full;
                d.v = s.v;
                const bool wasKnown = s.known;
                if (move)
                {
                    s.known = false;
                }
                if (!run([&] {
                        switch (op)
                        {
                        case 2:
                            d.h.emplace(*s.h);
                            break;
                        case 3:
                            d.h.emplace(std::move(*s.h));
                            break;
                        case 4:
                            d.h.emplace(*s.h, a);
                            break;
                        default:
                            d.h.emplace(std::move(*s.h), a);
                        }
                    }))
                {
                    d.h.reset();
                }
                d.known = wasKnown;
                break;
            }
            case 6:
            case 7:
            {
                const bool move = op == 7;
                if (move && i == j)
                {
                    continue;
                }
                what = move ? "move assignment" : "copy assignment";
                ctx.log("%s to %zu from %zu", what, i, j);
                const bool wasKnown = s.known;
                if (move)
                {
                    s.known = false;
                }
                const bool ok = run([&] {
                    if (move)
                    {
                        *d.h = std::move(*s.h);
                    }
                    else
                    {
                        *d.h = *s.h;
                    }
                });
                if (PPMR)
                {
                    // a failed assignment may or may not have taken over the allocator
                    if (ok)
                    {
                        d.home = s.home;
                    }
                    else
                    {
                        d.h.reset();
                    }
                }
                d.full = s.full;
                d.v = s.v;
                d.known = ok && wasKnown;
                break;
            }
            case 8:
                if (i == j || (!PPMR && d.home != s.home))
                {
                    continue;
                }
                what = "swapping";
                ctx.log("swap %zu and %zu", i, j);
                {
                    const bool own = ctx.flip(1, 2);
                    if (run([&] {
                            swapOf(*d.h, *s.h, own);
                        }))
                    {
                        std::swap(d.home, s.home);
                        std::swap(d.known, s.known);
                        std::swap(d.full, s.full);
                        std::swap(d.v, s.v);
                    }
                    else
                    {
                        d.h.reset();
                        s.h.reset();
                    }
                }
                break;
            case 9:
                what = "clearing";
                ctx.log("clear %zu", i);
                {
                    Tracked t;
                    P::clear(*d.h);
                }
                d.full = false;
                d.known = true;
                break;
            default:
                what = "destruction";
                ctx.log("destroy %zu", i);
                {
                    Tracked t;
                    d.h.reset();
                }
                break;
            }
            check(what);
            uint64_t st = 0;
            for (auto& x : slots)
            {
                st = st * 16 + (x.h ? 1 + x.home * 2 + (x.full ? 1 : 0) : 0);
            }
            ctx.state(sim::mix(st + 5) ^ (PPMR ? 77 : 0));
        }
        for (auto& s : slots)
        {
            Tracked t;
            s.h.reset();
        }
        for (unsigned i = 0; i <= DEF; ++i)
        {
            mem.at(i).checkEmpty("everything was destroyed");
        }
        SIM_COUNT("check.balanced");
    }
};

// objects owned by unique pointers, whose deleters remember where the memory is from
template <typename ALLOC, bool PPMR>
void runUnique(Ctx& ctx)
{
    using Object = Small<ALLOC>;
    using ObjectAlloc = zserio::RebindAlloc<ALLOC, Object>;
    using Ptr = zserio::UniquePtr<Object, ObjectAlloc>;
    struct Slot
    {
        std::optional<Ptr> p;
        unsigned home = 0;
        uint32_t v = 0;
    };
    Memory mem;
    {
        Slot slots[SLOTS];
        ctx.shape(PPMR ? 11 : 12);
        uint32_t next = 0;
        while (ctx.more(15, 16))
        {
            ctx.step();
            Slot& d = slots[ctx.choose(SLOTS)];
            Slot& s = slots[ctx.choose(SLOTS)];
            const unsigned r = static_cast<unsigned>(ctx.choose(R));
            const size_t op = ctx.choose(5);
            ctx.shape(sim::mix(op * 64 + static_cast<size_t>(&d - slots) * 16 + static_cast<size_t>(&s - slots) * 4 + r));
            const char* what = "";
            switch (op)
            {
            case 0:
            case 1:
            {
                what = "making an object";
                ctx.log("make in %s", mem.at(r).name());
                const uint32_t v = ++next;
                std::optional<uint64_t> fault;
                if (ctx.flip(1, 3))
                {
                    fault = ctx.choose(4);
                    mem.at(r).plan.set(*fault, 1);
                }
                const uint64_t blocks = mem.at(r).liveBlocks;
                bool ok = true;
                bool fired = false;
                {
                    Tracked t;
                    std::optional<Ptr> fresh;
                    try
                    {
                        switch (v % 3)
                        {
                        case 0:
                            fresh.emplace(zserio::allocate_unique<Object>(ALLOC(&mem.at(r))));
                            (*fresh)->text.emplace(text(v, ALLOC(&mem.at(r))));
                            break;
                        case 1:
                        {
                            Object o(ALLOC(&mem.at(r)));
                            o.text = text(v, ALLOC(&mem.at(r)));
                            fresh.emplace(zserio::allocate_unique<Object>(ALLOC(&mem.at(r)), o)); // copies
                            break;
                        }
                        default:
                        {
                            Object o(ALLOC(&mem.at(r)));
                            o.text = text(v, ALLOC(&mem.at(r)));
                            fresh.emplace(zserio::allocate_unique<Object>(ALLOC(&mem.at(r)), std::move(o)));
                            break;
                        }
                        }
                    }
                    catch (const std::bad_alloc&)
                    {
                        ok = false;
                        fresh.reset();
                    }
                    fired = mem.at(r).plan.fired != 0;
                    mem.at(r).plan.clear();
                    if (ok)
                    {
                        d.p.reset();
                        d.p.emplace(std::move(*fresh));
                        d.home = r;
                        d.v = v;
                    }
                }
                if (fired)
                {
                    SIM_COUNT("fault.allocation");
                    ctx.nontrivial = true;
                    if (ok)
                    {
                        ctx.fail("swallowed", "a refused allocation was not reported");
                    }
                }
                if (!ok)
                {
                    ctx.log("  out of memory");
                    if (!fired)
                    {
                        ctx.fail("wrong-error", "out of memory without a refused allocation");
                    }
                    if (mem.at(r).liveBlocks != blocks)
                    {
                        ctx.fail("leak", "a failed creation kept memory of the %s resource", mem.at(r).name());
                    }
                }
                break;
            }
            case 2:
                what = "moving";
                ctx.log("move");
                if (&d != &s && s.p)
                {
                    Tracked t;
                    d.p.reset();
                    d.p.emplace(std::move(*s.p));
                    s.p.reset();
                    d.home = s.home;
                    d.v = s.v;
                }
                break;
            case 3:
                what = "assigning";
                if constexpr (PPMR)
                {
                    if (&d != &s && s.p && d.p)
                    {
                        ctx.log("%s", r == 0 ? "swap" : "move assign");
                        Tracked t;
                        if (r == 0)
                        {
                            std::swap(*d.p, *s.p);
                            std::swap(d.home, s.home);
                            std::swap(d.v, s.v);
                        }
                        else
                        {
                            *d.p = std::move(*s.p);
                            s.p.reset();
                            d.home = s.home;
                            d.v = s.v;
                        }
                    }
                }
                break;
            default:
                what = "destroying";
                ctx.log("destroy");
                {
                    Tracked t;
                    d.p.reset();
                }
                break;
            }
            uint64_t expected[R + 1] = {};
            uint64_t st = 0;
            for (Slot& x : slots)
            {
                st = st * 16 + (x.p ? 1 + x.home : 0);
                if (!x.p)
                {
                    continue;
                }
                expected[x.home] += 2; // the object and its text
                if (*x.p == nullptr || !(*x.p)->text || !isText(*(*x.p)->text, x.v))
                {
                    ctx.fail("wrong-value", "after %s an object does not have its value", what);
                }
            }
            ctx.state(sim::mix(st + 9) ^ (PPMR ? 78 : 1));
            for (unsigned i = 0; i <= DEF; ++i)
            {
                // (optional values of this size are kept on the heap of their allocator)
                if (mem.at(i).liveBlocks < expected[i] || (expected[i] == 0 && mem.at(i).liveBlocks != 0))
                {
                    ctx.fail(i == DEF ? "default-resource" : "wrong-resource", "%s: %llu blocks are in the %s resource", what,
                            static_cast<unsigned long long>(mem.at(i).liveBlocks), mem.at(i).name());
                }
            }
            if (g_heap.liveBlocks != 0)
            {
                ctx.fail("global-heap", "%s: %llu blocks are on the global heap", what,
                        static_cast<unsigned long long>(g_heap.liveBlocks));
            }
            SIM_COUNT("check.whereabouts");
        }
        Tracked t;
        for (Slot& x : slots)
        {
            x.p.reset();
        }
    }
    for (unsigned i = 0; i <= DEF; ++i)
    {
        mem.at(i).checkEmpty("everything was destroyed");
    }
    SIM_COUNT("check.balanced");
}

template <typename ALLOC, bool PPMR>
void runHolders(Ctx& ctx)
{
    using T = Types<ALLOC>;
    const size_t which = ctx.choose(8);
    ctx.log("kind of holder %zu", which);
    ctx.shape(which);
    switch (which)
    {
    case 0:
        World<typename T::Any, ALLOC, PPMR>(ctx).go();
        break;
    case 1:
        World<typename T::OptString, ALLOC, PPMR>(ctx).go();
        break;
    case 2:
        World<typename T::OptSmall, ALLOC, PPMR>(ctx).go();
        break;
    case 3:
        World<typename T::Var, ALLOC, PPMR>(ctx).go();
        break;
    case 4:
        World<typename T::Opts, ALLOC, PPMR>(ctx).go();
        break;
    case 5:
        World<zserio::Extended<typename T::OptString>, ALLOC, PPMR>(ctx).go();
        break;
    case 6:
        World<zserio::Extended<typename T::Var>, ALLOC, PPMR>(ctx).go();
        break;
    default:
        World<typename T::Bits, ALLOC, PPMR>(ctx).go();
        break;
    }
}
} // namespace

extern const std::vector<Scenario> SCENARIOS_holders;
const std::vector<Scenario> SCENARIOS_holders = {
        {"holders-ppmr", 2, runHolders<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>, true>},
        {"holders-pmr", 2, runHolders<std::pmr::polymorphic_allocator<uint8_t>, false>},
        {"unique-ppmr", 1, runUnique<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>, true>},
        {"unique-pmr", 1, runUnique<std::pmr::polymorphic_allocator<uint8_t>, false>},
};
