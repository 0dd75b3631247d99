// Objects of one allocator flavour under histories of copies, moves, assignments, swaps, serialization, JSON and
// reflection, with every allocation accounted to a resource and refused on plan. Shared by the checks of P07 (where
// memory comes from and goes to) and P08 (failing and retrying), one translation unit per flavour.
#pragma once

#include "objects.hpp"

#include <zserio/DebugStringUtil.h>
#include <zserio/IService.h>
#include <zserio/JsonReader.h>
#include <zserio/ReflectableUtil.h>
#include <zserio/SerializeUtil.h>
#include <zserio/TypeInfoUtil.h>

#include <memory_resource>
#include <optional>

using namespace sim;
using Bytes8 = std::vector<uint8_t>;
using model::Bits;

namespace
{

constexpr unsigned R = 3; // resources a user can supply
constexpr unsigned DEF = R; // bit of the default resource

struct Memory
{
    Resource res[R] = {Resource("first"), Resource("second"), Resource("third")};
    Resource def = Resource("default");
    std::pmr::memory_resource* old;
    Memory() :
            old(std::pmr::set_default_resource(&def))
    {}
    ~Memory()
    {
        std::pmr::set_default_resource(old);
    }
    Memory(const Memory&) = delete;
    Memory& operator=(const Memory&) = delete;
    void plan(uint64_t at, uint64_t len)
    {
        for (auto& r : res)
        {
            r.plan.set(at, len);
        }
        def.plan.set(at, len);
        g_heap.plan.set(at, len);
    }
    uint64_t clear()
    {
        uint64_t fired = def.plan.fired + g_heap.plan.fired;
        for (auto& r : res)
        {
            fired += r.plan.fired;
            r.plan.clear();
        }
        def.plan.clear();
        g_heap.plan.clear();
        return fired;
    }
    uint64_t live() const
    {
        uint64_t n = def.liveBlocks + g_heap.liveBlocks;
        for (const auto& r : res)
        {
            n += r.liveBlocks;
        }
        return n;
    }
    uint64_t allocs() const
    {
        uint64_t n = def.allocs + g_heap.allocs;
        for (const auto& r : res)
        {
            n += r.allocs;
        }
        return n;
    }
};

enum class Out
{
    DONE,
    NO_MEMORY,
    ERROR
};

// reads a text without the help of string streams, which would use the heap on their own account
struct TextSource : std::streambuf
{
    explicit TextSource(const std::string& s)
    {
        char* p = const_cast<char*>(s.data());
        setg(p, p, p + s.size());
    }
};
struct TextSink : std::streambuf
{
    std::string text;
    int_type overflow(int_type c) override
    {
        Untracked u;
        text.push_back(static_cast<char>(c));
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        Untracked u;
        text.append(s, static_cast<size_t>(n));
        return n;
    }
};

// what a flavour has to say about itself: Alloc, alloc(memory, i), KIND ("std", "pmr", "ppmr")
// what an object kind has to say about itself: Model, gen, fill, of, TEXT (name of a text field), text(), reference type
template <typename F, typename T>
struct Kind;

template <typename F, typename T>
class World
{
    using Alloc = typename F::Alloc;
    using K = Kind<F, T>;
    using Model = typename K::Model;
    using StdT = typename K::StdT;
    using String = zserio::BasicString<zserio::RebindAlloc<Alloc, char>>;
    static constexpr bool PPMR = F::PROPAGATES;
    static constexpr bool POLY = F::POLYMORPHIC;
    static constexpr size_t SLOTS = 3;

    struct Slot
    {
        std::optional<T> obj;
        Model model;
        bool known = false; // the model says what is in the object
        unsigned may = 0; // resources its data may live in
        std::optional<Alloc> alloc; // the allocator it was made with
    };

    Ctx& ctx;
    Memory mem;
    Slot slots[SLOTS];
    std::string m_error;
    const char* m_op = "";

    Model gen()
    {
        obj::GenOptions o;
        o.text = true;
        return K::gen(ctx, o);
    }
    unsigned bit(unsigned i) const
    {
        return 1U << i;
    }
    size_t pickSlot(bool present, bool needed)
    {
        size_t n = 0;
        for (const auto& s : slots)
        {
            n += s.obj.has_value() == present ? 1 : 0;
        }
        if (n == 0)
        {
            return SLOTS;
        }
        (void)needed;
        size_t k = ctx.choose(n);
        for (size_t i = 0; i < SLOTS; ++i)
        {
            if (slots[i].obj.has_value() == present && k-- == 0)
            {
                return i;
            }
        }
        return SLOTS;
    }

    template <typename FN>
    Out attempt(const FN& f)
    {
        try
        {
            Tracked t;
            f();
            return Out::DONE;
        }
        catch (const std::bad_alloc&)
        {
            return Out::NO_MEMORY;
        }
        catch (const Violation&)
        {
            throw;
        }
        catch (const std::exception& e)
        {
            Untracked u;
            m_error = e.what();
            return Out::ERROR;
        }
    }

    // Runs f, first perhaps with memory refused at some point; after() restores what a failed attempt spoiled so that
    // f can be repeated. Returns only when f has succeeded.
    template <typename FN, typename AFTER>
    void perform(const char* op, bool pure, bool explicitAlloc, const FN& f, const AFTER& after)
    {
        m_op = op;
        ctx.step();
        count((std::string("op.") + op).c_str());
        const uint64_t live = mem.live();
        bool leftBehind = false;
        for (unsigned tries = 0; tries < 2 && ctx.flip(1, 2); ++tries)
        {
            const uint64_t at = ctx.flip(1, 2) ? ctx.choose(4) : ctx.choose(40);
            const uint64_t len = ctx.flip(1, 3) ? UINT64_MAX : 1;
            mem.plan(at, len);
            const Out o = attempt(f);
            const uint64_t fired = mem.clear();
            ctx.log("  allocation %llu%s refused -> %s", static_cast<unsigned long long>(at), len == 1 ? "" : " and later",
                    fired == 0 ? "not reached" : o == Out::NO_MEMORY ? "out of memory" : o == Out::DONE ? "done" : "error");
            ctx.shape(sim::mix(at + (len == 1 ? 1000 : 0)) + fired);
            if (fired != 0)
            {
                SIM_COUNT("fault.allocation");
                ctx.nontrivial = true;
            }
            if (o == Out::DONE)
            {
                if (fired != 0)
                {
                    // fine only if the result is as good as without the fault, which is checked by the caller
                    SIM_COUNT("probe.survived-refused-allocation");
                }
                checkWhere(explicitAlloc);
                return;
            }
            if (o == Out::ERROR || fired == 0)
            {
                ctx.fail("wrong-error", "%s: %s: %s", op,
                        fired == 0 ? "fails without any fault" : "out of memory was reported as another error",
                        o == Out::ERROR ? m_error.c_str() : "std::bad_alloc");
            }
            leftBehind = true;
            {
                Tracked t;
                after();
            }
            if (pure && mem.live() != live)
            {
                ctx.fail("failed-operation-leaks", "%s: %lld blocks are kept after it ran out of memory", op,
                        static_cast<long long>(mem.live() - live));
            }
            checkInputs();
            checkWhere(explicitAlloc);
        }
        const Out o = attempt(f);
        if (o != Out::DONE)
        {
            ctx.fail("does-not-recover", "%s fails%s: %s", op,
                    leftBehind ? " although memory is available again" : " without any fault",
                    o == Out::ERROR ? m_error.c_str() : "std::bad_alloc");
        }
        if (leftBehind)
        {
            SIM_COUNT("check.retried");
        }
        checkWhere(explicitAlloc);
    }
    template <typename FN>
    void perform(const char* op, bool pure, bool explicitAlloc, const FN& f)
    {
        perform(op, pure, explicitAlloc, f, [] {});
    }

    // every object whose content is known still has it
    void checkInputs()
    {
        for (size_t i = 0; i < SLOTS; ++i)
        {
            if (slots[i].obj && slots[i].known && !(K::of(*slots[i].obj) == slots[i].model))
            {
                ctx.fail("wrong-object", "object %zu changed or is not what it should be after %s", i, m_op);
            }
        }
        SIM_COUNT("check.objects-compared");
    }

    // no block lives where no object may have its data
    void checkWhere(bool)
    {
        unsigned may = 0;
        for (const auto& s : slots)
        {
            may |= s.obj ? s.may : 0U;
        }
        for (unsigned i = 0; i < R; ++i)
        {
            if ((may & bit(i)) == 0 && mem.res[i].liveBlocks != 0)
            {
                ctx.fail("wrong-resource", "%s: %llu blocks kept in the %s resource, which no object was given", m_op,
                        static_cast<unsigned long long>(mem.res[i].liveBlocks), mem.res[i].name());
            }
        }
        if ((may & bit(DEF)) == 0 && mem.def.liveBlocks != 0)
        {
            ctx.fail("default-resource", "%s: %llu blocks (%llu bytes) kept in the default resource", m_op,
                    static_cast<unsigned long long>(mem.def.liveBlocks),
                    static_cast<unsigned long long>(mem.def.liveBytes));
        }
        if (POLY && g_heap.liveBlocks != 0)
        {
            ctx.fail("global-heap", "%s: %llu blocks kept on the global heap", m_op,
                    static_cast<unsigned long long>(g_heap.liveBlocks));
        }
        if (POLY)
        {
            SIM_COUNT("check.whereabouts");
        }
    }

    // an operation that was given an allocator for everything it needs asks nobody else
    struct Elsewhere
    {
        World& w;
        const char* what;
        uint64_t def;
        uint64_t heap;
        Elsewhere(World& world, const char* name) :
                w(world),
                what(name),
                def(world.mem.def.allocs),
                heap(g_heap.allocs)
        {}
        void check() const
        {
            if (!PPMR)
            {
                return;
            }
            if (w.mem.def.allocs != def)
            {
                w.ctx.fail("default-resource-used", "%s asked the default resource %llu times", what,
                        static_cast<unsigned long long>(w.mem.def.allocs - def));
            }
            if (g_heap.allocs != heap)
            {
                w.ctx.fail("global-heap-used", "%s asked the global heap %llu times", what,
                        static_cast<unsigned long long>(g_heap.allocs - heap));
            }
            SIM_COUNT("check.asked-nobody-else");
        }
    };

    Alloc alloc(unsigned i)
    {
        return F::alloc(mem.res[i]);
    }
    unsigned own(unsigned i) const
    {
        return POLY ? bit(i) : 0U;
    }

    void drop(Slot& s)
    {
        Tracked t;
        s.obj.reset();
        s.known = false;
        s.may = 0;
    }

    // ---- operations ---------------------------------------------------------------------------------------

    void create()
    {
        const size_t i = pickSlot(false, true);
        if (i == SLOTS)
        {
            return;
        }
        Slot& s = slots[i];
        const unsigned r = static_cast<unsigned>(ctx.choose(R));
        const Alloc a = alloc(r);
        ctx.log("create %zu in resource %u", i, r);
        ctx.shape(sim::mix(1000 + r));
        s.may = own(r);
        {
            Tracked t;
            s.obj.emplace(a);
        }
        s.alloc.emplace(a);
        const Model m = gen();
        fill(s, i, m);
    }
    void fill(Slot& s, size_t i, const Model& m)
    {
        ctx.log("fill %zu", i);
        ctx.shape(2000);
        s.known = false;
        perform("fill", false, true, [&] {
            K::fill(*s.obj, m, *s.alloc);
        });
        s.model = m;
        s.known = true;
    }
    void refill()
    {
        const size_t i = pickSlot(true, true);
        if (i == SLOTS)
        {
            return;
        }
        if (PPMR)
        {
            slots[i].may |= F::owner(mem.res, *slots[i].alloc);
        }
        const Model m = gen();
        fill(slots[i], i, m);
    }

    void construct(bool move, bool withAlloc)
    {
        const size_t from = pickSlot(true, true);
        const size_t to = pickSlot(false, true);
        if (from == SLOTS || to == SLOTS)
        {
            return;
        }
        Slot& s = slots[from];
        Slot& d = slots[to];
        const unsigned r = static_cast<unsigned>(ctx.choose(R));
        const Alloc a = alloc(r);
        ctx.log("%s construct %zu from %zu%s%u", move ? "move" : "copy", to, from, withAlloc ? " in resource " : " ", r);
        ctx.shape(sim::mix(3000 + (move ? 1 : 0) + (withAlloc ? 2 : 0)));
        // where the data of the new object may be
        d.may = withAlloc ? own(r) : !POLY ? 0U : move || PPMR ? s.may : bit(DEF);
        d.known = false;
        const bool wasKnown = s.known;
        Model m = s.model;
        if (move)
        {
            s.known = false; // a moved-from object is valid but unspecified
        }
        const Elsewhere e(*this, "construction of an object");
        perform(
                move ? withAlloc ? "move-construct-alloc" : "move-construct"
                     : withAlloc ? "copy-construct-alloc" : "copy-construct",
                !move, true,
                [&] {
                    if (move && withAlloc)
                    {
                        d.obj.emplace(std::move(*s.obj), a);
                    }
                    else if (move)
                    {
                        d.obj.emplace(std::move(*s.obj));
                    }
                    else if (withAlloc)
                    {
                        d.obj.emplace(*s.obj, a);
                    }
                    else
                    {
                        d.obj.emplace(*s.obj);
                    }
                },
                [&] {
                    if (move)
                    {
                        Untracked u;
                        s.obj.reset();
                        s.obj.emplace(*s.alloc);
                        Tracked t;
                        K::fill(*s.obj, m, *s.alloc);
                    }
                });
        e.check();
        d.alloc.emplace(withAlloc ? a : *s.alloc);
        if (!PPMR && POLY && !withAlloc && !move)
        {
            d.alloc.emplace(Alloc());
        }
        d.model = m;
        d.known = wasKnown;
        if (move && d.may != s.may)
        {
            // data that was not stolen may remain in the source
        }
    }

    void assign(bool move)
    {
        const size_t from = pickSlot(true, true);
        const size_t to = pickSlot(true, true);
        if (from == SLOTS || to == SLOTS || (move && from == to))
        {
            return;
        }
        Slot& s = slots[from];
        Slot& d = slots[to];
        ctx.log("%s assign %zu to %zu", move ? "move" : "copy", from, to);
        ctx.shape(sim::mix(4000 + (move ? 1 : 0) + (from == to ? 2 : 0)));
        const bool wasKnown = s.known;
        const Model m = s.model;
        const unsigned dMay = d.may;
        if (PPMR)
        {
            d.may = d.may | s.may;
        }
        if (from != to)
        {
            d.known = false;
        }
        if (move)
        {
            s.known = false;
        }
        const Elsewhere e(*this, "assignment of an object");
        perform(
                move ? "move-assign" : from == to ? "self-assign" : "copy-assign", false, true,
                [&] {
                    if (move)
                    {
                        *d.obj = std::move(*s.obj);
                    }
                    else
                    {
                        *d.obj = *s.obj;
                    }
                },
                [&] {
                    if (move)
                    {
                        {
                            Untracked u;
                            s.obj.reset();
                            s.obj.emplace(*s.alloc);
                        }
                        K::fill(*s.obj, m, *s.alloc);
                    }
                });
        e.check();
        (void)dMay;
        if (PPMR)
        {
            d.may = s.may;
            d.alloc.emplace(*s.alloc);
        }
        d.model = m;
        d.known = wasKnown;
    }

    void swap()
    {
        const size_t i = pickSlot(true, true);
        const size_t j = pickSlot(true, true);
        if (i == SLOTS || j == SLOTS || i == j)
        {
            return;
        }
        Slot& a = slots[i];
        Slot& b = slots[j];
        ctx.log("swap %zu and %zu", i, j);
        ctx.shape(5000);
        const bool ka = a.known;
        const bool kb = b.known;
        const Model ma = a.model;
        const Model mb = b.model;
        const Alloc aa = *a.alloc;
        const Alloc ab = *b.alloc;
        if (PPMR)
        {
            a.may |= b.may;
            b.may = a.may;
        }
        a.known = b.known = false;
        perform(
                "swap", false, true,
                [&] {
                    std::swap(*a.obj, *b.obj);
                },
                [&] {
                    {
                        Untracked u;
                        a.obj.reset();
                        b.obj.reset();
                        a.obj.emplace(aa);
                        b.obj.emplace(ab);
                    }
                    K::fill(*a.obj, ma, aa);
                    K::fill(*b.obj, mb, ab);
                });
        a.model = mb;
        b.model = ma;
        a.known = kb;
        b.known = ka;
        if (PPMR)
        {
            a.alloc.emplace(ab);
            b.alloc.emplace(aa);
        }
    }

    Bits encoded(const Model& m)
    {
        return obj::encoded(m);
    }

    void serialize()
    {
        const size_t i = pickSlot(true, true);
        if (i == SLOTS || !slots[i].known)
        {
            return;
        }
        Slot& s = slots[i];
        const unsigned r = static_cast<unsigned>(ctx.choose(R));
        const Alloc a = alloc(r);
        const size_t how = ctx.choose(3);
        ctx.log("serialize %zu with resource %u (%zu)", i, r, how);
        ctx.shape(6000 + how);
        const Bits want = encoded(s.model);
        const unsigned may = s.may;
        s.may |= own(r);
        Bytes8 got;
        size_t bits = 0;
        const Elsewhere e(*this, "serialization");
        perform("serialize", true, true, [&] {
            if (how == 0)
            {
                const auto b = zserio::serialize(*s.obj, a);
                Untracked u;
                bits = b.getBitSize();
                got = Bits::from(b.getBuffer(), bits).bytes();
            }
            else if (how == 1)
            {
                const auto b = zserio::serialize(zserio::View<T>(*s.obj), a);
                Untracked u;
                bits = b.getBitSize();
                got = Bits::from(b.getBuffer(), bits).bytes();
            }
            else
            {
                const auto b = zserio::serializeToBytes(*s.obj, a);
                Untracked u;
                bits = want.size();
                got.assign(b.begin(), b.end());
            }
        });
        e.check();
        s.may = may;
        if (got != want.bytes() || bits != want.size())
        {
            ctx.fail("wrong-bytes", "serialized form of object %zu is wrong", i);
        }
        SIM_COUNT("check.bytes-compared");
        checkInputs();
    }

    void deserialize(bool fresh)
    {
        const size_t i = pickSlot(!fresh, true);
        if (i == SLOTS)
        {
            return;
        }
        Slot& s = slots[i];
        const unsigned r = static_cast<unsigned>(ctx.choose(R));
        const Model m = gen();
        const Bits bits = encoded(m);
        const auto bytes = std::make_unique<Bytes8>(bits.bytes());
        const size_t how = ctx.choose(fresh ? 3 : 2);
        ctx.log("deserialize %zu (%zu) %s", i, how, fresh ? "new" : "over");
        ctx.shape(sim::mix(7000 + how + (fresh ? 4 : 0)));
        if (fresh)
        {
            s.alloc.emplace(alloc(r));
            s.may = own(r);
        }
        s.known = false;
        const Elsewhere e(*this, "deserialization");
        perform(
                fresh ? "deserialize-new" : "deserialize-over", fresh, true,
                [&] {
                    const zserio::Span<const uint8_t> span(bytes->data(), bytes->size());
                    if (fresh && how == 2)
                    {
                        const auto view = zserio::deserializeFromBytes<T>(span, *s.alloc);
                        s.obj.emplace(view.zserioData(), *s.alloc);
                        return;
                    }
                    if (fresh)
                    {
                        s.obj.emplace(*s.alloc);
                    }
                    if (how == 0)
                    {
                        zserio::deserializeFromBytes(span, *s.obj);
                    }
                    else
                    {
                        const zserio::BasicBitBuffer<Alloc> b(span, bits.size(), *s.alloc);
                        zserio::deserialize(b, *s.obj);
                    }
                },
                [&] {
                    if (fresh)
                    {
                        Untracked u;
                        s.obj.reset();
                    }
                });
        e.check();
        if (!fresh && obj::dropOldBranch(*s.obj, m))
        {
            SIM_COUNT("probe.old-branch");
        }
        s.model = m;
        s.known = true;
        if (*bytes != bits.bytes())
        {
            ctx.fail("input-changed", "the bytes an object was read from changed");
        }
    }

    std::string referenceJson(const Model& m, uint8_t indent)
    {
        Untracked u;
        StdT ref;
        K::fill(ref, m, std::allocator<uint8_t>());
        std::ostringstream os;
        zserio::toJsonStream(ref, os, indent);
        return os.str();
    }

    void dump()
    {
        const size_t i = pickSlot(true, true);
        if (i == SLOTS || !slots[i].known)
        {
            return;
        }
        Slot& s = slots[i];
        const unsigned r = static_cast<unsigned>(ctx.choose(R));
        const Alloc a = alloc(r);
        const bool toString = ctx.flip(1, 2);
        const bool filtered = ctx.flip(1, 2);
        uint8_t indent = static_cast<uint8_t>(ctx.choose(5));
        const bool standard = indent == 4 && ctx.flip(1, 2); // the indentation which need not be given
        ctx.log("dump %zu with resource %u to a %s", i, r, toString ? "string" : "stream");
        ctx.shape(sim::mix(8000 + (toString ? 1 : 0)));
        const std::string want = referenceJson(s.model, indent);
        std::string got;
        const unsigned may = s.may;
        s.may |= own(r);
        const Elsewhere e(*this, "JSON writing");
        perform(toString ? "dump-string" : "dump-stream", true, true, [&] {
            if (toString)
            {
                zserio::BasicDefaultWalkFilter<Alloc> all;
                const auto text = filtered
                        ? (standard ? zserio::toJsonString(*s.obj, all, a) : zserio::toJsonString(*s.obj, indent, all, a))
                        : (standard ? zserio::toJsonString(*s.obj, a) : zserio::toJsonString(*s.obj, indent, a));
                Untracked u;
                got.assign(text.data(), text.size());
            }
            else
            {
                TextSink sink;
                std::ostream os(&sink);
                zserio::BasicDefaultWalkFilter<Alloc> all;
                if (filtered && standard)
                {
                    zserio::toJsonStream(*s.obj, os, all, a);
                }
                else if (filtered)
                {
                    zserio::toJsonStream(*s.obj, os, indent, all, a);
                }
                else if (standard)
                {
                    zserio::toJsonStream(*s.obj, os, a);
                }
                else
                {
                    zserio::toJsonStream(*s.obj, os, indent, a);
                }
                Untracked u;
                if (!os)
                {
                    throw std::runtime_error("stream failed");
                }
                got = sink.text;
            }
        });
        e.check();
        s.may = may;
        if (got != want)
        {
            size_t p = 0;
            while (p < got.size() && p < want.size() && got[p] == want[p])
            {
                ++p;
            }
            ctx.fail("wrong-dump", "JSON of object %zu is %zu characters instead of %zu and differs at %zu", i,
                    got.size(), want.size(), p);
        }
        SIM_COUNT("check.dumps-compared");
        checkInputs();
    }

    void parse()
    {
        const size_t i = pickSlot(false, true);
        if (i == SLOTS)
        {
            return;
        }
        Slot& s = slots[i];
        const unsigned r = static_cast<unsigned>(ctx.choose(R));
        const Model m = gen();
        const std::string text = referenceJson(m, static_cast<uint8_t>(ctx.choose(3)));
        const size_t how = ctx.choose(3);
        ctx.log("parse %zu (%zu) with resource %u", i, how, r);
        ctx.shape(9000 + how);
        s.alloc.emplace(alloc(r));
        s.may = own(r);
        s.known = false;
        const Elsewhere e(*this, "JSON reading");
        perform(
                how == 0 ? "parse-string" : how == 1 ? "parse-stream" : "parse-reader", true, true,
                [&] {
                    if (how == 0)
                    {
                        const String str(text.begin(), text.end(), *s.alloc);
                        s.obj.emplace(zserio::fromJsonString<T>(str, *s.alloc));
                    }
                    else if (how == 1)
                    {
                        TextSource src(text);
                        std::istream is(&src);
                        s.obj.emplace(zserio::fromJsonStream<T>(is, *s.alloc));
                    }
                    else
                    {
                        TextSource src(text);
                        std::istream is(&src);
                        zserio::BasicJsonReader<Alloc> reader(is, *s.alloc);
                        const auto tree = reader.read(zserio::typeInfo<T>());
                        s.obj.emplace(zserio::ReflectableUtil::getValue<T, Alloc>(tree), *s.alloc);
                    }
                },
                [&] {
                    Untracked u;
                    s.obj.reset();
                });
        e.check();
        s.model = m;
        s.known = true;
        checkInputs();
    }

    void reflect()
    {
        const size_t i = pickSlot(true, true);
        if (i == SLOTS || !slots[i].known)
        {
            return;
        }
        Slot& s = slots[i];
        obj::GenOptions o;
        o.text = true;
        const std::string text = obj::genString(ctx, o);
        ctx.log("set a text of %zu through reflection", i);
        ctx.shape(10000);
        const Model m = s.model;
        s.known = false;
        if (PPMR)
        {
            s.may |= F::owner(mem.res, *s.alloc);
        }
        Bytes8 seen;
        const Elsewhere e(*this, "reflection");
        perform("reflect-set", false, true, [&] {
            const auto r = zserio::reflectable(*s.obj, *s.alloc);
            r->setField(K::TEXT, zserio::BasicAny<Alloc>(String(text.begin(), text.end(), *s.alloc), *s.alloc));
            const auto v = r->getField(K::TEXT)->getStringView();
            Untracked u;
            seen.assign(v.begin(), v.end());
        });
        e.check();
        s.model = m;
        K::text(s.model) = text;
        s.known = true;
        if (seen != Bytes8(text.begin(), text.end()))
        {
            ctx.fail("wrong-reflected-value", "the text read through reflection is not the one that was set");
        }
        checkInputs();
    }

    // everything a dynamic interface can be asked for, down to the values
    template <typename P>
    static uint64_t look(const P& node, const Alloc& a)
    {
        if (!node)
        {
            return 1;
        }
        uint64_t h = 3;
        if (node->isArray())
        {
            for (size_t i = 0; i < node->size(); ++i)
            {
                h = sim::mix(h + look(node->at(i), a));
            }
            (void)node->getAnyValue(a);
            return h;
        }
        const auto& info = node->getTypeInfo();
        if (zserio::TypeInfoUtil::isCompound(info.getSchemaType()))
        {
            const bool oneOf = info.getSchemaType() == zserio::SchemaType::CHOICE ||
                    info.getSchemaType() == zserio::SchemaType::UNION;
            for (const auto& f : info.getFields())
            {
                if (oneOf && f.schemaName != node->getChoice())
                {
                    continue;
                }
                h = sim::mix(h + look(node->getField(f.schemaName), a));
                h = sim::mix(h + look(node->find(f.schemaName), a));
            }
            return h;
        }
        (void)node->getAnyValue(a);
        switch (info.getCppType())
        {
        case zserio::CppType::BIT_BUFFER:
            h = sim::mix(node->getBitBuffer().getBitSize());
            break;
        case zserio::CppType::BYTES:
            h = sim::mix(node->getBytes().size());
            break;
        case zserio::CppType::STRING:
            h = sim::mix(node->getStringView().size());
            break;
        default:
        {
            const auto text = node->toString(a);
            for (const char c : text)
            {
                h = sim::mix(h + static_cast<unsigned char>(c));
            }
            break;
        }
        }
        return h;
    }

    void inspect()
    {
        const size_t i = pickSlot(true, true);
        if (i == SLOTS || !slots[i].known)
        {
            return;
        }
        Slot& s = slots[i];
        const unsigned r = static_cast<unsigned>(ctx.choose(R));
        const Alloc a = alloc(r);
        const bool constant = ctx.flip(1, 2);
        const T* const object = &*s.obj;
        const T& fixed = *object;
        ctx.log("look at %zu with resource %u%s", i, r, constant ? " as a constant" : "");
        ctx.shape(12000 + (constant ? 1 : 0));
        uint64_t got = 0;
        const unsigned may = s.may;
        s.may |= own(r);
        const Elsewhere e(*this, "looking at an object");
        perform("inspect", true, true, [&] {
            if (constant)
            {
                got = look(zserio::introspectable(zserio::View<T>(fixed), a), a);
            }
            else
            {
                got = look(zserio::IBasicReflectableDataConstPtr<Alloc>(zserio::reflectable(*s.obj, a)), a);
            }
        });
        e.check();
        s.may = may;
        if (got == 0)
        {
            ctx.fail("wrong-reflected-value", "nothing was seen");
        }
        checkInputs();
        SIM_COUNT("check.looked-at");
    }

    // a new object made by its type information
    void instance()
    {
        const size_t i = pickSlot(false, true);
        if (i == SLOTS)
        {
            return;
        }
        Slot& s = slots[i];
        const unsigned r = static_cast<unsigned>(ctx.choose(R));
        obj::GenOptions o;
        o.text = true;
        const std::string text = obj::genString(ctx, o);
        ctx.log("instance %zu in resource %u", i, r);
        ctx.shape(13000);
        s.alloc.emplace(alloc(r));
        s.may = own(r);
        s.known = false;
        Bytes8 seen;
        const Elsewhere e(*this, "an instance made by type information");
        perform(
                "instance", true, true,
                [&] {
                    const auto tree = zserio::typeInfo<T, Alloc>().createInstance(*s.alloc);
                    tree->setField(K::TEXT, zserio::BasicAny<Alloc>(String(text.begin(), text.end(), *s.alloc), *s.alloc));
                    const auto v = tree->getField(K::TEXT)->getStringView();
                    Untracked u;
                    seen.assign(v.begin(), v.end());
                },
                [&] {});
        e.check();
        if (seen != Bytes8(text.begin(), text.end()))
        {
            ctx.fail("wrong-reflected-value", "the text read from an instance is not the one that was set");
        }
    }

    // what a service hands over
    void publish()
    {
        const size_t i = pickSlot(true, true);
        if (i == SLOTS || !slots[i].known)
        {
            return;
        }
        Slot& s = slots[i];
        const unsigned r = static_cast<unsigned>(ctx.choose(R));
        const Alloc a = alloc(r);
        const size_t kind = ctx.choose(3);
        ctx.log("payload of %zu with resource %u", i, r);
        ctx.shape(14000 + kind);
        const Bits want = encoded(s.model);
        const unsigned may = s.may;
        s.may |= own(r);
        Bytes8 got;
        const Elsewhere e(*this, "a payload");
        perform("payload", true, true, [&] {
            const auto take = [&](const zserio::IBasicServiceData<Alloc>& d) {
                const auto data = d.getData();
                Untracked u;
                got.assign(data.begin(), data.end());
            };
            if (kind == 0)
            {
                take(zserio::BasicObjectServiceData<Alloc>(*s.obj, a));
            }
            else if (kind == 1)
            {
                const T copy(*s.obj, a);
                take(zserio::BasicIntrospectableServiceData<T, Alloc>(copy, a));
            }
            else
            {
                take(zserio::BasicIntrospectableServiceData<T, Alloc>(T(*s.obj, a), a));
            }
        });
        e.check();
        s.may = may;
        if (got != want.bytes())
        {
            ctx.fail("wrong-bytes", "payload of object %zu is wrong", i);
        }
        checkInputs();
    }

    void destroy()
    {
        const size_t i = pickSlot(true, true);
        if (i != SLOTS)
        {
            ctx.log("destroy %zu", i);
            ctx.shape(11000);
            m_op = "destroy";
            ctx.step();
            drop(slots[i]);
            checkWhere(true);
        }
    }

public:
    explicit World(Ctx& c) :
            ctx(c)
    {
        for (auto& s : slots)
        {
            s.alloc.emplace(alloc(0));
        }
    }
    ~World()
    {
        Tracked t;
        for (auto& s : slots)
        {
            s.obj.reset();
        }
    }

    void run()
    {
        ctx.shape(F::ID);
        while (ctx.more(15, 16))
        {
            switch (ctx.pick({3, 3, 2, 2, 1, 2, 3, 2, 1, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1}))
            {
            case 0:
                create();
                break;
            case 1:
                construct(false, true);
                break;
            case 2:
                construct(false, false);
                break;
            case 3:
                construct(true, true);
                break;
            case 4:
                construct(true, false);
                break;
            case 5:
                assign(true);
                break;
            case 6:
                assign(false);
                break;
            case 7:
                swap();
                break;
            case 8:
                refill();
                break;
            case 9:
                serialize();
                break;
            case 10:
                deserialize(true);
                break;
            case 11:
                deserialize(false);
                break;
            case 12:
                dump();
                break;
            case 13:
                parse();
                break;
            case 14:
                reflect();
                break;
            case 16:
                inspect();
                break;
            case 17:
                instance();
                break;
            case 18:
                publish();
                break;
            default:
                destroy();
                break;
            }
            checkInputs();
            unsigned st = 0;
            for (const auto& s : slots)
            {
                st = st * 32 + (s.obj ? 16U + s.may : 0U);
            }
            ctx.state(sim::mix(st) + F::ID);
        }
        for (auto& s : slots)
        {
            drop(s);
        }
        for (auto& r : mem.res)
        {
            r.checkEmpty("everything was destroyed");
        }
        mem.def.checkEmpty("everything was destroyed");
        if (g_heap.liveBlocks != 0)
        {
            ctx.fail("leak", "%llu blocks are left on the global heap after everything was destroyed",
                    static_cast<unsigned long long>(g_heap.liveBlocks));
        }
        SIM_COUNT("check.balanced");
    }
};

// common to all flavours
#define FLAVOUR_KINDS(F, NS) \
    template <> \
    struct Kind<F, test_object::NS::CreatorObject> \
    { \
        using Model = obj::Creator; \
        using StdT = test_object::std_allocator::CreatorObject; \
        static constexpr const char* TEXT = "text"; \
        static std::string& text(Model& m) \
        { \
            return m.text; \
        } \
        static Model gen(Ctx& c, const obj::GenOptions& o) \
        { \
            Model m = obj::genCreator(c, o); \
            normalize(m); \
            return m; \
        } \
        template <typename O, typename A> \
        static void fill(O& t, const Model& m, const A& a) \
        { \
            obj::fillCreator(t, m, a); \
        } \
        template <typename O> \
        static Model of(const O& t) \
        { \
            Untracked u; \
            return obj::creatorOf(t); \
        } \
    }; \
    template <> \
    struct Kind<F, test_object::NS::WalkerObject> \
    { \
        using Model = obj::Walker; \
        using StdT = test_object::std_allocator::WalkerObject; \
        static constexpr const char* TEXT = "text"; \
        static std::string& text(Model& m) \
        { \
            return m.text; \
        } \
        static Model gen(Ctx& c, const obj::GenOptions& o) \
        { \
            return obj::genWalker(c, o); \
        } \
        template <typename O, typename A> \
        static void fill(O& t, const Model& m, const A& a) \
        { \
            obj::fillWalker(t, m, a); \
        } \
        template <typename O> \
        static Model of(const O& t) \
        { \
            Untracked u; \
            return obj::walkerOf(t); \
        } \
    }; \
    template <> \
    struct Kind<F, test_object::NS::ReflectableObject> \
    { \
        using Model = obj::Reflectable; \
        using StdT = test_object::std_allocator::ReflectableObject; \
        static constexpr const char* TEXT = "stringField"; \
        static std::string& text(Model& m) \
        { \
            return m.stringField; \
        } \
        static Model gen(Ctx& c, const obj::GenOptions& o) \
        { \
            return obj::genReflectable(c, o); \
        } \
        template <typename O, typename A> \
        static void fill(O& t, const Model& m, const A& a) \
        { \
            obj::fillReflectable(t, m, a); \
        } \
        template <typename O> \
        static Model of(const O& t) \
        { \
            Untracked u; \
            return obj::reflectableOf(t); \
        } \
    };

inline void normalize(obj::Nested&)
{}
inline void normalize(obj::Creator& m)
{
    normalize(m.nested);
}

template <typename F, typename T>
void runWorld(Ctx& ctx)
{
    World<F, T> w(ctx);
    w.run();
}

} // namespace
