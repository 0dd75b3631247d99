// P03: damaged or truncated binary data is rejected or read as a valid object.
#include "damage.hpp"
#include "program.hpp"

#include <zserio/DebugStringUtil.h>

namespace
{

constexpr uint64_t MEMORY = 8U << 20; // far above what any input of these sizes can legitimately need

// runs f with the memory budget; std errors other than the library's own are violations
template <typename F>
Outcome bounded(Ctx& ctx, const char* what, const F& f)
{
    g_heap.budget = g_heap.liveBytes + MEMORY;
    Outcome o = Outcome::DONE;
    try
    {
        o = attempt(f);
    }
    catch (const std::exception& e)
    {
        g_heap.budget = UINT64_MAX;
        ctx.fail("foreign-exception", "%s failed with %s", what, e.what());
    }
    g_heap.budget = UINT64_MAX;
    return o;
}

model::Bits damaged(Ctx& ctx, const model::Bits& data, const model::Bits& other)
{
    model::Bits d = data;
    do
    {
        const char* kind = damage::once(ctx, d, other);
        ctx.log("%s: now %zu bits", kind, d.size());
        ctx.shape(std::hash<std::string_view>()(kind));
    } while (ctx.more(1, 3));
    ctx.nontrivial = true;
    return d;
}

// everything one may do with an object that was read; returns its bits when it can be written
template <typename T, typename... ARGS>
bool examine(Ctx& ctx, const T& object, Bytes8& out, size_t& outBits, ARGS... args)
{
    const zserio::View<T> view(object, args...);
    bool valid = true;
    if (bounded(ctx, "validation", [&] {
            zserio::detail::validate(view, "object");
        }) == Outcome::ERROR)
    {
        valid = false;
    }
    size_t h1 = 0;
    size_t h2 = 1;
    bool eq = false;
    bool less = false;
    if (bounded(ctx, "comparison", [&] {
            eq = view == view;
            less = view < view;
            h1 = std::hash<zserio::View<T>>()(view);
            h2 = std::hash<zserio::View<T>>()(view);
        }) != Outcome::DONE)
    {
        ctx.fail("comparison-failed", "comparing or hashing a read object failed: %s", g_error.c_str());
    }
    if (!eq || less || h1 != h2)
    {
        ctx.fail("comparison-inconsistent", "a read object is %s to itself", less ? "less" : "not equal");
    }
    if (ctx.flip(1, 4))
    {
        SIM_COUNT("op.dump");
        const Outcome o = bounded(ctx, "dump", [&] {
            if constexpr (sizeof...(ARGS) == 0)
            {
                (void)zserio::toJsonString(object);
            }
            T copy(object);
            const T assigned(copy);
            if (!(zserio::View<T>(assigned, args...) == view))
            {
                Untracked u;
                g_ctx->fail("copy-differs", "a copy of a read object is not equal to it");
            }
        });
        if (o != Outcome::DONE && (o != Outcome::ERROR || valid))
        {
            ctx.fail("dump-failed", "dumping a read object failed: %s", g_error.c_str());
        }
    }
    size_t predicted = 0;
    const Outcome o = bounded(ctx, "serialization", [&] {
        predicted = zserio::detail::bitSizeOf(view, 0);
        const auto buffer = zserio::serialize(view);
        Untracked u;
        out.assign(buffer.getData().begin(), buffer.getData().end());
        outBits = buffer.getBitSize();
    });
    if (o == Outcome::NO_MEMORY || o == Outcome::CAPACITY)
    {
        ctx.fail("serialization-inconsistent", "the size of a read object was predicted wrong or unbounded");
    }
    if (o != Outcome::DONE)
    {
        if (valid)
        {
            ctx.fail("valid-object-not-written", "a read object that validates cannot be serialized: %s", g_error.c_str());
        }
        return false;
    }
    if (predicted != outBits)
    {
        ctx.fail("wrong-size", "predicted %zu bits, serialized %zu", predicted, outBits);
    }
    return true;
}

template <typename T, typename... ARGS>
void objectRun(Ctx& ctx, ARGS... args)
{
    using K = Kind<T>;
    T reused;
    model::Bits previous;
    do
    {
        const Bits good = obj::encoded(K::gen(ctx));
        const Bits bad = damaged(ctx, good, previous.size() == 0 ? good : previous);
        const Bytes8 bytes = bad.bytes();
        previous = good;
        Block block(bytes.size());
        if (!bytes.empty())
        {
            memcpy(block.data.get(), bytes.data(), bytes.size());
        }
        const zserio::Span<const uint8_t> span(block.data.get(), block.size);
        if (ctx.flip(1, 2))
        {
            reused = T();
        }
        const zserio::ArrayPreallocation limit(ctx.flip(1, 2) ? ctx.choose(300) : 128U * 1024);
        const size_t way = ctx.choose(6);
        Bytes8 again;
        size_t againBits = 0;
        typename K::Model m;
        bool writable = false;
        const zserio::BasicBitBuffer<std::allocator<uint8_t>> buffer(span, bad.size());
        Bytes8 viewBytes;
        bool haveView = false;
        const auto takeView = [&](const zserio::DataView<T>& dv) {
            const zserio::DataView<T> copy(dv);
            if (!(copy == dv))
            {
                Untracked u;
                g_ctx->fail("view-copy-differs", "a copy of a view of a read object is not equal to it");
            }
            const auto written = zserio::serialize(copy);
            (void)zserio::deserialize(written, reused, args...);
            Untracked u;
            haveView = true;
            viewBytes.assign(written.getData().begin(), written.getData().end());
        };
        const Outcome o = bounded(ctx, "deserialization", [&] {
            switch (way)
            {
            case 0:
                (void)zserio::deserialize(buffer, reused, args...);
                break;
            case 1:
                (void)zserio::deserialize(buffer, limit, reused, args...);
                break;
            case 2:
                (void)zserio::deserializeFromBytes(span, reused, args...);
                break;
            case 3:
            {
                zserio::BitStreamReader r(span, bad.size(), limit);
                (void)zserio::detail::read(r, reused, args...);
                break;
            }
            case 4:
            {
                const auto dv = zserio::deserialize<T>(buffer, limit, args...);
                takeView(dv);
                break;
            }
            default:
            {
                const auto dv = zserio::deserializeFromBytes<T>(span, args...);
                takeView(dv);
                break;
            }
            }
        });
        SIM_COUNT("op.read");
        ctx.step();
        ctx.log("read by way %zu: %s", way, o == Outcome::DONE ? "accepted" : g_error.c_str());
        ctx.shape(way * 8 + static_cast<size_t>(o));
        ctx.shape(std::min<size_t>(bad.size() / 8, 64));
        if (o == Outcome::NO_MEMORY || o == Outcome::CAPACITY)
        {
            ctx.fail("unbounded-memory", "reading %zu bits needs more than %llu bytes (largest block %llu)", bad.size(),
                    static_cast<unsigned long long>(MEMORY), static_cast<unsigned long long>(g_heap.maxRequest));
        }
        if (o != Outcome::DONE)
        {
            SIM_COUNT("check.rejected");
            continue;
        }
        SIM_COUNT("check.accepted");
        m = K::of(reused);
        writable = examine(ctx, reused, again, againBits, args...);
        if (!writable)
        {
            continue;
        }
        T second;
        const zserio::BitBuffer againBuffer(zserio::Span<const uint8_t>(again.data(), again.size()), againBits);
        if (bounded(ctx, "second deserialization", [&] {
                (void)zserio::deserialize(againBuffer, second, args...);
            }) != Outcome::DONE)
        {
            ctx.fail("written-not-readable", "what was serialized from a read object cannot be read: %s", g_error.c_str());
        }
        if (!(K::of(second) == m))
        {
            ctx.fail("round-trip-differs", "what was serialized from a read object reads back different");
        }
        obj::dropOldBranch(reused, m); // known finding of P04
        if (!(zserio::View<T>(second, args...) == zserio::View<T>(reused, args...)) ||
                std::hash<zserio::View<T>>()(zserio::View<T>(second, args...)) !=
                        std::hash<zserio::View<T>>()(zserio::View<T>(reused, args...)))
        {
            ctx.fail("round-trip-not-equal", "what was serialized from a read object compares or hashes different");
        }
        Bits canonical = obj::encoded(m);
        if (canonical.bytes() != again)
        {
            ctx.fail("round-trip-wrong-bits", "a read object is not serialized as its content prescribes");
        }
        if (haveView && viewBytes != again)
        {
            ctx.fail("view-wrong-bits", "a view of a read object serializes to other bits than the object");
        }
        SIM_COUNT("check.round-trip");
    } while (ctx.more(1, 2));
}

void objects(Ctx& ctx)
{
    switch (ctx.choose(5))
    {
    case 0:
        objectRun<to::CreatorObject>(ctx);
        break;
    case 1:
        objectRun<to::WalkerObject>(ctx);
        break;
    case 2:
        objectRun<to::ReflectableObject>(ctx);
        break;
    case 3:
        objectRun<to::WalkerUnion>(ctx);
        break;
    default:
        objectRun<to::CreatorNested>(ctx, zserio::UInt32(13));
        break;
    }
}

template <typename F>
void overBlock(const Bits& b, zserio::ArrayPreallocation limit, const F& f)
{
    const Bytes8 bytes = b.bytes();
    Block block(bytes.size());
    if (!bytes.empty())
    {
        memcpy(block.data.get(), bytes.data(), bytes.size());
    }
    zserio::BitStreamReader r(block.data.get(), b.size(), zserio::BitsTag(), limit);
    f(r);
}

void fieldProgram(Ctx& ctx)
{
    size_t prefix = 0;
    uint64_t prefixBits = 0;
    Bits b;
    std::vector<Item> items = genProgram(ctx, prefix, prefixBits, b);
    Bits tail; // damage the fields, not the prefix
    tail.b.assign(b.b.begin() + static_cast<ptrdiff_t>(prefix), b.b.end());
    const Bits bad = damaged(ctx, tail, b);
    Bits data;
    data.b.assign(b.b.begin(), b.b.begin() + static_cast<ptrdiff_t>(prefix));
    data.append(bad);
    size_t decoded = 0;
    Outcome o = Outcome::DONE;
    overBlock(data, zserio::ArrayPreallocation(ctx.flip(1, 2) ? ctx.choose(300) : 128U * 1024),
            [&](zserio::BitStreamReader& r) {
                o = bounded(ctx, "reading", [&] {
                    r.setBitPosition(prefix);
                    for (const auto& it : items)
                    {
                        if (it.align != 0)
                        {
                            r.alignTo(it.align);
                        }
                        it.field->read(r);
                        ++decoded;
                    }
                });
                if (r.getBitPosition() > data.size())
                {
                    ctx.fail("read-beyond-end", "the reader stands at bit %zu of %zu", r.getBitPosition(), data.size());
                }
            });
    SIM_COUNT("op.read");
    if (o == Outcome::NO_MEMORY)
    {
        // only elements that take no bits at all may be repeated without end
        const std::string& n = items[decoded].field->name;
        SIM_COUNT("probe.memory-budget-hit");
        if (n.find("packed") == std::string::npos && n.find("Leaf") == std::string::npos &&
                n.find("Node") == std::string::npos)
        {
            ctx.fail("unbounded-memory", "%s: reading %zu bits needs more than %llu bytes", n.c_str(), data.size(),
                    static_cast<unsigned long long>(MEMORY));
        }
        return;
    }
    ctx.log("%s", o == Outcome::DONE ? "accepted" : g_error.c_str());
    ctx.shape(static_cast<uint64_t>(o));
    if (o == Outcome::CAPACITY)
    {
        ctx.fail("wrong-error", "damaged data reported as lack of room");
    }
    if (o != Outcome::DONE)
    {
        SIM_COUNT("check.rejected");
        return;
    }
    SIM_COUNT("check.accepted");
    size_t elements = 0;
    for (const auto& it : items)
    {
        elements += it.field->destinationCount();
    }
    if (elements > 20000)
    {
        return; // many elements without any bits: too long to look at
    }
    // what was read is a value like any other
    for (auto& it : items)
    {
        it.field->rewriteFromDestination();
    }
    b.b.resize(prefix);
    for (auto& it : items)
    {
        b.align(it.align);
        it.begin = b.size();
        it.field->encode(b);
        it.end = b.size();
    }
    for (const auto& it : items)
    {
        // damaged deltas may add up to a value out of the range of its type: validation has to tell
        if (it.field->name.find("packed") != std::string::npos && attempt([&] {
                it.field->validate();
            }) == Outcome::ERROR)
        {
            SIM_COUNT("check.out-of-range-validated");
            return;
        }
    }
    predictSizes(ctx, items);
    const Bytes8 stored = writeProgram(ctx, items, prefix, prefixBits, b);
    readProgram(ctx, items, prefix, stored, b.size());
    SIM_COUNT("check.round-trip");
}

// only the element count of an array is damaged
void elementCount(Ctx& ctx)
{
    std::unique_ptr<Field> f;
    do
    {
        f = g_plain[ctx.choose(g_plain.size())](ctx);
    } while (f->countedElementSize() == 0 && !ctx.tapeFull() && ctx.pos < 200);
    if (f->countedElementSize() == 0)
    {
        return;
    }
    f->gen(ctx);
    Bits b;
    const size_t prefix = ctx.flip(1, 2) ? 0 : ctx.choose(20);
    b.u(0, static_cast<unsigned>(prefix));
    f->encode(b);
    Bits length;
    obj::encVarsize(length, f->count());
    const uint64_t claimed = ctx.flip(1, 2) ? UINT32_C(0x7fffffff) - ctx.choose(4)
                                            : (uint64_t(1) << (1 + ctx.choose(30))) + ctx.choose(1000);
    Bits data;
    data.u(0, static_cast<unsigned>(prefix));
    obj::encVarsize(data, claimed);
    data.b.insert(data.b.end(), b.b.begin() + static_cast<ptrdiff_t>(prefix + length.size()), b.b.end());
    static const size_t L[] = {0, 1, 64, 100, 4096, 128 * 1024};
    const size_t limit = L[ctx.choose(6)];
    const bool defaultLimit = limit == 128 * 1024 && ctx.flip(1, 2);
    ctx.log("%s of %zu elements claims %llu, limit %zu", f->name.c_str(), f->count(),
            static_cast<unsigned long long>(claimed), limit);
    ctx.shape(std::hash<std::string>()(f->name));
    ctx.shape(limit * 64 + std::min<size_t>(f->count(), 8) * 8 + prefix % 8);
    SIM_COUNT("fault.element-count");
    ctx.nontrivial = true;
    ctx.step();
    Outcome o = Outcome::DONE;
    uint64_t biggest = 0;
    overBlock(data, defaultLimit ? zserio::ArrayPreallocation() : zserio::ArrayPreallocation(limit),
            [&](zserio::BitStreamReader& r) {
                r.setBitPosition(prefix);
                g_heap.maxRequest = 0;
                o = bounded(ctx, "reading", [&] {
                    f->read(r);
                });
                biggest = g_heap.maxRequest;
            });
    const uint64_t decoded = f->destinationCount();
    const uint64_t allowed = std::max<uint64_t>(
            {limit, 3 * f->countedElementSize() * (decoded + 2), 2 * (data.size() / 8 + 1) + 256});
    if (biggest > allowed)
    {
        ctx.fail("reserved-ahead", "%s: %llu bytes requested with a limit of %zu after %llu elements of %zu bytes",
                f->name.c_str(), static_cast<unsigned long long>(biggest), limit,
                static_cast<unsigned long long>(decoded), f->countedElementSize());
    }
    if (o == Outcome::DONE && claimed != decoded)
    {
        ctx.fail("count-ignored", "%s: %llu elements claimed, %llu read", f->name.c_str(),
                static_cast<unsigned long long>(claimed), static_cast<unsigned long long>(decoded));
    }
    SIM_COUNT("check.element-count");
}

void withLeakCheck(Ctx& ctx, void (*fn)(Ctx&))
{
    const uint64_t before = g_heap.liveBlocks;
    fn(ctx);
    if (g_heap.liveBlocks != before)
    {
        ctx.fail("leak", "%llu blocks are still allocated", static_cast<unsigned long long>(g_heap.liveBlocks - before));
    }
}
void objectsL(Ctx& ctx)
{
    withLeakCheck(ctx, objects);
}
void fieldsL(Ctx& ctx)
{
    withLeakCheck(ctx, fieldProgram);
}
void countL(Ctx& ctx)
{
    withLeakCheck(ctx, elementCount);
}

const std::vector<Scenario> SCENARIOS = {{"objects", 4, objectsL}, {"fields", 3, fieldsL}, {"count", 2, countL}};

} // namespace

namespace sim
{
const char* const PROPERTY = "P03";
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
void warmup()
{
    registerFields();
    g_disk.reset();
}
void beginRun()
{
    g_error.clear();
    g_error.reserve(1000);
}
} // namespace sim
