// P04: what is stored is what is loaded, bit for bit as the format defines it.
#include "program.hpp"

namespace
{

void program(Ctx& ctx)
{
    size_t prefix = 0;
    uint64_t prefixBits = 0;
    Bits b;
    std::vector<Item> items = genProgram(ctx, prefix, prefixBits, b);
    predictSizes(ctx, items);
    Bytes8 stored = writeProgram(ctx, items, prefix, prefixBits, b);
    if (b.size() > 0 && ctx.flip(1, 4))
    {
        SIM_COUNT("op.through-file");
        const Bytes8 loaded = throughFile(ctx, stored, b.size());
        if (loaded != stored)
        {
            ctx.fail("file-changed-bits", "%s", firstDifference(loaded, stored).c_str());
        }
    }
    readProgram(ctx, items, prefix, stored, b.size());
    if (ctx.flip(1, 3))
    {
        for (auto& it : items)
        {
            it.field->rewriteFromDestination();
        }
        writeProgram(ctx, items, prefix, prefixBits, b);
    }
}

// a value the format cannot represent is refused, and nothing of it is written
void refuse(Ctx& ctx)
{
    auto f = g_plain[ctx.choose(g_plain.size())](ctx);
    f->gen(ctx);
    if (f->name.substr(0, 4) == "enum" || !f->genBad(ctx))
    {
        return;
    }
    ctx.nontrivial = true;
    SIM_COUNT("fault.value-out-of-range");
    ctx.log("%s with a value out of range", f->name.c_str());
    ctx.shape(std::hash<std::string>()(f->name));
    if (attempt([&] {
            f->validate();
        }) != Outcome::ERROR)
    {
        ctx.fail("bad-value-accepted", "%s: validation accepted a value out of range", f->name.c_str());
    }
    if (f->name.find("array") == std::string::npos)
    {
        Block block(4096);
        const Outcome o = attempt([&] {
            zserio::BitStreamWriter w(block.data.get(), block.size);
            f->write(w);
        });
        if (o == Outcome::DONE)
        {
            ctx.fail("bad-value-written", "%s: a value out of range was written", f->name.c_str());
        }
    }
    SIM_COUNT("check.refused");
}

// ---- whole objects through the public entry points ---------------------------------------------------------

template <typename F>
void retrying(Ctx& ctx, const char* what, const F& f)
{
    while (ctx.more(1, 3))
    {
        if (ctx.flip(1, 2))
        {
            g_disk.softShort = ctx.flip(1, 2);
            g_disk.softEintr = ctx.flip(1, 2);
            g_disk.hardAt = ctx.range(0, 5);
            g_disk.arm();
            const Outcome o = attempt(f);
            const bool hard = g_disk.anyHard();
            g_disk.heal();
            if (hard)
            {
                ctx.nontrivial = true;
                ctx.log("  device fault during %s", what);
                if (o == Outcome::DONE)
                {
                    ctx.fail("device-fault-hidden", "%s returned normally", what);
                }
            }
            else if (o != Outcome::DONE)
            {
                ctx.fail("failure-without-fault", "%s: %s", what, g_error.c_str());
            }
        }
        else
        {
            attemptWithoutMemory(ctx, 12, f);
        }
    }
    g_disk.heal();
    g_disk.arm();
    if (attempt(f) != Outcome::DONE)
    {
        ctx.fail("failure-without-fault", "%s: %s", what, g_error.c_str());
    }
}

template <typename T, typename... ARGS>
void objectHistory(Ctx& ctx, ARGS... args)
{
    using K = Kind<T>;
    using zserio::ArrayPreallocation;
    constexpr bool PARAM = sizeof...(ARGS) != 0;
    g_disk.reset();
    T source;
    T reused; // destination of many reads
    T swapped;
    do
    {
        const typename K::Model m = K::gen(ctx);
        const Bits b = obj::encoded(m);
        const Bytes8 want = b.bytes();
        if (ctx.flip(1, 2))
        {
            source = T();
        }
        K::fill(source, m); // over the previous content
        Bytes8 got;
        size_t gotBits = 0;
        const size_t wkind = ctx.choose(9);
        const auto keep = [&](const auto& buffer, size_t bits) {
            Untracked u;
            got.assign(buffer.begin(), buffer.end());
            gotBits = bits;
        };
        const std::allocator<uint8_t> alloc;
        ctx.log("object of %zu bits, written by way %zu", b.size(), wkind);
        SIM_COUNT("op.object");
        ctx.step();
        retrying(ctx, "serialize", [&] {
            switch (wkind)
            {
            case 0:
            {
                const auto buf = zserio::serialize(source, args...);
                keep(buf.getData(), buf.getBitSize());
                break;
            }
            case 1:
            {
                const auto buf = zserio::serialize(source, alloc, args...);
                keep(buf.getData(), buf.getBitSize());
                break;
            }
            case 2:
            {
                const auto buf = zserio::serializeToBytes(source, args...);
                keep(buf, b.size());
                break;
            }
            case 3:
            {
                const zserio::View<T> view(source, args...);
                const auto buf = zserio::serialize(view);
                keep(buf.getData(), buf.getBitSize());
                break;
            }
            case 4:
            {
                const zserio::View<T> view(source, args...);
                const auto buf = zserio::serializeToBytes(view, alloc);
                keep(buf, b.size());
                break;
            }
            case 5:
            {
                const zserio::DataView<T> view(source, args...);
                const auto buf = zserio::serialize(view, alloc);
                keep(buf.getData(), buf.getBitSize());
                break;
            }
            case 6:
            {
                const zserio::DataView<T> view(source, args...);
                const auto buf = zserio::serializeToBytes(view);
                keep(buf, b.size());
                break;
            }
            case 7:
                zserio::serializeToFile(source, FILE_NAME, args...);
                break;
            default:
            {
                const zserio::View<T> view(source, args...);
                zserio::serializeToFile(view, FILE_NAME);
                break;
            }
            }
        });
        if (wkind >= 7)
        {
            got = g_disk.files[FILE_NAME]->data;
            gotBits = b.size();
        }
        if (gotBits != b.size())
        {
            ctx.fail("object-wrong-size", "%zu bits instead of %zu", gotBits, b.size());
        }
        if (got != want)
        {
            ctx.fail("object-wrong-bits", "%s", firstDifference(got, want).c_str());
        }
        {
            const zserio::View<T> view(source, args...);
            if (zserio::detail::bitSizeOf(view, 0) != b.size())
            {
                ctx.fail("object-wrong-size", "predicted %zu bits instead of %zu", size_t(zserio::detail::bitSizeOf(view, 0)),
                        b.size());
            }
        }
        SIM_COUNT("check.object-bits-compared");
        const size_t rkind = ctx.choose(10);
        ctx.log("read by way %zu", rkind);
        ctx.shape(wkind * 16 + rkind);
        ctx.shape(std::min<size_t>(b.size() / 64, 64));
        zserio::BitBuffer buffer(zserio::Span<const uint8_t>(got.data(), got.size()), gotBits);
        const zserio::Span<const uint8_t> span(got.data(), got.size());
        if (rkind >= 8)
        {
            auto& f = g_disk.files[FILE_NAME];
            if (!f)
            {
                f = std::make_shared<Disk::Inode>();
            }
            f->data = got;
        }
        const ArrayPreallocation prealloc(ctx.flip(1, 2) ? ctx.choose(200) : 4096);
        if (ctx.flip(1, 4))
        {
            swapped = std::move(reused);
            std::swap(swapped, reused);
        }
        T copy;
        const auto fromView = [&](const zserio::DataView<T>& dv) {
            const auto again = zserio::serialize(dv);
            if (again.getBitSize() != b.size() ||
                    !std::equal(again.getData().begin(), again.getData().end(), want.begin(), want.end()))
            {
                Untracked u;
                g_ctx->fail("data-view-wrong-bits", "the view of a read object serializes to other bits");
            }
        };
        bool viewOnly = false;
        retrying(ctx, "deserialize", [&] {
            switch (rkind)
            {
            case 0:
                (void)zserio::deserialize(buffer, reused, args...);
                break;
            case 1:
                (void)zserio::deserialize(buffer, prealloc, reused, args...);
                break;
            case 2:
                (void)zserio::deserializeFromBytes(span, reused, args...);
                break;
            case 3:
                (void)zserio::deserializeFromBytes(span, prealloc, reused, args...);
                break;
            case 4:
            {
                const auto dv = zserio::deserialize<T>(buffer, args...);
                fromView(dv);
                viewOnly = true;
                break;
            }
            case 5:
            {
                const auto dv = zserio::deserializeFromBytes<T>(span, prealloc, args...);
                fromView(dv);
                viewOnly = true;
                break;
            }
            case 6:
            {
                const auto dv = zserio::deserialize<T>(buffer, prealloc, alloc, args...);
                const zserio::DataView<T> moved(dv);
                fromView(moved);
                viewOnly = true;
                break;
            }
            case 7:
            {
                const auto dv = zserio::deserializeFromBytes<T>(span, alloc, args...);
                fromView(dv);
                viewOnly = true;
                break;
            }
            case 8:
                (void)zserio::deserializeFromFile(FILE_NAME, reused, args...);
                break;
            default:
            {
                const auto dv = zserio::deserializeFromFile<T>(FILE_NAME, args...);
                fromView(dv);
                viewOnly = true;
                break;
            }
            }
        });
        if (!viewOnly)
        {
            if (!(K::of(reused) == m))
            {
                ctx.fail("object-read-different", "the object read back differs from the one written");
            }
            const auto equal = [&] {
                if constexpr (PARAM)
                {
                    return zserio::View<T>(reused, args...) == zserio::View<T>(source, args...);
                }
                else
                {
                    return reused == source;
                }
            };
            if (!equal() && obj::dropOldBranch(reused, m))
            {
                ctx.known("choice-keeps-old-branch",
                        "a choice without a branch that was read into a used object kept the branch of the previous value");
            }
            if (!equal())
            {
                ctx.fail("object-not-equal", "the object read back compares different from the one written");
            }
        }
        if (!(K::of(source) == m))
        {
            ctx.fail("source-changed", "writing changed the object");
        }
        SIM_COUNT("check.object-compared");
    } while (ctx.more(1, 2));
}

void objects(Ctx& ctx)
{
    switch (ctx.choose(5))
    {
    case 0:
        objectHistory<to::CreatorObject>(ctx);
        break;
    case 1:
        objectHistory<to::WalkerObject>(ctx);
        break;
    case 2:
        objectHistory<to::ReflectableObject>(ctx);
        break;
    case 3:
        objectHistory<to::WalkerUnion>(ctx);
        break;
    default:
        objectHistory<to::CreatorNested>(ctx, zserio::UInt32(13));
        break;
    }
}

const std::vector<Scenario> SCENARIOS = {{"fields", 6, program}, {"refuse", 1, refuse}, {"objects", 2, objects}};

} // namespace

namespace sim
{
const char* const PROPERTY = "P04";
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
void warmup()
{
    registerFields();
    g_disk.reset();
}
void beginRun()
{
    g_error.clear();
    g_error.reserve(1000);
}
} // namespace sim
