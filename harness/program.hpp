// Field programs and object kinds shared by the checks of P03 and P04 (one translation unit each).
#pragma once

#include "fields.hpp"
#include "objects.hpp"
#include "simdisk.hpp"

#include <test_object/std_allocator/CreatorNested.h>
#include <test_object/std_allocator/CreatorObject.h>
#include <test_object/std_allocator/ReflectableObject.h>
#include <test_object/std_allocator/WalkerObject.h>
#include <zserio/FileUtil.h>
#include <zserio/SerializeUtil.h>

namespace fields
{
void register1();
void register2();
void register3();
void register4();
void register5();
void register6();
void register7();
} // namespace fields

using namespace sim;
using fields::Field;
using model::Bits;
using Bytes8 = std::vector<uint8_t>;
namespace to = test_object::std_allocator;

namespace
{

const char* const FILE_NAME = "/sim/object";

enum class Outcome
{
    DONE,
    NO_MEMORY,
    CAPACITY,
    ERROR
};

std::string g_error;

template <typename F>
Outcome attempt(const F& f)
{
    try
    {
        Tracked t;
        f();
        return Outcome::DONE;
    }
    catch (const zserio::BitStreamWriter::InsufficientCapacityException& e)
    {
        g_error = e.what();
        return Outcome::CAPACITY;
    }
    catch (const zserio::CppRuntimeException& e)
    {
        g_error = e.what();
        return Outcome::ERROR;
    }
    catch (const std::bad_alloc&)
    {
        return Outcome::NO_MEMORY;
    }
}

// runs f with one or more failing allocations at a random place
template <typename F>
Outcome attemptWithoutMemory(Ctx& ctx, uint64_t maxAt, const F& f)
{
    const uint64_t at = ctx.choose(maxAt);
    const uint64_t len = ctx.flip(1, 3) ? UINT64_MAX : 1;
    g_heap.plan.set(at, len);
    const Outcome o = attempt(f);
    if (g_heap.plan.fired != 0)
    {
        SIM_COUNT("fault.allocation");
        ctx.nontrivial = true;
    }
    const bool fired = g_heap.plan.fired != 0;
    g_heap.plan.clear();
    ctx.log("  allocation %llu fails%s -> %s", static_cast<unsigned long long>(at), len == 1 ? "" : " and all later",
            !fired ? "not reached" : o == Outcome::NO_MEMORY ? "out of memory" : "other");
    if (fired && o == Outcome::DONE)
    {
        return o; // e.g. a failed reservation that was not needed after all is still a success if the result is right
    }
    if (fired && o != Outcome::NO_MEMORY)
    {
        ctx.fail("wrong-error-without-memory", "out of memory was reported as another error: %s", g_error.c_str());
    }
    return o;
}

struct Item
{
    std::unique_ptr<Field> field;
    size_t align = 0; // before the field
    size_t begin = 0;
    size_t end = 0;
};

Bytes8 bytesOf(const Bits& b)
{
    return b.bytes();
}

// exact-size heap block, so that the address sanitizer sees any overrun
struct Block
{
    explicit Block(size_t n) :
            size(n),
            data(new uint8_t[n == 0 ? 1 : n]())
    {}
    size_t size;
    std::unique_ptr<uint8_t[]> data;
};

std::string firstDifference(const Bytes8& got, const Bytes8& want)
{
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i])
    {
        ++i;
    }
    return "byte " + std::to_string(i) + " of " + std::to_string(want.size()) + " (got " +
            model::hex(Bytes8(got.begin() + static_cast<ptrdiff_t>(std::min(i, got.size())), got.end()), 8) + ", want " +
            model::hex(Bytes8(want.begin() + static_cast<ptrdiff_t>(std::min(i, want.size())), want.end()), 8) + ")";
}

const char* fieldAt(const std::vector<Item>& items, size_t bit)
{
    for (const auto& it : items)
    {
        if (bit < it.end)
        {
            return it.field->name.c_str();
        }
    }
    return "none";
}

void writeAll(zserio::BitStreamWriter& w, size_t prefix, uint64_t prefixBits, const std::vector<Item>& items)
{
    for (size_t left = prefix; left > 0;)
    {
        const uint8_t n = static_cast<uint8_t>(std::min<size_t>(left, 64));
        w.writeUnsignedBits64(n == 64 ? prefixBits : prefixBits & ((uint64_t(1) << n) - 1), n);
        left -= n;
    }
    for (const auto& it : items)
    {
        if (it.align != 0)
        {
            w.alignTo(it.align);
        }
        it.field->write(w);
    }
}

void readAll(zserio::BitStreamReader& r, size_t prefix, const std::vector<Item>& items)
{
    r.setBitPosition(prefix);
    for (const auto& it : items)
    {
        if (it.align != 0)
        {
            r.alignTo(it.align);
        }
        it.field->read(r);
        if (r.getBitPosition() != it.end && !it.field->implicit)
        {
            Untracked u;
            g_ctx->fail("read-wrong-length", "%s: reading ended at bit %zu instead of %zu", it.field->name.c_str(),
                    r.getBitPosition(), it.end);
        }
    }
}

// carries bytes through the simulated file
Bytes8 throughFile(Ctx& ctx, const Bytes8& bytes, size_t bits)
{
    g_disk.reset();
    for (int tries = 0;; ++tries)
    {
        const bool faulty = tries < 3 && ctx.flip(1, 2);
        if (faulty)
        {
            g_disk.softShort = ctx.flip(1, 2);
            g_disk.softEintr = ctx.flip(1, 2);
            g_disk.hardAt = ctx.range(-1, 6);
            g_disk.arm();
        }
        else
        {
            g_disk.heal();
            g_disk.arm();
        }
        try
        {
            zserio::BitBuffer buffer(zserio::Span<const uint8_t>(bytes.data(), bytes.size()), bits);
            zserio::writeBufferToFile(buffer, FILE_NAME);
            zserio::BitBuffer read = zserio::readBufferFromFile(FILE_NAME);
            const auto d = read.getData();
            return Bytes8(d.begin(), d.end());
        }
        catch (const zserio::CppRuntimeException&)
        {
            if (g_disk.hardAt < 0 || !faulty)
            {
                ctx.fail("failure-without-fault", "writing and reading a file failed without a device fault");
            }
            ctx.nontrivial = true;
        }
    }
}

std::vector<fields::Factory> g_plain;
std::vector<fields::Factory> g_implicit;

std::vector<Item> genProgram(Ctx& ctx, size_t& prefix, uint64_t& prefixBits, Bits& b)
{
    prefix = ctx.flip(1, 3) ? 0 : ctx.choose(66);
    prefixBits = ctx.choose(0);
    for (size_t left = prefix; left > 0;)
    {
        const unsigned n = static_cast<unsigned>(std::min<size_t>(left, 64));
        b.u(prefixBits, n);
        left -= n;
    }
    std::vector<Item> items;
    const size_t n = 1 + ctx.choose(6);
    const bool implicit = ctx.flip(1, 5);
    for (size_t i = 0; i < n; ++i)
    {
        Item it;
        const bool imp = implicit && i + 1 == n;
        auto& from = imp ? g_implicit : g_plain;
        it.field = from[ctx.choose(from.size())](ctx);
        it.field->gen(ctx);
        if (ctx.flip(1, 6))
        {
            static const size_t A[] = {1, 2, 3, 7, 8, 16, 24, 32, 64, 100, 128, 512, 2048};
            it.align = A[ctx.choose(13)];
        }
        items.push_back(std::move(it));
    }
    for (auto& it : items)
    {
        b.align(it.align);
        it.begin = b.size();
        it.field->encode(b);
        it.end = b.size();
        ctx.log("field %s at bit %zu (%zu elements, %zu bits)%s", it.field->name.c_str(), it.begin, it.field->count(),
                it.end - it.begin, it.align != 0 ? ", aligned" : "");
        ctx.shape(std::hash<std::string>()(it.field->name));
        ctx.shape(it.begin % 64 * 2048 + std::min<size_t>(it.field->count(), 8) * 16 + it.align % 16);
        ctx.step();
        count(("op." + it.field->name).substr(0, 50).c_str());
    }
    return items;
}

void predictSizes(Ctx& ctx, std::vector<Item>& items)
{
    for (auto& it : items)
    {
        size_t size = 0;
        size_t sizeOffsets = 0;
        if (attempt([&] {
                sizeOffsets = it.field->initOffsets(it.begin);
                size = it.field->bitSizeOf(it.begin);
                it.field->validate();
            }) != Outcome::DONE)
        {
            ctx.fail("valid-value-rejected", "%s: %s", it.field->name.c_str(), g_error.c_str());
        }
        if (size != it.end - it.begin)
        {
            ctx.fail("wrong-size", "%s with %zu elements at bit %zu takes %zu bits, predicted %zu",
                    it.field->name.c_str(), it.field->count(), it.begin, it.end - it.begin, size);
        }
        if (sizeOffsets != it.end - it.begin)
        {
            ctx.fail("wrong-size-with-offsets", "%s at bit %zu takes %zu bits, offset initialisation predicted %zu",
                    it.field->name.c_str(), it.begin, it.end - it.begin, sizeOffsets);
        }
        const std::string p = it.field->offsetsProblem(it.begin);
        if (!p.empty())
        {
            ctx.fail("wrong-offset", "%s at bit %zu: %s", it.field->name.c_str(), it.begin, p.c_str());
        }
    }
}

Bytes8 writeProgram(Ctx& ctx, const std::vector<Item>& items, size_t prefix, uint64_t prefixBits, const Bits& b)
{
    const Bytes8 want = bytesOf(b);
    // a measuring writer
    if (ctx.flip(1, 4))
    {
        size_t end = 0;
        attempt([&] {
            zserio::BitStreamWriter w(nullptr, 0);
            writeAll(w, prefix, prefixBits, items);
            end = w.getBitPosition();
        });
        if (end != b.size())
        {
            ctx.fail("measured-wrong-size", "measured %zu bits instead of %zu", end, b.size());
        }
    }
    // attempts without enough room
    while (b.size() > 1 && ctx.more(1, 3))
    {
        const size_t cap = ctx.flip(1, 3) ? b.size() - 1 : 1 + ctx.choose(b.size() - 1);
        Block block((cap + 7) / 8);
        const Outcome o = attempt([&] {
            zserio::BitStreamWriter w(block.data.get(), cap, zserio::BitsTag());
            writeAll(w, prefix, prefixBits, items);
        });
        SIM_COUNT("fault.capacity-exhausted");
        ctx.nontrivial = true;
        ctx.log("write with room for %zu of %zu bits", cap, b.size());
        if (o != Outcome::CAPACITY)
        {
            ctx.fail("short-buffer-not-reported", "writing %zu bits into %zu bits: %s", b.size(), cap,
                    o == Outcome::DONE ? "returned normally" : g_error.c_str());
        }
        for (size_t i = 0; i < cap / 8; ++i)
        {
            // whatever was written so far is a prefix of the right bits or untouched
            if (block.data[i] != 0 && block.data[i] != want[i])
            {
                const uint8_t x = block.data[i];
                if ((x & want[i]) != x)
                {
                    ctx.fail("wrong-bits-before-failure", "byte %zu is %02x instead of %02x (%s)", i, x, want[i],
                            fieldAt(items, i * 8));
                }
            }
        }
    }
    const size_t kind = ctx.choose(4);
    Outcome o = Outcome::DONE;
    Bytes8 got;
    size_t end = 0;
    if (kind == 0)
    {
        zserio::BitBuffer buffer(b.size());
        o = attempt([&] {
            zserio::BitStreamWriter w(buffer);
            writeAll(w, prefix, prefixBits, items);
            end = w.getBitPosition();
        });
        const auto d = buffer.getData();
        got.assign(d.begin(), d.end());
    }
    else
    {
        const size_t slack = kind == 3 ? ctx.choose(100) : 0;
        Block block((b.size() + 7) / 8 + slack);
        o = attempt([&] {
            zserio::Span<uint8_t> span(block.data.get(), block.size);
            if (kind == 1)
            {
                zserio::BitStreamWriter w(block.data.get(), b.size(), zserio::BitsTag());
                writeAll(w, prefix, prefixBits, items);
                end = w.getBitPosition();
            }
            else if (kind == 2)
            {
                zserio::BitStreamWriter w(span, b.size());
                writeAll(w, prefix, prefixBits, items);
                end = w.getBitPosition();
            }
            else
            {
                zserio::BitStreamWriter w(span);
                writeAll(w, prefix, prefixBits, items);
                end = w.getBitPosition();
            }
        });
        got.assign(block.data.get(), block.data.get() + want.size());
    }
    if (b.size() == 0)
    {
        return want; // a writer over nothing is a measuring writer
    }
    if (o != Outcome::DONE)
    {
        ctx.fail("write-failed", "writing %zu bits into a buffer of that size: %s", b.size(), g_error.c_str());
    }
    if (end != b.size())
    {
        ctx.fail("wrote-wrong-length", "writing ended at bit %zu instead of %zu", end, b.size());
    }
    if (got != want)
    {
        size_t i = 0;
        while (i < want.size() && got[i] == want[i])
        {
            ++i;
        }
        ctx.fail("wrong-bits", "field %s: %s", fieldAt(items, i * 8 + 7), firstDifference(got, want).c_str());
    }
    SIM_COUNT("check.bits-compared");
    return got;
}

void readProgram(Ctx& ctx, const std::vector<Item>& items, size_t prefix, const Bytes8& stored, size_t bits)
{
    const bool lastImplicit = items.back().field->implicit;
    for (const auto& it : items)
    {
        if (ctx.flip(1, 2))
        {
            it.field->scribble();
        }
    }
    const auto with = [&](size_t n, const auto& f) {
        Block block((n + 7) / 8);
        if (!stored.empty())
        {
            memcpy(block.data.get(), stored.data(), std::min(stored.size(), block.size));
        }
        if (n % 8 != 0 && block.size > 0) // nothing beyond the last bit
        {
            block.data[block.size - 1] = static_cast<uint8_t>(block.data[block.size - 1] & (0xffU << (8 - n % 8)));
        }
        const zserio::ArrayPreallocation prealloc(
                ctx.flip(1, 3) ? ctx.choose(64) : ctx.flip(1, 2) ? 4096 : 1U << 20);
        const size_t kind = n % 8 == 0 ? ctx.choose(4) : ctx.choose(3);
        if (kind == 0)
        {
            zserio::BitStreamReader r(block.data.get(), n, zserio::BitsTag(), prealloc);
            f(r);
        }
        else if (kind == 1)
        {
            zserio::BitStreamReader r(zserio::Span<const uint8_t>(block.data.get(), block.size), n, prealloc);
            f(r);
        }
        else if (kind == 2)
        {
            zserio::BitBuffer buffer(zserio::Span<const uint8_t>(block.data.get(), block.size), n);
            zserio::BitStreamReader r(buffer, prealloc);
            f(r);
        }
        else
        {
            zserio::BitStreamReader r(block.data.get(), block.size, prealloc);
            f(r);
        }
    };
    // attempts on a part of the data
    while (bits > prefix && ctx.more(1, 3))
    {
        const size_t n = ctx.flip(1, 3) ? bits - 1 : prefix + ctx.choose(bits - prefix);
        ctx.log("read from the first %zu of %zu bits", n, bits);
        Outcome o = Outcome::DONE;
        with(n, [&](zserio::BitStreamReader& r) {
            o = attempt([&] {
                // positions are not those of the full data any more when elements are missing: read without checks
                r.setBitPosition(prefix);
                for (const auto& it : items)
                {
                    if (it.align != 0)
                    {
                        r.alignTo(it.align);
                    }
                    it.field->read(r);
                }
            });
        });
        SIM_COUNT("fault.truncated-input");
        ctx.nontrivial = true;
        if (o == Outcome::DONE && !(lastImplicit && n >= items.back().begin))
        {
            ctx.fail("truncation-not-reported", "reading %zu bits from the first %zu of them returned normally", bits,
                    n);
        }
        if (o == Outcome::NO_MEMORY || o == Outcome::CAPACITY)
        {
            ctx.fail("wrong-error", "truncated data reported as another kind of error");
        }
    }
    // attempts that run out of memory, and the final one
    with(bits, [&](zserio::BitStreamReader& r) {
        while (ctx.more(1, 3))
        {
            attemptWithoutMemory(ctx, 6, [&] {
                readAll(r, prefix, items);
            });
        }
        if (attempt([&] {
                readAll(r, prefix, items);
            }) != Outcome::DONE)
        {
            ctx.fail("read-failed", "reading back what was written failed: %s", g_error.c_str());
        }
        if (r.getBitPosition() != bits)
        {
            ctx.fail("read-wrong-length", "reading ended at bit %zu instead of %zu", r.getBitPosition(), bits);
        }
    });
    for (const auto& it : items)
    {
        if (it.field->destinationCount() != it.field->count())
        {
            ctx.fail("read-wrong-count", "%s: %zu elements instead of %zu", it.field->name.c_str(),
                    it.field->destinationCount(), it.field->count());
        }
        if (!it.field->same())
        {
            ctx.fail("read-wrong-value", "%s with %zu elements at bit %zu reads back different", it.field->name.c_str(),
                    it.field->count(), it.begin);
        }
    }
    SIM_COUNT("check.values-compared");
}

template <typename T>
struct Kind;

#define OBJECT_KIND(T, M, GEN, FILL, OF) \
    template <> \
    struct Kind<T> \
    { \
        using Model = M; \
        static M gen(Ctx& ctx) \
        { \
            obj::GenOptions o; \
            return GEN(ctx, o); \
        } \
        static void fill(T& t, const M& m) \
        { \
            FILL(t, m, std::allocator<uint8_t>()); \
        } \
        static M of(const T& t) \
        { \
            return OF(t); \
        } \
    };
OBJECT_KIND(to::CreatorObject, obj::Creator, obj::genCreator, obj::fillCreator, obj::creatorOf)
OBJECT_KIND(to::WalkerObject, obj::Walker, obj::genWalker, obj::fillWalker, obj::walkerOf)
OBJECT_KIND(to::ReflectableObject, obj::Reflectable, obj::genReflectable, obj::fillReflectable, obj::reflectableOf)
OBJECT_KIND(to::WalkerUnion, obj::Union, obj::genUnion, obj::fillUnion, obj::unionOf)
OBJECT_KIND(to::CreatorNested, obj::Nested, obj::genNested, obj::fillNested, obj::nestedOf)

void registerFields()
{
    fields::register1();
    fields::register2();
    fields::register3();
    fields::register4();
    fields::register5();
    fields::register6();
    fields::register7();
    g_plain = fields::registry().plain;
    g_implicit = fields::registry().implicit;
}

} // namespace
