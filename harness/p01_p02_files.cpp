// P01 (built with -DPROP=1): an acknowledged file write is complete and exact.
// P02 (built with -DPROP=2): reading a file yields exactly its content or an error.
#include "simdisk.hpp"

#include <test_object/std_allocator/DebugStringObject.h>
#include <test_object/std_allocator/DebugStringParamObject.h>
#include <zserio/DebugStringUtil.h>
#include <zserio/FileUtil.h>
#include <zserio/SerializeUtil.h>

using namespace sim;
using test_object::std_allocator::DebugStringObject;
using test_object::std_allocator::DebugStringParamObject;
using Bytes8 = std::vector<uint8_t>;

namespace
{

const char* const NAMES[] = {"/sim/a", "/sim/b", "/sim/c.json", "/sim/no/dir"};

size_t chooseSize(Ctx& ctx)
{
    static const size_t edges[] = {0, 1, 2, 3, 127, 128, 1022, 1023, 1024, 1025, 4095, 4096, 8190, 8191, 8192, 8193, 16383,
            16384, 16385, 65535, 65536, 65537, 100000};
    switch (ctx.pick({4, 3, 4, 1}))
    {
    case 0:
        return ctx.choose(40);
    case 1:
        return edges[ctx.choose(sizeof(edges) / sizeof(edges[0]))];
    case 2:
        return ctx.choose(9000);
    default:
        return ctx.choose(140000);
    }
}

Bytes8 makeBytes(size_t n, uint64_t salt)
{
    Bytes8 b(n);
    uint64_t x = mix(salt);
    for (size_t i = 0; i < n; ++i)
    {
        if ((i & 7U) == 0)
        {
            x = mix(x + i);
        }
        b[i] = static_cast<uint8_t>(x >> ((i & 7U) * 8));
    }
    return b;
}

std::string makeText(Ctx& ctx, size_t n, uint64_t salt)
{
    std::string s(n, 'a');
    const bool escapes = ctx.flip(1, 3);
    uint64_t x = mix(salt);
    for (size_t i = 0; i < n; ++i)
    {
        x = mix(x + i);
        s[i] = static_cast<char>('a' + x % 26);
        if (escapes && (x >> 40) % 9 == 0)
        {
            static const char special[] = "\"\\\n\t/\x01\x1f ";
            s[i] = special[(x >> 20) % (sizeof(special) - 1)];
        }
    }
    return s;
}

// varsize-prefixed string, as the format defines it (independent encoder)
Bytes8 encodeString(const std::string& s)
{
    Bytes8 out;
    const uint32_t v = static_cast<uint32_t>(s.size());
    // varsize: 7 bits per byte, most significant first, 5th byte holds 8 bits
    if (v < (1U << 7))
    {
        out = {static_cast<uint8_t>(v)};
    }
    else if (v < (1U << 14))
    {
        out = {static_cast<uint8_t>(0x80U | (v >> 7)), static_cast<uint8_t>(v & 0x7fU)};
    }
    else
    {
        out = {static_cast<uint8_t>(0x80U | (v >> 14)), static_cast<uint8_t>(0x80U | ((v >> 7) & 0x7fU)),
                static_cast<uint8_t>(v & 0x7fU)};
    }
    out.insert(out.end(), s.begin(), s.end());
    return out;
}

std::string jsonEscape(const std::string& s)
{
    std::string r = "\"";
    for (char c : s)
    {
        switch (c)
        {
        case '"':
            r += "\\\"";
            break;
        case '\\':
            r += "\\\\";
            break;
        case '\b':
            r += "\\b";
            break;
        case '\f':
            r += "\\f";
            break;
        case '\n':
            r += "\\n";
            break;
        case '\r':
            r += "\\r";
            break;
        case '\t':
            r += "\\t";
            break;
        default:
            if (static_cast<unsigned char>(c) < 0x20)
            {
                char b[8];
                snprintf(b, sizeof(b), "\\u%04x", static_cast<unsigned>(c));
                r += b;
            }
            else
            {
                r += c;
            }
        }
    }
    return r + "\"";
}

Bytes8 encodeJson(const std::string& text, int indent)
{
    const std::string j = "{\n" + std::string(static_cast<size_t>(indent), ' ') + "\"text\": " + jsonEscape(text) + "\n}";
    return Bytes8(j.begin(), j.end());
}

Bytes8 fileContent(const std::string& name)
{
    auto it = g_disk.files.find(name);
    return it == g_disk.files.end() ? Bytes8() : it->second->data;
}
void putFile(const std::string& name, const Bytes8& b)
{
    auto& f = g_disk.files[name];
    if (!f)
    {
        f = std::make_shared<Disk::Inode>();
    }
    f->data = b;
}

std::string diff(const Bytes8& got, const Bytes8& want)
{
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i])
    {
        ++i;
    }
    char b[160];
    snprintf(b, sizeof(b), "%zu bytes instead of %zu, first difference at %zu", got.size(), want.size(), i);
    return b;
}

enum class Mode
{
    CLEAN,
    SOFT,
    HARD,
    FULL
};

Mode armFaults(Ctx& ctx, int64_t maxOps)
{
    g_disk.heal();
    const auto mode = static_cast<Mode>(ctx.pick({2, 3, 5, 2}));
    if (mode != Mode::CLEAN)
    {
        g_disk.softShort = ctx.flip(1, 2);
        g_disk.softEintr = ctx.flip(1, 3);
        g_disk.softDen = 2 + static_cast<unsigned>(ctx.choose(6));
    }
    if (mode == Mode::HARD)
    {
        g_disk.hardAt = ctx.range(0, maxOps);
        g_disk.sticky = ctx.flip(1, 2);
        g_disk.delayedAtClose = ctx.flip(1, 2);
    }
    return mode;
}

#if PROP == 1

void writeHistory(Ctx& ctx)
{
    g_disk.reset();
    uint64_t salt = 1;
    do
    {
        const char* name = NAMES[ctx.pick({6, 4, 4, 1})];
        // what was there before
        const size_t before = ctx.pick({3, 2, 2});
        if (before == 1)
        {
            putFile(name, makeBytes(chooseSize(ctx), 77 + salt));
        }
        else if (before == 2)
        {
            g_disk.files.erase(name);
        }
        const size_t kind = ctx.pick({3, 2, 3, 2, 2, 3});
        const size_t size = chooseSize(ctx);
        ++salt;
        std::string text;
        Bytes8 raw;
        Bytes8 want;
        size_t bits = 0;
        int indent = 4;
        if (kind <= 1)
        {
            raw = makeBytes(size, salt);
            bits = raw.size() * 8;
            if (kind == 1 && bits > 0)
            {
                bits -= ctx.choose(8);
            }
            want = raw;
        }
        else
        {
            text = makeText(ctx, size, salt);
            if (kind == 5)
            {
                indent = ctx.flip(1, 2) ? 2 : 4;
                want = encodeJson(text, indent);
            }
            else
            {
                want = encodeString(text);
            }
        }
        const Mode mode = armFaults(ctx, 2 + static_cast<int64_t>(want.size() / 8192));
        if (mode == Mode::FULL)
        {
            const uint64_t used = g_disk.used() - fileContent(name).size();
            g_disk.capacity = used + ctx.choose(want.size() + 2);
            if (ctx.flip(1, 3) && !want.empty())
            {
                g_disk.capacity = used + want.size() - 1; // the last byte does not fit
            }
        }
        if (mode == Mode::HARD && ctx.flip(1, 10) && g_disk.files.count(name) != 0)
        {
            g_disk.files[name]->readOnly = true;
            g_disk.hardAt = -1;
        }
        ctx.log("write kind %zu of %zu bytes to %s, mode %d hardAt %lld", kind, want.size(), name, static_cast<int>(mode),
                static_cast<long long>(g_disk.hardAt));
        SIM_COUNT("op.write");
        bool returned = false;
        std::string error;
        try
        {
            switch (kind)
            {
            case 0:
                zserio::writeBufferToFile(raw.data(), raw.size(), name);
                break;
            case 1:
            {
                zserio::BitBuffer buffer(raw, bits);
                want.assign(buffer.getBuffer(), buffer.getBuffer() + buffer.getByteSize());
                zserio::writeBufferToFile(buffer, name);
                break;
            }
            case 2:
            {
                const DebugStringObject object{zserio::String(text)};
                zserio::serializeToFile(object, name);
                break;
            }
            case 3:
            {
                const DebugStringParamObject object{zserio::String(text)};
                zserio::serializeToFile(object, name, 13);
                break;
            }
            case 4:
            {
                DebugStringObject object{zserio::String(text)};
                const zserio::DataView<DebugStringObject> view(std::move(object));
                zserio::serializeToFile(view, name);
                break;
            }
            default:
            {
                const DebugStringObject object{zserio::String(text)};
                if (indent == 4)
                {
                    zserio::toJsonFile(object, name);
                }
                else
                {
                    zserio::toJsonFile(object, name, static_cast<uint8_t>(indent));
                }
                break;
            }
            }
            returned = true;
        }
        catch (const zserio::CppRuntimeException& e)
        {
            error = e.what();
        }
        catch (const std::ios_base::failure& e)
        {
            error = "ios failure"; // the text belongs to the C++ library
        }
        const uint64_t hardFaults = g_disk.hardData;
        const bool anyHard = g_disk.anyHard();
        ctx.log("-> %s", returned ? "acknowledged" : error.c_str());
        ctx.shape(mix(kind) ^ mix(static_cast<uint64_t>(mode) * 7 + returned) ^
                mix(static_cast<uint64_t>(g_disk.ops) * 131 + hardFaults * 17 + std::min<uint64_t>(g_disk.soft, 6)) ^
                (want.size() / 1024) ^ (before << 40U));
        if (anyHard || g_disk.soft != 0)
        {
            ctx.nontrivial = true;
        }
        if (returned)
        {
            SIM_COUNT("check.acknowledged-write-compared");
            if (g_disk.files.count(name) == 0)
            {
                ctx.fail("ack-without-file", "%s does not exist after the write was acknowledged", name);
            }
            const Bytes8 got = fileContent(name);
            if (got != want)
            {
                ctx.fail("ack-wrong-content", "%s: %s", name, diff(got, want).c_str());
            }
            if (hardFaults != 0)
            {
                ctx.fail("ack-after-failure",
                        "the device reported a failure while %s was written, but the write was acknowledged", name);
            }
        }
        else
        {
            SIM_COUNT("check.reported-failure");
            if (!anyHard)
            {
                ctx.fail("failure-without-fault", "writing %zu bytes to %s failed: %s", want.size(), name, error.c_str());
            }
        }
        if (g_disk.openCount != 0)
        {
            ctx.fail("file-left-open", "%zu descriptors open after the write", g_disk.openCount);
        }
        // a retry on the healed device succeeds
        if (!returned && std::string(name) != NAMES[3] && ctx.flip(1, 2))
        {
            g_disk.heal();
            SIM_COUNT("op.retry");
            zserio::writeBufferToFile(want.data(), want.size(), name);
            if (fileContent(name) != want)
            {
                ctx.fail("ack-wrong-content", "%s after retry: %s", name, diff(fileContent(name), want).c_str());
            }
        }
    } while (ctx.more(2, 3));
    // files of other names were not touched by accident: every name is checked by its own writes
}

const std::vector<Scenario> SCENARIOS = {{"write-history", 1, writeHistory}};

#else

void readHistory(Ctx& ctx)
{
    g_disk.reset();
    uint64_t salt = 1;
    do
    {
        const char* name = NAMES[ctx.pick({6, 4, 4})];
        ++salt;
        const size_t kind = ctx.pick({4, 3, 2, 3});
        const size_t size = chooseSize(ctx);
        std::string text;
        Bytes8 content;
        if (kind == 0)
        {
            content = makeBytes(size, salt);
        }
        else
        {
            text = makeText(ctx, size, salt);
            content = kind == 3 ? encodeJson(text, 4) : encodeString(text);
        }
        const bool missing = ctx.flip(1, 25);
        if (missing)
        {
            g_disk.files.erase(name);
        }
        else
        {
            putFile(name, content);
        }
        const Mode mode = armFaults(ctx, 5 + static_cast<int64_t>(content.size() / 8192));
        Bytes8 after = content;
        if (mode == Mode::FULL)
        {
            // another process truncates the file while it is read
            g_disk.shrinkAt = ctx.range(0, 6);
            g_disk.shrinkTo = ctx.choose(content.size() + 1);
            after.resize(static_cast<size_t>(g_disk.shrinkTo));
        }
        ctx.log("read kind %zu of %zu bytes from %s, mode %d hardAt %lld%s", kind, content.size(), name,
                static_cast<int>(mode), static_cast<long long>(g_disk.hardAt), missing ? ", missing" : "");
        SIM_COUNT("op.read");
        bool returned = false;
        std::string error;
        Bytes8 got;
        std::string gotText;
        try
        {
            switch (kind)
            {
            case 0:
            {
                const zserio::BitBuffer buffer = zserio::readBufferFromFile(name);
                const auto data = buffer.getData();
                got.assign(data.begin(), data.end());
                if (buffer.getBitSize() != got.size() * 8)
                {
                    ctx.fail("read-wrong-size", "%zu bits for %zu bytes", buffer.getBitSize(), got.size());
                }
                break;
            }
            case 1:
            {
                if (ctx.flip(1, 2))
                {
                    DebugStringObject object;
                    (void)zserio::deserializeFromFile(name, object);
                    gotText = object.text;
                }
                else
                {
                    const auto view = zserio::deserializeFromFile<DebugStringObject>(name);
                    gotText = std::string(view.text());
                }
                break;
            }
            case 2:
            {
                const auto view = zserio::deserializeFromFile<DebugStringParamObject>(name, 13);
                gotText = std::string(view.text());
                break;
            }
            default:
                gotText = zserio::fromJsonFile<DebugStringObject>(name).text;
                break;
            }
            returned = true;
        }
        catch (const zserio::CppRuntimeException& e)
        {
            error = e.what();
        }
        catch (const std::ios_base::failure& e)
        {
            error = "ios failure";
        }
        catch (const std::bad_alloc& e)
        {
            error = "bad_alloc";
        }
        ctx.log("-> %s", returned ? "returned" : error.c_str());
        ctx.shape(mix(kind) ^ mix(static_cast<uint64_t>(mode) * 7 + returned) ^
                mix(static_cast<uint64_t>(g_disk.ops) * 131 + g_disk.hardRead * 17 + g_disk.hardProbe * 19 +
                        std::min<uint64_t>(g_disk.soft, 6)) ^
                (content.size() / 1024));
        if (g_disk.anyHard() || g_disk.soft != 0 || g_disk.shrunk)
        {
            ctx.nontrivial = true;
        }
        if (returned)
        {
            SIM_COUNT("check.returned-content-compared");
            if (missing)
            {
                ctx.fail("read-missing-file", "reading the missing file %s returned normally", name);
            }
            if (kind == 0)
            {
                if (got != content && !(g_disk.shrunk && got == after))
                {
                    ctx.fail("read-wrong-content", "%s: %s", name, diff(got, content).c_str());
                }
            }
            else if (gotText != text)
            {
                // a shorter string would need another length prefix or a closing brace: no truncation gives one,
                // except cutting the final newline-free tail of nothing
                ctx.fail("read-wrong-object", "%s: text of %zu characters instead of %zu", name, gotText.size(),
                        text.size());
            }
        }
        else
        {
            SIM_COUNT("check.reported-failure");
            if (!g_disk.anyHard() && !g_disk.shrunk && !missing)
            {
                ctx.fail("failure-without-fault", "reading %zu bytes from %s failed: %s", content.size(), name,
                        error.c_str());
            }
        }
        if (g_disk.openCount != 0)
        {
            ctx.fail("file-left-open", "%zu descriptors open after the read", g_disk.openCount);
        }
        if (fileContent(name) != (g_disk.shrunk ? after : missing ? Bytes8() : content))
        {
            ctx.fail("read-modified-file", "%s was modified by reading it", name);
        }
    } while (ctx.more(2, 3));
}

const std::vector<Scenario> SCENARIOS = {{"read-history", 1, readHistory}};

#endif

} // namespace

namespace sim
{
#if PROP == 1
const char* const PROPERTY = "P01";
#else
const char* const PROPERTY = "P02";
#endif
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
void warmup()
{
    g_disk.reset();
    (void)zserio::typeInfo<DebugStringObject>();
    (void)zserio::typeInfo<DebugStringParamObject>();
}
} // namespace sim
