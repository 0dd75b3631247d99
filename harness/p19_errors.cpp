// P19: errors are reported faithfully even when no memory is left.
#include "program.hpp"
#include "subjects.hpp"

#include <test_object/std_allocator/DebugStringObject.h>
#include <test_object/std_allocator/DebugStringParamObject.h>
#include <test_object/std_allocator/ReflectableUtilObject.h>
#include <test_object/std_allocator/ReflectableUtilUnion.h>
#include <zserio/Any.h>
#include <zserio/ArrayLengthException.h>
#include <zserio/BitFieldUtil.h>
#include <zserio/BitPositionUtil.h>
#include <zserio/ChoiceCaseException.h>
#include <zserio/ConstraintException.h>
#include <zserio/DebugStringUtil.h>
#include <zserio/ExtendedFieldException.h>
#include <zserio/JsonReader.h>
#include <zserio/JsonTokenizer.h>
#include <zserio/MissedOptionalException.h>
#include <zserio/Optional.h>
#include <zserio/OutOfRangeException.h>
#include <zserio/PubsubException.h>
#include <zserio/ReflectableUtil.h>
#include <zserio/ServiceException.h>
#include <zserio/SizeConvertUtil.h>
#include <zserio/TypeInfo.h>
#include <zserio/UnexpectedOptionalException.h>
#include <zserio/UnionCaseException.h>
#include <zserio/Variant.h>
#include <zserio/ZserioTreeCreator.h>

#include <cmath>
#include <cstring>
#include <cxxabi.h>
#include <sstream>
#include <typeinfo>

namespace sim
{
const char* const PROPERTY = "P19";
}

// ---- what happens between the making of an error and its throwing ------------------------------------------------
// Calls of the constructor and of the language runtime are redirected by the linker (--wrap). When the constructor is
// not called from other object files under this name, nothing is measured this way, and nothing is reported.
namespace
{
bool g_reporting = false;
uint64_t g_reportingFrom = 0;
uint64_t g_reportAllocs = 0; // allocations made while an error was reported
uint64_t g_reports = 0;

void reportBegins()
{
    if (g_heap.tracking && !g_reporting)
    {
        g_reporting = true;
        g_reportingFrom = g_heap.allocs;
    }
}
void reportEnds()
{
    if (g_heap.tracking && g_reporting)
    {
        g_reportAllocs += g_heap.allocs - g_reportingFrom;
        ++g_reports;
    }
    g_reporting = false;
}
} // namespace

extern "C"
{
    void __real__ZN6zserio19CppRuntimeExceptionC1EPKc(void* self, const char* m) __attribute__((weak));
    void __real__ZN6zserio19CppRuntimeExceptionC2EPKc(void* self, const char* m) __attribute__((weak));
    void __wrap__ZN6zserio19CppRuntimeExceptionC1EPKc(void* self, const char* m)
    {
        reportBegins();
        __real__ZN6zserio19CppRuntimeExceptionC1EPKc(self, m);
    }
    void __wrap__ZN6zserio19CppRuntimeExceptionC2EPKc(void* self, const char* m)
    {
        reportBegins();
        __real__ZN6zserio19CppRuntimeExceptionC2EPKc(self, m);
    }
    // called before the arguments of the thrown expression are evaluated
    void* __real___cxa_allocate_exception(size_t n) noexcept;
    void* __wrap___cxa_allocate_exception(size_t n) noexcept
    {
        reportBegins();
        return __real___cxa_allocate_exception(n);
    }
    [[noreturn]] void __real___cxa_throw(void*, std::type_info*, void (*)(void*));
    [[noreturn]] void __wrap___cxa_throw(void* e, std::type_info* t, void (*d)(void*))
    {
        reportEnds();
        __real___cxa_throw(e, t, d);
    }
}

namespace
{

std::string shown(std::string s)
{
    for (auto& c : s)
    {
        c = c < ' ' || c > '~' ? '?' : c;
    }
    return s.size() <= 70 ? s : s.substr(0, 40) + "..(" + std::to_string(s.size()) + " chars).." + s.substr(s.size() - 20);
}

// ---- scenario: messages ------------------------------------------------------------------------------------------
constexpr size_t MAX_MESSAGE = 511;

struct Text // the reference
{
    std::string s;
    void add(const std::string& part)
    {
        s += part;
        if (s.size() > MAX_MESSAGE)
        {
            s.resize(MAX_MESSAGE);
        }
    }
    std::string seen() const // as C text
    {
        return std::string(s.c_str());
    }
};

// memory of exactly the text's size, without a terminator
struct Exact
{
    explicit Exact(const std::string& t, bool terminated) :
            size(t.size()),
            data(new char[t.size() + (terminated ? 1 : 0) + (t.empty() && !terminated ? 1 : 0)])
    {
        std::memcpy(data.get(), t.data(), t.size());
        if (terminated)
        {
            data[t.size()] = 0;
        }
    }
    size_t size;
    std::unique_ptr<char[]> data;
};

std::string genText(Ctx& ctx, size_t used)
{
    size_t n = 0;
    switch (ctx.pick({6, 2, 3, 1}))
    {
    case 0:
        n = ctx.choose(24);
        break;
    case 1:
        n = ctx.choose(200);
        break;
    case 2: // up to the end, or nearly so
        n = static_cast<size_t>(std::max<int64_t>(0, static_cast<int64_t>(MAX_MESSAGE - used) + ctx.range(-3, 3)));
        break;
    default:
        n = ctx.choose(1500);
        break;
    }
    std::string t;
    uint64_t v = ctx.choose(0);
    for (size_t i = 0; i < n; ++i)
    {
        v = sim::mix(v + 1);
        t.push_back(static_cast<char>('!' + v % 90));
    }
    if (n != 0 && ctx.flip(1, 10))
    {
        t[ctx.choose(n)] = static_cast<char>(0x80 + ctx.choose(128));
    }
    return t;
}

// memory is exhausted while this lives
struct NoMemory
{
    NoMemory()
    {
        before = g_heap.allocs;
        g_heap.plan.set(0, UINT64_MAX);
        g_heap.tracking = true;
    }
    ~NoMemory()
    {
        g_heap.tracking = false;
        g_heap.plan.clear();
    }
    uint64_t before;
};

template <class F>
void withoutMemory(Ctx& ctx, const char* what, const F& f)
{
    const uint64_t before = g_heap.allocs;
    bool refused = false;
    try
    {
        NoMemory none;
        f();
    }
    catch (const std::bad_alloc&)
    {
        refused = true;
    }
    SIM_COUNT("fault.allocation");
    if (refused || g_heap.allocs != before)
    {
        ctx.fail("report-allocates", "%s asks for memory", what);
    }
}

// a number printed by the code under test stands for the number that was given to it
void checkReal(Ctx& ctx, double v, const std::string& t)
{
    std::string low;
    for (const char c : t)
    {
        low.push_back(static_cast<char>(std::tolower(static_cast<unsigned char>(c))));
    }
    bool ok = true;
    if (std::isnan(v))
    {
        ok = low.find("nan") != std::string::npos;
    }
    else if (low.find("inf") != std::string::npos)
    {
        // too big for an integer part counts as infinite
        ok = std::fabs(v) >= 9.2e18 && (low[0] == '-') == (v < 0);
    }
    else
    {
        char* end = nullptr;
        const double got = std::strtod(t.c_str(), &end);
        ok = !t.empty() && *end == 0 && std::fabs(got - v) <= 0.00101 + std::fabs(v) * 2e-7;
    }
    if (!ok)
    {
        ctx.fail("wrong-number", "%.9g is shown as '%s'", v, t.c_str());
    }
}

double genReal(Ctx& ctx)
{
    double v = 0;
    switch (ctx.pick({3, 2, 2, 2, 1, 1}))
    {
    case 0: // small fractions
        v = static_cast<double>(ctx.range(-200000, 200000)) / 1000.0;
        break;
    case 1:
        v = static_cast<double>(ctx.range(-1100, 1100)) / 1000.0;
        break;
    case 2:
        v = static_cast<double>(static_cast<int64_t>(ctx.choose(0))) / static_cast<double>(1ULL << ctx.choose(63));
        break;
    case 3:
        v = static_cast<double>(ctx.range(-5, 5));
        break;
    case 4:
    {
        static const double SPECIAL[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 9223372036854775807.0,
                -9223372036854775808.0, 9.3e18, -9.3e18, 1e300, -1e300, 1e-30, -1e-30, 0.0009, 0.9999, 0.99999999,
                16777216.0, 16777215.5, 0.001, 0.0999, 0.1};
        v = SPECIAL[ctx.choose(sizeof(SPECIAL) / sizeof(SPECIAL[0]))];
        break;
    }
    default:
    {
        const uint32_t bits = static_cast<uint32_t>(ctx.choose(0));
        float f = 0;
        std::memcpy(&f, &bits, 4);
        v = static_cast<double>(f);
        break;
    }
    }
    return v;
}

// one part, appended to a real message (as an lvalue or with the operator chained on an rvalue) and to the reference
template <class E>
void appendPart(Ctx& ctx, E& e, Text& t)
{
    switch (ctx.pick({3, 3, 2, 2, 2, 2, 3, 1, 2, 1, 1, 1, 1}))
    {
    case 0:
    {
        const Exact x(genText(ctx, t.s.size()), true);
        const bool op = ctx.flip(1, 2);
        withoutMemory(ctx, "appending a text", [&] {
            if (op)
            {
                e << static_cast<const char*>(x.data.get());
            }
            else
            {
                e.append(x.data.get());
            }
        });
        t.add(std::string(x.data.get()));
        SIM_COUNT("op.text");
        break;
    }
    case 1:
    {
        const Exact x(genText(ctx, t.s.size()), false);
        withoutMemory(ctx, "appending a text of known length", [&] { e.append(x.data.get(), x.size); });
        t.add(std::string(x.data.get(), x.size));
        SIM_COUNT("op.text-with-length");
        break;
    }
    case 2:
    {
        const Exact x(genText(ctx, t.s.size()), false);
        withoutMemory(ctx, "appending a string view", [&] { e << std::string_view(x.data.get(), x.size); });
        t.add(std::string(x.data.get(), x.size));
        SIM_COUNT("op.string-view");
        break;
    }
    case 3:
    {
        const std::string x = genText(ctx, t.s.size());
        const std::pmr::string y(x.c_str(), x.size());
        const bool pmr = ctx.flip(1, 3);
        withoutMemory(ctx, "appending a string", [&] {
            if (pmr)
            {
                e << y;
            }
            else
            {
                e << x;
            }
        });
        t.add(x);
        SIM_COUNT("op.string");
        break;
    }
    case 4:
    {
        int64_t v = static_cast<int64_t>(ctx.choose(0)) >> ctx.choose(64);
        if (ctx.flip(1, 4)) // a power of two or next to it
        {
            static const unsigned char EXPONENTS[] = {7, 8, 15, 16, 31, 32, 63, 63, 63, 0};
            const unsigned e = EXPONENTS[ctx.choose(10)];
            v = static_cast<int64_t>((uint64_t(1) << e) + ctx.choose(3) - 1) * (ctx.flip(1, 2) && e < 60 ? -1 : 1);
        }
        const size_t kind = ctx.pick({1, 1, 1, 3, 1, 1, 1, 2});
        std::string s;
        withoutMemory(ctx, "appending a number", [&] {
            switch (kind)
            {
            case 0:
                e << static_cast<int8_t>(v);
                break;
            case 1:
                e << static_cast<int16_t>(v);
                break;
            case 2:
                e << static_cast<int32_t>(v);
                break;
            case 3:
                e << v;
                break;
            case 4:
                e << static_cast<uint8_t>(v);
                break;
            case 5:
                e << static_cast<uint16_t>(v);
                break;
            case 6:
                e << static_cast<uint32_t>(v);
                break;
            default:
                e << static_cast<uint64_t>(v);
                break;
            }
        });
        s = kind == 0 ? std::to_string(static_cast<int8_t>(v))
                : kind == 1 ? std::to_string(static_cast<int16_t>(v))
                : kind == 2 ? std::to_string(static_cast<int32_t>(v))
                : kind == 3 ? std::to_string(v)
                : kind == 4 ? std::to_string(static_cast<uint8_t>(v))
                : kind == 5 ? std::to_string(static_cast<uint16_t>(v))
                : kind == 6 ? std::to_string(static_cast<uint32_t>(v))
                            : std::to_string(static_cast<uint64_t>(v));
        t.add(s);
        SIM_COUNT("op.integer");
        break;
    }
    case 5:
    {
        const bool v = ctx.flip(1, 2);
        withoutMemory(ctx, "appending a bool", [&] { e << v; });
        t.add(v ? "true" : "false");
        SIM_COUNT("op.bool");
        break;
    }
    case 6:
    {
        const double v = genReal(ctx);
        const bool single = ctx.flip(1, 2);
        const float f = static_cast<float>(v);
        zserio::CppRuntimeException alone("");
        withoutMemory(ctx, "appending a floating point number", [&] {
            if (single)
            {
                alone << f;
                e << f;
            }
            else
            {
                alone << v;
                e << v;
            }
        });
        checkReal(ctx, single ? static_cast<double>(f) : v, alone.what());
        t.add(alone.what());
        SIM_COUNT("op.real");
        break;
    }
    case 7:
    {
        const std::vector<uint16_t> v(ctx.choose(2000));
        withoutMemory(ctx, "appending an array", [&] { e << v; });
        t.add("vector([...], ");
        t.add(std::to_string(v.size()));
        t.add(")");
        SIM_COUNT("op.vector");
        break;
    }
    case 8:
    {
        const uint64_t raw = ctx.choose(0);
        withoutMemory(ctx, "appending wrapped numbers", [&] {
            e << zserio::UInt64(raw) << zserio::Int16(static_cast<int16_t>(raw)) << zserio::Bool((raw & 1U) != 0)
              << zserio::Int7(static_cast<int8_t>(raw % 64));
        });
        t.add(std::to_string(raw));
        t.add(std::to_string(static_cast<int16_t>(raw)));
        t.add((raw & 1U) != 0 ? "true" : "false");
        t.add(std::to_string(raw % 64));
        SIM_COUNT("op.wrapped-number");
        break;
    }
    case 9:
    {
        const bool one = ctx.flip(1, 2);
        withoutMemory(ctx, "appending an enumeration", [&] { e << (one ? to::CreatorEnum::ONE : to::CreatorEnum::MinusOne); });
        t.add(one ? "ONE" : "MinusOne");
        SIM_COUNT("op.enum");
        break;
    }
    case 10:
    {
        const uint8_t v = static_cast<uint8_t>(ctx.choose(256));
        withoutMemory(ctx, "appending a bit mask", [&] { e << to::CreatorBitmask(v); });
        t.add(std::to_string(v));
        SIM_COUNT("op.bitmask");
        break;
    }
    case 11:
    {
        const zserio::BitBuffer b(ctx.choose(3000));
        withoutMemory(ctx, "appending a bit buffer", [&] { e << b; });
        t.add("BitBuffer([...], ");
        t.add(std::to_string(b.getBitSize()));
        t.add(")");
        SIM_COUNT("op.bit-buffer");
        break;
    }
    default: // nothing at all
        withoutMemory(ctx, "appending nothing", [&] { e << "" << std::string_view() << std::string(); });
        SIM_COUNT("op.nothing");
        break;
    }
}

template <class E>
void same(Ctx& ctx, const E& e, const Text& t, const char* when)
{
    const std::string want = t.seen();
    std::string got;
    withoutMemory(ctx, "looking at the message", [&] {
        const char* w = e.what();
        Untracked u;
        got = std::string(w, strnlen(w, 2000));
    });
    ctx.log("  '%s'", shown(got).c_str());
    if (got != want)
    {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i])
        {
            ++i;
        }
        ctx.fail("wrong-message", "%s: %zu characters '%s' instead of %zu '%s' (from character %zu)", when, got.size(),
                shown(got).c_str(), want.size(), shown(want).c_str(), i);
    }
}

template <class E>
void messagesOf(Ctx& ctx, const char* name)
{
    ctx.log("messages of %s", name);
    ctx.shape(std::hash<std::string>()(name));
    constexpr size_t N = 4;
    std::unique_ptr<E> real[N];
    Text text[N];
    std::exception_ptr thrown[N];
    Text thrownText[N];
    // what a moved-from message says is left open, but it stays usable once assigned to
    for (size_t left = 2 + ctx.choose(24); left > 0 && ctx.more(30, 31); --left)
    {
        ctx.step();
        const size_t i = ctx.choose(N);
        const size_t j = ctx.choose(N);
        const size_t op = ctx.pick({4, 12, 3, 2, 2, 2, 4, 3, 2, 1, 2});
        ctx.shape(op);
        switch (op)
        {
        case 0: // made
        {
            const Exact x(genText(ctx, 0), true);
            void* place = ::operator new(sizeof(E));
            const bool empty = ctx.flip(1, 8);
            real[i].reset();
            withoutMemory(ctx, "making an error", [&] { empty ? new (place) E() : new (place) E(x.data.get()); });
            real[i].reset(static_cast<E*>(place));
            text[i].s.clear();
            text[i].add(empty ? std::string() : std::string(x.data.get()));
            ctx.log("%zu made%s", i, empty ? " without text" : "");
            same(ctx, *real[i], text[i], "made");
            break;
        }
        case 1: // a part
            if (real[i])
            {
                ctx.log("%zu takes a part", i);
                appendPart(ctx, *real[i], text[i]);
                same(ctx, *real[i], text[i], "part appended");
            }
            break;
        case 2: // copy
            if (real[i] && i != j)
            {
                ctx.log("%zu copied to %zu", i, j);
                if (real[j] && ctx.flip(1, 2))
                {
                    withoutMemory(ctx, "copying an error", [&] { *real[j] = *real[i]; });
                }
                else
                {
                    void* place = ::operator new(sizeof(E));
                    real[j].reset();
                    withoutMemory(ctx, "copying an error", [&] { new (place) E(static_cast<const E&>(*real[i])); });
                    real[j].reset(static_cast<E*>(place));
                }
                text[j] = text[i];
                same(ctx, *real[j], text[j], "copy");
                same(ctx, *real[i], text[i], "original");
                SIM_COUNT("op.copy");
            }
            break;
        case 3: // move
            if (real[i] && i != j)
            {
                ctx.log("%zu moved to %zu", i, j);
                if (real[j] && ctx.flip(1, 2))
                {
                    withoutMemory(ctx, "moving an error", [&] { *real[j] = std::move(*real[i]); });
                }
                else
                {
                    void* place = ::operator new(sizeof(E));
                    real[j].reset();
                    withoutMemory(ctx, "moving an error", [&] { new (place) E(std::move(*real[i])); });
                    real[j].reset(static_cast<E*>(place));
                }
                text[j] = text[i];
                same(ctx, *real[j], text[j], "moved");
                (void)strnlen(real[i]->what(), MAX_MESSAGE + 1);
                real[i].reset();
                same(ctx, *real[j], text[j], "moved, original gone");
                SIM_COUNT("op.move");
            }
            break;
        case 4: // to itself
            if (real[i])
            {
                E& self = *real[i];
                withoutMemory(ctx, "assigning an error to itself", [&] { self = static_cast<const E&>(*real[i]); });
                same(ctx, *real[i], text[i], "assigned to itself");
            }
            break;
        case 5: // gone
            real[i].reset();
            ctx.log("%zu gone", i);
            break;
        case 6: // thrown: the error caught is the error thrown, and one kept is intact when the original is gone
            if (real[i])
            {
                ctx.log("%zu thrown, kept as %zu", i, j);
                const bool grow = ctx.flip(1, 3);
                bool caught = false;
                try
                {
                    withoutMemory(ctx, "throwing an error", [&] {
                        if (grow)
                        {
                            throw E(*real[i]) << "+" << 12 << std::string_view("*");
                        }
                        throw *real[i];
                    });
                }
                catch (zserio::CppRuntimeException& general)
                {
                    caught = true;
                    if (typeid(general) != typeid(E))
                    {
                        ctx.fail("other-type", "%s was thrown, %s is caught", name, typeid(general).name());
                    }
                    E& e = static_cast<E&>(general);
                    g_heap.tracking = false;
                    g_heap.plan.clear();
                    Text want = text[i];
                    if (grow)
                    {
                        want.add("+12*");
                    }
                    same(ctx, e, want, "caught");
                    if (ctx.flip(1, 3))
                    {
                        appendPart(ctx, e, want);
                        same(ctx, e, want, "extended when caught");
                    }
                    withoutMemory(ctx, "keeping an error", [&] { thrown[j] = std::current_exception(); });
                    thrownText[j] = want;
                    SIM_COUNT("op.throw");
                }
                if (!caught)
                {
                    ctx.fail("not-thrown", "%s was thrown but not caught", name);
                }
                same(ctx, *real[i], text[i], "original of the one thrown");
            }
            break;
        case 7: // thrown again
            if (thrown[i])
            {
                ctx.log("kept error %zu thrown again", i);
                bool caught = false;
                try
                {
                    withoutMemory(ctx, "throwing a kept error again", [&] {
                        try
                        {
                            std::rethrow_exception(thrown[i]);
                        }
                        catch (...)
                        {
                            throw;
                        }
                    });
                }
                catch (const zserio::CppRuntimeException& e)
                {
                    caught = true;
                    if (typeid(e) != typeid(E))
                    {
                        ctx.fail("other-type", "%s was kept, %s is caught", name, typeid(e).name());
                    }
                    same(ctx, e, thrownText[i], "caught again");
                    same(ctx, static_cast<const std::exception&>(e), thrownText[i], "caught again, as a standard one");
                    SIM_COUNT("op.rethrow");
                }
                if (!caught)
                {
                    ctx.fail("not-thrown", "a kept error was thrown again but not caught");
                }
            }
            break;
        case 8: // a copy of the general type
            if (real[i])
            {
                ctx.log("%zu as a general error", i);
                std::unique_ptr<zserio::CppRuntimeException> general;
                void* place = ::operator new(sizeof(zserio::CppRuntimeException));
                withoutMemory(ctx, "copying an error", [&] { new (place) zserio::CppRuntimeException(*real[i]); });
                general.reset(static_cast<zserio::CppRuntimeException*>(place));
                real[i].reset();
                Text t = text[i];
                appendPart(ctx, *general, t);
                same(ctx, *general, t, "general copy");
                SIM_COUNT("op.general-copy");
            }
            break;
        case 9:
            thrown[i] = nullptr;
            break;
        default: // a chain on a new one
        {
            ctx.log("%zu from a chain", i);
            const std::string a = genText(ctx, 0);
            const std::string b = genText(ctx, a.size());
            const uint64_t n = ctx.choose(0);
            void* place = ::operator new(sizeof(E));
            real[i].reset();
            withoutMemory(ctx, "making an error with a chain", [&] {
                new (place) E(E(a.c_str()) << n << ", " << b << ';' << true << "." << std::string_view("end"));
            });
            real[i].reset(static_cast<E*>(place));
            text[i].s.clear();
            text[i].add(a);
            text[i].add(std::to_string(n));
            text[i].add(", ");
            text[i].add(b);
            text[i].add(std::to_string(static_cast<int>(';')));
            text[i].add("true");
            text[i].add(".");
            text[i].add("end");
            same(ctx, *real[i], text[i], "chain");
            SIM_COUNT("op.chain");
            break;
        }
        }
    }
    for (size_t i = 0; i < N; ++i)
    {
        if (real[i])
        {
            same(ctx, *real[i], text[i], "in the end");
        }
        if (text[i].s.size() == MAX_MESSAGE)
        {
            SIM_COUNT("op.cut-off");
        }
    }
    ctx.nontrivial = true;
}

void messages(Ctx& ctx)
{
    switch (ctx.choose(16))
    {
    case 0:
        return messagesOf<zserio::ArrayLengthException>(ctx, "ArrayLengthException");
    case 1:
        return messagesOf<zserio::ChoiceCaseException>(ctx, "ChoiceCaseException");
    case 2:
        return messagesOf<zserio::ConstraintException>(ctx, "ConstraintException");
    case 3:
        return messagesOf<zserio::ExtendedFieldException>(ctx, "ExtendedFieldException");
    case 4:
        return messagesOf<zserio::MissedOptionalException>(ctx, "MissedOptionalException");
    case 5:
        return messagesOf<zserio::OutOfRangeException>(ctx, "OutOfRangeException");
    case 6:
        return messagesOf<zserio::PubsubException>(ctx, "PubsubException");
    case 7:
        return messagesOf<zserio::ServiceException>(ctx, "ServiceException");
    case 8:
        return messagesOf<zserio::UnexpectedOptionalException>(ctx, "UnexpectedOptionalException");
    case 9:
        return messagesOf<zserio::UnionCaseException>(ctx, "UnionCaseException");
    case 10:
        return messagesOf<zserio::ValidationException>(ctx, "ValidationException");
    case 11:
        return messagesOf<zserio::JsonParserException>(ctx, "JsonParserException");
    case 12:
        return messagesOf<zserio::BitStreamWriter::InsufficientCapacityException>(ctx, "InsufficientCapacityException");
    case 13:
        return messagesOf<zserio::BadOptionalAccess>(ctx, "BadOptionalAccess");
    case 14:
        return messagesOf<zserio::BadVariantAccess>(ctx, "BadVariantAccess");
    default:
        return messagesOf<zserio::CppRuntimeException>(ctx, "CppRuntimeException");
    }
}

// ---- scenario: sites ---------------------------------------------------------------------------------------------
// A site is something that ends in an error. It is run with memory, then with memory exhausted from any allocation on.
struct Site
{
    std::string name;
    bool noMemory; // nothing on the way to the error needs memory
    std::function<void()> fn;
};

struct Result
{
    enum Kind
    {
        NONE,
        ERROR,
        NO_MEMORY,
        FOREIGN
    } kind = NONE;
    std::string type;
    std::string what;
    bool operator==(const Result& o) const
    {
        return kind == o.kind && type == o.type && what == o.what;
    }
    std::string text() const
    {
        return kind == NONE ? "no error" : kind == NO_MEMORY ? "out of memory" : type + ": " + what;
    }
};

std::string typeName(const std::exception& e)
{
    int status = 0;
    char* p = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status);
    std::string s = p != nullptr ? p : typeid(e).name();
    std::free(p);
    return s;
}

Result run(const std::function<void()>& fn)
{
    Result r;
    g_reporting = false;
    try
    {
        Tracked t;
        fn();
    }
    catch (const zserio::CppRuntimeException& e)
    {
        r.kind = Result::ERROR;
        r.type = typeName(e);
        r.what = e.what();
    }
    catch (const std::bad_alloc&)
    {
        r.kind = Result::NO_MEMORY;
    }
    catch (const std::exception& e)
    {
        r.kind = Result::FOREIGN;
        r.type = typeName(e);
        r.what = e.what();
    }
    g_reporting = false;
    return r;
}

using Sites = std::vector<Site>;

volatile uint64_t g_used;
template <class T>
void use(const T& v)
{
    g_used = static_cast<uint64_t>(reinterpret_cast<uintptr_t>(&v));
}

template <class F>
void add(Sites& sites, std::string name, bool noMemory, F fn)
{
    sites.push_back({std::move(name), noMemory, std::function<void()>(std::move(fn))});
}

void streamSites(Ctx& ctx, Sites& s)
{
    using namespace zserio;
    const size_t size = ctx.choose(20);
    const size_t bits = size * 8 - (size != 0 ? ctx.choose(8) : 0);
    auto bytes = std::make_shared<std::vector<uint8_t>>(size);
    const bool ones = ctx.flip(1, 3);
    for (auto& b : *bytes)
    {
        b = ones ? 0xFF : static_cast<uint8_t>(ctx.choose(256));
    }
    const size_t start = ctx.choose(bits + 1);
    const uint8_t n = static_cast<uint8_t>(ctx.choose(256));
    const uint64_t number = ctx.choose(0) >> ctx.choose(64);
    auto reader = [&](const char* what, auto op) {
        // numbers need no memory
        using Read = decltype(op(std::declval<BitStreamReader&>()));
        add(s, std::string("read ") + what, sizeof(Read) <= 8, [=] {
            BitStreamReader r(Span<const uint8_t>(bytes->data(), bytes->size()), bits);
            r.setBitPosition(start);
            for (size_t i = 0; i < 200; ++i)
            {
                use(op(r));
            }
        });
    };
    reader("32 bits", [n](BitStreamReader& r) { return r.readUnsignedBits32(n); });
    reader("64 bits", [n](BitStreamReader& r) { return r.readUnsignedBits64(n); });
    reader("signed 32 bits", [n](BitStreamReader& r) { return r.readSignedBits32(n); });
    reader("signed 64 bits", [n](BitStreamReader& r) { return r.readSignedBits64(n); });
    reader("a bool", [](BitStreamReader& r) { return r.readBool(); });
    reader("varint16", [](BitStreamReader& r) { return r.readVarInt16(); });
    reader("varint", [](BitStreamReader& r) { return r.readVarInt(); });
    reader("varuint", [](BitStreamReader& r) { return r.readVarUInt(); });
    reader("varsize", [](BitStreamReader& r) { return r.readVarSize(); });
    reader("float16", [](BitStreamReader& r) { return r.readFloat16(); });
    reader("float64", [](BitStreamReader& r) { return r.readFloat64(); });
    reader("bytes", [](BitStreamReader& r) { return r.readBytes(); });
    reader("string", [](BitStreamReader& r) { return r.readString(); });
    reader("bit buffer", [](BitStreamReader& r) { return r.readBitBuffer(); });
    add(s, "seek too far", true, [=] {
        BitStreamReader r(Span<const uint8_t>(bytes->data(), bytes->size()), bits);
        r.setBitPosition(bits + 1 + n);
    });
    add(s, "align beyond the end", true, [=] {
        BitStreamReader r(Span<const uint8_t>(bytes->data(), bytes->size()), bits);
        r.setBitPosition(start);
        r.alignTo(1000 + n);
    });
    add(s, "reader with a false size", true, [=] {
        BitStreamReader r(Span<const uint8_t>(bytes->data(), bytes->size()), bytes->size() * 8 + 1 + n);
    });
    auto writer = [&](const char* what, auto op) {
        add(s, std::string("write ") + what, true, [=] {
            uint8_t room[20] = {};
            BitStreamWriter w(room, bits, BitsTag());
            w.setBitPosition(start);
            for (size_t i = 0; i < 200; ++i)
            {
                op(w);
            }
        });
    };
    writer("32 bits", [=](BitStreamWriter& w) { w.writeUnsignedBits32(static_cast<uint32_t>(number), n); });
    writer("64 bits", [=](BitStreamWriter& w) { w.writeUnsignedBits64(number, n); });
    writer("signed 32 bits", [=](BitStreamWriter& w) { w.writeSignedBits32(static_cast<int32_t>(number), n); });
    writer("signed 64 bits", [=](BitStreamWriter& w) { w.writeSignedBits64(static_cast<int64_t>(number), n); });
    writer("a bool", [](BitStreamWriter& w) { w.writeBool(true); });
    writer("varint16", [=](BitStreamWriter& w) { w.writeVarInt16(static_cast<int16_t>(number)); });
    writer("varint32", [=](BitStreamWriter& w) { w.writeVarInt32(static_cast<int32_t>(number)); });
    writer("varint64", [=](BitStreamWriter& w) { w.writeVarInt64(static_cast<int64_t>(number)); });
    writer("varuint16", [=](BitStreamWriter& w) { w.writeVarUInt16(static_cast<uint16_t>(number)); });
    writer("varuint32", [=](BitStreamWriter& w) { w.writeVarUInt32(static_cast<uint32_t>(number)); });
    writer("varuint64", [=](BitStreamWriter& w) { w.writeVarUInt64(number); });
    writer("varuint", [=](BitStreamWriter& w) { w.writeVarUInt(number); });
    writer("varsize", [=](BitStreamWriter& w) { w.writeVarSize(static_cast<uint32_t>(number)); });
    writer("float32", [](BitStreamWriter& w) { w.writeFloat32(1.0F); });
    writer("a string", [](BitStreamWriter& w) { w.writeString("some text"); });
    writer("bytes", [=](BitStreamWriter& w) { w.writeBytes(*bytes); });
    writer("nothing, far away", [=](BitStreamWriter& w) { w.setBitPosition(bits + 1 + n); });
    writer("alignment", [=](BitStreamWriter& w) { w.alignTo(1000 + n); });
    add(s, "bit buffer with a false size", false, [=] {
        use(zserio::BitBuffer(Span<const uint8_t>(bytes->data(), bytes->size()), bytes->size() * 8 + 1 + n));
    });
    add(s, "bit buffer with a false size, taken over", false, [=] {
        use(zserio::BitBuffer(std::vector<uint8_t>(*bytes), bytes->size() * 8 + 1 + n));
    });
}

struct Big
{
    std::array<uint64_t, 40> a{};
};

void valueSites(Ctx& ctx, Sites& s)
{
    using namespace zserio;
    const uint64_t number = ctx.choose(0) >> ctx.choose(64);
    add(s, "bit field bounds", true, [=] { use(getBitFieldLowerBound(65 + static_cast<size_t>(number % 1000), true)); });
    add(s, "bit field upper bounds", true, [=] { use(getBitFieldUpperBound(65 + static_cast<size_t>(number % 1000), false)); });
    add(s, "bit field bounds of nothing", true, [=] { use(getBitFieldUpperBound(0, number % 2 != 0)); });
    add(s, "size too big", true, [=] { use(convertSizeToUInt32(static_cast<size_t>(number) | (1ULL << 40))); });
    add(s, "checked value out of range", true, [=] { use(fromCheckedValue<VarSize>(uint32_t(0x80000000U | number))); });
    add(s, "checked small value out of range", true, [=] { use(fromCheckedValue<UInt7>(uint8_t(128 | number))); });
    add(s, "checked signed value out of range", true, [=] { use(fromCheckedValue<Int9>(int16_t(256 + number % 1000))); });
    add(s, "checked variable value out of range", true, [=] { use(fromCheckedValue<VarInt64>(int64_t(number | (1ULL << 62)))); });
    add(s, "size of a variable value out of range", true, [=] {
        use(zserio::detail::bitSizeOf(VarUInt16(static_cast<uint16_t>(0x8000U | number))));
    });
    add(s, "not an enum value", true, [=] { use(valueToEnum<to::CreatorEnum>(static_cast<int8_t>(50 + number % 50))); });
    add(s, "not an enum item", true, [=] { use(stringToEnum<to::CreatorEnum>(number % 2 != 0 ? "missing" : "")); });
    add(s, "ordinal of no enum item", true, [=] { use(enumToOrdinal(static_cast<to::CreatorEnum>(50 + number % 50))); });
    add(s, "text of no enum item", true, [=] { use(enumToString(static_cast<to::CreatorEnum>(50 + number % 50))); });
    add(s, "not a mask value", true, [=] { use(to::WalkerBitmask(static_cast<uint32_t>(number))); });
    auto any = std::make_shared<zserio::Any>(zserio::String("a text which is longer than what is kept in place"));
    auto bigAny = std::make_shared<zserio::Any>(Big());
    auto noAny = std::make_shared<zserio::Any>();
    add(s, "any of an other type", true, [=] { use(any->get<uint32_t>()); });
    add(s, "constant any of an other type", true, [=] { use(static_cast<const zserio::Any&>(*bigAny).get<bool>()); });
    add(s, "any without a value", true, [=] { use(noAny->get<uint32_t>()); });
    using Var = zserio::Variant<size_t, zserio::String, uint32_t, Big>;
    auto variant = std::make_shared<Var>(in_place_index<size_t(1)>, 5U);
    add(s, "variant alternative", true, [=] { use(variant->get<size_t(2)>()); });
    add(s, "constant variant alternative", true, [=] { use(static_cast<const Var&>(*variant).get<size_t(0)>()); });
    add(s, "variant alternative by function", true, [=] { use(zserio::get<size_t(2)>(*variant)); });
    auto opt = std::make_shared<zserio::Optional<uint32_t>>();
    auto bigOpt = std::make_shared<zserio::Optional<Big>>();
    add(s, "optional without a value", true, [=] { use(opt->value()); });
    add(s, "constant optional without a value", true, [=] { use(static_cast<const zserio::Optional<uint32_t>&>(*opt).value()); });
    add(s, "value of an empty optional", true, [=] { use(**opt); });
    add(s, "big optional without a value", true, [=] { use(bigOpt->value()); });
    add(s, "member of an empty optional", true, [=] { use((*bigOpt)->a); });
    add(s, "missing file", false, [=] { use(readBufferFromFile("/sim/none")); });
    add(s, "write into a missing directory", false, [=] {
        const zserio::BitBuffer b(12);
        writeBufferToFile(b, "/sim/none/such/file");
    });
}

template <class F>
void infoSite(Sites& s, const std::string& type, const char* what, const zserio::ITypeInfo& t, F f)
{
    const zserio::ITypeInfo* p = &t;
    add(s, std::string(what) + " of " + type, true, [=] { f(*p); });
}
void infoSites(Sites& s, const std::string& n, const zserio::ITypeInfo& t)
{
    using T = zserio::ITypeInfo;
    infoSite(s, n, "bit size", t, [](const T& i) { use(i.getBitSize()); });
    infoSite(s, n, "fields", t, [](const T& i) { use(i.getFields()); });
    infoSite(s, n, "parameters", t, [](const T& i) { use(i.getParameters()); });
    infoSite(s, n, "functions", t, [](const T& i) { use(i.getFunctions()); });
    infoSite(s, n, "selector", t, [](const T& i) { use(i.getSelector()); });
    infoSite(s, n, "cases", t, [](const T& i) { use(i.getCases()); });
    infoSite(s, n, "underlying type", t, [](const T& i) { use(i.getUnderlyingType()); });
    infoSite(s, n, "enum items", t, [](const T& i) { use(i.getEnumItems()); });
    infoSite(s, n, "mask values", t, [](const T& i) { use(i.getBitmaskValues()); });
    infoSite(s, n, "columns", t, [](const T& i) { use(i.getColumns()); });
    infoSite(s, n, "constraint", t, [](const T& i) { use(i.getSqlConstraint()); });
    infoSite(s, n, "virtual table", t, [](const T& i) { use(i.getVirtualTableUsing()); });
    infoSite(s, n, "row id", t, [](const T& i) { use(i.isWithoutRowId()); });
    infoSite(s, n, "tables", t, [](const T& i) { use(i.getTables()); });
    infoSite(s, n, "template name", t, [](const T& i) { use(i.getTemplateName()); });
    infoSite(s, n, "template arguments", t, [](const T& i) { use(i.getTemplateArguments()); });
    infoSite(s, n, "messages", t, [](const T& i) { use(i.getMessages()); });
    infoSite(s, n, "methods", t, [](const T& i) { use(i.getMethods()); });
    const T* p = &t;
    if (!zserio::TypeInfoUtil::isCompound(t.getSchemaType()))
    {
        add(s, "instance of " + n, true, [=] { use(p->createInstance()); });
    }
}

zserio::Any genAny(Ctx& ctx)
{
    switch (ctx.choose(9))
    {
    case 0:
        return zserio::Any();
    case 1:
        return zserio::Any(zserio::String("a text which is longer than what is kept in place"));
    case 2:
        return zserio::Any(static_cast<uint8_t>(ctx.choose(256)));
    case 3:
        return zserio::Any(static_cast<uint64_t>(ctx.choose(0)));
    case 4:
        return zserio::Any(true);
    case 5:
        return zserio::Any(1.5);
    case 6:
        return zserio::Any(zserio::BitBuffer(17));
    case 7:
        return zserio::Any(static_cast<int8_t>(ctx.range(-128, 127)));
    default:
        return zserio::Any(Big());
    }
}

template <class P>
void reflectionSites(Ctx& ctx, Sites& s, const std::string& n, const P& p, const std::shared_ptr<void>& owner)
{
    const auto o = owner; // the object stays as long as its sites
    auto c = [&](const char* what, bool noMemory, auto f) {
        add(s, std::string(what) + " of " + n, noMemory, [=] {
            use(o);
            f(p);
        });
    };
    c("bool", true, [](const P& r) { use(r->getBool()); });
    c("int8", true, [](const P& r) { use(r->getInt8()); });
    c("int16", true, [](const P& r) { use(r->getInt16()); });
    c("int32", true, [](const P& r) { use(r->getInt32()); });
    c("int64", true, [](const P& r) { use(r->getInt64()); });
    c("uint8", true, [](const P& r) { use(r->getUInt8()); });
    c("uint16", true, [](const P& r) { use(r->getUInt16()); });
    c("uint32", true, [](const P& r) { use(r->getUInt32()); });
    c("uint64", true, [](const P& r) { use(r->getUInt64()); });
    c("float", true, [](const P& r) { use(r->getFloat()); });
    c("double", true, [](const P& r) { use(r->getDouble()); });
    c("bytes", true, [](const P& r) { use(r->getBytes()); });
    c("string", true, [](const P& r) { use(r->getStringView()); });
    c("bit buffer", true, [](const P& r) { use(r->getBitBuffer()); });
    c("conversion to int", false, [](const P& r) { use(r->toInt()); });
    c("conversion to unsigned", false, [](const P& r) { use(r->toUInt()); });
    c("conversion to double", false, [](const P& r) { use(r->toDouble()); });
    c("conversion to string", false, [](const P& r) { use(r->toString()); });
    c("missing field", false, [](const P& r) { use(r->getField("missing_field")); });
    c("choice", true, [](const P& r) { use(r->getChoice()); });
    c("size", true, [](const P& r) { use(r->size()); });
    const size_t far = ctx.choose(3) * ctx.choose(1000);
    c("element", false, [=](const P& r) { use(r->at((r->isArray() ? r->size() : 0) + far)); });
    c("any", false, [](const P& r) { use(r->getAnyValue()); });
    static const char* const PATHS[] = {"missing", "a.b.c", "", ".", "nested..value", "nested.value.x", "[0]", "x[1].y"};
    const std::string path = PATHS[ctx.choose(8)];
    c("search", false, [=](const P& r) { use(r->find(path)); });
    if constexpr (std::is_same_v<P, zserio::IReflectableDataPtr>)
    {
        auto any = std::make_shared<zserio::Any>(genAny(ctx));
        std::string name = "missing_field";
        const zserio::ITypeInfo& t = p->getTypeInfo();
        if (!p->isArray() && zserio::TypeInfoUtil::isCompound(t.getSchemaType()) && ctx.flip(4, 5))
        {
            const auto fields = t.getFields();
            if (fields.size() != 0)
            {
                name = std::string(fields[ctx.choose(fields.size())].schemaName);
            }
        }
        c("set a field", false, [=](const P& r) { r->setField(name, *any); });
        c("make a missing field", false, [](const P& r) { use(r->createField("missing_field")); });
        c("set an element", false, [=](const P& r) { r->setAt(*any, far); });
        c("append an element", false, [=](const P& r) { r->append(*any); });
        if (!p->isArray())
        {
            c("resize", true, [=](const P& r) { r->resize(far % 10); });
        }
    }
    else if constexpr (!std::is_same_v<P, zserio::IReflectableDataConstPtr>)
    {
        c("missing parameter", false, [](const P& r) {
            if constexpr (std::is_same_v<P, zserio::IIntrospectableViewConstPtr>)
            {
                use(r->getParameter("missing_parameter"));
            }
        });
    }
}

// a random node below a reflection
template <class P>
P descend(Ctx& ctx, P p)
{
    for (size_t depth = ctx.choose(4); depth > 0; --depth)
    {
        P next;
        if (p->isArray())
        {
            if (p->size() == 0)
            {
                break;
            }
            next = p->at(ctx.choose(p->size()));
        }
        else if (zserio::TypeInfoUtil::isCompound(p->getTypeInfo().getSchemaType()))
        {
            const zserio::ITypeInfo& t = p->getTypeInfo();
            const auto fields = t.getFields();
            if (fields.size() == 0)
            {
                break;
            }
            std::string_view name = fields[ctx.choose(fields.size())].schemaName;
            if (zserio::TypeInfoUtil::hasChoice(t.getSchemaType()))
            {
                name = p->getChoice();
                if (name.empty())
                {
                    break;
                }
            }
            next = p->getField(name);
        }
        if (!next)
        {
            break;
        }
        p = next;
    }
    return p;
}

struct IgnoreAll : zserio::IWalkObserver
{
    void beginRoot(const zserio::IReflectableDataConstPtr&) override
    {}
    void endRoot(const zserio::IReflectableDataConstPtr&) override
    {}
    void beginArray(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo&) override
    {}
    void endArray(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo&) override
    {}
    void beginCompound(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo&, size_t) override
    {}
    void endCompound(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo&, size_t) override
    {}
    void visitValue(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo&, size_t) override
    {}
};

void objectSites(Ctx& ctx, Sites& s)
{
    std::shared_ptr<subject::Subject> subj(subjects::genSubject(ctx).release());
    const tree::Gen g = subjects::genOptions(ctx);
    subj->set(tree::genNode(ctx, subj->type(), g));
    const std::string n = subj->name();
    switch (ctx.pick({2, 3, 2, 2}))
    {
    case 0:
        reflectionSites(ctx, s, "constant " + n, descend(ctx, subj->constant()), subj);
        break;
    case 1:
        reflectionSites(ctx, s, n, descend(ctx, subj->mutableOne()), subj);
        break;
    case 2:
    {
        const zserio::ITypeInfo* t = &subj->info();
        for (size_t d = ctx.choose(4); d > 0 && zserio::TypeInfoUtil::isCompound(t->getSchemaType()); --d)
        {
            const auto fields = t->getFields();
            if (fields.size() == 0)
            {
                break;
            }
            t = &fields[ctx.choose(fields.size())].typeInfo;
        }
        infoSites(s, std::string(t->getSchemaName()), *t);
        break;
    }
    default:
    {
        const auto any = descend(ctx, subj->constant());
        add(s, "walk something of " + n, false, [=] {
            use(subj);
            IgnoreAll o;
            zserio::DefaultWalkFilter f;
            zserio::Walker(o, f).walk(any);
        });
        add(s, "walk nothing", false, [=] {
            IgnoreAll o;
            zserio::DefaultWalkFilter f;
            zserio::Walker(o, f).walk(zserio::IReflectableDataConstPtr());
        });
        break;
    }
    }
}

template <class T>
void introspectionSites(Ctx& ctx, Sites& s, const char* n)
{
    auto object = std::make_shared<T>();
    const auto model = Kind<T>::gen(ctx);
    Kind<T>::fill(*object, model);
    auto view = std::make_shared<zserio::View<T>>(*object);
    std::shared_ptr<std::pair<std::shared_ptr<T>, std::shared_ptr<zserio::View<T>>>> owner =
            std::make_shared<std::pair<std::shared_ptr<T>, std::shared_ptr<zserio::View<T>>>>(object, view);
    zserio::IIntrospectableViewConstPtr root = zserio::introspectable(*view);
    if (ctx.flip(1, 2))
    {
        reflectionSites(ctx, s, std::string("view of ") + n, root, owner);
        add(s, std::string("missing function of ") + n, false, [=] {
            use(owner);
            use(root->callFunction("missing_function"));
        });
    }
    else
    {
        const decltype(root->getField("")) data = root;
        reflectionSites(ctx, s, std::string("part of a view of ") + n, descend(ctx, data), owner);
    }
}

template <class T>
void codecSites(Ctx& ctx, Sites& s, const char* n)
{
    // an empty object; and damaged bytes
    add(s, std::string("serialize an empty ") + n, false, [=] { use(zserio::serialize(T())); });
    auto object = std::make_shared<T>();
    Kind<T>::fill(*object, Kind<T>::gen(ctx));
    const auto buffer = zserio::serialize(*object);
    auto bytes = std::make_shared<std::vector<uint8_t>>(buffer.getData().begin(), buffer.getData().end());
    size_t bits = buffer.getBitSize();
    switch (ctx.choose(3))
    {
    case 0:
        bits = ctx.choose(bits + 1);
        bytes->resize((bits + 7) / 8);
        break;
    case 1:
        if (!bytes->empty())
        {
            (*bytes)[ctx.choose(bytes->size())] ^= static_cast<uint8_t>(1 + ctx.choose(255));
        }
        break;
    default:
        if (!bytes->empty())
        {
            const size_t at = ctx.choose(bytes->size());
            for (size_t i = at; i < std::min(bytes->size(), at + 4); ++i)
            {
                (*bytes)[i] = 0xFF;
            }
        }
        break;
    }
    add(s, std::string("deserialize damaged ") + n, false, [=] {
        const zserio::BitBuffer b(zserio::Span<const uint8_t>(bytes->data(), bytes->size()), bits);
        T d;
        use(zserio::deserialize(b, d));
    });
    const size_t room = ctx.choose(std::max<size_t>(buffer.getBitSize(), 1));
    add(s, std::string("write without room ") + n, false, [=] {
        std::vector<uint8_t> place((room + 7) / 8 + 1);
        zserio::BitStreamWriter w(place.data(), room, zserio::BitsTag());
        const zserio::View<T> v(*object);
        zserio::detail::write(w, v);
    });
    // text
    std::string text = zserio::toJsonString(*object);
    static const char* const BITS[] = {"}", "]", "\"", ",", ":", "{", "[", "x", "99999999999999999999", "-", "null", "\\",
            "\"missing\": 1,", "1.5.5", "true", "\n"};
    for (size_t k = 1 + ctx.choose(2); k > 0; --k)
    {
        const size_t at = ctx.choose(text.size());
        text.replace(at, ctx.choose(4), BITS[ctx.choose(16)]);
    }
    add(s, std::string("parse damaged ") + n, false, [=] { use(zserio::fromJsonString<T>(text)); });
}

void builderSites(Ctx& ctx, Sites& s)
{
    std::shared_ptr<subject::Subject> subj(subjects::genSubject(ctx).release());
    // field names and values are drawn by the site itself from numbers fixed here
    std::vector<uint64_t> script(2 + ctx.choose(10));
    for (auto& v : script)
    {
        v = ctx.choose(0);
    }
    const bool rooted = ctx.flip(4, 5);
    add(s, std::string("build ") + subj->name(), false, [=] {
        zserio::ZserioTreeCreator creator(subj->info());
        const zserio::ITypeInfo& t = subj->info();
        if (rooted)
        {
            creator.beginRoot();
        }
        const auto fields = t.getFields();
        for (const uint64_t v : script)
        {
            zserio::String name(v % 16 == 0 ? std::string_view("missing_field") : fields[(v >> 8) % fields.size()].schemaName);
            switch ((v >> 32) % 14)
            {
            case 0:
                creator.beginRoot();
                break;
            case 1:
                creator.endRoot();
                break;
            case 2:
                creator.beginArray(name);
                break;
            case 3:
                creator.endArray();
                break;
            case 4:
                creator.beginCompound(name);
                break;
            case 5:
                creator.endCompound();
                break;
            case 6:
                creator.beginCompoundElement();
                break;
            case 7:
                creator.endCompoundElement();
                break;
            case 8:
                creator.setValue(name, static_cast<uint32_t>(v >> 40));
                break;
            case 9:
                creator.setValue(name, "some text which is too long to be held in place");
                break;
            case 10:
                creator.addValueElement(static_cast<int64_t>(v));
                break;
            case 11:
                creator.setValue(name, 1.5);
                break;
            case 12:
                use(creator.getFieldType(name));
                break;
            default:
                use(creator.getElementType());
                break;
            }
        }
    });
}

void fieldSites(Ctx& ctx, Sites& s)
{
    const auto& factory = g_plain[ctx.choose(g_plain.size())];
    std::shared_ptr<Field> f(factory(ctx).release());
    f->gen(ctx);
    const size_t size = f->initOffsets(0);
    auto bits = std::make_shared<zserio::BitBuffer>(size);
    {
        zserio::BitStreamWriter w(*bits);
        f->write(w);
    }
    if (size != 0)
    {
        const size_t part = ctx.choose(size);
        add(s, "read a part of " + f->name, false, [=] {
            {
                Untracked u;
                f->scribble();
            }
            zserio::BitStreamReader r(bits->getData(), part);
            f->read(r);
        });
        add(s, "write without room " + f->name, false, [=] {
            std::vector<uint8_t> room((part + 7) / 8 + 1);
            zserio::BitStreamWriter w(room.data(), part, zserio::BitsTag());
            f->write(w);
        });
    }
    std::shared_ptr<Field> bad(factory(ctx).release());
    bad->gen(ctx);
    if (bad->genBad(ctx))
    {
        add(s, "validate " + bad->name, false, [=] { bad->validate(); });
        add(s, "write a bad value of " + bad->name, false, [=] {
            zserio::BitBuffer b(10000);
            zserio::BitStreamWriter w(b);
            bad->write(w);
        });
        add(s, "size of a bad value of " + bad->name, false, [=] { use(bad->bitSizeOf(0)); });
    }
}

void explore(Ctx& ctx, Site& site)
{
    // once for what only the first use needs, then once for the record
    g_heap.plan.clear();
    const Result warm = run(site.fn);
    const uint64_t liveBefore = g_heap.liveBlocks;
    g_reportAllocs = 0;
    g_reports = 0;
    const uint64_t before = g_heap.allocs;
    const Result base = run(site.fn);
    const uint64_t allocs = g_heap.allocs - before;
    ctx.step();
    if (base.kind != Result::ERROR)
    {
        if (base.kind == Result::FOREIGN)
        {
            ctx.log("%s: %s (not an error of the library)", site.name.c_str(), base.text().c_str());
        }
        return;
    }
    ctx.log("%s (%llu allocations) -> %s", site.name.c_str(), static_cast<unsigned long long>(allocs),
            shown(base.text()).c_str());
    ctx.shape(std::hash<std::string>()(site.name) * 31 + std::hash<std::string>()(base.type));
    ctx.state(std::hash<std::string>()(base.type + base.what.substr(0, 24)));
    ctx.nontrivial = true;
    SIM_COUNT("check.error-site");
    count(("error." + base.type).substr(0, 60).c_str());
    if (!(warm == base))
    {
        ctx.fail("unsteady-error", "%s: first '%s', then '%s'", site.name.c_str(), warm.text().c_str(),
                base.text().c_str());
    }
    if (base.what.size() > MAX_MESSAGE)
    {
        ctx.fail("message-too-long", "%s: %zu characters", site.name.c_str(), base.what.size());
    }
    if (g_reports != 0)
    {
        SIM_COUNT("check.report-observed");
    }
    if (g_reportAllocs != 0)
    {
        ctx.fail("report-allocates", "%s: %llu allocations between the making of the error and its throwing ('%s')",
                site.name.c_str(), static_cast<unsigned long long>(g_reportAllocs), base.what.c_str());
    }
    if (site.noMemory && allocs != 0)
    {
        ctx.fail("report-allocates", "%s: %llu allocations on the way to '%s'", site.name.c_str(),
                static_cast<unsigned long long>(allocs), base.what.c_str());
    }
    if (g_heap.liveBlocks != liveBefore)
    {
        ctx.fail("leak", "%s: %lld blocks are left", site.name.c_str(),
                static_cast<long long>(g_heap.liveBlocks - liveBefore));
    }
    const uint64_t tries = std::min<uint64_t>(allocs + 1, 5);
    for (uint64_t i = 0; i < tries; ++i)
    {
        const uint64_t at = allocs < 5 ? i : i == 0 ? 0 : i == 1 ? allocs - 1 : ctx.choose(allocs);
        g_heap.plan.set(at, UINT64_MAX);
        const Result r = run(site.fn);
        const bool fired = g_heap.plan.fired != 0;
        g_heap.plan.clear();
        if (fired)
        {
            SIM_COUNT("fault.allocation");
        }
        else
        {
            SIM_COUNT("check.error-with-just-enough-memory");
        }
        if (r == base)
        {
            continue;
        }
        if (r.kind == Result::NO_MEMORY && fired)
        {
            continue;
        }
        ctx.fail("other-error-without-memory", "%s, no memory from allocation %llu of %llu on%s: '%s' instead of '%s'",
                site.name.c_str(), static_cast<unsigned long long>(at), static_cast<unsigned long long>(allocs),
                fired ? "" : " (not reached)", r.text().c_str(), base.text().c_str());
    }
    const Result again = run(site.fn);
    if (!(again == base))
    {
        ctx.fail("unsteady-error", "%s: '%s' when memory is back, '%s' before", site.name.c_str(), again.text().c_str(),
                base.text().c_str());
    }
    if (g_heap.liveBlocks != liveBefore)
    {
        ctx.fail("leak", "%s: %lld blocks are left after running out of memory", site.name.c_str(),
                static_cast<long long>(g_heap.liveBlocks - liveBefore));
    }
}

void sites(Ctx& ctx)
{
    Sites all;
    g_disk.reset();
    g_disk.heal();
    switch (ctx.pick({2, 2, 5, 3, 3, 3, 4}))
    {
    case 0:
        streamSites(ctx, all);
        break;
    case 1:
        valueSites(ctx, all);
        break;
    case 2:
        objectSites(ctx, all);
        break;
    case 3:
        switch (ctx.choose(3))
        {
        case 0:
            introspectionSites<to::CreatorObject>(ctx, all, "CreatorObject");
            break;
        case 1:
            introspectionSites<to::WalkerObject>(ctx, all, "WalkerObject");
            break;
        default:
            introspectionSites<to::ReflectableObject>(ctx, all, "ReflectableObject");
            break;
        }
        break;
    case 4:
        switch (ctx.choose(3))
        {
        case 0:
            codecSites<to::CreatorObject>(ctx, all, "CreatorObject");
            break;
        case 1:
            codecSites<to::WalkerObject>(ctx, all, "WalkerObject");
            break;
        default:
            codecSites<to::ReflectableObject>(ctx, all, "ReflectableObject");
            break;
        }
        break;
    case 5:
        builderSites(ctx, all);
        break;
    default:
        fieldSites(ctx, all);
        break;
    }
    while (!all.empty() && ctx.more(9, 10))
    {
        explore(ctx, all[ctx.choose(all.size())]);
    }
}

const std::vector<Scenario> SCENARIOS = {{"messages", 1, messages}, {"sites", 2, sites}};

} // namespace

namespace sim
{
void warmup()
{
    registerFields();
    g_disk.reset();
}
void beginRun()
{
    g_error.clear();
    g_error.reserve(1000);
}
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
} // namespace sim
