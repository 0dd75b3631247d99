// Values for database columns: every kind of column which generated tables bind and read through SqliteUtil, with an
// independent idea of what must be stored.
#pragma once

#include "objects.hpp"
#include "simsql.hpp"

#include <test_object/std_allocator/CreatorBitmask.h>
#include <test_object/std_allocator/CreatorEnum.h>
#include <test_object/std_allocator/CreatorNested.h>
#include <test_object/std_allocator/CreatorUnsignedEnum.h>
#include <zserio/SqliteConnection.h>
#include <zserio/SqliteUtil.h>

#include <cmath>
#include <functional>
#include <limits>
#include <memory>

namespace sqltypes
{

namespace to = test_object::std_allocator;
using Alloc = std::allocator<uint8_t>;

// hand-written objects in the shape of generated code
struct Empty // takes no bits at all
{
    using allocator_type = Alloc;
    Empty() = default;
    explicit Empty(const Alloc&)
    {}
    Empty(const Empty&) = default;
    Empty(Empty&&) = default;
    Empty& operator=(const Empty&) = default;
    Empty& operator=(Empty&&) = default;
    Empty(const Empty&, const Alloc&)
    {}
    Empty(Empty&&, const Alloc&)
    {}
    bool operator==(const Empty&) const
    {
        return true;
    }
};
struct Few // 3 bits and 0 to 7 more; has values which must not be written
{
    using allocator_type = Alloc;
    Few() = default;
    explicit Few(const Alloc&)
    {}
    Few(const Few&) = default;
    Few(Few&&) = default;
    Few& operator=(const Few&) = default;
    Few& operator=(Few&&) = default;
    Few(const Few& o, const Alloc&) :
            Few(o)
    {}
    Few(Few&& o, const Alloc&) :
            Few(o)
    {}
    bool operator==(const Few& o) const
    {
        return n == o.n && bits == o.bits;
    }
    uint8_t n = 0;
    uint8_t bits = 0;
};

enum class Wide : int64_t // items which need all 64 bits
{
    LOWEST = INT64_MIN,
    BELOW = -4294967297,
    MINUS = -1,
    NONE = 0,
    ABOVE = 4294967296,
    NEXT = 4294967297,
    HIGHEST = INT64_MAX
};
struct Mask // a bit mask of 64 bits
{
    using ZserioType = zserio::UInt64;
    Mask() = default;
    explicit Mask(uint64_t v) :
            value(v)
    {}
    uint64_t getValue() const
    {
        return value;
    }
    bool operator==(const Mask& o) const
    {
        return value == o.value;
    }
    uint64_t value = 0;
};

} // namespace sqltypes

namespace zserio
{
template <>
struct EnumTraits<sqltypes::Wide>
{
    using ZserioType = zserio::Int64;
    static constexpr std::array<sqltypes::Wide, 7> values = {sqltypes::Wide::LOWEST, sqltypes::Wide::BELOW,
            sqltypes::Wide::MINUS, sqltypes::Wide::NONE, sqltypes::Wide::ABOVE, sqltypes::Wide::NEXT,
            sqltypes::Wide::HIGHEST};
};
template <>
inline sqltypes::Wide valueToEnum<sqltypes::Wide>(zserio::Int64 raw)
{
    for (sqltypes::Wide w : EnumTraits<sqltypes::Wide>::values)
    {
        if (static_cast<int64_t>(w) == static_cast<int64_t>(raw))
        {
            return w;
        }
    }
    throw CppRuntimeException("Wide: unknown value!");
}
template <>
class View<sqltypes::Empty>
{
public:
    explicit View(const sqltypes::Empty&) noexcept
    {}
};
template <>
class View<sqltypes::Few>
{
public:
    explicit View(const sqltypes::Few& data) noexcept :
            m_data(&data)
    {}
    const sqltypes::Few& zserioData() const
    {
        return *m_data;
    }

private:
    const sqltypes::Few* m_data;
};
namespace detail
{
template <>
struct ObjectTraits<sqltypes::Empty>
{
    static void validate(const View<sqltypes::Empty>&, std::string_view)
    {}
    static BitSize bitSizeOf(const View<sqltypes::Empty>&, BitSize)
    {
        return 0;
    }
    static void write(BitStreamWriter&, const View<sqltypes::Empty>&)
    {}
    static View<sqltypes::Empty> read(BitStreamReader&, sqltypes::Empty& data)
    {
        return View<sqltypes::Empty>(data);
    }
};
template <>
struct ObjectTraits<sqltypes::Few>
{
    static void validate(const View<sqltypes::Few>& view, std::string_view)
    {
        if (view.zserioData().n > 7)
        {
            throw OutOfRangeException("Few: n is out of range!");
        }
    }
    static BitSize bitSizeOf(const View<sqltypes::Few>& view, BitSize)
    {
        return 3U + view.zserioData().n;
    }
    static void write(BitStreamWriter& writer, const View<sqltypes::Few>& view)
    {
        writer.writeUnsignedBits32(view.zserioData().n, 3);
        if (view.zserioData().n != 0)
        {
            writer.writeUnsignedBits32(view.zserioData().bits & ((1U << view.zserioData().n) - 1), view.zserioData().n);
        }
    }
    static View<sqltypes::Few> read(BitStreamReader& reader, sqltypes::Few& data)
    {
        data.n = static_cast<uint8_t>(reader.readUnsignedBits32(3));
        data.bits = data.n != 0 ? static_cast<uint8_t>(reader.readUnsignedBits32(data.n)) : 0;
        return View<sqltypes::Few>(data);
    }
};
} // namespace detail
} // namespace zserio

namespace sqltypes
{

struct Value // of one column in one row; knows how generated code would bind and read it
{
    virtual ~Value() = default;
    virtual const char* typeName() const = 0; // of the column
    virtual void prepare() = 0; // what generated code does before binding: may refuse the value
    virtual int bind(sqlite3_stmt& s, int index) = 0;
    virtual void read(sqlite3_stmt& s, int index) = 0; // replaces the value
    virtual bool equal(const Value& other) const = 0;
    virtual bool stored(sqlite3_stmt* s, int index) const = 0; // whether the engine has exactly this, asked directly
    virtual std::unique_ptr<Value> fresh() const = 0; // of the same kind
    virtual bool refused() const // whether prepare() must refuse it
    {
        return false;
    }
};
using ValuePtr = std::unique_ptr<Value>;

template <class T, class... ARGS>
struct Typed : Value
{
    zserio::BasicOptional<Alloc, T> v; // null when not set
    std::tuple<ARGS...> args;
    zserio::BitSize bitSize = 0;

    explicit Typed(ARGS... a) :
            args(a...)
    {}
    const char* typeName() const override
    {
        return zserio::detail::ColumnTraits<T>::TYPE_NAME.data();
    }
    template <class F>
    auto withView(F f) const
    {
        if constexpr (zserio::is_complete_v<zserio::View<T>> && std::is_class_v<T> && !zserio::is_bitmask_v<T> &&
                !zserio::is_numeric_wrapper_v<T> && !std::is_same_v<T, zserio::String>)
        {
            return std::apply(
                    [&](const ARGS&... a) {
                        return f(zserio::View<T>(*v, a...));
                    },
                    args);
        }
        else if constexpr (std::is_same_v<T, zserio::String>)
        {
            // only the bound copy lives longer than the call
            std::string text(v->data(), v->size());
            const auto result = f(std::string_view(text));
            std::fill(text.begin(), text.end(), '#');
            return result;
        }
        else
        {
            return f(*v);
        }
    }
    void prepare() override
    {
        bitSize = 0;
        if (v)
        {
            bitSize = withView([](const auto& x) {
                return zserio::detail::prepareColumn(x);
            });
        }
    }
    int bind(sqlite3_stmt& s, int index) override
    {
        if (!v)
        {
            return sqlite3_bind_null(&s, index);
        }
        return withView([&](const auto& x) {
            return zserio::detail::bindColumn(s, index, x, bitSize, Alloc());
        });
    }
    void read(sqlite3_stmt& s, int index) override
    {
        v.reset();
        if (sqlite3_column_type(&s, index) != SQLITE_NULL)
        {
            std::apply(
                    [&](const ARGS&... a) {
                        zserio::detail::readColumn(v, s, index, a...);
                    },
                    args);
        }
    }
    bool equal(const Value& other) const override
    {
        const auto& o = static_cast<const Typed&>(other).v;
        return v.has_value() == o.has_value() && (!v || *v == *o);
    }
    bool stored(sqlite3_stmt* s, int index) const override
    {
        const int type = sqlite3_column_type(s, index);
        if (!v)
        {
            return type == SQLITE_NULL;
        }
        if (type != zserio::detail::ColumnTraits<T>::TYPE)
        {
            return false;
        }
        if constexpr (std::is_same_v<T, zserio::String>)
        {
            const unsigned char* text = sqlite3_column_text(s, index);
            const std::string_view have(reinterpret_cast<const char*>(text),
                    static_cast<size_t>(sqlite3_column_bytes(s, index)));
            return have == std::string_view(*v);
        }
        else if constexpr (std::is_enum_v<T>)
        {
            return sqlite3_column_int64(s, index) == static_cast<int64_t>(*v);
        }
        else if constexpr (zserio::is_bitmask_v<T>)
        {
            return sqlite3_column_int64(s, index) == static_cast<int64_t>(v->getValue());
        }
        else if constexpr (zserio::is_numeric_wrapper_v<T>)
        {
            using N = typename T::ValueType;
            const N n = *v;
            if constexpr (std::is_floating_point_v<N>)
            {
                return sqlite3_column_double(s, index) == static_cast<double>(n);
            }
            else
            {
                return sqlite3_column_int64(s, index) == static_cast<int64_t>(n);
            }
        }
        else
        {
            const auto want = withView([&](const auto& x) {
                return zserio::serializeToBytes(x);
            });
            const size_t n = static_cast<size_t>(sqlite3_column_bytes(s, index));
            return n == want.size() && (n == 0 || std::memcmp(sqlite3_column_blob(s, index), want.data(), n) == 0);
        }
    }
    std::unique_ptr<Value> fresh() const override
    {
        return std::apply(
                [](const ARGS&... a) -> std::unique_ptr<Value> {
                    return std::make_unique<Typed>(a...);
                },
                args);
    }
    bool refused() const override
    {
        if constexpr (std::is_same_v<T, Few>)
        {
            return v && v->n > 7;
        }
        return false;
    }
};

// valid text, with embedded zeros
inline std::string genText(sim::Ctx& ctx)
{
    static const char* const PIECES[] = {"a", "Z", "'", "\"", "%", "\xc3\xa9", "\xe2\x82\xac", " ", "\n"};
    std::string s;
    const size_t n = ctx.pick({2, 6, 3, 1}) == 0 ? 0 : ctx.choose(ctx.flip(1, 12) ? 1500 : 12);
    for (size_t i = 0; i < n; ++i)
    {
        const size_t k = ctx.choose(20);
        if (k < 2)
        {
            s.push_back('\0');
        }
        else
        {
            s += k < 11 ? PIECES[k - 2] : "x";
        }
    }
    return s;
}

template <class T>
struct Maker;
template <class T>
ValuePtr integer(sim::Ctx& ctx, bool null)
{
    auto r = std::make_unique<Typed<T>>();
    if (!null)
    {
        using N = typename T::ValueType;
        r->v = T(static_cast<N>(obj::genUInt(ctx, sizeof(N) * 8)));
    }
    return r;
}
inline double genReal(sim::Ctx& ctx)
{
    static const double S[] = {0.0, 1.0, -1.0, 0.1, 1e300, -1e300, 1e-300, 9007199254740993.0, 9223372036854775808.0, 0.5,
            std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min(),
            std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
    switch (ctx.choose(3))
    {
    case 0:
        return S[ctx.choose(sizeof(S) / sizeof(S[0]))];
    case 1:
        return static_cast<double>(ctx.range(-1000, 1000)) / 8;
    default:
    {
        const uint64_t u = ctx.choose(0);
        double d = 0;
        std::memcpy(&d, &u, sizeof d);
        return std::isnan(d) ? 2.5 : d + 0.0; // the engine stores no NaN and no negative zero
    }
    }
}
template <class T>
ValuePtr real(sim::Ctx& ctx, bool null)
{
    auto r = std::make_unique<Typed<T>>();
    if (!null)
    {
        using N = typename T::ValueType;
        const N n = static_cast<N>(genReal(ctx));
        r->v = T(n == 0 ? N(0) : n);
    }
    return r;
}

constexpr size_t KINDS = 22;
inline bool integerKind(size_t kind)
{
    return kind < 10 || (kind >= 13 && kind <= 15) || kind >= 20;
}
inline ValuePtr genValue(sim::Ctx& ctx, size_t kind)
{
    obj::GenOptions o;
    o.bigSometimes = ctx.flip(1, 20);
    const bool null = ctx.flip(1, 8);
    switch (kind)
    {
    case 0:
        return integer<zserio::Int8>(ctx, null);
    case 1:
        return integer<zserio::UInt8>(ctx, null);
    case 2:
        return integer<zserio::Int64>(ctx, null);
    case 3:
        return integer<zserio::UInt64>(ctx, null);
    case 4:
        return integer<zserio::UInt32>(ctx, null);
    case 5:
        return integer<zserio::VarUInt>(ctx, null);
    case 6:
        return integer<zserio::VarInt>(ctx, null);
    case 7:
        return integer<zserio::VarSize>(ctx, null);
    case 8:
        return integer<zserio::DynUInt16>(ctx, null);
    case 9:
        return integer<zserio::DynInt64>(ctx, null);
    case 10:
        return real<zserio::Float16>(ctx, null);
    case 11:
        return real<zserio::Float32>(ctx, null);
    case 12:
        return real<zserio::Float64>(ctx, null);
    case 13:
    {
        auto r = std::make_unique<Typed<zserio::Bool>>();
        if (!null)
        {
            r->v = zserio::Bool(ctx.flip(1, 2));
        }
        return r;
    }
    case 14:
    {
        auto r = std::make_unique<Typed<to::CreatorEnum>>();
        if (!null)
        {
            r->v = zserio::EnumTraits<to::CreatorEnum>::values[ctx.choose(
                    zserio::EnumTraits<to::CreatorEnum>::values.size())];
        }
        return r;
    }
    case 15:
    {
        auto r = std::make_unique<Typed<to::CreatorBitmask>>();
        if (!null)
        {
            r->v = to::CreatorBitmask(static_cast<to::CreatorBitmask::ZserioType::ValueType>(ctx.choose(256)));
        }
        return r;
    }
    case 16:
    {
        auto r = std::make_unique<Typed<zserio::String>>();
        if (!null)
        {
            const std::string s = genText(ctx);
            r->v = zserio::String(s.data(), s.size());
        }
        return r;
    }
    case 17:
    {
        auto r = std::make_unique<Typed<Empty>>();
        if (!null)
        {
            r->v.emplace();
        }
        return r;
    }
    case 18:
    {
        auto r = std::make_unique<Typed<Few>>();
        if (!null)
        {
            r->v.emplace();
            r->v->n = static_cast<uint8_t>(ctx.flip(1, 10) ? ctx.choose(256) : ctx.choose(8));
            r->v->bits = static_cast<uint8_t>(r->v->n != 0 && r->v->n < 8 ? ctx.choose(uint64_t(1) << r->v->n) : 0);
        }
        return r;
    }
    case 20:
    {
        auto r = std::make_unique<Typed<Wide>>();
        if (!null)
        {
            r->v = zserio::EnumTraits<Wide>::values[ctx.choose(zserio::EnumTraits<Wide>::values.size())];
        }
        return r;
    }
    case 21:
    {
        auto r = std::make_unique<Typed<Mask>>();
        if (!null)
        {
            r->v = Mask(obj::genUInt(ctx, 64));
        }
        return r;
    }
    default:
    {
        auto r = std::make_unique<Typed<to::CreatorNested, zserio::UInt32>>(
                zserio::UInt32(static_cast<uint32_t>(ctx.choose(100))));
        if (!null)
        {
            r->v.emplace();
            obj::fillNested(*r->v, obj::genNested(ctx, o), Alloc());
        }
        return r;
    }
    }
}

} // namespace sqltypes
