// Generic model of zserio objects as trees: plain nodes described by plain type tables, generators, and conversion from
// and to the C++ classes (the generated ones and the hand-written Sink, see sink.hpp). The references for JSON text,
// tree walking, tree building and reflection all work on these trees.
#pragma once

#include "objects.hpp"
#include "sim.hpp"

#include <zserio/BitBuffer.h>
#include <zserio/Bytes.h>
#include <zserio/Optional.h>
#include <zserio/String.h>
#include <zserio/Types.h>
#include <zserio/Vector.h>

#include <cmath>
#include <cstring>
#include <limits>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

namespace tree
{

enum Kind
{
    BOOL,
    INT, // signed, `bits` wide
    UINT,
    FLT,
    DBL,
    STR,
    BYTES,
    BITS,
    ENUM, // underlying integer has `bits`, `isSigned`
    MASK,
    STRUCT,
    CHOICE,
    UNION
};

struct Type;
struct Field
{
    const char* name;
    const Type* type;
    bool array = false;
    bool optional = false;
};
struct Item
{
    const char* name;
    uint64_t value;
};
struct Type
{
    Kind kind;
    unsigned bits = 0;
    bool isSigned = false;
    std::vector<Item> items;
    std::vector<Field> fields;
    const char* name = "";

    bool compound() const
    {
        return kind == STRUCT || kind == CHOICE || kind == UNION;
    }
    bool hasChoice() const
    {
        return kind == CHOICE || kind == UNION;
    }
    int find(std::string_view n) const
    {
        for (size_t i = 0; i < fields.size(); ++i)
        {
            if (n == fields[i].name)
            {
                return static_cast<int>(i);
            }
        }
        return -1;
    }
    // the value is one of the enumerated ones
    bool known(uint64_t v) const
    {
        for (const Item& it : items)
        {
            if (it.value == v)
            {
                return true;
            }
        }
        return false;
    }
};

struct Node;
struct Slot
{
    bool present = false;
    std::vector<Node> nodes; // elements of an array, or the one value
};
struct Node
{
    const Type* type = nullptr;
    uint64_t u = 0; // integers (two's complement), booleans, enumerations, bit masks
    double d = 0;
    std::string s;
    std::vector<uint8_t> bytes;
    size_t bits = 0; // of a bit buffer
    int choice = -1;
    std::vector<Slot> slots; // one for each field; of a choice or union only the chosen one is filled

    int64_t i() const
    {
        return static_cast<int64_t>(u);
    }
};

inline bool sameDouble(double a, double b)
{
    if (std::isnan(a) || std::isnan(b))
    {
        return std::isnan(a) && std::isnan(b);
    }
    return std::memcmp(&a, &b, sizeof a) == 0;
}

inline bool equal(const Node& a, const Node& b);
inline bool equal(const Slot& a, const Slot& b)
{
    if (a.present != b.present || (a.present && a.nodes.size() != b.nodes.size()))
    {
        return false;
    }
    for (size_t i = 0; a.present && i < a.nodes.size(); ++i)
    {
        if (!equal(a.nodes[i], b.nodes[i]))
        {
            return false;
        }
    }
    return true;
}
inline bool equal(const Node& a, const Node& b)
{
    if (a.type != b.type)
    {
        return false;
    }
    switch (a.type->kind)
    {
    case BOOL:
    case INT:
    case UINT:
    case ENUM:
    case MASK:
        return a.u == b.u;
    case FLT:
    case DBL:
        return sameDouble(a.d, b.d);
    case STR:
        return a.s == b.s;
    case BYTES:
        return a.bytes == b.bytes;
    case BITS:
        return a.bits == b.bits && a.bytes == b.bytes;
    default:
        break;
    }
    if (a.type->hasChoice())
    {
        return a.choice == b.choice &&
                (a.choice < 0 ||
                        equal(a.slots[static_cast<size_t>(a.choice)], b.slots[static_cast<size_t>(b.choice)]));
    }
    for (size_t i = 0; i < a.slots.size(); ++i)
    {
        if (!equal(a.slots[i], b.slots[i]))
        {
            return false;
        }
    }
    return true;
}

// path of the first difference, for messages
inline std::string difference(const Node& a, const Node& b, const std::string& path = "")
{
    if (a.type != b.type || !a.type->compound())
    {
        return equal(a, b) ? "" : (path.empty() ? "root" : path);
    }
    if (a.choice != b.choice)
    {
        return path + "(choice)";
    }
    for (size_t i = 0; i < a.slots.size(); ++i)
    {
        if (a.type->hasChoice() && static_cast<int>(i) != a.choice)
        {
            continue;
        }
        const std::string p = (path.empty() ? "" : path + ".") + a.type->fields[i].name;
        if (a.slots[i].present != b.slots[i].present || a.slots[i].nodes.size() != b.slots[i].nodes.size())
        {
            return p + (a.slots[i].present != b.slots[i].present ? "(presence)" : "(size)");
        }
        for (size_t k = 0; a.slots[i].present && k < a.slots[i].nodes.size(); ++k)
        {
            const std::string d = difference(a.slots[i].nodes[k], b.slots[i].nodes[k],
                    a.type->fields[i].array ? p + "[" + std::to_string(k) + "]" : p);
            if (!d.empty())
            {
                return d;
            }
        }
    }
    return "";
}

// what a default-constructed object of the type holds
inline Node defaultNode(const Type& t)
{
    Node n;
    n.type = &t;
    n.slots.resize(t.fields.size());
    if (t.kind == ENUM && !t.items.empty())
    {
        n.u = 0; // generated enumerations value-initialise to zero
    }
    if (t.kind == UNION || t.kind == CHOICE)
    {
        n.choice = -1;
    }
    if (t.kind == STRUCT)
    {
        for (size_t i = 0; i < t.fields.size(); ++i)
        {
            const Field& f = t.fields[i];
            if (!f.optional)
            {
                n.slots[i].present = true;
                if (!f.array)
                {
                    n.slots[i].nodes.push_back(defaultNode(*f.type));
                }
            }
        }
    }
    return n;
}

// ---- generation ----------------------------------------------------------------------------------------

struct Gen
{
    obj::GenOptions text; // strings
    bool anyEnum = false; // enumerations may hold values the schema does not know
    bool utf8 = true;
    size_t maxArray = 3;
    unsigned present = 50; // percentage of optional fields present
};

inline double genDouble(sim::Ctx& ctx)
{
    switch (ctx.pick({3, 2, 2, 1, 1, 1}))
    {
    case 0:
        return static_cast<double>(ctx.range(-4, 20));
    case 1:
        return static_cast<double>(ctx.range(-1000, 1000)) / static_cast<double>(1U << ctx.choose(12));
    case 2:
    {
        static const double S[] = {0.0, -0.0, 1e15, 9999999999999998.0, 1e16, -1e16, 1e17, 0.1, 1e-5, 1e-4, 123456.789,
                std::numeric_limits<double>::max(), std::numeric_limits<double>::min(),
                std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::lowest(), 4503599627370497.5,
                3.4028234663852886e38, 65504.0, 1e100};
        return S[ctx.choose(sizeof(S) / sizeof(S[0]))];
    }
    case 3:
        return std::numeric_limits<double>::infinity() * (ctx.flip(1, 2) ? -1 : 1);
    case 4:
        return std::numeric_limits<double>::quiet_NaN();
    default:
    {
        const uint64_t v = ctx.choose(0);
        double d = 0;
        std::memcpy(&d, &v, sizeof d);
        return d;
    }
    }
}

inline Node genNode(sim::Ctx& ctx, const Type& t, const Gen& g)
{
    Node n;
    n.type = &t;
    n.slots.resize(t.fields.size());
    switch (t.kind)
    {
    case BOOL:
        n.u = ctx.flip(1, 2) ? 1 : 0;
        break;
    case INT:
    {
        const uint64_t v = obj::genUInt(ctx, t.bits);
        n.u = t.bits == 64 ? v
                           : static_cast<uint64_t>(static_cast<int64_t>(v << (64 - t.bits)) >>
                                     static_cast<int>(64 - t.bits));
        break;
    }
    case UINT:
        n.u = obj::genUInt(ctx, t.bits);
        break;
    case FLT:
        n.d = static_cast<double>(static_cast<float>(genDouble(ctx)));
        break;
    case DBL:
        n.d = genDouble(ctx);
        break;
    case STR:
        n.s = obj::genString(ctx, g.text);
        break;
    case BYTES:
        n.bytes = obj::genBytes(ctx, g.text);
        break;
    case BITS:
    {
        const obj::Extern e = obj::genExtern(ctx, g.text);
        n.bytes = e.bytes;
        n.bits = e.bits;
        break;
    }
    case ENUM:
        n.u = t.items[ctx.choose(t.items.size())].value;
        if (g.anyEnum && ctx.flip(1, 6))
        {
            const uint64_t v = ctx.choose(128);
            n.u = t.isSigned && v >= 64 ? v - 128 : v;
        }
        break;
    case MASK:
        if (ctx.flip(1, 6))
        {
            n.u = obj::genUInt(ctx, t.bits);
        }
        else
        {
            for (const Item& it : t.items)
            {
                n.u |= ctx.flip(1, 2) ? it.value : 0;
            }
        }
        break;
    default:
        break;
    }
    if (t.hasChoice())
    {
        // an unset choice is legal; it is the last alternative
        const size_t c = ctx.choose(t.fields.size() + 1);
        n.choice = c == t.fields.size() ? -1 : static_cast<int>(c);
    }
    for (size_t i = 0; i < t.fields.size(); ++i)
    {
        if (t.hasChoice() && static_cast<int>(i) != n.choice)
        {
            continue;
        }
        const Field& f = t.fields[i];
        Slot& s = n.slots[i];
        s.present = !f.optional || ctx.flip(g.present, 100);
        if (!s.present)
        {
            continue;
        }
        for (size_t k = f.array ? ctx.choose(g.maxArray + 1) : 1; k > 0; --k)
        {
            s.nodes.push_back(genNode(ctx, *f.type, g));
        }
    }
    return n;
}

// ---- binding to C++ classes ----------------------------------------------------------------------------

template <class T>
struct Member
{
    using E = T;
    static constexpr bool array = false;
    static constexpr bool optional = false;
};
template <class T, class A>
struct Member<std::vector<T, A>>
{
    using E = T;
    static constexpr bool array = true;
    static constexpr bool optional = false;
};
template <class A>
struct Member<std::vector<uint8_t, A>> // bytes
{
    using E = std::vector<uint8_t, A>;
    static constexpr bool array = false;
    static constexpr bool optional = false;
};
template <class T, class A>
struct Member<zserio::BasicOptional<A, T>>
{
    using E = typename Member<T>::E;
    static constexpr bool array = Member<T>::array;
    static constexpr bool optional = true;
};

template <class T, class = void>
struct Bind; // type(), to(const T&), from(T&, const Node&)

template <class T, class = void>
struct IsNumeric : std::false_type
{};
template <class T>
struct IsNumeric<T, std::void_t<typename T::ValueType>> : std::is_base_of<zserio::detail::NumericTypeWrapper<typename T::ValueType>, T>
{};

template <class V>
const Type& numericType()
{
    static const Type t = [] {
        Type r;
        r.kind = std::is_same_v<V, bool> ? BOOL
                : std::is_same_v<V, float>  ? FLT
                : std::is_same_v<V, double> ? DBL
                : std::is_signed_v<V>       ? INT
                                            : UINT;
        r.bits = std::is_floating_point_v<V> || std::is_same_v<V, bool> ? 0 : static_cast<unsigned>(sizeof(V) * 8);
        r.isSigned = std::is_signed_v<V>;
        return r;
    }();
    return t;
}

template <class T>
struct Bind<T, std::enable_if_t<IsNumeric<T>::value>>
{
    using V = typename T::ValueType;
    static const Type& type()
    {
        return numericType<V>();
    }
    static Node to(const T& v)
    {
        Node n;
        n.type = &type();
        if constexpr (std::is_floating_point_v<V>)
        {
            n.d = static_cast<double>(static_cast<V>(v));
        }
        else
        {
            n.u = static_cast<uint64_t>(static_cast<int64_t>(static_cast<V>(v)));
            if constexpr (std::is_same_v<V, uint64_t>)
            {
                n.u = static_cast<V>(v);
            }
        }
        return n;
    }
    static void from(T& v, const Node& n)
    {
        if constexpr (std::is_floating_point_v<V>)
        {
            v = T(static_cast<V>(n.d));
        }
        else
        {
            v = T(static_cast<V>(n.u));
        }
    }
};

template <class A>
struct Bind<zserio::BasicString<A>>
{
    static const Type& type()
    {
        static const Type t = [] {
            Type r;
            r.kind = STR;
            return r;
        }();
        return t;
    }
    static Node to(const zserio::BasicString<A>& v)
    {
        Node n;
        n.type = &type();
        n.s.assign(v.data(), v.size());
        return n;
    }
    static void from(zserio::BasicString<A>& v, const Node& n)
    {
        v.assign(n.s.data(), n.s.size());
    }
};
template <class A>
struct Bind<std::vector<uint8_t, A>>
{
    static const Type& type()
    {
        static const Type t = [] {
            Type r;
            r.kind = BYTES;
            return r;
        }();
        return t;
    }
    static Node to(const std::vector<uint8_t, A>& v)
    {
        Node n;
        n.type = &type();
        n.bytes.assign(v.begin(), v.end());
        return n;
    }
    static void from(std::vector<uint8_t, A>& v, const Node& n)
    {
        v.assign(n.bytes.begin(), n.bytes.end());
    }
};
template <class A>
struct Bind<zserio::BasicBitBuffer<A>>
{
    static const Type& type()
    {
        static const Type t = [] {
            Type r;
            r.kind = BITS;
            return r;
        }();
        return t;
    }
    static Node to(const zserio::BasicBitBuffer<A>& v)
    {
        Node n;
        n.type = &type();
        n.bits = v.getBitSize();
        const auto d = v.getData();
        const size_t used = (n.bits + 7) / 8; // a buffer may have spare bytes
        n.bytes.assign(d.begin(), d.begin() + static_cast<std::ptrdiff_t>(std::min(used, d.size())));
        if (n.bits % 8 != 0 && !n.bytes.empty())
        {
            n.bytes.back() = static_cast<uint8_t>(n.bytes.back() & (0xff00U >> (n.bits % 8)));
        }
        return n;
    }
    static void from(zserio::BasicBitBuffer<A>& v, const Node& n)
    {
        v = zserio::BasicBitBuffer<A>(zserio::Span<const uint8_t>(n.bytes.data(), n.bytes.size()), n.bits);
    }
};

template <class E>
struct EnumItems; // static std::vector<Item> get(); static constexpr const char* name
template <class E>
struct Bind<E, std::enable_if_t<std::is_enum_v<E>>>
{
    using U = std::underlying_type_t<E>;
    static const Type& type()
    {
        static const Type t = [] {
            Type r;
            r.kind = ENUM;
            r.bits = sizeof(U) * 8;
            r.isSigned = std::is_signed_v<U>;
            r.items = EnumItems<E>::get();
            return r;
        }();
        return t;
    }
    static Node to(E v)
    {
        Node n;
        n.type = &type();
        n.u = static_cast<uint64_t>(static_cast<int64_t>(static_cast<U>(v)));
        return n;
    }
    static void from(E& v, const Node& n)
    {
        v = static_cast<E>(static_cast<U>(n.u));
    }
};
template <class M>
struct MaskItems;
template <class M>
struct Bind<M, std::void_t<decltype(MaskItems<M>::get())>>
{
    using Z = typename M::ZserioType;
    using U = typename Z::ValueType;
    static const Type& type()
    {
        static const Type t = [] {
            Type r;
            r.kind = MASK;
            r.bits = sizeof(U) * 8;
            r.items = MaskItems<M>::get();
            return r;
        }();
        return t;
    }
    static Node to(const M& v)
    {
        Node n;
        n.type = &type();
        n.u = static_cast<U>(v.getValue());
        return n;
    }
    static void from(M& v, const Node& n)
    {
        v = M(Z(static_cast<U>(n.u)));
    }
};

// Fields<T>::each(f) calls f(index constant, name, pointer to member) for each field of a structure
template <class T, class = void>
struct Fields;
template <class T>
struct Name;

template <class M>
Slot toSlot(const M& m)
{
    using I = Member<M>;
    Slot s;
    if constexpr (I::optional)
    {
        if (!m.has_value())
        {
            return s;
        }
        return toSlot(*m);
    }
    else
    {
        s.present = true;
        if constexpr (I::array)
        {
            for (const auto& e : m)
            {
                s.nodes.push_back(Bind<typename I::E>::to(e));
            }
        }
        else
        {
            s.nodes.push_back(Bind<typename I::E>::to(m));
        }
        return s;
    }
}
template <class M>
void fromSlot(M& m, const Slot& s)
{
    using I = Member<M>;
    if constexpr (I::optional)
    {
        m.reset();
        if (s.present)
        {
            std::decay_t<decltype(*m)> v{};
            fromSlot(v, s);
            m = std::move(v);
        }
    }
    else if constexpr (I::array)
    {
        m.clear();
        for (const Node& n : s.nodes)
        {
            typename I::E e{};
            Bind<typename I::E>::from(e, n);
            m.push_back(std::move(e));
        }
    }
    else
    {
        Bind<typename I::E>::from(m, s.nodes[0]);
    }
}

template <class T>
struct Bind<T, std::void_t<decltype(Fields<T>::STRUCTURE)>>
{
    static const Type& type()
    {
        static const Type t = [] {
            Type r;
            r.kind = STRUCT;
            r.name = Fields<T>::NAME;
            Fields<T>::each([&](const char* name, auto ptr) {
                using M = std::decay_t<decltype(std::declval<T&>().*ptr)>;
                r.fields.push_back(
                        Field{name, &Bind<typename Member<M>::E>::type(), Member<M>::array, Member<M>::optional});
            });
            return r;
        }();
        return t;
    }
    static Node to(const T& v)
    {
        Node n;
        n.type = &type();
        Fields<T>::each([&](const char*, auto ptr) {
            n.slots.push_back(toSlot(v.*ptr));
        });
        return n;
    }
    static void from(T& v, const Node& n)
    {
        size_t i = 0;
        Fields<T>::each([&](const char*, auto ptr) {
            fromSlot(v.*ptr, n.slots[i++]);
        });
    }
};

// Alternatives<T>::each(f) calls f(name, integral constant of the tag) for each alternative of a choice or union
template <class T, class = void>
struct Alternatives;

template <class T>
struct Bind<T, std::void_t<decltype(Alternatives<T>::KIND)>>
{
    using Tag = typename T::Tag;
    static const Type& type()
    {
        static const Type t = [] {
            Type r;
            r.kind = Alternatives<T>::KIND;
            r.name = Alternatives<T>::NAME;
            Alternatives<T>::each([&](const char* name, auto tag) {
                using M = std::decay_t<decltype(std::declval<T&>().template get<decltype(tag)::value>())>;
                r.fields.push_back(
                        Field{name, &Bind<typename Member<M>::E>::type(), Member<M>::array, Member<M>::optional});
            });
            return r;
        }();
        return t;
    }
    static Node to(const T& v)
    {
        Node n;
        n.type = &type();
        int i = 0;
        Alternatives<T>::each([&](const char*, auto tag) {
            n.slots.emplace_back();
            if (v.index() == decltype(tag)::value)
            {
                n.choice = i;
                n.slots.back() = toSlot(v.template get<decltype(tag)::value>());
            }
            ++i;
        });
        return n;
    }
    static void from(T& v, const Node& n)
    {
        v.template emplace<Tag::ZSERIO_UNDEFINED>();
        int i = 0;
        Alternatives<T>::each([&](const char*, auto tag) {
            if (n.choice == i)
            {
                auto& m = v.template emplace<decltype(tag)::value>();
                fromSlot(m, n.slots[static_cast<size_t>(i)]);
            }
            ++i;
        });
    }
};

} // namespace tree

#define TREE_F1(T, f) fn(#f, &T::f);
#define TREE_F2(T, f, ...) TREE_F1(T, f) TREE_F1(T, __VA_ARGS__)
#define TREE_F3(T, f, ...) TREE_F1(T, f) TREE_F2(T, __VA_ARGS__)
#define TREE_F4(T, f, ...) TREE_F1(T, f) TREE_F3(T, __VA_ARGS__)
#define TREE_F5(T, f, ...) TREE_F1(T, f) TREE_F4(T, __VA_ARGS__)
#define TREE_F6(T, f, ...) TREE_F1(T, f) TREE_F5(T, __VA_ARGS__)
#define TREE_F7(T, f, ...) TREE_F1(T, f) TREE_F6(T, __VA_ARGS__)
#define TREE_F8(T, f, ...) TREE_F1(T, f) TREE_F7(T, __VA_ARGS__)
#define TREE_F9(T, f, ...) TREE_F1(T, f) TREE_F8(T, __VA_ARGS__)

#define TREE_STRUCT(T, NAME_, N, ...) \
    template <> \
    struct tree::Fields<T> \
    { \
        static constexpr bool STRUCTURE = true; \
        static constexpr const char* NAME = NAME_; \
        template <class F> \
        static void each(F fn) \
        { \
            TREE_F##N(T, __VA_ARGS__) \
        } \
    };

#define TREE_A1(T, f) fn(#f, std::integral_constant<T::Tag, T::Tag::f>());
#define TREE_A2(T, f, ...) TREE_A1(T, f) TREE_A1(T, __VA_ARGS__)
#define TREE_A3(T, f, ...) TREE_A1(T, f) TREE_A2(T, __VA_ARGS__)
#define TREE_A4(T, f, ...) TREE_A1(T, f) TREE_A3(T, __VA_ARGS__)
#define TREE_CHOICE(T, NAME_, KIND_, N, ...) \
    template <> \
    struct tree::Alternatives<T> \
    { \
        static constexpr tree::Kind KIND = KIND_; \
        static constexpr const char* NAME = NAME_; \
        template <class F> \
        static void each(F fn) \
        { \
            TREE_A##N(T, __VA_ARGS__) \
        } \
    };
