// P14: single values and arrays of every built-in type, outside of any object: what their dynamic interfaces say about
// value and type, and what they refuse.
#include "p14_scalars.hpp"

#include "sink.hpp"
#include "sim.hpp"

#include <zserio/ArrayView.h>
#include <zserio/IntrospectableView.h>
#include <zserio/ReflectableData.h>
#include <zserio/TypeInfoUtil.h>

#include <array>
#include <utility>

namespace
{
using sim::g_heap;

template <class T>
struct Dynamic : std::false_type
{};
template <class V>
struct Dynamic<zserio::detail::DynIntWrapper<V>> : std::true_type
{};
template <class T>
struct Width // of integers of fixed width
{
    static constexpr unsigned bits = 0;
};
template <zserio::BitSize N, bool S>
struct Width<zserio::detail::FixedIntWrapper<N, S>>
{
    static constexpr unsigned bits = N;
};

// what the type information must say, by the type's name in the schema language
struct Says
{
    std::string name;
    unsigned bits; // 0 when there is no fixed width
    const Type* type;
    bool dynamic;
};

template <class T>
Says says()
{
    using namespace zserio;
    const Type* t = &tree::Bind<T>::type();
    if constexpr (Width<T>::bits != 0)
    {
        return {(t->kind == tree::INT ? "int:" : "bit:") + std::to_string(Width<T>::bits), Width<T>::bits, t, false};
    }
    else if constexpr (Dynamic<T>::value)
    {
        return {(t->kind == tree::INT ? "dynamic int" : "dynamic bit") + std::to_string(t->bits), 0, t, true};
    }
#define SAYS(T_, NAME, BITS) \
    else if constexpr (std::is_same_v<T, T_>) \
    { \
        return {NAME, BITS, t, false}; \
    }
    SAYS(Bool, "bool", 1)
    SAYS(VarInt16, "varint16", 0)
    SAYS(VarInt32, "varint32", 0)
    SAYS(VarInt64, "varint64", 0)
    SAYS(VarInt, "varint", 0)
    SAYS(VarUInt16, "varuint16", 0)
    SAYS(VarUInt32, "varuint32", 0)
    SAYS(VarUInt64, "varuint64", 0)
    SAYS(VarUInt, "varuint", 0)
    SAYS(VarSize, "varsize", 0)
    SAYS(Float16, "float16", 16)
    SAYS(Float32, "float32", 32)
    SAYS(Float64, "float64", 64)
    SAYS(String, "string", 0)
    SAYS(Bytes, "bytes", 0)
    SAYS(BitBuffer, "extern", 0)
#undef SAYS
}

void describes(Ctx& ctx, const zserio::ITypeInfo& info, const Says& s)
{
    using zserio::CppType;
    using zserio::TypeInfoUtil;
    const Type& t = *s.type;
    const std::string_view name = info.getSchemaName();
    if (!s.dynamic && name != s.name)
    {
        ctx.fail("wrong-type", "%s calls itself %.*s", s.name.c_str(), static_cast<int>(name.size()), name.data());
    }
    const bool fixed = s.bits != 0;
    if (fixed != TypeInfoUtil::isFixedSize(info.getSchemaType()) || (fixed && info.getBitSize() != s.bits) ||
            (!fixed && !rejects([&] {
                (void)info.getBitSize();
            })))
    {
        ctx.fail("wrong-type", "width of %s", s.name.c_str());
    }
    using tree::Kind;
    const bool integral = t.kind == tree::INT || t.kind == tree::UINT || t.kind == tree::BOOL;
    const bool flt = t.kind == tree::FLT || t.kind == tree::DBL;
    static const CppType SIGNED[] = {CppType::INT8, CppType::INT16, CppType::INT32, CppType::INT64};
    static const CppType UNSIGNED[] = {CppType::UINT8, CppType::UINT16, CppType::UINT32, CppType::UINT64};
    const size_t rank = t.bits == 64 ? 3 : t.bits == 32 ? 2 : t.bits == 16 ? 1 : 0;
    const CppType cpp = t.kind == tree::BOOL ? CppType::BOOL
            : t.kind == tree::INT            ? SIGNED[rank]
            : t.kind == tree::UINT           ? UNSIGNED[rank]
            : t.kind == tree::FLT            ? CppType::FLOAT
            : t.kind == tree::DBL            ? CppType::DOUBLE
            : t.kind == tree::STR            ? CppType::STRING
            : t.kind == tree::BYTES          ? CppType::BYTES
                                             : CppType::BIT_BUFFER;
    if (info.getCppType() != cpp || TypeInfoUtil::isIntegral(info.getSchemaType()) != integral ||
            TypeInfoUtil::isIntegral(cpp) != integral ||
            TypeInfoUtil::isSigned(info.getSchemaType()) != (t.kind == tree::INT || flt) ||
            TypeInfoUtil::isSigned(cpp) != (t.kind == tree::INT || flt) ||
            TypeInfoUtil::isFloatingPoint(info.getSchemaType()) != flt || TypeInfoUtil::isFloatingPoint(cpp) != flt ||
            TypeInfoUtil::isCompound(info.getSchemaType()) || TypeInfoUtil::isCompound(cpp) ||
            TypeInfoUtil::hasChoice(info.getSchemaType()) || TypeInfoUtil::hasChoice(cpp))
    {
        ctx.fail("wrong-type", "kind of %s", s.name.c_str());
    }
    if (!rejects([&] {
            (void)info.getUnderlyingType();
        }) || !rejects([&] {
            (void)info.getFields();
        }) || !rejects([&] {
            (void)info.createInstance();
        }))
    {
        ctx.fail("accepted", "a question about the inside of %s", s.name.c_str());
    }
}

// what neither values nor arrays of them have
void hasNone(Ctx& ctx, const zserio::IIntrospectableView& r, const std::string& place)
{
    if (!rejects([&] {
            (void)r.getParameter("x");
        }) || !rejects([&] {
            (void)r.callFunction("x");
        }) || !rejects([&] {
            (void)r.serialize();
        }) || r.find("x") != nullptr || r["value"] != nullptr)
    {
        ctx.fail("accepted", "a question which only compounds answer: %s", place.c_str());
    }
}

using Ref = zserio::IReflectableDataPtr;
using ConstRef = zserio::IReflectableDataConstPtr;
using View = zserio::IIntrospectableViewConstPtr;

// values of one type, the way fields own them
struct Values
{
    virtual ~Values() = default;
    virtual size_t size() const = 0;
    virtual Node node(size_t i) const = 0;
    virtual Node initial() const = 0;
    virtual Node take(const Node& n) = 0; // prepares a value; returns it as the type holds it
    virtual void add() = 0; // what was prepared
    virtual zserio::Any any() const = 0;
    virtual Ref reflect() = 0;
    virtual ConstRef reflectConst() const = 0;
    virtual View introspect() const = 0;
    virtual Ref reflectArray() = 0;
    virtual ConstRef reflectConstArray() const = 0;
    virtual View introspectArray() const = 0; // or nothing when there is no such thing
};

template <class T>
View look(const T& v)
{
    if constexpr (Dynamic<T>::value)
    {
        return zserio::introspectable(zserio::View<T>(v, static_cast<uint8_t>(sizeof(typename T::ValueType) * 8)));
    }
    else if constexpr (std::is_same_v<T, zserio::String>)
    {
        return zserio::introspectable(std::string_view(v));
    }
    else if constexpr (std::is_same_v<T, zserio::Bytes>)
    {
        return zserio::introspectable(zserio::BytesView(v));
    }
    else if constexpr (std::is_same_v<T, zserio::BitBuffer>)
    {
        return zserio::introspectable(zserio::BitBufferView(v));
    }
    else
    {
        return zserio::introspectable(v);
    }
}

template <class T>
struct ValuesOf : Values
{
    zserio::Vector<T> values;
    T next{};
    size_t size() const override
    {
        return values.size();
    }
    Node node(size_t i) const override
    {
        return tree::Bind<T>::to(values[i]);
    }
    Node initial() const override
    {
        return tree::Bind<T>::to(T{});
    }
    Node take(const Node& n) override
    {
        tree::Bind<T>::from(next, n);
        return tree::Bind<T>::to(next);
    }
    void add() override
    {
        values.push_back(next);
    }
    zserio::Any any() const override
    {
        return zserio::Any(next);
    }
    Ref reflect() override
    {
        return zserio::reflectable(values[0]);
    }
    ConstRef reflectConst() const override
    {
        return zserio::reflectable(values[0]);
    }
    View introspect() const override
    {
        return look(values[0]);
    }
    Ref reflectArray() override
    {
        return zserio::reflectableArray(values);
    }
    ConstRef reflectConstArray() const override
    {
        return zserio::reflectableArray(values);
    }
    View introspectArray() const override
    {
        if constexpr (Dynamic<T>::value)
        {
            return nullptr;
        }
        else
        {
            return zserio::introspectableArray(zserio::ArrayView<const T>(values));
        }
    }
};

// an interface to one value
template <class R>
void one(Ctx& ctx, const R& r, const Says& s, const Node& n, const std::string& place)
{
    if (!tree::equal(tree::readReflection(*s.type, r), n))
    {
        ctx.fail("wrong-value", "%s", place.c_str());
    }
    checkScalars(ctx, r, s.type, &n, place);
    describes(ctx, r.getTypeInfo(), s);
    if (!r.getAnyValue().hasValue())
    {
        ctx.fail("wrong-value", "%s hands out nothing", place.c_str());
    }
}

template <class R>
void many(Ctx& ctx, const R& r, const Says& s, const std::vector<Node>& nodes, const std::string& place)
{
    if (!r.isArray() || r.size() != nodes.size())
    {
        ctx.fail("wrong-value", "size of %s", place.c_str());
    }
    checkScalars(ctx, r, nullptr, nullptr, place);
    describes(ctx, r.getTypeInfo(), s);
    for (size_t i = 0; i < nodes.size(); ++i)
    {
        one(ctx, *(ctx.flip(1, 2) ? r.at(i) : r[i]), s, nodes[i], place + "[" + std::to_string(i) + "]");
    }
    for (const size_t beyond : {nodes.size(), nodes.size() + 1, static_cast<size_t>(-1)})
    {
        if (!rejects([&] {
                (void)r.at(beyond);
            }) || !rejects([&] {
                (void)r[beyond];
            }))
        {
            ctx.fail("accepted", "element %zu of %s", beyond, place.c_str());
        }
    }
}

enum Op
{
    REFLECT,
    REFLECT_CONST,
    INTROSPECT,
    REFLECT_ARRAY,
    REFLECT_CONST_ARRAY,
    INTROSPECT_ARRAY,
    CHANGE_ARRAY,
    OPS
};
const char* const OPS_NAMES[] = {"reflect", "reflect const", "introspect", "reflect array", "reflect const array",
        "introspect array", "change array"};

// changes through the array interface, one in three with memory running out
void change(Ctx& ctx, Values& v, const Says& s, std::vector<Node>& nodes, const tree::Gen& g, const std::string& place)
{
    const Ref r = v.reflectArray();
    for (size_t k = 1 + ctx.choose(4); k > 0; --k)
    {
        const Node held = v.take(tree::genNode(ctx, *s.type, g));
        const size_t at = ctx.choose(nodes.size() + 2);
        const size_t op = ctx.choose(4);
        const bool wrong = ctx.flip(1, 6);
        const zserio::Any any = wrong ? zserio::Any(zserio::Vector<zserio::Bool>()) : v.any();
        const bool inside = at < nodes.size();
        const bool legal = op == 0 ? !wrong && inside : op == 1 ? !wrong : op == 2 ? true : inside;
        if (ctx.flip(1, 3))
        {
            g_heap.plan.set(ctx.choose(3), 1);
        }
        bool done = false;
        bool memory = false;
        {
            sim::Tracked tracked;
            try
            {
                switch (op)
                {
                case 0:
                    r->setAt(any, at);
                    break;
                case 1:
                    r->append(any);
                    break;
                case 2:
                    r->resize(at);
                    break;
                default:
                    (void)r->at(at);
                    break;
                }
                done = true;
            }
            catch (const zserio::CppRuntimeException&)
            {}
            catch (const std::bad_alloc&)
            {
                memory = true;
            }
        }
        const bool fired = g_heap.plan.fired != 0;
        g_heap.plan.clear();
        if (fired)
        {
            SIM_COUNT("fault.allocation");
        }
        if (!legal)
        {
            SIM_COUNT("fault.illegal-access");
        }
        ctx.log("%s op %zu at %zu%s: %s", place.c_str(), op, at, wrong ? " with a wrong type" : "",
                done ? "done" : memory ? "no memory" : "rejected");
        ctx.shape(op * 16 + at * 4 + static_cast<size_t>(done) * 2 + fired);
        if (memory && !fired)
        {
            ctx.fail("failure-from-nothing", "%s ran out of memory although none was refused", place.c_str());
        }
        if (done && !legal)
        {
            ctx.fail("accepted", "%s op %zu at %zu must be rejected", place.c_str(), op, at);
        }
        if (!done && !memory && legal)
        {
            ctx.fail("rejected", "%s op %zu at %zu", place.c_str(), op, at);
        }
        if (done && op == 0)
        {
            nodes[at] = held;
        }
        else if (done && op == 1)
        {
            nodes.push_back(held);
        }
        else if (done && op == 2)
        {
            nodes.resize(at, v.initial());
        }
        else if (memory && op == 0 && legal)
        {
            nodes[at] = v.node(at); // the element being written may have any value
        }
        bool same = nodes.size() == v.size();
        for (size_t i = 0; same && i < nodes.size(); ++i)
        {
            same = tree::equal(nodes[i], v.node(i));
        }
        if (!same)
        {
            ctx.fail("wrong-object", "%s is not what the changes must have made", place.c_str());
        }
        ctx.step();
    }
    many(ctx, std::as_const(*r), s, nodes, place);
}

struct Kind
{
    Says says;
    std::unique_ptr<Values> (*make)();
};
std::vector<Kind> g_kinds;
std::vector<std::pair<Says, const zserio::ITypeInfo*>> g_infos;

template <class... T>
void kinds()
{
    (g_kinds.push_back({says<T>(),
             [] {
                 return std::unique_ptr<Values>(std::make_unique<ValuesOf<T>>());
             }}),
            ...);
}
template <size_t... I>
void infos(std::index_sequence<I...>)
{
    using namespace zserio::detail;
    (g_infos.emplace_back(says<FixedIntWrapper<I + 1, true>>(), &zserio::typeInfo<FixedIntWrapper<I + 1, true>>()), ...);
    (g_infos.emplace_back(says<FixedIntWrapper<I + 1, false>>(), &zserio::typeInfo<FixedIntWrapper<I + 1, false>>()), ...);
}
} // namespace

void runValues(Ctx& ctx)
{
    using namespace zserio;
    if (g_kinds.empty())
    {
        kinds<Bool, VarInt16, VarInt32, VarInt64, VarInt, VarUInt16, VarUInt32, VarUInt64, VarUInt, VarSize, Float16,
                Float32, Float64, String, Bytes, BitBuffer, DynInt8, DynInt16, DynInt32, DynInt64, DynUInt8, DynUInt16,
                DynUInt32, DynUInt64, Int1, Int8, Int11, Int16, Int23, Int32, Int47, Int64, UInt1, UInt8, UInt11, UInt16,
                UInt23, UInt32, UInt47, UInt64>();
        infos(std::make_index_sequence<64>());
    }
    tree::Gen g;
    g.text.text = true;
    g.text.maxString = 10;
    g.text.maxArray = 3;
    do
    {
        const size_t which = ctx.choose(g_kinds.size());
        const size_t op = ctx.choose(OPS);
        ctx.shape(which * 8 + op);
        ctx.state(6000 + which * 8 + op);
        const Says& s = g_kinds[which].says;
        const std::unique_ptr<Values> v = g_kinds[which].make();
        std::vector<Node> nodes;
        for (size_t k = 1 + ctx.choose(4); k > 0; --k)
        {
            nodes.push_back(v->take(tree::genNode(ctx, *s.type, g)));
            v->add();
        }
        const std::string place = std::string(OPS_NAMES[op]) + " " + s.name;
        ctx.log("%s, %zu values", place.c_str(), nodes.size());
        switch (op)
        {
        case REFLECT:
            one(ctx, std::as_const(*v->reflect()), s, nodes[0], place);
            break;
        case REFLECT_CONST:
            one(ctx, *v->reflectConst(), s, nodes[0], place);
            break;
        case INTROSPECT:
            one(ctx, *v->introspect(), s, nodes[0], place);
            hasNone(ctx, *v->introspect(), place);
            break;
        case REFLECT_ARRAY:
            many(ctx, std::as_const(*v->reflectArray()), s, nodes, place);
            break;
        case REFLECT_CONST_ARRAY:
            many(ctx, *v->reflectConstArray(), s, nodes, place);
            break;
        case INTROSPECT_ARRAY:
            if (const auto p = v->introspectArray())
            {
                many(ctx, *p, s, nodes, place);
                hasNone(ctx, *p, place);
            }
            break;
        default:
            change(ctx, *v, s, nodes, g, place);
            break;
        }
        const auto& info = g_infos[ctx.choose(g_infos.size())];
        describes(ctx, *info.second, info.first);
        SIM_COUNT("op.value");
        ctx.step();
    } while (ctx.more(5, 6));
    ctx.nontrivial = true;
}
