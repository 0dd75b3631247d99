// P17: unchanging objects, buffers and type information shared by simulated threads.
#include "program.hpp"
#include "simthread.hpp"

#include <test_object/std_allocator/DebugStringObject.h>
#include <test_object/std_allocator/DebugStringParamObject.h>
#include <test_object/std_allocator/ReflectableUtilObject.h>
#include <test_object/std_allocator/ReflectableUtilUnion.h>
#include <locale>

#include <zserio/Any.h>
#include <zserio/BitFieldUtil.h>
#include <zserio/BitPositionUtil.h>
#include <zserio/BuiltInOperators.h>
#include <zserio/ConstraintException.h>
#include <zserio/DataView.h>
#include <zserio/DebugStringUtil.h>
#include <zserio/FloatUtil.h>
#include <zserio/ReflectableUtil.h>
#include <zserio/SizeConvertUtil.h>
#include <zserio/StringConvertUtil.h>
#include <zserio/TypeInfo.h>
#include <zserio/TypeInfoUtil.h>
#include <zserio/Variant.h>
#include <zserio/Walker.h>

#include <sstream>

namespace sim
{
const char* const PROPERTY = "P17";
}

namespace
{

// what an operation got to see
struct Out
{
    uint64_t h = 1;
    void u(uint64_t v)
    {
        h = mix(h ^ v);
    }
    void s(std::string_view t)
    {
        uint64_t x = t.size();
        for (const char c : t)
        {
            x = x * 1099511628211ULL + static_cast<unsigned char>(c);
        }
        u(x);
    }
    void b(zserio::Span<const uint8_t> d)
    {
        uint64_t x = d.size();
        for (const uint8_t c : d)
        {
            x = x * 1099511628211ULL + c;
        }
        u(x);
    }
    template <typename A>
    void b(const zserio::BasicBitBuffer<A>& d)
    {
        u(d.getBitSize());
        b(d.getData());
    }
};

struct Op
{
    std::string name;
    std::function<void(Out&)> fn;
};
using Ops = std::vector<Op>;

// runs one operation; errors are results, too
uint64_t runOp(const Op& op)
{
    Out out;
    try
    {
        op.fn(out);
    }
    catch (const zserio::CppRuntimeException& e)
    {
        out.s(e.what());
        out.u(typeid(e).hash_code());
    }
    return out.h;
}

// ---- type information ------------------------------------------------------------------------------------
void inspect(Out& out, const zserio::ITypeInfo& t, unsigned depth)
{
    out.s(t.getSchemaName());
    out.u(static_cast<uint64_t>(t.getSchemaType()) * 100 + static_cast<uint64_t>(t.getCppType()));
    if (t.getSchemaType() == zserio::SchemaType::DYNAMIC_SIGNED_BITFIELD ||
            t.getSchemaType() == zserio::SchemaType::DYNAMIC_UNSIGNED_BITFIELD)
    {
        return;
    }
    if (zserio::TypeInfoUtil::isFixedSize(t.getSchemaType()))
    {
        out.u(t.getBitSize());
    }
    if (t.getSchemaType() == zserio::SchemaType::ENUM)
    {
        for (const auto& i : t.getEnumItems())
        {
            out.s(i.schemaName);
            out.u(i.value);
        }
        if (depth != 0)
        {
            inspect(out, t.getUnderlyingType(), depth - 1);
        }
    }
    else if (t.getSchemaType() == zserio::SchemaType::BITMASK)
    {
        for (const auto& i : t.getBitmaskValues())
        {
            out.s(i.schemaName);
            out.u(i.value);
        }
    }
    else if (zserio::TypeInfoUtil::isCompound(t.getSchemaType()))
    {
        for (const auto& f : t.getFields())
        {
            out.s(f.schemaName);
            out.u(f.isArray * 2 + f.isOptional);
            if (depth != 0)
            {
                inspect(out, f.typeInfo, depth - 1);
            }
        }
        for (const auto& p : t.getParameters())
        {
            out.s(p.schemaName);
            if (depth != 0)
            {
                inspect(out, p.typeInfo, depth - 1);
            }
        }
        for (const auto& f : t.getFunctions())
        {
            out.s(f.schemaName);
        }
        if (zserio::TypeInfoUtil::hasChoice(t.getSchemaType()))
        {
            for (const auto& c : t.getCases())
            {
                out.u(c.field != nullptr);
                out.u(c.caseExpressions.size());
            }
        }
    }
}

template <typename... T>
void inspectAll(Out& out)
{
    (inspect(out, zserio::typeInfo<T, std::allocator<uint8_t>>(), 0), ...);
}
void builtinOps(Ops& ops)
{
    using namespace zserio;
    ops.push_back({"type information of integers", [](Out& out) {
                       inspectAll<Bool, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Int7, UInt9, Int33,
                               UInt63>(out);
                   }});
    ops.push_back({"type information of variable integers", [](Out& out) {
                       inspectAll<VarInt16, VarInt32, VarInt64, VarInt, VarUInt16, VarUInt32, VarUInt64, VarUInt,
                               VarSize>(out);
                   }});
    ops.push_back({"type information of dynamic integers", [](Out& out) {
                       inspectAll<DynInt8, DynInt16, DynInt32, DynInt64, DynUInt8, DynUInt16, DynUInt32, DynUInt64>(
                               out);
                   }});
    ops.push_back({"type information of other builtins", [](Out& out) {
                       inspectAll<Float16, Float32, Float64, zserio::Bytes, zserio::String, zserio::BitBuffer>(out);
                   }});
}

template <class T, class A = std::allocator<uint8_t>>
void typeOps(Ops& ops, const char* name)
{
    ops.push_back({std::string("type information of ") + name, [](Out& out) {
                       inspect(out, zserio::typeInfo<T, A>(), 3);
                   }});
}

// ---- reflections -----------------------------------------------------------------------------------------
template <class R>
void look(Out& out, const R& r, unsigned depth)
{
    const zserio::ITypeInfo& t = r.getTypeInfo();
    if (r.isArray())
    {
        out.u(r.size());
        for (size_t i = 0; i < r.size() && depth != 0; ++i)
        {
            look(out, *r.at(i), depth - 1);
        }
        return;
    }
    if (zserio::TypeInfoUtil::isCompound(t.getSchemaType()))
    {
        if (zserio::TypeInfoUtil::hasChoice(t.getSchemaType()))
        {
            out.s(r.getChoice());
        }
        for (const auto& f : t.getFields())
        {
            if (zserio::TypeInfoUtil::hasChoice(t.getSchemaType()) && r.getChoice() != f.schemaName)
            {
                continue;
            }
            const auto field = r.getField(f.schemaName);
            out.u(field != nullptr);
            if (field && depth != 0)
            {
                look(out, *field, depth - 1);
            }
        }
        return;
    }
    switch (t.getCppType())
    {
    case zserio::CppType::STRING:
        out.s(r.getStringView());
        out.s(r.toString());
        break;
    case zserio::CppType::BYTES:
        out.b(r.getBytes());
        break;
    case zserio::CppType::BIT_BUFFER:
        out.b(r.getBitBuffer());
        break;
    case zserio::CppType::ENUM:
    case zserio::CppType::BITMASK:
    default:
        out.s(r.toString());
        break;
    }
}

class Observer : public zserio::IWalkObserver
{
public:
    explicit Observer(Out& out) :
            m_out(out)
    {}
    void beginRoot(const zserio::IReflectableDataConstPtr& c) override
    {
        m_out.u(c != nullptr);
    }
    void endRoot(const zserio::IReflectableDataConstPtr& c) override
    {
        m_out.u(c != nullptr);
    }
    void beginArray(const zserio::IReflectableDataConstPtr& a, const zserio::FieldInfo& f) override
    {
        m_out.u(a->size());
        m_out.s(f.schemaName);
    }
    void endArray(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo& f) override
    {
        m_out.s(f.schemaName);
    }
    void beginCompound(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo& f, size_t i) override
    {
        m_out.s(f.schemaName);
        m_out.u(i);
    }
    void endCompound(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo& f, size_t i) override
    {
        m_out.s(f.schemaName);
        m_out.u(i);
    }
    void visitValue(const zserio::IReflectableDataConstPtr& v, const zserio::FieldInfo& f, size_t i) override
    {
        m_out.s(f.schemaName);
        m_out.u(i);
        m_out.u(v != nullptr);
    }

private:
    Out& m_out;
};

// ---- objects ---------------------------------------------------------------------------------------------
template <class T>
struct SharedObject
{
    T a;
    T b;
    zserio::BitBuffer bits; // of a
    std::vector<uint8_t> bytes;
    std::string text; // of a
    std::optional<zserio::DataView<T>> dataView;
    zserio::IReflectableDataConstPtr reflection; // only while type information stays initialised
    zserio::IIntrospectableViewConstPtr introspection;
    zserio::Any any;
};

template <class T, class = void>
struct IsParametrised : std::false_type
{};
template <class T>
struct IsParametrised<T, std::void_t<typename zserio::detail::ObjectTraits<T>::Parameters>> : std::true_type
{};

template <class T>
void dataOps(Ops& ops, const std::string& n, const std::shared_ptr<SharedObject<T>>& s)
{
    ops.push_back({n + " compare", [s](Out& out) {
                       out.u((s->a == s->b) + 2 * (s->a < s->b) + 4 * (s->b < s->a) + 8 * (s->a != s->b));
                   }});
    ops.push_back({n + " hash", [s](Out& out) {
                       out.u(std::hash<T>()(s->a));
                       out.u(std::hash<T>()(s->b));
                   }});
    ops.push_back({n + " copy", [s](Out& out) {
                       const T c(s->a);
                       T d;
                       d = s->b;
                       out.u((c == s->a) + 2 * (d == s->b));
                   }});
    ops.push_back({n + " reflect", [s](Out& out) {
                       const T& a = s->a;
                       look(out, *zserio::reflectable(a), 6);
                   }});
    ops.push_back({n + " find", [s](Out& out) {
                       const T& a = s->a;
                       const auto r = zserio::reflectable(a);
                       for (const auto& f : zserio::typeInfo<T>().getFields())
                       {
                           const auto found = r->find(f.schemaName);
                           out.u(found != nullptr);
                       }
                       out.u(r->find("nested.value") != nullptr);
                       out.u(r->find("none.of.this") != nullptr);
                   }});
    ops.push_back({n + " equal by reflection", [s](Out& out) {
                       const T& a = s->a;
                       const T& b = s->b;
                       out.u(zserio::ReflectableUtil::equal(zserio::reflectable(a), zserio::reflectable(b)));
                       out.u(zserio::ReflectableUtil::equal(zserio::reflectable(a), zserio::reflectable(a)));
                   }});
    ops.push_back({n + " dump", [s](Out& out) {
                       out.s(zserio::toJsonString(s->a));
                       std::ostringstream stream;
                       zserio::toJsonStream(s->b, stream, 2);
                       out.s(stream.str());
                   }});
    ops.push_back({n + " walk", [s](Out& out) {
                       const T& a = s->a;
                       Observer o(out);
                       zserio::DefaultWalkFilter all;
                       zserio::Walker(o, all).walk(zserio::reflectable(a));
                       zserio::DepthWalkFilter depth(2);
                       zserio::ArrayLengthWalkFilter length(1);
                       zserio::AndWalkFilter::WalkFilters both = {depth, length};
                       zserio::AndWalkFilter filter(both);
                       zserio::Walker(o, filter).walk(zserio::reflectable(a));
                   }});
    ops.push_back({n + " walk by path", [s](Out& out) {
                       const T& a = s->a;
                       Observer o(out);
                       zserio::RegexWalkFilter filter("(nested|text|value)[A-Za-z]*(\\[[0-9]+\\])?.*");
                       zserio::Walker(o, filter).walk(zserio::reflectable(a));
                   }});
    ops.push_back({n + " any", [s](Out& out) {
                       const zserio::Any c(s->any);
                       out.u(c.template get<T>() == s->a);
                       out.u(s->any.hasValue() + 2 * s->any.template isType<T>() + 4 * s->any.template isType<int>());
                       const zserio::Any& shared = s->any;
                       out.u(shared.template get<int>());
                   }});
    ops.push_back({n + " no such field", [s](Out& out) {
                       const T& a = s->a;
                       out.u(zserio::reflectable(a)->getField("missing") != nullptr);
                   }});
    ops.push_back({n + " wrong kind of value", [s](Out& out) {
                       const T& a = s->a;
                       out.u(zserio::reflectable(a)->getUInt8());
                   }});
    if constexpr (!IsParametrised<T>::value)
    {
        ops.push_back({n + " serialize", [s](Out& out) {
                           out.b(zserio::serialize(s->a));
                       }});
        ops.push_back({n + " serialize view to bytes", [s](Out& out) {
                           const zserio::View<T> v(s->a);
                           out.b(zserio::serializeToBytes(v));
                       }});
        ops.push_back({n + " serialize data view", [s](Out& out) {
                           out.b(zserio::serialize(*s->dataView));
                       }});
        ops.push_back({n + " copy data view", [s](Out& out) {
                           const zserio::DataView<T> c(*s->dataView);
                           out.u(c == *s->dataView);
                           out.b(zserio::serialize(c));
                       }});
        ops.push_back({n + " validate and measure", [s](Out& out) {
                           const zserio::View<T> v(s->a);
                           zserio::detail::validate(v, "object");
                           out.u(zserio::detail::bitSizeOf(v, 3));
                       }});
        ops.push_back({n + " compare views", [s](Out& out) {
                           const zserio::View<T> v(s->a);
                           const zserio::View<T> w(s->b);
                           out.u((v == w) + 2 * (v < w) + 4 * (w < v));
                           out.u(std::hash<zserio::View<T>>()(v));
                       }});
        ops.push_back({n + " deserialize", [s](Out& out) {
                           T d;
                           const auto v = zserio::deserialize(s->bits, d);
                           out.u((d == s->a) + 2 * (v == zserio::View<T>(s->a)));
                       }});
        ops.push_back({n + " deserialize bytes", [s](Out& out) {
                           const auto v = zserio::deserializeFromBytes<T>(zserio::Span<const uint8_t>(s->bytes));
                           out.u(v == zserio::View<T>(s->a));
                           out.b(zserio::serialize(v));
                       }});
        ops.push_back({n + " deserialize a part", [s](Out& out) {
                           T d;
                           const size_t n = s->bits.getBitSize() / 2;
                           zserio::BitStreamReader reader(
                                   zserio::Span<const uint8_t>(s->bytes.data(), (n + 7) / 8), n);
                           zserio::detail::read(reader, d);
                           out.u(reader.getBitPosition());
                       }});
        ops.push_back({n + " write without room", [s](Out& out) {
                           const zserio::View<T> v(s->a);
                           std::vector<uint8_t> room(std::max<size_t>(s->bytes.size() / 2, 1));
                           zserio::BitStreamWriter writer(zserio::Span<uint8_t>(room.data(), room.size()));
                           zserio::detail::write(writer, v);
                           out.u(writer.getBitPosition());
                       }});
        ops.push_back({n + " introspect", [s](Out& out) {
                           const auto i = zserio::introspectable(zserio::View<T>(s->a));
                           look(out, *i, 6);
                           out.b(i->serialize());
                       }});
        ops.push_back({n + " parse", [s](Out& out) {
                           out.u(zserio::fromJsonString<T>(s->text) == s->a);
                       }});
        ops.push_back({n + " parse damaged text", [s](Out& out) {
                           std::string t = s->text;
                           t[t.size() / 2] = '}';
                           out.u(zserio::fromJsonString<T>(t) == s->a);
                       }});
        ops.push_back({n + " serialize a reflection", [s](Out& out) {
                           const T& a = s->a;
                           const auto r = zserio::reflectable(a);
                           look(out, *r, 2);
                           out.b(zserio::introspectable(zserio::View<T>(s->a))->serialize());
                       }});
    }
    if (s->reflection)
    {
        ops.push_back({n + " shared reflection", [s](Out& out) {
                           look(out, *s->reflection, 6);
                           out.u(s->reflection->find("text") != nullptr);
                           const zserio::IReflectableDataConstPtr copy = s->reflection;
                           out.u(copy->getTypeInfo().getFields().size());
                       }});
        ops.push_back({n + " dump a shared reflection", [s](Out& out) {
                           std::ostringstream stream;
                           zserio::JsonWriter writer(stream);
                           zserio::DefaultWalkFilter all;
                           zserio::Walker(writer, all).walk(s->reflection);
                           out.s(stream.str());
                       }});
        ops.push_back({n + " value of a shared reflection", [s](Out& out) {
                           const zserio::Any any = s->reflection->getAnyValue(std::allocator<uint8_t>());
                           out.u(any.get<std::reference_wrapper<const T>>().get() == s->a);
                       }});
    }
    if (s->introspection)
    {
        ops.push_back({n + " shared introspection", [s](Out& out) {
                           look(out, *s->introspection, 6);
                           out.b(s->introspection->serialize());
                       }});
    }
}

template <class T>
void objectOps(Ctx& ctx, Ops& ops, const char* name, bool shareReflections)
{
    auto s = std::make_shared<SharedObject<T>>();
    obj::GenOptions o;
    o.text = true;
    o.maxString = 12;
    o.maxArray = 2;
    o.bigSometimes = ctx.flip(1, 10);
    const auto a = Kind<T>::gen(ctx);
    Kind<T>::fill(s->a, a);
    Kind<T>::fill(s->b, ctx.flip(1, 2) ? a : Kind<T>::gen(ctx));
    if constexpr (!IsParametrised<T>::value)
    {
        s->bits = zserio::serialize(s->a);
        s->bytes.assign(s->bits.getData().begin(), s->bits.getData().end());
        s->dataView.emplace(T(s->a));
        s->text = zserio::toJsonString(s->a);
    }
    s->any = zserio::Any(s->a);
    if (shareReflections)
    {
        const T& c = s->a;
        s->reflection = zserio::reflectable(c);
        if constexpr (!IsParametrised<T>::value)
        {
            s->introspection = zserio::introspectable(zserio::View<T>(s->a));
        }
    }
    dataOps(ops, name, s);
}

// ---- plain values ----------------------------------------------------------------------------------------
using HeapHeld = std::array<uint64_t, 40>; // too big to be held in place

struct SharedValues
{
    zserio::BitBuffer buffer;
    zserio::BitBuffer other;
    zserio::Optional<zserio::String> optional;
    zserio::Optional<HeapHeld> heapOptional;
    zserio::Variant<size_t, zserio::String, zserio::UInt32, zserio::Bytes> variant{
            zserio::in_place_index<size_t(0)>, "a text which is too long to be held inside of the string"};
    zserio::Vector<zserio::UInt32> array;
    zserio::Vector<zserio::String> strings;
    zserio::Any any;
    uint64_t number = 0;
    double real = 0;
    std::unique_ptr<zserio::CppRuntimeException> error;
    std::exception_ptr thrown;
};

void valueOps(Ctx& ctx, Ops& ops)
{
    auto s = std::make_shared<SharedValues>();
    obj::GenOptions o;
    const obj::Extern e = obj::genExtern(ctx, o);
    const obj::Extern f = obj::genExtern(ctx, o);
    s->buffer = zserio::BitBuffer(zserio::Span<const uint8_t>(e.bytes.data(), e.bytes.size()), e.bits);
    s->other = zserio::BitBuffer(zserio::Span<const uint8_t>(f.bytes.data(), f.bytes.size()), f.bits);
    s->number = ctx.choose(0) >> ctx.choose(64);
    s->real = static_cast<double>(static_cast<int64_t>(ctx.choose(0))) / 1000.0;
    s->optional = zserio::String(std::to_string(s->number));
    s->heapOptional = HeapHeld{s->number, 2, 3};
    s->any = zserio::Any(zserio::String("a text which is too long to be held inside of the holder"));
    for (size_t n = ctx.choose(6); n > 0; --n)
    {
        s->array.push_back(static_cast<uint32_t>(ctx.choose(1000)));
        s->strings.push_back(zserio::String(std::to_string(n * s->number)));
    }
    s->error = std::make_unique<zserio::CppRuntimeException>("prepared error: ");
    *s->error << s->number << "!";
    try
    {
        throw zserio::ConstraintException("constraint of ") << s->number;
    }
    catch (...)
    {
        s->thrown = std::current_exception();
    }
    ops.push_back({"bit buffer copy and compare", [s](Out& out) {
                       const zserio::BitBuffer c(s->buffer);
                       out.u((c == s->buffer) + 2 * (s->buffer == s->other) + 4 * (s->buffer < s->other));
                       out.u(s->buffer.hashCode());
                       out.u(std::hash<zserio::BitBuffer>()(s->other));
                       out.b(s->buffer);
                   }});
    ops.push_back({"bit buffer read", [s](Out& out) {
                       zserio::BitStreamReader r(s->buffer);
                       while (r.getBitPosition() + 5 <= r.getBufferBitSize())
                       {
                           out.u(r.readUnsignedBits32(5));
                       }
                       out.u(r.readUnsignedBits64(64)); // too much
                   }});
    ops.push_back({"bit buffer written and read as a value", [s](Out& out) {
                       zserio::BitBuffer own(s->buffer.getBitSize() + 80);
                       zserio::BitStreamWriter w(own);
                       w.writeUnsignedBits32(5, 3);
                       w.writeBitBuffer(s->buffer);
                       out.b(own);
                       zserio::BitStreamReader r(own);
                       out.u(r.readUnsignedBits32(3));
                       const zserio::BitBuffer back = r.readBitBuffer<std::allocator<uint8_t>>();
                       out.u(back == s->buffer);
                   }});
    ops.push_back({"containers copy", [s](Out& out) {
                       const auto opt = s->optional;
                       const auto heap = s->heapOptional;
                       const auto var = s->variant;
                       const auto any = s->any;
                       out.s(*opt);
                       out.u((*heap)[0]);
                       out.s(var.get<0>());
                       out.s(any.get<zserio::String>());
                       out.u((opt == s->optional) + 2 * (heap == s->heapOptional) + 4 * (var == s->variant));
                       out.u(zserio::calcHashCode(zserio::HASH_SEED, opt));
                       out.u(zserio::calcHashCode(zserio::HASH_SEED, s->variant));
                   }});
    ops.push_back({"wrong variant alternative", [s](Out& out) {
                       out.u(s->variant.get<1>());
                   }});
    ops.push_back({"array view", [s](Out& out) {
                       uint32_t h = zserio::HASH_SEED;
                       for (const auto& v : s->array)
                       {
                           h = zserio::calcHashCode(h, v);
                       }
                       for (const auto& v : s->strings)
                       {
                           h = zserio::calcHashCode(h, v);
                       }
                       out.u(h);
                   }});
    ops.push_back({"number to text", [s](Out& out) {
                       std::array<char, 24> buffer{};
                       std::array<char, 24> fraction{};
                       out.s(zserio::convertIntToString(buffer, s->number));
                       out.s(zserio::convertIntToString(buffer, static_cast<int64_t>(s->number)));
                       const char* a = nullptr;
                       const char* b = nullptr;
                       zserio::convertFloatToString(buffer, fraction, static_cast<float>(s->real), a, b);
                       out.s(a);
                       out.s(b);
                       out.s(zserio::toString(s->number));
                   }});
    ops.push_back({"half precision", [s](Out& out) {
                       for (unsigned i = 0; i < 4; ++i)
                       {
                           const uint16_t half = static_cast<uint16_t>(s->number >> (16 * i));
                           const float value = zserio::convertUInt16ToFloat(half);
                           out.u(zserio::convertFloatToUInt16(value));
                           out.u(zserio::convertDoubleToUInt64(s->real));
                       }
                   }});
    ops.push_back({"bit fields and operators", [s](Out& out) {
                       const size_t n = 1 + s->number % 64;
                       out.u(zserio::getBitFieldUpperBound(n, false));
                       out.u(static_cast<uint64_t>(zserio::getBitFieldLowerBound(n, true)));
                       out.u(zserio::builtin::numBits(s->number));
                       out.u(zserio::alignTo(8, s->number % 1000));
                       out.u(zserio::getBitFieldUpperBound(65 + n, false)); // too many
                   }});
    ops.push_back({"enum and mask text", [s](Out& out) {
                       const auto e = zserio::valueToEnum<to::CreatorEnum>(static_cast<int8_t>(s->number % 2));
                       out.s(zserio::enumToString(e));
                       out.u(zserio::enumToOrdinal(e));
                       out.u(static_cast<uint64_t>(zserio::stringToEnum<to::CreatorEnum>("MinusOne")));
                       out.s(to::CreatorBitmask(static_cast<uint8_t>(s->number)).toString());
                       out.u(static_cast<uint64_t>(zserio::valueToEnum<to::CreatorEnum>(static_cast<int8_t>(99))));
                   }});
    ops.push_back({"report an error", [s](Out& out) {
                       zserio::CppRuntimeException e("thread reports: ");
                       e << s->number << ", " << s->real << ", " << std::string_view("part") << ", " << true;
                       out.s(e.what());
                       zserio::CppRuntimeException copy(e);
                       copy << " more";
                       out.s(copy.what());
                       out.s(e.what());
                       throw copy;
                   }});
    ops.push_back({"read a shared error", [s](Out& out) {
                       const zserio::CppRuntimeException copy(*s->error);
                       out.s(copy.what());
                       out.s(s->error->what());
                   }});
    ops.push_back({"rethrow a shared error", [s](Out& out) {
                       try
                       {
                           std::rethrow_exception(s->thrown);
                       }
                       catch (const zserio::ConstraintException& e)
                       {
                           const zserio::ConstraintException copy(e);
                           out.s(copy.what());
                       }
                   }});
    ops.push_back({"size conversion", [s](Out& out) {
                       out.u(zserio::convertSizeToUInt32(static_cast<size_t>(s->number >> 33U)));
                       out.u(zserio::convertSizeToUInt32(static_cast<size_t>(s->number)));
                   }});
}

// ---- fields of every type --------------------------------------------------------------------------------
Shared* g_cloneShared = nullptr;

std::unique_ptr<Field> clone(const fields::Factory& factory, const uint64_t* tape, size_t n)
{
    Ctx ctx;
    ctx.sh = g_cloneShared;
    ctx.replay = true;
    ctx.inTape = tape;
    ctx.inTapeLen = n;
    auto f = factory(ctx);
    f->gen(ctx);
    return f;
}

// operations on shared fields come in two kinds: on the shared value, and reading shared bits into an own destination
void fieldOps(Ctx& ctx, std::vector<Ops>& perThread)
{
    const auto& factory = g_plain[ctx.choose(g_plain.size())];
    const size_t start = ctx.pos;
    std::shared_ptr<Field> shared = factory(ctx);
    shared->gen(ctx);
    const size_t end = ctx.pos;
    if (end > MAX_TAPE)
    {
        return;
    }
    const std::vector<uint64_t> tape(ctx.sh->tape + start, ctx.sh->tape + end);
    ctx.log("field %s, %zu elements", shared->name.c_str(), shared->count());
    const size_t size = shared->initOffsets(0);
    auto bits = std::make_shared<zserio::BitBuffer>(size);
    {
        zserio::BitStreamWriter w(*bits);
        shared->write(w);
    }
    for (auto& ops : perThread)
    {
        ops.push_back({"field write " + shared->name, [shared, size](Out& out) {
                           shared->validate();
                           out.u(shared->bitSizeOf(0));
                           zserio::BitBuffer own(size);
                           zserio::BitStreamWriter w(own);
                           shared->write(w);
                           out.b(own);
                       }});
        std::shared_ptr<Field> mine = clone(factory, tape.data(), tape.size());
        mine->initOffsets(0);
        ops.push_back({"field read " + shared->name, [mine, bits](Out& out) {
                           mine->scribble();
                           zserio::BitStreamReader r(*bits);
                           mine->read(r);
                           out.u(r.getBitPosition());
                           out.u(mine->same());
                       }});
        ops.push_back({"field read a part of " + shared->name, [mine, bits](Out& out) {
                           const size_t n = bits->getBitSize() / 2;
                           zserio::BitStreamReader r(bits->getData(), n);
                           mine->read(r);
                           out.u(r.getBitPosition());
                       }});
    }
}

// ---- scenarios -------------------------------------------------------------------------------------------
void execute(Ctx& ctx, const std::vector<Ops>& choices, bool forget)
{
    // what each thread does
    const size_t threads = choices.size();
    std::vector<std::vector<const Op*>> plan(threads);
    const size_t favourite = ctx.choose(choices[0].size());
    for (size_t t = 0; t < threads; ++t)
    {
        const size_t n = 1 + ctx.choose(5);
        for (size_t i = 0; i < n; ++i)
        {
            const size_t which = ctx.flip(1, 2) ? favourite : ctx.choose(choices[t].size());
            plan[t].push_back(&choices[t][which]);
        }
    }
    std::vector<std::vector<uint64_t>> want(threads);
    std::vector<std::vector<uint64_t>> got(threads);
    const auto alone = [&] {
        for (size_t t = 0; t < threads; ++t)
        {
            for (const Op* op : plan[t])
            {
                want[t].push_back(runOp(*op));
            }
        }
    };
    for (size_t t = 0; t < threads; ++t)
    {
        for (const Op* op : plan[t])
        {
            ctx.log("thread %zu: %s", t, op->name.c_str());
            ctx.shape(std::hash<std::string>()(op->name));
        }
        got[t].resize(plan[t].size());
    }
    if (!forget)
    {
        alone();
    }
    else
    {
        simthread::forgetStatics();
        ctx.log("statics are uninitialised again");
        SIM_COUNT("fault.first-use");
    }
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < threads; ++t)
    {
        bodies.push_back([&plan, &got, t] {
            for (size_t i = 0; i < plan[t].size(); ++i)
            {
                got[t][i] = runOp(*plan[t][i]);
            }
        });
    }
    static const unsigned SWITCHES[] = {20, 4, 100, 400};
    simthread::run(ctx, bodies, SWITCHES[ctx.choose(4)]);
    const auto& s = simthread::g_stats;
    ctx.log("%llu scheduling points, %llu preemptions, %llu waits, %llu statics initialised",
            static_cast<unsigned long long>(s.points), static_cast<unsigned long long>(s.switches),
            static_cast<unsigned long long>(s.blocked), static_cast<unsigned long long>(s.initialised));
    SIM_COUNT_N("fault.preemption", s.switches);
    SIM_COUNT_N("fault.waits-for-initialisation", s.blocked);
    SIM_COUNT_N("check.accesses", s.accesses);
    SIM_COUNT_N("check.statics-initialised-concurrently", s.initialised);
    ctx.shape(s.interleaving);
    ctx.nontrivial = s.switches != 0;
    if (forget)
    {
        alone(); // nothing the threads did was prepared by it
    }
    for (size_t t = 0; t < threads; ++t)
    {
        for (size_t i = 0; i < got[t].size(); ++i)
        {
            ctx.state(std::hash<std::string>()(plan[t][i]->name) + (forget ? 1 : 0));
            if (got[t][i] != want[t][i])
            {
                ctx.fail("different-result", "thread %zu: %s had another result than alone", t, plan[t][i]->name.c_str());
            }
        }
    }
}

template <typename F>
void withStatics(const F& f)
{
    struct Restore
    {
        ~Restore()
        {
            simthread::setPinned(true);
        }
    } restore;
    simthread::setPinned(false);
    f();
}

void objects(Ctx& ctx)
{
    const size_t threads = 2 + ctx.choose(3);
    const bool forget = ctx.flip(1, 2);
    withStatics([&] {
        Ops ops;
        switch (ctx.choose(5))
        {
        case 0:
            objectOps<to::CreatorObject>(ctx, ops, "Creator", !forget);
            break;
        case 1:
            objectOps<to::WalkerObject>(ctx, ops, "Walker", !forget);
            break;
        case 2:
            objectOps<to::ReflectableObject>(ctx, ops, "Reflectable", !forget);
            break;
        case 3:
            objectOps<to::WalkerUnion>(ctx, ops, "Union", !forget);
            break;
        default:
            objectOps<to::CreatorNested>(ctx, ops, "Nested", !forget);
            break;
        }
        execute(ctx, std::vector<Ops>(threads, ops), forget);
    });
}

void values(Ctx& ctx)
{
    const size_t threads = 2 + ctx.choose(3);
    const bool forget = ctx.flip(1, 2);
    withStatics([&] {
        Ops ops;
        valueOps(ctx, ops);
        execute(ctx, std::vector<Ops>(threads, ops), forget);
    });
}

void typeInformation(Ctx& ctx)
{
    const size_t threads = 2 + ctx.choose(3);
    withStatics([&] {
        Ops ops;
        typeOps<to::CreatorObject>(ops, "Creator");
        typeOps<to::WalkerObject>(ops, "Walker");
        typeOps<to::ReflectableObject>(ops, "Reflectable");
        typeOps<to::ReflectableUtilObject>(ops, "ReflectableUtil");
        typeOps<to::ReflectableUtilUnion>(ops, "ReflectableUtilUnion");
        typeOps<to::DebugStringParamObject>(ops, "DebugStringParam");
        builtinOps(ops);
        execute(ctx, std::vector<Ops>(threads, ops), true);
    });
}

void fieldTypes(Ctx& ctx)
{
    const size_t threads = 2 + ctx.choose(3);
    withStatics([&] {
        std::vector<Ops> ops(threads);
        for (size_t n = 1 + ctx.choose(3); n > 0; --n)
        {
            fieldOps(ctx, ops);
        }
        execute(ctx, ops, ctx.flip(1, 2));
    });
}

} // namespace

namespace sim
{
const std::vector<Scenario>& scenarios()
{
    static const std::vector<Scenario> s = {
            {"objects", 6, objects}, {"values", 2, values}, {"type-information", 2, typeInformation}, {"fields", 3, fieldTypes}};
    return s;
}
void warmup()
{
    g_cloneShared = new Shared();
    // std::ctype<char> remembers every narrowed character (a benign race of the standard library, not of zserio)
    const auto& characters = std::use_facet<std::ctype<char>>(std::locale());
    for (int c = 0; c < 256; ++c)
    {
        (void)characters.narrow(static_cast<char>(c), ' ');
        (void)characters.widen(static_cast<char>(c));
    }
    registerFields();
}
} // namespace sim
