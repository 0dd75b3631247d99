// Hand-written classes in the shape of generated code (std allocator), with a field of every kind the runtime knows:
// the pre-generated test schema covers only some of them. Also the tree bindings of the generated test objects.
#pragma once

#include "tree.hpp"

#include <test_object/std_allocator/CreatorObject.h>
#include <test_object/std_allocator/CreatorUnsignedEnum.h>
#include <test_object/std_allocator/ReflectableObject.h>
#include <test_object/std_allocator/WalkerBitmask.h>
#include <test_object/std_allocator/WalkerObject.h>

#include <zserio/ReflectableData.h>
#include <zserio/ReflectableUtil.h>
#include <zserio/TypeInfo.h>

namespace sink
{

namespace to = test_object::std_allocator;
using Alloc = std::allocator<uint8_t>;

struct Inner
{
    using allocator_type = Alloc;
    Inner() :
            Inner(Alloc())
    {}
    explicit Inner(const Alloc&)
    {}
    Inner(const Inner& other, const Alloc&) :
            Inner(other)
    {}
    Inner(Inner&& other, const Alloc&) :
            Inner(std::move(other))
    {}
    Inner(const Inner&) = default;
    Inner(Inner&&) = default;
    Inner& operator=(const Inner&) = default;
    Inner& operator=(Inner&&) = default;
    ~Inner() = default;
    zserio::UInt16 num{};
    zserio::String text;
    zserio::Optional<zserio::Int8> oi;
    zserio::Vector<zserio::Bytes> blobs;
    zserio::BitBuffer bits;
    to::CreatorEnum en{};
    to::CreatorBitmask mask;
};

#define SINK_FIELDS(X) \
    X(b, zserio::Bool) \
    X(i5, zserio::Int5) \
    X(i8, zserio::Int8) \
    X(i16, zserio::Int16) \
    X(i32, zserio::Int32) \
    X(i64, zserio::Int64) \
    X(u3, zserio::UInt3) \
    X(u8, zserio::UInt8) \
    X(u16, zserio::UInt16) \
    X(u31, zserio::UInt31) \
    X(u32, zserio::UInt32) \
    X(u64, zserio::UInt64) \
    X(dyn16, zserio::DynUInt16) \
    X(dyn64, zserio::DynInt64) \
    X(v16, zserio::VarInt16) \
    X(v32, zserio::VarInt32) \
    X(v64, zserio::VarInt64) \
    X(v, zserio::VarInt) \
    X(vu16, zserio::VarUInt16) \
    X(vu32, zserio::VarUInt32) \
    X(vu64, zserio::VarUInt64) \
    X(vu, zserio::VarUInt) \
    X(vs, zserio::VarSize) \
    X(f16, zserio::Float16) \
    X(f32, zserio::Float32) \
    X(f64, zserio::Float64) \
    X(str, zserio::String) \
    X(bytes, zserio::Bytes) \
    X(bits, zserio::BitBuffer) \
    X(en, sink::to::CreatorEnum) \
    X(uen, sink::to::CreatorUnsignedEnum) \
    X(mask, sink::to::CreatorBitmask) \
    X(wmask, sink::to::WalkerBitmask) \
    X(inner, sink::Inner) \
    X(un, sink::to::WalkerUnion) \
    X(ch, sink::to::WalkerChoice) \
    X(ob, zserio::Optional<zserio::Bool>) \
    X(oi64, zserio::Optional<zserio::Int64>) \
    X(ou8, zserio::Optional<zserio::UInt8>) \
    X(of64, zserio::Optional<zserio::Float64>) \
    X(ostr, zserio::Optional<zserio::String>) \
    X(obytes, zserio::Optional<zserio::Bytes>) \
    X(obits, zserio::Optional<zserio::BitBuffer>) \
    X(oen, zserio::Optional<sink::to::CreatorEnum>) \
    X(omask, zserio::Optional<sink::to::CreatorBitmask>) \
    X(oinner, zserio::Optional<sink::Inner>) \
    X(oun, zserio::Optional<sink::to::WalkerUnion>) \
    X(ab, zserio::Vector<zserio::Bool>) \
    X(ai8, zserio::Vector<zserio::Int8>) \
    X(ai64, zserio::Vector<zserio::Int64>) \
    X(au16, zserio::Vector<zserio::UInt16>) \
    X(au64, zserio::Vector<zserio::UInt64>) \
    X(avs, zserio::Vector<zserio::VarSize>) \
    X(adyn, zserio::Vector<zserio::DynInt16>) \
    X(af32, zserio::Vector<zserio::Float32>) \
    X(af64, zserio::Vector<zserio::Float64>) \
    X(astr, zserio::Vector<zserio::String>) \
    X(abytes, zserio::Vector<zserio::Bytes>) \
    X(abits, zserio::Vector<zserio::BitBuffer>) \
    X(aen, zserio::Vector<sink::to::CreatorUnsignedEnum>) \
    X(amask, zserio::Vector<sink::to::CreatorBitmask>) \
    X(ainner, zserio::Vector<sink::Inner>) \
    X(aun, zserio::Vector<sink::to::WalkerUnion>) \
    X(oai32, zserio::Optional<zserio::Vector<zserio::Int32>>) \
    X(oastr, zserio::Optional<zserio::Vector<zserio::String>>) \
    X(oaf16, zserio::Optional<zserio::Vector<zserio::Float16>>) \
    X(oainner, zserio::Optional<zserio::Vector<sink::Inner>>)

#define SINK_COUNT(name, ...) +1
static constexpr size_t SINK_NUM_FIELDS = 0 SINK_FIELDS(SINK_COUNT);

struct Sink
{
    using allocator_type = Alloc;
    Sink() :
            Sink(Alloc())
    {}
    explicit Sink(const Alloc&)
    {}
#define SINK_MEMBER(name, ...) __VA_ARGS__ name{};
    SINK_FIELDS(SINK_MEMBER)
#undef SINK_MEMBER
};

} // namespace sink

namespace zserio
{
template <>
class View<sink::Inner>
{
public:
    explicit View(const sink::Inner&)
    {}
};
template <>
class View<sink::Sink>
{
public:
    explicit View(const sink::Sink&)
    {}
};
} // namespace zserio

// ---- tree bindings -------------------------------------------------------------------------------------

template <>
struct tree::EnumItems<sink::to::CreatorEnum>
{
    static std::vector<Item> get()
    {
        return {{"ONE", 0}, {"TWO", 1}, {"MinusOne", UINT64_MAX}};
    }
};
template <>
struct tree::EnumItems<sink::to::CreatorUnsignedEnum>
{
    static std::vector<Item> get()
    {
        return {{"ONE", 0}, {"TWO", 1}};
    }
};
template <>
struct tree::EnumItems<sink::to::ReflectableEnum>
{
    static std::vector<Item> get()
    {
        return {{"VALUE1", UINT64_MAX}, {"VALUE2", 0}, {"VALUE3", 1}};
    }
};
template <>
struct tree::MaskItems<sink::to::CreatorBitmask>
{
    static std::vector<Item> get()
    {
        return {{"READ", 1}, {"WRITE", 2}};
    }
};
template <>
struct tree::MaskItems<sink::to::WalkerBitmask>
{
    static std::vector<Item> get()
    {
        return {{"ZERO", 1}};
    }
};

TREE_STRUCT(sink::to::CreatorNested, "CreatorNested", 6, value, text, externData, bytesData, creatorEnum, creatorBitmask)
TREE_STRUCT(sink::to::CreatorObject, "CreatorObject", 9, value, nested, text, nestedArray, textArray, externArray,
        bytesArray, optionalBool, optionalNested)
TREE_STRUCT(sink::to::WalkerNested, "WalkerNested", 1, text)
TREE_CHOICE(sink::to::WalkerUnion, "WalkerUnion", tree::UNION, 3, value, text, nestedArray)
TREE_CHOICE(sink::to::WalkerChoice, "WalkerChoice", tree::CHOICE, 4, value8, value16, value32, value64)
TREE_STRUCT(sink::to::WalkerObject, "WalkerObject", 7, identifier, nested, text, unionArray, optionalUnionArray,
        choiceSelector, choiceField)
TREE_STRUCT(sink::to::ReflectableNested, "ReflectableNested", 1, value)
TREE_CHOICE(sink::to::ReflectableChoice, "ReflectableChoice", tree::CHOICE, 2, valueStr, value32)
TREE_CHOICE(sink::to::ReflectableUnion, "ReflectableUnion", tree::UNION, 2, value32, valueStr)
TREE_STRUCT(sink::to::ReflectableObject, "ReflectableObject", 5, stringField, reflectableNested, reflectableEnum,
        reflectableChoice, reflectableUnion)
TREE_STRUCT(sink::Inner, "Inner", 7, num, text, oi, blobs, bits, en, mask)
template <>
struct tree::Fields<sink::Sink>
{
    static constexpr bool STRUCTURE = true;
    static constexpr const char* NAME = "Sink";
    template <class F>
    static void each(F fn)
    {
#define SINK_EACH(name, ...) fn(#name, &sink::Sink::name);
        SINK_FIELDS(SINK_EACH)
#undef SINK_EACH
    }
};

// ---- type information and reflection in the shape of generated code ------------------------------------

namespace sink
{

template <class M>
zserio::BasicFieldInfo<Alloc> fieldInfo(const char* name)
{
    using I = tree::Member<M>;
    return zserio::BasicFieldInfo<Alloc>{name, zserio::typeInfo<typename I::E, Alloc>(), {}, false, {}, {}, {},
            I::optional, {}, {}, I::array, {}, false, false};
}

template <class R, class M>
R reflectMember(M& m, const Alloc& a)
{
    using I = tree::Member<std::remove_const_t<M>>;
    if constexpr (I::optional)
    {
        if (!m.has_value())
        {
            return nullptr;
        }
        return reflectMember<R>(*m, a);
    }
    else if constexpr (I::array)
    {
        return zserio::reflectableArray(m, a);
    }
    else
    {
        return zserio::reflectable(m, a);
    }
}

template <class T>
class ConstImpl : public zserio::detail::ReflectableDataConstAllocatorHolderBase<Alloc>
{
public:
    using Base = zserio::detail::ReflectableDataConstAllocatorHolderBase<Alloc>;
    using Base::getAnyValue;
    using Base::getField;

    explicit ConstImpl(const T& object, const Alloc& alloc = {}) :
            Base(zserio::typeInfo<T>(), alloc),
            m_object(object)
    {}

    zserio::IReflectableDataConstPtr getField(std::string_view name) const override
    {
        zserio::IReflectableDataConstPtr r;
        bool found = false;
        tree::Fields<T>::each([&](const char* n, auto ptr) {
            if (!found && name == n)
            {
                found = true;
                r = reflectMember<zserio::IReflectableDataConstPtr>(m_object.*ptr, get_allocator());
            }
        });
        if (!found)
        {
            throw zserio::CppRuntimeException("Field '") << name << "' doesn't exist in '" << tree::Fields<T>::NAME << "'!";
        }
        return r;
    }
    zserio::Any getAnyValue(const Alloc& alloc) const override
    {
        return zserio::Any(std::cref(m_object), alloc);
    }

private:
    const T& m_object;
};

template <class T>
class Impl : public zserio::detail::ReflectableDataAllocatorHolderBase<Alloc>
{
public:
    using Base = zserio::detail::ReflectableDataAllocatorHolderBase<Alloc>;
    using Base::getAnyValue;
    using Base::getField;

    explicit Impl(T& object, const Alloc& alloc = {}) :
            Base(zserio::typeInfo<T>(), alloc),
            m_object(object)
    {}

    zserio::IReflectableDataConstPtr getField(std::string_view name) const override
    {
        zserio::IReflectableDataConstPtr r;
        with(name, [&](auto& m) {
            r = reflectMember<zserio::IReflectableDataConstPtr>(m, get_allocator());
        });
        return r;
    }
    zserio::IReflectableDataPtr getField(std::string_view name) override
    {
        zserio::IReflectableDataPtr r;
        with(name, [&](auto& m) {
            r = reflectMember<zserio::IReflectableDataPtr>(m, get_allocator());
        });
        return r;
    }
    void setField(std::string_view name, const zserio::Any& value) override
    {
        with(name, [&](auto& m) {
            using M = std::decay_t<decltype(m)>;
            if constexpr (tree::Member<M>::optional)
            {
                if (value.isType<std::nullptr_t>())
                {
                    m.reset();
                    return;
                }
                m = zserio::ReflectableUtil::fromAny<std::decay_t<decltype(*m)>>(value);
            }
            else
            {
                m = zserio::ReflectableUtil::fromAny<M>(value);
            }
        });
    }
    zserio::IReflectableDataPtr createField(std::string_view name) override
    {
        zserio::IReflectableDataPtr r;
        with(name, [&](auto& m) {
            using M = std::decay_t<decltype(m)>;
            if constexpr (tree::Member<M>::optional)
            {
                m = std::decay_t<decltype(*m)>();
            }
            else
            {
                m = M();
            }
            r = reflectMember<zserio::IReflectableDataPtr>(m, get_allocator());
        });
        return r;
    }
    zserio::Any getAnyValue(const Alloc& alloc) const override
    {
        return zserio::Any(std::cref(m_object), alloc);
    }
    zserio::Any getAnyValue(const Alloc& alloc) override
    {
        return zserio::Any(std::ref(m_object), alloc);
    }

private:
    template <class F>
    void with(std::string_view name, F f) const
    {
        bool found = false;
        tree::Fields<T>::each([&](const char* n, auto ptr) {
            if (!found && name == n)
            {
                found = true;
                f(m_object.*ptr);
            }
        });
        if (!found)
        {
            throw zserio::CppRuntimeException("Field '") << name << "' doesn't exist in '" << tree::Fields<T>::NAME << "'!";
        }
    }
    T& m_object;
};

template <class T>
struct IsSink : std::bool_constant<std::is_same_v<T, Sink> || std::is_same_v<T, Inner>>
{};

template <class T, size_t N, class MakeFields>
const zserio::ITypeInfo& makeTypeInfo(const char* name, MakeFields makeFields)
{
    static const std::string_view templateName;
    static const zserio::Span<zserio::BasicTemplateArgumentInfo<Alloc>> templateArguments;
    static const std::array<zserio::BasicFieldInfo<Alloc>, N> fields = makeFields();
    static const zserio::Span<zserio::BasicParameterInfo<Alloc>> parameters;
    static const zserio::Span<zserio::BasicFunctionInfo<Alloc>> functions;
    static const zserio::detail::StructTypeInfo<Alloc> info = {name,
            [](const Alloc& allocator) -> zserio::IReflectableDataPtr {
                return std::allocate_shared<zserio::detail::ReflectableDataOwner<T>>(allocator);
            },
            templateName, templateArguments, fields, parameters, functions};
    return info;
}

} // namespace sink

namespace zserio::detail
{

template <>
struct Reflectable<sink::Inner, sink::Alloc>
{
    static IReflectableDataConstPtr create(const sink::Inner& value, const sink::Alloc& allocator)
    {
        return std::allocate_shared<sink::ConstImpl<sink::Inner>>(allocator, value);
    }
    static IReflectableDataPtr create(sink::Inner& value, const sink::Alloc& allocator)
    {
        return std::allocate_shared<sink::Impl<sink::Inner>>(allocator, value);
    }
};
template <>
struct TypeInfo<sink::Inner, sink::Alloc>
{
    static const ITypeInfo& get()
    {
        return sink::makeTypeInfo<sink::Inner, 7>("sink.Inner", [] {
            using I = sink::Inner;
            return std::array<BasicFieldInfo<sink::Alloc>, 7>{sink::fieldInfo<decltype(I::num)>("num"),
                    sink::fieldInfo<decltype(I::text)>("text"), sink::fieldInfo<decltype(I::oi)>("oi"),
                    sink::fieldInfo<decltype(I::blobs)>("blobs"), sink::fieldInfo<decltype(I::bits)>("bits"),
                    sink::fieldInfo<decltype(I::en)>("en"), sink::fieldInfo<decltype(I::mask)>("mask")};
        });
    }
};
template <>
struct Reflectable<sink::Sink, sink::Alloc>
{
    static IReflectableDataConstPtr create(const sink::Sink& value, const sink::Alloc& allocator)
    {
        return std::allocate_shared<sink::ConstImpl<sink::Sink>>(allocator, value);
    }
    static IReflectableDataPtr create(sink::Sink& value, const sink::Alloc& allocator)
    {
        return std::allocate_shared<sink::Impl<sink::Sink>>(allocator, value);
    }
};
template <>
struct TypeInfo<sink::Sink, sink::Alloc>
{
    static const ITypeInfo& get()
    {
        return sink::makeTypeInfo<sink::Sink, sink::SINK_NUM_FIELDS>("sink.Sink", [] {
            return std::array<BasicFieldInfo<sink::Alloc>, sink::SINK_NUM_FIELDS>{
#define SINK_INFO(name, ...) sink::fieldInfo<__VA_ARGS__>(#name),
                    SINK_FIELDS(SINK_INFO)
#undef SINK_INFO
            };
        });
    }
};

} // namespace zserio::detail
