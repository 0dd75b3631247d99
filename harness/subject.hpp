// A typed object under test behind a uniform interface: its model (tree::Node), its type information and reflections.
#pragma once

#include "sink.hpp"

#include <zserio/Any.h>

#include <functional>
#include <memory>

namespace subject
{

struct Subject
{
    virtual ~Subject() = default;
    virtual const char* name() const = 0;
    virtual const tree::Type& type() const = 0;
    virtual const zserio::ITypeInfo& info() const = 0;
    virtual void set(const tree::Node& n) = 0; // the typed object takes the value
    virtual tree::Node get() const = 0;
    virtual zserio::IReflectableDataConstPtr constant() const = 0; // reflections of the typed object
    virtual zserio::IReflectableDataPtr mutableOne() = 0;
    virtual zserio::IReflectableDataConstPtr readOnly() const // refuses to change anything
    {
        return constant();
    }
    // an instance which owns its object hands it out for changing in any case (unit test reflectableOwner)
    virtual bool owns() const
    {
        return false;
    }
    // the typed object behind a reflection made elsewhere (by the reader, the builder)
    virtual tree::Node of(zserio::IReflectableData& r) const = 0;
#ifdef SUBJECT_JSON // the public entry points, defined by who wants them
    virtual void toStream(std::ostream& out, int indent) const = 0;
    virtual std::string toText(int indent) const = 0;
    virtual tree::Node fromStream(std::istream& in) const = 0;
#endif
};

template <class T>
struct SubjectOf : Subject
{
    T object;
    const char* name() const override
    {
        return tree::Bind<T>::type().name;
    }
    const tree::Type& type() const override
    {
        return tree::Bind<T>::type();
    }
    const zserio::ITypeInfo& info() const override
    {
        return zserio::typeInfo<T>();
    }
    void set(const tree::Node& n) override
    {
        tree::Bind<T>::from(object, n);
    }
    tree::Node get() const override
    {
        return tree::Bind<T>::to(object);
    }
    zserio::IReflectableDataConstPtr constant() const override
    {
        const T& o = object;
        return zserio::reflectable(o);
    }
    zserio::IReflectableDataPtr mutableOne() override
    {
        return zserio::reflectable(object);
    }
    tree::Node of(zserio::IReflectableData& r) const override
    {
        zserio::Any any = r.getAnyValue(std::allocator<uint8_t>());
        return tree::Bind<T>::to(any.get<std::reference_wrapper<T>>().get());
    }
#ifdef SUBJECT_JSON
    void toStream(std::ostream& out, int indent) const override;
    std::string toText(int indent) const override;
    tree::Node fromStream(std::istream& in) const override;
#endif
};

// the object inside an instance made by its type information: that is its reflection
template <class T>
struct OwnedSubjectOf : SubjectOf<T>
{
    zserio::IReflectableDataPtr owner = zserio::typeInfo<T>().createInstance(std::allocator<uint8_t>());
    bool owns() const override
    {
        return true;
    }
    T& owned = owner->getAnyValue(std::allocator<uint8_t>()).template get<std::reference_wrapper<T>>().get();
    void set(const tree::Node& n) override
    {
        tree::Bind<T>::from(owned, n);
    }
    tree::Node get() const override
    {
        return tree::Bind<T>::to(owned);
    }
    zserio::IReflectableDataConstPtr constant() const override
    {
        return owner;
    }
    zserio::IReflectableDataPtr mutableOne() override
    {
        return owner;
    }
    zserio::IReflectableDataConstPtr readOnly() const override
    {
        const T& o = owned;
        return zserio::reflectable(o);
    }
};

using Make = std::unique_ptr<Subject> (*)();
template <class T>
std::unique_ptr<Subject> make()
{
    return std::make_unique<SubjectOf<T>>();
}
template <class T>
std::unique_ptr<Subject> makeOwned()
{
    return std::make_unique<OwnedSubjectOf<T>>();
}

} // namespace subject
