// What a reflection says: the model tree read through the dynamic interface only.
#pragma once

#include "tree.hpp"

#include <zserio/IReflectableData.h>
#include <zserio/TypeInfoUtil.h>

#include <stdexcept>

namespace tree
{

using ConstRef = zserio::IReflectableDataConstPtr;

template <class R>
uint64_t readInteger(const Type& t, const R& r)
{
    if (t.kind == BOOL)
    {
        return r.getBool() ? 1 : 0;
    }
    const bool isSigned = t.kind == INT || ((t.kind == ENUM || t.kind == MASK) && t.isSigned);
    switch (t.bits)
    {
    case 8:
        return isSigned ? static_cast<uint64_t>(static_cast<int64_t>(r.getInt8())) : r.getUInt8();
    case 16:
        return isSigned ? static_cast<uint64_t>(static_cast<int64_t>(r.getInt16())) : r.getUInt16();
    case 32:
        return isSigned ? static_cast<uint64_t>(static_cast<int64_t>(r.getInt32())) : r.getUInt32();
    default:
        return isSigned ? static_cast<uint64_t>(r.getInt64()) : r.getUInt64();
    }
}

// a value or a compound (not an array); R is IReflectableData or IIntrospectableView
template <class R>
Node readReflection(const Type& t, const R& r);

template <class P>
Slot readSlot(const Field& f, const P& r)
{
    Slot s;
    if (!r)
    {
        return s;
    }
    s.present = true;
    if (f.array)
    {
        if (!r->isArray())
        {
            throw std::runtime_error(std::string("the field is not an array: ") + f.name);
        }
        for (size_t i = 0; i < r->size(); ++i)
        {
            const auto e = std::as_const(*r).at(i);
            s.nodes.push_back(readReflection(*f.type, *e));
        }
    }
    else
    {
        s.nodes.push_back(readReflection(*f.type, *r));
    }
    return s;
}

template <class R>
Node readReflection(const Type& t, const R& r)
{
    Node n;
    n.type = &t;
    n.slots.resize(t.fields.size());
    switch (t.kind)
    {
    case FLT:
        n.d = static_cast<double>(r.getFloat());
        break;
    case DBL:
        n.d = r.getDouble();
        break;
    case STR:
    {
        const std::string_view v = r.getStringView();
        n.s.assign(v.data(), v.size());
        break;
    }
    case BYTES:
    {
        const auto v = r.getBytes();
        n.bytes.assign(v.begin(), v.end());
        break;
    }
    case BITS:
        n = Bind<zserio::BitBuffer>::to(r.getBitBuffer());
        break;
    case STRUCT:
        for (size_t i = 0; i < t.fields.size(); ++i)
        {
            n.slots[i] = readSlot(t.fields[i], r.getField(t.fields[i].name));
        }
        break;
    case CHOICE:
    case UNION:
    {
        const std::string_view c = r.getChoice();
        if (!c.empty())
        {
            n.choice = t.find(c);
            if (n.choice < 0)
            {
                throw std::runtime_error("unknown choice " + std::string(c));
            }
            n.slots[static_cast<size_t>(n.choice)] = readSlot(t.fields[static_cast<size_t>(n.choice)], r.getField(c));
        }
        break;
    }
    default:
        n.u = readInteger(t, r);
        break;
    }
    return n;
}

} // namespace tree
