// Model of the schema test_object.zs (the only generated code available in the repository): plain values, an
// independent encoder, generators, and conversion from and to the generated classes of each allocator flavour.
#pragma once

#include "bits.hpp"
#include "sim.hpp"

#include <zserio/BitBuffer.h>
#include <zserio/Span.h>
#include <zserio/Types.h>

#include <optional>
#include <string>
#include <vector>

namespace obj
{

using model::Bits;

struct Extern
{
    std::vector<uint8_t> bytes;
    size_t bits = 0;
    bool operator==(const Extern& o) const
    {
        return bits == o.bits && bytes == o.bytes;
    }
};

struct Nested
{
    uint32_t value = 0;
    std::string text;
    Extern ext;
    std::vector<uint8_t> bytes;
    int8_t creatorEnum = 0; // 0, 1, -1
    uint8_t creatorBitmask = 0;
    bool operator==(const Nested& o) const
    {
        return value == o.value && text == o.text && ext == o.ext && bytes == o.bytes &&
                creatorEnum == o.creatorEnum && creatorBitmask == o.creatorBitmask;
    }
};

struct Creator
{
    uint32_t value = 0;
    Nested nested;
    std::string text;
    std::vector<Nested> nestedArray;
    std::vector<std::string> textArray;
    std::optional<std::vector<Extern>> externArray;
    std::optional<std::vector<std::vector<uint8_t>>> bytesArray;
    std::optional<bool> optionalBool;
    std::optional<Nested> optionalNested;
    bool operator==(const Creator& o) const
    {
        return value == o.value && nested == o.nested && text == o.text && nestedArray == o.nestedArray &&
                textArray == o.textArray && externArray == o.externArray && bytesArray == o.bytesArray &&
                optionalBool == o.optionalBool && optionalNested == o.optionalNested;
    }
};

struct Union
{
    size_t tag = 1; // 1 value, 2 text, 3 nestedArray
    uint32_t value = 0;
    std::string text;
    std::vector<std::string> nested;
    bool operator==(const Union& o) const
    {
        return tag == o.tag && (tag != 1 || value == o.value) && (tag != 2 || text == o.text) &&
                (tag != 3 || nested == o.nested);
    }
};

struct Walker
{
    uint32_t identifier = 0;
    std::string nestedText; // when identifier != 0
    std::string text;
    std::vector<Union> unionArray;
    std::optional<std::vector<Union>> optionalUnionArray;
    uint8_t selector = 0; // 8, 16, 32, 64, anything else has no field
    uint64_t choice = 0;
    bool operator==(const Walker& o) const
    {
        return identifier == o.identifier && (identifier == 0 || nestedText == o.nestedText) && text == o.text &&
                unionArray == o.unionArray && optionalUnionArray == o.optionalUnionArray &&
                selector == o.selector && (!hasChoice() || choice == o.choice);
    }
    bool hasChoice() const
    {
        return selector == 8 || selector == 16 || selector == 32 || selector == 64;
    }
};

struct Reflectable
{
    std::string stringField;
    uint32_t nestedValue = 0; // bit:31
    int8_t en = -1; // -1 string, 0 uint32, 1 none
    std::string choiceStr;
    uint32_t choiceU32 = 0;
    size_t unionTag = 1; // 1 value32, 2 valueStr
    uint32_t unionU32 = 0;
    std::string unionStr;
    bool operator==(const Reflectable& o) const
    {
        return stringField == o.stringField && nestedValue == o.nestedValue && en == o.en &&
                (en != -1 || choiceStr == o.choiceStr) && (en != 0 || choiceU32 == o.choiceU32) &&
                unionTag == o.unionTag && (unionTag != 1 || unionU32 == o.unionU32) &&
                (unionTag != 2 || unionStr == o.unionStr);
    }
};

// ---- generators ----------------------------------------------------------------------------------------

struct GenOptions
{
    bool text = false; // strings are valid UTF-8 text (as JSON needs); otherwise any bytes
    size_t maxString = 24;
    size_t maxArray = 4;
    bool bigSometimes = true;
};

inline uint64_t genUInt(sim::Ctx& ctx, unsigned bits)
{
    const uint64_t mask = bits >= 64 ? UINT64_MAX : (uint64_t(1) << bits) - 1;
    switch (ctx.pick({3, 2, 1, 2, 3}))
    {
    case 0:
        return ctx.choose(4) & mask;
    case 1:
        return mask - (ctx.choose(3) & mask);
    case 2:
        return mask ^ (uint64_t(1) << ctx.choose(bits));
    case 3:
        return (uint64_t(1) << ctx.choose(bits)) + (ctx.flip(1, 2) ? 0 : UINT64_MAX) & mask;
    default:
        return ctx.choose(0) & mask;
    }
}

inline size_t genLength(sim::Ctx& ctx, size_t max, bool big)
{
    switch (ctx.pick({3, 5, big ? 1U : 0U}))
    {
    case 0:
        return ctx.choose(2);
    case 1:
        return ctx.choose(max + 1);
    default: // around the boundary of the one byte length
        return 120 + ctx.choose(20);
    }
}

inline std::string genString(sim::Ctx& ctx, const GenOptions& o)
{
    const size_t n = genLength(ctx, o.maxString, o.bigSometimes);
    std::string s;
    const uint64_t base = ctx.choose(0);
    const size_t style = ctx.pick({4, 1, 1});
    uint64_t x = base;
    while (s.size() < n)
    {
        x = sim::mix(x + s.size());
        if (style == 0)
        {
            s.push_back(static_cast<char>('a' + x % 26));
        }
        else if (style == 1)
        {
            static const char* const T[] = {"\"", "\\", "\n", "\t", "/", "\x01", "\x1f", " ", "{", "}", "[", "]",
                    ":", ",", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "0", "null", "\r", "\f", "\b"};
            s += T[x % (sizeof(T) / sizeof(T[0]))];
        }
        else if (o.text)
        {
            s.push_back(static_cast<char>(x % 128));
        }
        else
        {
            s.push_back(static_cast<char>(x));
        }
    }
    return s;
}

inline std::vector<uint8_t> genBytes(sim::Ctx& ctx, const GenOptions& o)
{
    std::vector<uint8_t> v(genLength(ctx, o.maxString, o.bigSometimes));
    uint64_t x = ctx.choose(0);
    for (auto& b : v)
    {
        x = sim::mix(x);
        b = static_cast<uint8_t>(x);
    }
    return v;
}

inline Extern genExtern(sim::Ctx& ctx, const GenOptions& o)
{
    Extern e;
    e.bytes = genBytes(ctx, o);
    e.bits = e.bytes.size() * 8;
    if (!e.bytes.empty())
    {
        e.bits -= ctx.choose(8);
        const unsigned unused = static_cast<unsigned>(e.bytes.size() * 8 - e.bits);
        e.bytes.back() = static_cast<uint8_t>(e.bytes.back() & (0xffU << unused));
    }
    return e;
}

inline Nested genNested(sim::Ctx& ctx, const GenOptions& o)
{
    Nested n;
    n.value = static_cast<uint32_t>(genUInt(ctx, 32));
    n.text = genString(ctx, o);
    n.ext = genExtern(ctx, o);
    n.bytes = genBytes(ctx, o);
    n.creatorEnum = static_cast<int8_t>(ctx.choose(3));
    if (n.creatorEnum == 2)
    {
        n.creatorEnum = -1;
    }
    n.creatorBitmask = static_cast<uint8_t>(ctx.flip(1, 6) ? ctx.choose(256) : ctx.choose(4));
    return n;
}

inline Creator genCreator(sim::Ctx& ctx, const GenOptions& o)
{
    Creator c;
    c.value = static_cast<uint32_t>(genUInt(ctx, 32));
    c.nested = genNested(ctx, o);
    c.text = genString(ctx, o);
    for (size_t n = ctx.choose(o.maxArray + 1); n > 0; --n)
    {
        c.nestedArray.push_back(genNested(ctx, o));
    }
    for (size_t n = ctx.choose(o.maxArray + 1); n > 0; --n)
    {
        c.textArray.push_back(genString(ctx, o));
    }
    if (ctx.flip(1, 2))
    {
        c.externArray.emplace();
        for (size_t n = ctx.choose(o.maxArray + 1); n > 0; --n)
        {
            c.externArray->push_back(genExtern(ctx, o));
        }
    }
    if (ctx.flip(1, 2))
    {
        c.bytesArray.emplace();
        for (size_t n = ctx.choose(o.maxArray + 1); n > 0; --n)
        {
            c.bytesArray->push_back(genBytes(ctx, o));
        }
    }
    if (ctx.flip(1, 2))
    {
        c.optionalBool = ctx.flip(1, 2);
    }
    if (ctx.flip(1, 2))
    {
        c.optionalNested = genNested(ctx, o);
    }
    return c;
}

inline Union genUnion(sim::Ctx& ctx, const GenOptions& o)
{
    Union u;
    u.tag = 1 + ctx.choose(3);
    if (u.tag == 1)
    {
        u.value = static_cast<uint32_t>(genUInt(ctx, 32));
    }
    else if (u.tag == 2)
    {
        u.text = genString(ctx, o);
    }
    else
    {
        for (size_t n = ctx.choose(o.maxArray + 1); n > 0; --n)
        {
            u.nested.push_back(genString(ctx, o));
        }
    }
    return u;
}

inline Walker genWalker(sim::Ctx& ctx, const GenOptions& o)
{
    Walker w;
    if (ctx.flip(2, 3))
    {
        w.identifier = static_cast<uint32_t>(genUInt(ctx, 32));
        if (w.identifier != 0)
        {
            w.nestedText = genString(ctx, o);
        }
    }
    w.text = genString(ctx, o);
    for (size_t n = ctx.choose(o.maxArray + 1); n > 0; --n)
    {
        w.unionArray.push_back(genUnion(ctx, o));
    }
    if (ctx.flip(1, 2))
    {
        w.optionalUnionArray.emplace();
        for (size_t n = ctx.choose(o.maxArray + 1); n > 0; --n)
        {
            w.optionalUnionArray->push_back(genUnion(ctx, o));
        }
    }
    static const uint8_t S[] = {0, 8, 16, 32, 64, 7};
    w.selector = S[ctx.choose(6)];
    if (w.hasChoice())
    {
        w.choice = genUInt(ctx, w.selector);
    }
    return w;
}

inline Reflectable genReflectable(sim::Ctx& ctx, const GenOptions& o)
{
    Reflectable r;
    r.stringField = genString(ctx, o);
    r.nestedValue = static_cast<uint32_t>(genUInt(ctx, 31));
    r.en = static_cast<int8_t>(static_cast<int>(ctx.choose(3)) - 1);
    if (r.en == -1)
    {
        r.choiceStr = genString(ctx, o);
    }
    else if (r.en == 0)
    {
        r.choiceU32 = static_cast<uint32_t>(genUInt(ctx, 32));
    }
    r.unionTag = 1 + ctx.choose(2);
    if (r.unionTag == 1)
    {
        r.unionU32 = static_cast<uint32_t>(genUInt(ctx, 32));
    }
    else
    {
        r.unionStr = genString(ctx, o);
    }
    return r;
}

// ---- independent encoders ------------------------------------------------------------------------------

inline void encVarsize(Bits& b, size_t n)
{
    model::encodeVar(b, model::VARSIZE, false, n);
}
inline void encBytes(Bits& b, const uint8_t* p, size_t n)
{
    encVarsize(b, n);
    for (size_t i = 0; i < n; ++i)
    {
        b.u(p[i], 8);
    }
}
inline void encode(Bits& b, const std::string& s)
{
    encBytes(b, reinterpret_cast<const uint8_t*>(s.data()), s.size());
}
inline void encode(Bits& b, const std::vector<uint8_t>& v)
{
    encBytes(b, v.data(), v.size());
}
inline void encode(Bits& b, const Extern& e)
{
    encVarsize(b, e.bits);
    for (size_t i = 0; i < e.bits; ++i)
    {
        b.u((e.bytes[i / 8] >> (7 - i % 8)) & 1U, 1);
    }
}
inline void encode(Bits& b, const Nested& n)
{
    b.u(n.value, 32);
    encode(b, n.text);
    encode(b, n.ext);
    encode(b, n.bytes);
    b.u(static_cast<uint8_t>(n.creatorEnum), 8);
    b.u(n.creatorBitmask, 8);
}
inline void encode(Bits& b, const Creator& c)
{
    b.u(c.value, 32);
    encode(b, c.nested);
    encode(b, c.text);
    encVarsize(b, c.nestedArray.size());
    for (const auto& n : c.nestedArray)
    {
        encode(b, n);
    }
    encVarsize(b, c.textArray.size());
    for (const auto& s : c.textArray)
    {
        encode(b, s);
    }
    b.u(c.externArray ? 1 : 0, 1);
    if (c.externArray)
    {
        encVarsize(b, c.externArray->size());
        for (const auto& e : *c.externArray)
        {
            encode(b, e);
        }
    }
    b.u(c.bytesArray ? 1 : 0, 1);
    if (c.bytesArray)
    {
        encVarsize(b, c.bytesArray->size());
        for (const auto& e : *c.bytesArray)
        {
            encode(b, e);
        }
    }
    b.u(c.optionalBool ? 1 : 0, 1);
    if (c.optionalBool)
    {
        b.u(*c.optionalBool ? 1 : 0, 1);
    }
    b.u(c.optionalNested ? 1 : 0, 1);
    if (c.optionalNested)
    {
        encode(b, *c.optionalNested);
    }
}
inline void encode(Bits& b, const Union& u)
{
    encVarsize(b, u.tag - 1);
    if (u.tag == 1)
    {
        b.u(u.value, 32);
    }
    else if (u.tag == 2)
    {
        encode(b, u.text);
    }
    else
    {
        encVarsize(b, u.nested.size());
        for (const auto& s : u.nested)
        {
            encode(b, s);
        }
    }
}
inline void encode(Bits& b, const Walker& w)
{
    b.u(w.identifier, 32);
    if (w.identifier != 0)
    {
        encode(b, w.nestedText);
    }
    encode(b, w.text);
    encVarsize(b, w.unionArray.size());
    for (const auto& u : w.unionArray)
    {
        encode(b, u);
    }
    b.u(w.optionalUnionArray ? 1 : 0, 1);
    if (w.optionalUnionArray)
    {
        encVarsize(b, w.optionalUnionArray->size());
        for (const auto& u : *w.optionalUnionArray)
        {
            encode(b, u);
        }
    }
    b.u(w.selector, 8);
    if (w.hasChoice())
    {
        b.u(w.choice, w.selector);
    }
}
inline void encode(Bits& b, const Reflectable& r)
{
    encode(b, r.stringField);
    b.u(r.nestedValue, 31);
    b.u(static_cast<uint8_t>(r.en), 8);
    if (r.en == -1)
    {
        encode(b, r.choiceStr);
    }
    else if (r.en == 0)
    {
        b.u(r.choiceU32, 32);
    }
    encVarsize(b, r.unionTag - 1);
    if (r.unionTag == 1)
    {
        b.u(r.unionU32, 32);
    }
    else
    {
        encode(b, r.unionStr);
    }
}
template <typename M>
Bits encoded(const M& m)
{
    Bits b;
    encode(b, m);
    return b;
}

// ---- conversion to and from the generated classes ------------------------------------------------------

template <typename T, typename ALLOC>
constexpr bool takesAlloc = std::is_constructible_v<T, const ALLOC&>;

// a value of the given type that gets its memory from the given allocator, when it can
template <typename T, typename ALLOC>
T make(const ALLOC& a)
{
    if constexpr (takesAlloc<T, ALLOC>)
    {
        return T(a);
    }
    else
    {
        return T();
    }
}

template <typename S>
void setText(S& s, const std::string& m)
{
    s.assign(m.data(), m.size());
}
template <typename V>
void setBytes(V& v, const std::vector<uint8_t>& m)
{
    v.assign(m.begin(), m.end());
}
template <typename B, typename ALLOC>
void setExtern(B& b, const Extern& m, const ALLOC& a)
{
    b = B(zserio::Span<const uint8_t>(m.bytes.data(), m.bytes.size()), m.bits, a);
}
template <typename N, typename ALLOC>
void fillNested(N& o, const Nested& m, const ALLOC& a)
{
    o.value = m.value;
    setText(o.text, m.text);
    setExtern(o.externData, m.ext, a);
    setBytes(o.bytesData, m.bytes);
    using Enum = decltype(o.creatorEnum);
    o.creatorEnum = m.creatorEnum == 0 ? Enum::ONE : m.creatorEnum == 1 ? Enum::TWO : Enum::MinusOne;
    using Mask = decltype(o.creatorBitmask);
    o.creatorBitmask = Mask(typename Mask::ZserioType(m.creatorBitmask));
}
template <typename O, typename ALLOC>
void fillCreator(O& o, const Creator& m, const ALLOC& a)
{
    o.value = m.value;
    fillNested(o.nested, m.nested, a);
    setText(o.text, m.text);
    o.nestedArray.clear();
    for (const auto& n : m.nestedArray)
    {
        o.nestedArray.push_back(make<typename decltype(o.nestedArray)::value_type>(a));
        fillNested(o.nestedArray.back(), n, a);
    }
    o.textArray.clear();
    for (const auto& s : m.textArray)
    {
        o.textArray.push_back(make<typename decltype(o.textArray)::value_type>(a));
        setText(o.textArray.back(), s);
    }
    o.externArray.reset();
    if (m.externArray)
    {
        using V = std::decay_t<decltype(*o.externArray)>;
        V v(a);
        for (const auto& e : *m.externArray)
        {
            v.push_back(make<typename V::value_type>(a));
            setExtern(v.back(), e, a);
        }
        o.externArray = std::move(v);
    }
    o.bytesArray.reset();
    if (m.bytesArray)
    {
        using V = std::decay_t<decltype(*o.bytesArray)>;
        V v(a);
        for (const auto& e : *m.bytesArray)
        {
            v.push_back(make<typename V::value_type>(a));
            setBytes(v.back(), e);
        }
        o.bytesArray = std::move(v);
    }
    o.optionalBool.reset();
    if (m.optionalBool)
    {
        o.optionalBool = zserio::Bool(*m.optionalBool);
    }
    o.optionalNested.reset();
    if (m.optionalNested)
    {
        using N = std::decay_t<decltype(*o.optionalNested)>;
        N n = make<N>(a);
        fillNested(n, *m.optionalNested, a);
        o.optionalNested = std::move(n);
    }
}
template <typename O, typename ALLOC>
void fillUnion(O& o, const Union& m, const ALLOC& a)
{
    using Tag = typename O::Tag;
    if (m.tag == 1)
    {
        o.template emplace<Tag::value>(zserio::UInt32(m.value));
    }
    else if (m.tag == 2)
    {
        auto& s = o.template emplace<Tag::text>();
        setText(s, m.text);
    }
    else
    {
        auto& v = o.template emplace<Tag::nestedArray>();
        for (const auto& s : m.nested)
        {
            v.push_back(make<typename std::decay_t<decltype(v)>::value_type>(a));
            setText(v.back().text, s);
        }
    }
}
template <typename V, typename ALLOC>
void fillUnions(V& v, const std::vector<Union>& m, const ALLOC& a)
{
    v.clear();
    for (const auto& u : m)
    {
        v.push_back(make<typename V::value_type>(a));
        fillUnion(v.back(), u, a);
    }
}
template <typename O, typename ALLOC>
void fillWalker(O& o, const Walker& m, const ALLOC& a)
{
    o.identifier = m.identifier;
    o.nested.reset();
    if (m.identifier != 0)
    {
        using N = std::decay_t<decltype(*o.nested)>;
        N n = make<N>(a);
        setText(n.text, m.nestedText);
        o.nested = std::move(n);
    }
    setText(o.text, m.text);
    fillUnions(o.unionArray, m.unionArray, a);
    o.optionalUnionArray.reset();
    if (m.optionalUnionArray)
    {
        using V = std::decay_t<decltype(*o.optionalUnionArray)>;
        V v(a);
        fillUnions(v, *m.optionalUnionArray, a);
        o.optionalUnionArray = std::move(v);
    }
    o.choiceSelector = m.selector;
    using Tag = typename decltype(o.choiceField)::Tag;
    switch (m.selector)
    {
    case 8:
        o.choiceField.template emplace<Tag::value8>(zserio::UInt8(static_cast<uint8_t>(m.choice)));
        break;
    case 16:
        o.choiceField.template emplace<Tag::value16>(zserio::UInt16(static_cast<uint16_t>(m.choice)));
        break;
    case 32:
        o.choiceField.template emplace<Tag::value32>(zserio::UInt32(static_cast<uint32_t>(m.choice)));
        break;
    case 64:
        o.choiceField.template emplace<Tag::value64>(zserio::UInt64(m.choice));
        break;
    default:
        o.choiceField.template emplace<Tag::ZSERIO_UNDEFINED>();
        break;
    }
}
template <typename O, typename ALLOC>
void fillReflectable(O& o, const Reflectable& m, const ALLOC& a)
{
    setText(o.stringField, m.stringField);
    o.reflectableNested.value = m.nestedValue;
    using Enum = decltype(o.reflectableEnum);
    o.reflectableEnum = m.en == -1 ? Enum::VALUE1 : m.en == 0 ? Enum::VALUE2 : Enum::VALUE3;
    using CTag = typename decltype(o.reflectableChoice)::Tag;
    if (m.en == -1)
    {
        setText(o.reflectableChoice.template emplace<CTag::valueStr>(), m.choiceStr);
    }
    else if (m.en == 0)
    {
        o.reflectableChoice.template emplace<CTag::value32>(zserio::UInt32(m.choiceU32));
    }
    else
    {
        o.reflectableChoice.template emplace<CTag::ZSERIO_UNDEFINED>();
    }
    using UTag = typename decltype(o.reflectableUnion)::Tag;
    if (m.unionTag == 1)
    {
        o.reflectableUnion.template emplace<UTag::value32>(zserio::UInt32(m.unionU32));
    }
    else
    {
        setText(o.reflectableUnion.template emplace<UTag::valueStr>(), m.unionStr);
    }
}

inline std::string getText(std::string_view s)
{
    return std::string(s.data(), s.size());
}
template <typename B>
Extern getExtern(const B& b)
{
    Extern e;
    e.bits = b.getBitSize();
    e.bytes = Bits::from(b.getBuffer(), e.bits).bytes();
    return e;
}
template <typename V>
std::vector<uint8_t> getBytes(const V& v)
{
    return std::vector<uint8_t>(v.begin(), v.end());
}
template <typename N>
Nested nestedOf(const N& o)
{
    Nested m;
    m.value = o.value;
    m.text = getText(o.text);
    m.ext = getExtern(o.externData);
    m.bytes = getBytes(o.bytesData);
    m.creatorEnum = static_cast<int8_t>(o.creatorEnum);
    m.creatorBitmask = static_cast<uint8_t>(o.creatorBitmask.getValue());
    return m;
}
template <typename O>
Creator creatorOf(const O& o)
{
    Creator m;
    m.value = o.value;
    m.nested = nestedOf(o.nested);
    m.text = getText(o.text);
    for (const auto& n : o.nestedArray)
    {
        m.nestedArray.push_back(nestedOf(n));
    }
    for (const auto& s : o.textArray)
    {
        m.textArray.push_back(getText(s));
    }
    if (o.externArray.has_value())
    {
        m.externArray.emplace();
        for (const auto& e : *o.externArray)
        {
            m.externArray->push_back(getExtern(e));
        }
    }
    if (o.bytesArray.has_value())
    {
        m.bytesArray.emplace();
        for (const auto& e : *o.bytesArray)
        {
            m.bytesArray->push_back(getBytes(e));
        }
    }
    if (o.optionalBool.has_value())
    {
        m.optionalBool = static_cast<bool>(*o.optionalBool);
    }
    if (o.optionalNested.has_value())
    {
        m.optionalNested = nestedOf(*o.optionalNested);
    }
    return m;
}
template <typename O>
Union unionOf(const O& o)
{
    using Tag = typename O::Tag;
    Union m;
    m.tag = static_cast<size_t>(o.index());
    if (m.tag == 1)
    {
        m.value = o.template get<Tag::value>();
    }
    else if (m.tag == 2)
    {
        m.text = getText(o.template get<Tag::text>());
    }
    else if (m.tag == 3)
    {
        for (const auto& n : o.template get<Tag::nestedArray>())
        {
            m.nested.push_back(getText(n.text));
        }
    }
    return m;
}
template <typename O>
Walker walkerOf(const O& o)
{
    Walker m;
    m.identifier = o.identifier;
    if (o.nested.has_value())
    {
        m.nestedText = getText(o.nested->text);
    }
    m.text = getText(o.text);
    for (const auto& u : o.unionArray)
    {
        m.unionArray.push_back(unionOf(u));
    }
    if (o.optionalUnionArray.has_value())
    {
        m.optionalUnionArray.emplace();
        for (const auto& u : *o.optionalUnionArray)
        {
            m.optionalUnionArray->push_back(unionOf(u));
        }
    }
    m.selector = o.choiceSelector;
    using Tag = typename decltype(o.choiceField)::Tag;
    switch (o.choiceField.index())
    {
    case Tag::value8:
        m.choice = o.choiceField.template get<Tag::value8>();
        break;
    case Tag::value16:
        m.choice = o.choiceField.template get<Tag::value16>();
        break;
    case Tag::value32:
        m.choice = o.choiceField.template get<Tag::value32>();
        break;
    case Tag::value64:
        m.choice = o.choiceField.template get<Tag::value64>();
        break;
    default:
        break;
    }
    return m;
}
template <typename O>
Reflectable reflectableOf(const O& o)
{
    Reflectable m;
    m.stringField = getText(o.stringField);
    m.nestedValue = o.reflectableNested.value;
    m.en = static_cast<int8_t>(o.reflectableEnum);
    using CTag = typename decltype(o.reflectableChoice)::Tag;
    if (o.reflectableChoice.index() == CTag::valueStr)
    {
        m.choiceStr = getText(o.reflectableChoice.template get<CTag::valueStr>());
    }
    else if (o.reflectableChoice.index() == CTag::value32)
    {
        m.choiceU32 = o.reflectableChoice.template get<CTag::value32>();
    }
    using UTag = typename decltype(o.reflectableUnion)::Tag;
    m.unionTag = static_cast<size_t>(o.reflectableUnion.index());
    if (m.unionTag == 1)
    {
        m.unionU32 = o.reflectableUnion.template get<UTag::value32>();
    }
    else if (m.unionTag == 2)
    {
        m.unionStr = getText(o.reflectableUnion.template get<UTag::valueStr>());
    }
    return m;
}

// a choice without a branch (default: empty) that was read into an object which held a branch before
template <typename O, typename M>
bool dropOldBranch(O&, const M&)
{
    return false;
}
template <typename O>
bool dropOldBranch(O& o, const Walker& m)
{
    using Tag = typename decltype(o.choiceField)::Tag;
    if (m.hasChoice() || o.choiceField.index() == Tag::ZSERIO_UNDEFINED)
    {
        return false;
    }
    o.choiceField.template emplace<Tag::ZSERIO_UNDEFINED>();
    return true;
}
template <typename O>
bool dropOldBranch(O& o, const Reflectable& m)
{
    using Tag = typename decltype(o.reflectableChoice)::Tag;
    if (m.en == -1 || m.en == 0 || o.reflectableChoice.index() == Tag::ZSERIO_UNDEFINED)
    {
        return false;
    }
    o.reflectableChoice.template emplace<Tag::ZSERIO_UNDEFINED>();
    return true;
}

} // namespace obj
