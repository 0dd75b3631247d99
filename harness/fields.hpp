// Fields of the zserio type system as the generated code would use them: each field knows its value, the bits the
// format prescribes for it (written from the encoding guide, independent of the runtime) and how to drive the real
// size, offset, validation, write and read functions of the runtime for it.
#pragma once

#include "bits.hpp"
#include "objects.hpp"
#include "sim.hpp"

#include <test_object/std_allocator/CreatorBitmask.h>
#include <test_object/std_allocator/CreatorEnum.h>
#include <test_object/std_allocator/CreatorUnsignedEnum.h>
#include <test_object/std_allocator/ReflectableEnum.h>
#include <test_object/std_allocator/WalkerBitmask.h>
#include <test_object/std_allocator/WalkerUnion.h>
#include <zserio/ArrayView.h>
#include <zserio/BitBuffer.h>
#include <zserio/Bytes.h>
#include <zserio/Optional.h>
#include <zserio/String.h>
#include <zserio/Types.h>
#include <zserio/Vector.h>

#include <functional>
#include <memory>

namespace fields
{

using i128 = __int128;
using model::Bits;
using sim::Ctx;

struct Field
{
    explicit Field(std::string n) :
            name(std::move(n))
    {}
    virtual ~Field() = default;
    std::string name;
    bool implicit = false; // takes everything that is left in the stream
    virtual void gen(Ctx& ctx) = 0;
    virtual bool genBad(Ctx&) // makes the value one the format cannot represent, if the type has such values
    {
        return false;
    }
    virtual void encode(Bits& b) const = 0; // appends; alignment is relative to the start of b
    virtual size_t bitSizeOf(size_t pos) const = 0; // real code from here on
    virtual size_t initOffsets(size_t pos) = 0;
    virtual std::string offsetsProblem(size_t) const // after initOffsets
    {
        return std::string();
    }
    virtual void validate() const = 0;
    virtual void write(zserio::BitStreamWriter& w) const = 0;
    virtual void read(zserio::BitStreamReader& r) = 0; // into the destination, whatever it holds
    virtual bool same() const = 0; // destination equals value
    virtual size_t count() const // elements
    {
        return 1;
    }
    virtual size_t destinationCount() const
    {
        return 1;
    }
    virtual void scribble() // leave something in the destination
    {}
    virtual void rewriteFromDestination() // the value becomes what was read
    {}
    virtual size_t countedElementSize() const // memory of one element of an array that stores its length, or 0
    {
        return 0;
    }
};

using Factory = std::function<std::unique_ptr<Field>(Ctx&)>;
struct Registry
{
    std::vector<Factory> plain;
    std::vector<Factory> implicit;
};
inline Registry& registry()
{
    static Registry r;
    return r;
}

// ---- delta packing as the encoding guide defines it ------------------------------------------------------

struct PackSlot
{
    std::vector<i128> values;
    size_t sizes = 0;
    size_t first = 0;
    // writing
    size_t next = 0;
    bool packed = false;
    unsigned deltaBits = 0;
    unsigned maxBits = 0;
};

struct Packer
{
    std::vector<PackSlot> slots;
    bool collect = true;
    Bits* out = nullptr;

    PackSlot& slot(size_t i)
    {
        if (slots.size() <= i)
        {
            slots.resize(i + 1);
        }
        return slots[i];
    }
    template <typename ENC>
    void num(size_t index, i128 v, size_t bits, const ENC& enc)
    {
        PackSlot& s = slot(index);
        if (collect)
        {
            if (s.values.empty())
            {
                s.first = bits;
            }
            s.values.push_back(v);
            s.sizes += bits;
            return;
        }
        if (s.next == 0)
        {
            decide(s);
            out->u(s.packed ? 1 : 0, 1);
            if (s.packed)
            {
                out->u(s.maxBits, 6);
            }
            enc(*out);
        }
        else if (!s.packed)
        {
            enc(*out);
        }
        else if (s.deltaBits > 0)
        {
            const i128 d = v - s.values[s.next - 1];
            out->u(static_cast<uint64_t>(d), s.deltaBits);
        }
        ++s.next;
    }
    static void decide(PackSlot& s)
    {
        const size_t n = s.values.size();
        if (n < 2)
        {
            return;
        }
        unsigned m = 0;
        for (size_t i = 1; i < n; ++i)
        {
            i128 d = s.values[i] - s.values[i - 1];
            if (d < 0)
            {
                d = -d;
            }
            unsigned len = 0;
            while (d != 0)
            {
                ++len;
                d >>= 1;
            }
            m = std::max(m, len);
        }
        if (m > 62)
        {
            return;
        }
        s.maxBits = m;
        s.deltaBits = m > 0 ? m + 1 : 0;
        s.packed = 7 + s.first + (n - 1) * s.deltaBits < 1 + s.sizes;
    }
};

// ---- element types -----------------------------------------------------------------------------------------

template <typename T, typename = void>
struct Elem;

inline i128 genInRange(Ctx& ctx, i128 lo, i128 hi)
{
    const unsigned __int128 span = static_cast<unsigned __int128>(hi - lo);
    const auto clamp = [&](i128 v) {
        return v < lo ? lo : v > hi ? hi : v;
    };
    switch (ctx.pick({3, 2, 2, 3, 3}))
    {
    case 0:
        return clamp(static_cast<i128>(ctx.choose(4)));
    case 1:
        return clamp(lo + static_cast<i128>(ctx.choose(3)));
    case 2:
        return clamp(hi - static_cast<i128>(ctx.choose(3)));
    case 3:
    {
        i128 v = (i128(1) << ctx.choose(64)) + ctx.range(-1, 1);
        return clamp(ctx.flip(1, 2) ? -v : v);
    }
    default:
        return span >= UINT64_MAX ? lo + static_cast<i128>(ctx.choose(0))
                                  : lo + static_cast<i128>(ctx.choose(static_cast<uint64_t>(span) + 1));
    }
}

template <typename T>
struct NumElem
{
    static constexpr bool numeric = true;
    static i128 num(const T& v)
    {
        return static_cast<i128>(static_cast<typename T::ValueType>(v));
    }
    static T of(i128 v)
    {
        return T(static_cast<typename T::ValueType>(v));
    }
    static bool eq(const T& a, const T& b)
    {
        return num(a) == num(b);
    }
    static T scribbled()
    {
        return T(static_cast<typename T::ValueType>(1));
    }
};

template <zserio::BitSize N, bool S>
struct Elem<zserio::detail::FixedIntWrapper<N, S>> : NumElem<zserio::detail::FixedIntWrapper<N, S>>
{
    using T = zserio::detail::FixedIntWrapper<N, S>;
    using Base = NumElem<T>;
    static constexpr i128 lo = S ? -(i128(1) << (N - 1)) : 0;
    static constexpr i128 hi = S ? (i128(1) << (N - 1)) - 1 : (i128(1) << N) - 1;
    static std::string name()
    {
        return (S ? "int" : "uint") + std::to_string(N);
    }
    static size_t fixedBits()
    {
        return N;
    }
    static size_t bits(const T&)
    {
        return N;
    }
    static void enc(Bits& b, const T& v)
    {
        b.u(static_cast<uint64_t>(Base::num(v)), N);
    }
    static bool bad(Ctx& ctx, T& v)
    {
        constexpr unsigned total = sizeof(typename T::ValueType) * 8;
        if constexpr (N == total)
        {
            return false;
        }
        else
        {
            constexpr i128 tlo = S ? -(i128(1) << (total - 1)) : 0;
            constexpr i128 thi = S ? (i128(1) << (total - 1)) - 1 : (i128(1) << total) - 1;
            i128 x = S && ctx.flip(1, 2) ? lo - 1 - static_cast<i128>(ctx.choose(static_cast<uint64_t>(lo - tlo)))
                                         : hi + 1 + static_cast<i128>(ctx.choose(static_cast<uint64_t>(thi - hi)));
            v = Base::of(x);
            return true;
        }
    }
};

template <>
struct Elem<zserio::Bool> : NumElem<zserio::Bool>
{
    static constexpr i128 lo = 0;
    static constexpr i128 hi = 1;
    static std::string name()
    {
        return "bool";
    }
    static size_t fixedBits()
    {
        return 1;
    }
    static size_t bits(const zserio::Bool&)
    {
        return 1;
    }
    static void enc(Bits& b, const zserio::Bool& v)
    {
        b.u(v ? 1 : 0, 1);
    }
    static bool bad(Ctx&, zserio::Bool&)
    {
        return false;
    }
};

template <typename V, zserio::detail::VarIntType K>
struct Elem<zserio::detail::VarIntWrapper<V, K>> : NumElem<zserio::detail::VarIntWrapper<V, K>>
{
    using T = zserio::detail::VarIntWrapper<V, K>;
    using Base = NumElem<T>;
    static constexpr bool S = std::is_signed_v<V>;
    static const model::VarKind& kind()
    {
        using zserio::detail::VarIntType;
        return K == VarIntType::VAR16 ? (S ? model::VARINT16 : model::VARUINT16)
                : K == VarIntType::VAR32 ? (S ? model::VARINT32 : model::VARUINT32)
                : K == VarIntType::VAR64 ? (S ? model::VARINT64 : model::VARUINT64)
                : K == VarIntType::VARSIZE ? model::VARSIZE
                                           : (S ? model::VARINT : model::VARUINT);
    }
    static i128 limit(bool low)
    {
        const i128 m = static_cast<i128>(model::varMaxMagnitude(kind()));
        if (kind().maxBytes == 9)
        {
            return low ? (S ? -(i128(1) << 63) : 0) : (S ? (i128(1) << 63) - 1 : m);
        }
        return low ? (S ? -m : 0) : m;
    }
    static std::string name()
    {
        return kind().name;
    }
    static size_t fixedBits()
    {
        return 0;
    }
    static size_t bits(const T& v)
    {
        Bits b;
        enc(b, v);
        return b.size();
    }
    static void enc(Bits& b, const T& v)
    {
        const i128 n = Base::num(v);
        model::encodeVar(b, kind(), n < 0, static_cast<uint64_t>(n < 0 ? -n : n));
    }
    static bool bad(Ctx& ctx, T& v)
    {
        constexpr unsigned total = sizeof(V) * 8;
        const i128 tlo = S ? -(i128(1) << (total - 1)) : 0;
        const i128 thi = S ? (i128(1) << (total - 1)) - 1 : (i128(1) << total) - 1;
        if (limit(false) >= thi)
        {
            return false;
        }
        const i128 x = S && ctx.flip(1, 2)
                ? limit(true) - 1 - static_cast<i128>(ctx.choose(static_cast<uint64_t>(limit(true) - tlo)))
                : limit(false) + 1 + static_cast<i128>(ctx.choose(static_cast<uint64_t>(thi - limit(false))));
        v = Base::of(x);
        return true;
    }
};

template <typename T, typename = void>
struct Limits
{
    static i128 lo()
    {
        return Elem<T>::lo;
    }
    static i128 hi()
    {
        return Elem<T>::hi;
    }
};
template <typename V, zserio::detail::VarIntType K>
struct Limits<zserio::detail::VarIntWrapper<V, K>>
{
    static i128 lo()
    {
        return Elem<zserio::detail::VarIntWrapper<V, K>>::limit(true);
    }
    static i128 hi()
    {
        return Elem<zserio::detail::VarIntWrapper<V, K>>::limit(false);
    }
};

template <typename V, zserio::detail::FloatType K>
struct Elem<zserio::detail::FloatWrapper<V, K>>
{
    using T = zserio::detail::FloatWrapper<V, K>;
    static constexpr bool numeric = false;
    static constexpr unsigned N = K == zserio::detail::FloatType::FLOAT16 ? 16
            : K == zserio::detail::FloatType::FLOAT32                     ? 32
                                                                          : 64;
    static std::string name()
    {
        return "float" + std::to_string(N);
    }
    static size_t fixedBits()
    {
        return N;
    }
    static void gen(Ctx& ctx, T& v)
    {
        const uint64_t raw = obj::genUInt(ctx, N);
        if constexpr (N == 16)
        {
            v = T(model::halfToFloat(static_cast<uint16_t>(raw)));
        }
        else if constexpr (N == 32)
        {
            const uint32_t r32 = static_cast<uint32_t>(raw);
            float f = 0;
            memcpy(&f, &r32, 4);
            v = T(f);
        }
        else
        {
            double f = 0;
            memcpy(&f, &raw, 8);
            v = T(f);
        }
    }
    static bool bad(Ctx&, T&)
    {
        return false;
    }
    static bool isNan(const T& v)
    {
        return std::isnan(static_cast<V>(v));
    }
    static void enc(Bits& b, const T& v)
    {
        if constexpr (N == 64)
        {
            b.u(model::doubleBits(v), 64);
        }
        else if constexpr (N == 32)
        {
            b.u(model::floatBits(v), 32);
        }
        else
        {
            // the value was made from a half, so that its 10 mantissa bits are exact
            const uint32_t f = model::floatBits(v);
            const uint32_t sign = f >> 31;
            const uint32_t e = (f >> 23) & 0xffU;
            const uint32_t m = f & 0x7fffffU;
            uint32_t h = 0;
            if (e == 0xff)
            {
                h = 0x7c00U | (m >> 13);
            }
            else if (e == 0)
            {
                h = 0;
            }
            else if (e >= 113)
            {
                h = ((e - 112) << 10) | (m >> 13);
            }
            else
            {
                h = (0x800000U | m) >> (126 - e);
            }
            b.u((sign << 15) | h, 16);
        }
    }
    static bool eq(const T& a, const T& b)
    {
        if (isNan(a) && isNan(b))
        {
            return N != 64 || model::doubleBits(a) == model::doubleBits(b);
        }
        return model::doubleBits(static_cast<double>(a)) == model::doubleBits(static_cast<double>(b));
    }
    static T scribbled()
    {
        return T(1);
    }
};

template <>
struct Elem<zserio::String>
{
    static constexpr bool numeric = false;
    static std::string name()
    {
        return "string";
    }
    static size_t fixedBits()
    {
        return 0;
    }
    static void gen(Ctx& ctx, zserio::String& v)
    {
        obj::GenOptions o;
        const std::string s = obj::genString(ctx, o);
        v.assign(s.data(), s.size());
    }
    static bool bad(Ctx&, zserio::String&)
    {
        return false;
    }
    static void enc(Bits& b, const zserio::String& v)
    {
        obj::encode(b, std::string(v.data(), v.size()));
    }
    static bool eq(const zserio::String& a, const zserio::String& b)
    {
        return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0;
    }
    static zserio::String scribbled()
    {
        return zserio::String("previous content of the destination");
    }
};

template <>
struct Elem<zserio::Bytes>
{
    static constexpr bool numeric = false;
    static std::string name()
    {
        return "bytes";
    }
    static size_t fixedBits()
    {
        return 0;
    }
    static void gen(Ctx& ctx, zserio::Bytes& v)
    {
        obj::GenOptions o;
        v = obj::genBytes(ctx, o);
    }
    static bool bad(Ctx&, zserio::Bytes&)
    {
        return false;
    }
    static void enc(Bits& b, const zserio::Bytes& v)
    {
        obj::encode(b, v);
    }
    static bool eq(const zserio::Bytes& a, const zserio::Bytes& b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
    }
    static zserio::Bytes scribbled()
    {
        return zserio::Bytes(37, 0xA5);
    }
};

template <>
struct Elem<zserio::BitBuffer>
{
    static constexpr bool numeric = false;
    static std::string name()
    {
        return "extern";
    }
    static size_t fixedBits()
    {
        return 0;
    }
    static void gen(Ctx& ctx, zserio::BitBuffer& v)
    {
        obj::GenOptions o;
        const obj::Extern e = obj::genExtern(ctx, o);
        obj::setExtern(v, e, std::allocator<uint8_t>());
    }
    static bool bad(Ctx&, zserio::BitBuffer&)
    {
        return false;
    }
    static void enc(Bits& b, const zserio::BitBuffer& v)
    {
        obj::encode(b, obj::getExtern(v));
    }
    static bool eq(const zserio::BitBuffer& a, const zserio::BitBuffer& b)
    {
        return obj::getExtern(a) == obj::getExtern(b);
    }
    static zserio::BitBuffer scribbled()
    {
        return zserio::BitBuffer(zserio::Bytes(9, 0xA5), 67);
    }
};

// enums and bitmasks: through their underlying zserio type
template <typename T>
struct EnumElem
{
    static constexpr bool numeric = false;
    using Z = typename zserio::EnumTraits<T>::ZserioType;
    static size_t fixedBits()
    {
        return 0;
    }
    static bool bad(Ctx& ctx, T& v)
    {
        v = static_cast<T>(static_cast<std::underlying_type_t<T>>(ctx.range(50, 100)));
        return true;
    }
    static i128 num(const T& v)
    {
        return static_cast<i128>(static_cast<std::underlying_type_t<T>>(v));
    }
    static void enc(Bits& b, const T& v)
    {
        b.u(static_cast<uint64_t>(num(v)), 8);
    }
    static void pack(Packer& p, size_t slot, const T& v)
    {
        p.num(slot, num(v), 8, [&](Bits& b) {
            enc(b, v);
        });
    }
    static bool eq(const T& a, const T& b)
    {
        return a == b;
    }
};
template <>
struct Elem<test_object::std_allocator::CreatorEnum> : EnumElem<test_object::std_allocator::CreatorEnum>
{
    using T = test_object::std_allocator::CreatorEnum;
    static std::string name()
    {
        return "enum";
    }
    static void gen(Ctx& ctx, T& v)
    {
        static const T ALL[] = {T::ONE, T::TWO, T::MinusOne};
        v = ALL[ctx.choose(3)];
    }
    static T scribbled()
    {
        return T::TWO;
    }
};
template <typename T, unsigned N>
struct MaskElem
{
    static constexpr bool numeric = false;
    static size_t fixedBits()
    {
        return 0;
    }
    static void gen(Ctx& ctx, T& v)
    {
        v = T(typename T::ZserioType(static_cast<typename T::ZserioType::ValueType>(obj::genUInt(ctx, N))));
    }
    static bool bad(Ctx&, T&)
    {
        return false;
    }
    static uint64_t num(const T& v)
    {
        return static_cast<uint64_t>(v.getValue());
    }
    static void enc(Bits& b, const T& v)
    {
        b.u(num(v), N);
    }
    static void pack(Packer& p, size_t slot, const T& v)
    {
        p.num(slot, static_cast<i128>(num(v)), N, [&](Bits& b) {
            enc(b, v);
        });
    }
    static bool eq(const T& a, const T& b)
    {
        return num(a) == num(b);
    }
    static T scribbled()
    {
        return T(typename T::ZserioType(1));
    }
};
template <>
struct Elem<test_object::std_allocator::CreatorBitmask> : MaskElem<test_object::std_allocator::CreatorBitmask, 8>
{
    static std::string name()
    {
        return "bitmask8";
    }
};
template <>
struct Elem<test_object::std_allocator::WalkerBitmask> : MaskElem<test_object::std_allocator::WalkerBitmask, 32>
{
    static std::string name()
    {
        return "bitmask32";
    }
};

template <>
struct Elem<test_object::std_allocator::WalkerUnion>
{
    using T = test_object::std_allocator::WalkerUnion;
    static constexpr bool numeric = false;
    static std::string name()
    {
        return "WalkerUnion";
    }
    static size_t fixedBits()
    {
        return 0;
    }
    static void gen(Ctx& ctx, T& v)
    {
        obj::GenOptions o;
        obj::fillUnion(v, obj::genUnion(ctx, o), std::allocator<uint8_t>());
    }
    static bool bad(Ctx&, T& v)
    {
        v.emplace<T::Tag::ZSERIO_UNDEFINED>();
        return true;
    }
    static void enc(Bits& b, const T& v)
    {
        obj::encode(b, obj::unionOf(v));
    }
    static bool eq(const T& a, const T& b)
    {
        return obj::unionOf(a) == obj::unionOf(b);
    }
    static T scribbled()
    {
        T v;
        v.emplace<T::Tag::text>("previous content");
        return v;
    }
};

template <typename T>
void genValue(Ctx& ctx, T& v)
{
    if constexpr (Elem<T>::numeric)
    {
        v = Elem<T>::of(genInRange(ctx, Limits<T>::lo(), Limits<T>::hi()));
    }
    else
    {
        Elem<T>::gen(ctx, v);
    }
}

template <typename T>
void packValue(Packer& p, const T& v)
{
    if constexpr (Elem<T>::numeric)
    {
        p.num(0, Elem<T>::num(v), Elem<T>::bits(v), [&](Bits& b) {
            Elem<T>::enc(b, v);
        });
    }
    else
    {
        Elem<T>::pack(p, 0, v);
    }
}

inline size_t genCount(Ctx& ctx)
{
    switch (ctx.pick({4, 4, 1}))
    {
    case 0:
        return ctx.choose(4);
    case 1:
        return ctx.choose(20);
    default:
        return 60 + ctx.choose(100);
    }
}

template <typename T>
void genArray(Ctx& ctx, std::vector<T>& v)
{
    const size_t n = genCount(ctx);
    v.clear();
    if constexpr (Elem<T>::numeric)
    {
        const i128 lo = Limits<T>::lo();
        const i128 hi = Limits<T>::hi();
        i128 cur = genInRange(ctx, lo, hi);
        const size_t style = ctx.pick({3, 3, 3, 2});
        const unsigned width = static_cast<unsigned>(1 + ctx.choose(64));
        const uint64_t salt = ctx.choose(0);
        for (size_t i = 0; i < n; ++i)
        {
            if (style == 0) // arbitrary
            {
                cur = genInRange(ctx, lo, hi);
            }
            else if (style == 1 && i > 0) // steps of limited width
            {
                const uint64_t r = sim::mix(salt + i);
                i128 d = static_cast<i128>(width >= 64 ? r : r & ((uint64_t(1) << width) - 1));
                d = (r >> 63) != 0 ? -d : d;
                const i128 next = cur + d;
                cur = next < lo || next > hi ? cur : next;
            }
            else if (style == 3 && i > 0) // between the extremes
            {
                cur = (sim::mix(salt + i) & 1U) != 0 ? hi : lo;
            } // else constant
            v.push_back(Elem<T>::of(cur));
        }
    }
    else
    {
        const bool constant = ctx.flip(1, 4);
        const size_t max = sizeof(T) > 16 ? std::min<size_t>(n, 6) : n;
        for (size_t i = 0; i < max; ++i)
        {
            T x{};
            if (constant && i > 0)
            {
                x = v.front();
            }
            else
            {
                genValue(ctx, x);
            }
            v.push_back(std::move(x));
        }
    }
}

// what the size, validation and write functions take for a value
template <typename T>
auto viewOf(const T& v)
{
    return zserio::view_type_t<T>(v);
}
// enums and bitmasks have no offset initialisation
template <typename T>
constexpr bool HAS_OFFSETS = !std::is_enum_v<T> && !zserio::is_bitmask_v<T>;

template <typename T>
struct ScalarField : Field
{
    T value{};
    T dst{};
    ScalarField() :
            Field(Elem<T>::name())
    {}
    void gen(Ctx& ctx) override
    {
        genValue(ctx, value);
    }
    bool genBad(Ctx& ctx) override
    {
        return Elem<T>::bad(ctx, value);
    }
    void encode(Bits& b) const override
    {
        Elem<T>::enc(b, value);
    }
    size_t bitSizeOf(size_t pos) const override
    {
        return zserio::detail::bitSizeOf(viewOf(value), pos);
    }
    size_t initOffsets(size_t pos) override
    {
        if constexpr (HAS_OFFSETS<T>)
        {
            return zserio::detail::initializeOffsets(viewOf(value), pos);
        }
        else
        {
            return bitSizeOf(pos);
        }
    }
    void validate() const override
    {
        zserio::detail::validate(viewOf(value), "field");
    }
    void write(zserio::BitStreamWriter& w) const override
    {
        zserio::detail::write(w, viewOf(value));
    }
    void read(zserio::BitStreamReader& r) override
    {
        zserio::detail::read(r, dst);
    }
    bool same() const override
    {
        return Elem<T>::eq(value, dst);
    }
    void scribble() override
    {
        dst = Elem<T>::scribbled();
    }
    void rewriteFromDestination() override
    {
        value = dst;
    }
};

struct OffsetLog
{
    std::vector<std::pair<size_t, size_t>>* log;
    void setOffset(size_t index, zserio::BitSize byteOffset) const
    {
        sim::Untracked u;
        log->emplace_back(index, byteOffset);
    }
};

using zserio::detail::ArrayType;
constexpr bool isAligned(ArrayType t)
{
    return t == ArrayType::ALIGNED || t == ArrayType::ALIGNED_AUTO;
}
constexpr bool isAuto(ArrayType t)
{
    return t == ArrayType::AUTO || t == ArrayType::ALIGNED_AUTO;
}

// OwnerTraits: void, or array traits with an owner (as the generated code has them for parametrised elements)
template <typename T, ArrayType A, bool PACKED, typename TRAITS, typename OWNER>
struct ArrayFieldBase : Field
{
    std::vector<T> value;
    std::vector<T> dst;
    OWNER owner{};
    std::vector<std::pair<size_t, size_t>> offsets;
    explicit ArrayFieldBase(const std::string& elem) :
            Field(elem +
                    (A == ArrayType::AUTO               ? " auto"
                                    : A == ArrayType::NORMAL ? " normal"
                                    : A == ArrayType::ALIGNED ? " aligned"
                                    : A == ArrayType::ALIGNED_AUTO ? " aligned-auto"
                                                                   : " implicit") +
                    (PACKED ? " packed array" : " array"))
    {
        implicit = A == ArrayType::IMPLICIT;
    }
    virtual void encodeElem(Bits& b, size_t i) const = 0;
    virtual void packElem(Packer& p, size_t i) const = 0;
    auto view() const
    {
        if constexpr (std::is_same_v<TRAITS, void>)
        {
            return zserio::ArrayView<const T>(value);
        }
        else
        {
            return zserio::ArrayView<const T, TRAITS>(value, owner);
        }
    }
    void encode(Bits& b) const override
    {
        std::vector<std::pair<size_t, size_t>> ignored;
        encodeArray(b, ignored);
    }
    void encodeArray(Bits& b, std::vector<std::pair<size_t, size_t>>& offs) const
    {
        if constexpr (isAuto(A))
        {
            obj::encVarsize(b, value.size());
        }
        Packer p;
        if constexpr (PACKED)
        {
            for (size_t i = 0; i < value.size(); ++i)
            {
                packElem(p, i);
            }
            p.collect = false;
            p.out = &b;
        }
        for (size_t i = 0; i < value.size(); ++i)
        {
            if constexpr (isAligned(A))
            {
                b.align(8);
                offs.emplace_back(i, b.size() / 8);
            }
            if constexpr (PACKED)
            {
                packElem(p, i);
            }
            else
            {
                encodeElem(b, i);
            }
        }
    }
    size_t bitSizeOf(size_t pos) const override
    {
        if constexpr (PACKED)
        {
            return zserio::detail::bitSizeOfPacked<A>(view(), pos);
        }
        else
        {
            return zserio::detail::bitSizeOf<A>(view(), pos);
        }
    }
    size_t initOffsets(size_t pos) override
    {
        {
            sim::Untracked u;
            offsets.clear();
        }
        if constexpr (!std::is_same_v<TRAITS, void>)
        {
            return bitSizeOf(pos); // arrays of run-time width integers have no offset initialisation that compiles
        }
        else if constexpr (PACKED)
        {
            return zserio::detail::initializeOffsetsPacked<A>(view(), pos, OffsetLog{&offsets});
        }
        else
        {
            return zserio::detail::initializeOffsets<A>(view(), pos, OffsetLog{&offsets});
        }
    }
    std::string offsetsProblem(size_t pos) const override
    {
        Bits b;
        b.b.resize(pos);
        std::vector<std::pair<size_t, size_t>> want;
        encodeArray(b, want);
        if (offsets == want || !std::is_same_v<TRAITS, void>)
        {
            return std::string();
        }
        for (size_t i = 0; i < want.size(); ++i)
        {
            if (i >= offsets.size() || offsets[i] != want[i])
            {
                return "element " + std::to_string(i) + " starts at byte " + std::to_string(want[i].second) +
                        (i < offsets.size() ? ", offset says " + std::to_string(offsets[i].second) : ", no offset");
            }
        }
        return "too many offsets";
    }
    void validate() const override
    {
        zserio::detail::validate<A>(view(), "field", value.size());
    }
    void write(zserio::BitStreamWriter& w) const override
    {
        if constexpr (PACKED)
        {
            zserio::detail::writePacked<A>(w, view());
        }
        else
        {
            zserio::detail::write<A>(w, view());
        }
    }
    size_t readLength() const
    {
        return A == ArrayType::NORMAL || A == ArrayType::ALIGNED ? value.size() : 0;
    }
    void read(zserio::BitStreamReader& r) override
    {
        if constexpr (std::is_same_v<TRAITS, void>)
        {
            if constexpr (PACKED)
            {
                zserio::detail::readPacked<A>(r, dst, readLength());
            }
            else
            {
                zserio::detail::read<A>(r, dst, readLength());
            }
        }
        else if constexpr (PACKED)
        {
            zserio::detail::readPackedWithTraits<A, TRAITS>(r, dst, owner, readLength());
        }
        else
        {
            zserio::detail::readWithTraits<A, TRAITS>(r, dst, owner, readLength());
        }
    }
    size_t count() const override
    {
        return value.size();
    }
    size_t destinationCount() const override
    {
        return dst.size();
    }
    void rewriteFromDestination() override
    {
        value = dst;
    }
    size_t countedElementSize() const override
    {
        return isAuto(A) ? sizeof(T) : 0;
    }
};

template <typename T, ArrayType A, bool PACKED>
struct ArrayField : ArrayFieldBase<T, A, PACKED, void, int>
{
    using Base = ArrayFieldBase<T, A, PACKED, void, int>;
    using Base::dst;
    using Base::value;
    ArrayField() :
            Base(Elem<T>::name())
    {}
    void gen(Ctx& ctx) override
    {
        genArray(ctx, value);
    }
    bool genBad(Ctx& ctx) override
    {
        return !value.empty() && Elem<T>::bad(ctx, value[ctx.choose(value.size())]);
    }
    void encodeElem(Bits& b, size_t i) const override
    {
        Elem<T>::enc(b, value[i]);
    }
    void packElem(Packer& p, size_t i) const override
    {
        if constexpr (PACKED)
        {
            packValue(p, value[i]);
        }
        else
        {
            (void)p;
            (void)i;
        }
    }
    bool same() const override
    {
        if (value.size() != dst.size())
        {
            return false;
        }
        for (size_t i = 0; i < value.size(); ++i)
        {
            if (!Elem<T>::eq(value[i], dst[i]))
            {
                return false;
            }
        }
        return true;
    }
    void scribble() override
    {
        dst.assign(3, Elem<T>::scribbled());
    }
};

// ---- integers whose width is known at run time only --------------------------------------------------------

struct DynOwner
{
    uint8_t numBits = 1;
};
template <typename T>
struct DynTraits
{
    using OwnerType = DynOwner;
    static zserio::View<T> at(const DynOwner& owner, const T& element, size_t)
    {
        return zserio::View<T>(element, owner.numBits);
    }
    static void read(zserio::BitStreamReader& reader, const DynOwner& owner, T& element, size_t)
    {
        zserio::detail::read(reader, element, owner.numBits);
    }
    static void read(zserio::detail::DeltaContext& context, zserio::BitStreamReader& reader, const DynOwner& owner,
            T& element, size_t)
    {
        zserio::detail::read(context, reader, element, owner.numBits);
    }
};

template <typename T>
struct DynNum
{
    using V = typename T::ValueType;
    static constexpr bool S = std::is_signed_v<V>;
    static i128 lo(unsigned n)
    {
        return S ? -(i128(1) << (n - 1)) : 0;
    }
    static i128 hi(unsigned n)
    {
        return S ? (i128(1) << (n - 1)) - 1 : (i128(1) << n) - 1;
    }
    static i128 num(const T& v)
    {
        return static_cast<i128>(static_cast<V>(v));
    }
    static std::string name()
    {
        return std::string(S ? "dynint" : "dynuint") + std::to_string(sizeof(V) * 8);
    }
};

template <typename T>
struct DynField : Field
{
    using D = DynNum<T>;
    T value{};
    T dst{};
    uint8_t numBits = 1;
    DynField() :
            Field(D::name())
    {}
    void gen(Ctx& ctx) override
    {
        numBits = static_cast<uint8_t>(1 + ctx.choose(sizeof(typename D::V) * 8));
        value = T(static_cast<typename D::V>(genInRange(ctx, D::lo(numBits), D::hi(numBits))));
    }
    bool genBad(Ctx& ctx) override
    {
        if (numBits >= sizeof(typename D::V) * 8)
        {
            return false;
        }
        value = T(static_cast<typename D::V>(
                D::S && ctx.flip(1, 2) ? D::lo(numBits) - 1 : D::hi(numBits) + 1));
        return true;
    }
    void encode(Bits& b) const override
    {
        b.u(static_cast<uint64_t>(D::num(value)), numBits);
    }
    zserio::View<T> view() const
    {
        return zserio::View<T>(value, numBits);
    }
    size_t bitSizeOf(size_t pos) const override
    {
        return zserio::detail::bitSizeOf(view(), pos);
    }
    size_t initOffsets(size_t pos) override
    {
        return bitSizeOf(pos); // integers of run-time width have no offset initialisation
    }
    void validate() const override
    {
        zserio::detail::validate(view(), "field");
    }
    void write(zserio::BitStreamWriter& w) const override
    {
        zserio::detail::write(w, view());
    }
    void read(zserio::BitStreamReader& r) override
    {
        zserio::detail::read(r, dst, numBits);
    }
    bool same() const override
    {
        return D::num(value) == D::num(dst);
    }
    void scribble() override
    {
        dst = T(1);
    }
    void rewriteFromDestination() override
    {
        value = dst;
    }
};

template <typename T, ArrayType A, bool PACKED>
struct DynArrayField : ArrayFieldBase<T, A, PACKED, DynTraits<T>, DynOwner>
{
    using D = DynNum<T>;
    using Base = ArrayFieldBase<T, A, PACKED, DynTraits<T>, DynOwner>;
    using Base::dst;
    using Base::owner;
    using Base::value;
    DynArrayField() :
            Base(D::name())
    {}
    void gen(Ctx& ctx) override
    {
        owner.numBits = static_cast<uint8_t>(1 + ctx.choose(sizeof(typename D::V) * 8));
        const i128 lo = D::lo(owner.numBits);
        const i128 hi = D::hi(owner.numBits);
        const size_t n = genCount(ctx);
        const bool steps = ctx.flip(1, 2);
        i128 cur = genInRange(ctx, lo, hi);
        value.clear();
        for (size_t i = 0; i < n; ++i)
        {
            value.push_back(T(static_cast<typename D::V>(cur)));
            if (steps)
            {
                const i128 next = cur + ctx.range(-3, 3);
                cur = next < lo || next > hi ? cur : next;
            }
            else
            {
                cur = genInRange(ctx, lo, hi);
            }
        }
    }
    bool genBad(Ctx& ctx) override
    {
        if (owner.numBits >= sizeof(typename D::V) * 8 || value.empty())
        {
            return false;
        }
        value[ctx.choose(value.size())] = T(static_cast<typename D::V>(D::hi(owner.numBits) + 1));
        return true;
    }
    void encodeElem(Bits& b, size_t i) const override
    {
        b.u(static_cast<uint64_t>(D::num(value[i])), owner.numBits);
    }
    void packElem(Packer& p, size_t i) const override
    {
        p.num(0, D::num(value[i]), owner.numBits, [&](Bits& b) {
            encodeElem(b, i);
        });
    }
    bool same() const override
    {
        if (value.size() != dst.size())
        {
            return false;
        }
        for (size_t i = 0; i < value.size(); ++i)
        {
            if (D::num(value[i]) != D::num(dst[i]))
            {
                return false;
            }
        }
        return true;
    }
    void scribble() override
    {
        dst.assign(2, T(1));
    }
};

// ---- registration ---------------------------------------------------------------------------------------

template <typename F>
void add(bool implicit = false)
{
    (implicit ? registry().implicit : registry().plain).push_back([](Ctx&) {
        return std::make_unique<F>();
    });
}
template <typename T>
void addScalar()
{
    add<ScalarField<T>>();
}
template <typename T>
void addArrays()
{
    add<ArrayField<T, ArrayType::AUTO, false>>();
    add<ArrayField<T, ArrayType::NORMAL, false>>();
    add<ArrayField<T, ArrayType::ALIGNED_AUTO, false>>();
}
template <typename T>
void addPackedArrays()
{
    add<ArrayField<T, ArrayType::AUTO, true>>();
    add<ArrayField<T, ArrayType::ALIGNED, true>>();
}
template <typename T>
void addImplicit()
{
    add<ArrayField<T, ArrayType::IMPLICIT, false>>(true);
}

} // namespace fields
