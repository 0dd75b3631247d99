// Hand-written packable compounds, laid out the way the code generator lays them out (the pre-generated schema of the
// repository has no packed arrays, no offsets and no alignment).
#pragma once

#include "fields.hpp"

#include <zserio/BitPositionUtil.h>

namespace fields
{

struct Leaf
{
    zserio::VarUInt x{};
    test_object::std_allocator::CreatorEnum y = test_object::std_allocator::CreatorEnum::ONE;
};

struct Node
{
    zserio::UInt5 a{};
    zserio::VarInt b{};
    mutable zserio::UInt32 off{}; // byte offset of d
    zserio::Bool c{};
    zserio::String s{};
    zserio::Int17 d{}; // aligned to a byte
    zserio::Optional<zserio::UInt64> e{};
    Leaf leaf{};
};

} // namespace fields

namespace zserio
{

template <>
class View<fields::Leaf>
{
public:
    explicit View(const fields::Leaf& data) :
            m_data(&data)
    {}
    VarUInt x() const
    {
        return m_data->x;
    }
    test_object::std_allocator::CreatorEnum y() const
    {
        return m_data->y;
    }

private:
    const fields::Leaf* m_data;
};

template <>
class View<fields::Node>
{
public:
    explicit View(const fields::Node& data) :
            m_data(&data)
    {}
    const fields::Node& data() const
    {
        return *m_data;
    }
    View<fields::Leaf> leaf() const
    {
        return View<fields::Leaf>(m_data->leaf);
    }

private:
    const fields::Node* m_data;
};

namespace detail
{

template <>
struct ObjectTraits<fields::Leaf>
{
    struct PackingContext
    {
        DeltaContext x;
        DeltaContext y;
    };
    static void validate(const View<fields::Leaf>& v, std::string_view)
    {
        detail::validate(v.x(), "Leaf.x");
        detail::validate(v.y(), "Leaf.y");
    }
    static BitSize bitSizeOf(const View<fields::Leaf>& v, BitSize pos)
    {
        BitSize end = pos;
        end += detail::bitSizeOf(v.x(), end);
        end += detail::bitSizeOf(v.y(), end);
        return end - pos;
    }
    static void write(BitStreamWriter& w, const View<fields::Leaf>& v)
    {
        detail::write(w, v.x());
        detail::write(w, v.y());
    }
    static View<fields::Leaf> read(BitStreamReader& r, fields::Leaf& d)
    {
        detail::read(r, d.x);
        detail::read(r, d.y);
        return View<fields::Leaf>(d);
    }
    static void initContext(PackingContext& c, const View<fields::Leaf>& v)
    {
        detail::initContext(c.x, v.x());
        detail::initContext(c.y, v.y());
    }
    static BitSize bitSizeOf(PackingContext& c, const View<fields::Leaf>& v, BitSize pos)
    {
        BitSize end = pos;
        end += detail::bitSizeOf(c.x, v.x(), end);
        end += detail::bitSizeOf(c.y, v.y(), end);
        return end - pos;
    }
    static void write(PackingContext& c, BitStreamWriter& w, const View<fields::Leaf>& v)
    {
        detail::write(c.x, w, v.x());
        detail::write(c.y, w, v.y());
    }
    static void read(PackingContext& c, BitStreamReader& r, fields::Leaf& d)
    {
        detail::read(c.x, r, d.x);
        detail::read(c.y, r, d.y);
    }
};

template <>
struct ObjectTraits<fields::Node>
{
    struct PackingContext
    {
        DeltaContext a;
        DeltaContext b;
        DeltaContext c;
        DeltaContext d;
        DeltaContext e;
        ObjectTraits<fields::Leaf>::PackingContext leaf;
    };
    static void validate(const View<fields::Node>& v, std::string_view)
    {
        const auto& n = v.data();
        detail::validate(n.a, "Node.a");
        detail::validate(n.b, "Node.b");
        detail::validate(n.off, "Node.off");
        detail::validate(n.c, "Node.c");
        detail::validate(std::string_view(n.s), "Node.s");
        detail::validate(n.d, "Node.d");
        if (n.e.has_value())
        {
            detail::validate(*n.e, "Node.e");
        }
        detail::validate(v.leaf(), "Node.leaf");
    }
    static BitSize size(const View<fields::Node>& v, BitSize pos, bool set)
    {
        const auto& n = v.data();
        BitSize end = pos;
        end += detail::bitSizeOf(n.a, end);
        end += detail::bitSizeOf(n.b, end);
        end += detail::bitSizeOf(n.off, end);
        end += detail::bitSizeOf(n.c, end);
        end += detail::bitSizeOf(std::string_view(n.s), end);
        end = zserio::alignTo(8, end);
        if (set)
        {
            n.off = static_cast<uint32_t>(end / 8);
        }
        end += detail::bitSizeOf(n.d, end);
        end += 1;
        if (n.e.has_value())
        {
            end += detail::bitSizeOf(*n.e, end);
        }
        end += set ? detail::initializeOffsets(v.leaf(), end) : detail::bitSizeOf(v.leaf(), end);
        return end - pos;
    }
    static BitSize bitSizeOf(const View<fields::Node>& v, BitSize pos)
    {
        return size(v, pos, false);
    }
    static BitSize initializeOffsets(const View<fields::Node>& v, BitSize pos)
    {
        return size(v, pos, true);
    }
    static void write(BitStreamWriter& w, const View<fields::Node>& v)
    {
        const auto& n = v.data();
        detail::write(w, n.a);
        detail::write(w, n.b);
        detail::write(w, n.off);
        detail::write(w, n.c);
        detail::write(w, std::string_view(n.s));
        w.alignTo(8);
        detail::write(w, n.d);
        w.writeBool(n.e.has_value());
        if (n.e.has_value())
        {
            detail::write(w, *n.e);
        }
        detail::write(w, v.leaf());
    }
    static View<fields::Node> read(BitStreamReader& r, fields::Node& n)
    {
        detail::read(r, n.a);
        detail::read(r, n.b);
        detail::read(r, n.off);
        detail::read(r, n.c);
        detail::read(r, n.s);
        r.alignTo(8);
        if (n.off != r.getBitPosition() / 8)
        {
            throw CppRuntimeException("Read: Wrong offset for field 'Node.d'!");
        }
        detail::read(r, n.d);
        if (r.readBool())
        {
            n.e.emplace();
            detail::read(r, *n.e);
        }
        else
        {
            n.e.reset();
        }
        (void)detail::read(r, n.leaf);
        return View<fields::Node>(n);
    }
    static void initContext(PackingContext& c, const View<fields::Node>& v)
    {
        const auto& n = v.data();
        detail::initContext(c.a, n.a);
        detail::initContext(c.b, n.b);
        detail::initContext(c.c, n.c);
        detail::initContext(c.d, n.d);
        if (n.e.has_value())
        {
            detail::initContext(c.e, *n.e);
        }
        detail::initContext(c.leaf, v.leaf());
    }
    static BitSize size(PackingContext& c, const View<fields::Node>& v, BitSize pos, bool set)
    {
        const auto& n = v.data();
        BitSize end = pos;
        end += detail::bitSizeOf(c.a, n.a, end);
        end += detail::bitSizeOf(c.b, n.b, end);
        end += detail::bitSizeOf(n.off, end);
        end += detail::bitSizeOf(c.c, n.c, end);
        end += detail::bitSizeOf(std::string_view(n.s), end);
        end = zserio::alignTo(8, end);
        if (set)
        {
            n.off = static_cast<uint32_t>(end / 8);
        }
        end += detail::bitSizeOf(c.d, n.d, end);
        end += 1;
        if (n.e.has_value())
        {
            end += detail::bitSizeOf(c.e, *n.e, end);
        }
        end += set ? detail::initializeOffsets(c.leaf, v.leaf(), end) : detail::bitSizeOf(c.leaf, v.leaf(), end);
        return end - pos;
    }
    static BitSize bitSizeOf(PackingContext& c, const View<fields::Node>& v, BitSize pos)
    {
        return size(c, v, pos, false);
    }
    static BitSize initializeOffsets(PackingContext& c, const View<fields::Node>& v, BitSize pos)
    {
        return size(c, v, pos, true);
    }
    static void write(PackingContext& c, BitStreamWriter& w, const View<fields::Node>& v)
    {
        const auto& n = v.data();
        detail::write(c.a, w, n.a);
        detail::write(c.b, w, n.b);
        detail::write(w, n.off);
        detail::write(c.c, w, n.c);
        detail::write(w, std::string_view(n.s));
        w.alignTo(8);
        detail::write(c.d, w, n.d);
        w.writeBool(n.e.has_value());
        if (n.e.has_value())
        {
            detail::write(c.e, w, *n.e);
        }
        detail::write(c.leaf, w, v.leaf());
    }
    static void read(PackingContext& c, BitStreamReader& r, fields::Node& n)
    {
        detail::read(c.a, r, n.a);
        detail::read(c.b, r, n.b);
        detail::read(r, n.off);
        detail::read(c.c, r, n.c);
        detail::read(r, n.s);
        r.alignTo(8);
        if (n.off != r.getBitPosition() / 8)
        {
            throw CppRuntimeException("Read: Wrong offset for field 'Node.d'!");
        }
        detail::read(c.d, r, n.d);
        if (r.readBool())
        {
            n.e.emplace();
            detail::read(c.e, r, *n.e);
        }
        else
        {
            n.e.reset();
        }
        detail::read(c.leaf, r, n.leaf);
    }
};

} // namespace detail
} // namespace zserio

namespace fields
{

template <>
struct Elem<Leaf>
{
    static constexpr bool numeric = false;
    static std::string name()
    {
        return "Leaf";
    }
    static size_t fixedBits()
    {
        return 0;
    }
    static void gen(Ctx& ctx, Leaf& v)
    {
        genValue(ctx, v.x);
        genValue(ctx, v.y);
    }
    static bool bad(Ctx&, Leaf&)
    {
        return false;
    }
    static void enc(Bits& b, const Leaf& v)
    {
        Elem<zserio::VarUInt>::enc(b, v.x);
        Elem<test_object::std_allocator::CreatorEnum>::enc(b, v.y);
    }
    static void pack(Packer& p, size_t slot, const Leaf& v)
    {
        p.num(slot, Elem<zserio::VarUInt>::num(v.x), Elem<zserio::VarUInt>::bits(v.x), [&](Bits& b) {
            Elem<zserio::VarUInt>::enc(b, v.x);
        });
        Elem<test_object::std_allocator::CreatorEnum>::pack(p, slot + 1, v.y);
    }
    static bool eq(const Leaf& a, const Leaf& b)
    {
        return a.x == b.x && a.y == b.y;
    }
    static Leaf scribbled()
    {
        return Leaf{zserio::VarUInt(300), test_object::std_allocator::CreatorEnum::TWO};
    }
};

template <>
struct Elem<Node>
{
    static constexpr bool numeric = false;
    static std::string name()
    {
        return "Node";
    }
    static size_t fixedBits()
    {
        return 0;
    }
    static void gen(Ctx& ctx, Node& v)
    {
        if (ctx.flip(1, 2)) // similar nodes, so that packing pays
        {
            v.a = static_cast<uint8_t>(ctx.choose(32));
            v.b = ctx.range(100000, 100004);
            v.d = static_cast<int32_t>(ctx.range(-3, 3));
            if (ctx.flip(1, 2))
            {
                v.e = zserio::UInt64(UINT64_MAX - ctx.choose(5));
            }
            v.leaf.x = (uint64_t(1) << 40) + ctx.choose(9);
        }
        else
        {
            genValue(ctx, v.a);
            genValue(ctx, v.b);
            genValue(ctx, v.d);
            if (ctx.flip(1, 2))
            {
                zserio::UInt64 e;
                genValue(ctx, e);
                v.e = e;
            }
            genValue(ctx, v.leaf);
        }
        genValue(ctx, v.c);
        genValue(ctx, v.s);
    }
    static bool bad(Ctx& ctx, Node& v)
    {
        return Elem<zserio::Int17>::bad(ctx, v.d);
    }
    template <typename T>
    static void one(Bits* plain, Packer* p, size_t slot, const T& v)
    {
        if (p != nullptr)
        {
            p->num(slot, Elem<T>::num(v), Elem<T>::bits(v), [&](Bits& b) {
                Elem<T>::enc(b, v);
            });
        }
        else
        {
            Elem<T>::enc(*plain, v);
        }
    }
    static void all(Bits* b, Packer* p, const Node& v)
    {
        one(b, p, 0, v.a);
        one(b, p, 1, v.b);
        if (b == nullptr) // collecting
        {
            one(b, p, 2, v.c);
            one(b, p, 3, v.d);
            if (v.e.has_value())
            {
                one(b, p, 4, *v.e);
            }
            Elem<Leaf>::pack(*p, 5, v.leaf);
            return;
        }
        const size_t offAt = b->size();
        b->u(0, 32);
        one(b, p, 2, v.c);
        Elem<zserio::String>::enc(*b, v.s);
        b->align(8);
        for (unsigned i = 0; i < 32; ++i)
        {
            b->b[offAt + i] = static_cast<uint8_t>(((b->size() / 8) >> (31 - i)) & 1U);
        }
        one(b, p, 3, v.d);
        b->u(v.e.has_value() ? 1 : 0, 1);
        if (v.e.has_value())
        {
            one(b, p, 4, *v.e);
        }
        if (p != nullptr)
        {
            Elem<Leaf>::pack(*p, 5, v.leaf);
        }
        else
        {
            Elem<Leaf>::enc(*b, v.leaf);
        }
    }
    static void enc(Bits& b, const Node& v)
    {
        all(&b, nullptr, v);
    }
    static void pack(Packer& p, size_t, const Node& v)
    {
        all(p.collect ? nullptr : p.out, &p, v);
    }
    static bool eq(const Node& a, const Node& b)
    {
        return a.a == b.a && a.b == b.b && a.off == b.off && a.c == b.c && Elem<zserio::String>::eq(a.s, b.s) &&
                a.d == b.d && a.e.has_value() == b.e.has_value() && (!a.e.has_value() || *a.e == *b.e) &&
                Elem<Leaf>::eq(a.leaf, b.leaf);
    }
    static Node scribbled()
    {
        Node n;
        n.s = "previous content of a node";
        n.e = zserio::UInt64(7);
        n.off = 3;
        return n;
    }
};

// like ScalarField, but the real functions work on views
template <typename T>
struct CompoundField : Field
{
    T value{};
    T dst{};
    CompoundField() :
            Field(Elem<T>::name())
    {}
    void gen(Ctx& ctx) override
    {
        genValue(ctx, value);
    }
    bool genBad(Ctx& ctx) override
    {
        return Elem<T>::bad(ctx, value);
    }
    void encode(Bits& b) const override
    {
        Elem<T>::enc(b, value);
    }
    zserio::View<T> view() const
    {
        return zserio::View<T>(value);
    }
    size_t bitSizeOf(size_t pos) const override
    {
        return zserio::detail::bitSizeOf(view(), pos);
    }
    size_t initOffsets(size_t pos) override
    {
        return zserio::detail::initializeOffsets(view(), pos);
    }
    void validate() const override
    {
        zserio::detail::validate(view(), "field");
    }
    void write(zserio::BitStreamWriter& w) const override
    {
        zserio::detail::write(w, view());
    }
    void read(zserio::BitStreamReader& r) override
    {
        (void)zserio::detail::read(r, dst);
    }
    bool same() const override
    {
        return Elem<T>::eq(value, dst);
    }
    void scribble() override
    {
        dst = Elem<T>::scribbled();
    }
    void rewriteFromDestination() override
    {
        value = dst;
    }
};

} // namespace fields
