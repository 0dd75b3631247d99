// P13: step-by-step tree building accepts exactly the legal calls; rejected and failed calls leave it as it was.
#include "reflect.hpp"
#include "subjects.hpp"

#include <zserio/ZserioTreeCreator.h>

using namespace subjects;
using sim::Ctx;
using sim::g_heap;
using subject::Subject;
using tree::Field;
using tree::Node;
using tree::Slot;
using tree::Type;

namespace
{

// ---- values offered ------------------------------------------------------------------------------------

enum Form
{
    F_BOOL,
    F_I8,
    F_I16,
    F_I32,
    F_I64,
    F_U8,
    F_U16,
    F_U32,
    F_U64,
    F_FLOAT,
    F_DOUBLE,
    F_WINT8, // numeric wrappers
    F_WINT5,
    F_WVARINT64,
    F_WUINT16,
    F_WVARSIZE,
    F_WVARUINT,
    F_STRING,
    F_VIEW,
    F_CSTR,
    F_BYTES,
    F_BITS,
    F_ENUM, // CreatorEnum
    F_UENUM, // CreatorUnsignedEnum
    F_RENUM, // ReflectableEnum
    F_MASK, // CreatorBitmask
    F_WMASK, // WalkerBitmask
    F_COUNT,
    F_NULL, // only as Any or as a field value
    F_EMPTY, // only as Any
    F_COMPOUND // only as Any
};

const char* const FORM_NAMES[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float",
        "double", "Int8", "Int5", "VarInt64", "UInt16", "VarSize", "VarUInt", "String", "string_view", "const char*", "Bytes",
        "BitBuffer", "CreatorEnum", "CreatorUnsignedEnum", "ReflectableEnum", "CreatorBitmask", "WalkerBitmask", "-", "null",
        "empty", "compound"};

struct Val
{
    Form form = F_BOOL;
    bool any = false; // wrapped in Any
    Node n; // u, d, s, bytes
};

template <class T>
const Type* typeOf()
{
    return &tree::Bind<T>::type();
}

// calls fn with the C++ value
template <class F>
void withValue(const Val& v, F fn)
{
    switch (v.form)
    {
#define NATIVE(form, T) \
    case form: \
        fn(static_cast<T>(v.n.u)); \
        break;
        NATIVE(F_BOOL, bool)
        NATIVE(F_I8, int8_t)
        NATIVE(F_I16, int16_t)
        NATIVE(F_I32, int32_t)
        NATIVE(F_I64, int64_t)
        NATIVE(F_U8, uint8_t)
        NATIVE(F_U16, uint16_t)
        NATIVE(F_U32, uint32_t)
        NATIVE(F_U64, uint64_t)
#undef NATIVE
    case F_FLOAT:
        fn(static_cast<float>(v.n.d));
        break;
    case F_DOUBLE:
        fn(v.n.d);
        break;
#define WRAPPED(form, T, V) \
    case form: \
        fn(T(static_cast<V>(v.n.u))); \
        break;
        WRAPPED(F_WINT8, zserio::Int8, int8_t)
        WRAPPED(F_WINT5, zserio::Int5, int8_t)
        WRAPPED(F_WVARINT64, zserio::VarInt64, int64_t)
        WRAPPED(F_WUINT16, zserio::UInt16, uint16_t)
        WRAPPED(F_WVARSIZE, zserio::VarSize, uint32_t)
        WRAPPED(F_WVARUINT, zserio::VarUInt, uint64_t)
#undef WRAPPED
    case F_STRING:
        fn(zserio::String(v.n.s.data(), v.n.s.size()));
        break;
    case F_VIEW:
        fn(std::string_view(v.n.s));
        break;
    case F_CSTR:
        fn(static_cast<const char*>(v.n.s.c_str()));
        break;
    case F_BYTES:
        fn(zserio::Bytes(v.n.bytes.begin(), v.n.bytes.end()));
        break;
    case F_BITS:
        fn(zserio::BitBuffer(zserio::Span<const uint8_t>(v.n.bytes.data(), v.n.bytes.size()), v.n.bits));
        break;
#define BOUND(form, T) \
    case form: \
    { \
        T x{}; \
        tree::Bind<T>::from(x, v.n); \
        fn(std::move(x)); \
        break; \
    }
        BOUND(F_ENUM, sink::to::CreatorEnum)
        BOUND(F_UENUM, sink::to::CreatorUnsignedEnum)
        BOUND(F_RENUM, sink::to::ReflectableEnum)
        BOUND(F_MASK, sink::to::CreatorBitmask)
        BOUND(F_WMASK, sink::to::WalkerBitmask)
    default:
        break;
    }
}

template <class T>
zserio::Any objectAny(const Node& n)
{
    T x;
    tree::Bind<T>::from(x, n);
    return zserio::Any(std::move(x), sink::Alloc());
}

struct Compound
{
    const Type* (*type)();
    zserio::Any (*make)(const Node&);
};
#define COMPOUND(T) Compound{typeOf<T>, objectAny<T>}
const Compound COMPOUNDS[] = {COMPOUND(sink::to::CreatorNested), COMPOUND(sink::to::CreatorObject),
        COMPOUND(sink::to::WalkerNested), COMPOUND(sink::to::WalkerUnion), COMPOUND(sink::to::WalkerChoice),
        COMPOUND(sink::to::ReflectableNested), COMPOUND(sink::to::ReflectableChoice), COMPOUND(sink::to::ReflectableUnion),
        COMPOUND(sink::Inner)};
#undef COMPOUND

zserio::Any anyOf(const Val& v)
{
    const sink::Alloc a;
    if (v.form == F_NULL)
    {
        return zserio::Any(nullptr, a);
    }
    if (v.form == F_EMPTY)
    {
        return zserio::Any(a);
    }
    if (v.form == F_COMPOUND)
    {
        for (const Compound& c : COMPOUNDS)
        {
            if (c.type() == v.n.type)
            {
                return c.make(v.n);
            }
        }
    }
    zserio::Any r(a);
    withValue(v, [&](auto&& x) {
        r = zserio::Any(std::forward<decltype(x)>(x), a);
    });
    return r;
}

bool formSigned(Form f)
{
    return (f >= F_I8 && f <= F_I64) || f == F_WINT8 || f == F_WINT5 || f == F_WVARINT64;
}
bool formInteger(Form f)
{
    return (f >= F_I8 && f <= F_U64) || (f >= F_WINT8 && f <= F_WVARUINT);
}
unsigned formBits(Form f)
{
    switch (f)
    {
    case F_I8:
    case F_U8:
    case F_WINT8:
    case F_WINT5:
        return 8;
    case F_I16:
    case F_U16:
    case F_WUINT16:
        return 16;
    case F_I32:
    case F_U32:
    case F_WVARSIZE:
        return 32;
    default:
        return 64;
    }
}

bool fits(uint64_t u, bool isSigned, unsigned bits, bool toSigned)
{
    if (isSigned && static_cast<int64_t>(u) < 0)
    {
        return toSigned && static_cast<int64_t>(u) >= (INT64_MIN >> (64 - bits));
    }
    const uint64_t max = toSigned ? (~0ULL >> (65 - bits)) : (bits == 64 ? ~0ULL : (1ULL << bits) - 1);
    return u <= max;
}

const Type* formType(Form f)
{
    switch (f)
    {
    case F_ENUM:
        return typeOf<sink::to::CreatorEnum>();
    case F_UENUM:
        return typeOf<sink::to::CreatorUnsignedEnum>();
    case F_RENUM:
        return typeOf<sink::to::ReflectableEnum>();
    case F_MASK:
        return typeOf<sink::to::CreatorBitmask>();
    case F_WMASK:
        return typeOf<sink::to::WalkerBitmask>();
    default:
        return nullptr;
    }
}

// what the field will hold; false when the value must be rejected
bool convert(const Val& v, const Type& t, Node& out)
{
    out = Node();
    out.type = &t;
    out.slots.resize(t.fields.size());
    const bool native = v.form < F_WINT8;
    const bool text = v.form == F_STRING || v.form == F_VIEW || v.form == F_CSTR;
    switch (t.kind)
    {
    case tree::BOOL:
        out.u = v.n.u != 0;
        return v.form == F_BOOL;
    case tree::FLT:
    case tree::DBL:
        if (v.form == F_FLOAT || v.form == F_DOUBLE)
        {
            out.d = t.kind == tree::FLT || v.form == F_FLOAT ? static_cast<double>(static_cast<float>(v.n.d)) : v.n.d;
            return !v.any || (v.form == F_FLOAT) == (t.kind == tree::FLT);
        }
        if (!formInteger(v.form) || v.any)
        {
            return false;
        }
        if (t.kind == tree::FLT)
        {
            out.d = static_cast<double>(
                    formSigned(v.form) ? static_cast<float>(static_cast<int64_t>(v.n.u)) : static_cast<float>(v.n.u));
        }
        else
        {
            out.d = formSigned(v.form) ? static_cast<double>(static_cast<int64_t>(v.n.u)) : static_cast<double>(v.n.u);
        }
        return true;
    case tree::INT:
    case tree::UINT:
    {
        out.u = v.n.u;
        const bool isSigned = t.kind == tree::INT;
        if (!formInteger(v.form))
        {
            return false;
        }
        if (v.any) // exactly the C++ type of the value (wrappers are not offered in this way)
        {
            return native && formSigned(v.form) == isSigned && formBits(v.form) == t.bits;
        }
        return fits(v.n.u, formSigned(v.form), t.bits, isSigned);
    }
    case tree::ENUM:
    case tree::MASK:
        if (formType(v.form) == &t)
        {
            out.u = v.n.u;
            return true;
        }
        if (formInteger(v.form))
        {
            out.u = v.n.u;
            if (t.kind == tree::ENUM && !t.known(v.n.u))
            {
                return false;
            }
            if (v.any)
            {
                return native && formSigned(v.form) == t.isSigned && formBits(v.form) == t.bits;
            }
            return fits(v.n.u, formSigned(v.form), t.bits, t.isSigned);
        }
        if (text && !v.any)
        {
            if (t.kind == tree::ENUM)
            {
                for (const tree::Item& it : t.items)
                {
                    if (v.n.s == it.name)
                    {
                        out.u = it.value;
                        return true;
                    }
                }
                return false;
            }
            // names joined by "|" (the generator keeps to names, unknown words and plain numbers)
            if (!v.n.s.empty() && v.n.s[0] >= '0' && v.n.s[0] <= '9')
            {
                errno = 0;
                out.u = std::strtoull(v.n.s.c_str(), nullptr, 10);
                return errno == 0 && fits(out.u, false, t.bits, false);
            }
            size_t at = 0;
            while (true)
            {
                while (at < v.n.s.size() && v.n.s[at] == ' ')
                {
                    ++at;
                }
                size_t end = at;
                while (end < v.n.s.size() && v.n.s[end] != ' ' && v.n.s[end] != '|')
                {
                    ++end;
                }
                const std::string word = v.n.s.substr(at, end - at);
                bool found = false;
                for (const tree::Item& it : t.items)
                {
                    if (word == it.name)
                    {
                        out.u |= it.value;
                        found = true;
                    }
                }
                if (!found)
                {
                    return false;
                }
                at = v.n.s.find('|', end);
                if (at == std::string::npos)
                {
                    return true;
                }
                ++at;
            }
        }
        return false;
    case tree::STR:
        out.s = v.form == F_CSTR ? std::string(v.n.s.c_str()) : v.n.s;
        return v.form == F_STRING || (text && !v.any);
    case tree::BYTES:
        out.bytes = v.n.bytes;
        return v.form == F_BYTES;
    case tree::BITS:
        out.bytes = v.n.bytes;
        out.bits = v.n.bits;
        return v.form == F_BITS;
    default:
        if (v.form != F_COMPOUND || v.n.type != &t)
        {
            return false;
        }
        out = v.n;
        return true;
    }
}

void genForm(Ctx& ctx, Val& v, Form f, const tree::Gen& g)
{
    v.form = f;
    if (f == F_BOOL)
    {
        v.n.u = ctx.choose(2);
    }
    else if (formInteger(f))
    {
        const unsigned bits = ctx.flip(1, 2) ? formBits(f) : std::min(formBits(f), 3U);
        v.n.u = obj::genUInt(ctx, bits);
        if (formSigned(f) && bits == formBits(f))
        {
            v.n.u = static_cast<uint64_t>(static_cast<int64_t>(v.n.u << (64 - bits)) >> static_cast<int>(64 - bits));
        }
    }
    else if (f == F_FLOAT || f == F_DOUBLE)
    {
        v.n.d = static_cast<double>(ctx.range(-4096, 4096)) / static_cast<double>(1U << ctx.choose(12));
        if (f == F_DOUBLE && ctx.flip(1, 3))
        {
            v.n.d += 1e-9;
        }
    }
    else if (f >= F_STRING && f <= F_CSTR)
    {
        static const char* const WORDS[] = {"ONE", "TWO", "MinusOne", "VALUE1", "VALUE3", "READ", "WRITE", "READ | WRITE",
                "READ|WRITE", "WRITE  |  READ", "ZERO", "ONE ", "ONEX", "one", "READX", "WRIT", "READWRITE", "READ |  | WRITE", "READ | READ", "WRITE|READ | WRITE", "READ | NONE", "0", "3", "200",
                "256", "99999999999999999999", "-1", ""};
        v.n.s = ctx.flip(1, 2) ? obj::genString(ctx, g.text) : WORDS[ctx.choose(sizeof(WORDS) / sizeof(WORDS[0]))];
        if (!v.n.s.empty() && v.n.s[0] >= '0' && v.n.s[0] <= '9')
        {
            v.n.s = v.n.s.substr(0, v.n.s.find_first_not_of("0123456789"));
        }
    }
    else if (f == F_BYTES || f == F_BITS)
    {
        v.n = tree::genNode(ctx, f == F_BYTES ? *typeOf<zserio::Bytes>() : *typeOf<zserio::BitBuffer>(), g);
    }
    else if (formType(f) != nullptr)
    {
        v.n = tree::genNode(ctx, *formType(f), g);
    }
}

// a value which mostly suits the type
Val genVal(Ctx& ctx, const Type* t, const tree::Gen& g)
{
    Val v;
    if (t == nullptr || ctx.flip(1, 5)) // anything
    {
        v.any = ctx.flip(1, 4);
        const size_t f = ctx.choose(F_COUNT + (v.any ? 4U : 0U));
        if (f >= F_COUNT)
        {
            v.form = f == F_COUNT ? F_NULL : f == F_COUNT + 1 ? F_EMPTY : F_COMPOUND;
            if (v.form == F_COMPOUND)
            {
                v.n = tree::genNode(ctx, *COMPOUNDS[ctx.choose(sizeof(COMPOUNDS) / sizeof(COMPOUNDS[0]))].type(), g);
            }
            return v;
        }
        genForm(ctx, v, static_cast<Form>(f), g);
        if (v.any && f >= F_WINT8 && f <= F_WVARUINT) // the field's own wrapper is not known here
        {
            v.any = false;
        }
        return v;
    }
    v.any = ctx.flip(1, 4);
    switch (t->kind)
    {
    case tree::BOOL:
        genForm(ctx, v, F_BOOL, g);
        break;
    case tree::FLT:
        genForm(ctx, v, v.any ? F_FLOAT : ctx.flip(1, 2) ? F_DOUBLE : static_cast<Form>(ctx.range(F_I8, F_DOUBLE)), g);
        break;
    case tree::DBL:
        genForm(ctx, v, v.any ? F_DOUBLE : ctx.flip(1, 2) ? F_DOUBLE : static_cast<Form>(ctx.range(F_I8, F_DOUBLE)), g);
        break;
    case tree::INT:
    case tree::UINT:
    {
        const unsigned log = t->bits == 8 ? 0 : t->bits == 16 ? 1 : t->bits == 32 ? 2 : 3;
        const Form own = static_cast<Form>((t->kind == tree::INT ? F_I8 : F_U8) + log);
        if (v.any || ctx.flip(1, 2))
        {
            genForm(ctx, v, own, g);
        }
        else
        {
            const size_t f = ctx.choose(14);
            genForm(ctx, v, static_cast<Form>(f < 8 ? F_I8 + f : F_WINT8 + (f - 8)), g);
        }
        break;
    }
    case tree::ENUM:
    case tree::MASK:
        for (int f = F_ENUM; f <= F_WMASK; ++f)
        {
            if (formType(static_cast<Form>(f)) == t)
            {
                v.form = static_cast<Form>(f);
            }
        }
        v.n = tree::genNode(ctx, *t, g);
        if (!v.any && ctx.flip(2, 3))
        {
            if (ctx.flip(1, 2))
            {
                genForm(ctx, v, static_cast<Form>(ctx.range(F_STRING, F_CSTR)), g);
            }
            else
            {
                genForm(ctx, v, static_cast<Form>(ctx.range(F_I8, F_U64)), g);
            }
        }
        break;
    case tree::STR:
        genForm(ctx, v, v.any ? F_STRING : static_cast<Form>(ctx.range(F_STRING, F_CSTR)), g);
        break;
    case tree::BYTES:
        genForm(ctx, v, F_BYTES, g);
        break;
    case tree::BITS:
        genForm(ctx, v, F_BITS, g);
        break;
    default:
        v.any = true;
        v.form = F_COMPOUND;
        v.n = tree::genNode(ctx, *t, g);
        break;
    }
    return v;
}

// ---- the model -----------------------------------------------------------------------------------------

struct Level
{
    int field;
    bool array; // inside the array itself
    size_t element; // inside this element of it, when field is an array and !array
};

enum Op
{
    BEGIN_ROOT,
    END_ROOT,
    BEGIN_ARRAY,
    END_ARRAY,
    BEGIN_COMPOUND,
    END_COMPOUND,
    SET_VALUE,
    SET_NULL,
    FIELD_TYPE,
    BEGIN_ELEMENT,
    END_ELEMENT,
    ADD_VALUE,
    ELEMENT_TYPE,
    OPS
};
const char* const OP_NAMES[] = {"beginRoot", "endRoot", "beginArray", "endArray", "beginCompound", "endCompound", "setValue",
        "setValue(null)", "getFieldType", "beginCompoundElement", "endCompoundElement", "addValueElement", "getElementType"};

struct Model
{
    const Type& root;
    bool started = false;
    std::vector<Level> path;
    std::vector<Node> could; // what the tree may be by now; more than one only after memory ran out

    explicit Model(const Type& t) :
            root(t)
    {}
    bool inArray() const
    {
        return started && !path.empty() && path.back().array;
    }
    bool inCompound() const
    {
        return started && !inArray();
    }
    const Type& compound() const // of the compound we are in (or whose array we are in)
    {
        const Type* t = &root;
        for (size_t i = 0; i < path.size() && !path[i].array; ++i)
        {
            t = t->fields[static_cast<size_t>(path[i].field)].type;
        }
        return *t;
    }
    const Field& arrayField() const
    {
        return compound().fields[static_cast<size_t>(path.back().field)];
    }
    Node& at(Node& top) const
    {
        Node* n = &top;
        for (size_t i = 0; i < path.size() && !path[i].array; ++i)
        {
            Slot& s = n->slots[static_cast<size_t>(path[i].field)];
            n = &s.nodes[n->type->fields[static_cast<size_t>(path[i].field)].array ? path[i].element : 0];
        }
        return *n;
    }
};

void put(Node& parent, int field, Slot s)
{
    if (parent.type->hasChoice())
    {
        for (Slot& o : parent.slots)
        {
            o = Slot();
        }
        parent.choice = field;
    }
    parent.slots[static_cast<size_t>(field)] = std::move(s);
}

Slot emptySlot(const Field& f)
{
    Slot s;
    s.present = true;
    if (!f.array)
    {
        s.nodes.push_back(tree::defaultNode(*f.type));
    }
    return s;
}

zserio::CppType cppType(const Type& t)
{
    using C = zserio::CppType;
    switch (t.kind)
    {
    case tree::BOOL:
        return C::BOOL;
    case tree::INT:
        return t.bits == 8 ? C::INT8 : t.bits == 16 ? C::INT16 : t.bits == 32 ? C::INT32 : C::INT64;
    case tree::UINT:
        return t.bits == 8 ? C::UINT8 : t.bits == 16 ? C::UINT16 : t.bits == 32 ? C::UINT32 : C::UINT64;
    case tree::FLT:
        return C::FLOAT;
    case tree::DBL:
        return C::DOUBLE;
    case tree::STR:
        return C::STRING;
    case tree::BYTES:
        return C::BYTES;
    case tree::BITS:
        return C::BIT_BUFFER;
    case tree::ENUM:
        return C::ENUM;
    case tree::MASK:
        return C::BITMASK;
    case tree::STRUCT:
        return C::STRUCT;
    case tree::CHOICE:
        return C::CHOICE;
    default:
        return C::UNION;
    }
}

void addCandidate(std::vector<Node>& list, const Node& n)
{
    for (const Node& o : list)
    {
        if (tree::equal(o, n))
        {
            return;
        }
    }
    list.push_back(n);
}

std::string show(const Val& v)
{
    std::string s = std::string(v.any ? "Any:" : "") + FORM_NAMES[v.form];
    if (v.form <= F_WVARUINT && v.form != F_FLOAT && v.form != F_DOUBLE)
    {
        s += " " + (formSigned(v.form) ? std::to_string(v.n.i()) : std::to_string(v.n.u));
    }
    if (v.form >= F_STRING && v.form <= F_CSTR && v.n.s.size() < 30)
    {
        s += " '" + v.n.s + "'";
    }
    return s;
}

// ---- the run -------------------------------------------------------------------------------------------

struct Finished
{
    zserio::IReflectableDataPtr tree;
    Node content;
};

class Run
{
public:
    explicit Run(Ctx& ctx) :
            m_ctx(ctx),
            m_subject(genSubject(ctx)),
            m_model(m_subject->type()),
            m_gen(genOptions(ctx))
    {
        m_gen.text.bigSometimes = false;
    }
    void go()
    {
        const uint64_t blocks = g_heap.liveBlocks;
        {
            std::optional<zserio::ZserioTreeCreator> creator;
            {
                sim::Tracked t;
                creator.emplace(m_subject->info());
            }
            size_t n = 0;
            while (n < 200 && (n < 4 || m_ctx.more(29, 30)))
            {
                ++n;
                call(*creator);
            }
            if (m_ctx.flip(3, 4)) // bring it to its end, else it is given up half-way
            {
                finish(*creator);
            }
        }
        for (const Finished& f : m_finished)
        {
            const Node now = m_subject->of(*f.tree);
            if (!tree::equal(now, f.content))
            {
                m_ctx.fail("tree-changed", "a tree handed out earlier has changed at %s",
                        tree::difference(f.content, now).c_str());
            }
        }
        m_finished.clear();
        if (g_heap.liveBlocks != blocks)
        {
            m_ctx.fail("leak", "%lld blocks are left after building", static_cast<long long>(g_heap.liveBlocks - blocks));
        }
    }

private:
    void finish(zserio::ZserioTreeCreator& c)
    {
        for (int i = 0; m_model.started && i < 20; ++i)
        {
            const Op op = m_model.inArray() ? END_ARRAY
                    : m_model.path.empty()  ? END_ROOT
                    : atElement()           ? END_ELEMENT
                                            : END_COMPOUND;
            perform(c, op, -1, "", Val(), false);
        }
    }
    bool atElement() const
    {
        if (m_model.path.empty() || m_model.inArray())
        {
            return false;
        }
        const Type* t = &m_model.root;
        for (size_t i = 0; i + 1 < m_model.path.size(); ++i)
        {
            t = t->fields[static_cast<size_t>(m_model.path[i].field)].type;
        }
        return t->fields[static_cast<size_t>(m_model.path.back().field)].array;
    }
    int genField(const Type& t, bool (*want)(const Field&))
    {
        std::vector<int> all;
        for (size_t i = 0; i < t.fields.size(); ++i)
        {
            if (want(t.fields[i]))
            {
                all.push_back(static_cast<int>(i));
            }
        }
        return all.empty() ? static_cast<int>(m_ctx.choose(t.fields.size())) : all[m_ctx.choose(all.size())];
    }
    void call(zserio::ZserioTreeCreator& c)
    {
        Op op = ELEMENT_TYPE;
        int field = -1;
        std::string name;
        Val v;
        const bool stray = m_ctx.flip(1, 6); // a call that need not fit the position
        if (stray)
        {
            op = static_cast<Op>(m_ctx.choose(OPS));
        }
        else if (!m_model.started)
        {
            op = BEGIN_ROOT;
        }
        else if (m_model.inArray())
        {
            const bool compound = m_model.arrayField().type->compound();
            static const Op O[] = {END_ARRAY, ADD_VALUE, BEGIN_ELEMENT, ELEMENT_TYPE};
            op = O[compound ? m_ctx.pick({3, 2, 6, 1}) : m_ctx.pick({3, 9, 0, 1})];
        }
        else
        {
            static const Op O[] = {END_COMPOUND, SET_VALUE, SET_NULL, BEGIN_ARRAY, BEGIN_COMPOUND, FIELD_TYPE};
            op = O[m_ctx.pick({2, 10, 1, 4, 5, 1})];
            if (op == END_COMPOUND)
            {
                op = m_model.path.empty() ? (m_ctx.flip(1, 2) ? END_ROOT : FIELD_TYPE) : atElement() ? END_ELEMENT : END_COMPOUND;
            }
        }
        if (op == BEGIN_ARRAY || op == BEGIN_COMPOUND || op == SET_VALUE || op == SET_NULL || op == FIELD_TYPE)
        {
            const Type& t = m_model.compound();
            if (stray || m_ctx.flip(1, 8))
            {
                static const char* const NAMES[] = {"", "value", "nested", "nosuch", "VALUE", "text ", "nestedArray", "inner"};
                if (m_ctx.flip(1, 2))
                {
                    name = NAMES[m_ctx.choose(8)];
                    field = t.find(name);
                }
                else
                {
                    field = static_cast<int>(m_ctx.choose(t.fields.size()));
                }
            }
            else
            {
                field = op == BEGIN_ARRAY ? genField(t,
                                                    [](const Field& f) {
                                                        return f.array;
                                                    })
                        : op == BEGIN_COMPOUND ? genField(t,
                                                         [](const Field& f) {
                                                             return !f.array && f.type->compound();
                                                         })
                                               : genField(t, [](const Field& f) {
                                                     return !f.array;
                                                 });
            }
            if (field >= 0)
            {
                name = t.fields[static_cast<size_t>(field)].name;
            }
            if (op == SET_VALUE)
            {
                v = genVal(m_ctx, field >= 0 ? t.fields[static_cast<size_t>(field)].type : nullptr, m_gen);
            }
        }
        if (op == ADD_VALUE)
        {
            v = genVal(m_ctx, m_model.inArray() ? m_model.arrayField().type : nullptr, m_gen);
            if (m_ctx.flip(1, 16))
            {
                v = Val();
                v.form = F_NULL; // itself, not in an Any
                v.any = false;
            }
        }
        perform(c, op, field, name, v, m_ctx.flip(1, 5));
    }

    // the model's verdict; next holds the tree after the call, for one candidate
    bool legal(Op op, int field, const Val& v)
    {
        const bool inC = m_model.inCompound();
        const bool inA = m_model.inArray();
        const Field* f = nullptr;
        if (m_model.started && field >= 0 && inC)
        {
            f = &m_model.compound().fields[static_cast<size_t>(field)];
        }
        Node ignored;
        switch (op)
        {
        case BEGIN_ROOT:
            return !m_model.started;
        case END_ROOT:
            return inC && m_model.path.empty();
        case BEGIN_ARRAY:
            return inC && f != nullptr && f->array;
        case END_ARRAY:
            return inA;
        case BEGIN_COMPOUND:
            return inC && f != nullptr && !f->array && f->type->compound();
        case END_COMPOUND:
            return inC && !m_model.path.empty() && !atElement();
        case SET_VALUE:
            if (!inC || f == nullptr || f->array)
            {
                return false;
            }
            return (v.any && v.form == F_NULL && f->optional) || convert(v, *f->type, ignored);
        case SET_NULL:
        case FIELD_TYPE:
            return inC && f != nullptr;
        case BEGIN_ELEMENT:
            return inA && m_model.arrayField().type->compound();
        case END_ELEMENT:
            return inC && atElement();
        case ADD_VALUE:
            return inA && convert(v, *m_model.arrayField().type, ignored);
        default:
            return inA;
        }
    }

    void perform(zserio::ZserioTreeCreator& c, Op op, int field, const std::string& fieldName, const Val& v, bool fault)
    {
        const bool isLegal = legal(op, field, v);
        zserio::String name(fieldName.data(), fieldName.size());
        const zserio::ITypeInfo* info = nullptr;
        zserio::IReflectableDataPtr result;
        zserio::Any any{sink::Alloc()};
        if (v.any)
        {
            any = anyOf(v);
        }
        fault = fault && m_model.could.size() < 8;
        enum
        {
            DONE,
            REJECTED,
            NO_MEMORY
        } out = DONE;
        std::string what;
        if (fault)
        {
            const uint64_t at = m_ctx.choose(m_ctx.flip(1, 2) ? 3 : 12);
            g_heap.plan.set(at, m_ctx.flip(1, 2) ? 1 : UINT64_MAX);
        }
        try
        {
            sim::Tracked t;
            switch (op)
            {
            case BEGIN_ROOT:
                c.beginRoot();
                break;
            case END_ROOT:
                result = c.endRoot();
                break;
            case BEGIN_ARRAY:
                c.beginArray(name);
                break;
            case END_ARRAY:
                c.endArray();
                break;
            case BEGIN_COMPOUND:
                c.beginCompound(name);
                break;
            case END_COMPOUND:
                c.endCompound();
                break;
            case SET_VALUE:
                if (v.any)
                {
                    c.setValue(name, std::move(any));
                }
                else
                {
                    withValue(v, [&](auto&& x) {
                        c.setValue(name, std::forward<decltype(x)>(x));
                    });
                }
                break;
            case SET_NULL:
                c.setValue(name, nullptr);
                break;
            case FIELD_TYPE:
                info = &c.getFieldType(name);
                break;
            case BEGIN_ELEMENT:
                c.beginCompoundElement();
                break;
            case END_ELEMENT:
                c.endCompoundElement();
                break;
            case ADD_VALUE:
                if (v.any)
                {
                    c.addValueElement(std::move(any));
                }
                else if (v.form == F_NULL)
                {
                    c.addValueElement(nullptr);
                }
                else
                {
                    withValue(v, [&](auto&& x) {
                        c.addValueElement(std::forward<decltype(x)>(x));
                    });
                }
                break;
            default:
                info = &c.getElementType();
                break;
            }
        }
        catch (const zserio::CppRuntimeException& e)
        {
            out = REJECTED;
            what = e.what();
        }
        catch (const std::bad_alloc&)
        {
            out = NO_MEMORY;
        }
        const bool fired = g_heap.plan.fired != 0;
        g_heap.plan.clear();
        m_ctx.step();
        m_ctx.log("%s(%s%s%s): %s%s%s", OP_NAMES[op], fieldName.c_str(), fieldName.empty() ? "" : " ",
                op == SET_VALUE || op == ADD_VALUE ? show(v).c_str() : "",
                out == DONE           ? "done"
                        : out == REJECTED ? "rejected: "
                                          : "no memory",
                what.c_str(), fired ? " (memory was refused)" : "");
        m_ctx.shape(static_cast<uint64_t>(op) * 8 + static_cast<uint64_t>(out) * 2 + fired);
        m_ctx.state(sim::mix(static_cast<uint64_t>(m_model.started) + m_model.path.size() * 2) ^
                sim::mix(std::hash<std::string_view>()(m_model.compound().name) + static_cast<uint64_t>(m_model.inArray()) +
                        2 * (static_cast<uint64_t>(field + 1) + 64 * static_cast<uint64_t>(op * 3 + static_cast<int>(out)))));
        if (fired)
        {
            SIM_COUNT("fault.allocation");
            m_ctx.nontrivial = true;
        }
        if (out == NO_MEMORY && !fired)
        {
            m_ctx.fail("failure-from-nothing", "%s ran out of memory although none was refused", OP_NAMES[op]);
        }
        if (out == DONE && !isLegal)
        {
            m_ctx.fail("illegal-call-accepted", "%s(%s) %s accepted in %s", OP_NAMES[op], fieldName.c_str(), show(v).c_str(),
                    where().c_str());
        }
        if (out == REJECTED && isLegal)
        {
            m_ctx.fail(fired ? "memory-failure-as-rejection" : "legal-call-rejected", "%s(%s) %s in %s: %s", OP_NAMES[op],
                    fieldName.c_str(), show(v).c_str(), where().c_str(), what.c_str());
        }
        if (!isLegal)
        {
            SIM_COUNT("fault.illegal-call");
            m_ctx.nontrivial = true;
            return; // nothing may have changed
        }
        if (out == NO_MEMORY)
        {
            uncertain(op, field);
            return;
        }
        apply(op, field, v, info, result);
    }
    std::string where() const
    {
        return std::string(m_model.started ? m_model.compound().name : "nothing begun") + (m_model.inArray() ? "'s array" : "");
    }

    // memory ran out in a legal call: the field it was about may have been reset already, everything else is as before
    void uncertain(Op op, int field)
    {
        if (op != BEGIN_ARRAY && op != BEGIN_COMPOUND && op != SET_VALUE && op != SET_NULL)
        {
            return;
        }
        std::vector<Node> now;
        for (Node& top : m_model.could)
        {
            addCandidate(now, top);
            const Type& t = m_model.compound();
            const Field& f = t.fields[static_cast<size_t>(field)];
            Node n = top;
            put(m_model.at(n), field, emptySlot(f));
            addCandidate(now, n);
            if (f.optional)
            {
                n = top;
                put(m_model.at(n), field, Slot());
                addCandidate(now, n);
            }
            if (t.hasChoice())
            {
                n = top;
                put(m_model.at(n), field, Slot());
                m_model.at(n).choice = -1;
                addCandidate(now, n);
            }
        }
        m_model.could = std::move(now);
    }

    void apply(Op op, int field, const Val& v, const zserio::ITypeInfo* info, zserio::IReflectableDataPtr& result)
    {
        const Field* f = field >= 0 && m_model.inCompound() ? &m_model.compound().fields[static_cast<size_t>(field)] : nullptr;
        switch (op)
        {
        case BEGIN_ROOT:
            m_model.started = true;
            m_model.path.clear();
            m_model.could.assign(1, tree::defaultNode(m_model.root));
            break;
        case END_ROOT:
            finished(result);
            break;
        case BEGIN_ARRAY:
            each([&](Node& n) {
                put(n, field, emptySlot(*f));
            });
            m_model.path.push_back({field, true, 0});
            break;
        case END_ARRAY:
        case END_COMPOUND:
            m_model.path.pop_back();
            break;
        case BEGIN_COMPOUND:
            if (m_model.compound().hasChoice() || f->optional)
            {
                each([&](Node& n) {
                    put(n, field, emptySlot(*f));
                });
            }
            m_model.path.push_back({field, false, 0});
            break;
        case SET_VALUE:
        {
            Slot s;
            if (v.form != F_NULL)
            {
                s.present = true;
                s.nodes.emplace_back();
                convert(v, *f->type, s.nodes[0]);
            }
            each([&](Node& n) {
                put(n, field, s);
            });
            break;
        }
        case SET_NULL:
            each([&](Node& n) {
                put(n, field, f->optional ? Slot() : emptySlot(*f));
            });
            break;
        case FIELD_TYPE:
            checkInfo(*info, *f->type);
            break;
        case BEGIN_ELEMENT:
        {
            const Field& a = m_model.arrayField();
            size_t index = 0;
            each([&](Node& n) {
                Slot& s = n.slots[static_cast<size_t>(m_model.path.back().field)];
                index = s.nodes.size();
                s.nodes.push_back(tree::defaultNode(*a.type));
            });
            m_model.path.back().array = false;
            m_model.path.back().element = index;
            break;
        }
        case END_ELEMENT:
            m_model.path.back().array = true;
            break;
        case ADD_VALUE:
        {
            Node e;
            convert(v, *m_model.arrayField().type, e);
            each([&](Node& n) {
                n.slots[static_cast<size_t>(m_model.path.back().field)].nodes.push_back(e);
            });
            break;
        }
        default:
            checkInfo(*info, *m_model.arrayField().type);
            break;
        }
    }
    template <class F>
    void each(F fn)
    {
        for (Node& top : m_model.could)
        {
            fn(m_model.at(top));
        }
    }
    void checkInfo(const zserio::ITypeInfo& info, const Type& t)
    {
        if (info.getCppType() != cppType(t) || (t.compound() && info.getFields().size() != t.fields.size()))
        {
            m_ctx.fail("wrong-type-info", "in %s", where().c_str());
        }
    }
    void finished(zserio::IReflectableDataPtr& result)
    {
        SIM_COUNT("op.tree-finished");
        if (!result)
        {
            m_ctx.fail("no-tree", "endRoot() handed out nothing");
        }
        Finished f;
        f.content = m_subject->of(*result);
        const Node* match = nullptr;
        for (const Node& n : m_model.could)
        {
            if (tree::equal(n, f.content))
            {
                match = &n;
            }
        }
        if (match == nullptr)
        {
            m_ctx.fail("wrong-tree", "%s differs from the calls at %s (%zu possible trees)", m_subject->name(),
                    tree::difference(m_model.could[0], f.content).c_str(), m_model.could.size());
        }
        const Node seen = tree::readReflection(m_subject->type(), *result);
        if (!tree::equal(seen, f.content))
        {
            m_ctx.fail("wrong-tree", "read through the tree: differs at %s", tree::difference(f.content, seen).c_str());
        }
        f.tree = result;
        result.reset();
        m_finished.push_back(std::move(f));
        m_model.started = false;
        m_model.path.clear();
        m_model.could.clear();
    }

    Ctx& m_ctx;
    std::unique_ptr<Subject> m_subject;
    Model m_model;
    tree::Gen m_gen;
    std::vector<Finished> m_finished;
};

void runBuild(Ctx& ctx)
{
    Run(ctx).go();
}

const std::vector<sim::Scenario> SCENARIOS = {{"build", 1, runBuild}};

} // namespace

namespace sim
{
const char* const PROPERTY = "P13";
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
} // namespace sim
