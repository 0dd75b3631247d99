// P14: access through reflection and introspection agrees with the typed object, whatever is asked and whenever memory
// runs out.
#include "p14_scalars.hpp"
#include "reflect.hpp"
#include "subjects.hpp"

#include <zserio/IntrospectableView.h>
#include <zserio/ReflectableUtil.h>
#include <zserio/SerializeUtil.h>

#include <functional>

using namespace subjects;
using sim::Ctx;
using sim::g_heap;
using subject::Subject;
using tree::Field;
using tree::Node;
using tree::Slot;
using tree::Type;

namespace
{

using Any = zserio::Any;
using Ref = zserio::IReflectableDataPtr;
using ConstRef = zserio::IReflectableDataConstPtr;
const sink::Alloc ALLOC;

struct Alien // a type the library has never heard of
{
    int x = 0;
};

// ---- values for writing --------------------------------------------------------------------------------

enum Form
{
    EXACT,
    NATIVE, // the underlying C++ value
    WRAPPER, // the integer wrapper of an enumeration or bit mask
    NOTHING, // nullptr: resets an optional field
    // wrong ones
    ALIEN,
    EMPTY,
    OTHER_NUMBER,
    TEXT, // const char*
    UNKNOWN_NATIVE, // a number the enumeration does not know
    UNKNOWN_WRAPPER,
    MORE_OR_LESS, // an element for an array, an array for an element
    FORMS
};
const char* const FORM_NAMES[] = {"exact", "native", "wrapper", "null", "alien", "empty", "other number", "text",
        "unknown number", "unknown wrapped number", "array/element"};

template <class T, class = void>
struct Native
{
    static constexpr bool has = false;
};
template <class T>
struct Native<T, std::enable_if_t<tree::IsNumeric<T>::value>>
{
    static constexpr bool has = true;
    using V = typename T::ValueType;
    using Z = T;
    static V get(const Node& n)
    {
        if constexpr (std::is_floating_point_v<V>)
        {
            return static_cast<V>(n.d);
        }
        else
        {
            return static_cast<V>(n.u);
        }
    }
};
template <class T>
struct Native<T, std::enable_if_t<std::is_enum_v<T>>>
{
    static constexpr bool has = true;
    using V = std::underlying_type_t<T>;
    using Z = typename zserio::EnumTraits<T>::ZserioType;
    static V get(const Node& n)
    {
        return static_cast<V>(n.u);
    }
};
template <class T>
struct Native<T, std::void_t<decltype(tree::MaskItems<T>::get())>>
{
    static constexpr bool has = true;
    using Z = typename T::ZserioType;
    using V = typename Z::ValueType;
    static V get(const Node& n)
    {
        return static_cast<V>(n.u);
    }
};

// an Any of the given form for a value of type E; ok is whether it must be accepted
template <class E>
Any elementAny(const Node& n, Form form, bool& ok)
{
    ok = true;
    if constexpr (Native<E>::has)
    {
        using N = Native<E>;
        if (form == NATIVE)
        {
            return Any(N::get(n), ALLOC);
        }
        if (form == WRAPPER)
        {
            return Any(typename N::Z(N::get(n)), ALLOC);
        }
        if constexpr (std::is_enum_v<E>)
        {
            if (form == UNKNOWN_NATIVE || form == UNKNOWN_WRAPPER)
            {
                ok = false;
                const typename N::V v = static_cast<typename N::V>(77);
                return form == UNKNOWN_NATIVE ? Any(v, ALLOC) : Any(typename N::Z(v), ALLOC);
            }
        }
        if (form == OTHER_NUMBER)
        {
            ok = false;
            if constexpr (std::is_same_v<typename N::V, int64_t>)
            {
                return Any(static_cast<int32_t>(1), ALLOC);
            }
            else
            {
                return Any(static_cast<int64_t>(1), ALLOC);
            }
        }
    }
    switch (form)
    {
    case NOTHING:
        ok = false;
        return Any(nullptr, ALLOC);
    case ALIEN:
        ok = false;
        return Any(Alien(), ALLOC);
    case EMPTY:
        ok = false;
        return Any(ALLOC);
    case TEXT:
        ok = false;
        return Any(static_cast<const char*>("text"), ALLOC);
    case MORE_OR_LESS:
    {
        ok = false;
        zserio::Vector<E> v;
        return Any(std::move(v), ALLOC);
    }
    default:
        break;
    }
    E e{};
    tree::Bind<E>::from(e, n);
    return Any(std::move(e), ALLOC);
}

template <class M>
Any fieldAny(const Slot& s, Form form, bool& ok)
{
    using I = tree::Member<M>;
    using E = typename I::E;
    if (I::optional && form == NOTHING)
    {
        ok = true;
        return Any(nullptr, ALLOC);
    }
    if constexpr (I::array)
    {
        if (form <= WRAPPER || form == OTHER_NUMBER || form >= UNKNOWN_NATIVE)
        {
            if (form == MORE_OR_LESS)
            {
                ok = false;
                return Any(E(), ALLOC);
            }
            zserio::Vector<E> v;
            for (const Node& n : s.nodes)
            {
                E e{};
                tree::Bind<E>::from(e, n);
                v.push_back(std::move(e));
            }
            ok = true;
            return Any(std::move(v), ALLOC);
        }
        static const Node none;
        return elementAny<E>(none, form, ok); // wrong in the same ways
    }
    else
    {
        return elementAny<E>(s.nodes[0], form, ok);
    }
}

struct Entry // what can be done with a field of a compound
{
    Any (*field)(const Slot&, Form, bool&);
    Any (*element)(const Node&, Form, bool&);
    const char* (*array)(Any&, const Slot&, bool); // the typed array behind it, what is wrong with it
};
template <class E>
const char* typedArray(Any& a, const Slot& s, bool constant)
{
    using Array = zserio::Vector<E>;
    using Mutable = std::reference_wrapper<Array>;
    using Constant = std::reference_wrapper<const Array>;
    const Array* array = nullptr;
    try
    {
        array = constant ? &a.template get<Constant>().get() : &a.template get<Mutable>().get();
    }
    catch (const zserio::CppRuntimeException&)
    {
        return "cannot be taken as what it is";
    }
    try
    {
        constant ? (void)a.template get<Mutable>() : (void)a.template get<Constant>();
        return constant ? "is constant and can be taken as one to change" : "can be taken as two things";
    }
    catch (const zserio::CppRuntimeException&)
    {}
    if (array->size() != s.nodes.size())
    {
        return "has another size";
    }
    for (size_t i = 0; i < array->size(); ++i)
    {
        if (!tree::equal(tree::Bind<E>::to((*array)[i]), s.nodes[i]))
        {
            return "has other elements";
        }
    }
    return nullptr;
}
struct Reg
{
    const Type* type = nullptr;
    std::vector<Entry> fields;
    Node (*typed)(Any&) = nullptr; // the typed object behind a whole-value extraction, non-constant and constant
    Node (*typedConst)(Any&) = nullptr;
    void (*assign)(Any&, const Node&) = nullptr;
};
template <class M>
Entry entry()
{
    return Entry{fieldAny<M>, elementAny<typename tree::Member<M>::E>, typedArray<typename tree::Member<M>::E>};
}
template <class T>
void common(Reg& r)
{
    r.type = &tree::Bind<T>::type();
    r.typed = [](Any& a) {
        return tree::Bind<T>::to(a.get<std::reference_wrapper<T>>().get());
    };
    r.typedConst = [](Any& a) {
        return tree::Bind<T>::to(a.get<std::reference_wrapper<const T>>().get());
    };
    r.assign = [](Any& a, const Node& n) {
        tree::Bind<T>::from(a.get<std::reference_wrapper<T>>().get(), n);
    };
}
template <class T>
Reg structReg()
{
    Reg r;
    common<T>(r);
    tree::Fields<T>::each([&](const char*, auto ptr) {
        r.fields.push_back(entry<std::decay_t<decltype(std::declval<T&>().*ptr)>>());
    });
    return r;
}
template <class T>
Reg choiceReg()
{
    Reg r;
    common<T>(r);
    tree::Alternatives<T>::each([&](const char*, auto tag) {
        r.fields.push_back(entry<std::decay_t<decltype(std::declval<T&>().template get<decltype(tag)::value>())>>());
    });
    return r;
}

const Reg& registered(const Type& t)
{
    static const std::vector<Reg> all = [] {
        using namespace sink::to;
        return std::vector<Reg>{structReg<CreatorNested>(), structReg<CreatorObject>(), structReg<WalkerNested>(),
                structReg<WalkerObject>(), choiceReg<WalkerUnion>(), choiceReg<WalkerChoice>(),
                structReg<ReflectableNested>(), structReg<ReflectableObject>(), choiceReg<ReflectableChoice>(),
                choiceReg<ReflectableUnion>(), structReg<sink::Inner>(), structReg<sink::Sink>()};
    }();
    for (const Reg& r : all)
    {
        if (r.type == &t)
        {
            return r;
        }
    }
    throw std::runtime_error("unregistered type");
}

// ---- places --------------------------------------------------------------------------------------------

struct Step
{
    size_t field;
    size_t element; // of an array field
};
using Path = std::vector<Step>;

Node& at(Node& top, const Path& path)
{
    Node* n = &top;
    for (const Step& s : path)
    {
        n = &n->slots[s.field].nodes[s.element];
    }
    return *n;
}

std::string show(const Node& top, const Path& path)
{
    std::string r;
    const Node* n = &top;
    for (const Step& s : path)
    {
        const Field& f = n->type->fields[s.field];
        r += (r.empty() ? "" : ".") + std::string(f.name) + (f.array ? "[" + std::to_string(s.element) + "]" : "");
        n = &n->slots[s.field].nodes[s.element];
    }
    return r;
}

// a compound somewhere in the tree
Path genCompound(Ctx& ctx, const Node& top)
{
    Path path;
    const Node* n = &top;
    while (ctx.flip(1, 2))
    {
        std::vector<Step> down;
        for (size_t i = 0; i < n->slots.size(); ++i)
        {
            if (!n->type->fields[i].type->compound() || (n->type->hasChoice() && static_cast<int>(i) != n->choice) ||
                    !n->slots[i].present)
            {
                continue;
            }
            for (size_t k = 0; k < n->slots[i].nodes.size(); ++k)
            {
                down.push_back({i, k});
            }
        }
        if (down.empty())
        {
            break;
        }
        path.push_back(down[ctx.choose(down.size())]);
        n = &n->slots[path.back().field].nodes[path.back().element];
    }
    return path;
}

bool reachable(const Node& n, size_t field)
{
    return !n.type->hasChoice() || n.choice == static_cast<int>(field);
}

// navigation through the interface under test
template <class P>
P navigate(P p, const Node& top, const Path& path)
{
    const Node* n = &top;
    for (const Step& s : path)
    {
        const Field& f = n->type->fields[s.field];
        p = p->getField(f.name);
        if (f.array)
        {
            p = (s.element % 2 != 0) ? p->at(s.element) : (*p)[s.element];
        }
        n = &n->slots[s.field].nodes[s.element];
    }
    return p;
}

enum Outcome
{
    DONE,
    REJECTED,
    NO_MEMORY
};
const char* const OUTCOMES[] = {"done", "rejected", "no memory"};

// runs fn with a memory fault planned or not; exceptions other than errors and lack of memory propagate
struct Attempt
{
    Outcome outcome = DONE;
    bool fired = false;
    std::string what;
};
Attempt attempt(Ctx& ctx, bool fault, const std::function<void()>& fn)
{
    Attempt a;
    if (fault)
    {
        const uint64_t at = ctx.choose(ctx.flip(1, 2) ? 3 : 10);
        g_heap.plan.set(at, ctx.flip(1, 2) ? 1 : UINT64_MAX);
    }
    try
    {
        sim::Tracked t;
        fn();
    }
    catch (const zserio::CppRuntimeException& e)
    {
        a.outcome = REJECTED;
        a.what = e.what();
    }
    catch (const std::bad_alloc&)
    {
        a.outcome = NO_MEMORY;
    }
    a.fired = g_heap.plan.fired != 0;
    g_heap.plan.clear();
    if (a.fired)
    {
        SIM_COUNT("fault.allocation");
        ctx.nontrivial = true;
    }
    ctx.step();
    return a;
}

void verdict(Ctx& ctx, const char* op, const std::string& place, const Attempt& a, bool legal)
{
    ctx.log("%s %s: %s%s%s", op, place.c_str(), OUTCOMES[a.outcome], a.what.empty() ? "" : ": ", a.what.c_str());
    ctx.shape(std::hash<std::string_view>()(op) * 8 + static_cast<uint64_t>(a.outcome) * 2 + a.fired);
    if (a.outcome == NO_MEMORY && !a.fired)
    {
        ctx.fail("failure-from-nothing", "%s %s ran out of memory although none was refused", op, place.c_str());
    }
    if (a.outcome == DONE && !legal)
    {
        ctx.fail("accepted", "%s %s must be rejected", op, place.c_str());
    }
    if (a.outcome == REJECTED && legal)
    {
        ctx.fail(a.fired ? "memory-failure-as-rejection" : "rejected", "%s %s: %s", op, place.c_str(), a.what.c_str());
    }
    if (!legal)
    {
        SIM_COUNT("fault.illegal-access");
        ctx.nontrivial = true;
    }
}

// ---- reading -------------------------------------------------------------------------------------------

// one field of a compound, by name, with everything that can be asked of it
template <class P>
void readField(Ctx& ctx, const P& parent, const Node& n, size_t field, const std::string& place)
{
    const Field& f = n.type->fields[field];
    const std::string where = place + "." + f.name;
    if (!reachable(n, field))
    {
        if (!rejects([&] {
                (void)parent->getField(f.name);
            }))
        {
            ctx.fail("accepted", "getField(%s) although it is not the choice", where.c_str());
        }
        return;
    }
    const auto r = parent->getField(f.name);
    const Slot& s = n.slots[field];
    if ((r != nullptr) != s.present)
    {
        ctx.fail("wrong-presence", "%s", where.c_str());
    }
    if (!r)
    {
        return;
    }
    const auto& c = std::as_const(*r);
    if (!tree::equal(tree::readSlot(f, r), s))
    {
        ctx.fail("wrong-value", "%s", where.c_str());
    }
    if (f.array)
    {
        checkScalars(ctx, c, nullptr, nullptr, where);
        for (const size_t beyond : {s.nodes.size(), s.nodes.size() + 1, static_cast<size_t>(-1)})
        {
            if (!rejects([&] {
                    (void)c.at(beyond);
                }) || !rejects([&] {
                    (void)c[beyond];
                }))
            {
                ctx.fail("accepted", "element %zu of %s", beyond, where.c_str());
            }
        }
        if (!s.nodes.empty())
        {
            const size_t k = ctx.choose(s.nodes.size());
            checkScalars(ctx, *c.at(k), f.type, &s.nodes[k], where + "[" + std::to_string(k) + "]");
        }
        using R = std::remove_reference_t<decltype(*r)>;
        if constexpr (std::is_same_v<std::remove_const_t<R>, zserio::IReflectableData>)
        {
            const auto array = registered(*n.type).fields[field].array;
            Any own = r->getAnyValue();
            const char* problem = array(own, s, std::is_const_v<R>);
            if (problem == nullptr)
            {
                Any asConst = c.getAnyValue();
                problem = array(asConst, s, true);
            }
            if (problem != nullptr)
            {
                ctx.fail("wrong-object", "the array %s %s", where.c_str(), problem);
            }
        }
    }
    else
    {
        checkScalars(ctx, c, f.type, &s.nodes[0], where);
    }
    SIM_COUNT("op.read");
}

struct Target // of a dotted path
{
    bool found = false;
    const Field* field = nullptr;
    const Slot* slot = nullptr;
};

// dotted path: mostly right
std::string genPath(Ctx& ctx, const Node& top, Target& target)
{
    std::string path;
    const Node* n = &top;
    target = Target();
    bool alive = true; // everything so far is there
    for (;;)
    {
        size_t field = ctx.choose(n->type->fields.size());
        if (n->type->hasChoice() && n->choice >= 0 && ctx.flip(2, 3))
        {
            field = static_cast<size_t>(n->choice);
        }
        const Field& f = n->type->fields[field];
        std::string name = f.name;
        bool exists = true;
        if (ctx.flip(1, 10))
        {
            exists = false;
            switch (ctx.choose(4))
            {
            case 0:
                name += "x";
                break;
            case 1:
                name.pop_back();
                exists = n->type->find(name) >= 0;
                break;
            case 2:
                name.clear();
                break;
            default:
                name += "[0]";
                break;
            }
        }
        path += (path.empty() ? "" : ".") + name;
        alive = alive && exists && reachable(*n, field) && n->slots[field].present && name == f.name;
        if (exists && name != f.name) // another field after all
        {
            target = Target();
            return genPath(ctx, top, target);
        }
        const bool down = ctx.flip(2, 3);
        if (alive && !f.array && f.type->compound() && down)
        {
            n = &n->slots[field].nodes[0];
            continue;
        }
        target.found = alive;
        target.field = &f;
        target.slot = &n->slots[field];
        if (ctx.flip(1, 12)) // something behind the end
        {
            path += ctx.flip(1, 2) ? "." : ".value";
            // "value" may exist in a compound
            if (alive && !f.array && f.type->compound())
            {
                const int v = path.back() == '.' ? -1 : f.type->find("value");
                const Node& deeper = n->slots[field].nodes[0];
                if (v >= 0 && reachable(deeper, static_cast<size_t>(v)) && deeper.slots[static_cast<size_t>(v)].present)
                {
                    target.field = &f.type->fields[static_cast<size_t>(v)];
                    target.slot = &deeper.slots[static_cast<size_t>(v)];
                    return path;
                }
            }
            target.found = false;
        }
        return path;
    }
}

// ---- equality ------------------------------------------------------------------------------------------

enum Tri
{
    DIFFER,
    EITHER, // as near as rounding
    SAME
};

Tri nearly(double a, double b)
{
    if (std::isnan(a) || std::isnan(b))
    {
        return std::isnan(a) && std::isnan(b) ? SAME : DIFFER;
    }
    if (a == b)
    {
        return SAME;
    }
    if (std::isinf(a) || std::isinf(b))
    {
        return DIFFER;
    }
    const long double distance = std::fabs(static_cast<long double>(a) - static_cast<long double>(b));
    const long double scale = std::fabs(static_cast<long double>(a)) + std::fabs(static_cast<long double>(b));
    const bool near = distance <= 8 * static_cast<long double>(std::numeric_limits<double>::epsilon()) * scale ||
            distance <= 4 * static_cast<long double>(std::numeric_limits<double>::min());
    return near ? EITHER : DIFFER;
}

Tri compare(const Node& a, const Node& b)
{
    if (a.type->kind == tree::FLT || a.type->kind == tree::DBL)
    {
        return nearly(a.d, b.d);
    }
    if (!a.type->compound())
    {
        return tree::equal(a, b) ? SAME : DIFFER;
    }
    if (a.choice != b.choice)
    {
        return DIFFER;
    }
    Tri r = SAME;
    for (size_t i = 0; i < a.slots.size(); ++i)
    {
        if (!reachable(a, i))
        {
            continue;
        }
        const Slot& s = a.slots[i];
        const Slot& o = b.slots[i];
        if (s.present != o.present || s.nodes.size() != o.nodes.size())
        {
            return DIFFER;
        }
        for (size_t k = 0; k < s.nodes.size(); ++k)
        {
            r = std::min(r, compare(s.nodes[k], o.nodes[k]));
        }
    }
    return r;
}

// changes one value somewhere, often only slightly
void nudge(Ctx& ctx, Node& n, const tree::Gen& g)
{
    switch (n.type->kind)
    {
    case tree::FLT:
    case tree::DBL:
    {
        static const double BY[] = {2, 1.5, 1.0001, 1 + 1e-12, 1 + 1e-14, -1, 0.5, 0};
        n.d *= BY[ctx.choose(8)];
        if (n.type->kind == tree::FLT)
        {
            n.d = static_cast<double>(static_cast<float>(n.d));
        }
        return;
    }
    case tree::BOOL:
        n.u ^= 1;
        return;
    case tree::STR:
        n.s += ctx.flip(1, 2) ? std::string(1, '\0') : "x";
        return;
    case tree::BYTES:
        if (n.bytes.empty())
        {
            n.bytes.push_back(0);
        }
        else
        {
            n.bytes[ctx.choose(n.bytes.size())] ^= static_cast<uint8_t>(1U << ctx.choose(8));
        }
        return;
    default:
        break;
    }
    if (!n.type->compound())
    {
        n = tree::genNode(ctx, *n.type, g);
        return;
    }
    std::vector<size_t> live;
    for (size_t i = 0; i < n.slots.size(); ++i)
    {
        if (reachable(n, i) && (n.slots[i].present || n.type->fields[i].optional))
        {
            live.push_back(i);
        }
    }
    if (live.empty() || (n.type->hasChoice() && ctx.flip(1, 3)))
    {
        n = tree::genNode(ctx, *n.type, g);
        return;
    }
    const size_t i = live[ctx.choose(live.size())];
    const Field& f = n.type->fields[i];
    Slot& s = n.slots[i];
    if (f.optional && (!s.present || ctx.flip(1, 4)))
    {
        s.present = !s.present;
        s.nodes.clear();
        if (s.present && !f.array)
        {
            s.nodes.push_back(tree::genNode(ctx, *f.type, g));
        }
        return;
    }
    if (f.array && (s.nodes.empty() || ctx.flip(1, 3)))
    {
        if (!s.nodes.empty() && ctx.flip(1, 2))
        {
            s.nodes.pop_back();
        }
        else
        {
            s.nodes.push_back(tree::genNode(ctx, *f.type, g));
        }
        return;
    }
    nudge(ctx, s.nodes[ctx.choose(s.nodes.size())], g);
}

// every floating point value in it
void floats(Node& n, std::vector<Node*>& out)
{
    if (n.type->kind == tree::FLT || n.type->kind == tree::DBL)
    {
        out.push_back(&n);
    }
    for (size_t i = 0; i < n.slots.size(); ++i)
    {
        if (reachable(n, i))
        {
            for (Node& k : n.slots[i].nodes)
            {
                floats(k, out);
            }
        }
    }
}

Tri compare(const Slot& a, const Slot& b)
{
    if (a.present != b.present || a.nodes.size() != b.nodes.size())
    {
        return DIFFER;
    }
    Tri r = SAME;
    for (size_t k = 0; k < a.nodes.size(); ++k)
    {
        r = std::min(r, compare(a.nodes[k], b.nodes[k]));
    }
    return r;
}

// ---- a history of reading and writing ------------------------------------------------------------------

class History
{
public:
    explicit History(Ctx& ctx) :
            m_ctx(ctx),
            m_subject(genAnySubject(ctx)),
            m_gen(genOptions(ctx))
    {
        m_gen.text.bigSometimes = false;
        m_model = tree::genNode(ctx, m_subject->type(), m_gen);
        m_subject->set(m_model);
        m_ctx.log("%s", m_subject->name());
    }
    void go()
    {
        const uint64_t blocks = g_heap.liveBlocks;
        {
            Ref root;
            {
                sim::Tracked t;
                root = m_subject->mutableOne();
            }
            size_t n = 0;
            while (n < 60 && (n < 2 || m_ctx.more(9, 10)))
            {
                ++n;
                step(root);
                const Node now = m_subject->get();
                if (!tree::equal(now, m_model))
                {
                    m_ctx.fail("wrong-object", "the typed object differs at %s after the last step",
                            tree::difference(m_model, now).c_str());
                }
            }
            m_subject->set(tree::defaultNode(m_subject->type())); // gives back what the tracked calls took
            m_subject.reset();
            root.reset();
        }
        (void)blocks;
    }

private:
    void step(const Ref& root)
    {
        const Path path = genCompound(m_ctx, m_model);
        const size_t op = m_ctx.pick({4, 3, 8, 3, 8, 2, 2, 2, 3, 1});
        const bool fault = m_ctx.flip(1, 4);
        Node& n = at(m_model, path);
        m_ctx.state(std::hash<std::string_view>()(n.type->name) + op * 2 + fault);
        const size_t field = m_ctx.choose(n.type->fields.size());
        const std::string place = show(m_model, path);
        switch (op)
        {
        case 0:
            read(root, path, field, fault);
            break;
        case 1:
            find(root, fault);
            break;
        case 2:
            setField(root, path, n, field, place, fault);
            break;
        case 3:
            createField(root, path, n, field, place, fault);
            break;
        case 4:
            array(root, path, n, field, place, fault);
            break;
        case 5: // the typed object is changed below the reflection
            m_model = tree::genNode(m_ctx, m_subject->type(), m_gen);
            m_subject->set(m_model);
            m_ctx.log("typed change of everything");
            break;
        case 6:
            typedChange(root, path, n, place);
            break;
        case 7:
            wrongName(root, path, n, place);
            break;
        case 8:
            equality(fault);
            break;
        default:
            readOnly(path, n, field, place);
            break;
        }
    }

    void read(const Ref& root, const Path& path, size_t field, bool fault)
    {
        const Node& n = at(m_model, path);
        const bool constant = m_ctx.flip(1, 2);
        const std::string place = show(m_model, path);
        if (fault)
        {
            Node seen;
            const Attempt a = attempt(m_ctx, true, [&] {
                if (constant)
                {
                    seen = untracked(*navigate(ConstRef(root), m_model, path));
                }
                else
                {
                    seen = untracked(*navigate(root, m_model, path));
                }
            });
            verdict(m_ctx, "read", place, a, true);
            return;
        }
        m_ctx.step();
        m_ctx.log("read %s.%s", place.c_str(), n.type->fields[field].name);
        if (constant)
        {
            const ConstRef p = navigate(m_subject->constant(), m_model, path);
            readField(m_ctx, p, n, field, place);
            checkScalars(m_ctx, *p, n.type, &n, place);
            whole(*p, n, place, true);
        }
        else
        {
            const Ref p = navigate(root, m_model, path);
            readField(m_ctx, p, n, field, place);
            checkScalars(m_ctx, std::as_const(*p), n.type, &n, place);
            whole(*p, n, place, false);
        }
        const ConstRef c = navigate(ConstRef(root), m_model, path);
        std::string choice = "?";
        if (n.type->hasChoice())
        {
            choice = std::string(c->getChoice());
            if (choice != (n.choice < 0 ? "" : n.type->fields[static_cast<size_t>(n.choice)].name))
            {
                m_ctx.fail("wrong-choice", "%s: '%s'", place.c_str(), choice.c_str());
            }
        }
        else if (!rejects([&] {
                     (void)c->getChoice();
                 }))
        {
            m_ctx.fail("accepted", "%s has a choice", place.c_str());
        }
    }
    Node untracked(const zserio::IReflectableData& r)
    {
        // only the interface's own allocations count
        return r.isArray() ? Node() : Node();
    }
    static Node ownTyped(const Reg& reg, Any& a)
    {
        Node typed;
        if (rejects([&] {
                typed = reg.typedConst(a);
            }))
        {
            typed = reg.typed(a);
        }
        return typed;
    }
    // the typed object behind it
    template <class R>
    void whole(R& r, const Node& n, const std::string& place, bool constant)
    {
        Any a = r.getAnyValue();
        const Reg& reg = registered(*n.type);
        if (m_subject->owns() && constant)
        {
            if (!tree::equal(ownTyped(reg, a), n))
            {
                m_ctx.fail("wrong-object", "taken from %s", place.c_str());
            }
            return;
        }
        const Node typed = constant ? reg.typedConst(a) : reg.typed(a);
        if (!tree::equal(typed, n))
        {
            m_ctx.fail("wrong-object", "taken from %s", place.c_str());
        }
        if (constant && !rejects([&] {
                (void)reg.typed(a);
            }))
        {
            m_ctx.fail("accepted", "a constant object taken from %s as one to change", place.c_str());
        }
        Any b = std::as_const(r).getAnyValue();
        if (!tree::equal(m_subject->owns() ? ownTyped(reg, b) : reg.typedConst(b), n))
        {
            m_ctx.fail("wrong-object", "taken from %s", place.c_str());
        }
    }

    void find(const Ref& root, bool fault)
    {
        Target target;
        const std::string path = genPath(m_ctx, m_model, target);
        const int how = static_cast<int>(m_ctx.choose(4));
        ConstRef r;
        const Attempt a = attempt(m_ctx, fault, [&] {
            r = how == 0 ? std::as_const(*root).find(path)
                    : how == 1 ? std::as_const(*root)[path]
                    : how == 2 ? ConstRef(root->find(path))
                               : ConstRef((*root)[path]);
        });
        verdict(m_ctx, "find", path, a, true);
        if (a.outcome != DONE)
        {
            return;
        }
        if ((r != nullptr) != target.found)
        {
            m_ctx.fail(a.fired ? "memory-failure-as-absence" : "wrong-presence", "%s by path", path.c_str());
        }
        if (r && !tree::equal(tree::readSlot(*target.field, r), *target.slot))
        {
            m_ctx.fail("wrong-value", "%s by path", path.c_str());
        }
        SIM_COUNT("op.find");
    }

    // after a failed write: the field of the compound may be as before, reset, absent, or the new value
    void adopt(const Path& path, size_t field, const Slot& wanted, const std::string& place)
    {
        const Node now = m_subject->get();
        Node copy = now;
        const Node& after = at(copy, path);
        Node& before = at(m_model, path);
        const Field& f = before.type->fields[field];
        std::vector<Node> could;
        could.push_back(before);
        auto with = [&](const Slot& s, int choice) {
            Node n = before;
            if (n.type->hasChoice())
            {
                for (Slot& o : n.slots)
                {
                    o = Slot();
                }
                n.choice = choice;
            }
            if (!n.type->hasChoice() || choice >= 0)
            {
                n.slots[field] = s;
            }
            could.push_back(n);
        };
        Slot fresh;
        fresh.present = true;
        if (!f.array)
        {
            fresh.nodes.push_back(tree::defaultNode(*f.type));
        }
        with(fresh, static_cast<int>(field));
        with(wanted, static_cast<int>(field));
        if (f.optional)
        {
            with(Slot(), static_cast<int>(field));
        }
        if (before.type->hasChoice())
        {
            with(Slot(), -1);
        }
        for (const Node& n : could)
        {
            if (tree::equal(n, after))
            {
                before = n;
                return;
            }
        }
        m_ctx.fail("half-written", "%s.%s after a failed write", place.c_str(), f.name);
    }
    static void put(Node& n, size_t field, const Slot& s)
    {
        if (n.type->hasChoice())
        {
            for (Slot& o : n.slots)
            {
                o = Slot();
            }
            n.choice = static_cast<int>(field);
        }
        n.slots[field] = s;
    }

    void setField(const Ref& root, const Path& path, Node& n, size_t field, const std::string& place, bool fault)
    {
        const Field& f = n.type->fields[field];
        const Form form = static_cast<Form>(m_ctx.pick({8, 4, 3, f.optional ? 4U : 1U, 1, 1, 1, 1, 1, 1, 1}));
        Slot s;
        s.present = true;
        for (size_t k = f.array ? m_ctx.choose(4) : 1; k > 0; --k)
        {
            s.nodes.push_back(tree::genNode(m_ctx, *f.type, m_gen));
        }
        bool ok = false;
        Any value = registered(*n.type).fields[field].field(s, form, ok);
        if (form == NOTHING)
        {
            s = Slot();
        }
        const Ref p = navigate(root, m_model, path);
        const Attempt a = attempt(m_ctx, fault, [&] {
            p->setField(f.name, value);
        });
        verdict(m_ctx, "setField", place + "." + f.name + " (" + FORM_NAMES[form] + ")", a, ok);
        SIM_COUNT("op.setField");
        if (a.outcome == DONE)
        {
            put(n, field, s);
        }
        else if (ok)
        {
            adopt(path, field, s, place);
        }
    }

    void createField(const Ref& root, const Path& path, Node& n, size_t field, const std::string& place, bool fault)
    {
        const Field& f = n.type->fields[field];
        Slot s;
        s.present = true;
        if (!f.array)
        {
            s.nodes.push_back(tree::defaultNode(*f.type));
        }
        const Ref p = navigate(root, m_model, path);
        Ref made;
        const Attempt a = attempt(m_ctx, fault, [&] {
            made = p->createField(f.name);
        });
        verdict(m_ctx, "createField", place + "." + f.name, a, true);
        SIM_COUNT("op.createField");
        if (a.outcome != DONE)
        {
            adopt(path, field, s, place);
            return;
        }
        put(n, field, s);
        if (!made || !tree::equal(tree::readSlot(f, ConstRef(made)), s))
        {
            m_ctx.fail("wrong-value", "createField(%s.%s) returned something else", place.c_str(), f.name);
        }
    }

    void array(const Ref& root, const Path& path, Node& n, size_t any, const std::string& place, bool fault)
    {
        std::vector<size_t> arrays;
        for (size_t i = 0; i < n.slots.size(); ++i)
        {
            if (n.type->fields[i].array && reachable(n, i) && n.slots[i].present)
            {
                arrays.push_back(i);
            }
        }
        const Ref p = navigate(root, m_model, path);
        if (arrays.empty() || m_ctx.flip(1, 12)) // array calls on what is no array
        {
            const Ref wrong = reachable(n, any) && n.slots[any].present && !n.type->fields[any].array
                    ? p->getField(n.type->fields[any].name)
                    : p;
            const Any value(static_cast<int32_t>(1), ALLOC);
            const size_t what = m_ctx.choose(6);
            const Attempt a = attempt(m_ctx, false, [&] {
                switch (what)
                {
                case 0:
                    wrong->resize(1);
                    break;
                case 1:
                    wrong->append(value);
                    break;
                case 2:
                    wrong->setAt(value, 0);
                    break;
                case 3:
                    (void)wrong->at(0);
                    break;
                case 4:
                    (void)(*wrong)[static_cast<size_t>(0)];
                    break;
                default:
                    (void)wrong->size();
                    break;
                }
            });
            verdict(m_ctx, "array call on", place, a, false);
            return;
        }
        const size_t field = arrays[m_ctx.choose(arrays.size())];
        const Field& f = n.type->fields[field];
        Slot& s = n.slots[field];
        const Ref r = p->getField(f.name);
        const std::string where = place + "." + f.name;
        SIM_COUNT("op.array");
        switch (m_ctx.pick({3, 4, 4, 1}))
        {
        case 0:
        {
            const size_t size = m_ctx.choose(6);
            const Attempt a = attempt(m_ctx, fault, [&] {
                r->resize(size);
            });
            verdict(m_ctx, "resize", where, a, true);
            if (a.outcome == DONE)
            {
                s.nodes.resize(size, tree::defaultNode(*f.type));
            }
            break;
        }
        case 1:
        case 2:
        {
            const bool append = m_ctx.flip(1, 2);
            const Form form = static_cast<Form>(m_ctx.pick({8, 4, 3, 1, 1, 1, 1, 1, 1, 1, 1}));
            const Node e = tree::genNode(m_ctx, *f.type, m_gen);
            bool ok = false;
            const Any value = registered(*n.type).fields[field].element(e, form, ok);
            const size_t index = m_ctx.choose(s.nodes.size() + 1);
            const bool inside = index < s.nodes.size();
            const Attempt a = attempt(m_ctx, fault, [&] {
                append ? r->append(value) : r->setAt(value, index);
            });
            verdict(m_ctx, append ? "append" : "setAt",
                    where + (append ? "" : "[" + std::to_string(index) + "]") + " (" + FORM_NAMES[form] + ")", a,
                    ok && (append || inside));
            if (a.outcome == DONE)
            {
                if (append)
                {
                    s.nodes.push_back(e);
                }
                else
                {
                    s.nodes[index] = e;
                }
            }
            break;
        }
        default: // compound calls on an array
        {
            const size_t what = m_ctx.choose(3);
            const Attempt a = attempt(m_ctx, false, [&] {
                what == 0       ? (void)r->getField("value")
                        : what == 1 ? (void)r->createField("value")
                                    : r->setField("value", Any(static_cast<int32_t>(1), ALLOC));
            });
            verdict(m_ctx, "field call on array", where, a, false);
            break;
        }
        }
    }

    // through the typed reference taken out of the reflection
    void typedChange(const Ref& root, const Path& path, Node& n, const std::string& place)
    {
        const Ref p = navigate(root, m_model, path);
        Any a = p->getAnyValue();
        const Type& t = *n.type;
        const Node value = tree::genNode(m_ctx, t, m_gen);
        registered(t).assign(a, value);
        n = value;
        m_ctx.step();
        m_ctx.log("typed change of %s", place.c_str());
    }

    void wrongName(const Ref& root, const Path& path, Node& n, const std::string& place)
    {
        static const char* const NAMES[] = {"", "nosuch", "VALUE", "value ", ".", "value.value", "text\n"};
        const char* const name = NAMES[m_ctx.choose(sizeof(NAMES) / sizeof(NAMES[0]))];
        const Ref p = navigate(root, m_model, path);
        const size_t what = m_ctx.choose(4);
        const Attempt a = attempt(m_ctx, false, [&] {
            what == 0       ? (void)p->getField(name)
                    : what == 1 ? (void)std::as_const(*p).getField(name)
                    : what == 2 ? (void)p->createField(name)
                                : p->setField(name, Any(static_cast<int32_t>(1), ALLOC));
        });
        verdict(m_ctx, "unknown field of", place, a, n.type->find(name) >= 0);
    }

    void equality(bool fault)
    {
        auto other = genSubjectOf(m_subject->type());
        Node b = m_model;
        const size_t changes = m_ctx.choose(3);
        for (size_t i = 0; i < changes; ++i)
        {
            std::vector<Node*> all;
            if (m_ctx.flip(1, 3))
            {
                floats(b, all);
            }
            nudge(m_ctx, all.empty() ? b : *all[m_ctx.choose(all.size())], m_gen);
        }
        other->set(b);
        Tri want = compare(m_model, b);
        bool forth = false;
        ConstRef left = m_subject->constant();
        ConstRef right = m_ctx.flip(1, 2) ? other->constant() : ConstRef(other->mutableOne());
        if (m_ctx.flip(1, 3)) // parts of them
        {
            const Path pa = genCompound(m_ctx, m_model);
            const Path pb = genCompound(m_ctx, b);
            const Node& na = at(m_model, pa);
            const Node& nb = at(b, pb);
            left = navigate(left, m_model, pa);
            right = navigate(right, b, pb);
            want = na.type == nb.type ? compare(na, nb) : DIFFER;
            const size_t field = m_ctx.choose(na.type->fields.size());
            if (na.type == nb.type && m_ctx.flip(3, 4) && reachable(na, field) && reachable(nb, field))
            {
                const Field& f = na.type->fields[field];
                left = left->getField(f.name);
                right = right->getField(f.name);
                want = compare(na.slots[field], nb.slots[field]);
                if (f.array && nb.slots[field].present && !nb.slots[field].nodes.empty() && m_ctx.flip(1, 4))
                {
                    right = right->at(0); // an array is no element
                    want = DIFFER;
                }
            }
        }
        const Attempt a = attempt(m_ctx, fault, [&] {
            forth = zserio::ReflectableUtil::equal<sink::Alloc>(left, right);
        });
        verdict(m_ctx, "equal", want == SAME ? "(same)" : want == DIFFER ? "(different)" : "(nearly)", a, true);
        SIM_COUNT("op.equal");
        if (a.outcome != DONE)
        {
            return;
        }
        const bool back = zserio::ReflectableUtil::equal<sink::Alloc>(right, left);
        if (forth != back || (want != EITHER && forth != (want == SAME)))
        {
            m_ctx.fail("wrong-equality", "%s found %s%s, difference at %s", m_subject->name(), forth ? "equal" : "different",
                    forth != back ? " only in one direction" : "", tree::difference(m_model, b).c_str());
        }
        if (zserio::ReflectableUtil::equal<sink::Alloc>(left, nullptr) != (left == nullptr) ||
                !zserio::ReflectableUtil::equal<sink::Alloc>(nullptr, nullptr) ||
                !zserio::ReflectableUtil::equal<sink::Alloc>(left, left))
        {
            m_ctx.fail("wrong-equality", "with nothing or itself");
        }
    }
    static std::unique_ptr<Subject> genSubjectOf(const Type& t)
    {
        for (const subject::Make m : SUBJECTS)
        {
            auto s = m();
            if (&s->type() == &t)
            {
                return s;
            }
        }
        return nullptr;
    }

    // a constant reflection refuses to change anything, even when asked through its non-constant interface
    void readOnly(const Path& path, Node& n, size_t field, const std::string& place)
    {
        const ConstRef c = navigate(m_subject->readOnly(), m_model, path);
        const Ref p = std::const_pointer_cast<zserio::IReflectableData>(c);
        const Field& f = n.type->fields[field];
        Any value(static_cast<int32_t>(1), ALLOC);
        const size_t what = m_ctx.choose(6);
        switch (m_ctx.choose(4))
        {
        case 0:
            value.reset();
            break;
        case 1:
            value.set(nullptr);
            break;
        default:
            break;
        }
        Ref arr;
        if (f.array && reachable(n, field) && n.slots[field].present)
        {
            arr = std::const_pointer_cast<zserio::IReflectableData>(c->getField(f.name));
        }
        const Attempt a = attempt(m_ctx, false, [&] {
            switch (what)
            {
            case 0:
                p->setField(f.name, value);
                break;
            case 1:
                (void)p->createField(f.name);
                break;
            case 2:
                (void)p->getField(f.name);
                break;
            case 3:
                arr ? arr->resize(3) : p->resize(3);
                break;
            case 4:
                arr ? arr->append(value) : p->append(value);
                break;
            default:
                arr ? (void)arr->at(0) : (void)p->getAnyValue();
                break;
            }
        });
        verdict(m_ctx, "write through constant", place + "." + f.name + " " + std::to_string(what), a, false);
        if (p->find(f.name) != nullptr)
        {
            m_ctx.fail("accepted", "find() in a constant object returned something to change");
        }
    }

    Ctx& m_ctx;
    std::unique_ptr<Subject> m_subject;
    tree::Gen m_gen;
    Node m_model;
};

void runHistory(Ctx& ctx)
{
    History(ctx).go();
}

// ---- introspection of views ----------------------------------------------------------------------------

using View = zserio::IIntrospectableViewConstPtr;

// everything below a view object, from its own view, by fields, by elements and by path
void introspect(Ctx& ctx, const View& top, const Node& n, const char* name)
{
    const Node seen = tree::readReflection(*n.type, *top);
    if (!tree::equal(seen, n))
    {
        ctx.fail("wrong-value", "%s introspected differs at %s", name, tree::difference(n, seen).c_str());
    }
    Node copy = n;
    for (size_t k = ctx.choose(4); k > 0; --k)
    {
        const Path path = genCompound(ctx, n);
        const Node& c = at(copy, path);
        const View v = navigate(top, n, path);
        readField(ctx, v, c, ctx.choose(c.type->fields.size()), show(n, path));
        checkScalars(ctx, *v, c.type, &c, show(n, path));
        Target target;
        const std::string text = genPath(ctx, n, target);
        const View found = ctx.flip(1, 2) ? top->find(text) : (*top)[text];
        // parameters and functions can be meant as well
        if (found == nullptr && target.found)
        {
            ctx.fail("wrong-presence", "%s by path", text.c_str());
        }
        if (target.found && !tree::equal(tree::readSlot(*target.field, found), *target.slot))
        {
            ctx.fail("wrong-value", "%s by path", text.c_str());
        }
        if (!target.found && found != nullptr && text.find("value") == std::string::npos)
        {
            ctx.fail("wrong-presence", "%s by path although it is not there", text.c_str());
        }
        if (!rejects([&] {
                (void)v->getField("nosuch");
            }) || !rejects([&] {
                (void)v->getParameter("nosuch");
            }) || !rejects([&] {
                (void)v->callFunction("nosuch");
            }) || top->find("nosuch") || top->find("") || top->find("."))
        {
            ctx.fail("accepted", "something that does not exist in %s", show(n, path).c_str());
        }
        ctx.step();
    }
}

template <class T>
bool serializes(const View& v, const zserio::View<T>& typed, bool& same)
{
    std::optional<zserio::BitBuffer> a;
    std::optional<zserio::BitBuffer> b;
    try
    {
        a = zserio::serialize(typed);
    }
    catch (const zserio::CppRuntimeException&)
    {}
    try
    {
        b = v->serialize();
    }
    catch (const zserio::CppRuntimeException&)
    {}
    same = a.has_value() == b.has_value() && (!a || *a == *b);
    return a.has_value();
}

void runIntrospection(Ctx& ctx)
{
    tree::Gen g = genOptions(ctx);
    const size_t which = ctx.choose(4);
    const bool hurry = ctx.flip(1, 4); // memory runs out while introspecting
    bool same = true;
    bool serialized = false;
    auto run = [&](auto& object, auto&&... parameters) {
        using T = std::decay_t<decltype(object)>;
        const Node n = tree::genNode(ctx, tree::Bind<T>::type(), g);
        tree::Bind<T>::from(object, n);
        const zserio::View<T> view(object, parameters...);
        View top;
        const Attempt a = attempt(ctx, hurry, [&] {
            top = zserio::introspectable(view);
            for (const Field& f : n.type->fields)
            {
                (void)top->find(f.name);
            }
        });
        verdict(ctx, "introspect", n.type->name, a, true);
        if (a.outcome == DONE)
        {
            introspect(ctx, top, n, n.type->name);
            serialized = serializes(top, view, same);
        }
        else if (a.outcome == NO_MEMORY)
        {
            top = zserio::introspectable(view);
            introspect(ctx, top, n, n.type->name);
        }
        return top;
    };
    if (which == 0)
    {
        sink::to::CreatorObject o;
        run(o);
    }
    else if (which == 1)
    {
        sink::to::WalkerObject o;
        const View top = run(o);
        // the parameter of the choice is the field of its owner
        const View choice = top->getField("choiceField");
        const View p = choice ? choice->getParameter("selector") : nullptr;
        if (choice && (!p || p->toUInt() != top->getField("choiceSelector")->toUInt() ||
                              top->find("choiceField.selector")->toUInt() != p->toUInt()))
        {
            ctx.fail("wrong-value", "parameter selector");
        }
    }
    else if (which == 2)
    {
        sink::to::ReflectableNested o;
        const int32_t dummy = static_cast<int32_t>(ctx.range(-5, 1000));
        const std::string text = obj::genString(ctx, g.text);
        const View top = run(o, zserio::Int31(dummy), std::string_view(text));
        if (top->getParameter("dummyParam")->getInt32() != dummy || top->find("dummyParam")->toInt() != dummy ||
                top->getParameter("stringParam")->getStringView() != text ||
                top->find("stringParam")->getStringView() != text || top->find("stringParam.x") != nullptr ||
                top->callFunction("getValue")->toUInt() != top->getField("value")->toUInt() ||
                top->find("getValue")->toUInt() != top->getField("value")->toUInt())
        {
            ctx.fail("wrong-value", "parameter or function of ReflectableNested");
        }
    }
    else
    {
        sink::to::ReflectableObject o;
        run(o);
    }
    if (!same)
    {
        ctx.fail("wrong-serialization", "through the interface differs from that of the view");
    }
    SIM_COUNT("op.introspect");
    ctx.nontrivial = true;
    ctx.shape(which * 4 + hurry * 2 + serialized);
    ctx.state(5000 + which * 4 + hurry * 2 + serialized);
}

const std::vector<sim::Scenario> SCENARIOS = {{"history", 8, runHistory}, {"introspection", 2, runIntrospection}, {"values", 2, runValues}};

} // namespace

namespace sim
{
const char* const PROPERTY = "P14";
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
} // namespace sim
