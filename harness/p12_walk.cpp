// P12: tree walking reports every selected element once, in order, and nests; an interrupted walk does no harm.
#include "reflect.hpp"
#include "subjects.hpp"

#include <zserio/Walker.h>

using namespace subjects;
using sim::Ctx;
using sim::g_heap;
using subject::Subject;
using tree::Event;
using tree::Node;

namespace
{

struct Interrupted
{
    int tag;
};

// decisions of a filter with a mind of its own: a function of what it is asked (not of how often: filters combined
// with it may cut a walk short where nothing more is selected anyway)
uint64_t scripted(uint64_t salt, char kind, std::string_view name, size_t index)
{
    uint64_t h = sim::mix(salt ^ (static_cast<uint64_t>(kind) * 1000003));
    for (const char c : name)
    {
        h = sim::mix(h ^ static_cast<uint64_t>(c));
    }
    return sim::mix(h ^ index);
}

class ScriptFilter : public zserio::IWalkFilter
{
public:
    ScriptFilter(uint64_t salt, uint64_t yes, uint64_t on) :
            m_salt(salt),
            m_yes(yes),
            m_on(on)
    {}
    uint64_t throwAt = UINT64_MAX;
    uint64_t calls = 0;
    bool beforeArray(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo& f) override
    {
        return ask('A', f, zserio::WALKER_NOT_ELEMENT, m_yes);
    }
    bool afterArray(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo& f) override
    {
        return ask('a', f, zserio::WALKER_NOT_ELEMENT, m_on);
    }
    bool beforeCompound(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo& f, size_t i) override
    {
        return ask('C', f, i, m_yes);
    }
    bool afterCompound(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo& f, size_t i) override
    {
        return ask('c', f, i, m_on);
    }
    bool beforeValue(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo& f, size_t i) override
    {
        return ask('V', f, i, m_yes);
    }
    bool afterValue(const zserio::IReflectableDataConstPtr&, const zserio::FieldInfo& f, size_t i) override
    {
        return ask('v', f, i, m_on);
    }

private:
    bool ask(char kind, const zserio::FieldInfo& f, size_t index, uint64_t percent)
    {
        const uint64_t n = calls++;
        if (n == throwAt)
        {
            throw Interrupted{1};
        }
        return scripted(m_salt, kind, f.schemaName, index) % 100 < percent;
    }
    uint64_t m_salt;
    uint64_t m_yes;
    uint64_t m_on;
};

struct RefScript : tree::RefFilter
{
    uint64_t salt;
    uint64_t yes;
    uint64_t on;
    RefScript(uint64_t s, uint64_t y, uint64_t o) :
            salt(s),
            yes(y),
            on(o)
    {}
    bool before(const tree::Place& p) override
    {
        return ask(p.kind, p, yes);
    }
    bool after(const tree::Place& p) override
    {
        return ask(static_cast<char>(p.kind - 'A' + 'a'), p, on);
    }
    bool ask(char kind, const tree::Place& p, uint64_t percent)
    {
        return scripted(salt, kind, p.field->name, p.index) % 100 < percent;
    }
};

// compares each notification with the expected one as it comes
class Recorder : public zserio::IWalkObserver
{
public:
    explicit Recorder(const std::vector<Event>& expected) :
            m_expected(expected)
    {}
    size_t seen = 0;
    std::string wrong;
    size_t throwAt = SIZE_MAX;

    void beginRoot(const zserio::IReflectableDataConstPtr& r) override
    {
        note('R', r, nullptr, tree::NOT_ELEMENT);
    }
    void endRoot(const zserio::IReflectableDataConstPtr& r) override
    {
        note('r', r, nullptr, tree::NOT_ELEMENT);
    }
    void beginArray(const zserio::IReflectableDataConstPtr& r, const zserio::FieldInfo& f) override
    {
        note('A', r, &f, tree::NOT_ELEMENT);
    }
    void endArray(const zserio::IReflectableDataConstPtr& r, const zserio::FieldInfo& f) override
    {
        note('a', r, &f, tree::NOT_ELEMENT);
    }
    void beginCompound(const zserio::IReflectableDataConstPtr& r, const zserio::FieldInfo& f, size_t i) override
    {
        note('C', r, &f, i);
    }
    void endCompound(const zserio::IReflectableDataConstPtr& r, const zserio::FieldInfo& f, size_t i) override
    {
        note('c', r, &f, i);
    }
    void visitValue(const zserio::IReflectableDataConstPtr& r, const zserio::FieldInfo& f, size_t i) override
    {
        note('V', r, &f, i);
    }

private:
    void note(char kind, const zserio::IReflectableDataConstPtr& r, const zserio::FieldInfo* f, size_t index)
    {
        {
            sim::Untracked u;
            const size_t k = seen++;
            if (wrong.empty())
            {
                compare(k, kind, r, f, index);
            }
            if (k != throwAt)
            {
                return;
            }
        }
        throw Interrupted{2};
    }
    void compare(size_t k, char kind, const zserio::IReflectableDataConstPtr& r, const zserio::FieldInfo* f, size_t index)
    {
        const std::string at = "notification " + std::to_string(k) + " (" + kind +
                (f != nullptr ? " " + std::string(f->schemaName) : "") +
                (index != tree::NOT_ELEMENT ? "[" + std::to_string(index) + "]" : "") + ")";
        if (k >= m_expected.size())
        {
            wrong = at + " is one too many";
            return;
        }
        const Event& e = m_expected[k];
        if (e.kind != kind || (e.field == nullptr) != (f == nullptr) || (f != nullptr && f->schemaName != e.field->name) ||
                index != e.index)
        {
            wrong = at + " instead of (" + e.kind + (e.field != nullptr ? std::string(" ") + e.field->name : "") +
                    (e.index != tree::NOT_ELEMENT ? "[" + std::to_string(e.index) + "]" : "") + ")";
            return;
        }
        if (f != nullptr && (f->isArray != e.field->array || f->isOptional != e.field->optional))
        {
            wrong = at + ": wrong field description";
            return;
        }
        switch (kind)
        {
        case 'V':
            if ((e.node == nullptr) != (r == nullptr))
            {
                wrong = at + ": wrong presence";
            }
            else if (e.node != nullptr && (r->isArray() || !tree::equal(tree::readReflection(*e.node->type, *r), *e.node)))
            {
                wrong = at + ": wrong value";
            }
            break;
        case 'A':
        case 'a':
            if (!r || !r->isArray() || r->size() != e.slot->nodes.size())
            {
                wrong = at + ": wrong array";
            }
            break;
        default:
            if (!r || r->isArray() || (e.node->type->hasChoice() && choiceOf(*e.node) != r->getChoice()))
            {
                wrong = at + ": wrong compound";
            }
            else if (e.node->slots.size() < 12 && kind == 'C' && !tree::equal(tree::readReflection(*e.node->type, *r), *e.node))
            {
                wrong = at + ": wrong content";
            }
            break;
        }
    }
    static std::string_view choiceOf(const Node& n)
    {
        return n.choice < 0 ? std::string_view() : std::string_view(n.type->fields[static_cast<size_t>(n.choice)].name);
    }
    const std::vector<Event>& m_expected;
};

// which filters: fresh ones of the same kind can be made from it at any time
struct Recipe
{
    std::vector<std::pair<char, std::string>> parts;
    bool conjunction = false;
};

std::string quote(std::string_view text)
{
    std::string r;
    for (char c : text)
    {
        if (c == '[' || c == ']' || c == '.')
        {
            r += '\\';
        }
        r += c;
    }
    return r;
}
// an expression made of a path which is really there, so that it is met deep in the tree as well
std::string genExpression(Ctx& ctx, const Node& n)
{
    std::vector<std::string> paths;
    auto collect = [&paths](const std::string& path) {
        paths.push_back(path);
        return paths.size() >= 400;
    };
    tree::anyPathBelow(n, "", collect);
    if (paths.empty())
    {
        return "x";
    }
    const std::string& path = paths[ctx.choose(paths.size())];
    const size_t dot = path.rfind('.');
    const size_t bracket = path.rfind('[');
    switch (ctx.choose(6))
    {
    case 0:
        return quote(path);
    case 1: // the last name, anywhere
        return "(.*\\.)?" + quote(dot == std::string::npos ? path : path.substr(dot + 1));
    case 2: // any index
        return bracket == std::string::npos
                ? quote(path)
                : quote(path.substr(0, bracket)) + "\\[[0-9]+\\]" + quote(path.substr(path.find(']', bracket) + 1));
    case 3: // everything below
        return quote(path) + ".+";
    case 4: // any name in between
        return dot == std::string::npos ? "[^.]+" : quote(path.substr(0, path.find('.'))) + "\\..*" + quote(path.substr(dot));
    default: // beginning of the names
        return quote(path.substr(0, 1 + ctx.choose(path.size()))) + ".*";
    }
}

void genRecipe(Ctx& ctx, Recipe& r, const Node& n)
{
    const size_t parts = ctx.pick({4, 2, 2, 1}); // 0: one filter, else a conjunction of them
    r.conjunction = parts != 0 || ctx.flip(1, 8);
    const size_t count = r.conjunction ? parts : 1;
    for (size_t i = 0; i < count; ++i)
    {
        switch (ctx.pick({1, 2, 2, 3, 2}))
        {
        case 0:
            r.parts.emplace_back('*', "");
            break;
        case 1:
            r.parts.emplace_back('d', std::to_string(ctx.choose(6)));
            break;
        case 2:
            r.parts.emplace_back('l', std::to_string(ctx.choose(4)));
            break;
        case 3:
        {
            if (ctx.flip(2, 3))
            {
                r.parts.emplace_back('r', genExpression(ctx, n));
                break;
            }
            static const char* const R[] = {".*text.*", "[a-i].*", ".*\\[[02]\\].*", "value", ".*\\.value", "nested.*|inner.*",
                    ".*Array", "x", ".*\\[1\\]", "[^.]*\\.[^.]*", ".*", "", "ainner\\[0\\]|aun\\[1\\].*", ".*\\.oi", "o.*",
                    "(.*\\.)?nestedArray\\[1\\]\\.text"};
            r.parts.emplace_back('r', R[ctx.choose(sizeof(R) / sizeof(R[0]))]);
            break;
        }
        default:
        {
            static const uint64_t YES[] = {100, 90, 70, 40};
            static const uint64_t ON[] = {100, 95, 80};
            const uint64_t yes = YES[ctx.choose(4)];
            const uint64_t on = ON[ctx.choose(3)];
            r.parts.emplace_back('s', std::to_string(ctx.choose(0)) + " " + std::to_string(yes) + " " + std::to_string(on));
            break;
        }
        }
    }
}

struct Fresh
{
    std::vector<std::unique_ptr<zserio::IWalkFilter>> owned;
    std::vector<ScriptFilter*> scripts;
    zserio::IWalkFilter* real = nullptr;
    std::shared_ptr<tree::RefFilter> ref;
};

void makeFilters(const Recipe& r, Fresh& out)
{
    auto all = std::make_shared<tree::RefAnd>();
    zserio::AndWalkFilter::WalkFilters list;
    for (const auto& p : r.parts)
    {
        switch (p.first)
        {
        case 'd':
            out.owned.push_back(std::make_unique<zserio::DepthWalkFilter>(std::stoul(p.second)));
            out.ref = std::make_shared<tree::RefDepth>(std::stoul(p.second));
            break;
        case 'l':
            out.owned.push_back(std::make_unique<zserio::ArrayLengthWalkFilter>(std::stoul(p.second)));
            out.ref = std::make_shared<tree::RefLength>(std::stoul(p.second));
            break;
        case 'r':
            out.owned.push_back(std::make_unique<zserio::RegexWalkFilter>(p.second.c_str()));
            out.ref = std::make_shared<tree::RefRegex>(p.second);
            break;
        case 's':
        {
            unsigned long long salt = 0;
            unsigned long long yes = 0;
            unsigned long long on = 0;
            (void)sscanf(p.second.c_str(), "%llu %llu %llu", &salt, &yes, &on);
            auto f = std::make_unique<ScriptFilter>(salt, yes, on);
            out.scripts.push_back(f.get());
            out.owned.push_back(std::move(f));
            out.ref = std::make_shared<RefScript>(salt, yes, on);
            break;
        }
        default:
            out.owned.push_back(std::make_unique<zserio::DefaultWalkFilter>());
            out.ref = std::make_shared<tree::RefAll>();
            break;
        }
        out.real = out.owned.back().get();
        all->parts.push_back(out.ref);
        list.push_back(*out.real);
    }
    if (r.conjunction)
    {
        out.owned.push_back(std::make_unique<zserio::AndWalkFilter>(list));
        out.real = out.owned.back().get();
        out.ref = all;
    }
}

std::string textOf(const Recipe& r)
{
    std::string s = r.conjunction ? "and(" : "";
    for (const auto& p : r.parts)
    {
        s += p.first + p.second + " ";
    }
    return s;
}

enum Fault
{
    NONE,
    OBSERVER,
    FILTER,
    MEMORY
};

// one walk; returns whether it ran to its end
bool walkOnce(Ctx& ctx, Subject& s, const Node& n, const std::vector<Event>& expected, const Recipe& recipe, Fault fault,
        uint64_t at, uint64_t len)
{
    bool complete = false;
    std::string how = "done";
    Recorder rec(expected);
    if (fault == OBSERVER)
    {
        rec.throwAt = at;
    }
    const uint64_t blocks = g_heap.liveBlocks;
    {
        Fresh fresh;
        makeFilters(recipe, fresh);
        if (fault == FILTER)
        {
            fresh.scripts[at % fresh.scripts.size()]->throwAt = at / fresh.scripts.size();
        }
        zserio::Walker walker(rec, *fresh.real);
        const zserio::IReflectableDataConstPtr root = s.constant();
        try
        {
            sim::Tracked t;
            if (fault == MEMORY)
            {
                g_heap.plan.set(at, len);
            }
            walker.walk(root);
            complete = true;
        }
        catch (const Interrupted& e)
        {
            how = e.tag == 1 ? "filter threw" : "observer threw";
            if (fault != (e.tag == 1 ? FILTER : OBSERVER))
            {
                ctx.fail("harness", "unexpected interruption");
            }
        }
        catch (const std::bad_alloc&)
        {
            how = "no memory";
        }
        const bool fired = g_heap.plan.fired != 0;
        g_heap.plan.clear();
        if (fault == MEMORY && fired && complete)
        {
            how = "done without memory";
        }
        if (how == "no memory" && !fired)
        {
            ctx.fail("failure-from-nothing", "the walk ran out of memory although none was refused");
        }
        // everything the walk took is back even before the filters are gone, except what their paths keep
        if (fault == MEMORY && fired)
        {
            SIM_COUNT("fault.allocation");
        }
    }
    if (how == "filter threw")
    {
        SIM_COUNT("fault.filter-throws");
    }
    if (how == "observer threw")
    {
        SIM_COUNT("fault.observer-throws");
    }
    ctx.step(rec.seen);
    ctx.log("%s: %zu of %zu notifications, %s", textOf(recipe).c_str(), rec.seen, expected.size(), how.c_str());
    ctx.shape(sim::mix(std::hash<std::string>()(how)) + rec.seen);
    if (!rec.wrong.empty())
    {
        ctx.fail("wrong-notification", "%s with %s: %s", s.name(), textOf(recipe).c_str(), rec.wrong.c_str());
    }
    if (complete && rec.seen != expected.size())
    {
        ctx.fail("notification-missing", "%s with %s: %zu of %zu notifications", s.name(), textOf(recipe).c_str(), rec.seen,
                expected.size());
    }
    if (!complete && fault == NONE)
    {
        ctx.fail("failure-from-nothing", "%s", how.c_str());
    }
    if (g_heap.liveBlocks != blocks)
    {
        ctx.fail("leak", "%lld blocks are left after a walk (%s)", static_cast<long long>(g_heap.liveBlocks - blocks),
                how.c_str());
    }
    const Node after = s.get();
    if (!tree::equal(after, n))
    {
        ctx.fail("object-changed", "by the walk, at %s", tree::difference(n, after).c_str());
    }
    return complete;
}

void runWalk(Ctx& ctx)
{
    auto s = genAnySubject(ctx);
    tree::Gen g = genOptions(ctx);
    g.anyEnum = true;
    g.text.text = false;
    const Node n = tree::genNode(ctx, s->type(), g);
    s->set(n);
    Recipe recipe;
    genRecipe(ctx, recipe, n);
    std::vector<Event> expected;
    {
        Fresh f;
        makeFilters(recipe, f);
        tree::RefWalk(*f.ref, expected).walk(n);
    }
    ctx.log("%s, filter %s, %zu notifications", s->name(), textOf(recipe).c_str(), expected.size());
    ctx.shape(sim::mix(std::hash<std::string>()(textOf(recipe))) ^ static_cast<uint64_t>(s->name()[0]));
    bool hasScript = false;
    for (const auto& p : recipe.parts)
    {
        hasScript |= p.first == 's';
    }
    for (size_t faults = ctx.choose(3); faults > 0; --faults)
    {
        Fault fault = static_cast<Fault>(1 + ctx.choose(3));
        if (fault == FILTER && !hasScript)
        {
            fault = OBSERVER;
        }
        const uint64_t range = fault == OBSERVER ? expected.size() : fault == FILTER ? 3 * expected.size() + 4 : 400;
        const uint64_t at = ctx.choose(ctx.flip(1, 3) ? std::min<uint64_t>(range, 12) : range);
        const uint64_t len = ctx.flip(1, 2) ? 1 : UINT64_MAX;
        if (!walkOnce(ctx, *s, n, expected, recipe, fault, at, len))
        {
            ctx.nontrivial = true;
        }
    }
    walkOnce(ctx, *s, n, expected, recipe, NONE, 0, 0);
}

// one walker and one observer, used again after interruptions; its filter keeps no state
void runSameWalker(Ctx& ctx)
{
    auto s = genAnySubject(ctx);
    const Node n = tree::genNode(ctx, s->type(), genOptions(ctx));
    s->set(n);
    const size_t max = ctx.choose(3);
    const bool limited = ctx.flip(1, 2);
    std::vector<Event> expected;
    tree::RefAll all;
    tree::RefLength length(max);
    tree::RefWalk(limited ? static_cast<tree::RefFilter&>(length) : all, expected).walk(n);
    Recorder rec(expected);
    zserio::DefaultWalkFilter allReal;
    zserio::ArrayLengthWalkFilter lengthReal(max);
    zserio::Walker walker(rec, limited ? static_cast<zserio::IWalkFilter&>(lengthReal) : allReal);
    const auto root = s->constant();
    for (size_t k = 1 + ctx.choose(4); k > 0; --k)
    {
        ctx.step(expected.size());
        rec.seen = 0;
        rec.throwAt = k == 1 ? SIZE_MAX : ctx.choose(expected.size());
        bool threw = false;
        try
        {
            walker.walk(root);
        }
        catch (const Interrupted&)
        {
            threw = true;
            SIM_COUNT("fault.observer-throws");
            ctx.nontrivial = true;
        }
        ctx.log("%s after %zu of %zu", threw ? "interrupted" : "done", rec.seen, expected.size());
        ctx.shape(rec.seen * 2 + threw);
        if (!rec.wrong.empty())
        {
            ctx.fail("wrong-notification", "%s walked again: %s", s->name(), rec.wrong.c_str());
        }
        if (threw != (rec.throwAt != SIZE_MAX) || rec.seen != (threw ? rec.throwAt + 1 : expected.size()))
        {
            ctx.fail("notification-missing", "%s walked again: %zu notifications", s->name(), rec.seen);
        }
    }
}

// things that cannot be walked are refused
void runBadRoot(Ctx& ctx)
{
    const std::vector<Event> none;
    Recorder rec(none);
    zserio::DefaultWalkFilter all;
    zserio::Walker walker(rec, all);
    auto s = genAnySubject(ctx);
    const Node n = tree::genNode(ctx, s->type(), genOptions(ctx));
    s->set(n);
    const auto root = s->constant();
    zserio::IReflectableDataConstPtr bad;
    if (ctx.flip(3, 4))
    {
        const auto& f = s->type().fields[ctx.choose(s->type().fields.size())];
        if (s->type().hasChoice() || f.type->compound())
        {
            return;
        }
        bad = root->getField(f.name);
        if (bad && f.array && bad->size() != 0 && ctx.flip(1, 2))
        {
            bad = bad->at(ctx.choose(bad->size()));
        }
    }
    bool refused = false;
    try
    {
        walker.walk(bad);
    }
    catch (const zserio::CppRuntimeException&)
    {
        refused = true;
    }
    ctx.step();
    if (!refused || rec.seen != 0)
    {
        ctx.fail("walked-a-value", "%s was walked", bad ? "a value" : "nothing");
    }
    SIM_COUNT("fault.not-walkable");
    ctx.nontrivial = true;
    ctx.shape(bad ? static_cast<uint64_t>(bad->getTypeInfo().getCppType()) * 2 + bad->isArray() : 1000);
}

const std::vector<sim::Scenario> SCENARIOS = {{"walk", 10, runWalk}, {"again", 3, runSameWalker}, {"bad-root", 1, runBadRoot}};

} // namespace

namespace sim
{
const char* const PROPERTY = "P12";
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
} // namespace sim
