// The objects the JSON, walking, building and reflection checks work on, and random walk filters with their references.
#pragma once

#include "subject.hpp"
#include "walk_model.hpp"

#include <zserio/Walker.h>

namespace subjects
{

inline const subject::Make SUBJECTS[] = {subject::make<sink::to::CreatorObject>, subject::make<sink::to::WalkerObject>,
        subject::make<sink::to::ReflectableObject>, subject::make<sink::Sink>, subject::make<sink::Inner>};

inline std::unique_ptr<subject::Subject> genSubject(sim::Ctx& ctx)
{
    return SUBJECTS[ctx.pick({2, 2, 2, 3, 2})]();
}

// also as an instance which the type information has made
inline std::unique_ptr<subject::Subject> genAnySubject(sim::Ctx& ctx)
{
    static const subject::Make OWNED[] = {subject::makeOwned<sink::to::CreatorObject>, subject::makeOwned<sink::to::WalkerObject>,
            subject::makeOwned<sink::to::ReflectableObject>, subject::makeOwned<sink::Sink>, subject::makeOwned<sink::Inner>};
    const size_t which = ctx.pick({2, 2, 2, 3, 2});
    return ctx.flip(1, 3) ? OWNED[which]() : SUBJECTS[which]();
}

inline tree::Gen genOptions(sim::Ctx& ctx)
{
    tree::Gen g;
    g.text.text = true;
    g.text.maxString = 10;
    g.text.maxArray = 3;
    g.text.bigSometimes = ctx.flip(1, 8);
    g.maxArray = ctx.flip(1, 8) ? 8 : 2;
    g.present = static_cast<unsigned>(ctx.choose(3) * 40 + 10);
    return g;
}

struct Filters
{
    std::vector<std::unique_ptr<zserio::IWalkFilter>> owned;
    zserio::IWalkFilter* real = nullptr;
    std::shared_ptr<tree::RefFilter> ref;
    std::string text;
};

inline void genFilter(sim::Ctx& ctx, Filters& f, bool top)
{
    switch (top ? ctx.pick({4, 2, 2, 2, 2}) : ctx.pick({1, 2, 2, 2}))
    {
    case 0:
        f.owned.push_back(std::make_unique<zserio::DefaultWalkFilter>());
        f.ref = std::make_shared<tree::RefAll>();
        f.text += " all";
        break;
    case 1:
    {
        const size_t n = ctx.choose(6);
        f.owned.push_back(std::make_unique<zserio::DepthWalkFilter>(n));
        f.ref = std::make_shared<tree::RefDepth>(n);
        f.text += " depth=" + std::to_string(n);
        break;
    }
    case 2:
    {
        const size_t n = ctx.choose(4);
        f.owned.push_back(std::make_unique<zserio::ArrayLengthWalkFilter>(n));
        f.ref = std::make_shared<tree::RefLength>(n);
        f.text += " length=" + std::to_string(n);
        break;
    }
    case 3:
    {
        static const char* const R[] = {".*text.*", "[a-i].*", ".*\\[[02]\\].*", "value", ".*\\.value", "nested.*|inner.*",
                ".*Array", "x"};
        const char* const r = R[ctx.choose(8)];
        f.owned.push_back(std::make_unique<zserio::RegexWalkFilter>(r));
        f.ref = std::make_shared<tree::RefRegex>(r);
        f.text += std::string(" regex=") + r;
        break;
    }
    default:
    {
        auto all = std::make_shared<tree::RefAnd>();
        zserio::AndWalkFilter::WalkFilters list;
        f.text += " and(";
        for (size_t n = ctx.choose(4); n > 0; --n)
        {
            genFilter(ctx, f, false);
            all->parts.push_back(f.ref);
            list.push_back(*f.real);
        }
        f.text += ")";
        f.owned.push_back(std::make_unique<zserio::AndWalkFilter>(list));
        f.ref = all;
        break;
    }
    }
    f.real = f.owned.back().get();
}

} // namespace subjects
