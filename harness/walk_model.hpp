// Reference for walking a tree: the sequence of notifications, for any combination of filters.
#pragma once

#include "tree.hpp"

#include <memory>
#include <regex>

namespace tree
{

static constexpr size_t NOT_ELEMENT = static_cast<size_t>(-1);

struct Event
{
    char kind; // R r root, A a array, C c compound, V value (lower case: end)
    const Field* field = nullptr;
    size_t index = NOT_ELEMENT;
    const Node* node = nullptr; // compound or value; null for an absent value
    const Slot* slot = nullptr; // array
};

// what a filter is asked about: an array, a compound or a value at a path
struct Place
{
    char kind; // A C V
    const Field* field;
    size_t index;
    const Node* node;
    const Slot* slot;
    const std::string& path; // as the regex filter defines it
    size_t depth; // number of enclosing arrays and compounds below the root, plus one
};

struct RefFilter
{
    virtual ~RefFilter() = default;
    virtual bool before(const Place& p) = 0;
    virtual bool after(const Place& p) = 0;
};

inline std::string joinPath(const std::string& parent, const std::string& name)
{
    return parent.empty() ? name : parent + "." + name;
}

// calls fn(path) for the field and everything below it; returns whether any call returned true
template <class F>
bool anyPathBelow(const Node& n, const std::string& path, F& fn)
{
    for (size_t i = 0; i < n.slots.size(); ++i)
    {
        if (n.type->hasChoice() && static_cast<int>(i) != n.choice)
        {
            continue;
        }
        const Field& f = n.type->fields[i];
        const std::string p = joinPath(path, f.name);
        if (fn(p))
        {
            return true;
        }
        const Slot& s = n.slots[i];
        for (size_t k = 0; s.present && k < s.nodes.size(); ++k)
        {
            std::string q = p;
            if (f.array)
            {
                q += "[" + std::to_string(k) + "]";
                if (fn(q))
                {
                    return true;
                }
            }
            if (s.nodes[k].type->compound() && anyPathBelow(s.nodes[k], q, fn))
            {
                return true;
            }
        }
    }
    return false;
}

struct RefAll : RefFilter
{
    bool before(const Place&) override
    {
        return true;
    }
    bool after(const Place&) override
    {
        return true;
    }
};
struct RefDepth : RefFilter
{
    size_t max;
    explicit RefDepth(size_t m) :
            max(m)
    {}
    bool before(const Place& p) override
    {
        return p.depth <= max;
    }
    bool after(const Place&) override
    {
        return true;
    }
};
struct RefLength : RefFilter
{
    size_t max;
    explicit RefLength(size_t m) :
            max(m)
    {}
    bool before(const Place& p) override
    {
        return p.index == NOT_ELEMENT || p.index < max;
    }
    bool after(const Place&) override
    {
        return true; // elements beyond the limit are not selected anyway
    }
};
struct RefRegex : RefFilter
{
    std::regex re;
    explicit RefRegex(const std::string& s) :
            re(s)
    {}
    bool before(const Place& p) override
    {
        auto match = [&](const std::string& s) {
            return std::regex_match(s, re);
        };
        if (match(p.path))
        {
            return true;
        }
        if (p.kind == 'A')
        {
            for (size_t k = 0; k < p.slot->nodes.size(); ++k)
            {
                const std::string q = p.path + "[" + std::to_string(k) + "]";
                if (match(q) || (p.slot->nodes[k].type->compound() && anyPathBelow(p.slot->nodes[k], q, match)))
                {
                    return true;
                }
            }
            return false;
        }
        return p.kind == 'C' && anyPathBelow(*p.node, p.path, match);
    }
    bool after(const Place&) override
    {
        return true;
    }
};
struct RefAnd : RefFilter
{
    std::vector<std::shared_ptr<RefFilter>> parts;
    bool before(const Place& p) override
    {
        bool r = true;
        for (auto& f : parts)
        {
            r &= f->before(p);
        }
        return r;
    }
    bool after(const Place& p) override
    {
        bool r = true;
        for (auto& f : parts)
        {
            r &= f->after(p);
        }
        return r;
    }
};

class RefWalk
{
public:
    RefWalk(RefFilter& filter, std::vector<Event>& events) :
            m_filter(filter),
            m_events(events)
    {}
    void walk(const Node& root)
    {
        m_events.push_back(Event{'R', nullptr, NOT_ELEMENT, &root, nullptr});
        fields(root, "", 1);
        m_events.push_back(Event{'r', nullptr, NOT_ELEMENT, &root, nullptr});
    }

private:
    void fields(const Node& n, const std::string& path, size_t depth)
    {
        if (n.type->hasChoice())
        {
            if (n.choice >= 0)
            {
                const size_t c = static_cast<size_t>(n.choice);
                field(n.type->fields[c], n.slots[c], path, depth);
            }
            return;
        }
        for (size_t i = 0; i < n.slots.size(); ++i)
        {
            if (!field(n.type->fields[i], n.slots[i], path, depth))
            {
                break;
            }
        }
    }
    bool field(const Field& f, const Slot& s, const std::string& parent, size_t depth)
    {
        const std::string path = joinPath(parent, f.name);
        if (!s.present || !f.array)
        {
            return value(f, s.present ? &s.nodes[0] : nullptr, NOT_ELEMENT, path, depth);
        }
        const Place p{'A', &f, NOT_ELEMENT, nullptr, &s, path, depth};
        if (m_filter.before(p))
        {
            m_events.push_back(Event{'A', &f, NOT_ELEMENT, nullptr, &s});
            for (size_t k = 0; k < s.nodes.size(); ++k)
            {
                if (!value(f, &s.nodes[k], k, path + "[" + std::to_string(k) + "]", depth + 1))
                {
                    break;
                }
            }
            m_events.push_back(Event{'a', &f, NOT_ELEMENT, nullptr, &s});
        }
        return m_filter.after(p);
    }
    bool value(const Field& f, const Node* n, size_t index, const std::string& path, size_t depth)
    {
        const bool compound = n != nullptr && n->type->compound();
        const Place p{compound ? 'C' : 'V', &f, index, n, nullptr, path, depth};
        if (m_filter.before(p))
        {
            if (compound)
            {
                m_events.push_back(Event{'C', &f, index, n, nullptr});
                fields(*n, path, depth + 1);
                m_events.push_back(Event{'c', &f, index, n, nullptr});
            }
            else
            {
                m_events.push_back(Event{'V', &f, index, n, nullptr});
            }
        }
        return m_filter.after(p);
    }
    RefFilter& m_filter;
    std::vector<Event>& m_events;
};

} // namespace tree
