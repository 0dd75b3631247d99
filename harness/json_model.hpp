// Reference for JSON text: writer (from the reference walk), strict parser, and interpretation of a parsed document
// against a type.
#pragma once

#include "walk_model.hpp"

#include <cerrno>
#include <cstdio>
#include <cstdlib>

namespace tree
{

struct JsonFormat
{
    bool hasIndent = false;
    std::string indent;
    std::string itemSep; // empty means the default
    std::string keySep;
    bool customItemSep = false;
    bool customKeySep = false;
    bool numbers = false; // enumerations and bit masks as numbers
};

inline std::string jsonString(const std::string& s)
{
    std::string r = "\"";
    for (char ch : s)
    {
        const unsigned char c = static_cast<unsigned char>(ch);
        switch (c)
        {
        case '"':
            r += "\\\"";
            break;
        case '\\':
            r += "\\\\";
            break;
        case '\b':
            r += "\\b";
            break;
        case '\f':
            r += "\\f";
            break;
        case '\n':
            r += "\\n";
            break;
        case '\r':
            r += "\\r";
            break;
        case '\t':
            r += "\\t";
            break;
        default:
            if (c < 0x20)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
            else
            {
                r += ch;
            }
        }
    }
    return r + "\"";
}

inline std::string jsonDouble(double v)
{
    if (std::isnan(v))
    {
        return "NaN";
    }
    if (std::isinf(v))
    {
        return v < 0 ? "-Infinity" : "Infinity";
    }
    char b[400];
    if (std::fabs(v) < 1e16 && v == std::trunc(v))
    {
        snprintf(b, sizeof b, "%.1f", v);
    }
    else
    {
        snprintf(b, sizeof b, "%.15g", v);
    }
    return b;
}

// the value a double has after its text is read back
inline double printedDouble(double v)
{
    return std::isnan(v) || std::isinf(v) ? v : std::strtod(jsonDouble(v).c_str(), nullptr);
}

class JsonText
{
public:
    JsonText(const JsonFormat& f) :
            m_f(f),
            m_item(f.customItemSep ? f.itemSep : f.hasIndent ? "," : ", "),
            m_key(f.customKeySep ? f.keySep : ": ")
    {}
    std::string text(const std::vector<Event>& events)
    {
        m_out.clear();
        m_count.assign(1, 0);
        for (const Event& e : events)
        {
            switch (e.kind)
            {
            case 'R':
                open('{');
                break;
            case 'r':
                close('}');
                break;
            case 'A':
                item();
                key(e.field->name);
                open('[');
                break;
            case 'a':
                close(']');
                break;
            case 'C':
            case 'V':
                item();
                if (e.index == NOT_ELEMENT)
                {
                    key(e.field->name);
                }
                if (e.kind == 'C')
                {
                    open('{');
                }
                else
                {
                    value(e.node);
                }
                break;
            default:
                close('}');
                break;
            }
        }
        return m_out;
    }

private:
    void newline()
    {
        if (m_f.hasIndent)
        {
            m_out += '\n';
            for (size_t i = 1; i < m_count.size(); ++i)
            {
                m_out += m_f.indent;
            }
        }
    }
    void item()
    {
        if (m_count.back()++ > 0)
        {
            m_out += m_item;
        }
        newline();
    }
    void key(const std::string& k)
    {
        m_out += jsonString(k) + m_key;
    }
    void open(char c)
    {
        m_out += c;
        m_count.push_back(0);
    }
    void close(char c)
    {
        m_count.pop_back();
        newline();
        m_out += c;
    }
    void octets(const std::vector<uint8_t>& v)
    {
        key("buffer");
        open('[');
        for (uint8_t b : v)
        {
            item();
            m_out += std::to_string(b);
        }
        close(']');
    }
    void value(const Node* n)
    {
        if (n == nullptr)
        {
            m_out += "null";
            return;
        }
        const Type& t = *n->type;
        switch (t.kind)
        {
        case BOOL:
            m_out += n->u != 0 ? "true" : "false";
            break;
        case INT:
            m_out += std::to_string(n->i());
            break;
        case UINT:
            m_out += std::to_string(n->u);
            break;
        case FLT:
        case DBL:
            m_out += jsonDouble(n->d);
            break;
        case STR:
            m_out += jsonString(n->s);
            break;
        case BYTES:
            open('{');
            item();
            octets(n->bytes);
            close('}');
            break;
        case BITS:
            open('{');
            item();
            octets(n->bytes);
            item();
            key("bitSize");
            m_out += std::to_string(n->bits);
            close('}');
            break;
        case ENUM:
        {
            const std::string num = t.isSigned ? std::to_string(n->i()) : std::to_string(n->u);
            if (m_f.numbers)
            {
                m_out += num;
                break;
            }
            std::string name = num + " /* no match */";
            for (const Item& it : t.items)
            {
                if (it.value == n->u)
                {
                    name = it.name;
                    break;
                }
            }
            m_out += jsonString(name);
            break;
        }
        case MASK:
        {
            const std::string num = std::to_string(n->u);
            if (m_f.numbers)
            {
                m_out += num;
                break;
            }
            std::string names;
            uint64_t covered = 0;
            for (const Item& it : t.items)
            {
                // an item without bits names the empty mask only
                if (it.value != 0 ? (n->u & it.value) == it.value : n->u == 0)
                {
                    names += (names.empty() ? "" : " | ") + std::string(it.name);
                    covered |= it.value;
                }
            }
            m_out += jsonString(names.empty() ? num + " /* no match */"
                            : covered != n->u ? num + " /* partial match: " + names + " */"
                                              : names);
            break;
        }
        default:
            m_out += "?";
        }
    }
    const JsonFormat& m_f;
    std::string m_item;
    std::string m_key;
    std::string m_out;
    std::vector<size_t> m_count;
};

// ---- parser --------------------------------------------------------------------------------------------

struct JV
{
    enum
    {
        NUL,
        BOOLEAN,
        INTEGER,
        DOUBLE,
        STRING,
        OBJECT,
        ARRAY
    } kind = NUL;
    bool b = false;
    bool negative = false; // integer written with a minus sign
    uint64_t u = 0; // two's complement
    double d = 0;
    std::string s;
    std::vector<std::pair<std::string, JV>> members;
    std::vector<JV> elements;
};

// Accepts what the documentation of the reader calls JSON, leniently where RFC 8259 is stricter (control characters in
// strings, leading zeros, NaN and Infinity): the reader may reject more, but it must not accept what fails here.
class JsonParse
{
public:
    explicit JsonParse(const std::string& text, size_t pos = 0) :
            m_t(text),
            m_p(pos)
    {}
    // one document; `pos` moves behind it
    bool document(JV& v, size_t& pos)
    {
        const bool ok = value(v, 0);
        pos = m_p;
        return ok && !m_bad;
    }
    // text uses what the reference deliberately does not interpret (then only "error or any object" holds)
    bool ambiguous = false;

private:
    void ws()
    {
        while (m_p < m_t.size() && (m_t[m_p] == ' ' || m_t[m_p] == '\t' || m_t[m_p] == '\n' || m_t[m_p] == '\r'))
        {
            ++m_p;
        }
    }
    bool lit(const char* s)
    {
        const size_t n = std::strlen(s);
        if (m_t.compare(m_p, n, s) == 0)
        {
            m_p += n;
            return true;
        }
        return false;
    }
    bool value(JV& v, unsigned depth)
    {
        ws();
        if (m_p >= m_t.size() || depth > 4000)
        {
            return false;
        }
        const char c = m_t[m_p];
        if (c == '{')
        {
            v.kind = JV::OBJECT;
            ++m_p;
            ws();
            if (m_p < m_t.size() && m_t[m_p] == '}')
            {
                ++m_p;
                return true;
            }
            while (true)
            {
                ws();
                JV k;
                if (m_p >= m_t.size() || m_t[m_p] != '"' || !string(k.s))
                {
                    return false;
                }
                ws();
                if (m_p >= m_t.size() || m_t[m_p] != ':')
                {
                    return false;
                }
                ++m_p;
                v.members.emplace_back(k.s, JV());
                if (!value(v.members.back().second, depth + 1))
                {
                    return false;
                }
                ws();
                if (m_p >= m_t.size() || (m_t[m_p] != ',' && m_t[m_p] != '}'))
                {
                    return false;
                }
                if (m_t[m_p++] == '}')
                {
                    return true;
                }
            }
        }
        if (c == '[')
        {
            v.kind = JV::ARRAY;
            ++m_p;
            ws();
            if (m_p < m_t.size() && m_t[m_p] == ']')
            {
                ++m_p;
                return true;
            }
            while (true)
            {
                v.elements.emplace_back();
                if (!value(v.elements.back(), depth + 1))
                {
                    return false;
                }
                ws();
                if (m_p >= m_t.size() || (m_t[m_p] != ',' && m_t[m_p] != ']'))
                {
                    return false;
                }
                if (m_t[m_p++] == ']')
                {
                    return true;
                }
            }
        }
        if (c == '"')
        {
            v.kind = JV::STRING;
            return string(v.s);
        }
        if (lit("null"))
        {
            return true;
        }
        if (lit("true"))
        {
            v.kind = JV::BOOLEAN;
            v.b = true;
            return true;
        }
        if (lit("false"))
        {
            v.kind = JV::BOOLEAN;
            return true;
        }
        if (lit("NaN"))
        {
            v.kind = JV::DOUBLE;
            v.d = std::numeric_limits<double>::quiet_NaN();
            return true;
        }
        if (lit("Infinity"))
        {
            v.kind = JV::DOUBLE;
            v.d = std::numeric_limits<double>::infinity();
            return true;
        }
        if (lit("-Infinity"))
        {
            v.kind = JV::DOUBLE;
            v.d = -std::numeric_limits<double>::infinity();
            return true;
        }
        return number(v);
    }
    bool string(std::string& s)
    {
        ++m_p;
        while (m_p < m_t.size())
        {
            const char c = m_t[m_p++];
            if (c == '"')
            {
                return true;
            }
            if (c == '\0')
            {
                return false;
            }
            if (c != '\\')
            {
                s += c;
                continue;
            }
            if (m_p >= m_t.size())
            {
                return false;
            }
            const char e = m_t[m_p++];
            switch (e)
            {
            case '"':
            case '\\':
            case '/':
                s += e;
                break;
            case 'b':
                s += '\b';
                break;
            case 'f':
                s += '\f';
                break;
            case 'n':
                s += '\n';
                break;
            case 'r':
                s += '\r';
                break;
            case 't':
                s += '\t';
                break;
            case 'u':
            {
                unsigned v = 0;
                for (int i = 0; i < 4; ++i)
                {
                    if (m_p >= m_t.size() || !std::isxdigit(static_cast<unsigned char>(m_t[m_p])))
                    {
                        return false;
                    }
                    const char h = m_t[m_p++];
                    v = v * 16 + static_cast<unsigned>(h <= '9' ? h - '0' : (h | 0x20) - 'a' + 10);
                }
                if (v >= 0x80)
                {
                    ambiguous = true; // see DESIGN.md: the reader has no UTF-16 decoding
                }
                s += static_cast<char>(v);
                break;
            }
            default:
                return false;
            }
        }
        return false;
    }
    bool number(JV& v)
    {
        const size_t start = m_p;
        size_t p = m_p;
        auto digits = [&] {
            const size_t q = p;
            while (p < m_t.size() && m_t[p] >= '0' && m_t[p] <= '9')
            {
                ++p;
            }
            return p - q;
        };
        if (p < m_t.size() && m_t[p] == '-')
        {
            v.negative = true;
            ++p;
        }
        size_t n = digits();
        bool dbl = false;
        if (p < m_t.size() && m_t[p] == '.')
        {
            dbl = true;
            ++p;
            n += digits();
        }
        if (n == 0)
        {
            return false;
        }
        if (p < m_t.size() && (m_t[p] == 'e' || m_t[p] == 'E'))
        {
            dbl = true;
            ++p;
            if (p < m_t.size() && (m_t[p] == '+' || m_t[p] == '-'))
            {
                ++p;
            }
            if (digits() == 0)
            {
                return false;
            }
        }
        const std::string text = m_t.substr(start, p - start);
        m_p = p;
        if (dbl)
        {
            v.kind = JV::DOUBLE;
            v.d = std::strtod(text.c_str(), nullptr);
            return true;
        }
        v.kind = JV::INTEGER;
        errno = 0;
        const unsigned long long m = std::strtoull(text.c_str() + (v.negative ? 1 : 0), nullptr, 10);
        if (errno == ERANGE || (v.negative && m > (1ULL << 63)))
        {
            return false;
        }
        v.u = v.negative ? 0 - m : m;
        return true;
    }
    const std::string& m_t;
    size_t m_p;
    bool m_bad = false;
};

// ---- interpretation ------------------------------------------------------------------------------------

class JsonInterpret
{
public:
    bool ambiguous = false; // the text does not settle what the object is

    bool root(const Type& t, const JV& v, Node& out)
    {
        out = defaultNode(t);
        return v.kind == JV::OBJECT && members(t, v, out);
    }

private:
    bool members(const Type& t, const JV& v, Node& n)
    {
        for (const auto& m : v.members)
        {
            const int fi = t.find(m.first);
            if (fi < 0)
            {
                return false;
            }
            const size_t i = static_cast<size_t>(fi);
            const Field& f = t.fields[i];
            Slot& s = n.slots[i];
            const JV& x = m.second;
            const bool wasChosen = !t.hasChoice() || n.choice == fi;
            if (t.hasChoice() && !wasChosen)
            {
                for (Slot& o : n.slots)
                {
                    o = Slot();
                }
                n.choice = fi;
            }
            if (x.kind == JV::NUL)
            {
                s = Slot();
                if (!f.optional)
                {
                    s.present = true;
                    if (!f.array)
                    {
                        s.nodes.push_back(defaultNode(*f.type));
                    }
                }
                continue;
            }
            if (f.array)
            {
                if (x.kind != JV::ARRAY)
                {
                    return false;
                }
                s = Slot();
                s.present = true;
                for (const JV& e : x.elements)
                {
                    s.nodes.push_back(defaultNode(*f.type));
                    if (!one(*f.type, e, s.nodes.back()))
                    {
                        return false;
                    }
                }
                continue;
            }
            // a repeated key of a plain nested structure continues with what is already there
            if (!(f.type->compound() && !f.optional && t.kind == STRUCT && s.present))
            {
                s = Slot();
                s.present = true;
                s.nodes.push_back(defaultNode(*f.type));
            }
            if (!one(*f.type, x, s.nodes[0]))
            {
                return false;
            }
        }
        return true;
    }
    bool fits(const Type& t, const JV& v) const
    {
        if (v.kind != JV::INTEGER)
        {
            return false;
        }
        if (t.isSigned)
        {
            const uint64_t max = (uint64_t(1) << (t.bits - 1)) - 1;
            if (!v.negative)
            {
                return v.u <= max;
            }
            return static_cast<int64_t>(v.u) >= -static_cast<int64_t>(max) - 1;
        }
        return (!v.negative || v.u == 0) && (t.bits == 64 || v.u >> t.bits == 0);
    }
    bool one(const Type& t, const JV& v, Node& n)
    {
        switch (t.kind)
        {
        case BOOL:
            n.u = v.b ? 1 : 0;
            return v.kind == JV::BOOLEAN;
        case INT:
        case UINT:
            n.u = v.u;
            return fits(t, v);
        case FLT:
        case DBL:
            if (v.kind == JV::INTEGER)
            {
                const int64_t i = static_cast<int64_t>(v.u);
                n.d = t.kind == FLT
                        ? static_cast<double>(v.negative ? static_cast<float>(i) : static_cast<float>(v.u))
                        : v.negative ? static_cast<double>(i)
                                     : static_cast<double>(v.u);
            }
            else
            {
                n.d = t.kind == FLT ? static_cast<double>(static_cast<float>(v.d)) : v.d;
            }
            return v.kind == JV::INTEGER || v.kind == JV::DOUBLE;
        case STR:
            n.s = v.s;
            return v.kind == JV::STRING;
        case ENUM:
            if (v.kind == JV::STRING)
            {
                for (const Item& it : t.items)
                {
                    if (v.s == it.name)
                    {
                        n.u = it.value;
                        return true;
                    }
                }
                return false;
            }
            n.u = v.u;
            return fits(t, v) && t.known(v.u);
        case MASK:
            if (v.kind == JV::STRING)
            {
                return mask(t, v.s, n);
            }
            n.u = v.u;
            return fits(t, v);
        case BYTES:
        case BITS:
            return octets(t, v, n);
        default:
            return v.kind == JV::OBJECT && members(t, v, n);
        }
    }
    // "A | B" or a number; what else may follow a number is a comment the writer adds
    static bool mask(const Type& t, const std::string& s, Node& n)
    {
        n.u = 0;
        if (s.empty())
        {
            return false;
        }
        if (s[0] >= '0' && s[0] <= '9')
        {
            errno = 0;
            n.u = std::strtoull(s.c_str(), nullptr, 10);
            return errno == 0 && (t.bits == 64 || n.u >> t.bits == 0);
        }
        size_t p = 0;
        while (true)
        {
            size_t e = p;
            while (e < s.size() && s[e] != ' ' && s[e] != '|')
            {
                ++e;
            }
            bool found = false;
            for (const Item& it : t.items)
            {
                if (s.compare(p, e - p, it.name) == 0)
                {
                    n.u |= it.value;
                    found = true;
                }
            }
            if (!found)
            {
                return false;
            }
            if (e == s.size())
            {
                return true;
            }
            p = e;
            while (p < s.size() && s[p] == ' ')
            {
                ++p;
            }
            if (p < s.size() && s[p] == '|')
            {
                ++p;
            }
            while (p < s.size() && s[p] == ' ')
            {
                ++p;
            }
        }
    }
    static bool octets(const Type& t, const JV& v, Node& n)
    {
        if (v.kind != JV::OBJECT)
        {
            return false;
        }
        bool haveBuffer = false;
        bool haveSize = false;
        n.bytes.clear();
        n.bits = 0;
        for (const auto& m : v.members)
        {
            if (m.first == "buffer")
            {
                haveBuffer = true;
                n.bytes.clear();
                if (m.second.kind != JV::ARRAY)
                {
                    return false;
                }
                for (const JV& e : m.second.elements)
                {
                    if (e.kind != JV::INTEGER || e.u > 255)
                    {
                        return false;
                    }
                    n.bytes.push_back(static_cast<uint8_t>(e.u));
                }
            }
            else if (m.first == "bitSize" && t.kind == BITS)
            {
                haveSize = true;
                if (m.second.kind != JV::INTEGER || (m.second.negative && m.second.u != 0))
                {
                    return false;
                }
                n.bits = m.second.u;
            }
            else
            {
                return false;
            }
        }
        if (t.kind == BYTES)
        {
            return haveBuffer;
        }
        if (!haveBuffer || !haveSize || n.bits > n.bytes.size() * 8)
        {
            return false;
        }
        n.bytes.resize((n.bits + 7) / 8);
        if (n.bits % 8 != 0)
        {
            n.bytes.back() = static_cast<uint8_t>(n.bytes.back() & (0xff00U >> (n.bits % 8)));
        }
        return true;
    }
};

// what reading back the text of a node gives (floating point to the printed precision)
inline void toPrinted(Node& n)
{
    if (n.type->kind == DBL)
    {
        n.d = printedDouble(n.d);
    }
    else if (n.type->kind == FLT)
    {
        n.d = static_cast<double>(static_cast<float>(printedDouble(n.d)));
    }
    for (Slot& s : n.slots)
    {
        for (Node& c : s.nodes)
        {
            toPrinted(c);
        }
    }
}

} // namespace tree
