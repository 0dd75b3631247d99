// P09 (JSON reading does not depend on how the stream delivers), P10 (broken JSON is reported), P11 (JSON output is
// complete or the failure is visible). Built once for each with -DPROP=9, 10 or 11.
#define SUBJECT_JSON
#include "json_model.hpp"
#include "subjects.hpp"

#include <zserio/DebugStringUtil.h>
#include <zserio/JsonReader.h>
#include <zserio/JsonWriter.h>
#include <zserio/Walker.h>

#include <sstream>
#include <streambuf>

using sim::Ctx;
using namespace subjects;
using subject::Subject;
using tree::Node;

namespace
{

tree::JsonFormat genFormat(Ctx& ctx, bool separators)
{
    tree::JsonFormat f;
    f.hasIndent = ctx.flip(1, 2);
    if (f.hasIndent)
    {
        static const char* const I[] = {"", " ", "    ", "\t"};
        f.indent = I[ctx.choose(4)];
    }
    if (separators && ctx.flip(1, 4))
    {
        static const char* const S[] = {",", " ,  ", ",\n", "\t,"};
        f.customItemSep = true;
        f.itemSep = S[ctx.choose(4)];
    }
    if (separators && ctx.flip(1, 4))
    {
        static const char* const S[] = {":", " : ", ":\n", "\t:  "};
        f.customKeySep = true;
        f.keySep = S[ctx.choose(4)];
    }
    f.numbers = ctx.flip(1, 3);
    return f;
}

std::string refText(const Node& n, const tree::JsonFormat& f, tree::RefFilter& filter)
{
    std::vector<tree::Event> events;
    tree::RefWalk(filter, events).walk(n);
    return tree::JsonText(f).text(events);
}

std::string refText(const Node& n, const tree::JsonFormat& f)
{
    tree::RefAll all;
    return refText(n, f, all);
}

// ---- input ---------------------------------------------------------------------------------------------

struct StreamFault : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// how a stream delivers its bytes
struct Delivery
{
    enum
    {
        WHOLE,
        FIXED,
        RANDOM,
        TWO,
        UNDERFLOW
    } mode = WHOLE;
    size_t size = 1; // of pieces, or of the first one
    uint64_t seed = 0;
    size_t limit = SIZE_MAX; // the stream ends here
    size_t throwAt = SIZE_MAX; // the stream fails when this byte is asked for
};

Delivery genDelivery(Ctx& ctx, size_t textSize, size_t interesting)
{
    Delivery d;
    switch (ctx.pick({1, 3, 3, 3, 2}))
    {
    case 0:
        break;
    case 1:
        d.mode = Delivery::FIXED;
        d.size = 1 + ctx.choose(ctx.flip(1, 2) ? 4 : 40);
        break;
    case 2:
        d.mode = Delivery::RANDOM;
        d.size = 1 + ctx.choose(20);
        d.seed = ctx.choose(0);
        break;
    case 3:
        d.mode = Delivery::TWO;
        d.size = interesting + ctx.choose(textSize - interesting + 1);
        break;
    default:
        d.mode = Delivery::UNDERFLOW;
        d.size = 1 + ctx.choose(40);
        break;
    }
    if (d.mode != Delivery::WHOLE)
    {
        SIM_COUNT("fault.pieces");
    }
    return d;
}

class PieceBuf : public std::streambuf
{
public:
    PieceBuf(const std::string& text, const Delivery& d) :
            m_text(text),
            m_d(d),
            m_seed(d.seed)
    {}
    bool threw = false;
    bool ended = false;

protected:
    std::streamsize xsgetn(char* s, std::streamsize n) override
    {
        if (m_d.mode == Delivery::UNDERFLOW)
        {
            return std::streambuf::xsgetn(s, n);
        }
        const size_t k = piece(static_cast<size_t>(n));
        std::memcpy(s, m_text.data() + m_pos, k);
        m_pos += k;
        return static_cast<std::streamsize>(k);
    }
    int_type underflow() override
    {
        const size_t k = piece(m_d.mode == Delivery::UNDERFLOW ? m_d.size : 1);
        if (k == 0)
        {
            return traits_type::eof();
        }
        m_chunk.assign(m_text, m_pos, k);
        m_pos += k;
        setg(&m_chunk[0], &m_chunk[0], &m_chunk[0] + k);
        return traits_type::to_int_type(m_chunk[0]);
    }

private:
    size_t piece(size_t max)
    {
        const size_t end = std::min({m_text.size(), m_d.limit, m_d.throwAt});
        if (m_pos >= end)
        {
            if (m_d.throwAt <= m_pos && m_d.throwAt < std::min(m_text.size(), m_d.limit))
            {
                threw = true;
                throw StreamFault("stream failed");
            }
            ended = m_d.limit < m_text.size();
            return 0;
        }
        size_t k = max;
        switch (m_d.mode)
        {
        case Delivery::FIXED:
            k = m_d.size;
            break;
        case Delivery::RANDOM:
            m_seed = sim::mix(m_seed);
            k = 1 + m_seed % m_d.size;
            break;
        case Delivery::TWO:
            k = m_pos < m_d.size ? m_d.size - m_pos : max;
            break;
        default:
            break;
        }
        return std::min({k, max, end - m_pos});
    }
    const std::string& m_text;
    Delivery m_d;
    uint64_t m_seed;
    size_t m_pos = 0;
    std::string m_chunk;
};

struct Outcome
{
    bool ok = false;
    Node node;
    std::string error; // message
    char kind = 0; // P parser error, R other error of the library, S stream, other
};

template <class F>
Outcome attempt(F f)
{
    Outcome o;
    try
    {
        o.node = f();
        o.ok = true;
    }
    catch (const zserio::JsonParserException& e)
    {
        o.kind = 'P';
        o.error = e.what();
    }
    catch (const zserio::CppRuntimeException& e)
    {
        o.kind = 'R';
        o.error = e.what();
    }
    catch (const StreamFault& e)
    {
        o.kind = 'S';
        o.error = e.what();
    }
    return o;
}

struct Doc
{
    std::unique_ptr<Subject> subject;
    Node node;
    std::string text;
};

Node readOne(zserio::JsonReader& reader, const Subject& s)
{
    auto r = reader.read(s.info());
    if (!r)
    {
        throw zserio::CppRuntimeException("null object");
    }
    return s.of(*r);
}

// reads all documents through one reader, until the first error; then once more
std::vector<Outcome> readAll(const std::vector<Doc>& docs, std::istream& in)
{
    std::vector<Outcome> r;
    std::optional<zserio::JsonReader> reader;
    Outcome c = attempt([&] {
        reader.emplace(in);
        return Node();
    });
    if (!c.ok)
    {
        r.push_back(c);
        return r;
    }
    for (const Doc& d : docs)
    {
        r.push_back(attempt([&] {
            return readOne(*reader, *d.subject);
        }));
        if (!r.back().ok)
        {
            return r;
        }
    }
    r.push_back(attempt([&] {
        return readOne(*reader, *docs.back().subject);
    }));
    return r;
}

// the message without its position; the position
std::string splitPosition(const std::string& e, long& line, long& column)
{
    size_t p = std::string::npos;
    for (const char* prefix : {"JsonParser:", "JsonTokenizer:"})
    {
        if (e.compare(0, std::strlen(prefix), prefix) == 0)
        {
            p = std::strlen(prefix);
        }
    }
    if (p == std::string::npos)
    {
        p = e.rfind(" (JsonParser:");
        p = p == std::string::npos ? p : p + 13;
    }
    if (p == std::string::npos)
    {
        line = column = -1;
        return e;
    }
    char* end = nullptr;
    line = std::strtol(e.c_str() + p, &end, 10);
    column = *end == ':' ? std::strtol(end + 1, &end, 10) : -1;
    return e.substr(0, p) + "@" + end;
}

// the same document with other spellings: characters of strings escaped although they need not be, hexadecimal digits in
// either case, white space between tokens
std::string respell(Ctx& ctx, const std::string& text)
{
    const bool lower = ctx.flip(1, 2);
    const unsigned often = static_cast<unsigned>(1 + ctx.choose(8));
    std::string s;
    bool inside = false;
    for (size_t i = 0; i < text.size(); ++i)
    {
        const char c = text[i];
        if (!inside)
        {
            static const char* const SPACE[] = {" ", "\t", "\n", "\r\n", "  "};
            if (std::strchr("{}[],:", c) != nullptr && c != 0 && ctx.flip(1, 24))
            {
                const char* w = SPACE[ctx.choose(5)];
                s += ctx.flip(1, 2) ? w + std::string(1, c) : c + std::string(w);
            }
            else
            {
                s += c;
            }
            inside = c == '"';
            continue;
        }
        if (c == '"')
        {
            inside = false;
            s += c;
            continue;
        }
        char plain = c;
        size_t length = 1;
        if (c == '\\')
        {
            static const char FROM[] = "\"\\/bfnrt";
            static const char TO[] = "\"\\/\b\f\n\r\t";
            const char* f = std::strchr(FROM, text[i + 1]);
            length = text[i + 1] == 'u' ? 6 : 2;
            plain = f != nullptr ? TO[f - FROM] : static_cast<char>(std::strtol(text.substr(i + 4, 2).c_str(), nullptr, 16));
        }
        if ((plain & 0x80) == 0 && ctx.flip(1, often))
        {
            char b[8];
            std::snprintf(b, sizeof b, lower ? "\\u%04x" : "\\u%04X", static_cast<unsigned>(static_cast<unsigned char>(plain)));
            s += b;
        }
        else
        {
            s += text.substr(i, length);
        }
        i += length - 1;
    }
    return s;
}

Doc genDoc(Ctx& ctx)
{
    Doc d;
    d.subject = genSubject(ctx);
    const tree::Gen g = genOptions(ctx);
    d.node = tree::genNode(ctx, d.subject->type(), g);
    const tree::JsonFormat f = genFormat(ctx, true);
    d.text = refText(d.node, f);
    if (f.hasIndent)
    {
        const size_t nl = ctx.pick({3, 1, 1});
        if (nl != 0)
        {
            std::string s;
            for (char c : d.text)
            {
                if (c == '\n')
                {
                    s += nl == 1 ? "\r\n" : "\r";
                }
                else
                {
                    s += c;
                }
            }
            d.text = s;
        }
    }
    if (ctx.flip(1, 3))
    {
        d.text = respell(ctx, d.text);
        SIM_COUNT("op.respelled");
    }
    tree::toPrinted(d.node);
    return d;
}

// ---- damage to text ------------------------------------------------------------------------------------

std::string damage(Ctx& ctx, std::string t)
{
    for (size_t n = 1 + (ctx.flip(1, 5) ? 1 : 0); n > 0 && !t.empty(); --n)
    {
        const size_t at = ctx.choose(t.size());
        switch (ctx.pick({2, 2, 2, 2, 2, 2, 2, 2, 1, 1}))
        {
        case 0:
            SIM_COUNT("fault.truncated");
            t.resize(at);
            break;
        case 1:
        {
            SIM_COUNT("fault.character-changed");
            static const char C[] = "{}[]:,\"\\ 0-.eNt\0\n\x80/+";
            t[at] = C[ctx.choose(sizeof C - 1)];
            break;
        }
        case 2:
            SIM_COUNT("fault.bit-flipped");
            t[at] = static_cast<char>(t[at] ^ (1 << ctx.choose(8)));
            break;
        case 3:
            SIM_COUNT("fault.block-lost");
            t.erase(at, 1 + ctx.choose(ctx.flip(1, 2) ? 2 : 40));
            break;
        case 4:
        {
            SIM_COUNT("fault.block-duplicated");
            const std::string b = t.substr(at, 1 + ctx.choose(ctx.flip(1, 2) ? 2 : 60));
            t.insert(at, b);
            break;
        }
        case 5: // a number, word or string replaced by another value
        {
            SIM_COUNT("fault.value-replaced");
            static const char* const V[] = {"null", "true", "0", "1", "-1", "255", "256", "-129", "65536", "4294967296",
                    "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
                    "1.5", "1e3", "1e400", "-0", "00", "NaN", "Infinity", "-Infinity", "\"\"", "\"x\"", "\"ONE\"",
                    "\"READ\"", "\"READ | WRITE\"", "\"READ |\"", "\"READ | X\"", "\"7 x\"", "[]", "{}", "[1]",
                    "{\"buffer\": [1, 2], \"bitSize\": 9}", "{\"buffer\": [1], \"bitSize\": 9}", "{\"buffer\": []}",
                    "\"\\u0041\"", "\"\\u0100\"", "\"\\x\"", "nul", "tru", "Inf", "--1", "1.2.3", "1e", ".5", "5.", "-"};
            const size_t c = ctx.flip(1, 2) ? t.find(':', at) : t.find_first_of("[,", at); // of a member or of an array
            if (c != std::string::npos)
            {
                const size_t e = t.find_first_of(",}]", c + 1);
                t.replace(c + 1, e == std::string::npos ? std::string::npos : e - c - 1,
                        V[ctx.choose(sizeof V / sizeof V[0])]);
            }
            break;
        }
        case 6: // a key renamed
        {
            SIM_COUNT("fault.key-renamed");
            const size_t c = t.find("\":", at);
            if (c != std::string::npos)
            {
                const size_t b = t.rfind('"', c - (c > 0 ? 1 : 0));
                if (b != std::string::npos && b < c)
                {
                    static const char* const K[] = {"", "nested", "text", "value", "buffer", "bitSize", "inner", "zzz"};
                    t.replace(b + 1, c - b - 1, K[ctx.choose(8)]);
                }
            }
            break;
        }
        case 7: // a member repeated
        {
            SIM_COUNT("fault.member-repeated");
            const size_t b = t.find('"', at);
            const size_t e = b == std::string::npos ? b : t.find_first_of(",}", b);
            if (e != std::string::npos)
            {
                const std::string m = t.substr(b, e - b);
                t.insert(b, m + ", ");
            }
            break;
        }
        case 8:
            SIM_COUNT("fault.zeroed");
            for (size_t i = at; i < t.size() && i < at + 1 + ctx.choose(8); ++i)
            {
                t[i] = '\0';
            }
            break;
        default:
            SIM_COUNT("fault.garbage-appended");
            t += std::string(1 + ctx.choose(3), "x}]{\"1"[ctx.choose(6)]);
            break;
        }
    }
    return t;
}

// ---- P09 -----------------------------------------------------------------------------------------------

void compare(Ctx& ctx, const char* what, const std::vector<Outcome>& a, const std::vector<Outcome>& b, long lines)
{
    if (a.size() != b.size())
    {
        ctx.fail("split-changes-result", "%s: %zu results instead of %zu (last error: %s | %s)", what, b.size(), a.size(),
                a.back().error.c_str(), b.back().error.c_str());
    }
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (a[i].ok != b[i].ok)
        {
            ctx.fail("split-changes-result", "%s: document %zu %s instead of %s", what, i,
                    b[i].ok ? "was read" : ("failed: " + b[i].error).c_str(),
                    a[i].ok ? "being read" : ("failing: " + a[i].error).c_str());
        }
        if (a[i].ok)
        {
            if (!tree::equal(a[i].node, b[i].node))
            {
                ctx.fail("split-changes-object", "%s: document %zu differs at %s", what, i,
                        tree::difference(a[i].node, b[i].node).c_str());
            }
            continue;
        }
        if (a[i].error.size() > 480)
        {
            continue; // cut off at the maximum length
        }
        long la = 0;
        long ca = 0;
        long lb = 0;
        long cb = 0;
        const std::string ea = splitPosition(a[i].error, la, ca);
        const std::string eb = splitPosition(b[i].error, lb, cb);
        if (a[i].kind != b[i].kind || ea != eb || ca != cb || (la >= 0 ? la + lines : la) != lb)
        {
            ctx.fail("split-changes-error", "%s: '%s' instead of '%s' (%ld lines in front)", what, b[i].error.c_str(),
                    a[i].error.c_str(), lines);
        }
    }
}

void runSplit(Ctx& ctx)
{
    std::vector<Doc> docs;
    std::string text;
    std::vector<size_t> starts;
    for (size_t n = 1 + ctx.pick({3, 1, 1}); n > 0; --n)
    {
        docs.push_back(genDoc(ctx));
        static const char* const W[] = {"", " ", "\n", "\r\n", "\t \r"};
        text += W[ctx.choose(5)];
        starts.push_back(text.size());
        text += docs.back().text;
    }
    static const char* const W[] = {"", " ", "\n", "\r\n", "\r"};
    text += W[ctx.choose(5)];
    const bool damaged = ctx.flip(1, 3);
    if (damaged)
    {
        text = damage(ctx, text);
        SIM_COUNT("fault.damaged-document");
    }
    // the text alone, at once
    std::vector<Outcome> base;
    {
        std::istringstream in(text);
        base = readAll(docs, in);
    }
    if (!damaged)
    {
        for (size_t i = 0; i < docs.size(); ++i)
        {
            if (i >= base.size() || !base[i].ok)
            {
                ctx.fail("good-document-rejected", "document %zu of %zu (%s): %s", i, docs.size(), docs[i].subject->name(),
                        base.back().error.c_str());
            }
            if (!tree::equal(base[i].node, docs[i].node))
            {
                ctx.fail("wrong-object", "document %zu (%s) differs at %s", i, docs[i].subject->name(),
                        tree::difference(docs[i].node, base[i].node).c_str());
            }
            // separately
            std::istringstream in(docs[i].text);
            const Outcome o = attempt([&] {
                return docs[i].subject->fromStream(in);
            });
            if (!o.ok || !tree::equal(o.node, docs[i].node))
            {
                ctx.fail("separate-differs", "document %zu read separately: %s", i,
                        o.ok ? tree::difference(docs[i].node, o.node).c_str() : o.error.c_str());
            }
        }
        if (base.back().ok)
        {
            ctx.fail("object-from-nothing", "reading after the last document gave an object");
        }
    }
    ctx.log("%zu documents, %zu bytes%s, %zu results, last error '%s'", docs.size(), text.size(), damaged ? ", damaged" : "",
            base.size(), base.back().error.c_str());
    // the same bytes in pieces
    for (size_t n = 1 + ctx.choose(3); n > 0; --n)
    {
        size_t pad = 0;
        if (ctx.flip(1, 12))
        {
            // the internal chunk of 64 KiB ends somewhere inside the text
            pad = 65536 - std::min<size_t>(65536, ctx.choose(text.size() + 2));
            SIM_COUNT("fault.chunk-boundary");
        }
        const std::string t = std::string(pad, '\n') + text;
        Delivery d = genDelivery(ctx, t.size(), pad);
        if (pad != 0 && d.mode != Delivery::TWO)
        {
            d.size = std::max<size_t>(d.size, 512); // many small pieces in front only cost time
        }
        PieceBuf buf(t, d);
        std::istream in(&buf);
        const auto r = readAll(docs, in);
        ctx.log("mode %d size %zu pad %zu: %zu results, last error '%s'", static_cast<int>(d.mode), d.size, pad, r.size(),
                r.back().error.c_str());
        ctx.step(t.size() / std::max<size_t>(1, d.size) + 1);
        ctx.shape(d.mode * 1000003 + std::min<size_t>(d.size, 64) * 17 + (pad != 0));
        compare(ctx, "in pieces", base, r, static_cast<long>(pad));
        ctx.nontrivial = ctx.nontrivial || d.mode != Delivery::WHOLE || pad != 0;
    }
    ctx.shape(docs.size() * 64 + damaged * 32 + base.size());
    ctx.shape(text.size() / 64);
}

// the text the writer makes, read back
void runRoundTrip(Ctx& ctx)
{
    auto s = genSubject(ctx);
    const tree::Gen g = genOptions(ctx);
    Node n = tree::genNode(ctx, s->type(), g);
    s->set(n);
    const int indent = static_cast<int>(ctx.choose(6)) - 1;
    std::string text;
    if (ctx.flip(1, 2))
    {
        text = s->toText(indent);
    }
    else
    {
        std::ostringstream out;
        s->toStream(out, indent);
        text = out.str();
    }
    tree::toPrinted(n);
    const Delivery d = genDelivery(ctx, text.size(), 0);
    PieceBuf buf(text, d);
    std::istream in(&buf);
    const Outcome o = attempt([&] {
        return s->fromStream(in);
    });
    ctx.log("%s, %zu bytes, mode %d size %zu: %s", s->name(), text.size(), static_cast<int>(d.mode), d.size,
            o.ok ? "read" : o.error.c_str());
    if (!o.ok)
    {
        ctx.fail("own-text-rejected", "%s: %s", s->name(), o.error.c_str());
    }
    if (!tree::equal(o.node, n))
    {
        ctx.fail("round-trip-differs", "%s differs at %s", s->name(), tree::difference(n, o.node).c_str());
    }
    ctx.step(text.size() / std::max<size_t>(1, d.size) + 1);
    ctx.nontrivial = d.mode != Delivery::WHOLE;
    ctx.shape(d.mode * 1000003 + d.size);
    ctx.shape(text.size());
}

// ---- P10 -----------------------------------------------------------------------------------------------

bool reference(const tree::Type& t, const std::string& text, size_t from, Node& n, bool& ambiguous)
{
    tree::JsonParse p(text, from);
    tree::JV v;
    size_t end = 0;
    const bool ok = p.document(v, end);
    tree::JsonInterpret i;
    const bool r = ok && i.root(t, v, n);
    ambiguous = p.ambiguous || i.ambiguous;
    return r;
}

void checkGood(Ctx& ctx, const Doc& good)
{
    std::istringstream in(good.text);
    const Outcome o = attempt([&] {
        return good.subject->fromStream(in);
    });
    if (!o.ok || !tree::equal(o.node, good.node))
    {
        ctx.fail("later-document-disturbed", "a good %s read after the failure: %s", good.subject->name(),
                o.ok ? tree::difference(good.node, o.node).c_str() : o.error.c_str());
    }
}

void runBroken(Ctx& ctx)
{
    const Doc good = genDoc(ctx);
    std::vector<Doc> docs;
    std::string text;
    for (size_t n = 1 + ctx.pick({3, 1}); n > 0; --n)
    {
        docs.push_back(genDoc(ctx));
        text += (ctx.flip(1, 2) ? " " : "") + docs.back().text;
    }
    if (ctx.flip(1, 10)) // another document's tail or head
    {
        const std::string& o = good.text;
        const size_t a = ctx.choose(text.size() + 1);
        const size_t b = ctx.choose(o.size() + 1);
        text = ctx.flip(1, 2) ? text.substr(0, a) + o.substr(b) : text.substr(0, a) + o.substr(0, b) + text.substr(a);
        SIM_COUNT("fault.spliced");
    }
    else if (ctx.flip(3, 4))
    {
        text = damage(ctx, text);
    }
    Delivery d = genDelivery(ctx, text.size(), 0);
    switch (ctx.pick({3, 1, 1}))
    {
    case 1:
        d.limit = ctx.choose(text.size() + 1);
        break;
    case 2:
        d.throwAt = ctx.choose(text.size() + 1);
        break;
    default:
        break;
    }
    const std::string delivered = text.substr(0, std::min({text.size(), d.limit, d.throwAt}));
    PieceBuf buf(text, d);
    std::istream in(&buf);
    std::optional<zserio::JsonReader> reader;
    Outcome o = attempt([&] {
        reader.emplace(in);
        return Node();
    });
    bool failed = !o.ok;
    bool first = true;
    size_t done = 0;
    // every document, then some more attempts with the same reader: after an error and at the end of the stream
    for (size_t i = 0; reader && i < docs.size() + 2; ++i)
    {
        const Doc& doc = docs[std::min(i, docs.size() - 1)];
        o = attempt([&] {
            return readOne(*reader, *doc.subject);
        });
        ctx.step();
        ctx.log("read %zu: %s", i, o.ok ? "object" : o.error.c_str());
        ctx.shape(static_cast<uint64_t>(o.ok) * 8 + (o.kind == 'P') + 2 * (o.kind == 'S'));
        if (o.ok)
        {
            SIM_COUNT("probe.object");
            bool ambiguous = false;
            if (first)
            {
                // strict: the next document of the text, as the reference reads it
                tree::JsonParse p(delivered, done);
                tree::JV v;
                size_t end = 0;
                const bool ok = p.document(v, end);
                tree::JsonInterpret in2;
                Node n;
                const bool good2 = ok && in2.root(doc.subject->type(), v, n);
                ambiguous = p.ambiguous || in2.ambiguous;
                done = end;
                if (!good2 && !ambiguous)
                {
                    ctx.fail("broken-document-accepted", "%s read from text that is no such document: %s", doc.subject->name(),
                            delivered.substr(0, 4000).c_str());
                }
                if (good2 && !ambiguous && !tree::equal(n, o.node))
                {
                    ctx.fail("wrong-object", "%s differs at %s from what the text says: %s", doc.subject->name(),
                            tree::difference(n, o.node).c_str(), delivered.substr(0, 4000).c_str());
                }
            }
            else
            {
                // after an error: at least what some part of the text says
                bool found = false;
                for (size_t p = delivered.find('{'); p != std::string::npos && !found; p = delivered.find('{', p + 1))
                {
                    Node n;
                    bool amb = false;
                    found = (reference(doc.subject->type(), delivered, p, n, amb) && tree::equal(n, o.node)) || amb;
                }
                if (!found)
                {
                    ctx.fail("stale-object", "%s read after an error is nowhere in the text", doc.subject->name());
                }
            }
            if (i >= docs.size() && first)
            {
                // more documents than expected: damage can do that
                SIM_COUNT("probe.extra-document");
            }
        }
        else
        {
            failed = true;
            first = false;
        }
    }
    if (buf.threw)
    {
        SIM_COUNT("fault.stream-failed");
    }
    if (buf.ended)
    {
        SIM_COUNT("fault.early-end");
    }
    ctx.nontrivial = failed;
    ctx.shape(docs.size() * 4 + (good.subject->name()[0]));
    checkGood(ctx, good);
}

// one reader reads a document, the stream gets no more text: there is no further object
void runExhausted(Ctx& ctx)
{
    Doc d = genDoc(ctx);
    const Delivery dl = genDelivery(ctx, d.text.size(), 0);
    PieceBuf buf(d.text, dl);
    std::istream in(&buf);
    zserio::JsonReader reader(in);
    const Outcome a = attempt([&] {
        return readOne(reader, *d.subject);
    });
    if (!a.ok || !tree::equal(a.node, d.node))
    {
        ctx.fail("good-document-rejected", "%s: %s", d.subject->name(),
                a.ok ? tree::difference(d.node, a.node).c_str() : a.error.c_str());
    }
    auto other = genSubject(ctx);
    for (size_t n = 1 + ctx.choose(2); n > 0; --n)
    {
        Outcome b;
        try
        {
            auto r = reader.read(other->info());
            b.ok = true;
        }
        catch (const zserio::CppRuntimeException& e)
        {
            b.error = e.what();
        }
        ctx.step();
        if (b.ok)
        {
            ctx.fail("object-from-nothing", "a second read at the end of the stream returned an object");
        }
    }
    SIM_COUNT("fault.early-end");
    ctx.nontrivial = true;
    ctx.shape(dl.mode * 64 + dl.size);
    ctx.shape(d.text.size());
}

// ---- P11 -----------------------------------------------------------------------------------------------

class FaultySink : public std::streambuf
{
public:
    std::string received;
    size_t refuseAt = SIZE_MAX; // bytes from here on are refused
    bool refuseOnce = false; // only one request is refused
    size_t throwAt = SIZE_MAX;
    size_t syncFailAt = SIZE_MAX; // this flush fails
    size_t syncs = 0;
    bool fired = false;

    explicit FaultySink(size_t bufferSize)
    {
        m_buffer.resize(bufferSize);
        if (bufferSize != 0)
        {
            setp(&m_buffer[0], &m_buffer[0] + bufferSize);
        }
    }
    void heal()
    {
        refuseAt = throwAt = syncFailAt = SIZE_MAX;
        if (!m_buffer.empty())
        {
            setp(&m_buffer[0], &m_buffer[0] + m_buffer.size());
        }
        received.clear();
    }

protected:
    // returns how many are accepted
    size_t device(const char* s, size_t n)
    {
        for (size_t i = 0; i < n; ++i)
        {
            if (received.size() >= throwAt)
            {
                fired = true;
                throw StreamFault("sink failed");
            }
            if (received.size() >= refuseAt)
            {
                fired = true;
                if (refuseOnce)
                {
                    refuseAt = SIZE_MAX;
                }
                return i;
            }
            received += s[i];
        }
        return n;
    }
    bool drain()
    {
        const size_t n = static_cast<size_t>(pptr() - pbase());
        const size_t k = n == 0 ? 0 : device(pbase(), n);
        if (k == n)
        {
            setp(pbase(), epptr());
            return true;
        }
        // what was accepted is gone, the rest stays
        std::string rest(pbase() + k, n - k);
        std::memcpy(pbase(), rest.data(), rest.size());
        char* const b = pbase();
        setp(b, epptr());
        pbump(static_cast<int>(rest.size()));
        return false;
    }
    int_type overflow(int_type c) override
    {
        if (m_buffer.empty())
        {
            const char ch = traits_type::to_char_type(c);
            return device(&ch, 1) == 1 ? c : traits_type::eof();
        }
        if (!drain())
        {
            return traits_type::eof();
        }
        if (!traits_type::eq_int_type(c, traits_type::eof()))
        {
            *pptr() = traits_type::to_char_type(c);
            pbump(1);
        }
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (m_buffer.empty())
        {
            return static_cast<std::streamsize>(device(s, static_cast<size_t>(n)));
        }
        return std::streambuf::xsputn(s, n);
    }
    int sync() override
    {
        if (syncs++ == syncFailAt)
        {
            fired = true;
            return -1;
        }
        return m_buffer.empty() || drain() ? 0 : -1;
    }

private:
    std::string m_buffer;
};

std::unique_ptr<zserio::JsonWriter> makeWriter(std::ostream& out, const tree::JsonFormat& f)
{
    std::unique_ptr<zserio::JsonWriter> w;
    if (!f.hasIndent)
    {
        w = std::make_unique<zserio::JsonWriter>(out);
    }
    else if (f.indent.find('\t') == std::string::npos && f.indent.size() % 2 == 0)
    {
        w = std::make_unique<zserio::JsonWriter>(out, static_cast<uint8_t>(f.indent.size()));
    }
    else
    {
        w = std::make_unique<zserio::JsonWriter>(out, zserio::String(f.indent));
    }
    if (f.customItemSep)
    {
        w->setItemSeparator(f.itemSep);
    }
    if (f.customKeySep)
    {
        w->setKeySeparator(f.keySep);
    }
    if (f.numbers)
    {
        w->setEnumerableFormat(zserio::JsonWriter::EnumerableFormat::NUMBER);
    }
    return w;
}

void runDump(Ctx& ctx)
{
    auto s = genSubject(ctx);
    tree::Gen g = genOptions(ctx);
    g.anyEnum = ctx.flip(1, 3);
    g.text.text = !ctx.flip(1, 4);
    const Node n = tree::genNode(ctx, s->type(), g);
    s->set(n);
    const tree::JsonFormat format = genFormat(ctx, true);
    // the reference itself: its text says what the node is
    {
        const std::string t = refText(n, format);
        if (!g.anyEnum && t.find('\0') == std::string::npos)
        {
            Node back;
            Node printed = n;
            tree::toPrinted(printed);
            bool ambiguous = false;
            if (!reference(s->type(), t, 0, back, ambiguous) || !tree::equal(back, printed))
            {
                ctx.fail("harness", "reference writer and parser disagree at %s", tree::difference(back, printed).c_str());
            }
        }
    }
    Filters filters;
    genFilter(ctx, filters, true);
    const std::string expected = refText(n, format, *filters.ref);

    static const size_t BUF[] = {0, 1, 7, 64, 4096};
    FaultySink sink(BUF[ctx.choose(5)]);
    const size_t fault = ctx.pick({1, 3, 2, 2, 1});
    switch (fault)
    {
    case 1:
        sink.refuseAt = ctx.choose(expected.size() + 1);
        break;
    case 2:
        sink.refuseAt = ctx.choose(expected.size() + 1);
        sink.refuseOnce = true;
        break;
    case 3:
        sink.throwAt = ctx.choose(expected.size() + 1);
        break;
    case 4:
        sink.syncFailAt = ctx.choose(ctx.flip(1, 2) ? 4 : 100);
        break;
    default:
        break;
    }
    std::ostream out(&sink);
    const size_t mask = ctx.pick({2, 1, 1});
    out.exceptions(mask == 0 ? std::ios_base::goodbit
                    : mask == 1 ? std::ios_base::badbit
                                : std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit);
    auto writer = makeWriter(out, format);
    bool threw = false;
    std::string error;
    try
    {
        zserio::Walker walker(*writer, *filters.real);
        walker.walk(s->constant());
    }
    catch (const std::exception& e)
    {
        threw = true;
        error = e.what();
    }
    ctx.step(expected.size());
    ctx.log("%s filter%s fault %zu mask %zu: %zu of %zu bytes, %s", s->name(), filters.text.c_str(), fault, mask,
            sink.received.size(), expected.size(), threw ? error.c_str() : out.good() ? "good" : "stream failed");
    if (sink.fired)
    {
        static const char* const N[] = {"", "fault.sink-refuses", "fault.sink-refuses-once", "fault.sink-throws", "fault.flush-fails"};
        sim::count(N[fault]);
        ctx.nontrivial = true;
    }
    ctx.shape(fault * 100 + mask * 10 + format.hasIndent * 2 + format.numbers);
    ctx.shape(sim::mix(std::hash<std::string>()(filters.text)) + s->name()[0]);
    ctx.shape(sink.received.size() * 16 / (expected.size() + 1));
    if (expected.compare(0, sink.received.size(), sink.received) != 0)
    {
        size_t k = 0;
        while (k < sink.received.size() && k < expected.size() && sink.received[k] == expected[k])
        {
            ++k;
        }
        const size_t b = k < 40 ? 0 : k - 40;
        ctx.fail("not-a-prefix", "%s%s: at byte %zu the sink received '%s', expected '%s'", s->name(), filters.text.c_str(), k,
                sink.received.substr(b, 100).c_str(), expected.substr(b, 100).c_str());
    }
    if (!threw && out.good())
    {
        if (sink.received != expected)
        {
            ctx.fail("truncated-unnoticed", "stream is good but received %zu of %zu bytes", sink.received.size(), expected.size());
        }
        if (sink.fired)
        {
            ctx.fail("failure-unnoticed", "the sink failed, but the stream is good and nothing was thrown");
        }
        SIM_COUNT("check.complete");
    }
    else if (!sink.fired)
    {
        ctx.fail("failure-invented", "the sink is healthy but the dump failed: %s", error.c_str());
    }
    // the object is what it was, and dumps as before
    const Node after = s->get();
    if (!tree::equal(after, n))
    {
        ctx.fail("object-changed", "by the dump, at %s", tree::difference(n, after).c_str());
    }
    const bool sameWriter = ctx.flip(1, 2);
    out.exceptions(std::ios_base::goodbit);
    out.clear();
    sink.heal();
    sink.fired = false;
    std::string again;
    if (sameWriter)
    {
        zserio::DefaultWalkFilter all;
        zserio::Walker walker(*writer, all);
        walker.walk(s->constant());
        again = sink.received;
    }
    else
    {
        std::ostringstream fresh;
        auto w2 = makeWriter(fresh, format);
        zserio::DefaultWalkFilter all;
        zserio::Walker walker(*w2, all);
        walker.walk(s->constant());
        again = fresh.str();
    }
    if (again != refText(n, format))
    {
        const std::string expected = refText(n, format);
        size_t at = 0;
        while (at < again.size() && at < expected.size() && again[at] == expected[at])
        {
            at++;
        }
        const size_t from = at < 40 ? 0 : at - 40;
        ctx.fail("later-dump-differs", "%s writer: at byte %zu '%s' instead of '%s'", sameWriter ? "same" : "new", at,
                again.substr(from, 80).c_str(), expected.substr(from, 80).c_str());
    }
}

// the public entry points
void runEntryPoints(Ctx& ctx)
{
    auto s = genSubject(ctx);
    tree::Gen g = genOptions(ctx);
    g.anyEnum = ctx.flip(1, 3);
    const Node n = tree::genNode(ctx, s->type(), g);
    s->set(n);
    const int indent = static_cast<int>(ctx.choose(6)) - 1;
    tree::JsonFormat format;
    format.hasIndent = true;
    format.indent = std::string(indent < 0 ? 4 : static_cast<size_t>(indent), ' ');
    const std::string expected = refText(n, format);
    if (s->toText(indent) != expected)
    {
        ctx.fail("wrong-text", "%s: toJsonString with indent %d", s->name(), indent);
    }
    FaultySink sink(ctx.choose(3) * 16);
    sink.refuseAt = ctx.choose(expected.size() + expected.size() / 4 + 1);
    std::ostream out(&sink);
    s->toStream(out, indent);
    ctx.step(expected.size());
    ctx.shape(sink.received.size() * 64 / (expected.size() + 1) * 8 + static_cast<size_t>(indent + 1));
    ctx.shape(expected.size());
    if (sink.fired)
    {
        SIM_COUNT("fault.sink-refuses");
        ctx.nontrivial = true;
    }
    if (expected.compare(0, sink.received.size(), sink.received) != 0)
    {
        ctx.fail("not-a-prefix", "%s: toJsonStream with indent %d", s->name(), indent);
    }
    if (out.good() != (sink.received == expected && !sink.fired))
    {
        ctx.fail("failure-unnoticed", "stream %s, received %zu of %zu bytes", out.good() ? "good" : "failed",
                sink.received.size(), expected.size());
    }
    if (!tree::equal(s->get(), n))
    {
        ctx.fail("object-changed", "by the dump");
    }
}

} // namespace

namespace subject
{
template <class T>
void SubjectOf<T>::toStream(std::ostream& out, int indent) const
{
    if (indent < 0)
    {
        zserio::toJsonStream(object, out);
    }
    else
    {
        zserio::toJsonStream(object, out, static_cast<uint8_t>(indent));
    }
}
template <class T>
std::string SubjectOf<T>::toText(int indent) const
{
    return indent < 0 ? zserio::toJsonString(object) : zserio::toJsonString(object, static_cast<uint8_t>(indent));
}
template <class T>
tree::Node SubjectOf<T>::fromStream(std::istream& in) const
{
    auto r = zserio::fromJsonStream<std::allocator<uint8_t>>(zserio::typeInfo<T>(), in);
    return of(*r);
}
} // namespace subject

namespace sim
{

#if PROP == 9
const char* const PROPERTY = "P09";
const std::vector<Scenario>& scenarios()
{
    static const std::vector<Scenario> s = {{"split", 3, runSplit}, {"round-trip", 1, runRoundTrip}};
    return s;
}
#elif PROP == 10
const char* const PROPERTY = "P10";
const std::vector<Scenario>& scenarios()
{
    static const std::vector<Scenario> s = {{"broken", 8, runBroken}, {"exhausted", 1, runExhausted}};
    return s;
}
#else
const char* const PROPERTY = "P11";
const std::vector<Scenario>& scenarios()
{
    static const std::vector<Scenario> s = {{"dump", 4, runDump}, {"entry-points", 1, runEntryPoints}};
    return s;
}
#endif

} // namespace sim
