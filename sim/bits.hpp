// Independent model of zserio bit streams: a vector of bits with encoders and decoders written from the format
// definition (https://zserio.org, "Zserio Encoding Guide"), sharing nothing with the runtime library.
#pragma once

#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <vector>

namespace model
{

struct Bits
{
    std::vector<uint8_t> b; // one entry per bit

    size_t size() const
    {
        return b.size();
    }
    void u(uint64_t v, unsigned n)
    {
        for (unsigned i = n; i-- > 0;)
        {
            b.push_back(static_cast<uint8_t>((v >> i) & 1U));
        }
    }
    void append(const Bits& o)
    {
        b.insert(b.end(), o.b.begin(), o.b.end());
    }
    void align(size_t a)
    {
        while (a != 0 && b.size() % a != 0)
        {
            b.push_back(0);
        }
    }
    uint64_t get(size_t pos, unsigned n) const
    {
        uint64_t v = 0;
        for (unsigned i = 0; i < n; ++i)
        {
            v = (v << 1U) | b[pos + i];
        }
        return v;
    }
    std::vector<uint8_t> bytes() const
    {
        std::vector<uint8_t> r((b.size() + 7) / 8, 0);
        for (size_t i = 0; i < b.size(); ++i)
        {
            r[i / 8] = static_cast<uint8_t>(r[i / 8] | (b[i] << (7 - i % 8)));
        }
        return r;
    }
    static Bits from(const uint8_t* p, size_t bits)
    {
        Bits r;
        r.b.reserve(bits);
        for (size_t i = 0; i < bits; ++i)
        {
            r.b.push_back((p[i / 8] >> (7 - i % 8)) & 1U);
        }
        return r;
    }
};

// kinds of variable length integers: number of bytes at most and whether signed
struct VarKind
{
    const char* name;
    unsigned maxBytes;
    bool isSigned;
};
constexpr VarKind VARINT16{"varint16", 2, true};
constexpr VarKind VARINT32{"varint32", 4, true};
constexpr VarKind VARINT64{"varint64", 8, true};
constexpr VarKind VARINT{"varint", 9, true};
constexpr VarKind VARUINT16{"varuint16", 2, false};
constexpr VarKind VARUINT32{"varuint32", 4, false};
constexpr VarKind VARUINT64{"varuint64", 8, false};
constexpr VarKind VARUINT{"varuint", 9, false};
constexpr VarKind VARSIZE{"varsize", 5, false};

// value bits available with n bytes
inline unsigned varBits(const VarKind& k, unsigned n)
{
    unsigned bits = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned w = 8;
        if (i == 0 && k.isSigned)
        {
            --w;
        }
        const bool hasNextFlag = i + 1 < k.maxBytes; // the last possible byte has no continuation flag
        if (hasNextFlag)
        {
            --w;
        }
        bits += w;
    }
    return bits;
}

inline uint64_t varMaxMagnitude(const VarKind& k)
{
    if (k.maxBytes == 5)
    {
        return (uint64_t(1) << 31) - 1;
    }
    const unsigned bits = varBits(k, k.maxBytes);
    return bits >= 64 ? UINT64_MAX : (uint64_t(1) << bits) - 1;
}

inline bool varFits(const VarKind& k, bool negative, uint64_t magnitude)
{
    if (negative && k.maxBytes == 9 && magnitude == uint64_t(1) << 63)
    {
        return true;
    }
    if (!k.isSigned && negative)
    {
        return false;
    }
    return magnitude <= varMaxMagnitude(k);
}

inline void encodeVar(Bits& out, const VarKind& k, bool negative, uint64_t magnitude)
{
    if (negative && k.maxBytes == 9 && magnitude == uint64_t(1) << 63)
    {
        out.u(0x80, 8);
        return;
    }
    negative = negative && magnitude != 0;
    unsigned n = 1;
    while (n < k.maxBytes && varBits(k, n) < 64 && (magnitude >> varBits(k, n)) != 0)
    {
        ++n;
    }
    unsigned rest = varBits(k, n);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned w = 8;
        if (i == 0 && k.isSigned)
        {
            out.u(negative ? 1 : 0, 1);
            --w;
        }
        if (i + 1 < k.maxBytes)
        {
            out.u(i + 1 < n ? 1 : 0, 1);
            --w;
        }
        rest -= w;
        out.u(rest >= 64 ? 0 : magnitude >> rest, w);
    }
}

struct VarValue
{
    bool ok = false; // enough bits
    bool inRange = true;
    bool negative = false;
    uint64_t magnitude = 0;
    size_t end = 0;
    int64_t asSigned() const
    {
        return negative ? static_cast<int64_t>(0 - magnitude) : static_cast<int64_t>(magnitude);
    }
};

inline VarValue decodeVar(const Bits& in, size_t pos, const VarKind& k)
{
    VarValue v;
    for (unsigned i = 0; i < k.maxBytes; ++i)
    {
        if (pos + 8 > in.size())
        {
            return v;
        }
        unsigned w = 8;
        size_t p = pos;
        if (i == 0 && k.isSigned)
        {
            v.negative = in.b[p++] != 0;
            --w;
        }
        bool next = false;
        if (i + 1 < k.maxBytes)
        {
            next = in.b[p++] != 0;
            --w;
        }
        v.magnitude = (v.magnitude << w) | in.get(p, w);
        pos += 8;
        if (!next)
        {
            if (i == 0 && k.maxBytes == 9 && v.negative && v.magnitude == 0)
            {
                v.magnitude = uint64_t(1) << 63;
            }
            break;
        }
    }
    v.ok = true;
    v.end = pos;
    v.inRange = k.maxBytes != 5 || v.magnitude <= varMaxMagnitude(k);
    return v;
}

// value of a half precision bit pattern
inline float halfToFloat(uint16_t h)
{
    const bool neg = (h & 0x8000U) != 0;
    const unsigned e = (h >> 10U) & 0x1fU;
    const unsigned m = h & 0x3ffU;
    double v = 0;
    if (e == 31)
    {
        v = m == 0 ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
    }
    else if (e == 0)
    {
        v = std::ldexp(static_cast<double>(m), -24);
    }
    else
    {
        v = std::ldexp(static_cast<double>(1024 + m), static_cast<int>(e) - 25);
    }
    return static_cast<float>(neg ? -v : v);
}

inline uint32_t floatBits(float f)
{
    uint32_t u = 0;
    memcpy(&u, &f, 4);
    return u;
}
inline uint64_t doubleBits(double f)
{
    uint64_t u = 0;
    memcpy(&u, &f, 8);
    return u;
}

inline std::string hex(const std::vector<uint8_t>& v, size_t max = 48)
{
    std::string s;
    for (size_t i = 0; i < v.size() && i < max; ++i)
    {
        char b[4];
        snprintf(b, sizeof(b), "%02x", v[i]);
        s += b;
    }
    return s + (v.size() > max ? ".." : "");
}

} // namespace model
