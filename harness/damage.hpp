// Damage to a piece of binary data, as storage and transports inflict it.
#pragma once

#include "bits.hpp"
#include "sim.hpp"

#include <algorithm>

namespace damage
{

using Bit8 = std::vector<uint8_t>; // one element per bit, as in model::Bits

inline size_t unit(sim::Ctx& ctx, size_t n) // mostly whole bytes
{
    return ctx.flip(1, 3) ? n : n / 8 * 8;
}

// returns the kind of damage
inline const char* once(sim::Ctx& ctx, model::Bits& data, const model::Bits& other)
{
    auto& b = data.b;
    const size_t n = b.size();
    if (n == 0)
    {
        b.resize(ctx.choose(64));
        return "appended";
    }
    const size_t at = ctx.flip(1, 2) ? unit(ctx, ctx.choose(n)) : unit(ctx, ctx.choose(std::min<size_t>(n, 64)));
    const size_t len = std::min(n - at, ctx.flip(1, 2) ? 8 * (1 + ctx.choose(4)) : 1 + ctx.choose(n - at));
    const auto it = b.begin() + static_cast<ptrdiff_t>(at);
    const auto end = it + static_cast<ptrdiff_t>(len);
    switch (ctx.choose(10))
    {
    case 0:
        SIM_COUNT("fault.truncated");
        b.resize(at);
        return "truncated";
    case 1:
    {
        SIM_COUNT("fault.bits-flipped");
        const size_t flips = 1 + ctx.choose(3);
        b[at] = !b[at];
        for (size_t i = 1; i < flips; ++i)
        {
            const size_t j = ctx.choose(n);
            b[j] = !b[j];
        }
        return "bits flipped";
    }
    case 2:
        SIM_COUNT("fault.zeroed");
        std::fill(it, end, 0);
        return "zeroed";
    case 3:
        SIM_COUNT("fault.all-ones");
        std::fill(it, end, 1);
        return "all ones";
    case 4:
    {
        SIM_COUNT("fault.garbage");
        uint64_t x = ctx.choose(0);
        for (auto i = it; i != end; ++i)
        {
            x = sim::mix(x);
            *i = (x >> 20) & 1U;
        }
        return "garbage";
    }
    case 5:
    {
        SIM_COUNT("fault.duplicated-block");
        const std::remove_reference_t<decltype(b)> block(it, end);
        b.insert(it, block.begin(), block.end());
        return "duplicated block";
    }
    case 6:
        SIM_COUNT("fault.lost-block");
        b.erase(it, end);
        return "lost block";
    case 7:
    {
        SIM_COUNT("fault.swapped-blocks");
        const size_t to = at + len / 2;
        std::rotate(it, b.begin() + static_cast<ptrdiff_t>(to), end);
        return "swapped blocks";
    }
    case 8:
    {
        SIM_COUNT("fault.spliced");
        const size_t from = other.b.empty() ? 0 : unit(ctx, ctx.choose(other.b.size()));
        b.resize(at);
        b.insert(b.end(), other.b.begin() + static_cast<ptrdiff_t>(from), other.b.end());
        return "spliced";
    }
    default:
    {
        SIM_COUNT("fault.small-number-changed");
        // one byte replaced by a neighbour value, or by a value with length continuation bits
        uint8_t v = 0;
        const size_t m = std::min<size_t>(8, n - at);
        for (size_t i = 0; i < m; ++i)
        {
            v = static_cast<uint8_t>(v << 1 | (b[at + i] ? 1 : 0));
        }
        static const uint8_t V[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0x40};
        v = ctx.flip(1, 2) ? static_cast<uint8_t>(v + (ctx.flip(1, 2) ? 1 : 255)) : V[ctx.choose(8)];
        for (size_t i = 0; i < m; ++i)
        {
            b[at + i] = (v >> (m - 1 - i)) & 1U;
        }
        return "number changed";
    }
    }
}

} // namespace damage
