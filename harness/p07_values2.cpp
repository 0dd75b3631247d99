// P07: dynamic interfaces of single values, part 2 (see p07_values.hpp).
#include "p07_values.hpp"

namespace
{
void ask2(Bench<Alloc>& b, size_t type)
{
    switch (type)
    {
    case 0:
        b.number("uint63", zserio::UInt63(630000000000), "630000000000");
        break;
    case 1:
        b.number("varint16", zserio::VarInt16(-16), "-16");
        break;
    case 2:
        b.number("varint32", zserio::VarInt32(-32), "-32");
        break;
    case 3:
        b.number("varint64", zserio::VarInt64(-64), "-64");
        break;
    case 4:
        b.number("varint", zserio::VarInt(-1), "-1");
        break;
    case 5:
        b.number("varuint16", zserio::VarUInt16(16), "16");
        break;
    case 6:
        b.number("varuint32", zserio::VarUInt32(32), "32");
        break;
    case 7:
        b.number("varuint64", zserio::VarUInt64(64), "64");
        break;
    case 8:
        b.number("varuint", zserio::VarUInt(1), "1");
        break;
    case 9:
        b.number("varsize", zserio::VarSize(5), "5");
        break;
    case 10:
        b.number("float16", zserio::Float16(0.5F), nullptr);
        break;
    case 11:
        b.number("float32", zserio::Float32(0.5F), nullptr);
        break;
    case 12:
        b.number("float64", zserio::Float64(0.5), nullptr);
        break;
    case 13:
    {
        zserio::BasicString<zserio::RebindAlloc<Alloc, char>> value(
                "a text which is too long for the buffer in a string", Alloc(&b.mem.res[(b.r + 1) % R]));
        b.text("string", value, "a text which is too long for the buffer in a string");
        break;
    }
    default:
    {
        zserio::BasicBitBuffer<Alloc> value(size_t(77), Alloc(&b.mem.res[(b.r + 1) % R]));
        b.text("bit buffer", value, nullptr);
        break;
    }
    }
}
void run2(Ctx& ctx)
{
    runValues<Alloc>(ctx, 15, ask2);
}
} // namespace

extern const std::vector<Scenario> SCENARIOS_values2;
const std::vector<Scenario> SCENARIOS_values2 = {
        {"values-2", 1, run2},
};
