// P07: dynamic interfaces of single values, part 1 (see p07_values.hpp).
#include "p07_values.hpp"

namespace
{
void ask1(Bench<Alloc>& b, size_t type)
{
    switch (type)
    {
    case 0:
        b.number("bool", zserio::Bool(true), "true");
        break;
    case 1:
        b.number("int8", zserio::Int8(-8), "-8");
        break;
    case 2:
        b.number("int16", zserio::Int16(-1600), "-1600");
        break;
    case 3:
        b.number("int32", zserio::Int32(-320000), "-320000");
        break;
    case 4:
        b.number("int64", zserio::Int64(-6400000000000), "-6400000000000");
        break;
    case 5:
        b.number("uint8", zserio::UInt8(208), "208");
        break;
    case 6:
        b.number("uint16", zserio::UInt16(61600), "61600");
        break;
    case 7:
        b.number("uint32", zserio::UInt32(3200000000), "3200000000");
        break;
    case 8:
        b.number("uint64", zserio::UInt64(6400000000000), "6400000000000");
        break;
    case 9:
        b.number("int5", zserio::Int5(-5), "-5");
        break;
    case 10:
        b.number("int13", zserio::Int13(-1300), "-1300");
        break;
    case 11:
        b.number("int27", zserio::Int27(-270000), "-270000");
        break;
    case 12:
        b.number("int51", zserio::Int51(-510000000000), "-510000000000");
        break;
    case 13:
        b.number("uint3", zserio::UInt3(3), "3");
        break;
    case 14:
        b.number("uint11", zserio::UInt11(1100), "1100");
        break;
    case 15:
        b.number("uint29", zserio::UInt29(290000), "290000");
        break;
    }
}
void run1(Ctx& ctx)
{
    runValues<Alloc>(ctx, 16, ask1);
}
} // namespace

extern const std::vector<Scenario> SCENARIOS_values1;
const std::vector<Scenario> SCENARIOS_values1 = {
        {"values-1", 1, run1},
};
