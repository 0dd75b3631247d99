#include "fields.hpp"
namespace fields
{
using namespace zserio;
void register3()
{
    addPackedArrays<Bool>();
    addPackedArrays<Int8>();
    addPackedArrays<UInt8>();
    addPackedArrays<Int32>();
    addPackedArrays<UInt32>();
    addPackedArrays<Int64>();
    addPackedArrays<UInt64>();
    addPackedArrays<UInt5>();
    addPackedArrays<Int17>();
    addPackedArrays<UInt33>();
}
} // namespace fields
