#include "fields.hpp"
namespace fields
{
using namespace zserio;
void register4()
{
    addPackedArrays<Int63>();
    addPackedArrays<VarInt16>();
    addPackedArrays<VarInt>();
    addPackedArrays<VarUInt>();
    addPackedArrays<VarInt64>();
    addPackedArrays<VarUInt32>();
    addPackedArrays<VarSize>();
    addPackedArrays<test_object::std_allocator::CreatorEnum>();
    addPackedArrays<test_object::std_allocator::CreatorBitmask>();
    addPackedArrays<test_object::std_allocator::WalkerBitmask>();
}
} // namespace fields
