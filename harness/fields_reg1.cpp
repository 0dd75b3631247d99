#include "fields.hpp"
namespace fields
{
using namespace zserio;
void register1()
{
    addScalar<Bool>();
    addScalar<Int1>();
    addScalar<Int7>();
    addScalar<Int8>();
    addScalar<Int9>();
    addScalar<Int16>();
    addScalar<Int17>();
    addScalar<Int31>();
    addScalar<Int32>();
    addScalar<Int33>();
    addScalar<Int57>();
    addScalar<Int63>();
    addScalar<Int64>();
    addScalar<UInt1>();
    addScalar<UInt7>();
    addScalar<UInt8>();
    addScalar<UInt9>();
    addScalar<UInt16>();
    addScalar<UInt17>();
    addScalar<UInt31>();
    addScalar<UInt32>();
    addScalar<UInt33>();
    addScalar<UInt57>();
    addScalar<UInt63>();
    addScalar<UInt64>();
    addScalar<VarInt16>();
    addScalar<VarInt32>();
    addScalar<VarInt64>();
    addScalar<VarInt>();
    addScalar<VarUInt16>();
    addScalar<VarUInt32>();
    addScalar<VarUInt64>();
    addScalar<VarUInt>();
    addScalar<VarSize>();
    addScalar<Float16>();
    addScalar<Float32>();
    addScalar<Float64>();
    addScalar<String>();
    addScalar<Bytes>();
    addScalar<BitBuffer>();
    addScalar<test_object::std_allocator::CreatorEnum>();
    addScalar<test_object::std_allocator::CreatorBitmask>();
    addScalar<test_object::std_allocator::WalkerBitmask>();
    add<DynField<DynInt8>>();
    add<DynField<DynInt16>>();
    add<DynField<DynInt32>>();
    add<DynField<DynInt64>>();
    add<DynField<DynUInt8>>();
    add<DynField<DynUInt16>>();
    add<DynField<DynUInt32>>();
    add<DynField<DynUInt64>>();
}
} // namespace fields
