#include "fields_compound.hpp"
namespace fields
{
using namespace zserio;
void register7()
{
    add<CompoundField<Leaf>>();
    add<CompoundField<Node>>();
    add<CompoundField<test_object::std_allocator::WalkerUnion>>();
    addArrays<test_object::std_allocator::WalkerUnion>();
    addArrays<Node>();
    addArrays<Leaf>();
    addPackedArrays<Leaf>();
    addPackedArrays<Node>();
    add<ArrayField<Node, ArrayType::ALIGNED_AUTO, true>>();
    add<ArrayField<Node, ArrayType::NORMAL, true>>();
}
} // namespace fields
