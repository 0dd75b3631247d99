#include "fields.hpp"
namespace fields
{
using namespace zserio;
void register5()
{
    add<DynArrayField<DynInt8, ArrayType::AUTO, true>>();
    add<DynArrayField<DynUInt16, ArrayType::NORMAL, true>>();
    add<DynArrayField<DynInt32, ArrayType::ALIGNED_AUTO, true>>();
    add<DynArrayField<DynUInt64, ArrayType::AUTO, true>>();
    add<DynArrayField<DynInt64, ArrayType::ALIGNED, true>>();
    add<DynArrayField<DynUInt8, ArrayType::AUTO, false>>();
    add<DynArrayField<DynInt64, ArrayType::ALIGNED_AUTO, false>>();
    add<ArrayField<UInt32, ArrayType::ALIGNED_AUTO, true>>();
}
} // namespace fields
