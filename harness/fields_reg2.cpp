#include "fields.hpp"
namespace fields
{
using namespace zserio;
void register2()
{
    addArrays<Bool>();
    addArrays<UInt8>();
    addArrays<Int33>();
    addArrays<VarInt>();
    addArrays<VarSize>();
    addImplicit<UInt8>();
    addImplicit<Int16>();
    addImplicit<UInt33>();
    addImplicit<Int64>();
    addImplicit<Float32>();
}
} // namespace fields
