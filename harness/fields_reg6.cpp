#include "fields.hpp"
namespace fields
{
using namespace zserio;
void register6()
{
    addArrays<Float16>();
    addArrays<Float64>();
    addArrays<String>();
    addArrays<Bytes>();
    addArrays<BitBuffer>();
}
} // namespace fields
