#include "p07_common.hpp"

#include <zserio/ppmr/PropagatingPolymorphicAllocator.h>

#include <test_object/std_allocator/CreatorObject.h>
#include <test_object/std_allocator/ReflectableObject.h>
#include <test_object/std_allocator/WalkerObject.h>
#include <test_object/ppmr_allocator/CreatorObject.h>
#include <test_object/ppmr_allocator/ReflectableObject.h>
#include <test_object/ppmr_allocator/WalkerObject.h>

namespace
{
struct Flavour
{
    using Alloc = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;
    static constexpr bool PROPAGATES = true;
    static constexpr bool POLYMORPHIC = true;
    static constexpr uint64_t ID = 3;
    static Alloc alloc([[maybe_unused]] Resource& r)
    {
        return Alloc(&r);
    }
    // which of the resources an allocator stands for, as a bit
    static unsigned owner([[maybe_unused]] Resource* res, [[maybe_unused]] const Alloc& a)
    {
        for (unsigned i = 0; i < R; ++i)
        {
            if (a.resource() == &res[i])
            {
                return 1U << i;
            }
        }
        return 1U << DEF;
    }
};
FLAVOUR_KINDS(Flavour, ppmr_allocator)
} // namespace

extern const std::vector<Scenario> SCENARIOS_ppmr;
const std::vector<Scenario> SCENARIOS_ppmr = {
        {"ppmr-creator", 3, runWorld<Flavour, test_object::ppmr_allocator::CreatorObject>},
        {"ppmr-walker", 2, runWorld<Flavour, test_object::ppmr_allocator::WalkerObject>},
        {"ppmr-reflectable", 1, runWorld<Flavour, test_object::ppmr_allocator::ReflectableObject>},
};
