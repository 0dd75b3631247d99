#include "p07_common.hpp"

#include <zserio/pmr/Vector.h>

#include <test_object/std_allocator/CreatorObject.h>
#include <test_object/std_allocator/ReflectableObject.h>
#include <test_object/std_allocator/WalkerObject.h>
#include <test_object/pmr_allocator/CreatorObject.h>
#include <test_object/pmr_allocator/ReflectableObject.h>
#include <test_object/pmr_allocator/WalkerObject.h>

namespace
{
struct Flavour
{
    using Alloc = std::pmr::polymorphic_allocator<uint8_t>;
    static constexpr bool PROPAGATES = false;
    static constexpr bool POLYMORPHIC = true;
    static constexpr uint64_t ID = 2;
    static Alloc alloc([[maybe_unused]] Resource& r)
    {
        return Alloc(&r);
    }
    // which of the resources an allocator stands for, as a bit
    static unsigned owner([[maybe_unused]] Resource* res, [[maybe_unused]] const Alloc& a)
    {
        for (unsigned i = 0; i < R; ++i)
        {
            if (a.resource() == &res[i])
            {
                return 1U << i;
            }
        }
        return 1U << DEF;
    }
};
FLAVOUR_KINDS(Flavour, pmr_allocator)
} // namespace

extern const std::vector<Scenario> SCENARIOS_pmr;
const std::vector<Scenario> SCENARIOS_pmr = {
        {"pmr-creator", 3, runWorld<Flavour, test_object::pmr_allocator::CreatorObject>},
        {"pmr-walker", 2, runWorld<Flavour, test_object::pmr_allocator::WalkerObject>},
        {"pmr-reflectable", 1, runWorld<Flavour, test_object::pmr_allocator::ReflectableObject>},
};
