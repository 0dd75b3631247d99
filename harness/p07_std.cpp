#include "p07_common.hpp"


#include <test_object/std_allocator/CreatorObject.h>
#include <test_object/std_allocator/ReflectableObject.h>
#include <test_object/std_allocator/WalkerObject.h>
#include <test_object/std_allocator/CreatorObject.h>
#include <test_object/std_allocator/ReflectableObject.h>
#include <test_object/std_allocator/WalkerObject.h>

namespace
{
struct Flavour
{
    using Alloc = std::allocator<uint8_t>;
    static constexpr bool PROPAGATES = false;
    static constexpr bool POLYMORPHIC = false;
    static constexpr uint64_t ID = 1;
    static Alloc alloc([[maybe_unused]] Resource& r)
    {
        return {};
    }
    // which of the resources an allocator stands for, as a bit
    static unsigned owner([[maybe_unused]] Resource* res, [[maybe_unused]] const Alloc& a)
    {
        return 0;
    }
};
FLAVOUR_KINDS(Flavour, std_allocator)
} // namespace

extern const std::vector<Scenario> SCENARIOS_std;
const std::vector<Scenario> SCENARIOS_std = {
        {"std-creator", 3, runWorld<Flavour, test_object::std_allocator::CreatorObject>},
        {"std-walker", 2, runWorld<Flavour, test_object::std_allocator::WalkerObject>},
        {"std-reflectable", 1, runWorld<Flavour, test_object::std_allocator::ReflectableObject>},
};
