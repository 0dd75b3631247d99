#include "p18_common.hpp"

#include <zserio/ppmr/IService.h>

#include <test_object/ppmr_allocator/CreatorObject.h>
#include <test_object/ppmr_allocator/ReflectableObject.h>
#include <test_object/ppmr_allocator/WalkerObject.h>

namespace
{
struct Flavour
{
    using Alloc = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;
    using CreatorT = test_object::ppmr_allocator::CreatorObject;
    using WalkerT = test_object::ppmr_allocator::WalkerObject;
    using ReflectableT = test_object::ppmr_allocator::ReflectableObject;
    static Alloc alloc([[maybe_unused]] Resource& r)
    {
        return Alloc(&r);
    }
};
} // namespace

void network_ppmr(Ctx& ctx);
void network_ppmr(Ctx& ctx)
{
    World<Flavour> w(ctx);
    w.run();
}
