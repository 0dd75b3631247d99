#include "p18_common.hpp"

#include <zserio/pmr/IService.h>

#include <test_object/pmr_allocator/CreatorObject.h>
#include <test_object/pmr_allocator/ReflectableObject.h>
#include <test_object/pmr_allocator/WalkerObject.h>

namespace
{
struct Flavour
{
    using Alloc = std::pmr::polymorphic_allocator<uint8_t>;
    using CreatorT = test_object::pmr_allocator::CreatorObject;
    using WalkerT = test_object::pmr_allocator::WalkerObject;
    using ReflectableT = test_object::pmr_allocator::ReflectableObject;
    static Alloc alloc([[maybe_unused]] Resource& r)
    {
        return Alloc(&r);
    }
};
} // namespace

void network_pmr(Ctx& ctx);
void network_pmr(Ctx& ctx)
{
    World<Flavour> w(ctx);
    w.run();
}
