#include "p18_common.hpp"

#include <zserio/IService.h>

#include <test_object/std_allocator/CreatorObject.h>
#include <test_object/std_allocator/ReflectableObject.h>
#include <test_object/std_allocator/WalkerObject.h>

namespace
{
struct Flavour
{
    using Alloc = std::allocator<uint8_t>;
    using CreatorT = test_object::std_allocator::CreatorObject;
    using WalkerT = test_object::std_allocator::WalkerObject;
    using ReflectableT = test_object::std_allocator::ReflectableObject;
    static Alloc alloc([[maybe_unused]] Resource& r)
    {
        return {};
    }
};
} // namespace

void network_std(Ctx& ctx);
void network_std(Ctx& ctx)
{
    World<Flavour> w(ctx);
    w.run();
}
