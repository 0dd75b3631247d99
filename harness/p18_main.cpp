#include "sim.hpp"

void network_std(sim::Ctx& ctx);
void network_pmr(sim::Ctx& ctx);
void network_ppmr(sim::Ctx& ctx);

namespace sim
{
const char* const PROPERTY = "P18";
const std::vector<Scenario>& scenarios()
{
    static const std::vector<Scenario> s = {
            {"std", 3, network_std}, {"pmr", 1, network_pmr}, {"ppmr", 2, network_ppmr}};
    return s;
}
} // namespace sim
