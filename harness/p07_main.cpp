// P07 and P08: which flavours take part.
#include "sim.hpp"

#include <sstream>

using namespace sim;

extern const std::vector<Scenario> SCENARIOS_pmr;
extern const std::vector<Scenario> SCENARIOS_ppmr;
#if PROP == 7
extern const std::vector<Scenario> SCENARIOS_holders;
extern const std::vector<Scenario> SCENARIOS_values1;
extern const std::vector<Scenario> SCENARIOS_values2;
#else
extern const std::vector<Scenario> SCENARIOS_std;
#endif

namespace sim
{
#if PROP == 7
const char* const PROPERTY = "P07";
#else
const char* const PROPERTY = "P08";
#endif
const std::vector<Scenario>& scenarios()
{
    static const std::vector<Scenario> all = [] {
        std::vector<Scenario> v(SCENARIOS_ppmr);
        v.insert(v.end(), SCENARIOS_pmr.begin(), SCENARIOS_pmr.end());
#if PROP == 7
        v.insert(v.end(), SCENARIOS_holders.begin(), SCENARIOS_holders.end());
        v.insert(v.end(), SCENARIOS_values1.begin(), SCENARIOS_values1.end());
        v.insert(v.end(), SCENARIOS_values2.begin(), SCENARIOS_values2.end());
#else
        v.insert(v.end(), SCENARIOS_std.begin(), SCENARIOS_std.end());
#endif
        return v;
    }();
    return all;
}
} // namespace sim
