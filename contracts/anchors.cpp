// Forces the compiler to emit inline functions and template instantiations that
// the real translation units only use implicitly. Contains no logic: only takes
// addresses of, and explicitly instantiates, entities of the code under
// verification.
#include "CostEvaluator.h"
#include "DurationSegment.h"
#include "DynamicBitset.h"
#include "LoadSegment.h"
#include "PiecewiseLinearFunction.h"
#include "RandomNumberGenerator.h"
#include "Route.h"
#include "Solution.h"
#include "search/Relocate.h"
#include "search/Swap.h"
#include "search/Route.h"
#include "search/Solution.h"
#include "search/LocalSearch.h"

using namespace pyvrp;

// Makes the compiler report the layouts of these classes.
static_assert(sizeof(Client) && sizeof(Depot) && sizeof(Shipment) && sizeof(VehicleType) && sizeof(ClientGroup)
              && sizeof(Location) && sizeof(ProblemData) && sizeof(pyvrp::Route) && sizeof(Solution)
              && sizeof(Activity) && sizeof(pyvrp::Route::ScheduledActivity) && sizeof(CostEvaluator) && sizeof(DynamicBitset)
              && sizeof(RandomNumberGenerator) && sizeof(search::Solution) && sizeof(search::Route)
              && sizeof(search::Route::Node) && sizeof(search::LocalSearch) && sizeof(search::SearchSpace)
              && sizeof(search::PerturbationManager) && sizeof(std::optional<size_t>)
              && sizeof(std::pair<search::Route::Node, search::Route::Node>) && sizeof(std::pair<Cost, Distance>)
              && sizeof(PiecewiseLinearFunction<int64_t, int64_t>));

template class pyvrp::PiecewiseLinearFunction<int64_t, int64_t>;
template class pyvrp::search::Relocate<1>;
template class pyvrp::search::Relocate<2>;
template class pyvrp::search::Relocate<3>;
template class pyvrp::search::Swap<1, 1>;
template class pyvrp::search::Swap<2, 1>;
template class pyvrp::search::Swap<2, 2>;
template class pyvrp::search::Swap<3, 1>;
template class pyvrp::search::Swap<3, 2>;
template class pyvrp::search::Swap<3, 3>;
template pyvrp::RandomNumberGenerator::result_type
pyvrp::RandomNumberGenerator::randint<uint32_t>(uint32_t);
template pyvrp::RandomNumberGenerator::result_type
pyvrp::RandomNumberGenerator::randint<uint64_t>(uint64_t);
template pyvrp::RandomNumberGenerator::result_type
pyvrp::RandomNumberGenerator::randint<int>(int);
template void pyvrp::RandomNumberGenerator::shuffle<std::vector<size_t>::iterator>(
    std::vector<size_t>::iterator, std::vector<size_t>::iterator);
template Cost pyvrp::CostEvaluator::penalisedCost<pyvrp::Route>(pyvrp::Route const &) const;
template Cost pyvrp::CostEvaluator::penalisedCost<pyvrp::Solution>(pyvrp::Solution const &) const;
template Cost pyvrp::CostEvaluator::cost<pyvrp::Solution>(pyvrp::Solution const &) const;
template Cost pyvrp::CostEvaluator::penalisedCost<pyvrp::search::Route>(pyvrp::search::Route const &) const;

template bool std::operator==(std::vector<std::pair<int64_t, int64_t>> const &, std::vector<std::pair<int64_t, int64_t>> const &);

namespace
{
using PLF = pyvrp::PiecewiseLinearFunction<int64_t, int64_t>;
using BR = std::bitset<64>::reference;
using DS = DurationSegment;
using LS = LoadSegment;
using CE = CostEvaluator;
using SR = pyvrp::search::Route;
using SN = pyvrp::search::Route::Node;
}
// Values of enumerators, read by the contracts.
extern "C"
{
extern long const verif_enum_ActivityType_DEPOT = static_cast<long>(Activity::ActivityType::DEPOT);
extern long const verif_enum_ActivityType_CLIENT = static_cast<long>(Activity::ActivityType::CLIENT);
extern long const verif_enum_ActivityType_PICKUP = static_cast<long>(Activity::ActivityType::PICKUP);
extern long const verif_enum_ActivityType_DELIVERY = static_cast<long>(Activity::ActivityType::DELIVERY);
}
extern "C" void *verif_anchor(int which)
{
    static DS (*m3)(Duration, DS const &, DS const &) = &DS::merge;
    static DS (*m2)(DS const &, DS const &) = &DS::merge;
    static DS (DS::*fb)() const = &DS::finaliseBack;
    static DS (DS::*ff)() const = &DS::finaliseFront;
    static Duration (DS::*du)() const = &DS::duration;
    static Duration (DS::*tw)(Duration) const = &DS::timeWarp;
    static Duration (DS::*se)() const = &DS::startEarly;
    static Duration (DS::*sl)() const = &DS::startLate;
    static Duration (DS::*ee)() const = &DS::endEarly;
    static Duration (DS::*el)() const = &DS::endLate;
    static LS (*lm)(LS const &, LS const &) = &LS::merge;
    static LS (LS::*lf)(Load) const = &LS::finalise;
    static Load (LS::*ll)() const = &LS::load;
    static Load (LS::*le)(Load) const = &LS::excessLoad;
    static Cost (CE::*c2)(Load, Load, size_t) const = &CE::loadPenalty;
    static Cost (CE::*c3)(Duration) const = &CE::twPenalty;
    static Cost (CE::*c4)(Distance, Distance) const = &CE::distPenalty;
    static Cost (CE::*c5)(Distance) const = &CE::excessDistPenalty;
    static bool (SR::*h1)() const = &SR::hasDistanceCost;
    static bool (SR::*h2)() const = &SR::hasDurationCost;
    static bool (PLF::*pe)(PLF const &) const = &PLF::operator==;
    static BR &(BR::*ba)(bool) = &BR::operator=;
    static bool (ProblemData::*pq)(ProblemData const &) const = &ProblemData::operator==;
    void *all[] = {&pq, &ba, &pe, &m3, &m2, &fb, &ff, &du, &tw, &se, &sl, &ee, &el, &lm, &lf, &ll, &le,
                   &c2, &c3, &c4, &c5, &h1, &h2};
    DS def;
    LS ldef;
    LS raw(Load(which), Load(0), Load(0), Load(0));
    all[0] = which ? (void *)&def : (void *)&raw;
    return all[which + (ldef.load() != 0)];
}
