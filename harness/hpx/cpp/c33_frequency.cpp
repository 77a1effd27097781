#include "c33.hpp"
#include "lue/framework/algorithm/value_policies/zonal_majority.hpp"
#include "lue/framework/algorithm/definition/zonal_majority.hpp"
#include "lue/framework/algorithm/value_policies/zonal_diversity.hpp"
#include "lue/framework/algorithm/definition/zonal_diversity.hpp"

namespace {

    using namespace vh;

    // The most frequent value, the largest one if there are more
    template<typename E, typename Z>
    void majority_of(Case& c, std::string const& name)
    {
        zonal<E, E, Z>(c, name, [](auto const& a, auto const& z) { return lue::value_policies::zonal_majority(a, z); }, [](auto const& values) {
            std::map<E, int> frequencies;
            for (E const v : values) ++frequencies[v];
            E best = frequencies.begin()->first;
            for (auto const& [v, f] : frequencies)
                if (f >= frequencies[best]) best = v;
            return best;
        });
    }

    template<typename R, typename E, typename Z>
    void diversity_of(Case& c, std::string const& name)
    {
        zonal<R, E, Z>(c, name, [](auto const& a, auto const& z) { return lue::value_policies::zonal_diversity<R>(a, z); }, [](auto const& values) {
            return static_cast<R>(std::set<E>(values.begin(), values.end()).size());
        });
    }

    VH_TEST("zonal_majority-int32-uint8", majority_of<std::int32_t, std::uint8_t>(c, n))
    VH_TEST("zonal_majority-uint8-int64", majority_of<std::uint8_t, std::int64_t>(c, n))
    VH_TEST("zonal_diversity-int32-uint8", diversity_of<std::uint64_t, std::int32_t, std::uint8_t>(c, n))
    VH_TEST("zonal_diversity-uint8-int32", diversity_of<std::int32_t, std::uint8_t, std::int32_t>(c, n))

}  // namespace
