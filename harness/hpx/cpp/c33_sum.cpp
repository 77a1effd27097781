#include "c33.hpp"
#include "lue/framework/algorithm/value_policies/zonal_sum.hpp"
#include "lue/framework/algorithm/definition/zonal_sum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_mean.hpp"
#include "lue/framework/algorithm/definition/zonal_mean.hpp"
#include "lue/framework/algorithm/value_policies/zonal_area.hpp"
#include "lue/framework/algorithm/definition/zonal_area.hpp"

namespace {

    using namespace vh;

    template<typename E, typename Z>
    void sum_of(Case& c, std::string const& name)
    {
        zonal<E, E, Z>(c, name, [](auto const& a, auto const& z) { return lue::value_policies::zonal_sum(a, z); }, [](auto const& values) {
            E s{0};
            for (E const v : values) s += v;
            return s;
        }, 1e-9);
    }

    VH_TEST("zonal_sum-double-uint8", sum_of<double, std::uint8_t>(c, n))
    VH_TEST("zonal_sum-int32-int64", sum_of<std::int32_t, std::int64_t>(c, n))
    VH_TEST("zonal_mean-double-int32", (zonal<double, double, std::int32_t>(c, n, [](auto const& a, auto const& z) { return lue::value_policies::zonal_mean(a, z); },
        [](auto const& values) {
            double s{0};
            for (double const v : values) s += v;
            return s / values.size();
        }, 1e-9)))

    VH_TEST("zonal_area-uint64-uint8", (zonal_only<std::uint64_t, std::uint8_t>(c, n, [](auto const& z) { return lue::value_policies::zonal_area<std::uint64_t>(z); },
        [&](Layout const& l, auto const& zones, auto const& observed) {
            std::map<std::uint8_t, std::uint64_t> count;
            for (auto const zone : zones.values) ++count[zone];
            Grid<std::uint64_t> expected{l.shape};
            for (std::size_t i = 0; i < zones.values.size(); ++i) expected.values[i] = is_no_data(zones.values[i]) ? no_data<std::uint64_t>() : count[zones.values[i]];
            compare_grids(c, l, observed, expected, n);
        })))

}  // namespace
