#include "c33.hpp"
#include "lue/framework/algorithm/value_policies/reclassify.hpp"
#include "lue/framework/algorithm/definition/reclassify.hpp"
#include "lue/framework/algorithm/value_policies/unique.hpp"
#include "lue/framework/algorithm/definition/unique.hpp"
#include "lue/framework/algorithm/value_policies/zonal_uniform.hpp"
#include "lue/framework/algorithm/definition/zonal_uniform.hpp"
#include "lue/framework/algorithm/value_policies/zonal_normal.hpp"
#include "lue/framework/algorithm/definition/zonal_normal.hpp"

namespace {

    using namespace vh;

    // One value per zone, which differs from those of other zones
    template<typename R, typename Z>
    void random_of(Case& c, std::string const& name, bool const uniform)
    {
        zonal_only<R, Z>(c, name, [&](auto const& z) -> Array2<R> { return uniform ? lue::value_policies::zonal_uniform<R>(z) : lue::value_policies::zonal_normal<R>(z); },
            [&](Layout const& l, Grid<Z> const& zones, Grid<R> const& observed) {
                std::map<Z, R> values;
                std::set<R> distinct;
                for (std::size_t i = 0; i < zones.values.size(); ++i)
                {
                    R const v = observed.values[i];
                    if (is_no_data(zones.values[i]))
                    {
                        VH_CHECK(c, is_no_data(v), "value-outside-zones:" + name, std::format("cell {} of {} is not in a zone, but its value is {}", i, l.text(), v));
                        continue;
                    }
                    VH_CHECK(c, !is_no_data(v), "no-value:" + name, std::format("cell {} of {} in zone {} has no value", i, l.text(), zones.values[i]));
                    if (uniform) VH_CHECK(c, v >= 0 && v < 1, "range:" + name, std::format("value {}", v));
                    else VH_CHECK(c, std::abs(v) < 12, "range:" + name, std::format("value {}", v));
                    auto const [it, inserted] = values.try_emplace(zones.values[i], v);
                    VH_CHECK(c, it->second == v, "values-in-zone:" + name, std::format("zone {} has values {} and {}", zones.values[i], it->second, v));
                    distinct.insert(v);
                }
                VH_CHECK(c, distinct.size() == values.size(), "same-value:" + name, std::format("{} zones have {} values", values.size(), distinct.size()));
                c.count("zonal.random-zones", values.size());
            });
    }

    VH_TEST("zonal_uniform-double-uint8", random_of<double, std::uint8_t>(c, n, true))
    VH_TEST("zonal_uniform-double-int64", random_of<double, std::int64_t>(c, n, true))
    VH_TEST("zonal_normal-double-int32", random_of<double, std::int32_t>(c, n, false))

}  // namespace
