#include "c33.hpp"
#include "lue/framework/algorithm/value_policies/zonal_minimum.hpp"
#include "lue/framework/algorithm/definition/zonal_minimum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_maximum.hpp"
#include "lue/framework/algorithm/definition/zonal_maximum.hpp"

namespace {

    using namespace vh;

    template<typename E, typename Z>
    void minimum_of(Case& c, std::string const& name)
    {
        zonal<E, E, Z>(c, name, [](auto const& a, auto const& z) { return lue::value_policies::zonal_minimum(a, z); }, [](auto const& values) { return *std::min_element(values.begin(), values.end()); });
    }

    template<typename E, typename Z>
    void maximum_of(Case& c, std::string const& name)
    {
        zonal<E, E, Z>(c, name, [](auto const& a, auto const& z) { return lue::value_policies::zonal_maximum(a, z); }, [](auto const& values) { return *std::max_element(values.begin(), values.end()); });
    }

    VH_TEST("zonal_minimum-float-int32", minimum_of<float, std::int32_t>(c, n))
    VH_TEST("zonal_minimum-uint8-uint64", minimum_of<std::uint8_t, std::uint64_t>(c, n))
    VH_TEST("zonal_maximum-double-uint8", maximum_of<double, std::uint8_t>(c, n))
    VH_TEST("zonal_maximum-int64-int32", maximum_of<std::int64_t, std::int32_t>(c, n))

}  // namespace
