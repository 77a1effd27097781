#include "c34.hpp"
#include "lue/framework/algorithm/value_policies/sum.hpp"
#include "lue/framework/algorithm/definition/sum.hpp"
#include "lue/framework/algorithm/value_policies/minimum.hpp"
#include "lue/framework/algorithm/definition/minimum.hpp"
#include "lue/framework/algorithm/value_policies/maximum.hpp"
#include "lue/framework/algorithm/definition/maximum.hpp"

namespace {

    using namespace vh;

    template<typename E>
    void sum_of(Case& c, std::string const& name)
    {
        aggregate<E, E>(c, name, [](auto const& a) { return lue::value_policies::sum(a); }, [](auto const& values) {
            E s{0};
            for (E const v : values) s += v;
            return s;
        }, 1e-9);
    }

    template<typename E>
    void minimum_of(Case& c, std::string const& name)
    {
        aggregate<E, E>(c, name, [](auto const& a) { return lue::value_policies::minimum(a); }, [](auto const& values) { return *std::min_element(values.begin(), values.end()); }, 0, random_value<E>);
    }

    template<typename E>
    void maximum_of(Case& c, std::string const& name)
    {
        aggregate<E, E>(c, name, [](auto const& a) { return lue::value_policies::maximum(a); }, [](auto const& values) { return *std::max_element(values.begin(), values.end()); }, 0, random_value<E>);
    }

    VH_TEST("sum-double", sum_of<double>(c, n))
    VH_TEST("sum-int64", sum_of<std::int64_t>(c, n))
    VH_TEST("sum-uint64", sum_of<std::uint64_t>(c, n))
    VH_TEST("minimum-float", minimum_of<float>(c, n))
    VH_TEST("minimum-int32", minimum_of<std::int32_t>(c, n))
    VH_TEST("minimum-uint8", minimum_of<std::uint8_t>(c, n))
    VH_TEST("maximum-double", maximum_of<double>(c, n))
    VH_TEST("maximum-int64", maximum_of<std::int64_t>(c, n))
    VH_TEST("maximum-uint64", maximum_of<std::uint64_t>(c, n))

}  // namespace
