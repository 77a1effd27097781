#include "c31.hpp"
#include "lue/framework/algorithm/value_policies/pow.hpp"
#include "lue/framework/algorithm/value_policies/atan2.hpp"
#include "lue/framework/algorithm/definition/atan2.hpp"
#include "lue/framework/algorithm/value_policies/close_to.hpp"
#include "lue/framework/algorithm/default_policies/add.hpp"
#include "lue/framework/algorithm/default_policies/equal_to.hpp"

namespace {

    using namespace vh;
    using B = lue::BooleanElement;
    using int32 = std::int32_t;

    VH_TEST("pow-double", (binary<double, double>(c, n, [](auto const& a, auto const& b) { return lue::value_policies::pow(a, b); }, [](double const a, double const b) { return std::pow(a, b); })))
    VH_TEST("atan2-double", (binary<double, double, false>(c, n, [](auto const& a, auto const& b) { return lue::value_policies::atan2(a, b); }, [](double const a, double const b) { return std::atan2(a, b); })))

    // numpy.isclose
    auto nearby(Case& c) -> double
    {
        double const v = random_value<double>(c);
        if (std::isinf(v)) return 1;
        return c.rng.chance(50) ? 7 * (1 + c.rng.pick<double>({0.0, 1e-5, 0.99e-5, 1.01e-5, -1e-5, 1e-9})) : v;
    }
    VH_TEST("close_to-double", (binary<B, double>(c, n, [](auto const& a, auto const& b) { return lue::value_policies::close_to<B>(a, b); }, [](double const a, double const b) { return static_cast<B>(std::abs(a - b) <= 1e-8 + 1e-5 * std::abs(b)); }, 0, nearby)))

    // All values are values
    auto small(Case& c) -> int32 { return c.rng.chance(20) ? c.rng.pick<int32>({std::numeric_limits<int32>::min() + 20, std::numeric_limits<int32>::max() - 20}) / 2 : static_cast<int32>(c.rng.below(41)) - 20; }
    VH_TEST("add-int32-default", (binary<int32, int32, true, false>(c, n, [](auto const& a, auto const& b) { return lue::default_policies::add(a, b); }, [](int32 const a, int32 const b) { return a + b; }, 0, small)))
    VH_TEST("equal_to-int32-default", (binary<B, int32, true, false>(c, n, [](auto const& a, auto const& b) { return lue::default_policies::equal_to<B>(a, b); }, [](int32 const a, int32 const b) { return static_cast<B>(a == b); })))

}  // namespace
