#include "c32.hpp"
#include "lue/framework/algorithm/definition/focal_operation.hpp"
#include "lue/framework/algorithm/value_policies/convolve.hpp"
#include "lue/framework/algorithm/definition/convolve.hpp"
#include "lue/framework/algorithm/value_policies/slope.hpp"
#include "lue/framework/algorithm/definition/slope.hpp"
#include "lue/framework/algorithm/value_policies/aspect.hpp"
#include "lue/framework/algorithm/definition/aspect.hpp"
#include "lue/framework/algorithm/definition/gradients.hpp"
#include "lue/framework/algorithm/definition/unary_local_operation.hpp"
#include "lue/framework/algorithm/definition/binary_local_operation.hpp"

namespace {

    using namespace vh;
    using W = double;

    auto convolved(Grid<double> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) -> double
    {
        double s{0};
        bool any{false};
        for (auto const& [weight, value] : neighbourhood(g, kernel, r, k)) s += weight * value, any = true;
        return any ? s : no_data<double>();
    }

    VH_TEST("convolve-double", (focal<double, double, W>(c, n, [](auto const& a, auto const& kernel) { return lue::value_policies::convolve(a, kernel); }, convolved, 1e-9)))

    // Increase per cell to the east and to the south
    auto gradient(Grid<double> const& g, std::int64_t const r, std::int64_t const k) -> std::pair<double, double>
    {
        Grid<W> x{{3, 3}}, y{{3, 3}};
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
            {
                x(i, j) = (j - 1) * (i == 1 ? 2 : 1);
                y(i, j) = (i - 1) * (j == 1 ? 2 : 1);
            }
        return {convolved(g, x, r, k) / 8, convolved(g, y, r, k) / 8};
    }

    VH_TEST("slope-double",
        double const size = c.rng.pick<double>({1, 10, 0.25, 25});
        focal<double, double, W>(c, n, [size](auto const& a, auto const&) { return lue::value_policies::slope(a, size); },
            [size](Grid<double> const& g, Grid<W> const&, std::int64_t const r, std::int64_t const k) {
                auto const [x, y] = gradient(g, r, k);
                return std::sqrt(x * x + y * y) / size;
            }, 1e-9, moderate<double>, true))

    // Angle between the north and the direction of steepest ascent, clockwise
    auto whole(Case& c) -> double { return c.rng.chance(15) ? no_data<double>() : static_cast<double>(c.rng.below(9)); }
    VH_TEST("aspect-double",
        focal<double, double, W>(c, n, [](auto const& a, auto const&) { return lue::value_policies::aspect(a); },
            [](Grid<double> const& g, Grid<W> const&, std::int64_t const r, std::int64_t const k) {
                auto const [x, y] = gradient(g, r, k);
                if (std::isnan(x) || std::isnan(y)) return no_data<double>();
                if (x == 0 && y == 0) return 0.0;
                double const angle = std::atan2(x, -y);
                return angle < 0 ? angle + 2 * std::acos(-1.0) : angle;
            }, 1e-9, whole, true))

}  // namespace
