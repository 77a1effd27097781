#include "c32.hpp"
#include "lue/framework/algorithm/definition/focal_operation.hpp"
#include "lue/framework/algorithm/value_policies/focal_sum.hpp"
#include "lue/framework/algorithm/definition/focal_sum.hpp"
#include "lue/framework/algorithm/value_policies/focal_mean.hpp"
#include "lue/framework/algorithm/definition/focal_mean.hpp"
#include "lue/framework/algorithm/default_policies/focal_sum.hpp"

namespace {

    using namespace vh;
    using W = std::uint8_t;

    template<typename E>
    auto sum(Grid<E> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) -> E
    {
        E s{0};
        bool any{false};
        for (auto const& [weight, value] : neighbourhood(g, kernel, r, k))
            if (weight) s += value, any = true;
        return any ? s : no_data<E>();
    }

    template<typename E>
    void sum_of(Case& c, std::string const& name) { focal<E, E, W>(c, name, [](auto const& a, auto const& kernel) { return lue::value_policies::focal_sum(a, kernel); }, sum<E>, 1e-9); }

    VH_TEST("focal_sum-double", sum_of<double>(c, n))
    VH_TEST("focal_sum-int32", sum_of<std::int32_t>(c, n))

    VH_TEST("focal_mean-double", (focal<double, double, W>(c, n, [](auto const& a, auto const& kernel) { return lue::value_policies::focal_mean(a, kernel); },
        [](Grid<double> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) {
            double s{0};
            int nr{0};
            for (auto const& [weight, value] : neighbourhood(g, kernel, r, k))
                if (weight) s += value, ++nr;
            return nr ? s / nr : no_data<double>();
        }, 1e-9)))

    // All values are values, and outside of the array are zeros
    auto any_value(Case& c) -> std::int32_t { return static_cast<std::int32_t>(c.rng.below(2001)) - 1000; }
    VH_TEST("focal_sum-int32-default", (focal<std::int32_t, std::int32_t, W>(c, n, [](auto const& a, auto const& kernel) { return lue::default_policies::focal_sum(a, kernel); },
        [](Grid<std::int32_t> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) {
            std::int32_t s{0};
            for (auto const& [weight, value] : neighbourhood(g, kernel, r, k))
                if (weight) s += value;
            return s;
        }, 0, any_value)))

}  // namespace
