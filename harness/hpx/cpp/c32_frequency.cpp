#include "c32.hpp"
#include "lue/framework/algorithm/definition/focal_operation.hpp"
#include "lue/framework/algorithm/value_policies/focal_majority.hpp"
#include "lue/framework/algorithm/definition/focal_majority.hpp"
#include "lue/framework/algorithm/value_policies/focal_diversity.hpp"
#include "lue/framework/algorithm/definition/focal_diversity.hpp"
#include "lue/framework/algorithm/value_policies/focal_high_pass.hpp"
#include "lue/framework/algorithm/definition/focal_high_pass.hpp"

namespace {

    using namespace vh;
    using W = std::uint8_t;

    // Of those that occur most, the smallest
    template<typename E>
    void majority_of(Case& c, std::string const& name)
    {
        focal<E, E, W>(c, name, [](auto const& a, auto const& kernel) { return lue::value_policies::focal_majority(a, kernel); },
            [](Grid<E> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) {
                std::map<E, int> nr;
                for (auto const& [weight, value] : neighbourhood(g, kernel, r, k))
                    if (weight) ++nr[value];
                E m{no_data<E>()};
                int most{0};
                for (auto const& [value, n] : nr)
                    if (n > most) m = value, most = n;
                return m;
            });
    }

    template<typename E>
    void diversity_of(Case& c, std::string const& name)
    {
        using R = std::uint64_t;
        focal<R, E, W>(c, name, [](auto const& a, auto const& kernel) { return lue::value_policies::focal_diversity<R>(a, kernel); },
            [](Grid<E> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) {
                std::set<E> values;
                for (auto const& [weight, value] : neighbourhood(g, kernel, r, k))
                    if (weight) values.insert(value);
                return values.empty() ? no_data<R>() : static_cast<R>(values.size());
            });
    }

    VH_TEST("focal_majority-int32", majority_of<std::int32_t>(c, n))
    VH_TEST("focal_majority-uint8", majority_of<std::uint8_t>(c, n))
    VH_TEST("focal_diversity-int32", diversity_of<std::int32_t>(c, n))

    // The kernel's weight of the focal cell does not matter
    VH_TEST("focal_high_pass-double", (focal<double, double, W>(c, n, [](auto const& a, auto const& kernel) { return lue::value_policies::focal_high_pass(a, kernel); },
        [](Grid<double> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) {
            if (is_no_data(g(r, k))) return no_data<double>();
            Grid<W> others{kernel};
            std::int64_t const radius = (kernel.shape[0] - 1) / 2;
            others(radius, radius) = 0;
            double s{0};
            int nr{0};
            for (auto const& [weight, value] : neighbourhood(g, others, r, k))
                if (weight) s += value, ++nr;
            return nr ? 2 * g(r, k) * nr - s : no_data<double>();
        }, 1e-9)))

}  // namespace
