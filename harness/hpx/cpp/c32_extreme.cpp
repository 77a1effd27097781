#include "c32.hpp"
#include "lue/framework/algorithm/definition/focal_operation.hpp"
#include "lue/framework/algorithm/value_policies/focal_minimum.hpp"
#include "lue/framework/algorithm/default_policies/focal_minimum.hpp"
#include "lue/framework/algorithm/default_policies/focal_maximum.hpp"
#include "lue/framework/algorithm/definition/focal_minimum.hpp"
#include "lue/framework/algorithm/value_policies/focal_maximum.hpp"
#include "lue/framework/algorithm/definition/focal_maximum.hpp"

namespace {

    using namespace vh;
    using W = std::uint8_t;

    template<typename E, int sign>
    auto extreme(Grid<E> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) -> E
    {
        std::optional<E> m;
        for (auto const& [weight, value] : neighbourhood(g, kernel, r, k))
            if (weight && (!m || (sign < 0 ? value < *m : value > *m))) m = value;
        return m ? *m : no_data<E>();
    }

    // Zeros of either sign are the same
    template<typename E, int sign>
    void extreme_of(Case& c, std::string const& name)
    {
        focal<E, E, W>(c, name, [](auto const& a, auto const& kernel) { if constexpr (sign < 0) return lue::value_policies::focal_minimum(a, kernel); else return lue::value_policies::focal_maximum(a, kernel); },
            extreme<E, sign>, 0, random_value<E>);
    }

    VH_TEST("focal_minimum-double", (extreme_of<double, -1>(c, n)))
    VH_TEST("focal_minimum-uint8", (extreme_of<std::uint8_t, -1>(c, n)))
    VH_TEST("focal_maximum-double", (extreme_of<double, 1>(c, n)))
    VH_TEST("focal_maximum-int32", (extreme_of<std::int32_t, 1>(c, n)))

    // All values are values, and values outside of the array are never more extreme than those inside
    template<typename E>
    auto any_value(Case& c) -> E { return static_cast<E>(c.rng.below(2001)) - (c.rng.chance(20) ? 1000 : 2500); }

    template<typename E, int sign>
    void extreme_default(Case& c, std::string const& name)
    {
        focal<E, E, W>(c, name, [](auto const& a, auto const& kernel) { if constexpr (sign < 0) return lue::default_policies::focal_minimum(a, kernel); else return lue::default_policies::focal_maximum(a, kernel); },
            [](Grid<E> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) -> E {
                bool inside{false};
                for (auto const& [weight, value] : neighbourhood(g, kernel, r, k)) inside = inside || weight;
                if (inside) return extreme<E, sign>(g, kernel, r, k);
                // No cells at all, or none inside of the array
                if (std::ranges::all_of(kernel.values, [](W const w) { return w == 0; })) return E{0};
                std::int64_t const radius = (kernel.shape[0] - 1) / 2;
                for (std::int64_t i = 0; i < kernel.shape[0]; ++i)
                    for (std::int64_t j = 0; j < kernel.shape[1]; ++j)
                        if (kernel(i, j) && !g.inside(r + i - radius, k + j - radius)) return sign < 0 ? std::numeric_limits<E>::max() : std::numeric_limits<E>::lowest();
                return E{0};
            }, 0, any_value<E>);
    }

    VH_TEST("focal_minimum-int32-default", (extreme_default<std::int32_t, -1>(c, n)))
    VH_TEST("focal_maximum-int32-default", (extreme_default<std::int32_t, 1>(c, n)))
    VH_TEST("focal_minimum-double-default", (extreme_default<double, -1>(c, n)))
    VH_TEST("focal_maximum-double-default", (extreme_default<double, 1>(c, n)))

}  // namespace
