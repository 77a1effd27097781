#include "c31.hpp"
#include "lue/framework/algorithm/value_policies/logical_and.hpp"
#include "lue/framework/algorithm/value_policies/logical_inclusive_or.hpp"
#include "lue/framework/algorithm/value_policies/logical_exclusive_or.hpp"
#include "lue/framework/algorithm/value_policies/logical_not.hpp"
#include "lue/framework/algorithm/value_policies/valid.hpp"

namespace {

    using namespace vh;
    using namespace lue::value_policies;
    using B = lue::BooleanElement;
    using E = std::uint8_t;

    auto boolean(Case& c) -> E { return c.rng.chance(70) ? static_cast<E>(c.rng.below(2)) : random_value<E>(c); }

    VH_TEST("logical_and", (binary<B, E>(c, n, [](auto const& a, auto const& b) { return logical_and<B>(a, b); }, [](E const a, E const b) { return static_cast<B>(a != 0 && b != 0); }, 0, boolean)))
    VH_TEST("logical_inclusive_or", (binary<B, E>(c, n, [](auto const& a, auto const& b) { return logical_inclusive_or<B>(a, b); }, [](E const a, E const b) { return static_cast<B>(a != 0 || b != 0); }, 0, boolean)))
    VH_TEST("logical_exclusive_or", (binary<B, E>(c, n, [](auto const& a, auto const& b) { return logical_exclusive_or<B>(a, b); }, [](E const a, E const b) { return static_cast<B>((a != 0) != (b != 0)); }, 0, boolean)))
    VH_TEST("logical_not", (unary<B, E>(c, n, [](auto const& a) { return !a; }, [](E const a) { return static_cast<B>(a == 0); }, 0, boolean)))

    template<typename E>
    void valid_of(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<E>(c, l.shape, [&] { return random_value<E>(c); });
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            Grid<B> expected{l.shape};
            for (std::size_t k = 0; k < a.values.size(); ++k) expected.values[k] = is_no_data(a.values[k]) ? 0 : 1;
            Array2<E> const x = make_array(c, l, a);
            check_array(c, l, Array2<B>{valid<B>(x)}, expected, name);
            check_array(c, l, x, a, "input:" + name);
        });
    }

    VH_TEST("valid-double", valid_of<double>(c, n))
    VH_TEST("valid-int32", valid_of<std::int32_t>(c, n))
    VH_TEST("valid-uint8", valid_of<std::uint8_t>(c, n))

}  // namespace
