#include "c34.hpp"
#include "lue/framework/algorithm/value_policies/all.hpp"
#include "lue/framework/algorithm/value_policies/none.hpp"
#include "lue/framework/algorithm/any.hpp"

namespace {

    using namespace vh;
    using B = std::uint8_t;


    template<typename E, unsigned percentage>
    auto truth(Case& c) -> E { return c.rng.chance(percentage) ? E{1} : E{0}; }

    template<typename E, typename F, typename S>
    void logical(Case& c, std::string const& name, F&& operation, S&& spec)
    {
        auto value = c.rng.pick<E (*)(Case&)>({truth<E, 0>, truth<E, 1>, truth<E, 50>, truth<E, 99>, truth<E, 100>});
        aggregate<E, E>(c, name, operation, spec, 0, value);
    }

    template<typename V> auto all(V const& v) -> bool { return std::all_of(v.begin(), v.end(), [](auto e) { return e != 0; }); }
    template<typename V> auto none(V const& v) -> bool { return std::none_of(v.begin(), v.end(), [](auto e) { return e != 0; }); }
    template<typename V> auto any(V const& v) -> bool { return !none(v); }

    VH_TEST("all-uint8", (logical<B>(c, n, [](auto const& a) { return lue::value_policies::all(a); }, [](auto const& v) { return all(v); })))
    VH_TEST("all-int32", (logical<std::int32_t>(c, n, [](auto const& a) { return lue::value_policies::all(a); }, [](auto const& v) { return all(v); })))
    VH_TEST("none-uint8", (logical<B>(c, n, [](auto const& a) { return lue::value_policies::none(a); }, [](auto const& v) { return none(v); })))
    VH_TEST("any-uint8", (logical<B>(c, n, [](auto const& a) {
        return lue::unary_aggregate_operation(lue::policy::any::DefaultValuePolicies<B>{}, a, lue::detail::Any<B>{});
    }, [](auto const& v) { return any(v); })))

}  // namespace
