#include "c31.hpp"
#include "lue/framework/algorithm/value_policies/abs.hpp"
#include "lue/framework/algorithm/value_policies/acos.hpp"
#include "lue/framework/algorithm/value_policies/asin.hpp"
#include "lue/framework/algorithm/value_policies/atan.hpp"
#include "lue/framework/algorithm/value_policies/ceil.hpp"
#include "lue/framework/algorithm/value_policies/cos.hpp"
#include "lue/framework/algorithm/value_policies/exp.hpp"
#include "lue/framework/algorithm/value_policies/floor.hpp"

namespace {

    using namespace vh;
    using namespace lue::value_policies;

    template<typename E>
    using M = Maybe<E>;

    // The lowest value has no absolute value
    template<typename E>
    auto no_lowest(Case& c) -> E
    {
        E const v = random_value<E>(c);
        return v == std::numeric_limits<E>::lowest() && std::is_floating_point_v<E> ? E{1} : v;
    }

#define VH_UNARY(name, E, ...) VH_TEST(#name "-" #E, (unary<E, E>(c, n, [](auto const& a) { return name(a); }, [](E const a) -> M<E> { __VA_ARGS__; })))

    using int32 = std::int32_t;
    VH_TEST("abs-int32", (unary<int32, int32>(c, n, [](auto const& a) { return abs(a); }, [](int32 const a) { return a < 0 ? -a : a; }, 0, no_lowest<int32>)))
    VH_TEST("abs-double", (unary<double, double>(c, n, [](auto const& a) { return abs(a); }, [](double const a) { return a < 0 ? -a : a; }, 0, no_lowest<double>)))
    VH_UNARY(acos, double, if (!(a >= -1 && a <= 1)) return {}; return std::acos(a))
    VH_UNARY(asin, double, if (!(a >= -1 && a <= 1)) return {}; return std::asin(a))
    VH_UNARY(atan, double, return std::atan(a))
    VH_UNARY(ceil, double, return std::ceil(a))
    VH_UNARY(cos, double, return std::cos(a))
    VH_UNARY(exp, double, if (std::isinf(std::exp(a))) return {}; return std::exp(a))
    VH_UNARY(floor, float, return std::floor(a))

}  // namespace
