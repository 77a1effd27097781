#include "c31.hpp"
#include "lue/framework/algorithm/value_policies/log.hpp"
#include "lue/framework/algorithm/value_policies/log10.hpp"
#include "lue/framework/algorithm/value_policies/round.hpp"
#include "lue/framework/algorithm/value_policies/sin.hpp"
#include "lue/framework/algorithm/value_policies/sqrt.hpp"
#include "lue/framework/algorithm/value_policies/tan.hpp"
#include "lue/framework/algorithm/value_policies/trunc.hpp"
#include "lue/framework/algorithm/value_policies/negate.hpp"

namespace {

    using namespace vh;
    using namespace lue::value_policies;

    template<typename E>
    using M = Maybe<E>;

#define VH_UNARY(name, E, ...) VH_TEST(#name "-" #E, (unary<E, E>(c, n, [](auto const& a) { return name(a); }, [](E const a) -> M<E> { __VA_ARGS__; })))

    VH_UNARY(log, double, if (a < 0) return {}; return std::log(a))
    VH_UNARY(log10, double, if (a < 0) return {}; return std::log10(a))
    VH_UNARY(round, double, return std::round(a))
    VH_UNARY(sin, double, return std::sin(a))
    VH_UNARY(sqrt, double, if (a < 0) return {}; return std::sqrt(a))
    VH_UNARY(sqrt, float, if (a < 0) return {}; return std::sqrt(a))
    VH_UNARY(tan, double, return std::tan(a))
    VH_UNARY(trunc, float, return std::trunc(a))
    using int32 = std::int32_t;
    VH_TEST("negate-int32", (unary<int32, int32>(c, n, [](auto const& a) { return negate(a); }, [](int32 const a) { return -a; })))
    VH_TEST("negate-double", (unary<double, double>(c, n, [](auto const& a) { return negate(a); }, [](double const a) { return -a; })))

}  // namespace
