#include "c31.hpp"
#include "lue/framework/algorithm/value_policies/equal_to.hpp"
#include "lue/framework/algorithm/value_policies/not_equal_to.hpp"
#include "lue/framework/algorithm/value_policies/less_than.hpp"
#include "lue/framework/algorithm/value_policies/less_than_equal_to.hpp"
#include "lue/framework/algorithm/value_policies/greater_than.hpp"
#include "lue/framework/algorithm/value_policies/greater_than_equal_to.hpp"

namespace {

    using namespace vh;
    using namespace lue::value_policies;
    using B = lue::BooleanElement;
    using E = double;

#define VH_COMPARISON(name, symbol) \
    VH_TEST(name "-double", (binary<B, E>(c, n, [](auto const& a, auto const& b) { return a symbol b; }, [](E const a, E const b) { return static_cast<B>(a symbol b); })))

    VH_COMPARISON("equal_to", ==)
    VH_COMPARISON("not_equal_to", !=)
    VH_COMPARISON("less_than", <)
    VH_COMPARISON("less_than_equal_to", <=)
    VH_COMPARISON("greater_than", >)
    VH_COMPARISON("greater_than_equal_to", >=)

}  // namespace
