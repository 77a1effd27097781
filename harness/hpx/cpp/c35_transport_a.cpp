#include "c35.hpp"
#include "lue/framework/algorithm/value_policies/accu_threshold.hpp"
#include "lue/framework/algorithm/definition/accu_threshold.hpp"

using ChannelMaterial_f64 = lue::detail::ChannelMaterial<double, 2>;
HPX_REGISTER_CHANNEL_DECLARATION(lue_CellsIdxs);
HPX_REGISTER_CHANNEL_DECLARATION(ChannelMaterial_f64);

namespace {
    using namespace vh;
    VH_TEST("accu_threshold-double", (transport<double>(c, n, [](auto const&... a) { return lue::value_policies::accu_threshold(a...); }, 40, 1.0, false,
        [](double const total, double const v) { return total > v ? std::make_pair(total - v, v) : std::make_pair(0.0, total); })))
}
