#include "c35.hpp"
#include "lue/framework/algorithm/value_policies/accu_fraction.hpp"
#include "lue/framework/algorithm/definition/accu_fraction.hpp"

using ChannelMaterial_f64 = lue::detail::ChannelMaterial<double, 2>;
HPX_REGISTER_CHANNEL_DECLARATION(lue_CellsIdxs);
HPX_REGISTER_CHANNEL_DECLARATION(ChannelMaterial_f64);

namespace {
    using namespace vh;
    VH_TEST("accu_fraction-double", (transport<double>(c, n, [](auto const&... a) { return lue::value_policies::accu_fraction(a...); }, 16, 0.0625, true,
        [](double const total, double const v) { double const out = total * v; return std::make_pair(out, total - out); }, 1e-9)))
}
