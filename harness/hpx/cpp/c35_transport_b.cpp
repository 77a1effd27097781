#include "c35.hpp"
#include "lue/framework/algorithm/value_policies/accu_capacity.hpp"
#include "lue/framework/algorithm/definition/accu_capacity.hpp"

using ChannelMaterial_f32 = lue::detail::ChannelMaterial<float, 2>;
HPX_REGISTER_CHANNEL_DECLARATION(lue_CellsIdxs);
HPX_REGISTER_CHANNEL_DECLARATION(ChannelMaterial_f32);

namespace {
    using namespace vh;
    VH_TEST("accu_capacity-float", (transport<float>(c, n, [](auto const&... a) { return lue::value_policies::accu_capacity(a...); }, 40, 1.0f, false,
        [](float const total, float const v) { float const out = std::min(total, v); return std::make_pair(out, total - out); })))
}
