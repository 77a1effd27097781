#include "c35.hpp"
#include "lue/framework/algorithm/value_policies/accu.hpp"
#include "lue/framework/algorithm/definition/accu.hpp"
#include "lue/framework/algorithm/value_policies/accu_info.hpp"
#include "lue/framework/algorithm/definition/accu_info.hpp"

using ChannelMaterial_f64 = lue::detail::ChannelMaterial<double, 2>;
using ChannelMaterial_f32 = lue::detail::ChannelMaterial<float, 2>;
using ChannelMaterial_u8 = lue::detail::ChannelMaterial<std::uint8_t, 2>;
HPX_REGISTER_CHANNEL_DECLARATION(lue_CellsIdxs);
HPX_REGISTER_CHANNEL(lue_CellsIdxs);
HPX_REGISTER_CHANNEL(ChannelMaterial_f64);
HPX_REGISTER_CHANNEL(ChannelMaterial_f32);
HPX_REGISTER_CHANNEL(ChannelMaterial_u8);

namespace {

    using namespace vh;

    template<typename E>
    void accu(Case& c, std::string const& name)
    {
        flow(c, name, [&](Layout const& l, Network const& n, auto& direction, bool const keep) {
            Argument<E> inflow{c, l, random_material<E>(c, l.shape, 10), c.rng.chance(25)};
            Grid<E> outflow{l.shape, no_data<E>()};
            for (std::int64_t const i : n.order)
            {
                E total = inflow.grid.values[i];
                bool valid = total >= 0;
                for (std::int64_t const u : n.upstream[i]) valid = valid && !is_no_data(outflow.values[u]), total += outflow.values[u];
                if (valid) outflow.values[i] = total;
            }
            Array2<E> const result = inflow.array ? lue::value_policies::accu(*direction, *inflow.array) : lue::value_policies::accu(*direction, *inflow.scalar);
            if (!keep) direction.reset(), inflow.release();
            check_array(c, l, result, outflow, name);
            inflow.check(c, l, name);
        });
    }

    VH_TEST("accu-double", accu<double>(c, n))
    VH_TEST("accu-float", accu<float>(c, n))

    // What can be said about the class of a cell, whatever the order in which streams are visited
    void info(Case& c, std::string const& name)
    {
        flow(c, name, [&](Layout const& l, Network const& n, auto& direction, bool const keep) {
            Array2<lue::CellClass> const result = lue::value_policies::accu_info(*direction);
            if (!keep) direction.reset();
            auto const observed = read_array(c, l, result, name);
            auto const partition_of = [&](std::int64_t const r, std::int64_t const k) {
                return std::min(r / l.partition[0], l.nr[0] - 1) * l.nr[1] + std::min(k / l.partition[1], l.nr[1] - 1);
            };
            for (std::int64_t i = 0; i < l.shape[0] * l.shape[1]; ++i)
            {
                std::int64_t const r = i / l.shape[1], k = i % l.shape[1];
                Direction const v = n.direction.values[i];
                auto const o = observed.values[i];
                std::set<lue::CellClass> possible;
                if (v == missing_direction) possible = {no_data<lue::CellClass>()};
                else if (n.upstream[i].empty()) possible = {lue::ridge_cell};
                else
                {
                    auto const [dr, dc] = offset_of(v);
                    bool const input = std::ranges::any_of(n.upstream[i], [&](auto const u) { return partition_of(u / l.shape[1], u % l.shape[1]) != partition_of(r, k); });
                    bool const output = v != sink && (!n.direction.inside(r + dr, k + dc) || partition_of(r + dr, k + dc) != partition_of(r, k));
                    if (output) possible = {lue::partition_output_cell};
                    else if (v == sink) possible = {lue::sink_cell};
                    else possible = {lue::intra_partition_stream_cell, lue::inter_partition_stream_cell, lue::confluence_cell};
                    if (input) possible.insert({output ? lue::partition_input_output_cell : lue::partition_input_cell});
                    if (input && n.upstream[i].size() == 1) possible = {output ? lue::partition_input_output_cell : lue::partition_input_cell};
                    if (!output && v != sink && n.upstream[i].size() == 1) possible.erase(lue::confluence_cell);
                }
                VH_CHECK(c, possible.contains(o), name, std::format("class of cell ({}, {}) of {} is {}", r, k, l.text(), int(o)));
            }
        });
    }

    VH_TEST("accu_info-uint8", info(c, n))

}  // namespace
