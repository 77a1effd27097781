#include "c35.hpp"
#include "lue/framework/algorithm/value_policies/upstream.hpp"
#include "lue/framework/algorithm/definition/upstream.hpp"
#include "lue/framework/algorithm/value_policies/downstream.hpp"
#include "lue/framework/algorithm/definition/downstream.hpp"
#include "lue/framework/algorithm/definition/downstream_distance.hpp"
#include "lue/framework/algorithm/definition/inflow_count.hpp"
#include "lue/framework/algorithm/value_policies/d8_flow_direction.hpp"
#include "lue/framework/algorithm/definition/d8_flow_direction.hpp"

HPX_REGISTER_CHANNEL_DECLARATION(lue_CellsIdxs);

namespace {

    using namespace vh;

    template<typename E>
    auto any_material(Case& c, Shape2 const& s) -> Grid<E>
    {
        unsigned const missing = c.rng.pick<unsigned>({0, 5, 50});
        return random_grid<E>(c, s, [&]() -> E { return c.rng.chance(missing) ? no_data<E>() : static_cast<E>(static_cast<std::int64_t>(c.rng.below(21)) - (std::is_signed_v<E> ? 10 : 0)); });
    }

    template<typename E>
    void upstream(Case& c, std::string const& name)
    {
        flow(c, name, [&](Layout const& l, Network const& n, auto& direction, bool const keep) {
            Argument<E> material{c, l, any_material<E>(c, l.shape), false};
            Grid<E> expected{l.shape};
            for (std::size_t i = 0; i < expected.values.size(); ++i)
            {
                bool valid = n.direction.values[i] != missing_direction && !is_no_data(material.grid.values[i]);
                for (auto const u : n.upstream[i])
                    if (valid = valid && !is_no_data(material.grid.values[u]); valid) expected.values[i] += material.grid.values[u];
                if (!valid) expected.values[i] = no_data<E>();
            }
            Array2<E> const result = lue::value_policies::upstream(*direction, *material.array);
            if (!keep) direction.reset(), material.release();
            check_array(c, l, result, expected, name);
            material.check(c, l, name);
        }, 3);
    }

    template<typename E>
    void downstream(Case& c, std::string const& name)
    {
        flow(c, name, [&](Layout const& l, Network const& n, auto& direction, bool const keep) {
            Argument<E> material{c, l, any_material<E>(c, l.shape), false};
            Grid<E> expected{l.shape};
            for (std::size_t i = 0; i < expected.values.size(); ++i)
            {
                bool const valid = n.direction.values[i] != missing_direction && !is_no_data(material.grid.values[i]);
                bool const leaves = n.direction.values[i] != missing_direction && n.direction.values[i] != sink && n.downstream[i] < 0;
                if (!valid) expected.values[i] = no_data<E>();
                else if (n.downstream[i] >= 0) expected.values[i] = material.grid.values[n.downstream[i]];
                else if (leaves) expected.values[i] = E{0};
                else expected.values[i] = material.grid.values[i];
            }
            Array2<E> const result = lue::value_policies::downstream(*direction, *material.array);
            if (!keep) direction.reset(), material.release();
            check_array(c, l, result, expected, name);
            material.check(c, l, name);
        }, 3);
    }

    VH_TEST("upstream-double", upstream<double>(c, n))
    VH_TEST("upstream-int32", upstream<std::int32_t>(c, n))
    VH_TEST("downstream-double", downstream<double>(c, n))
    VH_TEST("downstream-uint8", downstream<std::uint8_t>(c, n))

    VH_TEST("downstream_distance-double", flow(c, n, [&](Layout const& l, Network const& network, auto& direction, bool const keep) {
        double const size = c.rng.pick<double>({1, 0.5, 100, 1e-3});
        Grid<double> expected{l.shape};
        for (std::size_t i = 0; i < expected.values.size(); ++i)
        {
            Direction const v = network.direction.values[i];
            expected.values[i] = v == missing_direction ? no_data<double>() : v == sink ? 0 : v % 2 ? size * std::sqrt(2.0) : size;
        }
        using Policies = lue::policy::downstream_distance::DefaultValuePolicies<Direction, double>;
        Array2<double> const result = lue::downstream_distance(Policies{}, *direction, size);
        if (!keep) direction.reset();
        check_array(c, l, result, expected, n, 1e-12);
    }))

    template<typename E>
    void inflow_count(Case& c, std::string const& name)
    {
        flow(c, name, [&](Layout const& l, Network const& n, auto& direction, bool const keep) {
            Grid<E> expected{l.shape};
            for (std::size_t i = 0; i < expected.values.size(); ++i)
                expected.values[i] = n.direction.values[i] == missing_direction ? no_data<E>() : static_cast<E>(n.upstream[i].size());
            using Policies = lue::policy::inflow_count::DefaultValuePolicies<E, Direction>;
            Array2<E> const result = lue::inflow_count<E>(Policies{}, *direction);
            if (!keep) direction.reset();
            check_array(c, l, result, expected, name);
        });
    }

    VH_TEST("inflow_count-uint8", inflow_count<std::uint8_t>(c, n))
    VH_TEST("inflow_count-int32", inflow_count<std::int32_t>(c, n))

    // Towards the lowest neighbour. What is outside of the array is lower than everything inside of it
    template<typename E>
    void d8(Case& c, std::string const& name)
    {
        double const scale = c.rng.pick<double>({1, 1, 0.25, 1e6}), shift = c.rng.pick<double>({0, 0, -50, 50});
        unsigned const missing = c.rng.pick<unsigned>({0, 0, 10, 60});
        focal<Direction, E, std::uint8_t>(c, name, [](auto const& a, auto const&) { return lue::value_policies::d8_flow_direction<Direction>(a); },
            [](Grid<E> const& g, Grid<std::uint8_t> const&, std::int64_t const r, std::int64_t const k) -> Direction {
                if (is_no_data(g(r, k))) return missing_direction;
                Direction result{sink};
                E lowest = g(r, k);
                // Of equally low neighbours, the first one
                for (auto const& [dr, dc] : std::vector<std::pair<int, int>>{{-1, 0}, {0, -1}, {0, 1}, {1, 0}, {-1, -1}, {-1, 1}, {1, -1}, {1, 1}})
                {
                    if (!g.inside(r + dr, k + dc))
                    {
                        if (lowest > std::numeric_limits<E>::lowest()) lowest = std::numeric_limits<E>::lowest(), result = direction_to(dr, dc);
                    }
                    else if (!is_no_data(g(r + dr, k + dc)) && g(r + dr, k + dc) < lowest)
                        lowest = g(r + dr, k + dc), result = direction_to(dr, dc);
                }
                return result;
            },
            0, [=](Case& c) -> E { return c.rng.chance(missing) ? no_data<E>() : static_cast<E>((static_cast<double>(c.rng.below(41)) - 20 + shift) * scale); }, true);
    }

    VH_TEST("d8_flow_direction-double", d8<double>(c, n))
    VH_TEST("d8_flow_direction-float", d8<float>(c, n))

}  // namespace
