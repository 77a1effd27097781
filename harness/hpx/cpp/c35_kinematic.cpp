#include "c35.hpp"
#include "lue/framework/algorithm/value_policies/kinematic_wave.hpp"
#include "lue/framework/algorithm/definition/kinematic_wave.hpp"

using ChannelMaterial_f64 = lue::detail::ChannelMaterial<double, 2>;
HPX_REGISTER_CHANNEL_DECLARATION(lue_CellsIdxs);
HPX_REGISTER_CHANNEL_DECLARATION(ChannelMaterial_f64);

namespace {

    using namespace vh;

    // Discharge at the end of the time step: where t/x q + alpha q^beta equals what is known
    auto discharge(double const upstream, double const current, double const inflow, double const alpha, double const beta, double const t, double const x) -> double
    {
        if (!(upstream + current > 0 || inflow > 0)) return 0;
        double const known = t / x * upstream + alpha * std::pow(current, beta) + t * inflow;
        double low{0}, high{1};
        auto const f = [&](double const q) { return t / x * q + alpha * std::pow(q, beta); };
        while (f(high) < known) high *= 2;
        for (int n = 0; n < 200; ++n)
        {
            double const middle = low + (high - low) / 2;
            (f(middle) < known ? low : high) = middle;
        }
        return high;
    }

    void kinematic_wave(Case& c, std::string const& name, bool const single)
    {
        flow(c, name, [&](Layout const& l, Network const& n, auto& direction, bool const keep) {
            unsigned const missing = c.rng.pick<unsigned>({0, 0, 1, 5}), out_of_domain = c.rng.pick<unsigned>({0, 0, 1});
            auto const grid = [&](double const least, double const most) {
                return random_grid<double>(c, l.shape, [&]() -> double {
                    if (c.rng.chance(missing)) return no_data<double>();
                    return least + (most - least) * static_cast<double>(c.rng.below(1001)) / 1000;
                });
            };
            // A channel which is dry, and where water flows in from the side, is filled by an amount
            // that is hard to come by in the number of iterations that are allowed
            auto current_grid = grid(0.01, 50), inflow_grid = grid(0, 0.1);
            for (std::size_t i = 0; i < current_grid.values.size(); ++i)
            {
                if (c.rng.chance(10)) inflow_grid.values[i] = 0;
                if (c.rng.chance(10)) inflow_grid.values[i] = current_grid.values[i] = 0;
                if (c.rng.chance(out_of_domain)) current_grid.values[i] = -1;
                if (c.rng.chance(out_of_domain)) inflow_grid.values[i] = -0.01;
            }
            auto length_grid = grid(5, 500);
            for (double& v : length_grid.values)
                if (c.rng.chance(out_of_domain)) v = c.rng.pick<double>({0, -1});
            Argument<double> current{c, l, current_grid, false}, inflow{c, l, inflow_grid, false};
            Argument<double> alpha{c, l, grid(0.5, 5), single}, beta{c, l, grid(0.6, 1.3), single}, length{c, l, length_grid, single};
            Argument<double> duration{c, l, grid(1, 100), true};
            Grid<double> outflow{l.shape, no_data<double>()};
            for (std::int64_t const i : n.order)
            {
                bool valid{true};
                double upstream{0};
                for (auto const* a : {&current, &inflow, &alpha, &beta, &length, &duration}) valid = valid && !is_no_data(a->grid.values[i]);
                for (std::int64_t const u : n.upstream[i]) valid = valid && !is_no_data(outflow.values[u]), upstream += outflow.values[u];
                if (!(current.grid.values[i] >= 0 && inflow.grid.values[i] >= 0 && length.grid.values[i] > 0)) valid = false;
                if (valid) outflow.values[i] = discharge(upstream, current.grid.values[i], inflow.grid.values[i], alpha.grid.values[i], beta.grid.values[i], duration.grid.values[i], length.grid.values[i]);
            }
            Array2<double> const result = single ? lue::value_policies::kinematic_wave(*direction, *current.array, *inflow.array, *alpha.scalar, *beta.scalar, *duration.scalar, *length.scalar)
                                                 : lue::value_policies::kinematic_wave(*direction, *current.array, *inflow.array, *alpha.array, *beta.array, *duration.scalar, *length.array);
            if (!keep)
            {
                direction.reset();
                for (auto* a : {&current, &inflow, &alpha, &beta, &length, &duration}) a->release();
            }
            check_array(c, l, result, outflow, name, 1e-6);
            for (auto const* a : {&current, &inflow, &alpha, &beta, &length}) a->check(c, l, name);
        });
    }

    VH_TEST("kinematic_wave-double", kinematic_wave(c, n, false))
    VH_TEST("kinematic_wave-double-scalar", kinematic_wave(c, n, true))

}  // namespace
