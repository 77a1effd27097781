#pragma once
#include "grid.hpp"
#include "tests.hpp"
#include "lue/framework/algorithm/kernel.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"

namespace vh {

    // Values of which sums are exact, or almost so, and infinity is never reached
    template<typename E>
    auto moderate(Case& c) -> E
    {
        if (c.rng.chance(15)) return no_data<E>();
        if constexpr (std::is_floating_point_v<E>) return c.rng.chance(40) ? static_cast<E>(c.rng.below(9)) - 4 : (static_cast<E>(c.rng.below(200001)) - 100000) / E{128};
        else if (c.rng.chance(50)) return static_cast<E>(c.rng.below(4));
        else if constexpr (sizeof(E) == 1) return static_cast<E>(c.rng.below(5));
        else return static_cast<E>(static_cast<std::int64_t>(c.rng.below(2001)) - (std::is_signed_v<E> ? 1000 : 0));
    }

    // Values in the neighbourhood of a cell which the kernel selects: weights and values, row by row. Not those which are no-data
    template<typename E, typename W>
    auto neighbourhood(Grid<E> const& g, Grid<W> const& kernel, std::int64_t const r, std::int64_t const k) -> std::vector<std::pair<W, E>>
    {
        std::vector<std::pair<W, E>> result;
        std::int64_t const radius = (kernel.shape[0] - 1) / 2;
        for (std::int64_t i = 0; i < kernel.shape[0]; ++i)
            for (std::int64_t j = 0; j < kernel.shape[1]; ++j)
            {
                std::int64_t const y = r + i - radius, x = k + j - radius;
                if (g.inside(y, x) && !is_no_data(g(y, x))) result.emplace_back(kernel(i, j), g(y, x));
            }
        return result;
    }

    template<typename W>
    auto random_kernel(Case& c) -> Grid<W>
    {
        std::int64_t const size = 2 * c.rng.pick<std::int64_t>({1, 1, 1, 2, 2, 3}) + 1;
        unsigned const percentage = c.rng.pick<unsigned>({100, 60, 60, 20, 0});
        return random_grid<W>(c, {size, size}, [&]() -> W {
            if constexpr (std::is_floating_point_v<W>) return c.rng.chance(percentage) ? (static_cast<W>(c.rng.below(65)) - 32) / 16 : W{0};
            else return c.rng.chance(percentage) ? 1 : 0;
        });
    }

    template<typename W>
    auto lue_kernel(Grid<W> const& g) -> lue::Kernel<W, 2>
    {
        lue::Kernel<W, 2> kernel{g.shape};
        for (std::int64_t i = 0; i < g.shape[0]; ++i)
            for (std::int64_t j = 0; j < g.shape[1]; ++j) kernel(i, j) = g(i, j);
        return kernel;
    }

    // spec(grid, kernel, row, column)
    template<typename R, typename E, typename W, typename F, typename S>
    void focal(Case& c, std::string const& name, F&& operation, S&& spec, double const tolerance = 0, std::function<E(Case&)> value = moderate<E>, bool const three = false)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Grid<W> const kernel = three ? Grid<W>{{3, 3}} : random_kernel<W>(c);
        std::int64_t const size = kernel.shape[0];
        bool const refused = c.rng.chance(6);
        Layout const l = refused ? random_layout(c, nr, size + 2) : random_layout(c, nr, 24, size);
        auto const a = random_grid<E>(c, l.shape, [&] { return value(c); });
        c.op(name, std::format("kernel={} {}", size, l.text()));
        with_hpx(c, nr, [&] {
            Grid<R> expected{l.shape};
            for (std::int64_t r = 0; r < l.shape[0]; ++r)
                for (std::int64_t k = 0; k < l.shape[1]; ++k) expected(r, k) = spec(a, kernel, r, k);
            std::optional<Array2<E>> x{make_array(c, l, a)};
            Array2<R> result = operation(*x, lue_kernel(kernel));
            bool const keep = c.rng.chance(50);
            if (!keep) x.reset();
            bool small{false};
            for (std::int64_t p = 0; p < l.nr_partitions(); ++p) small = small || l.extent(p)[0] < size || l.extent(p)[1] < size;
            if (small)
            {
                // Not possible: this is reported by the partitions that are too small
                for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
                {
                    result.partitions()[p].wait();
                    bool const thrown = result.partitions()[p].has_exception();
                    if (l.extent(p)[0] < size || l.extent(p)[1] < size) VH_CHECK(c, thrown, "too-small:" + name, "operation on a too small partition is not refused");
                }
                c.count("focal.refused");
            }
            else
            {
                check_array(c, l, result, expected, name, tolerance);
                c.count("focal.computed");
                if (l.nr_partitions() > 1) c.count("focal.partitioned");
            }
            if (keep) check_array(c, l, *x, a, "input:" + name);
        });
    }

}  // namespace vh
