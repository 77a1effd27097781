// Zonal operations, and what they must return: per zone a statistic of the values in all cells of the zone, wherever they are
#pragma once
#include "c32.hpp"
#include "lue/framework/algorithm/definition/zonal_operation.hpp"
#include <map>

namespace vh {

    // Few or many zones, in patches or scattered, with and without cells that are not in a zone
    template<typename Z>
    auto random_zones(Case& c, Shape2 const& shape) -> Grid<Z>
    {
        unsigned const missing = c.rng.pick<unsigned>({0, 0, 10, 50, 100});
        std::uint64_t const nr = c.rng.pick<std::uint64_t>({1, 2, 5, 100, 250});
        Z const shift = c.rng.chance(50) ? Z{0} : random_value<Z>(c);
        std::int64_t const patch = c.rng.pick<std::int64_t>({1, 1, 3, 7});
        Grid<Z> zones{shape};
        for (std::int64_t r = 0; r < shape[0]; ++r)
            for (std::int64_t k = 0; k < shape[1]; ++k)
            {
                if (r % patch == 0 && k % patch == 0) zones(r, k) = static_cast<Z>(static_cast<std::make_unsigned_t<Z>>(shift) + static_cast<std::make_unsigned_t<Z>>(c.rng.below(nr)));
                else zones(r, k) = zones(r / patch * patch, k / patch * patch);
            }
        for (Z& zone : zones.values)
            if (c.rng.chance(missing)) zone = no_data<Z>();
        return zones;
    }

    // statistic(values, row by row)
    template<typename R, typename E, typename Z, typename F, typename S>
    void zonal(Case& c, std::string const& name, F&& operation, S&& statistic, double const tolerance = 0)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<E>(c, l.shape, [&] { return moderate<E>(c); });
        auto const zones = random_zones<Z>(c, l.shape);
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            std::map<Z, std::vector<E>> values;
            for (std::size_t i = 0; i < a.values.size(); ++i)
                if (!is_no_data(zones.values[i]) && !is_no_data(a.values[i])) values[zones.values[i]].push_back(a.values[i]);
            std::map<Z, R> statistics;
            for (auto const& [zone, v] : values) statistics[zone] = statistic(v);
            Grid<R> expected{l.shape};
            for (std::size_t i = 0; i < a.values.size(); ++i) expected.values[i] = statistics.contains(zones.values[i]) ? statistics[zones.values[i]] : no_data<R>();
            std::optional<Array2<E>> x{make_array(c, l, a)};
            std::optional<Array2<Z>> z{make_array(c, l, zones)};
            Array2<R> const result = operation(*x, *z);
            bool const keep = c.rng.chance(50);
            if (!keep) x.reset(), z.reset();
            check_array(c, l, result, expected, name, tolerance);
            if (keep) check_array(c, l, *x, a, "input:" + name), check_array(c, l, *z, zones, "input:" + name);
            c.count("zonal.zones", statistics.size());
            if (l.nr_partitions() > 1 && statistics.size() > 1) c.count("zonal.partitioned");
        });
    }

    // Operations that only have zones
    template<typename R, typename Z, typename F, typename S>
    void zonal_only(Case& c, std::string const& name, F&& operation, S&& check)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const zones = random_zones<Z>(c, l.shape);
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            std::optional<Array2<Z>> z{make_array(c, l, zones)};
            Array2<R> const result = operation(*z);
            bool const keep = c.rng.chance(50);
            if (!keep) z.reset();
            check(l, zones, read_array(c, l, result, name));
            if (keep) check_array(c, l, *z, zones, "input:" + name);
        });
    }

}  // namespace vh
