// Arrays as the monitors know them: a grid of values, and how it is divided in partitions over localities
#pragma once
#include "hpxcase.hpp"
#include "lue/framework/algorithm/policy.hpp"
#include "lue/framework/algorithm/scalar.hpp"
#include "lue/framework/partitioned_array_impl.hpp"
#include "lue/framework/partitioned_array/array_partition_impl.hpp"
#include "lue/framework/partitioned_array/server/array_partition_impl.hpp"
#include "lue/framework/core/component.hpp"
#include <bit>
#include <cmath>
#include <optional>

namespace vh {

    using Shape2 = std::array<std::int64_t, 2>;

    inline auto text(Shape2 const& s) -> std::string { return std::format("{}x{}", s[0], s[1]); }

    template<typename E>
    using Array2 = lue::PartitionedArray<E, 2>;

    template<typename E>
    struct Grid
    {
            Shape2 shape{};
            std::vector<E> values;

            Grid() = default;
            explicit Grid(Shape2 const& s, E const v = E{}): shape{s}, values(s[0] * s[1], v) {}
            auto operator()(std::int64_t r, std::int64_t c) -> E& { return values[r * shape[1] + c]; }
            auto operator()(std::int64_t r, std::int64_t c) const -> E const& { return values[r * shape[1] + c]; }
            auto inside(std::int64_t r, std::int64_t c) const -> bool { return r >= 0 && c >= 0 && r < shape[0] && c < shape[1]; }
    };

    // As LUE divides arrays: partitions at the far borders are larger
    struct Layout
    {
            Shape2 shape{}, partition{}, nr{};
            std::vector<int> locality;

            auto nr_partitions() const -> std::int64_t { return nr[0] * nr[1]; }
            auto offset(std::int64_t p) const -> Shape2 { return {p / nr[1] * partition[0], p % nr[1] * partition[1]}; }
            auto extent(std::int64_t p) const -> Shape2
            {
                Shape2 const at{p / nr[1], p % nr[1]};
                Shape2 s;
                for (int d = 0; d < 2; ++d) s[d] = at[d] + 1 < nr[d] ? partition[d] : shape[d] - at[d] * partition[d];
                return s;
            }
            auto text() const -> std::string
            {
                std::string s = vh::text(shape) + " in " + vh::text(partition) + " at ";
                for (int l : locality) s += std::to_string(l);
                return s;
            }
    };

    // smallest: smallest extent of a partition
    inline auto random_layout(Case& c, int const nr_localities, std::int64_t const most = 24, std::int64_t const smallest = 1) -> Layout
    {
        Layout l;
        for (int d = 0; d < 2; ++d)
        {
            l.shape[d] = c.rng.chance(8) ? smallest : static_cast<std::int64_t>(c.rng.range(smallest, std::max(most, smallest)));
            l.partition[d] = c.rng.chance(10) ? l.shape[d] : static_cast<std::int64_t>(c.rng.range(std::max(smallest, l.shape[d] / 5), l.shape[d]));
            l.nr[d] = l.shape[d] / l.partition[d];
        }
        // In blocks along the linear index or scattered
        bool const blocks = c.rng.chance(50);
        for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
            l.locality.push_back(static_cast<int>(blocks ? p * nr_localities / l.nr_partitions() : c.rng.below(nr_localities)));
        return l;
    }

    template<typename E>
    constexpr auto no_data() -> E
    {
        if constexpr (std::is_floating_point_v<E>) return std::numeric_limits<E>::quiet_NaN();
        else if constexpr (std::is_signed_v<E>) return std::numeric_limits<E>::min();
        else return std::numeric_limits<E>::max();
    }

    template<typename E>
    auto is_no_data(E const v) -> bool
    {
        if constexpr (std::is_floating_point_v<E>) return std::isnan(v);
        else return v == no_data<E>();
    }

    // Exactly, or within a few roundings
    template<typename E>
    auto same(E const a, E const b, double const tolerance = 0) -> bool
    {
        if constexpr (std::is_floating_point_v<E>)
        {
            if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
            if (a == b) return true;
            return tolerance > 0 && std::abs(double(a) - double(b)) <= tolerance * std::max({1.0, std::abs(double(a)), std::abs(double(b))});
        }
        else
            return a == b;
    }

    template<typename E>
    auto show(E const v) -> std::string
    {
        if constexpr (sizeof(E) == 1) return std::to_string(int(v));
        else return std::format("{}", v);
    }

    template<typename E>
    auto partition_data(Layout const& l, Grid<E> const& grid, std::int64_t const p) -> lue::ArrayPartitionData<E, 2>
    {
        Shape2 const o = l.offset(p), s = l.extent(p);
        lue::ArrayPartitionData<E, 2> data{s};
        for (std::int64_t i = 0; i < s[0]; ++i)
            for (std::int64_t j = 0; j < s[1]; ++j) data(i, j) = grid(o[0] + i, o[1] + j);
        return data;
    }

    inline auto localities(Layout const& l) -> lue::LocalitiesPtr<2>
    {
        auto const ids = hpx::find_all_localities();
        auto result = std::make_shared<lue::Localities<2>>(lue::Localities<2>{l.nr});
        for (std::int64_t p = 0; p < l.nr_partitions(); ++p) (*result)[p] = ids[l.locality[p]];
        return result;
    }

    // Partitions of the array may or may not be there already
    template<typename E>
    auto make_array(Case& c, Layout const& l, Grid<E> const& grid) -> Array2<E>
    {
        using Partition = lue::ArrayPartition<E, 2>;
        auto const ids = hpx::find_all_localities();
        typename Array2<E>::Partitions partitions{l.nr};
        unsigned const late = c.rng.pick<unsigned>({0, 50, 100});
        for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
        {
            auto const id = ids[l.locality[p]];
            Shape2 const o = l.offset(p);
            if (c.rng.chance(late))
            {
                partitions[p] = Partition{hpx::async([id, o, data = partition_data(l, grid, p), n = c.rng.below(4)]() mutable {
                    for (std::uint64_t k = 0; k < n; ++k) hpx::this_thread::yield();
                    return Partition{id, o, std::move(data)};
                })};
            }
            else
                partitions[p] = Partition{id, o, partition_data(l, grid, p)};
        }
        return {l.shape, localities(l), std::move(partitions)};
    }

    // Everything that can be observed of an array is checked, but for the values, which are returned
    template<typename E>
    auto read_array(Case& c, Layout const& l, Array2<E> const& array, std::string const& key) -> Grid<E>
    {
        VH_CHECK(c, array.shape() == l.shape && array.nr_elements() == l.shape[0] * l.shape[1], "array-shape:" + key, text(array.shape()));
        VH_CHECK(c, array.partitions().shape() == l.nr && array.nr_partitions() == l.nr_partitions(), "shape-in-partitions:" + key, text(array.partitions().shape()));
        VH_CHECK(c, array.localities().shape() == l.nr, "localities:" + key, "number of localities differs");
        auto const ids = hpx::find_all_localities();
        Grid<E> grid{l.shape};
        for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
        {
            auto const& partition = array.partitions()[p];
            Shape2 const o = l.offset(p), s = l.extent(p);
            VH_CHECK(c, partition.valid(), "invalid-partition:" + key, std::format("partition {}", p));
            partition.wait();
            auto const data = partition.data(hpx::launch::sync);
            auto const offset = partition.offset(hpx::launch::sync);
            VH_CHECK(c, offset == o, "partition-offset:" + key, std::format("partition {} of {} has offset {}", p, l.text(), text(offset)));
            VH_CHECK(c, data.shape() == s, "partition-shape:" + key, std::format("partition {} of {} has shape {}", p, l.text(), text(data.shape())));
            VH_CHECK(c, partition.shape(hpx::launch::sync) == s, "partition-shape:" + key, "component's shape differs");
            VH_CHECK(c, array.localities()[p] == ids[l.locality[p]], "locality:" + key, std::format("partition {} of {} is said to be elsewhere", p, l.text()));
            VH_CHECK(c, partition.get_id().vhpx_locality() == l.locality[p], "locality:" + key, std::format("partition {} of {} is at locality {}", p, l.text(), partition.get_id().vhpx_locality()));
            for (std::int64_t i = 0; i < s[0]; ++i)
                for (std::int64_t j = 0; j < s[1]; ++j) grid(o[0] + i, o[1] + j) = data(i, j);
        }
        c.count("partitions.read", l.nr_partitions());
        return grid;
    }

    template<typename E>
    void compare_grids(Case& c, Layout const& l, Grid<E> const& observed, Grid<E> const& expected, std::string const& key, double const tolerance = 0)
    {
        for (std::int64_t r = 0; r < expected.shape[0]; ++r)
            for (std::int64_t k = 0; k < expected.shape[1]; ++k)
                VH_CHECK(c, same(observed(r, k), expected(r, k), tolerance), key,
                         std::format("cell ({}, {}) of {} is {} instead of {}", r, k, l.text(), show(observed(r, k)), show(expected(r, k))));
        c.count("cells.compared", expected.shape[0] * expected.shape[1]);
    }

    template<typename E>
    void check_array(Case& c, Layout const& l, Array2<E> const& array, Grid<E> const& expected, std::string const& key, double const tolerance = 0)
    {
        compare_grids(c, l, read_array(c, l, array, key), expected, key, tolerance);
    }

    // Any value
    template<typename E>
    auto random_value(Case& c) -> E
    {
        if constexpr (std::is_floating_point_v<E>)
        {
            switch (c.rng.below(12))
            {
                case 0: return c.rng.pick<E>({0, -E{0}, 1, -1, std::numeric_limits<E>::max(), std::numeric_limits<E>::lowest(), std::numeric_limits<E>::min(),
                                              std::numeric_limits<E>::infinity(), -std::numeric_limits<E>::infinity(), std::numeric_limits<E>::denorm_min()});
                case 1: return no_data<E>();
                case 2: case 3: case 4: return static_cast<E>(static_cast<std::int64_t>(c.rng.below(21)) - 10);
                case 5: case 6: return static_cast<E>(c.rng.below(2000001)) / E{1000000} - E{1};
                case 7: return static_cast<E>(std::ldexp(1.0 + c.rng.below(1000) / 1000.0, static_cast<int>(c.rng.below(120)) - 60)) * (c.rng.chance(50) ? -1 : 1);
                default: return static_cast<E>((static_cast<double>(c.rng.below(2000001)) - 1000000) / 997.0);
            }
        }
        else
        {
            switch (c.rng.below(8))
            {
                case 0: return c.rng.pick<E>({0, 1, std::numeric_limits<E>::max(), std::numeric_limits<E>::min(), static_cast<E>(std::numeric_limits<E>::max() - 1),
                                              static_cast<E>(std::numeric_limits<E>::min() + 1), static_cast<E>(std::numeric_limits<E>::max() / 2)});
                case 1: return no_data<E>();
                case 2: return static_cast<E>(c.rng.next());
                default:
                    if constexpr (std::is_signed_v<E>) return static_cast<E>(static_cast<std::int64_t>(c.rng.below(41)) - 20);
                    else return static_cast<E>(c.rng.below(21));
            }
        }
    }

    template<typename E, typename F>
    auto random_grid(Case& c, Shape2 const& shape, F&& f) -> Grid<E>
    {
        Grid<E> g{shape};
        for (E& v : g.values) v = f();
        return g;
    }

}  // namespace vh
