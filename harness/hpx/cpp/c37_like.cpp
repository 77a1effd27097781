#include "c37.hpp"
#include "lue/framework/algorithm/array_like.hpp"
#include "lue/framework/algorithm/array_partition_id.hpp"
#include "lue/framework/algorithm/copy.hpp"
#include "lue/framework/algorithm/fill.hpp"
#include "lue/framework/algorithm/locality_id.hpp"
#include "lue/framework/algorithm/mesh_grid.hpp"
#include "lue/framework/algorithm/range.hpp"
#include "lue/framework/algorithm/timestamp.hpp"

namespace {

    using namespace vh;

    template<typename R, typename E>
    void array_like(Case& c, std::string const& name)
    {
        R const value = random_value<R>(c);
        unsigned const how = c.rng.below(3);
        like<R, E>(c, name, [&](auto const& x) -> Array2<R> {
                if (how == 0) return lue::array_like<R>(x, value);
                using Policies = lue::policy::array_like::DefaultValuePolicies<R, E>;
                if (how == 1) return lue::array_like<R>(Policies{}, x, value);
                return lue::array_like<R>(Policies{}, x, late_value(c, value));
            },
            [&](Layout const& l, Grid<E> const&, Grid<R> const& observed) { compare_grids(c, l, observed, Grid<R>{l.shape, value}, name); });
    }

    template<typename R, typename E>
    void partition_id(Case& c, std::string const& name)
    {
        like<R, E>(c, name, [&](auto const& x) { return lue::array_partition_id<R>(x); },
            [&](Layout const& l, Grid<E> const&, Grid<R> const& observed) {
                Grid<R> expected{l.shape};
                for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
                    for (std::int64_t i = 0; i < l.extent(p)[0]; ++i)
                        for (std::int64_t j = 0; j < l.extent(p)[1]; ++j) expected(l.offset(p)[0] + i, l.offset(p)[1] + j) = static_cast<R>(p);
                compare_grids(c, l, observed, expected, name);
            });
    }

    // A cell per partition
    template<typename R, typename E, typename F, typename Verify>
    void per_partition(Case& c, std::string const& name, F&& operation, Verify&& verify)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<E>(c, l.shape, [&] { return random_value<E>(c); });
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            std::optional<Array2<E>> x{make_array(c, l, a)};
            Array2<R> const result = operation(*x);
            if (c.rng.chance(50)) x.reset();
            Layout cells;
            cells.shape = cells.nr = l.nr;
            cells.partition = {1, 1};
            cells.locality = l.locality;
            verify(l, cells, read_array(c, cells, result, name));
            if (x) check_array(c, l, *x, a, "input:" + name);
        });
    }

    template<typename E>
    void locality_id(Case& c, std::string const& name)
    {
        per_partition<std::uint32_t, E>(c, name, [](auto const& x) { return lue::locality_id(x); },
            [&](Layout const& l, Layout const& cells, Grid<std::uint32_t> const& observed) {
                Grid<std::uint32_t> expected{cells.shape};
                for (std::int64_t p = 0; p < l.nr_partitions(); ++p) expected.values[p] = l.locality[p];
                compare_grids(c, cells, observed, expected, name);
            });
    }

    template<typename E>
    void timestamp(Case& c, std::string const& name)
    {
        auto const now = [] { return std::chrono::high_resolution_clock::now().time_since_epoch().count(); };
        auto const before = now();
        per_partition<lue::ClockTick, E>(c, name, [](auto const& x) { return lue::timestamp(x); },
            [&](Layout const&, Layout const&, Grid<lue::ClockTick> const& observed) {
                auto const after = now();
                for (auto const t : observed.values) VH_CHECK(c, t >= before && t <= after, name, std::format("{} is not within [{}, {}]", t, before, after));
            });
    }

    // A copy is independent of the original
    template<typename E>
    void copy(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<E>(c, l.shape, [&] { return random_value<E>(c); });
        E const value = random_value<E>(c);
        bool const policies = c.rng.chance(50), fill_copy = c.rng.chance(50);
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            auto x = make_array(c, l, a);
            using Policies = lue::policy::copy::DefaultValuePolicies<E>;
            Array2<E> y = policies ? lue::copy(Policies{}, x) : lue::copy(x);
            if (c.rng.chance(50))
                for (auto& p : y.partitions()) p.wait();  // Otherwise the order of copying and filling is not defined
            else
                check_array(c, l, y, a, name);
            (c.rng.chance(50) ? lue::fill(fill_copy ? y : x, value) : lue::fill(fill_copy ? y : x, late_value(c, value))).get();
            Grid<E> const changed{l.shape, value};
            check_array(c, l, y, fill_copy ? changed : a, name);
            check_array(c, l, x, fill_copy ? a : changed, "input:" + name);
            c.count("created.filled");
        });
    }

    template<typename E>
    void range(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<E>(c, l.shape, [&] { return random_value<E>(c); });
        E const start = static_cast<E>(c.rng.below(1000));
        bool const late = c.rng.chance(50);
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            auto x = make_array(c, l, a);
            auto done = late ? lue::range(x, late_value(c, start)) : lue::range(x, start);
            done.get();
            Grid<E> expected{l.shape};
            for (std::size_t i = 0; i < expected.values.size(); ++i) expected.values[i] = start + static_cast<E>(i);
            check_array(c, l, x, expected, name);
        });
    }

    template<typename R, typename E>
    void mesh_grid(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<E>(c, l.shape, [&] { return random_value<E>(c); });
        R const first = static_cast<R>(c.rng.below(200)), step = static_cast<R>(c.rng.below(7));
        bool const late = c.rng.chance(50);
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            std::optional<Array2<E>> x{make_array(c, l, a)};
            auto const result = late ? lue::mesh_grid<E, R, 2>(*x, late_value(c, first), late_value(c, step)) : lue::mesh_grid<E, R, 2>(*x, first, step);
            if (c.rng.chance(50)) x.reset();
            for (int d = 0; d < 2; ++d)
            {
                Grid<R> expected{l.shape};
                for (std::int64_t r = 0; r < l.shape[0]; ++r)
                    for (std::int64_t k = 0; k < l.shape[1]; ++k) expected(r, k) = static_cast<R>(first + (d == 0 ? r : k) * step);
                check_array(c, l, result[d], expected, name);
            }
            if (x) check_array(c, l, *x, a, "input:" + name);
        });
    }

    VH_TEST("array_like-double-uint8", array_like<double, std::uint8_t>(c, n))
    VH_TEST("array_like-uint8-float", array_like<std::uint8_t, float>(c, n))
    VH_TEST("array_partition_id-uint64-float", partition_id<std::uint64_t, float>(c, n))
    VH_TEST("locality_id-int32", locality_id<std::int32_t>(c, n))
    VH_TEST("timestamp-int32", timestamp<std::int32_t>(c, n))
    VH_TEST("copy-double", copy<double>(c, n))
    VH_TEST("copy-int32", copy<std::int32_t>(c, n))
    VH_TEST("range-int64", range<std::int64_t>(c, n))
    VH_TEST("range-uint32", range<std::uint32_t>(c, n))
    VH_TEST("mesh_grid-int64-uint8", mesh_grid<std::int64_t, std::uint8_t>(c, n))
    VH_TEST("mesh_grid-double-int32", mesh_grid<double, std::int32_t>(c, n))

}  // namespace
