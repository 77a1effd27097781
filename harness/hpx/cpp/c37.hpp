// Arrays created by LUE itself: how they must be divided in partitions, and where these must be
#pragma once
#include "c32.hpp"
#include "lue/framework/algorithm/create_partitioned_array.hpp"
#include <set>

namespace vh {

    // Default partition shape if partition is empty
    template<typename E>
    auto created_layout(Case& c, Shape2 const& shape, Shape2 const& partition, Array2<E> const& array, int const nr_localities, std::string const& key) -> Layout
    {
        Layout l;
        l.shape = shape;
        l.partition = partition;
        for (int d = 0; d < 2; ++d) l.nr[d] = shape[d] / partition[d];
        VH_CHECK(c, array.localities().shape() == l.nr, "shape-in-partitions:" + key, std::format("{} in {} is divided in {} partitions", text(shape), text(partition), text(array.localities().shape())));
        auto const ids = hpx::find_all_localities();
        std::set<int> used;
        for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
        {
            auto const it = std::find(ids.begin(), ids.end(), array.localities()[p]);
            VH_CHECK(c, it != ids.end(), "unknown-locality:" + key, std::format("partition {} of {} in {}", p, text(shape), text(partition)));
            l.locality.push_back(static_cast<int>(it - ids.begin()));
            used.insert(l.locality.back());
        }
        if (l.nr_partitions() >= nr_localities)
            VH_CHECK(c, static_cast<int>(used.size()) == nr_localities, "unused-locality:" + key, std::format("{} partitions use {} of {} localities", l.nr_partitions(), used.size(), nr_localities));
        c.count("created.partitions", l.nr_partitions());
        if (used.size() > 1) c.count("created.multiple-localities");
        return l;
    }

    inline auto enough_partitions(Layout const& l, int const nr_localities) -> bool
    {
        return (lue::BuildOptions::build_qa && lue::BuildOptions::qa_with_tests) || l.nr_partitions() >= nr_localities;
    }

    // create(shape, partition shape, value(s)...) -> array; verify(layout, values)
    template<typename E, typename Create, typename Verify>
    void created(Case& c, std::string const& name, Create&& create, Verify&& verify)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        c.op(name, std::format("{} in {} on {}", text(l.shape), text(l.partition), nr));
        with_hpx(c, nr, [&] {
            if (!enough_partitions(l, nr))
            {
                bool refused = false;
                try
                {
                    create(l);
                }
                catch (std::runtime_error const&)
                {
                    refused = true;
                }
                VH_CHECK(c, refused, "not-enough-partitions:" + name, "an array with fewer partitions than localities was created");
                c.count("created.refused");
                return;
            }
            Array2<E> const array = create(l);
            Layout const observed = created_layout(c, l.shape, l.partition, array, nr, name);
            verify(observed, read_array(c, observed, array, name));
        });
    }

    // What LUE documents about arrays that are based on another one: everything but the values is the same
    template<typename R, typename E, typename F, typename Verify>
    void like(Case& c, std::string const& name, F&& operation, Verify&& verify, std::function<E(Case&)> value = random_value<E>)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<E>(c, l.shape, [&] { return value(c); });
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            std::optional<Array2<E>> x{make_array(c, l, a)};
            Array2<R> const result = operation(*x);
            bool const keep = c.rng.chance(50);
            if (!keep) x.reset();
            verify(l, a, read_array(c, l, result, name));
            if (keep) check_array(c, l, *x, a, "input:" + name);
            if (l.nr_partitions() > 1) c.count("created.partitioned");
        });
    }

    // Ready, or ready at some later moment
    template<typename E>
    auto late_value(Case& c, E const value) -> hpx::shared_future<E>
    {
        if (c.rng.chance(50)) return hpx::make_ready_future<E>(value).share();
        return hpx::async([value, n = c.rng.below(20)]() -> E {
                   for (std::uint64_t k = 0; k < n; ++k) hpx::this_thread::yield();
                   return value;
               })
            .share();
    }

}  // namespace vh
