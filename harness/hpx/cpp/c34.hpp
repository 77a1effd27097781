// Aggregates, and what they must return: a function of the values in all cells of the array
#pragma once
#include "c32.hpp"
#include "lue/framework/algorithm/unary_aggregate_operation.hpp"
#include <set>

namespace vh {

    // Values that are no-data: none, some, all, or all of some partitions
    template<typename E>
    auto with_gaps(Case& c, Layout const& l, std::function<E(Case&)> const& value, bool const gaps = true) -> Grid<E>
    {
        auto g = random_grid<E>(c, l.shape, [&] { return value(c); });
        if (gaps)
        {
            unsigned const whole = c.rng.pick<unsigned>({0, 0, 40, 80, 100}), cell = c.rng.pick<unsigned>({0, 10, 90});
            for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
            {
                Shape2 const o = l.offset(p), s = l.extent(p);
                bool const empty = c.rng.chance(whole);
                for (std::int64_t i = 0; i < s[0]; ++i)
                    for (std::int64_t j = 0; j < s[1]; ++j)
                        if (empty || c.rng.chance(cell)) g(o[0] + i, o[1] + j) = no_data<E>();
            }
        }
        return g;
    }

    template<typename E>
    auto valid_values(Grid<E> const& g) -> std::vector<E>
    {
        std::vector<E> v;
        for (E const e : g.values)
            if (!is_no_data(e)) v.push_back(e);
        return v;
    }

    // expected(values which are not no-data), when there are any. Otherwise the result is no-data
    template<typename R, typename E, typename F, typename S>
    void aggregate(Case& c, std::string const& name, F&& operation, S&& spec, double const tolerance = 0, std::function<E(Case&)> value = moderate<E>)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = with_gaps<E>(c, l, value);
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            std::optional<Array2<E>> x{make_array(c, l, a)};
            lue::Scalar<R> result = operation(*x);
            bool const keep = c.rng.chance(50);
            if (!keep) x.reset();
            R const observed = result.future().get();
            auto const values = valid_values(a);
            R const expected = values.empty() ? no_data<R>() : static_cast<R>(spec(values));
            VH_CHECK(c, same(observed, expected, tolerance), name, std::format("{} of {} values of {} is {} instead of {}", name, values.size(), l.text(), show(observed), show(expected)));
            c.count("scalars.compared");
            c.count(values.empty() ? "aggregate.no-values" : values.size() < a.values.size() ? "aggregate.some-values" : "aggregate.all-values");
            if (l.nr_partitions() > 1) c.count("aggregate.partitioned");
            if (keep) check_array(c, l, *x, a, "input:" + name);
        });
    }

}  // namespace vh
