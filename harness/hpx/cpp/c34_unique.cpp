#include "c34.hpp"
#include "lue/framework/algorithm/value_policies/unique.hpp"
#include "lue/framework/algorithm/definition/unique.hpp"
#include "lue/framework/algorithm/partition_operation.hpp"
#include "lue/framework/algorithm/partition_count_unique.hpp"

namespace {

    using namespace vh;

    template<typename E>
    void unique_of(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = with_gaps<E>(c, l, moderate<E>);
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            std::optional<Array2<E>> x{make_array(c, l, a)};
            auto result = lue::value_policies::unique(*x);
            bool const keep = c.rng.chance(50);
            if (!keep) x.reset();
            auto const values = valid_values(a);
            std::set<E> const observed = result.get(), expected(values.begin(), values.end());
            VH_CHECK(c, observed == expected, name, std::format("{} unique values in {}, not {}", observed.size(), l.text(), expected.size()));
            c.count("unique.values", expected.size());
            if (keep) check_array(c, l, *x, a, "input:" + name);
        });
    }

    // One cell per partition, where the partition is
    template<typename R, typename E>
    void count_of(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = with_gaps<E>(c, l, moderate<E>);
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            std::optional<Array2<E>> x{make_array(c, l, a)};
            using Policies = lue::policy::partition_count_unique::DefaultValuePolicies<R, E>;
            auto const result = lue::partition_count_unique<Policies, E, R>(Policies{}, *x);
            bool const keep = c.rng.chance(50);
            if (!keep) x.reset();
            Layout m = l;
            m.shape = l.nr;
            m.partition = {1, 1};
            Grid<R> expected{m.shape};
            for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
            {
                Shape2 const o = l.offset(p), s = l.extent(p);
                std::set<E> values;
                for (std::int64_t i = 0; i < s[0]; ++i)
                    for (std::int64_t j = 0; j < s[1]; ++j)
                        if (!is_no_data(a(o[0] + i, o[1] + j))) values.insert(a(o[0] + i, o[1] + j));
                expected.values[p] = values.empty() ? no_data<R>() : static_cast<R>(values.size());
            }
            check_array(c, m, result, expected, name);
            c.count("unique.partitions", l.nr_partitions());
            if (keep) check_array(c, l, *x, a, "input:" + name);
        });
    }

    VH_TEST("unique-int32", unique_of<std::int32_t>(c, n))
    VH_TEST("unique-uint8", unique_of<std::uint8_t>(c, n))
    VH_TEST("partition_count_unique-int64", (count_of<std::uint64_t, std::int64_t>(c, n)))
    VH_TEST("partition_count_unique-double", (count_of<std::int32_t, double>(c, n)))

}  // namespace
