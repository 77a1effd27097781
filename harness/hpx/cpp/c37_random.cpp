#include "c37.hpp"
#include "lue/framework/algorithm/definition/cell_index.hpp"
#include "lue/framework/algorithm/definition/normal.hpp"
#include "lue/framework/algorithm/definition/uniform.hpp"
#include "lue/framework/algorithm/definition/unique_id.hpp"
#include "lue/framework/algorithm/default_policies/normal.hpp"
#include "lue/framework/algorithm/value_policies/cell_index.hpp"
#include "lue/framework/algorithm/value_policies/normal.hpp"
#include "lue/framework/algorithm/value_policies/uniform.hpp"
#include "lue/framework/algorithm/value_policies/unique_id.hpp"

namespace {

    using namespace vh;

    template<typename R, typename E>
    void cell_index(Case& c, std::string const& name)
    {
        int const dimension = static_cast<int>(c.rng.below(2));
        like<R, E>(c, name, [&](auto const& x) { return lue::value_policies::cell_index<R>(x, dimension); },
            [&](Layout const& l, Grid<E> const& a, Grid<R> const& observed) {
                Grid<R> expected{l.shape};
                for (std::int64_t r = 0; r < l.shape[0]; ++r)
                    for (std::int64_t k = 0; k < l.shape[1]; ++k) expected(r, k) = is_no_data(a(r, k)) || a(r, k) == 0 ? no_data<R>() : static_cast<R>(dimension == 0 ? r : k);
                compare_grids(c, l, observed, expected, name);
            },
            [](Case& k) { return k.rng.chance(20) ? E{0} : random_value<E>(k); });
    }

    template<typename R, typename E>
    void unique_id(Case& c, std::string const& name)
    {
        bool const all = c.rng.chance(30);
        like<R, E>(c, name, [&](auto const& x) { return lue::value_policies::unique_id<R>(x); },
            [&](Layout const& l, Grid<E> const& a, Grid<R> const& observed) {
                std::set<R> ids;
                for (std::size_t i = 0; i < a.values.size(); ++i)
                {
                    R const v = observed.values[i];
                    if (is_no_data(a.values[i])) VH_CHECK(c, is_no_data(v), "missing-condition:" + name, std::format("cell {} of {} has ID {}", i, l.text(), v));
                    else if (!a.values[i]) VH_CHECK(c, v == 0, "false-condition:" + name, std::format("cell {} of {} has ID {}", i, l.text(), v));
                    else
                    {
                        VH_CHECK(c, !is_no_data(v) && v > 0, "not-positive:" + name, std::format("cell {} of {} has ID {}", i, l.text(), v));
                        VH_CHECK(c, ids.insert(v).second, "not-unique:" + name, std::format("ID {} occurs more than once in {}", v, l.text()));
                    }
                }
                if (all) VH_CHECK(c, !ids.empty() && *ids.begin() == 1 && *ids.rbegin() == static_cast<R>(a.values.size()), "not-continuous:" + name, std::format("IDs of {} are [{}, {}]", l.text(), *ids.begin(), *ids.rbegin()));
                c.count("created.unique-ids", ids.size());
            },
            [all](Case& k) { return all ? static_cast<E>(k.rng.range(1, 9)) : k.rng.chance(20) ? E{0} : random_value<E>(k); });
    }

    template<typename R>
    void verify_uniform(Case& c, std::string const& name, Grid<R> const& observed, R const low, R const high)
    {
        std::set<R> values;
        for (R const v : observed.values)
        {
            if (is_no_data(low) || is_no_data(high))
            {
                VH_CHECK(c, is_no_data(v), "range-is-not-known:" + name, std::format("value {}", v));
                continue;
            }
            VH_CHECK(c, v >= low && (v < high || (v == high && (std::is_integral_v<R> || low == high))), "range:" + name, std::format("value {} is not in the range from {} to {}", v, low, high));
            values.insert(v);
        }
        if constexpr (std::is_same_v<R, double>)
            if (low < high) VH_CHECK(c, values.size() * 10 > observed.values.size() * 9, "not-random:" + name, std::format("{} values in {} cells", values.size(), observed.values.size()));
        c.count("created.random-values", values.size());
    }

    template<typename R>
    auto random_range(Case& c, bool const with_no_data) -> std::pair<R, R>
    {
        R low = static_cast<R>(c.rng.below(100)), high = static_cast<R>(low + c.rng.below(1000) + (std::is_integral_v<R> ? 0 : 1));
        if (std::is_signed_v<R> && c.rng.chance(50)) low = -low;
        if (with_no_data && c.rng.chance(20)) low = no_data<R>();
        else if (with_no_data && c.rng.chance(20)) high = no_data<R>();
        return {low, high};
    }

    template<typename R, typename E>
    void uniform_like(Case& c, std::string const& name)
    {
        auto const [low, high] = random_range<R>(c, true);
        bool const late = c.rng.chance(50);
        like<R, E>(c, name, [&](auto const& x) -> Array2<R> {
                if (late) return lue::value_policies::uniform<R>(x, lue::Scalar<R>{late_value(c, low)}, lue::Scalar<R>{late_value(c, high)});
                return lue::value_policies::uniform<R>(x, low, high);
            },
            [&](Layout const&, Grid<E> const&, Grid<R> const& observed) { verify_uniform(c, name, observed, low, high); });
    }

    template<typename R>
    void uniform(Case& c, std::string const& name)
    {
        auto const [low, high] = random_range<R>(c, true);
        bool const late = c.rng.chance(50);
        created<R>(c, name, [&](Layout const& l) -> Array2<R> {
                lue::Shape<lue::Count, 2> const shape{l.shape}, partition{l.partition};
                if (late) return lue::value_policies::uniform<R>(shape, partition, lue::Scalar<R>{late_value(c, low)}, lue::Scalar<R>{late_value(c, high)});
                return lue::value_policies::uniform<R>(shape, partition, low, high);
            },
            [&](Layout const&, Grid<R> const& observed) { verify_uniform(c, name, observed, low, high); });
    }

    template<typename R>
    void uniform_value(Case& c, std::string const& name)
    {
        auto const [low, high] = random_range<R>(c, true);
        bool const late = c.rng.chance(50);
        c.op(name, std::format("{} {}", low, high));
        with_hpx(c, 1, [&] {
            auto const result = late ? lue::value_policies::uniform<R>(lue::Scalar<R>{late_value(c, low)}, lue::Scalar<R>{late_value(c, high)}) : lue::value_policies::uniform<R>(low, high);
            verify_uniform(c, name, Grid<R>{{1, 1}, result.future().get()}, low, high);
        });
    }

    template<typename R>
    void verify_normal(Case& c, std::string const& name, Grid<R> const& observed, R const mean, R const stddev)
    {
        std::set<R> values;
        for (R const v : observed.values)
        {
            if (is_no_data(mean) || is_no_data(stddev) || !(stddev > 0))
            {
                VH_CHECK(c, is_no_data(v), "distribution-is-not-known:" + name, std::format("value {}", v));
                continue;
            }
            VH_CHECK(c, std::abs(v - mean) <= 12 * stddev, "range:" + name, std::format("value {} given mean {} and standard deviation {}", v, mean, stddev));
            values.insert(v);
        }
        if (std::is_same_v<R, double> && !values.empty())
            VH_CHECK(c, values.size() * 10 > observed.values.size() * 9, "not-random:" + name, std::format("{} values in {} cells", values.size(), observed.values.size()));
        c.count("created.random-values", values.size());
    }

    template<typename R>
    auto random_distribution(Case& c, bool const with_no_data) -> std::pair<R, R>
    {
        R mean = static_cast<R>(c.rng.below(200)) - 100, stddev = static_cast<R>(c.rng.below(1000) + 1) / 100;
        if (with_no_data) switch (c.rng.below(8))
        {
            case 0: mean = no_data<R>(); break;
            case 1: stddev = no_data<R>(); break;
            case 2: stddev = c.rng.pick<R>({0, -1}); break;
        }
        return {mean, stddev};
    }

    template<typename R, typename E>
    void normal_like(Case& c, std::string const& name)
    {
        auto const [mean, stddev] = random_distribution<R>(c, true);
        bool const late = c.rng.chance(50);
        like<R, E>(c, name, [&](auto const& x) -> Array2<R> {
                if (c.index() % 3 == 0 && stddev > 0 && !is_no_data(mean)) return lue::default_policies::normal(x, mean, stddev);
                if (late) return lue::value_policies::normal(x, lue::Scalar<R>{late_value(c, mean)}, lue::Scalar<R>{late_value(c, stddev)});
                return lue::value_policies::normal(x, mean, stddev);
            },
            [&](Layout const&, Grid<E> const&, Grid<R> const& observed) { verify_normal(c, name, observed, mean, stddev); });
    }

    template<typename R>
    void normal(Case& c, std::string const& name)
    {
        auto const [mean, stddev] = random_distribution<R>(c, true);
        bool const late = c.rng.chance(50);
        created<R>(c, name, [&](Layout const& l) -> Array2<R> {
                lue::Shape<lue::Count, 2> const shape{l.shape}, partition{l.partition};
                if (l.shape[0] == l.shape[1] && stddev > 0) return lue::default_policies::normal<R>(shape, partition, mean, stddev);
                if (late) return lue::value_policies::normal<R>(shape, partition, lue::Scalar<R>{late_value(c, mean)}, lue::Scalar<R>{late_value(c, stddev)});
                return lue::value_policies::normal<R>(shape, partition, mean, stddev);
            },
            [&](Layout const&, Grid<R> const& observed) { verify_normal(c, name, observed, mean, stddev); });
    }

    template<typename R>
    void normal_value(Case& c, std::string const& name)
    {
        auto const [mean, stddev] = random_distribution<R>(c, true);
        bool const late = c.rng.chance(50);
        c.op(name, std::format("{} {}", mean, stddev));
        with_hpx(c, 1, [&] {
            auto const result = late ? lue::value_policies::normal<R>(lue::Scalar<R>{late_value(c, mean)}, lue::Scalar<R>{late_value(c, stddev)}) : lue::value_policies::normal<R>(mean, stddev);
            verify_normal(c, name, Grid<R>{{1, 1}, result.future().get()}, mean, stddev);
        });
    }

    VH_TEST("cell_index-int64-uint8", cell_index<std::int64_t, std::uint8_t>(c, n))
    VH_TEST("cell_index-uint32-int32", cell_index<std::uint32_t, std::int32_t>(c, n))
    VH_TEST("unique_id-int64-uint8", unique_id<std::int64_t, std::uint8_t>(c, n))
    VH_TEST("unique_id-uint32-int32", unique_id<std::uint32_t, std::int32_t>(c, n))
    VH_TEST("uniform-like-double-int32", uniform_like<double, std::int32_t>(c, n))
    VH_TEST("uniform-like-int32-uint8", uniform_like<std::int32_t, std::uint8_t>(c, n))
    VH_TEST("uniform-float", uniform<float>(c, n))
    VH_TEST("uniform-uint64", uniform<std::uint64_t>(c, n))
    VH_TEST("uniform-value-double", uniform_value<double>(c, n))
    VH_TEST("uniform-value-int64", uniform_value<std::int64_t>(c, n))
    VH_TEST("normal-like-double-int32", normal_like<double, std::int32_t>(c, n))
    VH_TEST("normal-float", normal<float>(c, n))
    VH_TEST("normal-value-double", normal_value<double>(c, n))

}  // namespace
