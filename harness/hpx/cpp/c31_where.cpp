#include "c31.hpp"
#include "lue/framework/algorithm/value_policies/where.hpp"
#include "lue/framework/algorithm/definition/where.hpp"
#include "lue/framework/algorithm/value_policies/reclassify.hpp"
#include "lue/framework/algorithm/definition/reclassify.hpp"

namespace {

    using namespace vh;

    template<typename C, typename E>
    void where_of(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const condition = random_grid<C>(c, l.shape, [&] { return c.rng.chance(70) ? static_cast<C>(c.rng.below(2)) : random_value<C>(c); });
        auto const yes = random_grid<E>(c, l.shape, [&] { return random_value<E>(c); });
        auto const no = random_grid<E>(c, l.shape, [&] { return random_value<E>(c); });
        E const a = random_value<E>(c), b = random_value<E>(c);
        int const form = static_cast<int>(c.rng.below(9));
        c.op(name, std::format("form={} {}", form, l.text()));
        auto expect = [&](auto&& when_true, auto&& when_false) {
            Grid<E> g{l.shape};
            for (std::size_t k = 0; k < g.values.size(); ++k)
                g.values[k] = is_no_data(condition.values[k]) ? no_data<E>() : condition.values[k] ? when_true(k) : when_false(k);
            return g;
        };
        auto const yes_array = [&](std::size_t k) { return yes.values[k]; };
        auto const no_array = [&](std::size_t k) { return no.values[k]; };
        auto const yes_value = [&](std::size_t) { return a; };
        auto const no_value = [&](std::size_t) { return b; };
        auto const none = [&](std::size_t) { return no_data<E>(); };
        with_hpx(c, nr, [&] {
            using lue::value_policies::where;
            Array2<C> const x = make_array(c, l, condition);
            Array2<E> const y = make_array(c, l, yes), z = make_array(c, l, no);
            auto delayed = [&](E const v) { return lue::Scalar<E>{hpx::async([v] { hpx::this_thread::yield(); return v; })}; };
            auto const [result, expected] = [&]() -> std::pair<Array2<E>, Grid<E>> {
                switch (form)
                {
                    case 0: return {where(x, y, z), expect(yes_array, no_array)};
                    case 1: return {where(x, y, delayed(b)), expect(yes_array, no_value)};
                    case 2: return {where(x, delayed(a), z), expect(yes_value, no_array)};
                    case 3: return {where(x, delayed(a), delayed(b)), expect(yes_value, no_value)};
                    case 4: return {where(x, y, b), expect(yes_array, no_value)};
                    case 5: return {where(x, a, z), expect(yes_value, no_array)};
                    case 6: return {where(x, y), expect(yes_array, none)};
                    case 7: return {where(x, delayed(a).future()), expect(yes_value, none)};
                    default: return {where(x, a), expect(yes_value, none)};
                }
            }();
            check_array(c, l, result, expected, name);
            check_array(c, l, x, condition, "input:" + name);
            check_array(c, l, y, yes, "input:" + name);
            check_array(c, l, z, no, "input:" + name);
        });
        c.count("local.where");
    }

    template<typename From, typename To>
    void reclassify_of(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<From>(c, l.shape, [&] { return random_value<From>(c); });
        std::map<From, To> table;
        for (std::uint64_t k = c.rng.below(40); k > 0; --k) table[random_value<From>(c)] = random_value<To>(c);
        bool const late = c.rng.chance(50);
        c.op(name, std::format("size={} {}", table.size(), l.text()));
        with_hpx(c, nr, [&] {
            Array2<From> const x = make_array(c, l, a);
            lue::LookupTable<From, To> lookup;
            for (auto const& [from, to] : table) lookup[from] = to;
            Grid<To> expected{l.shape};
            for (std::size_t k = 0; k < a.values.size(); ++k)
            {
                auto const it = table.find(a.values[k]);
                expected.values[k] = is_no_data(a.values[k]) || it == table.end() ? no_data<To>() : it->second;
            }
            Array2<To> const result = late ? lue::value_policies::reclassify(x, hpx::shared_future<lue::LookupTable<From, To>>{hpx::async([lookup] { hpx::this_thread::yield(); return lookup; })})
                                           : lue::value_policies::reclassify(x, lookup);
            check_array(c, l, result, expected, name);
            check_array(c, l, x, a, "input:" + name);
        });
        c.count("local.reclassify");
    }

    VH_TEST("where-double", (where_of<std::uint8_t, double>(c, n)))
    VH_TEST("where-int32", (where_of<std::int32_t, std::int32_t>(c, n)))
    VH_TEST("reclassify-int32-double", (reclassify_of<std::int32_t, double>(c, n)))
    VH_TEST("reclassify-uint8-uint8", (reclassify_of<std::uint8_t, std::uint8_t>(c, n)))

}  // namespace
