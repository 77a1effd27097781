#include "c32.hpp"
#include "lue/framework/algorithm/definition/clump.hpp"
#include "lue/framework/algorithm/value_policies/clump.hpp"
#include <map>
#include <set>

namespace {

    using namespace vh;

    // Patches, snakes, combs, spirals, checkerboards, noise
    template<typename Z>
    auto random_zones(Case& c, Shape2 const& s) -> Grid<Z>
    {
        Grid<Z> z{s};
        int const kind = static_cast<int>(c.rng.below(9));
        std::uint64_t const nr = c.rng.range(1, 4);
        Z const a = static_cast<Z>(c.rng.below(4)), b = static_cast<Z>(a + 1 + c.rng.below(3));
        auto const pick = [&] { return static_cast<Z>(c.rng.below(nr)); };
        std::int64_t const w = static_cast<std::int64_t>(c.rng.range(1, 3));
        bool const flip = c.rng.chance(50);
        auto const size = static_cast<std::int64_t>(c.rng.range(2, 7));
        Grid<Z> coarse{{s[0] / size + 1, s[1] / size + 1}};
        for (Z& v : coarse.values) v = pick();
        for (std::int64_t r = 0; r < s[0]; ++r)
            for (std::int64_t k = 0; k < s[1]; ++k)
            {
                std::int64_t const i = flip ? k : r, j = flip ? r : k, n = flip ? s[0] : s[1];
                switch (kind)
                {
                    case 0: z(r, k) = pick(); break;
                    case 1: z(r, k) = coarse(r / size, k / size); break;
                    // Walls with a gap at alternating ends
                    case 2: z(r, k) = i % (w + 1) == w && (i / (w + 1) % 2 == 0 ? j != n - 1 : j != 0) ? b : a; break;
                    // A comb
                    case 3: z(r, k) = i % (w + 1) == w && j != 0 ? b : a; break;
                    case 4: z(r, k) = (r + k) % 2 == 0 ? a : b; break;
                    // Rings
                    case 5: { auto const d = std::min({r, k, s[0] - 1 - r, s[1] - 1 - k}); z(r, k) = d % 2 == 0 || (d % 4 == 1 && r == d) ? a : b; break; }
                    // Set below
                    case 7: case 8: z(r, k) = b; break;
                    // Diagonal lines
                    default: z(r, k) = (flip ? r + k : r - k + 1000) % (w + 2) == 0 ? a : b; break;
                }
            }
        // A maze without cycles, in which cells are connected by long winding corridors. Several corridors when there
        // are multiple starting points.
        if (kind >= 7)
        {
            std::int64_t const step = kind == 7 ? 2 : 1 + w;
            for (int n = static_cast<int>(c.rng.range(1, 3)); n > 0; --n)
            {
                Shape2 at{static_cast<std::int64_t>(c.rng.below(s[0])) / step * step, static_cast<std::int64_t>(c.rng.below(s[1])) / step * step};
                std::vector<Shape2> stack{at};
                if (z(at[0], at[1]) == a) continue;
                z(at[0], at[1]) = a;
                while (!stack.empty())
                {
                    std::vector<Shape2> candidates;
                    for (auto const& [dr, dk] : std::array<Shape2, 4>{{{-step, 0}, {step, 0}, {0, -step}, {0, step}}})
                        if (z.inside(stack.back()[0] + dr, stack.back()[1] + dk) && z(stack.back()[0] + dr, stack.back()[1] + dk) != a) candidates.push_back({dr, dk});
                    if (candidates.empty() || c.rng.chance(3))
                    {
                        stack.pop_back();
                        continue;
                    }
                    auto const d = c.rng.pick(candidates);
                    auto at2 = stack.back();
                    for (std::int64_t i = 0; i < step; ++i)
                    {
                        at2 = {at2[0] + d[0] / step, at2[1] + d[1] / step};
                        z(at2[0], at2[1]) = a;
                    }
                    stack.push_back(at2);
                }
            }
        }
        unsigned const noise = c.rng.pick<unsigned>({0, 0, 2, 10, 30}), missing = c.rng.pick<unsigned>({0, 0, 2, 10, 40, 100});
        bool const walls = c.rng.chance(30);
        for (Z& v : z.values)
        {
            if (c.rng.chance(noise)) v = pick();
            if (c.rng.chance(missing) || (walls && v == b)) v = no_data<Z>();
        }
        return z;
    }

    template<typename Z>
    void clump(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr, sizeof(Z) == 1 ? 11 : c.rng.chance(20) ? 48 : 24);
        auto const zones = random_zones<Z>(c, l.shape);
        bool const diagonal = c.rng.chance(50);
        auto const connectivity = diagonal ? lue::Connectivity::diagonal : lue::Connectivity::nondiagonal;
        std::string const key = name + (diagonal ? "-diagonal" : "-nondiagonal");
        c.op(key, l.text());
        // Clumps: cells in the same zone that are connected
        Grid<int> expected{l.shape, -1};
        int nr_clumps = 0;
        for (std::int64_t i = 0; i < l.shape[0] * l.shape[1]; ++i)
        {
            if (expected.values[i] >= 0 || is_no_data(zones.values[i])) continue;
            std::vector<Shape2> stack{{i / l.shape[1], i % l.shape[1]}};
            expected.values[i] = nr_clumps;
            while (!stack.empty())
            {
                auto const [r, k] = stack.back();
                stack.pop_back();
                for (int dr = -1; dr <= 1; ++dr)
                    for (int dk = -1; dk <= 1; ++dk)
                        if ((diagonal || dr == 0 || dk == 0) && zones.inside(r + dr, k + dk) && expected(r + dr, k + dk) < 0 && zones(r + dr, k + dk) == zones.values[i])
                        {
                            expected(r + dr, k + dk) = nr_clumps;
                            stack.push_back({r + dr, k + dk});
                        }
            }
            ++nr_clumps;
        }
        with_hpx(c, nr, [&] {
            std::optional<Array2<Z>> x{make_array(c, l, zones)};
            Array2<Z> const result = lue::value_policies::clump(*x, connectivity);
            bool const keep = c.rng.chance(50);
            if (!keep) x.reset();
            auto const observed = read_array(c, l, result, key);
            std::vector<std::optional<Z>> id_of(nr_clumps);
            std::map<Z, int> clump_of;
            auto const cells = [&] {
                std::string s;
                if (l.shape[0] * l.shape[1] <= 60)
                    for (std::int64_t i = 0; i < l.shape[0] * l.shape[1]; ++i) s += (i % l.shape[1] == 0 ? "/" : " ") + (is_no_data(zones.values[i]) ? "." : show(zones.values[i]));
                return s;
            };
            for (std::int64_t i = 0; i < l.shape[0] * l.shape[1]; ++i)
            {
                Z const v = observed.values[i];
                int const clump = expected.values[i];
                auto const where = std::format("cell ({}, {}) of {}", i / l.shape[1], i % l.shape[1], l.text());
                if (clump < 0)
                {
                    VH_CHECK(c, is_no_data(v), "no-zone:" + key, where + " is not in a zone, but is in clump " + show(v) + cells());
                    continue;
                }
                VH_CHECK(c, !is_no_data(v), "no-clump:" + key, where + " is not in a clump" + cells());
                if (!id_of[clump]) id_of[clump] = v;
                VH_CHECK(c, *id_of[clump] == v, "clump-is-split:" + key, where + std::format(" is in clump {} instead of {}", show(v), show(*id_of[clump])) + cells());
                auto const [it, inserted] = clump_of.try_emplace(v, clump);
                VH_CHECK(c, it->second == clump, "clumps-are-merged:" + key, where + std::format(" has ID {} of another clump", show(v)) + cells());
            }
            c.count("cells.compared", l.shape[0] * l.shape[1]);
            c.count("clump.clumps", nr_clumps);
            c.count(diagonal ? "clump.diagonal" : "clump.nondiagonal");
            if (l.nr_partitions() > 1)
            {
                // Clumps that extend over multiple partitions
                std::vector<std::set<std::int64_t>> in(nr_clumps);
                for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
                    for (std::int64_t r = 0; r < l.extent(p)[0]; ++r)
                        for (std::int64_t k = 0; k < l.extent(p)[1]; ++k)
                            if (int const n = expected(l.offset(p)[0] + r, l.offset(p)[1] + k); n >= 0) in[n].insert(p);
                for (auto const& p : in) c.count("clump.crosses-partition", p.size() > 1);
            }
            if (keep) check_array(c, l, *x, zones, "input:" + key);
        });
    }

    VH_TEST("clump-int64", clump<std::int64_t>(c, n))
    VH_TEST("clump-int32", clump<std::int32_t>(c, n))
    VH_TEST("clump-uint8", clump<std::uint8_t>(c, n))

}  // namespace
