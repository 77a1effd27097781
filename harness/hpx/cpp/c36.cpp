// C36: routes along the cells of arrays
#include "c34.hpp"
#include "lue/framework/partitioned_route/server/serial_route_partition_impl.hpp"
#include "lue/framework/partitioned_route/serial_route_partition_impl.hpp"
#include "lue/framework/algorithm/value_policies/decreasing_order.hpp"
#include "lue/framework/algorithm/definition/decreasing_order.hpp"
#include "lue/framework/algorithm/value_policies/first_n.hpp"
#include "lue/framework/algorithm/definition/first_n.hpp"
#include <map>

namespace {

    using namespace vh;

    // Routes as the monitor knows them: cells, in order
    using Cells = std::vector<Shape2>;

    template<typename R>
    auto read_routes(Case& c, Layout const& l, lue::SerialRoute<R, 2> const& route, std::string const& key) -> std::map<R, Cells>
    {
        VH_CHECK(c, route.valid() && route.shape() == l.shape && route.partitions().shape() == l.nr, "shape:" + key, "shape of route differs");
        std::map<hpx::id_type, std::int64_t> where;
        std::vector<std::set<R>> ids(l.nr_partitions());
        std::int64_t nr_fragments{0};
        auto starts = route.starts().get();
        for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
        {
            auto const& partition = route.partitions()[p];
            partition.wait();
            where[partition.get_id()] = p;
            VH_CHECK(c, partition.offset().get() == l.offset(p), "offset:" + key, std::format("partition {} of {}", p, l.text()));
            VH_CHECK(c, partition.shape().get() == l.extent(p), "partition-shape:" + key, std::format("partition {} of {}", p, l.text()));
            VH_CHECK(c, partition.get_id().vhpx_locality() == l.locality[p], "locality:" + key, std::format("partition {} of {}", p, l.text()));
            ids[p] = partition.route_ids().get();
            VH_CHECK(c, partition.nr_routes().get() == static_cast<std::int64_t>(ids[p].size()), "number-of-routes:" + key, std::format("partition {}", p));
            nr_fragments += partition.nr_route_fragments().get();
        }
        VH_CHECK(c, route.nr_routes() == static_cast<std::int64_t>(starts.size()), "number-of-routes:" + key, "number of routes differs");
        std::map<R, Cells> result;
        std::int64_t visited{0};
        for (auto const& [id, start] : starts)
        {
            std::map<std::int64_t, std::size_t> next;
            auto location = start.get();
            Cells& cells = result[id];
            while (true)
            {
                VH_CHECK(c, where.contains(location), "next:" + key, std::format("route {} continues elsewhere", id));
                std::int64_t const p = where[location];
                VH_CHECK(c, ids[p].contains(id), "next:" + key, std::format("route {} continues in partition {}, where it is not known", id, p));
                auto const fragments = route.partitions()[p].route_fragments(id).get();
                VH_CHECK(c, next[p] < fragments.size(), "next:" + key, std::format("route {} visits partition {} more often than there are fragments", id, p));
                auto const& fragment = fragments[next[p]++];
                ++visited;
                for (std::int64_t const i : fragment.cell_idxs())
                {
                    Shape2 const o = l.offset(p), s = l.extent(p);
                    VH_CHECK(c, i >= 0 && i < s[0] * s[1], "cell:" + key, std::format("cell {} in partition {} of {}", i, p, l.text()));
                    cells.push_back({o[0] + i / s[1], o[1] + i % s[1]});
                }
                if (fragment.is_last()) break;
                location = fragment.next_fragment_location().get();
            }
        }
        VH_CHECK(c, visited == nr_fragments, "fragments:" + key, std::format("{} fragments exist, and {} are part of routes", nr_fragments, visited));
        c.count("route.fragments", visited);
        return result;
    }

    // Partitions refer to each other
    template<typename R>
    void release(lue::SerialRoute<R, 2> const& route)
    {
        using Holder = vhpx::Holder<lue::server::SerialRoutePartition<R, 2>>;
        for (auto const& partition : route.partitions())
        {
            auto const id = partition.get_id();
            dynamic_cast<Holder&>(*id.vhpx_object()).server->set_route_fragments({});
        }
    }

    template<typename R, typename V>
    void check_routes(Case& c, Layout const& l, std::map<R, Cells> const& routes, Grid<R> const& zones, Grid<V> const& values, std::int64_t const most, std::string const& key)
    {
        std::map<R, std::vector<V>> expected;
        for (std::size_t i = 0; i < values.values.size(); ++i)
            if (!is_no_data(zones.values[i]) && !is_no_data(values.values[i])) expected[zones.values[i]].push_back(values.values[i]);
        VH_CHECK(c, routes.size() == expected.size(), "routes:" + key, std::format("{} routes instead of {} in {}", routes.size(), expected.size(), l.text()));
        for (auto& [id, sorted] : expected)
        {
            std::sort(sorted.begin(), sorted.end(), std::greater<V>{});
            if (static_cast<std::int64_t>(sorted.size()) > most) sorted.resize(most);
            auto const it = routes.find(id);
            VH_CHECK(c, it != routes.end(), "routes:" + key, std::format("zone {} has no route", id));
            Cells const& cells = it->second;
            VH_CHECK(c, cells.size() == sorted.size(), "length:" + key, std::format("route {} has {} cells instead of {} in {}", id, cells.size(), sorted.size(), l.text()));
            std::set<Shape2> const distinct(cells.begin(), cells.end());
            VH_CHECK(c, distinct.size() == cells.size(), "twice:" + key, std::format("route {} visits a cell more than once", id));
            for (std::size_t k = 0; k < cells.size(); ++k)
            {
                VH_CHECK(c, zones(cells[k][0], cells[k][1]) == id, "zone:" + key, std::format("route {} visits cell {} of zone {}", id, text(cells[k]), zones(cells[k][0], cells[k][1])));
                VH_CHECK(c, values(cells[k][0], cells[k][1]) == sorted[k], "order:" + key,
                         std::format("cell {} of route {} has value {} instead of {} in {}", k, id, values(cells[k][0], cells[k][1]), sorted[k], l.text()));
            }
            c.count("route.cells", cells.size());
        }
        c.count("routes", expected.size());
    }

    template<typename R, typename V>
    void order(Case& c, std::string const& name, bool const zonal)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr, 16);
        auto const sign = c.rng.pick<int>({0, 0, 1, -1});
        auto const values = with_gaps<V>(c, l, [&](Case& c) -> V {
            V const v = moderate<V>(c);
            return is_no_data(v) ? v : sign == 0 ? v : static_cast<V>(sign) * static_cast<V>(v < 0 ? -v : v);
        });
        R const only = R{1};
        std::uint64_t const nr_zones = c.rng.pick<std::uint64_t>({1, 2, 3, 20});
        bool const blocks = c.rng.chance(50);
        Grid<R> zones{l.shape, only};
        if (zonal)
            for (std::int64_t r = 0; r < l.shape[0]; ++r)
                for (std::int64_t k = 0; k < l.shape[1]; ++k)
                    zones(r, k) = c.rng.chance(8) ? no_data<R>() : static_cast<R>(blocks ? (r / 5 + k / 3) % nr_zones : c.rng.below(nr_zones));
        std::int64_t const size = l.shape[0] * l.shape[1];
        bool const limited = c.rng.chance(50);
        std::int64_t const most = limited ? static_cast<std::int64_t>(c.rng.chance(15) ? c.rng.below(3) : c.rng.below(size + 3)) : std::numeric_limits<std::int64_t>::max();
        std::int64_t const n = static_cast<std::int64_t>(c.rng.chance(20) ? c.rng.below(2) : c.rng.below(size + 3));
        c.op(name, std::format("zonal={} zones={} most={} n={} {}", zonal, nr_zones, limited ? most : -1, n, l.text()));
        with_hpx(c, nr, [&] {
            std::optional<Array2<V>> x{make_array(c, l, values)};
            std::optional<Array2<R>> z;
            if (zonal) z = make_array(c, l, zones);
            auto const route = zonal ? limited ? lue::value_policies::decreasing_order(*z, *x, most) : lue::value_policies::decreasing_order(*z, *x)
                                     : limited ? lue::value_policies::decreasing_order<R>(*x, most) : lue::value_policies::decreasing_order<R>(*x);
            bool const keep = c.rng.chance(50);
            if (!keep) x.reset(), z.reset();
            std::optional<Array2<std::uint64_t>> first;
            bool const early = c.rng.chance(50);
            auto walk = [&] { first = lue::value_policies::first_n<std::uint64_t>(route, n); };
            if (early) walk();
            auto routes = read_routes(c, l, route, name);
            if (!zonal && !routes.empty())
            {
                VH_CHECK(c, routes.size() == 1, "routes:" + name, "more than a single route");
                std::map<R, Cells> r;
                r[only] = routes.begin()->second;
                routes = r;
            }
            check_routes(c, l, routes, zones, values, most, name);
            if (!early) walk();
            Grid<std::uint64_t> expected{l.shape, no_data<std::uint64_t>()};
            for (auto const& [id, cells] : routes)
                for (std::size_t k = 0; k < cells.size() && static_cast<std::int64_t>(k) < n; ++k) expected(cells[k][0], cells[k][1]) = 1;
            check_array(c, l, *first, expected, "first_n:" + name);
            c.count("routes.walked", routes.size());
            first.reset();
            if (keep) check_array(c, l, *x, values, "input:" + name);
            if (keep && zonal) check_array(c, l, *z, zones, "input:" + name);
            release(route);
        });
    }

    VH_TEST("decreasing_order-zonal-double", (order<std::uint64_t, double>(c, n, true)))
    VH_TEST("decreasing_order-double", (order<std::uint64_t, double>(c, n, false)))

}  // namespace

int main(int argc, char** argv) { return vh::run_tests(argc, argv); }
