// Flow of material along the cells of arrays, and where it must end up
#pragma once
#include "c32.hpp"
#include "lue/framework/algorithm/definition/accumulating_router.hpp"
#include <numeric>

using lue_CellsIdxs = std::vector<lue::Index>;

namespace vh {

    using Direction = std::uint8_t;

    inline constexpr Direction missing_direction{255};
    inline constexpr Direction sink{5};

    // Rows first. 7 8 9 / 4 5 6 / 1 2 3
    inline auto offset_of(Direction const d) -> Shape2 { return {1 - (d - 1) / 3, (d - 1) % 3 - 1}; }
    inline auto direction_to(std::int64_t const dr, std::int64_t const dc) -> Direction { return static_cast<Direction>((1 - dr) * 3 + dc + 2); }

    struct Network
    {
            Grid<Direction> direction;
            std::vector<std::int64_t> order;       // Valid cells, upstream cells first
            std::vector<std::int64_t> downstream;  // -1: none, or outside of the array
            std::vector<std::vector<std::int64_t>> upstream;

            explicit Network(Grid<Direction> d): direction{std::move(d)}, downstream(direction.values.size(), -1), upstream(direction.values.size())
            {
                Shape2 const s = direction.shape;
                std::vector<int> count(direction.values.size());
                for (std::int64_t i = 0; i < s[0] * s[1]; ++i)
                {
                    Direction const v = direction.values[i];
                    if (v == missing_direction || v == sink) continue;
                    auto const [dr, dc] = offset_of(v);
                    std::int64_t const r = i / s[1] + dr, k = i % s[1] + dc;
                    if (!direction.inside(r, k)) continue;
                    downstream[i] = r * s[1] + k;
                    upstream[r * s[1] + k].push_back(i);
                    ++count[r * s[1] + k];
                }
                for (std::int64_t i = 0; i < s[0] * s[1]; ++i)
                    if (direction.values[i] != missing_direction && count[i] == 0) order.push_back(i);
                for (std::size_t n = 0; n < order.size(); ++n)
                    if (std::int64_t const i = downstream[order[n]]; i >= 0 && --count[i] == 0) order.push_back(i);
            }
    };

    // Without cycles, and without cells that flow into cells without flow direction
    inline auto random_network(Case& c, Shape2 const& s) -> Network
    {
        Grid<Direction> d{s, sink};
        unsigned const missing = c.rng.pick<unsigned>({0, 0, 5, 30, 95});
        unsigned const sinks = c.rng.pick<unsigned>({0, 1, 10, 50});
        unsigned const leaving = c.rng.pick<unsigned>({0, 20, 100});
        // What cells flow towards: a lower cell
        Grid<double> height{s};
        int const kind = static_cast<int>(c.rng.below(6));
        auto const random = [&] { return static_cast<double>(c.rng.below(1000000)) / 1e6; };
        double const a = random() * 4 - 2, b = random() * 4 - 2, r0 = random() * s[0], k0 = random() * s[1];
        for (std::int64_t r = 0; r < s[0]; ++r)
            for (std::int64_t k = 0; k < s[1]; ++k)
            {
                double& h = height(r, k);
                switch (kind)
                {
                    case 0: h = 0; break;                                                       // Short streams everywhere
                    case 1: h = a * r + b * k; break;                                           // A slope
                    case 2: h = std::hypot(r - r0, k - k0); break;                              // A pit
                    case 3: h = -std::hypot(r - r0, k - k0); break;                             // A hill
                    case 4: h = 2 * (r * s[1] + (r % 2 ? s[1] - 1 - k : k)); break;             // A single stream, along the rows
                    case 5: h = -2 * (k * s[0] + (k % 2 ? s[0] - 1 - r : r)); break;            // A single stream, along the columns
                }
                h += random();
            }
        for (auto& v : d.values)
            if (c.rng.chance(missing)) v = missing_direction;
        std::vector<Direction> candidates, outside;
        for (std::int64_t r = 0; r < s[0]; ++r)
            for (std::int64_t k = 0; k < s[1]; ++k)
            {
                if (d(r, k) == missing_direction || c.rng.chance(sinks)) continue;
                candidates.clear(), outside.clear();
                Direction highest = sink;
                double h = -1e300;
                for (Direction v = 1; v <= 9; ++v)
                {
                    if (v == sink) continue;
                    auto const [dr, dc] = offset_of(v);
                    if (!d.inside(r + dr, k + dc)) outside.push_back(v);
                    else if (d(r + dr, k + dc) != missing_direction && height(r + dr, k + dc) < height(r, k))
                    {
                        candidates.push_back(v);
                        if (height(r + dr, k + dc) > h) h = height(r + dr, k + dc), highest = v;
                    }
                }
                if (!outside.empty() && (c.rng.chance(leaving) || candidates.empty())) d(r, k) = outside[c.rng.below(outside.size())];
                else if (!candidates.empty()) d(r, k) = kind >= 4 ? highest : candidates[c.rng.below(candidates.size())];
            }
        return Network{std::move(d)};
    }

    // Values whose sums are exact, some of which are missing or out of domain
    template<typename E>
    auto random_material(Case& c, Shape2 const& s, std::uint64_t const most) -> Grid<E>
    {
        unsigned const missing = c.rng.pick<unsigned>({0, 0, 1, 10}), negative = c.rng.pick<unsigned>({0, 0, 1});
        return random_grid<E>(c, s, [&]() -> E {
            if (c.rng.chance(missing)) return no_data<E>();
            if (c.rng.chance(negative)) return c.rng.pick<E>({-1, -std::numeric_limits<E>::infinity(), -std::numeric_limits<E>::denorm_min()});
            return static_cast<E>(c.rng.below(most + 1));
        });
    }

    inline void count_network(Case& c, Layout const& l, Network const& n)
    {
        auto const partition_of = [&](std::int64_t const i) {
            std::int64_t const r = i / l.shape[1], k = i % l.shape[1];
            return std::min(r / l.partition[0], l.nr[0] - 1) * l.nr[1] + std::min(k / l.partition[1], l.nr[1] - 1);
        };
        std::vector<std::int64_t> crossings(n.downstream.size());
        std::int64_t most{0};
        for (std::int64_t const i : n.order)
        {
            if (n.downstream[i] < 0) continue;
            bool const cross = partition_of(i) != partition_of(n.downstream[i]);
            if (cross) c.count("flow.crosses-partition");
            auto& m = crossings[n.downstream[i]];
            m = std::max(m, crossings[i] + (cross ? 1 : 0));
            most = std::max(most, m);
        }
        c.count("flow.cells", n.order.size());
        c.count("flow.most-crossings-along-a-stream", most);
    }

    // An argument that is an array or a scalar
    template<typename E>
    struct Argument
    {
            Grid<E> grid;
            std::optional<Array2<E>> array;
            std::optional<lue::Scalar<E>> scalar;

            Argument(Case& c, Layout const& l, Grid<E> g, bool const single): grid{std::move(g)}
            {
                if (single)
                {
                    grid = Grid<E>{l.shape, grid.values.front()};
                    E const v = grid.values.front();
                    if (c.rng.chance(50)) scalar.emplace(v);
                    else scalar.emplace(lue::Scalar<E>{hpx::make_ready_future<E>(v).share()});
                }
                else
                    array.emplace(make_array(c, l, grid));
            }
            void release() { array.reset(), scalar.reset(); }
            void check(Case& c, Layout const& l, std::string const& key) const
            {
                if (array) check_array(c, l, *array, grid, "input:" + key);
            }
    };

    // Called with layout, network and array with flow directions. Returns a function that checks results
    template<typename F>
    void flow(Case& c, std::string const& name, F&& f, std::int64_t const smallest = 1)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr, 24, smallest);
        Network const network = random_network(c, l.shape);
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            std::optional<Array2<Direction>> direction{make_array(c, l, network.direction)};
            bool const keep = c.rng.chance(50);
            f(l, network, direction, keep);
            if (direction) check_array(c, l, *direction, network.direction, "input:" + name);
            count_network(c, l, network);
        });
    }

    // split(inflow including what flows in from upstream, parameter) -> outflow, remainder
    template<typename E, typename F, typename S>
    void transport(Case& c, std::string const& name, F&& operation, std::uint64_t const most, E const scale, bool const limited, S&& split, double const tolerance = 0)
    {
        flow(c, name, [&](Layout const& l, Network const& n, auto& direction, bool const keep) {
            Argument<E> inflow{c, l, random_material<E>(c, l.shape, 10), c.rng.chance(25)};
            auto p = random_material<E>(c, l.shape, most);
            for (E& v : p.values)
                if (!is_no_data(v)) v *= scale;
            if (limited)
                for (E& v : p.values)
                    if (c.rng.chance(1) && c.rng.chance(20)) v = 1.25;
            Argument<E> parameter{c, l, std::move(p), c.rng.chance(25)};
            Grid<E> outflow{l.shape, no_data<E>()}, remainder{l.shape, no_data<E>()};
            for (std::int64_t const i : n.order)
            {
                E total = inflow.grid.values[i];
                E const v = parameter.grid.values[i];
                bool valid = total >= 0 && v >= 0 && (!limited || v <= 1);
                for (std::int64_t const u : n.upstream[i])
                {
                    valid = valid && !is_no_data(outflow.values[u]);
                    total += outflow.values[u];
                }
                if (valid) std::tie(outflow.values[i], remainder.values[i]) = split(total, v);
            }
            auto const results = [&] {
                if (inflow.array)
                {
                    if (parameter.array) return operation(*direction, *inflow.array, *parameter.array);
                    return operation(*direction, *inflow.array, *parameter.scalar);
                }
                if (parameter.array) return operation(*direction, *inflow.scalar, *parameter.array);
                return operation(*direction, *inflow.scalar, *parameter.scalar);
            }();
            if (!keep) direction.reset(), inflow.release(), parameter.release();
            bool const first = c.rng.chance(50);
            if (first) check_array(c, l, std::get<0>(results), outflow, name + ":outflow", tolerance);
            check_array(c, l, std::get<1>(results), remainder, name + ":remainder", tolerance);
            if (!first) check_array(c, l, std::get<0>(results), outflow, name + ":outflow", tolerance);
            inflow.check(c, l, name), parameter.check(c, l, name);
        });
    }

}  // namespace vh
