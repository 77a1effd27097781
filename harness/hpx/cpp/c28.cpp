// C28: index conversions and curves visit each cell exactly once
#include "hpxcase.hpp"
#include "lue/framework/core/array_visitor.hpp"
#include "lue/framework/core/hilbert_curve.hpp"
#include "lue/framework/core/index_util.hpp"
#include "lue/framework/core/linear_curve.hpp"
#include "lue/framework/core/domain_decomposition.hpp"
#include "lue/framework/core/math.hpp"

namespace {

    struct Refused: std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    template<std::size_t rank>
    auto text(std::array<std::int64_t, rank> const& a)
    {
        std::string s;
        for (auto v : a) s += (s.empty() ? "" : "x") + std::to_string(v);
        return s;
    }

    auto extent(vh::Case& c, std::int64_t most) -> std::int64_t
    {
        switch (c.rng.below(5))
        {
            case 0: return 1;
            case 1: return c.rng.range(1, 4);
            default: return c.rng.range(1, most);
        }
    }

    // Row-major, computed by division only
    template<std::size_t rank>
    auto decompose(std::int64_t k, std::array<std::int64_t, rank> const& shape)
    {
        std::array<std::int64_t, rank> idx{};
        for (std::size_t d = rank; d > 0; --d)
        {
            idx[d - 1] = k % shape[d - 1];
            k /= shape[d - 1];
        }
        return idx;
    }

    template<std::size_t rank>
    void conversion(vh::Case& c)
    {
        using Shape = lue::Shape<lue::Count, rank>;
        Shape shape;
        std::int64_t total = 1;
        bool const large = c.rng.chance(40);
        for (auto& e : shape) total *= e = extent(c, large ? (rank == 1 ? 4000000000000 : rank == 2 ? 2000000 : 90000) : rank == 1 ? 3000 : rank == 2 ? 60 : 15);
        c.op(std::format("conversion-{}d", rank), text(shape));
        std::int64_t const n = large ? 400 : total;
        for (std::int64_t j = 0; j < n; ++j)
        {
            std::int64_t const k = !large ? j : j == 0 ? 0 : j == 1 ? total - 1 : static_cast<std::int64_t>(c.rng.below(total));
            auto const expected = decompose<rank>(k, shape);
            auto const idxs = lue::linear_idx_to_idxs<lue::Index, lue::Count, rank>(k, shape);
            VH_CHECK(c, idxs == expected, "linear-idx-to-idxs", std::format("cell {} of {}: {}, not {}", k, text(shape), text(idxs), text(expected)));
            VH_CHECK(c, (lue::idxs_to_linear_idx<lue::Index, lue::Count, rank>(expected, shape)) == k, "idxs-to-linear-idx", std::format("cell {} of {}", k, text(shape)));
            VH_CHECK(c, (lue::linear_to_shape_index<lue::Index, rank>(shape, k)) == expected, "linear-to-shape-index", std::format("cell {} of {}", k, text(shape)));
            VH_CHECK(c, lue::linear_idx(Shape{expected}, shape) == k, "linear-idx", std::format("cell {} of {}", k, text(shape)));
            c.count("cells.converted");
        }
    }

    template<std::size_t rank>
    struct Seen
    {
            vh::Case& c;
            lue::Shape<lue::Count, rank> shape;
            std::vector<unsigned char> seen;
            std::int64_t next{0};
            std::array<std::int64_t, rank> previous{};
            bool adjacent{true};
            std::int64_t longest{0};

            Seen(vh::Case& c_, lue::Shape<lue::Count, rank> const& s): c{c_}, shape{s}
            {
                std::int64_t n = 1;
                for (auto e : s) n *= e;
                seen.resize(n, 0);
            }

            auto visit(std::int64_t const idx, std::array<std::int64_t, rank> const& at, std::string const& key) -> std::int64_t
            {
                VH_CHECK(c, idx == next, key + ":count", std::format("{}: visit {} has index {}", text(shape), next, idx));
                std::int64_t k = 0, distance = 0;
                for (std::size_t d = 0; d < rank; ++d)
                {
                    VH_CHECK(c, at[d] >= 0 && at[d] < shape[d], key + ":outside", std::format("{}: {}", text(shape), text(at)));
                    k = k * shape[d] + at[d];
                    distance = std::max(distance, std::abs(at[d] - previous[d]));
                }
                VH_CHECK(c, seen[k] == 0, key + ":twice", std::format("{}: {}", text(shape), text(at)));
                seen[k] = 1;
                if (next > 0) longest = std::max(longest, distance);
                previous = at;
                ++next;
                return k;
            }

            void finish(std::string const& key)
            {
                VH_CHECK(c, next == static_cast<std::int64_t>(seen.size()), key + ":missed", std::format("{}: {} of {} cells visited", text(shape), next, seen.size()));
                c.count("cells.visited", next);
            }
    };

    template<std::size_t rank>
    void linear(vh::Case& c)
    {
        using Shape = lue::Shape<lue::Count, rank>;
        Shape shape;
        for (auto& e : shape) e = c.rng.chance(4) ? 0 : extent(c, rank == 1 ? 3000 : rank == 2 ? 70 : 18);
        c.op(std::format("linear-{}d", rank), text(shape));
        Seen<rank> seen{c, shape};
        lue::linear_curve<rank>(shape, [&](lue::Index idx, auto... at) {
            std::int64_t const k = seen.visit(idx, {at...}, "linear");
            VH_CHECK(c, k == idx, "linear:order", text(shape));
        });
        seen.finish("linear");
    }

    void hilbert(vh::Case& c)
    {
        lue::Shape<lue::Count, 2> shape{extent(c, 90), extent(c, 90)};
        if (c.rng.chance(5)) shape[c.rng.below(2)] = 0;
        c.op("hilbert", text(shape));
        Seen<2> seen{c, shape};
        lue::hilbert_curve<2>(shape, [&](lue::Index idx, lue::Index y, lue::Index x) { seen.visit(idx, {y, x}, "hilbert"); });
        seen.finish("hilbert");
        // Cells that follow each other along the curve are neighbours
        VH_CHECK(c, seen.longest <= 1, "hilbert:jump", std::format("{}: jump of {}", text(shape), seen.longest));
    }

    // Visit part of an array
    template<std::size_t rank>
    struct Visitor: lue::ArrayVisitor<lue::Shape<lue::Count, rank>>
    {
            using Shape = lue::Shape<lue::Count, rank>;
            vh::Case& c;
            Shape shape, begin, end;
            std::int64_t k{0};
            Visitor(vh::Case& c_, Shape const& s, Shape const& b, Shape const& e): lue::ArrayVisitor<Shape>{s}, c{c_}, shape{s}, begin{b}, end{e} {}
            void operator()()
            {
                Shape extent, expected;
                for (std::size_t d = 0; d < rank; ++d) extent[d] = end[d] - begin[d];
                expected = decompose<rank>(k++, extent);
                std::int64_t linear = 0;
                for (std::size_t d = 0; d < rank; ++d)
                {
                    expected[d] += begin[d];
                    linear = linear * shape[d] + expected[d];
                }
                VH_CHECK(c, this->cursor().current_cell() == expected, "visit:cell", std::format("{} [{}, {}>: {}", text(shape), text(begin), text(end), text(this->cursor().current_cell())));
                VH_CHECK(c, this->cursor().linear_idx() == linear, "visit:linear-index", text(shape));
            }
    };

    template<std::size_t rank>
    void visit(vh::Case& c)
    {
        using Shape = lue::Shape<lue::Count, rank>;
        Shape shape, begin, end;
        std::int64_t n = 1;
        for (std::size_t d = 0; d < rank; ++d)
        {
            shape[d] = extent(c, rank == 1 ? 2000 : rank == 2 ? 50 : 14);
            begin[d] = c.rng.below(shape[d]);
            end[d] = c.rng.range(begin[d] + 1, shape[d]);
            n *= end[d] - begin[d];
        }
        c.op(std::format("visit-{}d", rank), text(shape) + " " + text(begin) + " " + text(end));
        Visitor<rank> visitor{c, shape, begin, end};
        lue::visit_array(begin, end, visitor);
        VH_CHECK(c, visitor.k == n, "visit:number", text(shape));
        c.count("cells.visited", n);
    }

    void ranges(vh::Case& c)
    {
        std::int64_t const from_min = c.rng.chance(50) ? 0 : static_cast<std::int64_t>(c.rng.below(2000)) - 1000;
        std::int64_t const to_min = c.rng.chance(50) ? 0 : static_cast<std::int64_t>(c.rng.below(2000)) - 1000;
        std::int64_t const n = c.rng.range(1, 3000), m = c.rng.chance(70) ? c.rng.range(1, n) : c.rng.range(1, 3000);
        c.op("map-to-range", std::format("[{}, {}] [{}, {}]", from_min, from_min + n - 1, to_min, to_min + m - 1));
        std::vector<std::int64_t> hits(m, 0);
        std::int64_t previous = to_min;
        for (std::int64_t k = 0; k < n; ++k)
        {
            std::int64_t const y = lue::map_to_range(from_min, from_min + n - 1, to_min, to_min + m - 1, from_min + k);
            VH_CHECK(c, y >= to_min && y < to_min + m, "map-to-range:outside", std::format("{} of {} in {}: {}", k, n, m, y - to_min));
            VH_CHECK(c, y >= previous, "map-to-range:order", std::format("{} of {} in {}: {}", k, n, m, y - to_min));
            if (k == 0) VH_CHECK(c, y == to_min, "map-to-range:first", std::format("{} in {}: {}", n, m, y - to_min));
            if (k == n - 1 && m <= n) VH_CHECK(c, y == to_min + m - 1, "map-to-range:last", std::format("{} in {}: {}", n, m, y - to_min));
            ++hits[y - to_min];
            previous = y;
        }
        // Equal shares, but for rounding
        for (std::int64_t k = 0; k < m; ++k)
            VH_CHECK(c, hits[k] >= n / m - (n % m == 0 || n > m ? 1 : 0) && hits[k] <= n / m + 2, "map-to-range:share", std::format("{} of {} values end up in number {} of {}", hits[k], n, k, m));
        c.count("values.mapped", n);
    }

    template<std::size_t rank>
    void dispatch(vh::Case& c)
    {
        switch (c.rng.below(3))
        {
            case 0: conversion<rank>(c); break;
            case 1: linear<rank>(c); break;
            case 2: visit<rank>(c); break;
        }
    }

}  // namespace

int main(int argc, char** argv)
{
    vhpx::Scheduler::instance().report = [](char const* kind, std::string const& message) { throw Refused{std::string{kind} + ": " + message}; };
    vhpx::Scheduler::instance().start({});
    return vh::run(argc, argv, [](vh::Case& c) {
        c.nontrivial();
        try
        {
            switch (c.rng.below(5))
            {
                case 0: dispatch<1>(c); break;
                case 1: dispatch<2>(c); break;
                case 2: dispatch<3>(c); break;
                case 3: hilbert(c); break;
                case 4: ranges(c); break;
            }
        }
        catch (Refused const& e)
        {
            c.fail("assertion:" + c.last(), e.what());
        }
    });
}
