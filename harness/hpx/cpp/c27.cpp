// C27: partitioning an array loses and duplicates nothing
#include "hpxcase.hpp"
#include "lue/framework/core/domain_decomposition.hpp"
#include "lue/framework/core/hyperslab.hpp"
#include "lue/framework/core/erase.hpp"
#include <bitset>

namespace {

    struct Refused: std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    template<std::size_t rank>
    auto text(std::array<std::int64_t, rank> const& a)
    {
        std::string s;
        for (auto v : a) s += (s.empty() ? "" : "x") + std::to_string(v);
        return s;
    }

    template<std::size_t rank, typename F>
    void each(std::array<std::int64_t, rank> const& shape, F&& f)
    {
        std::array<std::int64_t, rank> idx{};
        for (auto e : shape)
            if (e <= 0) return;
        for (;;)
        {
            f(idx);
            std::size_t d = rank;
            while (d > 0)
            {
                if (++idx[d - 1] < shape[d - 1]) break;
                idx[d - 1] = 0;
                --d;
            }
            if (d == 0) return;
        }
    }

    auto extent(vh::Case& c, std::int64_t most) -> std::int64_t
    {
        switch (c.rng.below(5))
        {
            case 0: return 1;
            case 1: return c.rng.range(1, 4);
            default: return c.rng.range(1, most);
        }
    }

    // The number of partitions along an axis, and where each begins and ends
    template<std::size_t rank>
    void tiling(vh::Case& c)
    {
        using Shape = lue::Shape<lue::Count, rank>;
        std::int64_t const most = rank == 1 ? 4000 : rank == 2 ? 120 : 24;
        Shape array_shape, partition_shape;
        bool const may_be_wrong = c.rng.chance(15);
        bool fits = true;
        for (std::size_t d = 0; d < rank; ++d)
        {
            array_shape[d] = extent(c, most);
            partition_shape[d] = may_be_wrong ? static_cast<std::int64_t>(c.rng.below(most + 5)) : c.rng.range(1, array_shape[d]);
            if (may_be_wrong && c.rng.chance(20)) array_shape[d] = 0;
            if (partition_shape[d] > array_shape[d] || partition_shape[d] == 0 || array_shape[d] == 0) fits = false;
        }
        c.op(std::format("partition-shapes-{}d", rank), text(array_shape) + " in " + text(partition_shape));
        if (!fits)
        {
            c.throws("partition-shapes:accepted", text(array_shape) + " in partitions of " + text(partition_shape),
                     [&] { lue::partition_shapes<lue::Count, rank>(array_shape, partition_shape); });
            c.count("refused");
            return;
        }
        auto const shapes = lue::partition_shapes<lue::Count, rank>(array_shape, partition_shape);
        Shape nr{};
        std::int64_t total = 1;
        for (std::size_t d = 0; d < rank; ++d)
        {
            nr[d] = array_shape[d] / partition_shape[d];
            total *= array_shape[d];
        }
        VH_CHECK(c, shapes.shape() == nr, "partition-shapes:number", std::format("{} in {}: {} partitions, not {}", text(array_shape), text(partition_shape), text(shapes.shape()), text(nr)));
        std::vector<unsigned char> seen(total, 0);
        std::int64_t k = 0;
        each<rank>(nr, [&](Shape const& p) {
            Shape const& s = shapes[k++];
            bool const same = [&]<std::size_t... d>(std::index_sequence<d...>) { return shapes(p[d]...) == s; }(std::make_index_sequence<rank>{});
            VH_CHECK(c, same, "partition-shapes:order", "element differs by linear and by other indices");
            for (std::size_t d = 0; d < rank; ++d)
            {
                std::int64_t const expected = p[d] + 1 < nr[d] ? partition_shape[d] : array_shape[d] - p[d] * partition_shape[d];
                VH_CHECK(c, s[d] == expected, "partition-shapes:extent", std::format("{} in {}: partition {} has shape {}", text(array_shape), text(partition_shape), text(p), text(s)));
                VH_CHECK(c, s[d] >= partition_shape[d] && s[d] < 2 * partition_shape[d], "partition-shapes:bounds", text(s));
            }
            each<rank>(s, [&](Shape const& i) {
                std::int64_t at = 0;
                for (std::size_t d = 0; d < rank; ++d)
                {
                    std::int64_t const x = p[d] * partition_shape[d] + i[d];
                    VH_CHECK(c, x < array_shape[d], "partition-shapes:outside", text(array_shape));
                    at = at * array_shape[d] + x;
                }
                ++seen[at];
            });
            c.count("partitions");
        });
        for (auto n : seen) VH_CHECK(c, n == 1, "partition-shapes:tiling", std::format("{} in {}: a cell is in {} partitions", text(array_shape), text(partition_shape), int(n)));
        c.count("cells", total);
    }

    template<std::size_t rank>
    void division(vh::Case& c)
    {
        using Shape = lue::Shape<std::int64_t, rank>;
        for (int k = 0; k < 50; ++k)
        {
            Shape area, partition, nr, clamped;
            std::int64_t total = 1, product = 1;
            for (std::size_t d = 0; d < rank; ++d)
            {
                std::int64_t const most = c.rng.chance(50) ? 50 : 2000000;
                area[d] = c.rng.below(most);
                partition[d] = c.rng.chance(30) && area[d] > 0 ? std::max<std::int64_t>(1, area[d] / c.rng.range(1, 9)) : c.rng.range(1, most);
                nr[d] = (area[d] + partition[d] - 1) / partition[d];
                clamped[d] = nr[d] * partition[d];
                total *= nr[d];
            }
            c.op("division", text(area) + " in " + text(partition));
            VH_CHECK(c, (lue::shape_in_partitions<std::int64_t, rank>(area, partition) == nr), "shape-in-partitions", text(area) + " in " + text(partition));
            VH_CHECK(c, (static_cast<std::int64_t>(lue::nr_partitions<std::int64_t, rank>(area, partition)) == total), "nr-partitions", text(area) + " in " + text(partition));
            VH_CHECK(c, (lue::clamp_area_shape<std::int64_t, rank>(area, partition) == clamped), "clamp-area-shape", text(area) + " in " + text(partition));
            (void)product;
            c.count("divisions");
        }
    }

    template<std::size_t rank>
    void default_shape(vh::Case& c)
    {
        using Shape = lue::Shape<lue::Count, rank>;
        for (int k = 0; k < 30; ++k)
        {
            Shape area;
            for (auto& e : area)
            {
                std::int64_t const most = rank == 1 ? 2000000000 : c.rng.pick<std::int64_t>({3, 50, 3000, 100000, rank == 2 ? 3000000 : 1000000});
                e = c.rng.range(rank == 1 || !c.rng.chance(2) ? 1 : 0, most);
            }
            std::int64_t const nr_threads = c.rng.chance(20) ? 1 : c.rng.range(1, 130);
            c.op("default-partition-shape", std::format("{} threads={}", text(area), nr_threads));
            Shape const shape = lue::default_partition_shape<lue::Count, rank>(area, nr_threads);
            bool empty = false;
            for (auto e : area) empty = empty || e == 0;
            if (nr_threads == 1 || empty)
            {
                VH_CHECK(c, shape == area, "default-partition-shape:single", text(area));
                continue;
            }
            for (std::size_t d = 0; d < rank; ++d)
            {
                VH_CHECK(c, shape[d] == shape[0], "default-partition-shape:square", std::format("{} for {} threads: {}", text(area), nr_threads, text(shape)));
                VH_CHECK(c, shape[d] >= 1 && shape[d] <= area[d], "default-partition-shape:fits", std::format("{} for {} threads: {}", text(area), nr_threads, text(shape)));
            }
            c.count("defaults");
        }
    }

    template<std::size_t rank>
    void max_shape(vh::Case& c)
    {
        using Shape = lue::Shape<std::int64_t, rank>;
        bool const may_be_thin = c.rng.chance(5);
        for (int k = 0; k < 30; ++k)
        {
            Shape area;
            std::int64_t total = 1;
            for (auto& e : area) total *= e = extent(c, 300);
            std::int64_t const nr = c.rng.range(1, c.rng.chance(50) ? std::min<std::int64_t>(total, 40) : total);
            auto const per_dimension = static_cast<std::int64_t>(std::ceil(std::pow(nr, 1.0 / rank)));
            bool thin = false;
            for (auto e : area) thin = thin || e < per_dimension;
            if (thin && !may_be_thin) continue;
            c.op("max-partition-shape", std::format("{} in at least {}", text(area), nr));
            std::string const key = thin ? "max-partition-shape:extent-less-than-root-of-number" : "max-partition-shape";
            try
            {
                Shape const shape = lue::max_partition_shape<std::int64_t, rank>(area, nr);
                std::int64_t count = 1;
                for (std::size_t d = 0; d < rank; ++d)
                {
                    VH_CHECK(c, shape[d] >= 1 && shape[d] <= area[d], key, std::format("{} in at least {}: {}", text(area), nr, text(shape)));
                    count *= (area[d] + shape[d] - 1) / shape[d];
                }
                VH_CHECK(c, count >= nr, key, std::format("{} in at least {}: {} makes {}", text(area), nr, text(shape), count));
            }
            catch (Refused const& e)
            {
                c.fail(key, std::format("{} in at least {}: {}", text(area), nr, e.what()));
            }
            c.count("maxima");
        }
    }

    // Window around a centre: inside the array it says it is in
    template<std::size_t rank>
    void hyperslab(vh::Case& c)
    {
        using A = std::array<lue::Index, rank>;
        for (int k = 0; k < 40; ++k)
        {
            A center, shape, array_shape;
            bool negative = false, inside = true;
            A begin;
            for (std::size_t d = 0; d < rank; ++d)
            {
                array_shape[d] = extent(c, 30);
                center[d] = c.rng.below(array_shape[d]);
                shape[d] = c.rng.range(1, c.rng.chance(70) ? 5 : 30);
                begin[d] = center[d] - shape[d] / 2;
                negative = negative || begin[d] < 0;
                inside = inside && begin[d] + shape[d] <= array_shape[d];
            }
            c.op("hyperslab", std::format("{} around {} in {}", text(shape), text(center), text(array_shape)));
            if (negative)
            {
                c.throws("hyperslab:accepted", text(shape) + " around " + text(center), [&] { lue::Hyperslab<rank>{center, shape}; });
                continue;
            }
            lue::Hyperslab<rank> const slab{center, shape};
            A ones;
            ones.fill(1);
            VH_CHECK(c, slab.offsets() == begin, "hyperslab:offsets", text(slab.offsets()));
            VH_CHECK(c, slab.counts() == shape, "hyperslab:counts", text(slab.counts()));
            VH_CHECK(c, slab.strides() == ones && !slab.is_strided(), "hyperslab:strides", text(slab.strides()));
            VH_CHECK(c, slab.is_contained_by(array_shape) == inside, "hyperslab:contained", std::format("{} around {} in {}", text(shape), text(center), text(array_shape)));
            c.count("hyperslabs");
        }
    }

    template<std::size_t rank>
    void dispatch(vh::Case& c)
    {
        c.op("rank", std::to_string(rank));
        switch (c.rng.below(8))
        {
            case 0: case 1: case 2: case 3: tiling<rank>(c); break;
            case 4: division<rank>(c); break;
            case 5: default_shape<rank>(c); break;
            case 6: max_shape<rank>(c); break;
            case 7: hyperslab<rank>(c); break;
        }
    }

}  // namespace

int main(int argc, char** argv)
{
    vhpx::Scheduler::instance().report = [](char const* kind, std::string const& message) { throw Refused{std::string{kind} + ": " + message}; };
    vhpx::Scheduler::instance().start({});
    return vh::run(argc, argv, [](vh::Case& c) {
        c.nontrivial();
        try
        {
            switch (c.rng.below(3))
            {
                case 0: dispatch<1>(c); break;
                case 1: dispatch<2>(c); break;
                case 2: dispatch<3>(c); break;
            }
        }
        catch (Refused const& e)
        {
            c.fail("assertion:" + c.last(), e.what());
        }
    });
}
