#include "c37.hpp"
#include "lue/framework/algorithm/definition/resample.hpp"
#include "lue/framework/algorithm/value_policies/resample.hpp"

namespace {

    using namespace vh;

    template<typename E>
    void downscale(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr, 14);
        auto const a = random_grid<E>(c, l.shape, [&] { return random_value<E>(c); });
        std::int64_t const count = c.rng.chance(10) ? 0 : static_cast<std::int64_t>(c.rng.range(1, 5));
        c.op(name, std::format("{} x {}", l.text(), count));
        with_hpx(c, nr, [&] {
            auto const x = make_array(c, l, a);
            auto const operation = [&] { return lue::value_policies::downscale(x, count, lue::DownscaleStrategy::assign); };
            Layout result;
            result.shape = {l.shape[0] * count, l.shape[1] * count};
            result.partition = l.extent(0);
            for (int d = 0; d < 2; ++d) result.nr[d] = result.shape[d] / result.partition[d];
            if (count == 0 || (count > 1 && !enough_partitions(result, nr)))
            {
                bool refused = false;
                try
                {
                    static_cast<void>(operation());
                }
                catch (std::runtime_error const&)
                {
                    refused = true;
                }
                VH_CHECK(c, refused, "not-refused:" + name, l.text());
                c.count("downscale.refused");
                return;
            }
            Array2<E> const array = operation();
            Grid<E> expected{result.shape};
            for (std::int64_t r = 0; r < result.shape[0]; ++r)
                for (std::int64_t k = 0; k < result.shape[1]; ++k) expected(r, k) = a(r / count, k / count);
            check_array(c, count == 1 ? l : created_layout(c, result.shape, result.partition, array, nr, name), array, expected, name);
            check_array(c, l, x, a, "input:" + name);
            if (count > 1 && l.nr_partitions() > 1) c.count("downscale.partitioned");
        });
    }

    VH_TEST("downscale-double", downscale<double>(c, n))
    VH_TEST("downscale-int32", downscale<std::int32_t>(c, n))

}  // namespace
