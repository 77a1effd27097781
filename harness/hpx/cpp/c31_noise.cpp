#include "c31.hpp"
#include "lue/framework/algorithm/definition/open_simplex_noise.hpp"
#include "lue/framework/algorithm/value_policies/open_simplex_noise.hpp"

namespace {

    using namespace vh;

    template<typename E>
    void noise(Case& c, std::string const& name)
    {
        int const seed = c.rng.chance(20) ? static_cast<int>(c.rng.next()) : static_cast<int>(c.rng.below(100));
        binary<E, E, false>(c, name,
            [seed](auto const& x, auto const& y) { return lue::value_policies::open_simplex_noise(x, y, seed); },
            [seed](E const x, E const y) {
                // The noise at a location depends on nothing but the location and the seed
                FastNoiseLite at{seed};
                at.SetNoiseType(FastNoiseLite::NoiseType_OpenSimplex2);
                return static_cast<E>(at.GetNoise(x, y));
            }, 0,
            [](Case& c) { return static_cast<E>(static_cast<double>(c.rng.below(20001)) / 7 - 1400); });
    }

    VH_TEST("open_simplex_noise-double", noise<double>(c, n))
    VH_TEST("open_simplex_noise-float", noise<float>(c, n))

}  // namespace
