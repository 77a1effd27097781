#include "c31.hpp"
#include "lue/framework/algorithm/value_policies/cast.hpp"

namespace {

    using namespace vh;

    // A value that both types can be asked about: for floating point numbers not between the extremes and what is next to them
    template<typename To, typename From>
    auto value(Case& c) -> From
    {
        From v = random_value<From>(c);
        if (c.rng.chance(30))
        {
            // Near the extremes
            long double const e = c.rng.pick<long double>({static_cast<long double>(std::numeric_limits<To>::lowest()), static_cast<long double>(std::numeric_limits<To>::max())});
            long double const x = e + c.rng.pick<long double>({0, 1, -1});
            if (x >= std::numeric_limits<From>::lowest() && x <= std::numeric_limits<From>::max()) v = static_cast<From>(x);
        }
        if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To>)
        {
            if (std::isnan(v)) return v;
            long double const lowest = std::numeric_limits<To>::min(), most = std::numeric_limits<To>::max();
            if ((v > lowest - 1 && v < lowest) || (v > most && v <= most + 1)) return From{3};
        }
        return v;
    }

    template<typename To, typename From>
    auto spec(From const v) -> Maybe<To>
    {
        if constexpr (std::is_integral_v<From> && std::is_integral_v<To>)
        {
            if (static_cast<__int128>(v) < static_cast<__int128>(std::numeric_limits<To>::min()) || static_cast<__int128>(v) > static_cast<__int128>(std::numeric_limits<To>::max())) return {};
            return static_cast<To>(v);
        }
        else if constexpr (std::is_integral_v<To>)
        {
            if (!(static_cast<long double>(v) >= std::numeric_limits<To>::min() && static_cast<long double>(v) <= std::numeric_limits<To>::max())) return {};
            return static_cast<To>(v);
        }
        else if constexpr (std::is_floating_point_v<From> && sizeof(To) < sizeof(From))
        {
            if (!(v >= std::numeric_limits<To>::lowest() && v <= std::numeric_limits<To>::max())) return {};
            return static_cast<To>(v);
        }
        else
            return static_cast<To>(v);
    }

    template<typename To, typename From>
    void cast_of(Case& c, std::string const& name)
    {
        unary<To, From>(c, name, [](auto const& a) { return lue::value_policies::cast<To>(a); }, spec<To, From>, 0, value<To, From>);
    }

    VH_TEST("cast-double-int32", cast_of<std::int32_t, double>(c, n))
    VH_TEST("cast-float-uint8", cast_of<std::uint8_t, float>(c, n))
    VH_TEST("cast-int64-uint8", cast_of<std::uint8_t, std::int64_t>(c, n))
    VH_TEST("cast-uint32-int32", cast_of<std::int32_t, std::uint32_t>(c, n))
    VH_TEST("cast-double-float", cast_of<float, double>(c, n))
    VH_TEST("cast-int8-uint64", cast_of<std::uint64_t, std::int8_t>(c, n))
    VH_TEST("cast-uint64-double", cast_of<double, std::uint64_t>(c, n))
    VH_TEST("cast-uint8-float", cast_of<float, std::uint8_t>(c, n))
    VH_TEST("cast-uint64-int8", cast_of<std::int8_t, std::uint64_t>(c, n))
    VH_TEST("cast-float-uint32", cast_of<std::uint32_t, float>(c, n))

}  // namespace
