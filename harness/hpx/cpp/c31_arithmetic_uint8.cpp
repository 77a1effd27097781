#include "c31.hpp"
#include "lue/framework/algorithm/value_policies/add.hpp"
#include "lue/framework/algorithm/value_policies/subtract.hpp"
#include "lue/framework/algorithm/value_policies/multiply.hpp"
#include "lue/framework/algorithm/value_policies/divide.hpp"
#include "lue/framework/algorithm/value_policies/modulus.hpp"

namespace {

    using namespace vh;

    template<typename E>
    auto fit(__int128 const v) -> Maybe<E>
    {
        if (v < static_cast<__int128>(std::numeric_limits<E>::min()) || v > static_cast<__int128>(std::numeric_limits<E>::max())) return {};
        return static_cast<E>(v);
    }

    template<typename E, char symbol>
    auto spec(E const a, E const b) -> Maybe<E>
    {
        if constexpr (std::is_floating_point_v<E>)
        {
            if ((symbol == '/' || symbol == '%') && b == 0) return {};
            E const r = symbol == '+' ? a + b : symbol == '-' ? a - b : symbol == '*' ? a * b : symbol == '/' ? a / b : std::fmod(a, b);
            if (symbol != '%' && std::isinf(r)) return {};
            return r;
        }
        else
        {
            if ((symbol == '/' || symbol == '%') && b == 0) return {};
            __int128 const x = a, y = b;
            if (symbol == '*' && sizeof(E) == 8 && x != 0 && y != 0)
            {
                // May not even fit 128 bits (unsigned)
                unsigned __int128 const p = static_cast<unsigned __int128>(x < 0 ? -x : x) * static_cast<unsigned __int128>(y < 0 ? -y : y);
                if (p >> 100) return {};
            }
            return fit<E>(symbol == '+' ? x + y : symbol == '-' ? x - y : symbol == '*' ? x * y : symbol == '/' ? x / y : x % y);
        }
    }

    using namespace lue::value_policies;

#define VH_ARITHMETIC(E) \
    VH_TEST("add-" #E, (binary<E, E>(c, n, [](auto const& a, auto const& b) { if constexpr (requires { typename std::decay_t<decltype(a)>::Partitions; }) return a + b; else return add(a, b); }, spec<E, '+'>))) \
    VH_TEST("subtract-" #E, (binary<E, E>(c, n, [](auto const& a, auto const& b) { return a - b; }, spec<E, '-'>))) \
    VH_TEST("multiply-" #E, (binary<E, E>(c, n, [](auto const& a, auto const& b) { return a * b; }, spec<E, '*'>))) \
    VH_TEST("divide-" #E, (binary<E, E>(c, n, [](auto const& a, auto const& b) { return a / b; }, spec<E, '/'>))) \
    VH_TEST("modulus-" #E, (binary<E, E>(c, n, [](auto const& a, auto const& b) { return modulus(a, b); }, spec<E, '%'>)))

    using int32 = std::int32_t;
    using uint8 = std::uint8_t;
    using uint64 = std::uint64_t;

    VH_ARITHMETIC(uint8)

}  // namespace
