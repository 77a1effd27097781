#pragma once
#include "grid.hpp"
#include "tests.hpp"
#include "lue/framework/algorithm/definition/unary_local_operation.hpp"
#include "lue/framework/algorithm/definition/binary_local_operation.hpp"
#include "lue/framework/algorithm/operator.hpp"

namespace vh {

    template<typename R>
    using Maybe = std::optional<R>;

    template<typename R>
    auto raw(Maybe<R> const& m) -> R { return m ? *m : no_data<R>(); }

    // One array
    template<typename R, typename E, typename F, typename S>
    void unary(Case& c, std::string const& name, F&& operation, S&& spec, double const tolerance = 0, std::function<E(Case&)> value = random_value<E>)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<E>(c, l.shape, [&] { return value(c); });
        c.op(name, l.text());
        with_hpx(c, nr, [&] {
            Grid<R> expected{l.shape};
            for (std::size_t k = 0; k < a.values.size(); ++k) expected.values[k] = raw<R>(is_no_data(a.values[k]) ? Maybe<R>{} : Maybe<R>{spec(a.values[k])});
            std::optional<Array2<E>> x{make_array(c, l, a)};
            Array2<R> r = operation(*x);
            bool const keep = c.rng.chance(50);
            if (!keep) x.reset();
            check_array(c, l, r, expected, name, tolerance);
            if (keep) check_array(c, l, *x, a, "input:" + name);
            // Of a scalar
            E const v = value(c);
            lue::Scalar<R> const s = operation(lue::Scalar<E>{v});
            R const e = raw<R>(is_no_data(v) ? Maybe<R>{} : Maybe<R>{spec(v)});
            R const o = s.future().get();
            VH_CHECK(c, same(o, e, tolerance), "scalar:" + name, std::format("{} of {} is {} instead of {}", name, show(v), show(o), show(e)));
        });
        c.count("local.unary");
    }

    // Two arrays, or an array and a scalar
    template<typename R, typename E, bool scalars = true, bool masks = true, typename F, typename S>
    void binary(Case& c, std::string const& name, F&& operation, S&& spec, double const tolerance = 0, std::function<E(Case&)> value = random_value<E>)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const a = random_grid<E>(c, l.shape, [&] { return value(c); });
        auto b = random_grid<E>(c, l.shape, [&] { return value(c); });
        int const form = scalars ? static_cast<int>(c.rng.below(6)) : 0;
        E const v = value(c);
        if (form == 0 && c.rng.chance(50))
            for (std::size_t k = 0; k < a.values.size(); ++k)
                if (c.rng.chance(30)) b.values[k] = a.values[k];
        c.op(name, std::format("form={} {}", form, l.text()));
        auto both = [&](E const x, E const y) { return raw<R>(masks && (is_no_data(x) || is_no_data(y)) ? Maybe<R>{} : Maybe<R>{spec(x, y)}); };
        with_hpx(c, nr, [&] {
            Grid<R> expected{l.shape};
            for (std::size_t k = 0; k < a.values.size(); ++k)
                expected.values[k] = form == 0 ? both(a.values[k], b.values[k]) : form == 1 || form == 2 ? both(a.values[k], v) : both(v, a.values[k]);
            std::optional<Array2<E>> x{make_array(c, l, a)};
            bool const keep = c.rng.chance(50);
            auto finish = [&](Array2<R>&& r) {
                if (!keep) x.reset();
                check_array(c, l, r, expected, name, tolerance);
                if (keep) check_array(c, l, *x, a, "input:" + name);
            };
            auto delayed = [&] {
                return lue::Scalar<E>{hpx::async([v] { hpx::this_thread::yield(); return v; })};
            };
            if (form == 0)
            {
                if (c.rng.chance(10))
                {
                    // With itself
                    for (std::size_t k = 0; k < a.values.size(); ++k) expected.values[k] = both(a.values[k], a.values[k]);
                    finish(operation(*x, *x));
                }
                else
                {
                    // Of another array, whose partitions may be elsewhere
                    Array2<E> y{make_array(c, l, b)};
                    finish(operation(*x, y));
                    check_array(c, l, y, b, "input:" + name);
                }
            }
            if constexpr (scalars)
            {
                if (form == 1) finish(operation(*x, delayed()));
                if (form == 2) finish(operation(*x, v));
                if (form == 3) finish(operation(delayed(), *x));
                if (form == 4) finish(operation(v, *x));
                if (form == 5)
                {
                    lue::Scalar<R> const s = operation(delayed(), lue::Scalar<E>{a.values[0]});
                    R const e = both(v, a.values[0]), o = s.future().get();
                    VH_CHECK(c, same(o, e, tolerance), "scalars:" + name, std::format("{} of {} and {} is {} instead of {}", name, show(v), show(a.values[0]), show(o), show(e)));
                }
            }
        });
        c.count("local.binary");
        c.count(std::format("form.{}", form));
    }

}  // namespace vh
