// C30: arrays and partitions' data are what was put into them
#include "hpxcase.hpp"
#include "lue/framework/core/serialize/array.hpp"
#include "lue/framework/partitioned_array/array_partition_data.hpp"

namespace {

    struct Refused: std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    template<typename E>
    auto value(vh::Case& c) -> E
    {
        if constexpr (std::is_same_v<E, std::string>)
            return std::string(c.rng.below(40), static_cast<char>('a' + c.rng.below(26)));
        else
            return static_cast<E>(c.rng.below(250));
    }

    template<std::size_t rank>
    auto random_shape(vh::Case& c) -> std::array<std::int64_t, rank>
    {
        std::array<std::int64_t, rank> shape;
        for (auto& e : shape) e = c.rng.chance(6) ? 0 : c.rng.range(1, rank == 1 ? 60 : rank == 2 ? 9 : 5);
        return shape;
    }

    template<std::size_t rank>
    auto number(std::array<std::int64_t, rank> const& shape) -> std::int64_t
    {
        std::int64_t n = 1;
        for (auto e : shape) n *= e;
        return n;
    }

    template<std::size_t rank>
    auto decompose(std::int64_t k, std::array<std::int64_t, rank> const& shape)
    {
        std::array<std::int64_t, rank> idx{};
        for (std::size_t d = rank; d > 0; --d)
        {
            idx[d - 1] = k % shape[d - 1];
            k /= shape[d - 1];
        }
        return idx;
    }

    template<typename E, std::size_t rank>
    struct Model
    {
            std::array<std::int64_t, rank> shape{};
            std::vector<E> values;
    };

    template<typename A, typename M>
    void compare(vh::Case& c, A& a, M const& m, std::string const& when)
    {
        constexpr std::size_t rank = std::tuple_size_v<decltype(m.shape)>;
        A const& b = a;
        VH_CHECK(c, a.shape() == m.shape, "shape:" + when, "shape differs");
        auto const n = static_cast<std::int64_t>(m.values.size());
        VH_CHECK(c, a.nr_elements() == n && a.empty() == (n == 0), "number:" + when, std::format("{} elements, not {}", a.nr_elements(), n));
        VH_CHECK(c, a.end() - a.begin() == n && b.end() - b.begin() == n, "iterators:" + when, "range differs");
        for (std::int64_t k = 0; k < n; ++k)
        {
            auto const idx = decompose<rank>(k, m.shape);
            bool const same = std::apply([&](auto... i) { return a(i...) == m.values[k] && b(i...) == m.values[k] && &a(i...) == &a[k] && b.span()[i...] == m.values[k]; }, idx);
            VH_CHECK(c, same && b[k] == m.values[k] && *(b.begin() + k) == m.values[k], "element:" + when, std::format("element {} of {} differs", k, n));
        }
        c.count("elements.compared", n);
    }

    template<typename T>
    auto archived(T const& t) -> T
    {
        vhpx::Archive archive;
        hpx::serialization::output_archive output{archive};
        output & t;
        hpx::serialization::input_archive input{archive};
        T result;
        input & result;
        return result;
    }

    template<typename A, typename M>
    void set(vh::Case& c, A& a, M& m)
    {
        using E = typename decltype(m.values)::value_type;
        constexpr std::size_t rank = std::tuple_size_v<decltype(m.shape)>;
        auto const n = static_cast<std::int64_t>(m.values.size());
        if (n == 0) return;
        std::int64_t const k = c.rng.below(n);
        E const v = value<E>(c);
        m.values[k] = v;
        switch (c.rng.below(3))
        {
            case 0: a[k] = v; break;
            case 1: *(a.begin() + k) = v; break;
            case 2: std::apply([&](auto... i) { a(i...) = v; }, decompose<rank>(k, m.shape)); break;
        }
    }

    template<typename A, typename M>
    void fill(vh::Case& c, A& a, M& m)
    {
        using E = typename decltype(m.values)::value_type;
        for (std::size_t k = 0; k < m.values.size(); ++k) a[k] = m.values[k] = value<E>(c);
    }

    template<typename E, std::size_t rank>
    void arrays(vh::Case& c)
    {
        using A = lue::Array<E, rank>;
        using M = Model<E, rank>;
        c.op("arrays", std::format("rank={} size={}", rank, sizeof(E)));
        std::vector<A> as(4);
        std::vector<M> ms(4);
        int const steps = static_cast<int>(c.rng.range(10, 50));
        for (int step = 0; step < steps; ++step)
        {
            std::size_t const i = c.rng.below(4), j = c.rng.below(4);
            switch (c.rng.below(rank == 1 ? 14 : 13))
            {
                case 0:
                {
                    c.op("construct", std::to_string(i));
                    ms[i].shape = random_shape<rank>(c);
                    ms[i].values.assign(number<rank>(ms[i].shape), E{});
                    as[i] = A{ms[i].shape};  // Value-initialized
                    break;
                }
                case 1:
                {
                    c.op("construct-value", std::to_string(i));
                    ms[i].shape = random_shape<rank>(c);
                    ms[i].values.assign(number<rank>(ms[i].shape), value<E>(c));
                    as[i] = A(ms[i].shape, ms[i].values.empty() ? E{} : ms[i].values[0]);
                    break;
                }
                case 2:
                {
                    c.op("copy", std::format("{} {}", i, j));
                    A a{as[j]};
                    M m{ms[j]};
                    compare(c, a, m, "copy");
                    set(c, a, m);
                    compare(c, a, m, "copy-set");
                    as[i] = std::move(a);
                    ms[i] = m;
                    break;
                }
                case 3:
                {
                    c.op("move", std::format("{} {}", i, j));
                    A a{std::move(as[j])};
                    M m{std::move(ms[j])};
                    ms[j] = M{};
                    compare(c, a, m, "move");
                    compare(c, as[j], ms[j], "moved-from");
                    as[i] = a;
                    ms[i] = m;
                    break;
                }
                case 4:
                case 5:
                    c.op("copy-assign", std::format("{} {}", i, j));
                    as[i] = static_cast<A const&>(as[j]);
                    ms[i] = M{ms[j]};
                    break;
                case 6:
                case 7:
                    c.op("move-assign", std::format("{} {}", i, j));
                    as[i] = std::move(as[j]);
                    if (i != j)
                    {
                        ms[i] = std::move(ms[j]);
                        ms[j] = M{};
                    }
                    break;
                case 8:
                    c.op("clear", std::to_string(i));
                    as[i].clear();
                    ms[i] = M{};
                    break;
                case 9:
                    c.op("reshape", std::to_string(i));
                    ms[i].shape = random_shape<rank>(c);
                    ms[i].values.assign(number<rank>(ms[i].shape), E{});
                    as[i].reshape(ms[i].shape);
                    fill(c, as[i], ms[i]);
                    break;
                case 10:
                    c.op("set", std::to_string(i));
                    set(c, as[i], ms[i]);
                    break;
                case 11:
                    c.op("fill", std::to_string(i));
                    fill(c, as[i], ms[i]);
                    break;
                case 12:
                {
                    c.op("archive", std::to_string(i));
                    A a{archived(as[i])};
                    compare(c, a, ms[i], "archive");
                    as[j] = std::move(a);
                    ms[j] = M{ms[i]};
                    break;
                }
                case 13:
                {
                    c.op("remove", std::to_string(i));
                    if constexpr (rank == 1)
                    {
                        std::int64_t const n = ms[i].values.size(), b = c.rng.range(0, n), e = c.rng.chance(10) ? n : c.rng.range(b, n);
                        // (Elements are numbers in practice: those can be moved to where they are already)
                        if (std::is_same_v<E, std::string> && b == e) break;
                        as[i].remove(as[i].begin() + b, as[i].begin() + e);
                        ms[i].values.erase(ms[i].values.begin() + b, ms[i].values.begin() + e);
                        ms[i].shape[0] = ms[i].values.size();
                    }
                    break;
                }
            }
            for (std::size_t k = 0; k < 4; ++k) compare(c, as[k], ms[k], k == i ? c.last() : "other-" + c.last());
        }
    }

    // Copies share their elements
    template<typename E, std::size_t rank>
    void data(vh::Case& c)
    {
        using A = lue::ArrayPartitionData<E, rank>;
        using M = Model<E, rank>;
        using P = std::shared_ptr<M>;
        c.op("data", std::format("rank={} size={}", rank, sizeof(E)));
        std::vector<A> as(4);
        std::vector<P> ms;
        for (int k = 0; k < 4; ++k) ms.push_back(std::make_shared<M>());
        int const steps = static_cast<int>(c.rng.range(10, 50));
        for (int step = 0; step < steps; ++step)
        {
            std::size_t const i = c.rng.below(4), j = c.rng.below(4);
            switch (c.rng.below(15))
            {
                case 0:
                {
                    c.op("construct", std::to_string(i));
                    auto m = std::make_shared<M>();
                    m->shape = random_shape<rank>(c);
                    m->values.resize(number<rank>(m->shape));
                    for (E& v : m->values) v = value<E>(c);
                    as[i] = A{m->shape, m->values.cbegin(), m->values.cend()};
                    ms[i] = m;
                    break;
                }
                case 1:
                {
                    c.op("construct-value", std::to_string(i));
                    auto m = std::make_shared<M>();
                    m->shape = random_shape<rank>(c);
                    E const v = value<E>(c);
                    m->values.assign(number<rank>(m->shape), v);
                    as[i] = A(m->shape, v);
                    ms[i] = m;
                    break;
                }
                case 2:
                {
                    c.op("copy", std::format("{} {}", i, j));
                    A a{as[j]};
                    P m{ms[j]};
                    compare(c, a, *m, "copy");
                    set(c, a, *m);
                    as[i] = a;
                    ms[i] = m;
                    break;
                }
                case 3:
                {
                    c.op("move", std::format("{} {}", i, j));
                    A a{std::move(as[j])};
                    P m{ms[j]};
                    ms[j] = std::make_shared<M>();
                    compare(c, a, *m, "move");
                    compare(c, as[j], *ms[j], "moved-from");
                    as[i] = std::move(a);
                    ms[i] = m;
                    break;
                }
                case 4:
                case 5:
                    c.op("copy-assign", std::format("{} {}", i, j));
                    as[i] = static_cast<A const&>(as[j]);
                    ms[i] = ms[j];
                    c.count("shared");
                    break;
                case 6:
                case 7:
                    c.op("move-assign", std::format("{} {}", i, j));
                    as[i] = std::move(as[j]);
                    if (i != j)
                    {
                        ms[i] = ms[j];
                        ms[j] = std::make_shared<M>();
                    }
                    break;
                case 8:
                    if (ms[i].use_count() > 1) break;
                    c.op("reshape", std::to_string(i));
                    ms[i]->shape = random_shape<rank>(c);
                    ms[i]->values.assign(number<rank>(ms[i]->shape), E{});
                    as[i].reshape(ms[i]->shape);
                    fill(c, as[i], *ms[i]);
                    break;
                case 9:
                    c.op("set", std::to_string(i));
                    set(c, as[i], *ms[i]);
                    break;
                case 10:
                    c.op("fill", std::to_string(i));
                    fill(c, as[i], *ms[i]);
                    break;
                case 11:
                {
                    c.op("archive", std::to_string(i));
                    A a{archived(as[i])};
                    auto m = std::make_shared<M>(*ms[i]);
                    compare(c, a, *m, "archive");
                    VH_CHECK(c, (a == as[i]), "archive:equal", "result of archiving compares unequal");
                    as[j] = std::move(a);
                    ms[j] = m;
                    break;
                }
                case 12:
                {
                    if (ms[i].use_count() > 1 || ms[i]->values.empty()) break;
                    auto& m = *ms[i];
                    std::size_t const d = c.rng.below(rank);
                    std::int64_t const b = c.rng.range(0, m.shape[d]), e = c.rng.range(b, m.shape[d]);
                    c.op("erase", std::format("{} dimension={} [{}, {}>", i, d, b, e));
                    M n;
                    n.shape = m.shape;
                    n.shape[d] -= e - b;
                    for (std::size_t k = 0; k < m.values.size(); ++k)
                    {
                        auto const at = decompose<rank>(k, m.shape);
                        if (at[d] < b || at[d] >= e) n.values.push_back(m.values[k]);
                    }
                    as[i].erase(d, b, e);
                    m = n;
                    break;
                }
                case 13:
                {
                    if constexpr (rank < 3)
                    {
                        auto const& m = *ms[i];
                        typename A::Slices slices;
                        auto r = std::make_shared<M>();
                        for (std::size_t d = 0; d < rank; ++d)
                        {
                            std::int64_t const b = c.rng.range(0, m.shape[d]), e = c.rng.range(b, m.shape[d]);
                            slices[d] = {b, e};
                            r->shape[d] = e - b;
                        }
                        c.op("slice", std::to_string(i));
                        for (std::size_t k = 0; k < m.values.size(); ++k)
                        {
                            auto const at = decompose<rank>(k, m.shape);
                            bool in = true;
                            for (std::size_t d = 0; d < rank; ++d) in = in && at[d] >= slices[d].first && at[d] < slices[d].second;
                            if (in) r->values.push_back(m.values[k]);
                        }
                        A a{as[i].slice(slices)};
                        compare(c, a, *r, "slice");
                        // On its own
                        set(c, a, *r);
                        as[j] = a;
                        ms[j] = r;
                    }
                    break;
                }
                case 14:
                    c.op("equal", std::format("{} {}", i, j));
                    VH_CHECK(c, (as[i] == as[j]) == (ms[i]->shape == ms[j]->shape && ms[i]->values == ms[j]->values), "equal", "comparison differs");
                    break;
            }
            for (std::size_t k = 0; k < 4; ++k) compare(c, as[k], *ms[k], k == i ? c.last() : "other-" + c.last());
        }
    }

    template<typename E>
    void dispatch(vh::Case& c)
    {
        switch (c.rng.below(6))
        {
            case 0: arrays<E, 1>(c); break;
            case 1: arrays<E, 2>(c); break;
            case 2: arrays<E, 3>(c); break;
            case 3: data<E, 1>(c); break;
            case 4: data<E, 2>(c); break;
            case 5: data<E, 3>(c); break;
        }
    }

}  // namespace

int main(int argc, char** argv)
{
    vhpx::Scheduler::instance().report = [](char const* kind, std::string const& message) { throw Refused{std::string{kind} + ": " + message}; };
    vhpx::Scheduler::instance().start({});
    return vh::run(argc, argv, [](vh::Case& c) {
        c.nontrivial();
        try
        {
            switch (c.rng.below(3))
            {
                case 0: dispatch<std::uint8_t>(c); break;
                case 1: dispatch<double>(c); break;
                case 2: dispatch<std::string>(c); break;
            }
        }
        catch (Refused const& e)
        {
            c.fail("assertion:" + c.last(), e.what());
        }
    });
}
