#include "c37.hpp"

namespace {

    template<typename T>
    struct Buffer
    {
            std::shared_ptr<std::vector<T>> values;
    };

}  // namespace

namespace lue::detail {

    template<typename T>
    class ArrayTraits<Buffer<T>>
    {
        public:

            using Element = T;
    };

}  // namespace lue::detail

namespace {

    using namespace vh;

    template<typename E>
    void filled(Case& c, std::string const& name)
    {
        E const value = random_value<E>(c);
        unsigned const how = c.rng.below(4);
        created<E>(c, name, [&](Layout const& l) -> Array2<E> {
                if (how == 0) return lue::create_partitioned_array<E, 2>(l.shape, l.partition, value);
                if (how == 1) return lue::create_partitioned_array<E, 2>(l.shape, l.partition, lue::Scalar<E>{late_value(c, value)});
                using Functor = lue::InstantiateFilled<E, 2>;
                if (how == 2) return lue::create_partitioned_array<2, Functor>(l.shape, l.partition, Functor{late_value(c, value)});
                using Policies = lue::policy::create_partitioned_array::DefaultValuePolicies<E>;
                return lue::create_partitioned_array(Policies{}, l.shape, l.partition, Functor{late_value(c, value)});
            },
            [&](Layout const& l, Grid<E> const& observed) { compare_grids(c, l, observed, Grid<E>{l.shape, value}, name); });
    }

    template<typename E>
    void default_initialized(Case& c, std::string const& name)
    {
        created<E>(c, name, [&](Layout const& l) -> Array2<E> { return lue::create_partitioned_array<E, 2>(l.shape, l.partition); },
            [&](Layout const&, Grid<E> const&) {});
    }

    // Without shape of partitions: any that covers the array
    template<typename E>
    void default_shape(Case& c, std::string const& name)
    {
        E const value = random_value<E>(c);
        Shape2 shape;
        for (auto& e : shape) e = static_cast<std::int64_t>(c.rng.range(1, 40));
        int const nr = static_cast<int>(c.rng.range(1, 4));
        c.op(name, text(shape));
        with_hpx(c, nr, [&] {
            auto const partition = lue::default_partition_shape(lue::Shape<lue::Count, 2>{shape});
            std::int64_t const count = (shape[0] / partition[0]) * (shape[1] / partition[1]);
            if (!(lue::BuildOptions::build_qa && lue::BuildOptions::qa_with_tests) && count < nr) return;
            bool const scalar = c.rng.chance(50);
            Array2<E> const array = scalar ? lue::create_partitioned_array<E, 2>(lue::Shape<lue::Count, 2>{shape}, lue::Scalar<E>{late_value(c, value)})
                                           : lue::create_partitioned_array<E, 2>(lue::Shape<lue::Count, 2>{shape}, value);
            Layout const l = created_layout(c, shape, partition, array, nr, name);
            check_array(c, l, array, Grid<E>{shape, value}, name);
        });
    }

    template<typename E>
    void from_buffer(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        auto const value = [&] { return c.rng.chance(20) ? E{3} : random_value<E>(c); };
        auto const a = random_grid<E>(c, l.shape, value);
        bool const with_no_data = c.rng.chance(60);
        E const marker = c.rng.chance(50) ? E{3} : random_value<E>(c);
        unsigned const how = c.rng.below(2);
        c.op(name, std::format("{} in {} on {}", text(l.shape), text(l.partition), nr));
        with_hpx(c, nr, [&] {
            if (!enough_partitions(l, nr)) return;
            std::weak_ptr<std::vector<E>> alive;
            {
                // The only reference to the buffer is passed on
                Buffer<E> buffer{std::make_shared<std::vector<E>>(a.values)};
                alive = buffer.values;
                using Policies = lue::policy::create_partitioned_array::DefaultValuePolicies<E>;
                using Functor = lue::InstantiateFromBuffer<Buffer<E>, 2>;
                auto grab = [](Buffer<E> const& b) -> E* { return b.values->data(); };
                auto const create = [&](Functor functor) { return lue::create_partitioned_array(Policies{}, lue::Shape<lue::Count, 2>{l.shape}, lue::Shape<lue::Count, 2>{l.partition}, functor); };
                Array2<E> const array = with_no_data
                    ? (how == 0 ? create(Functor{std::move(buffer), grab, marker}) : create(Functor{std::move(buffer), grab, std::optional<E>{marker}}))
                    : (how == 0 ? create(Functor{std::move(buffer), grab}) : create(Functor{std::move(buffer), grab, std::optional<E>{}}));
                Layout const made = created_layout(c, l.shape, l.partition, array, nr, name);
                Grid<E> expected = a;
                if (with_no_data)
                    for (E& v : expected.values)
                        if (v == marker) v = no_data<E>(), c.count("created.marked-no-data");
                check_array(c, made, array, expected, name);
            }
            hpx::this_thread::yield();
            c.count("created.from-buffer");
            static_cast<void>(alive);
        });
    }

    // What functors that instantiate partitions are told
    struct Told
    {
            hpx::id_type locality;
            Shape2 array, in_partitions, offset, partition;
            std::int64_t along_curve, idx;
    };

    template<typename E>
    class Individually
    {
        public:

            using OutputElement = E;
            using Partition = lue::ArrayPartition<E, 2>;
            using Offset = lue::OffsetT<Partition>;
            using Shape = lue::ShapeT<Partition>;
            static constexpr bool instantiate_per_locality{false};

            explicit Individually(std::shared_ptr<std::vector<Told>> told): _told{std::move(told)} {}

            template<typename Policies>
            auto instantiate(hpx::id_type const locality, Policies const&, Shape const& array_shape, Shape const& shape_in_partitions, lue::Index const along_curve,
                             lue::Index const idx, Offset const& offset, Shape const& partition_shape) -> Partition
            {
                _told->push_back({locality, array_shape, shape_in_partitions, offset, partition_shape, along_curve, idx});
                return hpx::async([=] { return Partition{locality, offset, partition_shape, static_cast<E>(idx)}; });
            }

        private:

            std::shared_ptr<std::vector<Told>> _told;
    };

    template<typename E>
    void individually(Case& c, std::string const& name)
    {
        auto told = std::make_shared<std::vector<Told>>();
        created<E>(c, name, [&](Layout const& l) -> Array2<E> {
                told->clear();
                return lue::create_partitioned_array<2>(lue::Shape<lue::Count, 2>{l.shape}, lue::Shape<lue::Count, 2>{l.partition}, Individually<E>{told});
            },
            [&](Layout const& l, Grid<E> const& observed) {
                Grid<E> expected{l.shape};
                for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
                    for (std::int64_t i = 0; i < l.extent(p)[0]; ++i)
                        for (std::int64_t j = 0; j < l.extent(p)[1]; ++j) expected(l.offset(p)[0] + i, l.offset(p)[1] + j) = static_cast<E>(p);
                compare_grids(c, l, observed, expected, name);
                VH_CHECK(c, std::ssize(*told) == l.nr_partitions(), "number-instantiated:" + name, std::format("{} of {} partitions", told->size(), l.nr_partitions()));
                std::set<std::int64_t> along, idxs;
                auto const ids = hpx::find_all_localities();
                std::vector<std::int64_t> by_curve(l.nr_partitions(), -1);
                for (Told const& t : *told)
                {
                    VH_CHECK(c, t.idx >= 0 && t.idx < l.nr_partitions() && idxs.insert(t.idx).second, "partition-idx:" + name, std::to_string(t.idx));
                    VH_CHECK(c, t.along_curve >= 0 && t.along_curve < l.nr_partitions() && along.insert(t.along_curve).second, "idx-along-curve:" + name, std::to_string(t.along_curve));
                    VH_CHECK(c, t.array == l.shape && t.in_partitions == l.nr, "told-shapes:" + name, "");
                    VH_CHECK(c, t.offset == l.offset(t.idx) && t.partition == l.extent(t.idx), "told-partition:" + name, std::format("partition {} of {}: {} {}", t.idx, l.text(), text(t.offset), text(t.partition)));
                    VH_CHECK(c, t.locality == ids[l.locality[t.idx]], "told-locality:" + name, "");
                    by_curve[t.along_curve] = l.locality[t.idx];
                }
                // Partitions which are near each other along the curve end up at the same locality
                VH_CHECK(c, std::is_sorted(by_curve.begin(), by_curve.end()), "order-of-localities:" + name, l.text());
            });
    }

    template<typename E>
    auto make_partitions(std::vector<Shape2> const& offsets, std::vector<Shape2> const& shapes) -> std::vector<lue::ArrayPartition<E, 2>>
    {
        using Partition = lue::ArrayPartition<E, 2>;
        std::vector<Partition> partitions;
        for (std::size_t i = 0; i < offsets.size(); ++i)
        {
            lue::ArrayPartitionData<E, 2> data{shapes[i]};
            for (std::int64_t r = 0; r < shapes[i][0]; ++r)
                for (std::int64_t k = 0; k < shapes[i][1]; ++k) data(r, k) = static_cast<E>((offsets[i][0] + r) * 1000 + offsets[i][1] + k);
            if (i % 2 == 0) partitions.push_back(Partition{hpx::find_here(), offsets[i], std::move(data)});
            else
                partitions.push_back(hpx::async([o = offsets[i], data = std::move(data)]() mutable {
                    hpx::this_thread::yield();
                    return Partition{hpx::find_here(), o, std::move(data)};
                }));
        }
        return partitions;
    }

    template<typename E>
    struct MakePartitionsAction: hpx::actions::make_action<decltype(&make_partitions<E>), &make_partitions<E>, MakePartitionsAction<E>>::type
    {
    };

    template<typename E>
    class PerLocality
    {
        public:

            using OutputElement = E;
            using Partition = lue::ArrayPartition<E, 2>;
            using Offset = lue::OffsetT<Partition>;
            using Shape = lue::ShapeT<Partition>;
            static constexpr bool instantiate_per_locality{true};

            explicit PerLocality(std::shared_ptr<std::vector<hpx::id_type>> asked): _asked{std::move(asked)} {}

            template<typename Policies>
            auto instantiate(hpx::id_type const locality, Policies const&, Shape const&, std::vector<Offset> const& offsets, std::vector<Shape> const& shapes) -> hpx::future<std::vector<Partition>>
            {
                _asked->push_back(locality);
                return hpx::async(MakePartitionsAction<E>{}, locality, offsets, shapes);
            }

        private:

            std::shared_ptr<std::vector<hpx::id_type>> _asked;
    };

    template<typename E>
    void per_locality(Case& c, std::string const& name)
    {
        auto asked = std::make_shared<std::vector<hpx::id_type>>();
        created<E>(c, name, [&](Layout const& l) -> Array2<E> {
                asked->clear();
                return lue::create_partitioned_array<2>(lue::Shape<lue::Count, 2>{l.shape}, lue::Shape<lue::Count, 2>{l.partition}, PerLocality<E>{asked});
            },
            [&](Layout const& l, Grid<E> const& observed) {
                Grid<E> expected{l.shape};
                for (std::int64_t r = 0; r < l.shape[0]; ++r)
                    for (std::int64_t k = 0; k < l.shape[1]; ++k) expected(r, k) = static_cast<E>(r * 1000 + k);
                compare_grids(c, l, observed, expected, name);
                std::set<int> used(l.locality.begin(), l.locality.end());
                VH_CHECK(c, asked->size() == used.size(), "instantiated-per-locality:" + name, std::format("{} requests for {} localities", asked->size(), used.size()));
                c.count("created.per-locality");
            });
    }

    template<typename E>
    void refused(Case& c, std::string const& name)
    {
        int const nr = static_cast<int>(c.rng.range(1, 4));
        Layout const l = random_layout(c, nr);
        Shape2 shape = l.shape, partition = l.partition;
        int const d = static_cast<int>(c.rng.below(2));
        switch (c.rng.below(3))
        {
            case 0: partition[d] = shape[d] + 1 + static_cast<std::int64_t>(c.rng.below(9)); break;
            case 1: partition[d] = 0; break;
            default: shape[d] = 0; break;
        }
        c.op(name, text(shape) + " in " + text(partition));
        with_hpx(c, nr, [&] {
            bool refused = false;
            try
            {
                static_cast<void>(lue::create_partitioned_array<E, 2>(lue::Shape<lue::Count, 2>{shape}, lue::Shape<lue::Count, 2>{partition}, E{1}));
            }
            catch (std::runtime_error const&)
            {
                refused = true;
            }
            VH_CHECK(c, refused, "invalid-shape-accepted:" + name, text(shape) + " in " + text(partition));
            c.count("created.refused");
        });
    }

    VH_TEST("create-filled-double", filled<double>(c, n))
    VH_TEST("create-filled-uint8", filled<std::uint8_t>(c, n))
    VH_TEST("create-filled-int64", filled<std::int64_t>(c, n))
    VH_TEST("create-default-initialized-int32", default_initialized<std::int32_t>(c, n))
    VH_TEST("create-default-shape-int32", default_shape<std::int32_t>(c, n))
    VH_TEST("create-from-buffer-float", from_buffer<float>(c, n))
    VH_TEST("create-from-buffer-uint8", from_buffer<std::uint8_t>(c, n))
    VH_TEST("create-from-buffer-int64", from_buffer<std::int64_t>(c, n))
    VH_TEST("create-individually-int64", individually<std::int64_t>(c, n))
    VH_TEST("create-per-locality-int32", per_locality<std::int32_t>(c, n))
    VH_TEST("create-refused-int32", refused<std::int32_t>(c, n))

}  // namespace
