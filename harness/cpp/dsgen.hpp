// Random datasets that are consistent with the data model, built and filled through the public interface.
//
// The plan (which object is active when, which sets share what, ...) is kept, so that other harnesses can
// make one thing inconsistent, or know what there is.
#pragma once
#include "dm.hpp"

namespace dsgen {

    using namespace dm;

    struct Property
    {
            int kind;  // As in C05: 0-2 same shape, 3-5 different shape; constant, constant shape, variable shape
            std::string name;
            ElementType const* type;
            lh5::Shape shape;  // kind 0, 1
            ldm::Rank rank;
            bool has_no_data{false};
    };

    struct Set
    {
            std::string name;
            bool temporal{false};
            long tracker_from{-1}, time_from{-1};  // Other sets (in the same list), or -1
            bool has_time{false}, has_space{false};
            ldm::TimeDomainItemType time_type{};
            ldm::Mobility mobility{};
            ldm::SpaceDomainItemType space_type{};
            std::size_t space_rank{};
            ElementType const* space_datatype{};
            bool indexed{false};  // Active object indices are stored
            std::vector<std::vector<ldm::ID>> active;  // Per active set the objects
            std::vector<Property> properties;
            long presence{-1};  // Index of property
            std::vector<ldm::ID> ids;  // Of the objects stationary information is about

            auto active_ids() const -> std::vector<ldm::ID>
            {
                std::vector<ldm::ID> r;
                for (auto const& a : active) r.insert(r.end(), a.begin(), a.end());
                return r;
            }
    };

    struct Phenomenon
    {
            std::string universe, name;
            std::vector<ldm::ID> ids;
            std::vector<Set> sets, collection_sets;
    };

    struct Options
    {
            std::size_t max_phenomena{3}, max_sets{3}, max_properties{3};
            bool discretize{true};
            bool at_least_one_temporal{false};
    };

    class Builder
    {
        public:
            Builder(vh::Case& c, Options options = {}): c{c}, rng{c.rng}, options{options} {}

            vh::Case& c;
            vh::Rng& rng;
            Options options;
            std::vector<Phenomenon> phenomena;

            static auto phenomenon(ldm::Dataset& dataset, Phenomenon const& p) -> ldm::Phenomenon&
            {
                return p.universe.empty() ? dataset.phenomena()[p.name] : dataset.universes()[p.universe].phenomena()[p.name];
            }

            void build(ldm::Dataset& dataset)
            {
                auto const n = rng.range(1, options.max_phenomena);
                for (std::size_t i = 0; i < n; ++i)
                {
                    add_phenomenon(dataset);
                }
                // What is on disk and the collections agree. Discretization needs all properties to be there
                if (options.discretize) discretize(dataset);
            }

            template<typename F>
            static void with_property(ldm::PropertySet& set, Property const& p, F&& f)
            {
                auto& all = set.properties();
                switch (p.kind)
                {
                    case 0: f(all.collection<ldm::same_shape::Properties>()[p.name]); break;
                    case 1: f(all.collection<ldm::same_shape::constant_shape::Properties>()[p.name]); break;
                    case 2: f(all.collection<ldm::same_shape::variable_shape::Properties>()[p.name]); break;
                    case 3: f(all.collection<ldm::different_shape::Properties>()[p.name]); break;
                    case 4: f(all.collection<ldm::different_shape::constant_shape::Properties>()[p.name]); break;
                    default: f(all.collection<ldm::different_shape::variable_shape::Properties>()[p.name]); break;
                }
            }

            template<typename F>
            static void with_space(ldm::SpaceDomain& domain, Set const& s, F&& f)
            {
                if (s.mobility == ldm::Mobility::mobile)
                {
                    if (s.space_type == ldm::SpaceDomainItemType::box) { auto v = domain.value<ldm::MobileSpaceBox>(); f(v); }
                    else { auto v = domain.value<ldm::MobileSpacePoint>(); f(v); }
                }
                else
                {
                    if (s.space_type == ldm::SpaceDomainItemType::box) { auto v = domain.value<ldm::StationarySpaceBox>(); f(v); }
                    else { auto v = domain.value<ldm::StationarySpacePoint>(); f(v); }
                }
            }

            template<typename F>
            static void with_time(ldm::TimeDomain& domain, ldm::TimeDomainItemType const type, F&& f)
            {
                switch (type)
                {
                    case ldm::TimeDomainItemType::box: { auto v = domain.value<ldm::TimeBox>(); f(v); break; }
                    case ldm::TimeDomainItemType::cell: { auto v = domain.value<ldm::TimeCell>(); f(v); break; }
                    case ldm::TimeDomainItemType::point: { auto v = domain.value<ldm::TimePoint>(); f(v); break; }
                }
            }

            // Append to an array of 64-bit numbers or of fixed shape arrays
            template<typename Value>
            void append_bytes(Value& value, Bytes const& data, std::size_t const nr_arrays)
            {
                if (nr_arrays == 0) return;
                auto const begin = value.nr_arrays();
                value.expand(nr_arrays);
                Buffer buffer{data};
                value.write(ldm::IndexRange{begin, begin + nr_arrays}, buffer.data());
            }

            template<typename Value, typename Number>
            void append(Value& value, std::vector<Number> const& data, std::size_t const per_array = 1)
            {
                static_assert(sizeof(Number) == 8);
                Bytes bytes(data.size() * 8);
                if (!data.empty()) std::memcpy(bytes.data(), data.data(), bytes.size());
                append_bytes(value, bytes, data.size() / per_array);
            }

            auto fresh_ids(std::size_t const n) -> std::vector<ldm::ID>
            {
                std::set<ldm::ID> r;
                bool const small = rng.chance(50);
                while (r.size() < n) r.insert(small ? rng.below(20) : rng.next());
                std::vector<ldm::ID> v{r.begin(), r.end()};
                for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng.below(i)]);
                return v;
            }

            auto increasing(std::size_t const n, bool const strictly) -> std::vector<std::uint64_t>
            {
                std::vector<std::uint64_t> r(n);
                std::uint64_t t = rng.chance(20) ? std::uint64_t{1} << 62U : rng.below(100);
                for (auto& e : r)
                {
                    e = t;
                    t += strictly ? rng.range(1, 9) : rng.below(4);
                }
                return r;
            }

            void add_phenomenon(ldm::Dataset& dataset)
            {
                Phenomenon p;
                if (rng.chance(35))
                {
                    p.universe = "u" + std::to_string(rng.below(2));
                    if (!dataset.universes().contains(p.universe)) dataset.add_universe(p.universe);
                }
                p.name = random_name(rng) + std::to_string(phenomena.size());
                p.ids = rng.chance(20) ? std::vector<ldm::ID>{} : fresh_ids(rng.range(1, 6));
                c.op("add-phenomenon", std::format("{} {} objects", p.universe, p.ids.size()));
                auto& phenomenon = p.universe.empty() ? dataset.add_phenomenon(p.name) : dataset.universes()[p.universe].phenomena().add(p.name);
                append(phenomenon.object_id(), p.ids);
                auto const nr_sets = rng.below(options.max_sets + 1) + (options.at_least_one_temporal && phenomena.empty() ? 1 : 0);
                for (std::size_t i = 0; i < nr_sets; ++i) add_set(phenomenon, p, p.sets, false);
                auto const nr_collection_sets = rng.below(options.max_sets);
                for (std::size_t i = 0; i < nr_collection_sets; ++i) add_set(phenomenon, p, p.collection_sets, true);
                phenomena.push_back(p);
            }

            void add_set(ldm::Phenomenon& phenomenon, Phenomenon& p, std::vector<Set>& list, bool const is_collection)
            {
                auto& sets = is_collection ? phenomenon.collection_property_sets() : phenomenon.property_sets();
                Set s;
                s.name = random_name(rng) + std::to_string(list.size());
                s.temporal = (options.at_least_one_temporal && phenomena.empty() && !is_collection && list.empty()) || rng.chance(65);
                s.has_space = rng.chance(50);
                std::vector<ldm::SpaceDomainItemType> const space_types{ldm::SpaceDomainItemType::box, ldm::SpaceDomainItemType::point};
                std::vector<ldm::TimeDomainItemType> const time_types{ldm::TimeDomainItemType::box, ldm::TimeDomainItemType::cell, ldm::TimeDomainItemType::point};
                s.space_type = rng.pick(space_types);
                s.time_type = rng.pick(time_types);
                s.mobility = s.temporal && rng.chance(50) ? ldm::Mobility::mobile : ldm::Mobility::stationary;
                s.space_rank = rng.range(1, 3);
                s.space_datatype = &rng.pick(element_types());
                if (s.temporal)
                {
                    s.has_time = rng.chance(80);
                    std::vector<long> trackers, times;
                    for (std::size_t i = 0; i < list.size(); ++i)
                    {
                        if (list[i].temporal) trackers.push_back(static_cast<long>(i));
                        if (list[i].has_time) times.push_back(static_cast<long>(i));
                    }
                    if (s.has_time && !times.empty() && rng.chance(50)) s.time_from = rng.pick(times);
                    // A time domain that is shared has items for as many active sets as are tracked
                    std::size_t nr_active_sets = rng.below(6);
                    if (s.time_from >= 0)
                    {
                        nr_active_sets = list[s.time_from].active.size();
                        s.time_type = list[s.time_from].time_type;
                        if (rng.chance(50)) s.tracker_from = s.time_from;
                    }
                    else if (s.has_time && !trackers.empty() && rng.chance(40))
                    {
                        s.tracker_from = rng.pick(trackers);
                    }
                    if (s.tracker_from >= 0)
                    {
                        s.active = list[s.tracker_from].active;
                        s.indexed = list[s.tracker_from].indexed;
                        s.ids = list[s.tracker_from].ids;
                    }
                    else
                    {
                        s.indexed = rng.chance(60);
                        auto pool = is_collection ? fresh_ids(1) : p.ids.empty() ? fresh_ids(rng.range(1, 5)) : p.ids;
                        s.active.resize(nr_active_sets);
                        for (auto& set : s.active)
                        {
                            for (std::size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[rng.below(i)]);
                            set.assign(pool.begin(), pool.begin() + static_cast<long>(is_collection ? 1 : rng.below(pool.size() + 1)));
                        }
                        s.ids = is_collection ? pool : p.ids;
                    }
                }
                else
                {
                    s.ids = is_collection ? fresh_ids(1) : p.ids;
                }
                auto const type = s.space_datatype->native();
                ldm::TimeConfiguration const time{s.time_type};
                ldm::Clock const clock{ldm::time::Unit::day, rng.range(1, 9)};
                ldm::SpaceConfiguration const space{s.mobility, s.space_type};
                c.op("add-set", std::format("{} temporal={} time={} space={} tracker_from={} time_from={} active sets {} of {} indexed={}", is_collection ? "collection" : "objects",
                    s.temporal, s.has_time, s.has_space, s.tracker_from, s.time_from, s.active.size(), s.active_ids().size(), s.indexed));
                auto other_time = [&]() -> ldm::TimeDomain& { return sets[list[s.time_from].name].time_domain(); };
                auto other_tracker = [&]() -> ldm::ObjectTracker& { return sets[list[s.tracker_from].name].object_tracker(); };
                if (!s.has_time)
                {
                    if (s.has_space) sets.add(s.name, space, type, s.space_rank); else sets.add(s.name);
                }
                else if (s.time_from < 0)
                {
                    if (s.tracker_from >= 0)
                    {
                        s.has_space = false;
                        sets.add(s.name, time, clock, other_tracker());
                    }
                    else if (s.has_space) sets.add(s.name, time, clock, space, type, s.space_rank);
                    else sets.add(s.name, time, clock);
                }
                else if (s.tracker_from >= 0)
                {
                    if (s.has_space) sets.add(s.name, other_time(), other_tracker(), space, type, s.space_rank); else sets.add(s.name, other_time(), other_tracker());
                }
                else
                {
                    if (s.has_space) sets.add(s.name, other_time(), space, type, s.space_rank); else sets.add(s.name, other_time());
                }
                auto& set = sets[s.name];
                if (s.temporal && s.tracker_from < 0) fill_tracker(set, s);
                if (s.has_time && s.time_from < 0) fill_time(set, s);
                if (s.has_space) fill_space(set, s);
                auto const nr_properties = rng.below(options.max_properties + 1);
                for (std::size_t i = 0; i < nr_properties; ++i) add_property(set, s);
                c.count("sets.built");
                c.nontrivial();
                list.push_back(s);
            }

            void fill_tracker(ldm::PropertySet& set, Set const& s)
            {
                auto& tracker = set.object_tracker();
                std::vector<std::uint64_t> set_index, object_id, object_index;
                std::map<ldm::ID, std::uint64_t> seen;
                for (auto const& a : s.active)
                {
                    set_index.push_back(object_id.size());
                    for (auto const id : a)
                    {
                        object_id.push_back(id);
                        object_index.push_back(seen[id]++);
                    }
                }
                append(tracker.active_set_index(), set_index);
                append(tracker.active_object_id(), object_id);
                if (s.indexed) append(tracker.active_object_index(), object_index);
            }

            void fill_time(ldm::PropertySet& set, Set const& s)
            {
                auto const n = s.active.size();
                with_time(set.time_domain(), s.time_type, [&]<typename V>(V& value) {
                    if constexpr (std::is_same_v<V, ldm::TimePoint>) append(value, increasing(n, rng.chance(70)));
                    else if constexpr (std::is_same_v<V, ldm::TimeBox>) append(value, increasing(2 * n, rng.chance(70)), 2);
                    else
                    {
                        // Cells, in a random number of boxes
                        auto const nr_boxes = n == 0 ? rng.below(3) : rng.range(1, 4);
                        std::vector<std::uint64_t> counts(nr_boxes);
                        for (std::size_t i = 0; i < n; ++i) counts[rng.below(nr_boxes)] += 1;
                        append(value, increasing(2 * nr_boxes, rng.chance(70)), 2);
                        append(value.count(), counts);
                    }
                });
            }

            void fill_space(ldm::PropertySet& set, Set const& s)
            {
                std::size_t const n = s.mobility == ldm::Mobility::mobile ? s.active_ids().size() : s.ids.size();
                with_space(set.space_domain(), s, [&](auto& value) { append_bytes(value, random_elements(rng, *s.space_datatype, n * product(value.array_shape()), true), n); });
            }

            auto shape_of_rank(ldm::Rank const rank) -> lh5::Shape
            {
                lh5::Shape r(rank);
                for (auto& e : r) e = rng.range(1, 3);
                return r;
            }

            void add_property(ldm::PropertySet& set, Set& s)
            {
                Property p{};
                do
                {
                    p.kind = static_cast<int>(rng.below(6));
                }
                while ((p.kind % 3 != 0 && !s.temporal) || (p.kind == 4 && !s.indexed));
                p.name = random_name(rng) + std::to_string(s.properties.size());
                p.type = &rng.pick(element_types());
                p.shape = p.kind < 2 && rng.chance(60) ? random_shape(rng, 1, 3, 3) : lh5::Shape{};
                p.rank = static_cast<ldm::Rank>(rng.range(1, 3));
                c.op("add-property", std::format("kind {} {} shape {} rank {}", p.kind, p.type->name, to_string(p.shape), p.rank));
                add_property(set, s, p);
            }

            void add_property(ldm::PropertySet& set, Set& s, Property const& p)
            {
                auto& all = set.properties();
                auto const type = p.type->native();
                switch (p.kind)
                {
                    case 0: if (p.shape.empty()) all.add<ldm::same_shape::Property>(p.name, type); else all.add<ldm::same_shape::Property>(p.name, type, p.shape); break;
                    case 1: if (p.shape.empty()) all.add<ldm::same_shape::constant_shape::Property>(p.name, type); else all.add<ldm::same_shape::constant_shape::Property>(p.name, type, p.shape); break;
                    case 2: all.add<ldm::same_shape::variable_shape::Property>(p.name, type, p.rank); break;
                    case 3: all.add(p.name, type, p.rank); break;
                    case 4: all.add<ldm::different_shape::constant_shape::Property>(p.name, type, p.rank); break;
                    default: all.add<ldm::different_shape::variable_shape::Property>(p.name, type, p.rank); break;
                }
                with_property(set, p, [&](auto& property) { fill(property.value(), s, p); });
                s.properties.push_back(p);
                c.count("properties.built");
            }

            void fill(ldm::same_shape::Value& value, Set const& s, Property const& p)
            {
                append_bytes(value, random_elements(rng, *p.type, s.ids.size() * product(p.shape), true), s.ids.size());
            }

            void fill(ldm::same_shape::constant_shape::Value& value, Set const& s, Property const& p)
            {
                auto const n = s.active_ids().size();
                append_bytes(value, random_elements(rng, *p.type, n * product(p.shape), true), n);
            }

            void fill(ldm::same_shape::variable_shape::Value& value, Set const& s, Property const& p)
            {
                for (std::size_t i = 0; i < s.active.size(); ++i)
                {
                    auto const shape = shape_of_rank(p.rank);
                    auto arrays = value.expand(i, s.active[i].size(), shape);
                    if (!s.active[i].empty()) write_all(arrays, random_elements(rng, *p.type, s.active[i].size() * product(shape), true));
                }
            }

            template<typename Value>
            void write_all(Value& value, Bytes const& data)
            {
                Buffer buffer{data};
                value.write(buffer.data());
            }

            auto shapes_for(std::size_t const n, ldm::Rank const rank) -> std::vector<lh5::Shape>
            {
                std::vector<lh5::Shape> r(n);
                for (auto& shape : r) shape = shape_of_rank(rank);
                return r;
            }

            void fill(ldm::different_shape::Value& value, std::vector<ldm::ID> const& ids, std::vector<lh5::Shape> const& shapes, ElementType const& type)
            {
                for (std::size_t i = 0; i < ids.size(); ++i)
                {
                    auto array = value[ids[i]];
                    write_all(array, random_elements(rng, type, product(shapes[i]), true));
                }
            }

            void fill(ldm::different_shape::Value& value, Set const& s, Property const& p)
            {
                auto const shapes = shapes_for(s.ids.size(), p.rank);
                value.expand(s.ids.size(), s.ids.data(), shapes.data());
                fill(value, s.ids, shapes, *p.type);
            }

            void fill(ldm::different_shape::constant_shape::Value& value, Set const& s, Property const& p)
            {
                std::map<ldm::ID, ldm::Count> counts;
                for (auto const id : s.active_ids()) counts[id] += 1;
                for (auto const& [id, n] : counts)
                {
                    auto const shape = shape_of_rank(p.rank);
                    auto arrays = value.expand(id, shape, n);
                    write_all(arrays, random_elements(rng, *p.type, n * product(shape), true));
                }
            }

            void fill(ldm::different_shape::variable_shape::Value& value, Set const& s, Property const& p)
            {
                for (std::size_t i = 0; i < s.active.size(); ++i)
                {
                    auto const shapes = shapes_for(s.active[i].size(), p.rank);
                    auto arrays = value.expand(i, s.active[i].size(), s.active[i].data(), shapes.data());
                    fill(arrays, s.active[i], shapes, *p.type);
                }
            }

            // Let properties be discretized by others, the way the data model asks for
            void discretize(ldm::Dataset& dataset)
            {
                for (auto& p : phenomena)
                {
                    auto& phenomenon_ = phenomenon(dataset, p);
                    for (bool const is_collection : {false, true})
                    {
                        auto& list = is_collection ? p.collection_sets : p.sets;
                        auto& sets = is_collection ? phenomenon_.collection_property_sets() : phenomenon_.property_sets();
                        for (auto& s : list)
                        {
                            auto& set = sets[s.name];
                            auto const nr = s.properties.size();
                            for (std::size_t i = 0; i < nr; ++i)
                            {
                                if (rng.chance(30))
                                {
                                    // By a property of the same set, or of a collection of objects
                                    if (!is_collection && !p.collection_sets.empty() && rng.chance(60))
                                    {
                                        auto& by = p.collection_sets[rng.below(p.collection_sets.size())];
                                        discretize_property(set, s.properties[i], s, phenomenon_.collection_property_sets()[by.name], by, true);
                                    }
                                    else
                                    {
                                        discretize_property(set, s.properties[i], s, set, s, is_collection);
                                    }
                                }
                            }
                            if (s.has_space && s.space_type == ldm::SpaceDomainItemType::box && !s.properties.empty() && rng.chance(30))
                            {
                                s.presence = static_cast<long>(rng.below(s.properties.size()));
                                c.op("discretize-presence");
                                with_property(set, s.properties[s.presence], [&](auto& property) { set.space_domain().set_presence_discretization(property); });
                                c.count("presence.discretized");
                            }
                        }
                    }
                }
            }

            void discretize_property(ldm::PropertySet& set, Property const p, Set const& s, ldm::PropertySet& by_set, Set& by_s, bool const by_collection)
            {
                // Unsigned counts, per object or for the collection of objects
                Property by{};
                by.kind = 0;
                by.name = "grid of " + std::to_string(by_s.properties.size());
                by.type = &element_types()[rng.below(4)];
                by.shape = {static_cast<hsize_t>(std::max(1, static_cast<int>(p.kind < 2 ? p.shape.size() : p.rank)))};
                bool in_time = false;
                switch (p.kind)
                {
                    case 0: in_time = rng.chance(50); break;
                    case 1:
                        // Validation asks for a single array, unless there is a collection of objects
                        if (!by_collection && s.ids.size() != 1) return;
                        in_time = rng.chance(30);
                        break;
                    case 2:
                        if (!by_s.temporal) return;
                        in_time = true;
                        by.kind = 1;
                        break;
                    case 3: break;
                    case 4:
                    {
                        auto const ids = s.active_ids();
                        auto const nr_discretized = std::set<ldm::ID>(ids.begin(), ids.end()).size();
                        if (!by_collection && nr_discretized != s.ids.size()) return;
                        break;
                    }
                    default: in_time = rng.chance(50); break;
                }
                c.op("discretize", std::format("kind {} by kind {} in {} collection={}", p.kind, by.kind, in_time ? "time" : "space", by_collection));
                add_property(by_set, by_s, by);
                with_property(by_set, by, [&](auto& grid) {
                    with_property(set, p, [&](auto& property) {
                        if (in_time) property.set_time_discretization(ldm::TimeDiscretization::regular_grid, grid);
                        else property.set_space_discretization(ldm::SpaceDiscretization::regular_grid, grid);
                    });
                });
                c.count("properties.discretized");
            }
    };

}  // namespace dsgen
