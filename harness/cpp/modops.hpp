// Modifications of a dataset that was built by dsgen.hpp, all of which are valid if the dataset is opened for writing.
#pragma once
#include "dsgen.hpp"

namespace modops {

    using namespace dm;

    struct Modification
    {
            std::string kind, detail;
            std::function<void()> apply;
    };

    // All modifications, as functions that refer to the dataset and builder passed in
    inline auto modifications(dsgen::Builder& b, ldm::Dataset& dataset) -> std::vector<Modification>
    {
        auto& rng = b.rng;
        std::vector<Modification> r;
        auto add = [&](std::string const& kind, std::string const& detail, std::function<void()> f) { r.push_back({kind, detail, std::move(f)}); };
        std::string const fresh = random_name(rng) + " fresh " + std::to_string(rng.below(1ULL << 40));
        auto const elements = [](std::size_t const n) { return std::make_shared<Buffer>(n); };
        // Write something else over what is there
        auto const overwrite = [elements](auto& array) {
            auto const n = product(array.shape()) * array.memory_datatype().size();
            auto const buffer = elements(n);
            array.write(buffer->data());
        };
        add("add-universe", "", [&dataset, fresh] { dataset.add_universe(fresh); });
        add("add-phenomenon", "", [&dataset, fresh] { dataset.add_phenomenon(fresh); });
        add("add-phenomenon", "with description", [&dataset, fresh] { dataset.add_phenomenon(fresh, "description"); });
        add("write-attribute", "new", [&dataset] { dataset.attributes().write<std::int32_t>("fresh", 5); });
        add("write-attribute", "text", [&dataset] { dataset.attributes().write<std::string>("fresh", "text"); });
        add("write-attribute", "list", [&dataset] { dataset.attributes().write<std::vector<double>>("fresh", {1.0, 2.0}); });
        add("write-attribute", "replace", [&dataset] { dataset.attributes().write<std::string>("lue_version", "something else"); });
        add("create-group", "", [&dataset, fresh] { lh5::create_group(dataset, fresh); });
        add("create-soft-link", "", [&dataset, fresh] { dataset.create_soft_link(dataset.phenomena().id(), fresh); });
        add("create-hard-link", "", [&dataset, fresh] { dataset.create_hard_link(dataset.phenomena().id(), fresh); });
        add("create-array", "", [&dataset, fresh] { lh5::create_dataset(dataset.id(), fresh, lh5::std_int32_le, lh5::create_dataspace(lh5::Shape{3}), lh5::Dataset::CreationPropertyList{}); });
        add("create-value", "same", [&dataset, fresh] { ldm::same_shape::create_value(dataset, fresh, lh5::native_int32); });
        add("create-value", "different", [&dataset, fresh] { ldm::different_shape::create_value(dataset, fresh, lh5::native_int32, 2); });
        for (auto& p : b.phenomena)
        {
            auto& phenomenon = b.phenomenon(dataset, p);
            if (!p.universe.empty())
            {
                auto& universe = dataset.universes()[p.universe];
                add("add-phenomenon", "universe", [&universe, fresh] { universe.add_phenomenon(fresh); });
            }
            add("expand-object-id", "", [&phenomenon] { phenomenon.object_id().expand(1); });
            if (!p.ids.empty()) add("write-object-id", "", [&phenomenon, overwrite] { overwrite(phenomenon.object_id()); });
            for (bool const is_collection : {false, true})
            {
                auto& list = is_collection ? p.collection_sets : p.sets;
                auto& sets = is_collection ? phenomenon.collection_property_sets() : phenomenon.property_sets();
                add("add-set", "", [&sets, fresh] { sets.add(fresh); });
                add("add-set", "time", [&sets, fresh] { sets.add(fresh, ldm::TimeConfiguration{ldm::TimeDomainItemType::cell}, ldm::Clock{ldm::time::Unit::day, 1}); });
                add("add-set", "space", [&sets, fresh] { sets.add(fresh, ldm::SpaceConfiguration{ldm::Mobility::mobile, ldm::SpaceDomainItemType::box}, lh5::native_float64, 2); });
                for (auto& s : list)
                {
                    auto& set = sets[s.name];
                    auto& tracker = set.object_tracker();
                    add("expand-set-index", "", [&tracker] { tracker.active_set_index().expand(1); });
                    add("expand-active-id", "", [&tracker] { tracker.active_object_id().expand(1); });
                    add("expand-object-index", "", [&tracker] { tracker.active_object_index().expand(1); });
                    if (!s.active.empty()) add("write-set-index", "", [&tracker, overwrite] { overwrite(tracker.active_set_index()); });
                    if (!s.active_ids().empty()) add("write-active-id", "", [&tracker, overwrite] { overwrite(tracker.active_object_id()); });
                    if (s.has_time) add("expand-time", "", [&set, &s] { dsgen::Builder::with_time(set.time_domain(), s.time_type, [](auto& v) { v.expand(1); }); });
                    if (s.has_space)
                    {
                        add("expand-space", "", [&set, &s] { dsgen::Builder::with_space(set.space_domain(), s, [](auto& v) { v.expand(1); }); });
                        if (s.presence < 0 && !set.space_domain().presence_is_discretized() && !s.properties.empty())
                        {
                            add("set-presence", "", [&set, &s] { dsgen::Builder::with_property(set, s.properties[0], [&](auto& property) { set.space_domain().set_presence_discretization(property); }); });
                        }
                    }
                    add("add-property", "same", [&set, fresh] { set.properties().add(fresh, lh5::native_float32); });
                    add("add-property", "same", [&set, fresh] { set.properties().add(fresh, lh5::native_float32, lh5::Shape{2, 3}); });
                    add("add-property", "constant", [&set, fresh] { set.properties().add<ldm::same_shape::constant_shape::Property>(fresh, lh5::native_uint8, lh5::Shape{2, 3}); });
                    add("add-property", "variable", [&set, fresh] { set.properties().add<ldm::same_shape::variable_shape::Property>(fresh, lh5::native_uint8, 2); });
                    add("add-property", "different", [&set, fresh] { set.properties().add(fresh, lh5::native_uint8, 2); });
                    add("add-property", "different constant", [&set, fresh] { set.properties().add<ldm::different_shape::constant_shape::Property>(fresh, lh5::native_uint8, 2); });
                    add("add-property", "different variable", [&set, fresh] { set.properties().add<ldm::different_shape::variable_shape::Property>(fresh, lh5::native_uint8, 2); });
                    for (std::size_t i = 0; i < s.properties.size(); ++i)
                    {
                        auto const& property = s.properties[i];
                        add("write-attribute", "property", [&set, &property] { dsgen::Builder::with_property(set, property, [](auto& p) { p.attributes().template write<std::uint8_t>("fresh", 1); }); });
                        dsgen::Builder::with_property(set, property, [&](auto& p) {
                            if (!p.space_is_discretized() && !p.time_is_discretized() && property.kind == 0)
                            {
                                add("set-discretization", "", [&p] {
                                    if constexpr (requires { p.set_space_discretization(ldm::SpaceDiscretization::regular_grid, p); })
                                    {
                                        p.set_space_discretization(ldm::SpaceDiscretization::regular_grid, p);
                                    }
                                });
                            }
                            auto& value = p.value();
                            using V = std::remove_cvref_t<decltype(value)>;
                            if constexpr (std::is_same_v<V, ldm::same_shape::Value> || std::is_same_v<V, ldm::same_shape::constant_shape::Value>)
                            {
                                add("expand-value", "same", [&value] { value.expand(1); });
                                auto const n = value.nr_arrays();
                                if (n > 0)
                                {
                                    add("write-value", "whole", [&value, overwrite] { overwrite(value); });
                                    auto const size = product(value.array_shape()) * value.memory_datatype().size();
                                    add("write-value", "index", [&value, elements, size, n] { value.write(n - 1, elements(size)->data()); });
                                    add("write-value", "range", [&value, elements, size, n] { value.write(ldm::IndexRange{0, n}, elements(size * n)->data()); });
                                    add("fill-value", "", [&value, elements] {
                                        auto const shape = value.shape();
                                        value.fill(value.memory_datatype(), lh5::Hyperslab{lh5::Offset(shape.size(), 0), lh5::Count(shape.begin(), shape.end())}, elements(8)->data());
                                    });
                                    add("shrink-value", "", [&value] { auto shape = value.shape(); shape[0] -= 1; value.resize(shape); });
                                }
                            }
                            else if constexpr (std::is_same_v<V, ldm::same_shape::variable_shape::Value>)
                            {
                                auto const n = value.nr_locations_in_time();
                                add("expand-value", "variable", [&value, n, rank = property.rank] { value.expand(n + 100, 2, lh5::Shape(rank, 2)); });
                                if (!s.active.empty())
                                {
                                    auto const last = value[s.active.size() - 1];
                                    if (last.nr_arrays() > 0) add("write-value", "variable", [last, overwrite] { auto v = last; overwrite(v); });
                                }
                            }
                            else if constexpr (std::is_same_v<V, ldm::different_shape::Value>)
                            {
                                ldm::ID id = 12345;
                                while (value.contains(id)) ++id;
                                add("expand-value", "different", [&value, id, rank = property.rank] { value.expand(id, lh5::Shape(rank, 2)); });
                                if (!s.ids.empty())
                                {
                                    auto const array = value[s.ids[0]];
                                    add("write-value", "different", [array, overwrite] { auto v = array; overwrite(v); });
                                }
                            }
                            else if constexpr (std::is_same_v<V, ldm::different_shape::constant_shape::Value>)
                            {
                                ldm::ID id = 12345;
                                while (value.exists(id)) ++id;
                                add("expand-value", "different constant", [&value, id, rank = property.rank] { value.expand(id, lh5::Shape(rank, 2), 3); });
                            }
                            else
                            {
                                auto const n = value.nr_locations_in_time();
                                add("expand-value", "different variable", [&value, n, rank = property.rank] { ldm::ID id = 5; lh5::Shape shape(rank, 2); value.expand(n + 100, 1, &id, &shape); });
                            }
                        });
                    }
                }
            }
        }
        return r;
    }

}  // namespace modops
