// Operations on a dataset built by dsgen.hpp that cannot be performed, although the dataset is opened for writing. Preconditions
// that are asserted by the library are met.
#pragma once
#include "modops.hpp"

namespace failops {

    using namespace dm;
    using Operations = std::vector<modops::Modification>;

    // Reading and writing elements that are not there, or not as many as there are. `array` refers to something that remains
    template<typename Array>
    void array_operations(Operations& r, vh::Rng& rng, std::string const& what, std::shared_ptr<Array> array)
    {
        auto add = [&](std::string const& kind, std::string const& detail, std::function<void()> f) { r.push_back({kind, what + " " + detail, std::move(f)}); };
        auto const shape = array->shape();
        auto const rank = shape.size();
        auto const size = array->memory_datatype().size();
        auto const buffer = [size](std::size_t const n) { return std::make_shared<Buffer>(std::max<std::size_t>(n, 1) * size); };
        auto select = [&](std::string const& kind, lh5::Offset const& start, lh5::Stride const& stride, lh5::Count const& count) {
            lh5::Hyperslab const slab{start, stride, count};
            auto const n = slab.nr_elements();
            add(kind, "read", [=] { array->read(slab, buffer(n)->data()); });
            add(kind, "read as", [=] { array->read(array->memory_datatype(), slab, buffer(n)->data()); });
            add(kind, "write", [=] { array->write(slab, buffer(n)->data()); });
            add(kind, "write from", [=] { array->write(lh5::create_dataspace(lh5::Shape{n}), slab, buffer(n)->data()); });
            add(kind, "fill", [=] { array->fill(array->memory_datatype(), slab, buffer(1)->data()); });
        };
        // Another rank
        for (std::size_t const other : {rank + 1, rank - 1, rank + rng.range(2, 20)})
        {
            if (other > 32 || (rank == 0 && other != rank + 1)) continue;
            lh5::Offset start(other, 0);
            select("select-rank", start, lh5::Stride(other, 1), lh5::Count(other, rng.chance(50) ? 1 : 2));
        }
        if (rank == 0) return;
        // Something outside of the array
        {
            auto const d = rng.below(rank);
            lh5::Offset start(rank, 0);
            lh5::Stride stride(rank, 1);
            lh5::Count count(rank, 1);
            auto const n = shape[d];
            lh5::Offset s = start;
            s[d] = n + (rng.chance(50) ? 0 : rng.below(rng.chance(50) ? 5 : 1ULL << 60));
            select("select-start", s, stride, count);
            lh5::Count k = count;
            k[d] = n + 1;
            select("select-count", start, stride, k);
            if (n > 0)
            {
                lh5::Offset s2 = start;
                s2[d] = rng.below(n);
                lh5::Count k2 = count;
                k2[d] = n - s2[d] + rng.range(1, 3);
                select("select-end", s2, stride, k2);
                lh5::Stride t = stride;
                t[d] = n + rng.below(3);
                lh5::Count k3 = count;
                k3[d] = 2;
                select("select-stride", start, t, k3);
            }
        }
        // Another number of elements in memory
        {
            auto const n = product(shape);
            auto const other = n + rng.range(1, 4);
            add("select-memory", "write more", [=] { array->write(lh5::create_dataspace(lh5::Shape{other}), buffer(other)->data()); });
            add("select-memory", "read more", [=] { array->read(lh5::create_dataspace(lh5::Shape{other}), buffer(other)->data()); });
            if (n > 1)
            {
                add("select-memory", "write less", [=] { array->write(lh5::create_dataspace(lh5::Shape{n - 1}), buffer(n)->data()); });
                add("select-memory", "read less", [=] { array->read(lh5::create_dataspace(lh5::Shape{n - 1}), buffer(n)->data()); });
            }
        }
        // Elements of a type they cannot be converted to
        if (product(shape) > 0)
        {
            add("convert", "read text", [=] { Buffer b{product(array->shape()) * sizeof(char*)}; static_cast<lh5::Dataset const&>(*array).read(lh5::Datatype{H5T_C_S1}, b.data()); });
        }
    }

    template<typename V>
    void index_operations(Operations& r, vh::Rng& rng, std::string const& what, std::shared_ptr<V> value)
    {
        auto const n = value->nr_arrays();
        auto const size = product(value->array_shape()) * value->memory_datatype().size();
        if (size == 0) return;
        auto const buffer = [size](std::size_t const k) { return std::make_shared<Buffer>(k * size); };
        auto add = [&](std::string const& kind, std::string const& detail, std::function<void()> f) { r.push_back({kind, what + " " + detail, std::move(f)}); };
        auto const idx = n + (rng.chance(50) ? 0 : rng.below(rng.chance(50) ? 6 : 1ULL << 62));
        add("index", "read", [=] { value->read(idx, buffer(1)->data()); });
        add("index", "write", [=] { value->write(idx, buffer(1)->data()); });
        ldm::IndexRange const range{rng.below(n + 1), n + rng.range(1, 3)};
        auto const count = range.size();
        add("range", "read", [=] { value->read(range, buffer(count)->data()); });
        add("range", "write", [=] { value->write(range, buffer(count)->data()); });
    }

    inline void attribute_operations(Operations& r, std::string const& what, lh5::PrimaryDataObject& object, bool const small)
    {
        auto const o = &object;
        auto add = [&](std::string const& kind, std::string const& detail, std::function<void()> f) { r.push_back({kind, what + " " + detail, std::move(f)}); };
        add("attribute-absent", "number", [=] { o->attributes().read<std::int32_t>("absent"); });
        add("attribute-absent", "text", [=] { o->attributes().read<std::string>("absent"); });
        add("attribute-absent", "datatype", [=] { o->attributes().datatype("absent"); });
        add("attribute-absent", "attribute", [=] { o->attributes().attribute("absent"); });
        if (small) add("attribute-size", "new", [=] { o->attributes().write<std::string>("big", std::string(70'000, 'x')); });
        if (small) add("attribute-size", "list", [=] { o->attributes().write<std::vector<double>>("big", std::vector<double>(10'000, 5.0)); });
        if (small && o->attributes().exists("lue_version")) add("attribute-size", "replace", [=] { o->attributes().write<std::string>("lue_version", std::string(70'000, 'x')); });
        if (small && o->attributes().exists("lue_description")) add("attribute-size", "replace", [=] { o->attributes().write<std::string>("lue_description", std::string(70'000, 'x')); });
        if (o->attributes().exists("lue_version")) add("attribute-type", "text as number", [=] { o->attributes().read<std::int32_t>("lue_version"); });
    }

    inline void group_operations(Operations& r, vh::Rng& rng, std::string const& what, lh5::Group& group)
    {
        auto const g = &group;
        auto add = [&](std::string const& kind, std::string const& detail, std::function<void()> f) { r.push_back({kind, what + " " + detail, std::move(f)}); };
        add("group-absent", "open", [=] { lh5::Group{*g, "absent"}; });
        add("group-absent", "open deep", [=] { lh5::Group{*g, "absent/deep"}; });
        add("array-absent", "open", [=] { lh5::Dataset{*g, "absent"}; });
        add("array-absent", "open", [=] { lh5::open_dataset(g->id(), "absent"); });
        add("group-name", "missing part", [=] { lh5::create_group(*g, "absent/name"); });
        add("group-name", "empty", [=] { lh5::create_group(*g, ""); });
        add("link-name", "empty", [=] { g->create_soft_link(g->id(), ""); });
        add("link-name", "missing part", [=] { g->create_hard_link(g->id(), "absent/name"); });
        auto const create_array = [=](std::string const& name, lh5::Shape const& shape) {
            lh5::create_dataset(g->id(), name, lh5::std_int32_le, lh5::create_dataspace(shape), lh5::Dataset::CreationPropertyList{});
        };
        add("array-name", "missing part", [=] { create_array("absent/name", {3}); });
        add("array-name", "empty", [=] { create_array("", {3}); });
        add("array-rank", "create", [=] { create_array("fresh array", lh5::Shape(33, 1)); });
        auto const names = g->object_names();
        if (!names.empty())
        {
            auto const name = rng.pick(names);
            add("group-exists", name, [=] { lh5::create_group(*g, name); });
            add("link-exists", "soft", [=] { g->create_soft_link(g->id(), name); });
            add("link-exists", "hard", [=] { g->create_hard_link(g->id(), name); });
            add("array-exists", name, [=] { create_array(name, {3}); });
            if (g->contains_group(name)) add("group-as-array", name, [=] { lh5::Dataset{*g, name}; });
            if (g->contains_dataset(name)) add("array-as-group", name, [=] { lh5::Group{*g, name}; });
        }
        add("value-rank", "same", [=] { ldm::same_shape::create_value(*g, "fresh value", lh5::native_int32, lh5::Shape(40, 1)); });
    }

    template<typename Phenomena>
    void phenomena_operations(Operations& r, std::string const& what, Phenomena& phenomena, bool const small)
    {
        auto const p = &phenomena;
        auto add = [&](std::string const& kind, std::string const& detail, std::function<void()> f) { r.push_back({kind, what + " " + detail, std::move(f)}); };
        add("phenomenon-absent", "", [=] { (*p)["absent"]; });
        add("phenomenon-absent", "const", [=] { static_cast<Phenomena const&>(*p)["absent"]; });
        add("phenomenon-name", "empty", [=] { p->add(""); });
        add("phenomenon-name", "missing part", [=] { p->add("absent/name", "description"); });
        if (small) add("phenomenon-description", "", [=] { p->add("fresh phenomenon", std::string(70'000, 'x')); });
        for (auto const& name : p->names()) add("phenomenon-exists", "", [=] { p->add(name); });
    }

    // All failing operations, as functions that refer to the dataset and builder passed in. Attributes are at most 64 KiB if `small`
    inline auto operations(dsgen::Builder& b, ldm::Dataset& dataset, bool const small) -> Operations
    {
        auto& rng = b.rng;
        Operations r;
        auto add = [&](std::string const& kind, std::string const& detail, std::function<void()> f) { r.push_back({kind, detail, std::move(f)}); };
        auto const d = &dataset;
        attribute_operations(r, "dataset", dataset, small);
        group_operations(r, rng, "dataset", dataset);
        group_operations(r, rng, "phenomena", dataset.phenomena());
        add("universe-absent", "", [=] { d->universes()["absent"]; });
        add("universe-name", "", [=] { d->add_universe(""); });
        add("universe-name", "", [=] { d->add_universe("absent/name"); });
        for (auto const& name : dataset.universes().names()) add("universe-exists", "", [=] { d->add_universe(name); });
        phenomena_operations(r, "dataset", dataset.phenomena(), small);
        add("file-exists", "create over the open file", [=] { if (lh5::file_exists(d->pathname())) ldm::create_dataset(d->pathname()); else throw std::runtime_error("In memory"); });
        add("file-absent", "", [=] { ldm::open_dataset(d->pathname() + "/absent", H5F_ACC_RDWR); });
        add("file-absent", "", [=] { ldm::create_dataset(d->pathname() + "/absent/file.lue"); });
        for (auto& p : b.phenomena)
        {
            auto& phenomenon = b.phenomenon(dataset, p);
            if (!p.universe.empty()) phenomena_operations(r, "universe", dataset.universes()[p.universe].phenomena(), small);
            group_operations(r, rng, "phenomenon", phenomenon);
            attribute_operations(r, "phenomenon", phenomenon, small);
            auto ids = std::make_shared<ldm::ObjectID>(phenomenon.object_id());
            array_operations(r, rng, "object-id", ids);
            for (bool const is_collection : {false, true})
            {
                auto& list = is_collection ? p.collection_sets : p.sets;
                auto const sets = is_collection ? &phenomenon.collection_property_sets() : &phenomenon.property_sets();
                add("set-absent", "", [=] { (*sets)["absent"]; });
                ldm::TimeConfiguration const time{ldm::TimeDomainItemType::cell};
                ldm::Clock const clock{ldm::time::Unit::day, 1};
                ldm::SpaceConfiguration const space{ldm::Mobility::mobile, ldm::SpaceDomainItemType::box};
                ldm::SpaceConfiguration const still{ldm::Mobility::stationary, ldm::SpaceDomainItemType::point};
                std::vector<std::string> names{"", "absent/name"};
                for (auto const& s : list) names.push_back(s.name);
                auto const name = rng.pick(names);
                std::string const kind = name.empty() || name == "absent/name" ? "set-name" : "set-exists";
                add(kind, "", [=] { sets->add(name); });
                add(kind, "time", [=] { sets->add(name, time, clock); });
                add(kind, "space", [=] { sets->add(name, space, lh5::native_float64, 2); });
                add(kind, "time space", [=] { sets->add(name, time, clock, space, lh5::native_float64, 2); });
                for (auto& s : list)
                {
                    auto const set = &(*sets)[s.name];
                    group_operations(r, rng, "set", *set);
                    auto const& tracker = set->object_tracker();
                    array_operations(r, rng, "active-set-index", std::make_shared<ldm::ActiveSetIndex>(tracker.active_set_index()));
                    array_operations(r, rng, "active-object-id", std::make_shared<ldm::ActiveObjectID>(tracker.active_object_id()));
                    array_operations(r, rng, "active-object-index", std::make_shared<ldm::ActiveObjectIndex>(tracker.active_object_index()));
                    if (s.has_time)
                    {
                        auto const domain = &set->time_domain();
                        add("set-exists", "shared time", [=] { sets->add(s.name, *domain); });
                        add("set-exists", "shared time, tracker", [=] { sets->add(s.name, *domain, set->object_tracker()); });
                        add("set-exists", "shared time, space", [=] { sets->add(s.name, *domain, space, lh5::native_float64, 2); });
                        add("set-exists", "shared time, tracker, space", [=] { sets->add(s.name, *domain, set->object_tracker(), space, lh5::native_float64, 2); });
                        dsgen::Builder::with_time(set->time_domain(), s.time_type, [&](auto& v) {
                            auto value = std::make_shared<std::remove_cvref_t<decltype(v)>>(v);
                            array_operations(r, rng, "time", value);
                        });
                    }
                    if (s.has_space)
                    {
                        dsgen::Builder::with_space(set->space_domain(), s, [&](auto& v) {
                            auto value = std::make_shared<std::remove_cvref_t<decltype(v)>>(v);
                            array_operations(r, rng, "space", value);
                        });
                    }
                    auto const all = &set->properties();
                    add("property-absent", "shape per object", [=] { all->shape_per_object("absent"); });
                    add("property-absent", "value variability", [=] { all->value_variability("absent"); });
                    add("property-absent", "shape variability", [=] { all->shape_variability("absent"); });
                    add("property-absent", "collection group", [=] { all->collection_group("absent"); });
                    add("property-absent", "same", [=] { all->collection<ldm::same_shape::Properties>()["absent"]; });
                    add("property-absent", "different", [=] { all->collection<ldm::different_shape::variable_shape::Properties>()["absent"]; });
                    auto const add_all = [&](std::string const& kind, std::string const& name, std::size_t const rank, std::string const& description) {
                        lh5::Shape const shape(rank, 1);
                        // Only where there is an array to create. If there is not, rank is just a number
                        bool const any_rank = rank > 32;
                        add(kind, "same", [=] { all->add(name, lh5::native_float32, shape, description); });
                        add(kind, "constant", [=] { all->add<ldm::same_shape::constant_shape::Property>(name, lh5::native_uint8, shape, description); });
                        if (any_rank) return;
                        add(kind, "same scalar", [=] { all->add(name, lh5::native_float32, description); });
                        add(kind, "constant scalar", [=] { all->add<ldm::same_shape::constant_shape::Property>(name, lh5::native_uint8, description); });
                        add(kind, "variable", [=] { all->add<ldm::same_shape::variable_shape::Property>(name, lh5::native_uint8, ldm::Rank{2}, description); });
                        add(kind, "different", [=] { all->add(name, lh5::native_uint8, ldm::Rank{2}, description); });
                        add(kind, "different constant", [=] { all->add<ldm::different_shape::constant_shape::Property>(name, lh5::native_uint8, ldm::Rank{2}, description); });
                        add(kind, "different variable", [=] { all->add<ldm::different_shape::variable_shape::Property>(name, lh5::native_uint8, ldm::Rank{2}, description); });
                    };
                    add_all("property-name", rng.chance(50) ? "" : "absent/name", 2, "");
                    add_all("property-rank", "fresh property", 40, rng.chance(50) ? "" : "description");
                    if (small) add_all("property-description", "fresh property", 2, std::string(70'000, 'x'));
                    for (auto const& property : s.properties)
                    {
                        add_all("property-exists", property.name, 2, "");
                        if (property.kind == 0) add("property-kind", "not temporal", [=] { all->shape_variability(property.name); });
                        if (property.kind != 3) add("property-kind", "other collection", [=] { all->collection<ldm::different_shape::Properties>()[property.name]; });
                        dsgen::Builder::with_property(*set, property, [&](auto& p) {
                            auto& value = p.value();
                            attribute_operations(r, "property", p, small);
                            group_operations(r, rng, "property", p);
                            using V = std::remove_cvref_t<decltype(value)>;
                            if (p.space_is_discretized()) add("discretized-already", "space", [&p] { p.set_space_discretization(ldm::SpaceDiscretization::regular_grid, p); });
                            if (p.time_is_discretized()) add("discretized-already", "time", [&p] { p.set_time_discretization(ldm::TimeDiscretization::regular_grid, p); });
                            if constexpr (std::is_same_v<V, ldm::same_shape::Value> || std::is_same_v<V, ldm::same_shape::constant_shape::Value>)
                            {
                                auto v = std::make_shared<V>(value);
                                array_operations(r, rng, "same", v);
                                index_operations(r, rng, "same", v);
                                auto const shape = v->shape();
                                if (shape.size() > 1)
                                {
                                    auto other = shape;
                                    other[rng.range(1, shape.size() - 1)] += 1;
                                    add("resize", "beyond maximum", [=] { v->resize(other); });
                                }
                            }
                            else if constexpr (std::is_same_v<V, ldm::same_shape::variable_shape::Value>)
                            {
                                auto const n = value.nr_locations_in_time();
                                add("value-absent", "variable", [&value, n] { value[n + 1000]; });
                                add("value-rank", "variable", [&value, n] { value.expand(n + 2000, 2, lh5::Shape(40, 1)); });
                                if (n > 0 && !s.active.empty())
                                {
                                    auto const idx = rng.below(s.active.size());
                                    add("value-exists", "variable", [&value, idx, rank = property.rank] { value.expand(idx, 2, lh5::Shape(rank, 2)); });
                                    auto v = std::make_shared<ldm::same_shape::Value>(value[idx]);
                                    array_operations(r, rng, "variable", v);
                                    index_operations(r, rng, "variable", v);
                                }
                            }
                            else if constexpr (std::is_same_v<V, ldm::different_shape::Value>)
                            {
                                ldm::ID id = 12345;
                                while (value.contains(id)) ++id;
                                add("value-rank", "different", [&value, id] { value.expand(id, lh5::Shape(40, 1)); });
                                std::size_t const at = rng.below(3);
                                add("values-rank", "different", [&value, id, at, rank = property.rank] {
                                    ldm::ID const ids[3] = {id, id + 100000, id + 200000};
                                    std::vector<lh5::Shape> shapes(3, lh5::Shape(rank, 2));
                                    shapes[at] = lh5::Shape(40, 1);
                                    value.expand(3, ids, shapes.data());
                                });
                                add("values-extents", "different", [&value, id, at, rank = property.rank] {
                                    ldm::ID const ids[3] = {id, id + 100000, id + 200000};
                                    std::vector<hsize_t> shapes(3 * rank, 2);
                                    for (std::size_t d = 0; d < rank; ++d) shapes[at * rank + d] = H5S_UNLIMITED;   // Not an extent
                                    value.expand(3, ids, shapes.data());
                                });
                                if (!s.ids.empty())
                                {
                                    auto v = std::make_shared<ldm::Array>(value[rng.pick(s.ids)]);
                                    array_operations(r, rng, "different", v);
                                    auto other = v->shape();
                                    if (!other.empty())
                                    {
                                        other[rng.below(other.size())] += 1;
                                        add("resize", "different", [=] { v->resize(other); });
                                    }
                                }
                            }
                            else if constexpr (std::is_same_v<V, ldm::different_shape::constant_shape::Value>)
                            {
                                ldm::ID id = 12345;
                                auto const ids = s.active_ids();
                                while (std::find(ids.begin(), ids.end(), id) != ids.end()) ++id;
                                add("value-absent", "different constant", [&value, id] { value[id + 1000000]; });
                                add("value-rank", "different constant", [&value, id] { value.expand(id + 1, lh5::Shape(40, 1), 2); });
                                if (!ids.empty())
                                {
                                    auto const present = rng.pick(ids);
                                    add("value-exists", "different constant", [&value, present, rank = property.rank] { value.expand(present, lh5::Shape(rank, 2), 3); });
                                    // Of a number of objects, one cannot be stored
                                    std::size_t const at = rng.below(3);
                                    add("values-exist", "different constant", [&value, id, present, at, rank = property.rank] {
                                        std::vector<ldm::ID> ids{id + 10, id + 11, id + 12};
                                        ids[at] = present;
                                        std::vector<lh5::Shape> const shapes(3, lh5::Shape(rank, 2));
                                        std::vector<ldm::Count> const counts(3, 2);
                                        value.expand(3, ids.data(), shapes.data(), counts.data());
                                    });
                                    auto v = std::make_shared<ldm::same_shape::constant_shape::Value>(value[present]);
                                    array_operations(r, rng, "different constant", v);
                                    index_operations(r, rng, "different constant", v);
                                }
                            }
                            else
                            {
                                auto const n = value.nr_locations_in_time();
                                add("value-absent", "different variable", [&value, n] { value[n + 1000]; });
                                add("value-rank", "different variable", [&value, n] { ldm::ID id = 5; lh5::Shape shape(40, 1); value.expand(n + 2000, 1, &id, &shape); });
                                if (n > 0 && !s.active.empty())
                                {
                                    auto const idx = rng.below(s.active.size());
                                    add("value-exists", "different variable", [&value, idx, rank = property.rank] { ldm::ID id = 5; lh5::Shape shape(rank, 2); value.expand(idx, 1, &id, &shape); });
                                    auto const& active = s.active[idx];
                                    if (!active.empty()) array_operations(r, rng, "different variable", std::make_shared<ldm::Array>(value[idx][rng.pick(active)]));
                                }
                            }
                        });
                    }
                }
            }
        }
        return r;
    }

}  // namespace failops
