// LINK: lue::data_model
// C05: named collections mirror the file and refuse duplicates without side effects.
//
// Model: the tree of names with the configuration each was added with. Monitors: everything the collections
// report against the model, and the content of the file (through HDF5 itself) around refused operations.
#include "dm.hpp"
#include "snapshot.hpp"

using namespace dm;

namespace {

    struct Property
    {
            int kind;
            std::string description;
            ElementType const* type;
            lh5::Shape shape;
            ldm::Rank rank;
    };

    struct Set
    {
            bool owns_tracker{true}, has_time{false}, owns_time{false}, has_space{false};
            ldm::TimeDomainItemType time_type{};
            ldm::time::Unit unit{};
            std::uint64_t nr_units{0};
            ldm::Mobility mobility{};
            ldm::SpaceDomainItemType space_type{};
            std::map<std::string, Property> properties;
    };

    struct Phenomenon
    {
            std::string description;
            std::map<std::string, Set> sets[2];
    };

    using Phenomena = std::map<std::string, Phenomenon>;

    struct Model
    {
            std::string description;
            Phenomena phenomena;
            std::map<std::string, Phenomena> universes;
    };

    char const* const kind_names[] = {
        "same_shape", "same_shape::constant_shape", "same_shape::variable_shape", "different_shape",
        "different_shape::constant_shape", "different_shape::variable_shape"};

    template<typename Map>
    auto keys(Map const& map) -> std::vector<std::string>
    {
        std::vector<std::string> r;
        for (auto const& p : map)
        {
            r.push_back(p.first);
        }
        return r;
    }

    template<typename Collection>
    void verify_names(vh::Case& c, Collection& collection, std::vector<std::string> const& expected, std::string const& what)
    {
        auto const& constant = collection;
        auto names = constant.names();
        std::sort(names.begin(), names.end());
        c.count("collections.compared");
        c.check(names == expected, "names:" + what, std::format("{}: {} names reported, {} added", what, names.size(), expected.size()));
        c.check(constant.size() == expected.size(), "size:" + what, std::format("{}: size {} reported, {} added", what, constant.size(), expected.size()));
        c.check(constant.empty() == expected.empty(), "empty:" + what, what + ": empty differs");
        std::vector<std::string> visited;
        for (auto const& pair : constant)
        {
            visited.push_back(pair.first);
            c.check(pair.second.id().pathname() == collection.id().pathname() + "/" + pair.first, "item:" + what,
                std::format("{}: item {} is at {}", what, pair.first, pair.second.id().pathname()));
        }
        std::sort(visited.begin(), visited.end());
        c.check(visited == expected, "iteration:" + what, what + ": iteration visits other names");
        for (auto const& name : expected)
        {
            c.check(constant.contains(name), "contains:" + what, std::format("{}: {} not contained", what, name));
            c.check(constant[name].id().pathname() == collection.id().pathname() + "/" + name, "lookup:" + what,
                std::format("{}: {} leads to {}", what, name, constant[name].id().pathname()));
            c.check(collection[name].id().pathname() == collection.id().pathname() + "/" + name, "lookup:" + what,
                std::format("{}: {} leads to {}", what, name, collection[name].id().pathname()));
        }
    }

    template<typename Collection>
    void verify_absent(vh::Case& c, Collection& collection, std::vector<std::string> const& expected, std::string const& name, std::string const& what)
    {
        if (std::find(expected.begin(), expected.end(), name) != expected.end()) return;
        auto const& constant = collection;
        c.check(!constant.contains(name), "contains-absent:" + what, std::format("{}: {} reported, never added", what, name));
        c.throws("lookup-absent:" + what, what, [&] { (void)collection[name]; });
        c.throws("lookup-absent:" + what, what, [&] { (void)constant[name]; });
        c.count("lookups.refused");
    }

    template<typename F>
    auto with_kind(ldm::Properties& properties, int const kind, F&& f)
    {
        switch (kind)
        {
            case 0: return f(properties.collection<ldm::same_shape::Properties>());
            case 1: return f(properties.collection<ldm::same_shape::constant_shape::Properties>());
            case 2: return f(properties.collection<ldm::same_shape::variable_shape::Properties>());
            case 3: return f(properties.collection<ldm::different_shape::Properties>());
            case 4: return f(properties.collection<ldm::different_shape::constant_shape::Properties>());
            default: return f(properties.collection<ldm::different_shape::variable_shape::Properties>());
        }
    }

    void verify_property(vh::Case& c, ldm::Properties& properties, std::string const& name, Property const& p)
    {
        std::string const what = kind_names[p.kind];
        with_kind(properties, p.kind, [&](auto& collection) {
            auto& property = collection[name];
            c.check(property.name() == name, "property-name", std::format("property {} is called {}", name, property.name()));
            c.check(property.description() == p.description, "property-description",
                std::format("{} property {}: description is '{}', expected '{}'", what, name, property.description(), p.description));
            auto& value = property.value();
            using Value = std::decay_t<decltype(value)>;
            if constexpr (std::is_base_of_v<ldm::ValueGroup, Value>)
            {
                c.check(value.rank() == p.rank, "property-rank", std::format("{} property {}: rank {}, expected {}", what, name, value.rank(), p.rank));
                c.check(value.memory_datatype() == p.type->native(), "property-datatype", what + ": memory datatype differs");
                c.check(value.file_datatype() == p.type->file(), "property-datatype", what + ": file datatype differs");
            }
            else
            {
                c.check(value.array_shape() == p.shape, "property-shape",
                    std::format("{} property {}: shape {}, expected {}", what, name, to_string(value.array_shape()), to_string(p.shape)));
                c.check(value.memory_datatype() == p.type->native(), "property-datatype", what + ": memory datatype differs");
                c.check(value.file_datatype() == p.type->file(), "property-datatype", what + ": file datatype differs");
            }
        });
        auto const& constant = properties;
        c.check(constant.contains(name), "properties-contains", std::format("{} not contained", name));
        c.check(constant.shape_per_object(name) == (p.kind < 3 ? ldm::ShapePerObject::same : ldm::ShapePerObject::different),
            "shape-per-object", what + ": shape per object differs");
        c.check(constant.value_variability(name) == (p.kind % 3 == 0 ? ldm::ValueVariability::constant : ldm::ValueVariability::variable),
            "value-variability", what + ": value variability differs");
        if (p.kind % 3 == 0)
        {
            c.throws("shape-variability", what, [&] { (void)constant.shape_variability(name); });
        }
        else
        {
            c.check(constant.shape_variability(name) == (p.kind % 3 == 1 ? ldm::ShapeVariability::constant : ldm::ShapeVariability::variable),
                "shape-variability", what + ": shape variability differs");
        }
        auto const group = properties.collection_group(name).id().pathname();
        auto const expected = with_kind(properties, p.kind, [](auto& collection) { return collection.id().pathname(); });
        c.check(group == expected, "collection-group", std::format("{}: collection group is {}, expected {}", what, group, expected));
        c.count("properties.compared");
    }

    void verify_properties(vh::Case& c, ldm::Properties& properties, Set const& model)
    {
        auto const& constant = properties;
        c.check(constant.size() == model.properties.size(), "properties-size",
            std::format("{} properties reported, {} added", constant.size(), model.properties.size()));
        c.check(constant.empty() == model.properties.empty(), "properties-empty", "emptiness of properties differs");
        for (int kind = 0; kind < 6; ++kind)
        {
            std::vector<std::string> expected;
            for (auto const& [name, p] : model.properties)
            {
                if (p.kind == kind) expected.push_back(name);
            }
            with_kind(properties, kind, [&](auto& collection) { verify_names(c, collection, expected, kind_names[kind]); });
        }
        for (auto const& [name, p] : model.properties)
        {
            verify_property(c, properties, name, p);
        }
        auto const absent = random_name(c.rng);
        if (!model.properties.contains(absent))
        {
            c.check(!constant.contains(absent), "properties-contains-absent", "absent property reported");
            c.throws("properties-lookup-absent", "shape_per_object", [&] { (void)constant.shape_per_object(absent); });
            c.throws("properties-lookup-absent", "value_variability", [&] { (void)constant.value_variability(absent); });
            c.throws("properties-lookup-absent", "shape_variability", [&] { (void)constant.shape_variability(absent); });
            c.throws("properties-lookup-absent", "collection_group", [&] { (void)properties.collection_group(absent); });
        }
    }

    void verify_set(vh::Case& c, ldm::PropertySet& set, Set const& model)
    {
        auto const& constant = set;
        c.check(constant.owns_object_tracker() == model.owns_tracker, "owns-object-tracker", "ownership of object tracker differs");
        c.check(constant.has_time_domain() == model.has_time, "has-time-domain", "presence of time domain differs");
        c.check(constant.owns_time_domain() == model.owns_time, "owns-time-domain", "ownership of time domain differs");
        c.check(constant.has_space_domain() == model.has_space, "has-space-domain", "presence of space domain differs");
        if (model.has_time && constant.has_time_domain())
        {
            auto const& domain = constant.time_domain();
            c.check(domain.configuration().value<ldm::TimeDomainItemType>() == model.time_type, "time-configuration", "time item type differs");
            c.check(domain.clock().unit() == model.unit && domain.clock().nr_units() == model.nr_units, "time-clock", "clock differs");
        }
        if (model.has_space && constant.has_space_domain())
        {
            auto const& domain = constant.space_domain();
            c.check(domain.configuration().value<ldm::Mobility>() == model.mobility, "space-configuration", "mobility differs");
            c.check(domain.configuration().value<ldm::SpaceDomainItemType>() == model.space_type, "space-configuration", "space item type differs");
        }
        verify_properties(c, set.properties(), model);
    }

    void verify_phenomena(vh::Case& c, ldm::Phenomena& phenomena, Phenomena const& model)
    {
        verify_names(c, phenomena, keys(model), "phenomena");
        verify_absent(c, phenomena, keys(model), random_name(c.rng), "phenomena");
        for (auto const& [name, p] : model)
        {
            auto& phenomenon = phenomena[name];
            c.check(phenomenon.description() == p.description, "phenomenon-description",
                std::format("phenomenon {}: description is '{}', expected '{}'", name, phenomenon.description(), p.description));
            for (int i = 0; i < 2; ++i)
            {
                auto& sets = i == 0 ? phenomenon.collection_property_sets() : phenomenon.property_sets();
                std::string const what = i == 0 ? "collection_property_sets" : "property_sets";
                verify_names(c, sets, keys(p.sets[i]), what);
                verify_absent(c, sets, keys(p.sets[i]), random_name(c.rng), what);
                for (auto const& [set_name, set] : p.sets[i])
                {
                    verify_set(c, sets[set_name], set);
                }
            }
        }
    }

    void verify(vh::Case& c, ldm::Dataset& dataset, Model const& model)
    {
        c.check(dataset.description() == model.description, "dataset-description", "description of dataset differs");
        verify_names(c, dataset.universes(), keys(model.universes), "universes");
        verify_absent(c, dataset.universes(), keys(model.universes), random_name(c.rng), "universes");
        for (auto const& [name, phenomena] : model.universes)
        {
            verify_phenomena(c, dataset.universes()[name].phenomena(), phenomena);
        }
        verify_phenomena(c, dataset.phenomena(), model.phenomena);
        c.count("trees.compared");
    }

    void add_property(vh::Case& c, ldm::Properties& properties, Set& model, std::string const& name, bool const duplicate)
    {
        auto& rng = c.rng;
        Property p{};
        p.kind = static_cast<int>(rng.below(6));
        p.type = &rng.pick(element_types());
        p.description = rng.chance(60) ? random_text(rng, 12) : "";
        p.shape = (p.kind < 2 && rng.chance(60)) ? random_shape(rng, 1, 3, 4) : lh5::Shape{};
        p.rank = static_cast<ldm::Rank>(rng.range(0, 3));
        bool const with_shape = !p.shape.empty(), direct = !duplicate && rng.chance(30), untyped = rng.chance(30);
        auto const type = p.type->native();
        c.op(duplicate ? "add-property-again" : "add-property", std::format("{} {} {} direct={} untyped={}", name, kind_names[p.kind], p.type->name, direct, untyped));
        auto check = [&](auto const& property) {
            c.check(property.name() == name && property.description() == p.description, "added-property", "property returned by add is another one");
        };
        auto with_description = [&](auto&& add) {
            if (p.description.empty() && rng.chance(50)) check(add()); else check(add(p.description));
        };
        if (direct)
        {
            switch (p.kind)
            {
                case 0: { auto& k = properties.collection<ldm::same_shape::Properties>();
                    with_description([&](auto const&... d) -> auto& { return with_shape ? k.add(name, type, p.shape, d...) : k.add(name, type, d...); }); break; }
                case 1: { auto& k = properties.collection<ldm::same_shape::constant_shape::Properties>();
                    with_description([&](auto const&... d) -> auto& { return with_shape ? k.add(name, type, p.shape, d...) : k.add(name, type, d...); }); break; }
                case 2: { auto& k = properties.collection<ldm::same_shape::variable_shape::Properties>();
                    with_description([&](auto const&... d) -> auto& { return k.add(name, type, p.rank, d...); }); break; }
                case 3: { auto& k = properties.collection<ldm::different_shape::Properties>();
                    with_description([&](auto const&... d) -> auto& { return k.add(name, type, p.rank, d...); }); break; }
                case 4: { auto& k = properties.collection<ldm::different_shape::constant_shape::Properties>();
                    with_description([&](auto const&... d) -> auto& { return k.add(name, type, p.rank, d...); }); break; }
                default: { auto& k = properties.collection<ldm::different_shape::variable_shape::Properties>();
                    with_description([&](auto const&... d) -> auto& { return k.add(name, type, p.rank, d...); }); break; }
            }
        }
        else
        {
            switch (p.kind)
            {
                case 0:
                    if (untyped) with_description([&](auto const&... d) -> auto& { return with_shape ? properties.add(name, type, p.shape, d...) : properties.add(name, type, d...); });
                    else with_description([&](auto const&... d) -> auto& { return with_shape ? properties.add<ldm::same_shape::Property>(name, type, p.shape, d...) : properties.add<ldm::same_shape::Property>(name, type, d...); });
                    break;
                case 1:
                    with_description([&](auto const&... d) -> auto& { return with_shape ? properties.add<ldm::same_shape::constant_shape::Property>(name, type, p.shape, d...) : properties.add<ldm::same_shape::constant_shape::Property>(name, type, d...); });
                    break;
                case 2: with_description([&](auto const&... d) -> auto& { return properties.add<ldm::same_shape::variable_shape::Property>(name, type, p.rank, d...); }); break;
                case 3:
                    with_description([&](auto const&... d) -> auto& { return properties.add(name, type, p.rank, d...); });
                    break;
                case 4: with_description([&](auto const&... d) -> auto& { return properties.add<ldm::different_shape::constant_shape::Property>(name, type, p.rank, d...); }); break;
                default: with_description([&](auto const&... d) -> auto& { return properties.add<ldm::different_shape::variable_shape::Property>(name, type, p.rank, d...); }); break;
            }
        }
        if (!duplicate) model.properties[name] = p;
    }

    // An owner for links: property sets with a time domain, of any phenomenon
    void add_set(vh::Case& c, ldm::PropertySets& sets, std::map<std::string, Set>& model, std::string const& name,
        std::vector<std::pair<ldm::PropertySet*, Set const*>> const& owners, bool const duplicate)
    {
        auto& rng = c.rng;
        Set s;
        std::vector<ldm::time::Unit> const units{ldm::time::Unit::nanosecond, ldm::time::Unit::microsecond, ldm::time::Unit::millisecond, ldm::time::Unit::second,
            ldm::time::Unit::minute, ldm::time::Unit::hour, ldm::time::Unit::day, ldm::time::Unit::week, ldm::time::Unit::month, ldm::time::Unit::year};
        std::vector<ldm::TimeDomainItemType> const items{ldm::TimeDomainItemType::box, ldm::TimeDomainItemType::cell, ldm::TimeDomainItemType::point};
        s.time_type = rng.pick(items);
        s.unit = rng.pick(units);
        s.nr_units = rng.next();
        s.mobility = rng.chance(50) ? ldm::Mobility::mobile : ldm::Mobility::stationary;
        s.space_type = rng.chance(50) ? ldm::SpaceDomainItemType::box : ldm::SpaceDomainItemType::point;
        ldm::TimeConfiguration const time{s.time_type};
        ldm::Clock const clock{s.unit, s.nr_units};
        ldm::SpaceConfiguration const space{s.mobility, s.space_type};
        auto const type = rng.pick(element_types()).native();
        std::size_t const rank = rng.range(1, 3);
        std::vector<std::pair<ldm::PropertySet*, Set const*>> timed;
        for (auto const& o : owners)
        {
            if (o.second->has_time) timed.push_back(o);
        }
        int overload = static_cast<int>(rng.below(9));
        if (timed.empty() && overload >= 5) overload -= 5;
        if (owners.empty() && overload == 4) overload = 3;
        c.op(duplicate ? "add-property-set-again" : "add-property-set", std::format("{} overload {}", name, overload));
        auto link_time = [&]() -> ldm::TimeDomain& {
            auto const& o = rng.pick(timed);
            s.time_type = o.second->time_type;
            s.unit = o.second->unit;
            s.nr_units = o.second->nr_units;
            s.has_time = true;
            return o.first->time_domain();
        };
        auto own_time = [&] { s.has_time = s.owns_time = true; };
        ldm::PropertySet* added = nullptr;
        switch (overload)
        {
            case 0: added = &sets.add(name); break;
            case 1: s.has_space = true; added = &sets.add(name, space, type, rank); break;
            case 2: own_time(); added = &sets.add(name, time, clock); break;
            case 3: own_time(); s.has_space = true; added = &sets.add(name, time, clock, space, type, rank); break;
            case 4: own_time(); s.owns_tracker = false; added = &sets.add(name, time, clock, rng.pick(owners).first->object_tracker()); break;
            case 5: added = &sets.add(name, link_time()); break;
            case 6: s.owns_tracker = false; added = &sets.add(name, link_time(), rng.pick(owners).first->object_tracker()); break;
            case 7: s.has_space = true; added = &sets.add(name, link_time(), space, type, rank); break;
            default: s.has_space = true; s.owns_tracker = false; added = &sets.add(name, link_time(), rng.pick(owners).first->object_tracker(), space, type, rank); break;
        }
        if (duplicate) return;
        c.check(added->id().pathname() == sets.id().pathname() + "/" + name, "added-property-set", "property set returned by add is another one");
        model[name] = s;
    }

    // f must be refused and leave no trace
    template<typename F>
    void refused(vh::Case& c, ldm::Dataset& dataset, Model const& model, std::string const& key, F&& f)
    {
        auto const before = snapshot::of(dataset.id());
        c.throws("accepted:" + key, "adding a name that is present", f);
        auto const difference = snapshot::difference(before, snapshot::of(dataset.id()));
        c.check(difference.empty(), "refused-but-changed:" + key, "refused " + key + " changed the dataset: " + difference);
        verify(c, dataset, model);
        c.count("additions.refused");
    }

    void run(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("dataset.lue");
        Model model;
        model.description = rng.chance(50) ? random_text(rng, 10) : "";
        bool const in_memory = rng.chance(10);
        c.op("create", in_memory ? "in memory" : "");
        std::optional<ldm::Dataset> dataset{in_memory ? ldm::create_in_memory_dataset(path, model.description) : ldm::create_dataset(path, model.description)};
        c.check(!dataset->lue_version().empty(), "version", "no version");
        auto fresh = [&](auto const& map) {
            for (;;)
            {
                auto name = random_name(rng);
                // Names that are tags of the data model themselves
                if (rng.chance(5)) name = rng.pick(std::vector<std::string>{"lue_value", "properties", "lue_properties", "lue_phenomena", "value", "lue_time_domain", "lue_object_tracker", "same_shape", "lue_same_shape"});
                if (!map.contains(name)) return name;
            }
        };
        auto const nr_steps = rng.range(6, c.thorough() ? 40 : 20);
        for (std::uint64_t step = 0; step < nr_steps; ++step)
        {
            // A phenomena collection
            Phenomena* phenomena_model = &model.phenomena;
            ldm::Phenomena* phenomena = &dataset->phenomena();
            std::string universe;
            if (!model.universes.empty() && rng.chance(50))
            {
                universe = rng.pick(keys(model.universes));
                phenomena_model = &model.universes[universe];
                phenomena = &dataset->universes()[universe].phenomena();
            }
            Phenomenon* phenomenon_model = nullptr;
            ldm::Phenomenon* phenomenon = nullptr;
            int const which = static_cast<int>(rng.below(2));
            Set* set_model = nullptr;
            ldm::PropertySet* set = nullptr;
            std::vector<std::pair<ldm::PropertySet*, Set const*>> owners;
            if (!phenomena_model->empty())
            {
                auto const name = rng.pick(keys(*phenomena_model));
                phenomenon_model = &(*phenomena_model)[name];
                phenomenon = &(*phenomena)[name];
                for (auto& [phenomenon_name, p] : *phenomena_model)
                {
                    for (int i = 0; i < 2; ++i)
                    {
                        for (auto& [set_name, s] : p.sets[i])
                        {
                            auto& other = (*phenomena)[phenomenon_name];
                            owners.emplace_back(&(i == 0 ? other.collection_property_sets() : other.property_sets())[set_name], &s);
                        }
                    }
                }
                auto& sets = phenomenon_model->sets[which];
                if (!sets.empty())
                {
                    auto const set_name = rng.pick(keys(sets));
                    set_model = &sets[set_name];
                    set = &(which == 0 ? phenomenon->collection_property_sets() : phenomenon->property_sets())[set_name];
                }
            }
            auto const operation = rng.below(100);
            if (operation < 8)
            {
                auto const name = fresh(model.universes);
                c.op("add-universe", name);
                auto& u = rng.chance(50) ? dataset->add_universe(name) : dataset->universes().add(name);
                c.check(u.id().name() == name, "added-universe", "universe returned by add is another one");
                model.universes[name];
            }
            else if (operation < 11 && !model.universes.empty())
            {
                auto const name = rng.pick(keys(model.universes));
                c.op("add-universe-again", name);
                bool const convenience = rng.chance(50);
                refused(c, *dataset, model, "universe", [&] { if (convenience) dataset->add_universe(name); else dataset->universes().add(name); });
            }
            else if (operation < 25 || phenomenon == nullptr)
            {
                auto const name = fresh(*phenomena_model);
                auto const description = rng.chance(60) ? random_text(rng, 12) : "";
                c.op("add-phenomenon", name);
                ldm::Phenomenon* added = nullptr;
                if (rng.chance(50)) added = &phenomena->add(name, description);
                else added = universe.empty() ? &dataset->add_phenomenon(name, description) : &dataset->universes()[universe].add_phenomenon(name, description);
                c.check(added->id().name() == name && added->description() == description, "added-phenomenon", "phenomenon returned by add is another one");
                (*phenomena_model)[name].description = description;
            }
            else if (operation < 30)
            {
                auto const name = rng.pick(keys(*phenomena_model));
                c.op("add-phenomenon-again", name);
                auto const description = random_text(rng, 3);
                refused(c, *dataset, model, "phenomenon", [&] { phenomena->add(name, description); });
            }
            else if (operation < 50 || set == nullptr)
            {
                auto& sets = which == 0 ? phenomenon->collection_property_sets() : phenomenon->property_sets();
                add_set(c, sets, phenomenon_model->sets[which], fresh(phenomenon_model->sets[which]), owners, false);
                c.nontrivial();
            }
            else if (operation < 57)
            {
                auto& sets = which == 0 ? phenomenon->collection_property_sets() : phenomenon->property_sets();
                auto const name = rng.pick(keys(phenomenon_model->sets[which]));
                refused(c, *dataset, model, "property-set", [&] { add_set(c, sets, phenomenon_model->sets[which], name, owners, true); });
            }
            else if (operation < 80)
            {
                add_property(c, set->properties(), *set_model, fresh(set_model->properties), false);
                c.nontrivial();
            }
            else if (operation < 90 && !set_model->properties.empty())
            {
                auto const name = rng.pick(keys(set_model->properties));
                refused(c, *dataset, model, "property", [&] { add_property(c, set->properties(), *set_model, name, true); });
            }
            else if (!in_memory)
            {
                bool const read_only = rng.chance(30);
                c.op("reopen", read_only ? "read-only first" : "");
                dataset.reset();
                if (read_only)
                {
                    dataset = ldm::open_dataset(path);
                    verify(c, *dataset, model);
                    dataset.reset();
                }
                dataset = ldm::open_dataset(path, H5F_ACC_RDWR);
                verify(c, *dataset, model);
            }
            if (rng.chance(20)) verify(c, *dataset, model);
        }
        c.op("verify");
        verify(c, *dataset, model);
        if (!in_memory)
        {
            c.op("final-reopen");
            dataset.reset();
            dataset = ldm::open_dataset(path);
            verify(c, *dataset, model);
        }
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
