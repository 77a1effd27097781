// LINK: lue::data_model
// C08: linked and discretized information resolves to the very object it was linked to.
//
// Model: per property set which set owns the time domain and object tracker it uses, per property what it is
// discretized by, and the content of everything. Monitor: the address in the file of what a link leads to
// (obtained through HDF5 itself), and content written through one end and read through the other.
#include "series.hpp"
#include "snapshot.hpp"

using namespace dm;

namespace {

    using Address = std::pair<unsigned long, haddr_t>;

    auto address(lh5::Identifier const& id) -> Address
    {
        H5O_info_t info;
        if (H5Oget_info(static_cast<hid_t>(id), &info) < 0) throw std::runtime_error("VH-HARNESS-ERROR no object info");
        return {info.fileno, info.addr};
    }

    struct Where
    {
            std::string universe, phenomenon;  // universe may be empty
            bool collection;
            auto text() const -> std::string { return universe + "/" + phenomenon + (collection ? "/c" : "/p"); }
    };

    struct Property
    {
            std::size_t set;
            int kind;
            std::string name;
            std::string description;
            Series series;  // In case of kind 0 and 1
            long time{-1}, space{-1};  // Property this one's time and space are discretized by
    };

    struct Set
    {
            Where where;
            std::string name;
            long time_owner, tracker_owner;  // Index of set, -1: none
            bool has_space{false};
            long presence{-1};
            ldm::TimeDomainItemType type;
            ldm::time::Unit unit;
            std::uint64_t nr_units;
            Series coordinates, set_index, object_index, object_id;
    };

    auto scalar() -> Series { return Series{element_type("uint64"), {}, 0, {}, {}}; }

    class World
    {
        public:
            explicit World(vh::Case& c): c{c}, rng{c.rng}, path{c.path("links.lue")} {}

            vh::Case& c;
            vh::Rng& rng;
            std::string path;
            std::optional<ldm::Dataset> dataset;
            std::vector<Set> sets;
            std::vector<Property> properties;
            std::map<std::size_t, std::vector<ldm::PropertySet>> handles;  // Copies, made earlier

            auto collection(Where const& w) -> ldm::PropertySets&
            {
                auto& p = w.universe.empty() ? dataset->phenomena()[w.phenomenon] : dataset->universes()[w.universe].phenomena()[w.phenomenon];
                return w.collection ? p.collection_property_sets() : p.property_sets();
            }

            // f(property set), with a handle that is the collection's item, a copy, or one that is opened anew
            template<typename F>
            void with_set(std::size_t const i, F&& f)
            {
                auto& sets_group = collection(sets[i].where);
                switch (rng.below(4))
                {
                    case 0: { ldm::PropertySet set{sets_group, sets[i].name}; f(set); break; }
                    case 1: { ldm::PropertySet set{sets_group[sets[i].name]}; f(set); break; }
                    case 2:
                        if (!handles[i].empty())
                        {
                            f(handles[i][rng.below(handles[i].size())]);
                            break;
                        }
                        [[fallthrough]];
                    default: f(sets_group[sets[i].name]); break;
                }
            }

            template<typename F>
            void with_property(ldm::PropertySet& set, Property const& p, F&& f)
            {
                auto& all = set.properties();
                // Properties can be added while handles to their set exist
                auto go = [&]<typename Properties>(std::type_identity<Properties>) {
                    auto& kind = all.template collection<Properties>();
                    using Item = std::decay_t<decltype(kind[p.name])>;
                    if (!kind.contains(p.name) || rng.chance(40))
                    {
                        Item item{kind, p.name};
                        f(item);
                    }
                    else
                    {
                        f(kind[p.name]);
                    }
                };
                switch (p.kind)
                {
                    case 0: go(std::type_identity<ldm::same_shape::Properties>{}); break;
                    case 1: go(std::type_identity<ldm::same_shape::constant_shape::Properties>{}); break;
                    case 2: go(std::type_identity<ldm::same_shape::variable_shape::Properties>{}); break;
                    case 3: go(std::type_identity<ldm::different_shape::Properties>{}); break;
                    case 4: go(std::type_identity<ldm::different_shape::constant_shape::Properties>{}); break;
                    default: go(std::type_identity<ldm::different_shape::variable_shape::Properties>{}); break;
                }
            }

            template<typename F>
            void with_property(std::size_t const i, F&& f)
            {
                auto const p = properties[i];
                with_set(p.set, [&](auto& set) { with_property(set, p, f); });
            }

            auto property_address(std::size_t const i) -> Address
            {
                auto const& p = properties[i];
                Address r;
                auto& set = collection(sets[p.set].where)[sets[p.set].name];
                with_property(set, p, [&](auto& property) { r = address(property.id()); });
                return r;
            }

            template<typename F>
            void with_time(ldm::TimeDomain& domain, ldm::TimeDomainItemType const type, F&& f)
            {
                switch (type)
                {
                    case ldm::TimeDomainItemType::box: { auto v = domain.value<ldm::TimeBox>(); f(v); break; }
                    case ldm::TimeDomainItemType::cell: { auto v = domain.value<ldm::TimeCell>(); f(v); break; }
                    case ldm::TimeDomainItemType::point: { auto v = domain.value<ldm::TimePoint>(); f(v); break; }
                }
            }

            void verify_target(ldm::PropertyGroup group, std::size_t const target, std::string const& what)
            {
                auto& p = properties[target];
                c.check(address(group.id()) == property_address(target), "target:" + what, what + " leads to another object: " + group.id().pathname());
                c.check(group.name() == p.name, "target-name:" + what, what + ": name of property differs");
                c.check(group.description() == p.description, "target-description:" + what, what + ": description of property differs");
                auto with_series = [&](auto& property) {
                    p.series.verify(c, property.value(), what);
                    if (dataset_writable && rng.chance(30)) p.series.write(c, property.value(), what);
                };
                if (p.kind == 0)
                {
                    ldm::same_shape::Property property{group, group.id().pathname()};
                    with_series(property);
                }
                else if (p.kind == 1)
                {
                    ldm::same_shape::constant_shape::Property property{group, group.id().pathname()};
                    with_series(property);
                }
                c.count("links.followed");
            }

            void verify_set(std::size_t const i)
            {
                auto& s = sets[i];
                with_set(i, [&](ldm::PropertySet& set) {
                    c.check(set.owns_object_tracker() == (s.tracker_owner == static_cast<long>(i)), "owns-object-tracker", std::format("ownership of object tracker of set {} differs", i));
                    c.check(set.has_time_domain() == (s.time_owner >= 0), "has-time-domain", std::format("presence of time domain of set {} differs", i));
                    c.check(set.owns_time_domain() == (s.time_owner == static_cast<long>(i)), "owns-time-domain", std::format("ownership of time domain of set {} differs", i));
                    for (std::size_t k = 0; k < sets.size(); ++k)
                    {
                        auto& other = collection(sets[k].where)[sets[k].name];
                        bool const same_tracker = address(set.object_tracker().id()) == address(other.object_tracker().id());
                        c.check(same_tracker == (s.tracker_owner == sets[k].tracker_owner), "object-tracker", std::format("sets {} and {}: sharing of object tracker differs", i, k));
                        if (s.time_owner >= 0 && sets[k].time_owner >= 0)
                        {
                            bool const same_domain = address(set.time_domain().id()) == address(other.time_domain().id());
                            c.check(same_domain == (s.time_owner == sets[k].time_owner), "time-domain", std::format("sets {} and {}: sharing of time domain differs", i, k));
                        }
                        c.count("objects.compared");
                    }
                    auto& owner = sets[s.tracker_owner];
                    auto& tracker = set.object_tracker();
                    owner.set_index.verify(c, tracker.active_set_index(), "active_set_index");
                    owner.object_index.verify(c, tracker.active_object_index(), "active_object_index");
                    owner.object_id.verify(c, tracker.active_object_id(), "active_object_id");
                    if (s.time_owner >= 0)
                    {
                        auto& time = sets[s.time_owner];
                        auto& domain = set.time_domain();
                        c.check(domain.configuration().value<ldm::TimeDomainItemType>() == time.type, "time-configuration", "time item type differs");
                        c.check(domain.clock().unit() == time.unit && domain.clock().nr_units() == time.nr_units, "clock", "clock differs");
                        with_time(domain, time.type, [&](auto& value) { time.coordinates.verify(c, value, "time coordinates"); });
                    }
                    if (s.has_space)
                    {
                        auto& space = set.space_domain();
                        c.check(space.presence_is_discretized() == (s.presence >= 0), "presence-is-discretized", "presence discretization reported wrongly");
                        if (s.presence >= 0) verify_target(space.discretized_presence_property(), s.presence, "presence discretization");
                    }
                });
            }

            void verify_property(std::size_t const i)
            {
                auto const p = properties[i];
                with_property(i, [&](auto& property) {
                    c.check(property.time_is_discretized() == (p.time >= 0), "time-is-discretized", "time discretization reported wrongly");
                    c.check(property.space_is_discretized() == (p.space >= 0), "space-is-discretized", "space discretization reported wrongly");
                    if (p.time >= 0)
                    {
                        c.check(property.time_discretization_type() == ldm::TimeDiscretization::regular_grid, "time-discretization-type", "kind of time discretization differs");
                        verify_target(property.time_discretization_property(), p.time, "time discretization");
                    }
                    if (p.space >= 0)
                    {
                        c.check(property.space_discretization_type() == ldm::SpaceDiscretization::regular_grid, "space-discretization-type", "kind of space discretization differs");
                        verify_target(property.space_discretization_property(), p.space, "space discretization");
                    }
                });
            }

            void verify()
            {
                for (std::size_t i = 0; i < sets.size(); ++i) verify_set(i);
                for (std::size_t i = 0; i < properties.size(); ++i) verify_property(i);
            }

            void add_set()
            {
                auto const i = sets.size();
                Set s{};
                s.where = Where{rng.chance(40) ? "u" + std::to_string(rng.below(2)) : "", "f" + std::to_string(rng.below(2)), rng.chance(40)};
                s.name = random_name(rng) + std::to_string(i);
                std::vector<ldm::TimeDomainItemType> const types{ldm::TimeDomainItemType::box, ldm::TimeDomainItemType::cell, ldm::TimeDomainItemType::point};
                s.type = rng.pick(types);
                s.unit = ldm::time::Unit::hour;
                s.nr_units = rng.next();
                s.coordinates = s.set_index = s.object_index = s.object_id = scalar();
                s.coordinates.shape = {s.type == ldm::TimeDomainItemType::point ? 1U : 2U};
                s.tracker_owner = static_cast<long>(i);
                s.time_owner = -1;
                std::vector<std::size_t> timed;
                for (std::size_t k = 0; k < i; ++k)
                {
                    if (sets[k].time_owner >= 0) timed.push_back(k);
                }
                ldm::TimeConfiguration const time{s.type};
                ldm::Clock const clock{s.unit, s.nr_units};
                ldm::SpaceConfiguration const space{ldm::Mobility::mobile, ldm::SpaceDomainItemType::box};
                auto const type = lh5::native_float64;
                auto how = rng.below(9);
                if (how >= 5 && timed.empty()) how -= 5;
                if (how == 4 && i == 0) how = 2;
                c.op("add-set", std::format("{} {} way {}", i, s.where.text(), how));
                auto& all = collection(s.where);
                auto time_from = timed.empty() ? 0 : rng.pick(timed), tracker_from = i ? rng.below(i) : 0;
                // What is shared is reached through a handle to the set it is shared with, that may share it itself
                auto share_time = [&](auto&& add) {
                    s.time_owner = sets[time_from].time_owner;
                    c.count("domains.shared");
                    with_set(time_from, [&](auto& other) { add(other.time_domain()); });
                };
                auto share_tracker = [&](auto&& add) {
                    s.tracker_owner = sets[tracker_from].tracker_owner;
                    c.count("trackers.shared");
                    with_set(tracker_from, [&](auto& other) { add(other.object_tracker()); });
                };
                switch (how)
                {
                    case 0: all.add(s.name); break;
                    case 1: s.has_space = true; all.add(s.name, space, type, 2); break;
                    case 2: s.time_owner = static_cast<long>(i); all.add(s.name, time, clock); break;
                    case 3: s.time_owner = static_cast<long>(i); s.has_space = true; all.add(s.name, time, clock, space, type, 1); break;
                    case 4: s.time_owner = static_cast<long>(i); share_tracker([&](auto& tracker) { all.add(s.name, time, clock, tracker); }); break;
                    case 5: share_time([&](auto& domain) { all.add(s.name, domain); }); break;
                    case 6: share_time([&](auto& domain) { share_tracker([&](auto& tracker) { all.add(s.name, domain, tracker); }); }); break;
                    case 7: s.has_space = true; share_time([&](auto& domain) { all.add(s.name, domain, space, type, 3); }); break;
                    default:
                        s.has_space = true;
                        share_time([&](auto& domain) { share_tracker([&](auto& tracker) { all.add(s.name, domain, tracker, space, type, 2); }); });
                        break;
                }
                sets.push_back(s);
                c.nontrivial();
            }

            void add_property()
            {
                Property p{};
                p.set = rng.below(sets.size());
                p.kind = static_cast<int>(rng.below(6));
                p.name = "p" + std::to_string(properties.size()) + random_name(rng);
                p.description = rng.chance(50) ? random_text(rng, 8) : "";
                p.series = Series{&rng.pick(element_types()), random_shape(rng, 1, 2, 3), 0, {}, {}};
                c.op("add-property", std::format("set {} kind {}", p.set, p.kind));
                auto& all = collection(sets[p.set].where)[sets[p.set].name].properties();
                auto const type = p.series.type->native();
                switch (p.kind)
                {
                    case 0: all.add<ldm::same_shape::Property>(p.name, type, p.series.shape, p.description); break;
                    case 1: all.add<ldm::same_shape::constant_shape::Property>(p.name, type, p.series.shape, p.description); break;
                    case 2: all.add<ldm::same_shape::variable_shape::Property>(p.name, type, 2, p.description); break;
                    case 3: all.add(p.name, type, 2, p.description); break;
                    case 4: all.add<ldm::different_shape::constant_shape::Property>(p.name, type, 2, p.description); break;
                    default: all.add<ldm::different_shape::variable_shape::Property>(p.name, type, 2, p.description); break;
                }
                properties.push_back(p);
            }

            template<typename F>
            void set_or_refuse(std::string const& what, long& current, std::size_t const target, F&& set)
            {
                if (current < 0)
                {
                    c.op("set-" + what, std::format("by {}", target));
                    set();
                    current = static_cast<long>(target);
                }
                else
                {
                    c.op("set-again-" + what, std::format("by {}", target));
                    auto const before = snapshot::of(dataset->id());
                    c.throws("accepted:set-again-" + what, "setting a discretization again", set);
                    auto const difference = snapshot::difference(before, snapshot::of(dataset->id()));
                    c.check(difference.empty(), "refused-but-changed:" + what, "refused setting of a discretization changed the dataset: " + difference);
                    c.count("links.refused");
                }
            }

            void discretize()
            {
                if (properties.empty()) return;
                auto const i = rng.below(properties.size()), target = rng.below(properties.size());
                auto const which = rng.below(5);
                with_property(target, [&](auto& property) {
                    if (which < 2)
                        set_or_refuse("time-discretization", properties[i].time, target, [&] {
                            with_property(i, [&](auto& p) { p.set_time_discretization(ldm::TimeDiscretization::regular_grid, property); });
                        });
                    else if (which < 4)
                        set_or_refuse("space-discretization", properties[i].space, target, [&] {
                            with_property(i, [&](auto& p) { p.set_space_discretization(ldm::SpaceDiscretization::regular_grid, property); });
                        });
                    else
                    {
                        std::vector<std::size_t> with_space;
                        for (std::size_t k = 0; k < sets.size(); ++k)
                        {
                            if (sets[k].has_space) with_space.push_back(k);
                        }
                        if (with_space.empty()) return;
                        auto const k = rng.pick(with_space);
                        set_or_refuse("presence-discretization", sets[k].presence, target, [&] {
                            with_set(k, [&](auto& set) { set.space_domain().set_presence_discretization(property); });
                        });
                    }
                });
            }

            template<typename Value>
            void change(Value& value, Series& series, std::string const& what)
            {
                if (series.nr == 0 || rng.chance(40)) series.expand(c, value, what); else series.write(c, value, what);
            }

            void change()
            {
                if (!properties.empty() && rng.chance(35))
                {
                    auto const i = rng.below(properties.size());
                    with_property(i, [&](auto& property) {
                        using Value = std::decay_t<decltype(property.value())>;
                        if constexpr (std::is_same_v<Value, ldm::same_shape::Value> || std::is_same_v<Value, ldm::same_shape::constant_shape::Value>)
                            change(property.value(), properties[i].series, std::format("property {}", i));
                    });
                    return;
                }
                auto const i = rng.below(sets.size());
                auto& owner = sets[sets[i].tracker_owner];
                with_set(i, [&](ldm::PropertySet& set) {
                    switch (rng.below(4))
                    {
                        case 0: change(set.object_tracker().active_set_index(), owner.set_index, std::format("set {} active_set_index", i)); break;
                        case 1: change(set.object_tracker().active_object_index(), owner.object_index, std::format("set {} active_object_index", i)); break;
                        case 2: change(set.object_tracker().active_object_id(), owner.object_id, std::format("set {} active_object_id", i)); break;
                        default:
                            if (sets[i].time_owner >= 0)
                            {
                                auto& time = sets[sets[i].time_owner];
                                with_time(set.time_domain(), time.type, [&](auto& value) { change(value, time.coordinates, std::format("set {} time coordinates", i)); });
                            }
                    }
                });
            }

            bool dataset_writable{true};

            void run()
            {
                dataset = ldm::create_dataset(path);
                for (int u = 0; u < 2; ++u)
                {
                    auto& universe = dataset->add_universe("u" + std::to_string(u));
                    for (int f = 0; f < 2; ++f)
                    {
                        universe.phenomena().add("f" + std::to_string(f));
                        if (u == 0) dataset->add_phenomenon("f" + std::to_string(f));
                    }
                }
                add_set();
                auto const nr_steps = rng.range(8, c.thorough() ? 70 : 35);
                for (std::uint64_t step = 0; step < nr_steps; ++step)
                {
                    auto const k = rng.below(100);
                    if (k < 14 && sets.size() < 8) add_set();
                    else if (k < 30 && properties.size() < 8) add_property();
                    else if (k < 50) discretize();
                    else if (k < 80) change();
                    else if (k < 85)
                    {
                        auto const i = rng.below(sets.size());
                        handles[i].push_back(collection(sets[i].where)[sets[i].name]);
                    }
                    else if (k < 92)
                    {
                        if (rng.chance(50)) verify_set(rng.below(sets.size())); else if (!properties.empty()) verify_property(rng.below(properties.size()));
                    }
                    else reopen();
                }
                verify();
                reopen();
                verify();
            }

            void reopen()
            {
                c.op("reopen");
                handles.clear();
                dataset.reset();
                if (rng.chance(30))
                {
                    dataset = ldm::open_dataset(path);
                    dataset_writable = false;
                    verify();
                    dataset_writable = true;
                    dataset.reset();
                }
                dataset = ldm::open_dataset(path, H5F_ACC_RDWR);
            }
    };

    void run(vh::Case& c)
    {
        World world{c};
        world.run();
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
