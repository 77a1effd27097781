// LINK: lue::data_model
// C07: space domains round-trip exactly.
//
// Model: per property set the space configuration, coordinate type, rank and coordinates, and the presence
// discretization that was set last.
#include "series.hpp"

using namespace dm;

namespace {

    struct Set
    {
            std::string name;
            ldm::Mobility mobility;
            ldm::SpaceDomainItemType item;
            std::size_t rank;
            Series coordinates;
            std::vector<std::string> properties;
            std::string presence;  // Empty: none
    };

    // f(value) with the class that corresponds to the configuration
    template<typename F>
    void with_space(vh::Case& c, ldm::SpaceDomain& domain, Set const& s, bool const explicit_type, F&& f)
    {
        auto call = [&]<typename V>(std::type_identity<V>) {
            V value = explicit_type ? domain.value<V>(s.coordinates.type->native()) : domain.value<V>();
            V copy{c.rng.chance(50) ? value : V{std::move(value)}};
            f(copy);
        };
        if (s.mobility == ldm::Mobility::mobile)
        {
            if (s.item == ldm::SpaceDomainItemType::box) call(std::type_identity<ldm::MobileSpaceBox>{}); else call(std::type_identity<ldm::MobileSpacePoint>{});
        }
        else
        {
            if (s.item == ldm::SpaceDomainItemType::box) call(std::type_identity<ldm::StationarySpaceBox>{}); else call(std::type_identity<ldm::StationarySpacePoint>{});
        }
    }

    template<typename V>
    auto nr_items(V const& v) -> ldm::Count
    {
        if constexpr (std::is_same_v<V, ldm::MobileSpaceBox> || std::is_same_v<V, ldm::StationarySpaceBox>) return v.nr_boxes(); else return v.nr_points();
    }

    void verify(vh::Case& c, ldm::Phenomenon& phenomenon, std::vector<Set> const& sets)
    {
        for (auto const& s : sets)
        {
            auto& set = phenomenon.property_sets()[s.name];
            c.check(set.has_space_domain(), "has-space-domain", "space domain is gone");
            auto& domain = set.space_domain();
            c.check(domain.configuration().value<ldm::Mobility>() == s.mobility, "mobility", "mobility differs");
            c.check(domain.configuration().value<ldm::SpaceDomainItemType>() == s.item, "item-type", "item type differs");
            c.check(domain.configuration() == ldm::SpaceConfiguration{s.mobility, s.item}, "configuration", "configuration differs");
            for (bool const explicit_type : {false, true})
            {
                with_space(c, domain, s, explicit_type, [&](auto& value) {
                    s.coordinates.verify(c, value, "coordinates");
                    c.check(nr_items(value) == s.coordinates.nr, "nr-items", "number of items differs");
                });
            }
            c.check(domain.presence_is_discretized() == !s.presence.empty(), "presence-is-discretized", "presence discretization reported wrongly");
            if (!s.presence.empty())
            {
                auto const property = domain.discretized_presence_property();
                c.check(property.name() == s.presence, "presence-property", std::format("presence is discretized by {}, expected {}", property.name(), s.presence));
                c.check(property == set.properties().collection<ldm::same_shape::Properties>()[s.presence], "presence-property", "presence is discretized by another object");
                c.count("presence.followed");
            }
            c.count("sets.compared");
        }
    }

    void run(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("space.lue");
        std::optional<ldm::Dataset> dataset{ldm::create_dataset(path)};
        std::string const phenomenon_name = random_name(rng);
        ldm::Phenomenon* phenomenon = &dataset->add_phenomenon(phenomenon_name);
        std::vector<Set> sets;
        auto const nr_sets = rng.range(1, 3);
        for (std::size_t i = 0; i < nr_sets; ++i)
        {
            Set s;
            s.name = "set" + std::to_string(i);
            s.mobility = rng.chance(50) ? ldm::Mobility::mobile : ldm::Mobility::stationary;
            s.item = rng.chance(50) ? ldm::SpaceDomainItemType::box : ldm::SpaceDomainItemType::point;
            s.rank = rng.range(1, 4);
            auto const& type = rng.chance(50) ? element_types()[8 + rng.below(2)] : rng.pick(element_types());
            s.coordinates = Series{&type, {s.item == ldm::SpaceDomainItemType::box ? 2 * s.rank : s.rank}, 0, {}, {}};
            ldm::SpaceConfiguration const space{s.mobility, s.item};
            auto& collection = phenomenon->property_sets();
            ldm::TimeConfiguration const time{ldm::TimeDomainItemType::box};
            ldm::Clock const clock{ldm::time::Unit::day, 1};
            std::vector<std::size_t> timed;
            for (std::size_t k = 0; k < sets.size(); ++k)
            {
                if (collection[sets[k].name].has_time_domain()) timed.push_back(k);
            }
            auto const how = rng.below(timed.empty() ? 2 : 4);
            c.op("add-set", std::format("way {} {} {} {} rank {}", how, s.mobility == ldm::Mobility::mobile ? "mobile" : "stationary", s.item == ldm::SpaceDomainItemType::box ? "box" : "point", type.name, s.rank));
            switch (how)
            {
                case 0: collection.add(s.name, space, type.native(), s.rank); break;
                case 1: collection.add(s.name, time, clock, space, type.native(), s.rank); break;
                case 2: collection.add(s.name, collection[sets[rng.pick(timed)].name].time_domain(), space, type.native(), s.rank); break;
                default: collection.add(s.name, collection[sets[rng.pick(timed)].name].time_domain(), collection[sets[rng.below(i)].name].object_tracker(), space, type.native(), s.rank); break;
            }
            auto const nr_properties = rng.below(3);
            for (std::size_t k = 0; k < nr_properties; ++k)
            {
                s.properties.push_back("p" + std::to_string(k));
                collection[s.name].properties().add(s.properties.back(), lh5::native_uint8);
            }
            sets.push_back(s);
        }
        auto const nr_steps = rng.range(5, c.thorough() ? 80 : 35);
        for (std::uint64_t step = 0; step < nr_steps; ++step)
        {
            auto& s = sets[rng.below(sets.size())];
            auto& domain = phenomenon->property_sets()[s.name].space_domain();
            auto const k = rng.below(100);
            if (k < 70)
            {
                with_space(c, domain, s, rng.chance(30), [&](auto& value) {
                    if (s.coordinates.nr == 0 || rng.chance(40)) s.coordinates.expand(c, value, "coordinates " + s.name); else s.coordinates.write(c, value, "coordinates " + s.name);
                });
                c.nontrivial();
            }
            else if (k < 80)
            {
                // Presence can be set once
                if (!s.properties.empty() && s.presence.empty())
                {
                    s.presence = rng.pick(s.properties);
                    c.op("set-presence", s.name + " " + s.presence);
                    domain.set_presence_discretization(phenomenon->property_sets()[s.name].properties().collection<ldm::same_shape::Properties>()[s.presence]);
                }
            }
            else if (k < 88)
            {
                verify(c, *phenomenon, sets);
            }
            else
            {
                bool const read_only = rng.chance(30);
                c.op("reopen", read_only ? "read-only first" : "");
                dataset.reset();
                if (read_only)
                {
                    dataset = ldm::open_dataset(path);
                    verify(c, dataset->phenomena()[phenomenon_name], sets);
                    dataset.reset();
                }
                dataset = ldm::open_dataset(path, H5F_ACC_RDWR);
                phenomenon = &dataset->phenomena()[phenomenon_name];
            }
        }
        verify(c, *phenomenon, sets);
        c.op("final-reopen");
        dataset.reset();
        dataset = ldm::open_dataset(path);
        verify(c, dataset->phenomena()[phenomenon_name], sets);
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
