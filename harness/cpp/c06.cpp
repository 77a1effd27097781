// LINK: lue::data_model
// C06: time domains and object tracking round-trip exactly.
//
// Model: per property set the configuration and clock it was created with, and the content of each array of
// its time domain and object tracker; per phenomenon its object identities.
#include "series.hpp"

using namespace dm;

namespace {

    struct Tracker
    {
            Series set_index, object_index, object_id;
    };

    struct Set
    {
            std::string name;
            ldm::TimeDomainItemType type;
            ldm::time::Epoch epoch;
            ldm::time::Unit unit;
            std::uint64_t nr_units;
            std::size_t time_owner, tracker_owner;  // Itself or an earlier one
            Series coordinates, counts;
            Tracker tracker;
    };

    auto scalar() -> Series { return Series{element_type("uint64"), {}, 0, {}, {}}; }

    auto set_at(ldm::Phenomenon& phenomenon, Set const& s) -> ldm::PropertySet& { return phenomenon.property_sets()[s.name]; }

    template<typename F>
    void with_time(ldm::TimeDomain& domain, ldm::TimeDomainItemType const type, F&& f)
    {
        switch (type)
        {
            case ldm::TimeDomainItemType::box: { auto v = domain.value<ldm::TimeBox>(); f(v); break; }
            case ldm::TimeDomainItemType::cell: { auto v = domain.value<ldm::TimeCell>(); f(v); break; }
            case ldm::TimeDomainItemType::point: { auto v = domain.value<ldm::TimePoint>(); f(v); break; }
        }
    }

    template<typename V>
    auto nr_items(V const& v) -> ldm::Count
    {
        if constexpr (std::is_same_v<V, ldm::TimePoint>) return v.nr_points(); else return v.nr_boxes();
    }

    void verify(vh::Case& c, ldm::Phenomenon& phenomenon, std::vector<Set>& sets, Series const& ids)
    {
        ids.verify(c, phenomenon.object_id(), "object_id");
        c.check(phenomenon.object_id().nr_objects() == ids.nr, "nr:object_id", "number of objects differs");
        for (auto& s : sets)
        {
            auto& set = set_at(phenomenon, s);
            c.check(set.has_time_domain(), "has-time-domain", "time domain is gone");
            c.check(set.owns_time_domain() == (&sets[s.time_owner] == &s), "owns-time-domain", "ownership of time domain differs");
            c.check(set.owns_object_tracker() == (&sets[s.tracker_owner] == &s), "owns-object-tracker", "ownership of object tracker differs");
            auto& owner = sets[s.time_owner];
            auto& domain = set.time_domain();
            c.check(domain.configuration() == ldm::TimeConfiguration{owner.type}, "configuration", "configuration differs");
            c.check(domain.configuration().value<ldm::TimeDomainItemType>() == owner.type, "item-type", "item type differs");
            auto const clock = domain.clock();
            c.check(clock.unit() == owner.unit, "clock-unit", "unit of clock differs");
            c.check(clock.nr_units() == owner.nr_units, "clock-nr-units", std::format("tick period is {} units, expected {}", clock.nr_units(), owner.nr_units));
            c.check(clock == ldm::Clock{owner.epoch, owner.unit, owner.nr_units}, "clock", "clock is not equal to the one given");
            c.check(clock.epoch().kind() == owner.epoch.kind(), "epoch-kind", "kind of epoch differs");
            c.check(clock.epoch().origin() == owner.epoch.origin(), "epoch-origin", std::format("origin of epoch is {}, expected {}",
                clock.epoch().origin().value_or("(none)"), owner.epoch.origin().value_or("(none)")));
            c.check(clock.epoch().calendar() == owner.epoch.calendar(), "epoch-calendar", "calendar of epoch differs");
            with_time(domain, owner.type, [&]<typename V>(V& value) {
                owner.coordinates.verify(c, value, "time coordinates");
                c.check(nr_items(value) == owner.coordinates.nr, "nr:time items", "number of time items differs");
                c.check(value.nr_locations() == owner.coordinates.nr, "nr:time items", "number of locations in time differs");
                if constexpr (std::is_same_v<V, ldm::TimeCell>)
                {
                    owner.counts.verify(c, value.count(), "time cell counts");
                    c.check(value.nr_counts() == owner.counts.nr, "nr:time cell counts", "number of counts differs");
                    // A cell is a box, too
                    auto box = domain.value<ldm::TimeBox>();
                    owner.coordinates.verify(c, box, "time coordinates");
                }
            });
            auto& tracker = set.object_tracker();
            auto& t = sets[s.tracker_owner].tracker;
            t.set_index.verify(c, tracker.active_set_index(), "active_set_index");
            t.object_index.verify(c, tracker.active_object_index(), "active_object_index");
            t.object_id.verify(c, tracker.active_object_id(), "active_object_id");
            c.check(tracker.active_set_index().nr_indices() == t.set_index.nr, "nr:active_set_index", "number differs");
            c.check(tracker.active_object_index().nr_indices() == t.object_index.nr, "nr:active_object_index", "number differs");
            c.check(tracker.active_object_id().nr_ids() == t.object_id.nr, "nr:active_object_id", "number differs");
            c.count("sets.compared");
        }
    }

    template<typename Value>
    void change(vh::Case& c, Value& value, Series& series, std::string const& what)
    {
        if (series.nr == 0 || c.rng.chance(40)) series.expand(c, value, what); else series.write(c, value, what);
        c.nontrivial();
    }

    void run(vh::Case& c)
    {
        using ldm::time::Calendar, ldm::time::Epoch, ldm::time::Unit;
        auto& rng = c.rng;
        std::string const path = c.path("time.lue");
        std::vector<Unit> const units{Unit::nanosecond, Unit::microsecond, Unit::millisecond, Unit::second, Unit::minute, Unit::hour, Unit::day, Unit::week, Unit::month, Unit::year};
        std::vector<ldm::TimeDomainItemType> const types{ldm::TimeDomainItemType::box, ldm::TimeDomainItemType::cell, ldm::TimeDomainItemType::point};
        std::optional<ldm::Dataset> dataset{ldm::create_dataset(path)};
        std::vector<Set> sets;
        Series ids = scalar();
        std::string const phenomenon_name = random_name(rng);
        ldm::Phenomenon* phenomenon = &dataset->add_phenomenon(phenomenon_name);
        auto const nr_sets = rng.range(1, 3);
        for (std::size_t i = 0; i < nr_sets; ++i)
        {
            Epoch const epoch = [&] {
                auto const kind = rng.chance(50) ? Epoch::Kind::common_era : Epoch::Kind::formation_of_earth;
                switch (rng.below(4))
                {
                    case 0: return Epoch{};
                    case 1: return Epoch{kind};
                    case 2: return Epoch{kind, random_text(rng, 12)};
                    default: return Epoch{kind, rng.chance(50) ? random_text(rng, 6) : "2019-01-02", Calendar::gregorian};
                }
            }();
            Set s{"set" + std::to_string(i), rng.pick(types), epoch, rng.pick(units), rng.chance(30) ? rng.next() : rng.range(0, 100), i, i, scalar(), scalar(), {scalar(), scalar(), scalar()}};
            s.coordinates.shape = {s.type == ldm::TimeDomainItemType::point ? 1U : 2U};
            bool const default_clock = rng.chance(20);
            if (default_clock) s.epoch = Epoch{};
            ldm::Clock const clock = default_clock ? ldm::Clock{s.unit, s.nr_units} : ldm::Clock{s.epoch, s.unit, s.nr_units};
            ldm::TimeConfiguration const configuration{s.type};
            auto& collection = phenomenon->property_sets();
            auto const how = i == 0 ? rng.below(2) : rng.below(6);
            c.op("add-set", std::format("way {} unit {} x {}", how, static_cast<int>(s.unit), s.nr_units));
            auto const& type = rng.pick(element_types());
            ldm::SpaceConfiguration const space{ldm::Mobility::mobile, ldm::SpaceDomainItemType::point};
            auto other = [&]() -> std::size_t { return rng.below(i); };
            switch (how)
            {
                case 0: collection.add(s.name, configuration, clock); break;
                case 1: collection.add(s.name, configuration, clock, space, type.native(), 2); break;
                case 2: s.tracker_owner = sets[other()].tracker_owner; collection.add(s.name, configuration, clock, set_at(*phenomenon, sets[s.tracker_owner]).object_tracker()); break;
                case 3: s.time_owner = sets[other()].time_owner; collection.add(s.name, set_at(*phenomenon, sets[s.time_owner]).time_domain()); break;
                case 4:
                    s.time_owner = sets[other()].time_owner;
                    s.tracker_owner = sets[other()].tracker_owner;
                    collection.add(s.name, set_at(*phenomenon, sets[s.time_owner]).time_domain(), set_at(*phenomenon, sets[s.tracker_owner]).object_tracker());
                    break;
                default: s.time_owner = sets[other()].time_owner; collection.add(s.name, set_at(*phenomenon, sets[s.time_owner]).time_domain(), space, type.native(), 3); break;
            }
            sets.push_back(s);
        }
        auto const nr_steps = rng.range(5, c.thorough() ? 80 : 35);
        for (std::uint64_t step = 0; step < nr_steps; ++step)
        {
            auto& s = rng.pick(sets);
            auto& set = set_at(*phenomenon, s);
            auto& mutable_s = sets[&s - sets.data()];
            auto& owner = sets[mutable_s.time_owner];
            auto& t = sets[mutable_s.tracker_owner].tracker;
            switch (rng.below(9))
            {
                case 0: change(c, phenomenon->object_id(), ids, "object_id"); break;
                case 1: case 2: with_time(set.time_domain(), owner.type, [&](auto& value) { change(c, value, owner.coordinates, "time coordinates"); }); break;
                case 3:
                    if (owner.type == ldm::TimeDomainItemType::cell)
                    {
                        auto cell = set.time_domain().value<ldm::TimeCell>();
                        change(c, cell.count(), owner.counts, "time cell counts");
                    }
                    break;
                case 4: change(c, set.object_tracker().active_set_index(), t.set_index, "active_set_index"); break;
                case 5: change(c, set.object_tracker().active_object_index(), t.object_index, "active_object_index"); break;
                case 6: change(c, set.object_tracker().active_object_id(), t.object_id, "active_object_id"); break;
                case 7: verify(c, *phenomenon, sets, ids); break;
                default:
                    if (rng.chance(60))
                    {
                        bool const read_only = rng.chance(30);
                        c.op("reopen", read_only ? "read-only first" : "");
                        dataset.reset();
                        if (read_only)
                        {
                            dataset = ldm::open_dataset(path);
                            verify(c, dataset->phenomena()[phenomenon_name], sets, ids);
                            dataset.reset();
                        }
                        dataset = ldm::open_dataset(path, H5F_ACC_RDWR);
                        phenomenon = &dataset->phenomena()[phenomenon_name];
                    }
            }
        }
        verify(c, *phenomenon, sets, ids);
        c.op("final-reopen");
        dataset.reset();
        dataset = ldm::open_dataset(path);
        verify(c, dataset->phenomena()[phenomenon_name], sets, ids);
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
