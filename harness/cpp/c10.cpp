// LINK: lue::data_model
// C10: validation reports every inconsistency and every malformed file, and never crashes.
//
// Workload: a random consistent dataset (dsgen.hpp) in which exactly one thing is made inconsistent, or from which one
// required part is removed, or a file that is no LUE dataset at all. Oracle: an error is reported, about something in the
// phenomenon that was changed; or an exception is raised. Everything that can be reached through the interface is read
// as well, under the sanitizers.
#include "dsgen.hpp"
#include "snapshot.hpp"
#include "walk.hpp"

using namespace dm;

namespace {

    using Numbers = std::vector<std::uint64_t>;

    // Arrays of 64-bit numbers, accessed through HDF5 itself
    auto extents(hid_t const id) -> std::vector<hsize_t>
    {
        hid_t const space = H5Dget_space(id);
        std::vector<hsize_t> r(H5Sget_simple_extent_ndims(space));
        H5Sget_simple_extent_dims(space, r.data(), nullptr);
        H5Sclose(space);
        return r;
    }

    auto read_numbers(hid_t const id) -> Numbers
    {
        std::size_t n = 1;
        for (auto const e : extents(id)) n *= e;
        Numbers r(n);
        if (n) H5Dread(id, H5T_NATIVE_UINT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, r.data());
        return r;
    }

    void write_numbers(vh::Case& c, hid_t const id, Numbers const& values)
    {
        auto e = extents(id);
        std::size_t per = 1;
        for (std::size_t i = 1; i < e.size(); ++i) per *= e[i];
        e[0] = values.size() / per;
        bool const ok = H5Dset_extent(id, e.data()) >= 0 && (values.empty() || H5Dwrite(id, H5T_NATIVE_UINT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, values.data()) >= 0);
        c.check(ok, "harness", "cannot write numbers");
    }

    void change_extent(vh::Case& c, hid_t const id, long const by)
    {
        auto e = extents(id);
        e[0] += by;
        c.check(H5Dset_extent(id, e.data()) >= 0, "harness", "cannot change the extent");
    }

    struct Mutation
    {
            std::string kind, detail;
            std::function<void()> apply;
            std::string pathname;  // Errors must be about something in here
    };

    // An index: those at the ends are more likely
    auto edge(vh::Rng& rng, std::size_t const n) -> std::size_t
    {
        auto const k = rng.below(100);
        return k < 30 ? n - 1 : k < 50 ? 0 : rng.below(n);
    }

    // The set of which the time domain is
    auto domain_of(dsgen::Phenomenon const& p, bool const is_collection, std::size_t set) -> std::tuple<dsgen::Phenomenon const*, bool, std::size_t>
    {
        auto const& list = is_collection ? p.collection_sets : p.sets;
        while (list[set].time_from >= 0) set = static_cast<std::size_t>(list[set].time_from);
        return {&p, is_collection, set};
    }

    // Presence in space that is discretized by a property that cannot be used for that
    void wrong_presence(vh::Case& c, dsgen::Builder& b, ldm::Dataset& dataset, dsgen::Phenomenon& p, ldm::PropertySet& set, dsgen::Set& s, std::string const& where, std::vector<Mutation>& r)
    {
        if (!s.has_space || set.space_domain().presence_is_discretized()) return;
        bool const is_collection = &s >= p.collection_sets.data() && &s < p.collection_sets.data() + p.collection_sets.size();
        auto const idx = static_cast<std::size_t>(&s - (is_collection ? p.collection_sets.data() : p.sets.data()));
        for (auto& q : b.phenomena)
        {
            for (std::size_t i = 0; i < q.sets.size(); ++i)
            {
                for (auto& by : q.sets[i].properties)
                {
                    auto apply = [&set, &b, &dataset, &q, i, by] {
                        dsgen::Builder::with_property(b.phenomenon(dataset, q).property_sets()[q.sets[i].name], by, [&](auto& property) { set.space_domain().set_presence_discretization(property); });
                    };
                    if (s.space_type != ldm::SpaceDomainItemType::box)
                    {
                        r.push_back({"presence-of-points", "", apply, where});
                    }
                    else if (s.mobility == ldm::Mobility::stationary && s.has_time && q.sets[i].has_time && by.kind % 3 != 0 && domain_of(p, is_collection, idx) != domain_of(q, false, i))
                    {
                        r.push_back({"presence-other-time-domain", "", apply, b.phenomenon(dataset, q).id().pathname()});
                    }
                }
            }
        }
    }

    // Properties discretized by a property that cannot be used for that. All is right with the property itself
    void wrong_grids(
        vh::Case& c, dsgen::Builder& b, ldm::Dataset& dataset, dsgen::Phenomenon& p, ldm::PropertySet& set, dsgen::Set& s, bool const is_collection, dsgen::Property const& property,
        std::string const& where, std::vector<Mutation>& r)
    {
        auto& rng = c.rng;
        bool discretized = true;
        bool const in_time = property.kind == 2;
        dsgen::Builder::with_property(set, property, [&](auto& property_) { discretized = in_time ? property_.time_is_discretized() : property_.space_is_discretized(); });
        if (discretized || property.kind == 0 || property.kind == 5) return;
        auto const detail = std::format("{} kind {}", is_collection ? "collection set" : "set", property.kind);
        auto const ids = s.active_ids();
        auto const nr = property.kind == 1 ? 1 : property.kind == 3 ? s.ids.size() : std::set<ldm::ID>(ids.begin(), ids.end()).size();
        auto add = [&](std::string const& kind, dsgen::Property const& by, dsgen::Phenomenon& q, std::size_t const set_idx, bool const by_collection) {
            r.push_back({kind, detail, [&b, &dataset, &q, &set, set_idx, by_collection, property, by, in_time] {
                auto& by_set = by_collection ? b.phenomenon(dataset, q).collection_property_sets()[q.collection_sets[set_idx].name] : b.phenomenon(dataset, q).property_sets()[q.sets[set_idx].name];
                dsgen::Set copy = by_collection ? q.collection_sets[set_idx] : q.sets[set_idx];
                b.add_property(by_set, copy, by);
                dsgen::Builder::with_property(by_set, by, [&](auto& grid) {
                    dsgen::Builder::with_property(set, property, [&](auto& property_) {
                        if (in_time) property_.set_time_discretization(ldm::TimeDiscretization::regular_grid, grid);
                        else property_.set_space_discretization(ldm::SpaceDiscretization::regular_grid, grid);
                    });
                });
            }, &q == &p ? where : ""});
        };
        auto const set_idx = static_cast<std::size_t>(&s - (is_collection ? p.collection_sets.data() : p.sets.data()));
        dsgen::Property by{};
        by.name = "wrong grid";
        by.type = &element_types()[rng.below(4)];
        by.shape = {static_cast<hsize_t>(std::max(1, static_cast<int>(property.kind < 2 ? property.shape.size() : property.rank)))};
        by.rank = 1;
        auto kind = [&by](int const k) {
            auto other = by;
            other.kind = k;
            return other;
        };
        if (in_time)
        {
            add("time-grid-constant", kind(0), p, set_idx, is_collection);
            add("time-grid-different-shape", kind(s.indexed ? 4 : 5), p, set_idx, is_collection);
            add("time-grid-variable-shape", kind(2), p, set_idx, is_collection);
            return;
        }
        add("grid-different-shape", kind(3), p, set_idx, is_collection);
        if (property.kind != 1 && s.temporal) add("grid-variable", kind(1), p, set_idx, is_collection);
        if (is_collection || nr == s.ids.size())
        {
            auto other = kind(0);
            other.type = &element_types()[4 + rng.below(element_types().size() - 4)];
            add("grid-not-unsigned", other, p, set_idx, is_collection);
        }
        for (auto& q : b.phenomena)
        {
            for (std::size_t i = 0; i < q.sets.size(); ++i)
            {
                if (q.sets[i].ids.size() != nr) add(q.sets[i].ids.size() < nr ? "grid-for-fewer" : "grid-for-more", kind(0), q, i, false);
            }
        }
    }

    // All the ways in which the dataset can be made inconsistent
    auto mutations(vh::Case& c, dsgen::Builder& b, ldm::Dataset& dataset, std::vector<lh5::Identifier>& keep) -> std::vector<Mutation>
    {
        auto& rng = c.rng;
        std::vector<Mutation> r;
        for (auto& p : b.phenomena)
        {
            auto& phenomenon = b.phenomenon(dataset, p);
            std::string const where = phenomenon.id().pathname();
            auto add = [&](std::string const& kind, std::string const& detail, std::function<void()> f) { r.push_back({kind, detail, std::move(f), where}); };
            if (!p.ids.empty())
            {
                add("duplicate-object-id", "", [&] {
                    auto v = read_numbers(phenomenon.object_id().id());
                    auto const i = edge(rng, v.size());
                    if (v.size() == 1 || rng.chance(30)) v.push_back(v[i]);
                    else v[i] = v[(i + rng.range(1, v.size() - 1)) % v.size()];
                    write_numbers(c, phenomenon.object_id().id(), v);
                });
            }
            for (bool const is_collection : {false, true})
            {
                auto& list = is_collection ? p.collection_sets : p.sets;
                auto& sets = is_collection ? phenomenon.collection_property_sets() : phenomenon.property_sets();
                for (auto& s : list)
                {
                    auto& set = sets[s.name];
                    std::string const in = is_collection ? "collection set" : "set";
                    auto& tracker = set.object_tracker();
                    hid_t const set_index = tracker.active_set_index().id(), object_id = tracker.active_object_id().id(), object_index = tracker.active_object_index().id();
                    auto const n = s.active_ids().size();
                    if (s.temporal)
                    {
                        bool positive = false;
                        std::size_t after_nonempty = 0;
                        for (std::size_t i = 0; i + 1 < s.active.size(); ++i)
                        {
                            positive = positive || !s.active[i].empty();
                            if (!s.active[i].empty()) after_nonempty = i + 1;
                        }
                        if (positive)
                        {
                            add("set-index-decreases", in, [&, after_nonempty, set_index] {
                                auto v = read_numbers(set_index);
                                if (rng.chance(50)) std::swap(v[after_nonempty], v[after_nonempty - 1]);
                                else v[after_nonempty - 1] = v[after_nonempty] + rng.range(1, 3);
                                write_numbers(c, set_index, v);
                            });
                        }
                        if (!s.active.empty())
                        {
                            add("set-index-past-ids", in, [&, set_index, n] {
                                auto v = read_numbers(set_index);
                                if (rng.chance(50)) v.back() = n + (rng.chance(20) ? std::uint64_t{1} << 60U : rng.range(1, 3));
                                else
                                {
                                    auto const from = rng.below(v.size());
                                    for (auto i = from; i < v.size(); ++i) v[i] = n + 1 + i - from;
                                }
                                write_numbers(c, set_index, v);
                            });
                        }
                        if (n > 0)
                        {
                            add("set-index-missing", in, [&, set_index] { write_numbers(c, set_index, {}); });
                            add("active-id-missing", in, [&, object_id, n, set_index, object_index] {
                                // The last set is not complete anymore. Detected if something else depends on it
                                auto v = read_numbers(object_id);
                                v.pop_back();
                                write_numbers(c, object_id, v);
                                auto i = read_numbers(set_index);
                                for (auto& e : i) e = std::max<std::uint64_t>(e, n);  // All start past the end
                                write_numbers(c, set_index, i);
                            });
                        }
                        std::vector<std::pair<std::size_t, std::size_t>> several;  // First, number of
                        for (std::size_t i = 0, first = 0; i < s.active.size(); first += s.active[i].size(), ++i)
                        {
                            if (s.active[i].size() > 1) several.emplace_back(first, s.active[i].size());
                        }
                        if (!several.empty())
                        {
                            add("active-id-repeated", in, [&, several, object_id] {
                                auto v = read_numbers(object_id);
                                auto const [first, size] = several[edge(rng, several.size())];
                                auto const i = rng.below(size);
                                v[first + i] = v[first + (i + rng.range(1, size - 1)) % size];
                                write_numbers(c, object_id, v);
                            });
                        }
                        if (n > 0 && (!p.ids.empty() || is_collection))
                        {
                            if (!is_collection || n > 1)
                            {
                                add("unknown-active-id", in, [&, object_id, n, is_collection] {
                                    auto v = read_numbers(object_id);
                                    std::uint64_t id = rng.next();
                                    while (std::find(p.ids.begin(), p.ids.end(), id) != p.ids.end() || std::find(v.begin(), v.end(), id) != v.end()) ++id;
                                    v[is_collection ? 1 + edge(rng, n - 1) : edge(rng, n)] = id;
                                    write_numbers(c, object_id, v);
                                });
                            }
                        }
                        if (s.has_time)
                        {
                            b.with_time(set.time_domain(), s.time_type, [&]<typename V>(V& value) {
                                hid_t const coordinates = value.id();
                                keep.push_back(value.id());
                                auto v = read_numbers(coordinates);
                                std::vector<std::size_t> at;
                                for (std::size_t i = 0; i + 1 < v.size(); ++i) if (v[i] < v[i + 1]) at.push_back(i);
                                if (!at.empty())
                                {
                                    add("time-decreases", in, [&, coordinates, v, at]() mutable {
                                        auto const i = at[edge(rng, at.size())];
                                        if (rng.chance(50)) std::swap(v[i], v[i + 1]);
                                        else v[i] = v[i + 1] + 1;
                                        write_numbers(c, coordinates, v);
                                    });
                                }
                                std::size_t const per = std::is_same_v<V, ldm::TimePoint> ? 1 : 2;
                                auto const last = v.empty() ? 0 : v.back();
                                if constexpr (!std::is_same_v<V, ldm::TimeCell>)
                                {
                                    add("more-time-items", in, [&, coordinates, v, per, last]() mutable {
                                        for (std::size_t i = 0; i < per; ++i) v.push_back(last);
                                        write_numbers(c, coordinates, v);
                                    });
                                    if (!v.empty()) add("fewer-time-items", in, [&, coordinates, v, per]() mutable {
                                        v.resize(v.size() - per);
                                        write_numbers(c, coordinates, v);
                                    });
                                }
                                else
                                {
                                    hid_t const counts = value.count().id();
                                    keep.push_back(value.count().id());
                                    auto n = read_numbers(counts);
                                    add("more-time-boxes-than-counts", in, [&, coordinates, v, last]() mutable {
                                        v.push_back(last);
                                        v.push_back(last);
                                        write_numbers(c, coordinates, v);
                                    });
                                    add("more-counts-than-time-boxes", in, [&, counts, n]() mutable {
                                        n.push_back(0);
                                        write_numbers(c, counts, n);
                                    });
                                    if (!n.empty())
                                    {
                                        add("more-time-cells", in, [&, counts, n]() mutable {
                                            n[edge(rng, n.size())] += rng.range(1, 3);
                                            write_numbers(c, counts, n);
                                        });
                                        add("count-missing", in, [&, counts, n]() mutable {
                                            n.pop_back();
                                            write_numbers(c, counts, n);
                                        });
                                    }
                                    if (!s.active.empty()) add("fewer-time-cells", in, [&, counts, n]() mutable {
                                        auto i = edge(rng, n.size());
                                        while (n[i] == 0) i = (i + 1) % n.size();
                                        n[i] -= 1;
                                        write_numbers(c, counts, n);
                                    });
                                }
                            });
                        }
                    }
                    if (s.has_space)
                    {
                        std::string const how = s.mobility == ldm::Mobility::mobile ? " mobile" : " stationary";
                        hid_t id{};
                        b.with_space(set.space_domain(), s, [&](auto& value) { id = value.id(); keep.push_back(value.id()); });
                        add("more-space-items", in + how, [&, id] { change_extent(c, id, 1); });
                        if (extents(id)[0] > 0) add("fewer-space-items", in + how, [&, id] { change_extent(c, id, -1); });
                    }
                    wrong_presence(c, b, dataset, p, set, s, where, r);
                    for (auto& property : s.properties)
                    {
                        auto const detail = std::format("{} kind {}", in, property.kind);
                        wrong_grids(c, b, dataset, p, set, s, is_collection, property, where, r);
                        auto same_array = [&](auto& value) {
                            hid_t const id = value.id();
                            add("more-arrays", detail, [&, id] { change_extent(c, id, 1); });
                            if (extents(id)[0] > 0) add("fewer-arrays", detail, [&, id] { change_extent(c, id, -1); });
                        };
                        b.with_property(set, property, [&]<typename P>(P& property_) {
                            auto& value = property_.value();
                            hid_t const id = value.id();
                            if constexpr (std::is_same_v<P, ldm::same_shape::Property> || std::is_same_v<P, ldm::same_shape::constant_shape::Property>)
                            {
                                same_array(value);
                            }
                            else if constexpr (std::is_same_v<P, ldm::same_shape::variable_shape::Property>)
                            {
                                lh5::Shape const shape(property.rank, 2);
                                add("more-locations", detail, [&, shape] { value.expand(s.active.size(), 1, shape); });
                                if (!s.active.empty())
                                {
                                    auto const i = edge(rng, s.active.size());
                                    auto change_array = [&, i](long const by) {
                                        auto array = value[i];
                                        hid_t const id = array.id();
                                        change_extent(c, id, by);
                                    };
                                    add("more-arrays", detail, [change_array] { change_array(1); });
                                    if (!s.active[i].empty()) add("fewer-arrays", detail, [change_array] { change_array(-1); });
                                    add("location-missing", detail, [&, id] {
                                        auto const last = s.active.size() - 1;
                                        H5Ldelete(id, std::to_string(last).c_str(), H5P_DEFAULT);
                                        if (rng.chance(50)) value.attributes().template write<ldm::Count>("lue_nr_locations_in_time", last);
                                    });
                                }
                            }
                            else if constexpr (std::is_same_v<P, ldm::different_shape::variable_shape::Property>)
                            {
                                add("more-locations", detail, [&] { value.expand(s.active.size(), 0, static_cast<ldm::ID const*>(nullptr), static_cast<lh5::Shape const*>(nullptr)); });
                                if (!s.active.empty()) add("fewer-locations", detail, [&] { value.attributes().template write<ldm::Count>("lue_nr_locations_in_time", s.active.size() - 1); });
                            }
                            else
                            {
                                bool const stationary = std::is_same_v<P, ldm::different_shape::Property>;
                                auto stored = stationary ? s.ids : s.active_ids();
                                lh5::Shape const shape(property.rank, 2);
                                add("more-objects", detail, [&, shape, stored] {
                                    ldm::ID id = rng.next();
                                    while (std::find(stored.begin(), stored.end(), id) != stored.end()) ++id;
                                    if constexpr (std::is_same_v<P, ldm::different_shape::Property>) value.expand(id, shape);
                                    else value.expand(id, shape, 1);
                                });
                                if (!stored.empty())
                                {
                                    auto const gone = stored[edge(rng, stored.size())];
                                    auto remove = [&, id, gone] {
                                        c.check(H5Ldelete(id, std::to_string(gone).c_str(), H5P_DEFAULT) >= 0, "harness", "cannot remove the array of an object");
                                    };
                                    add("object-missing", detail, [&, remove, stored] {
                                        remove();
                                        if (rng.chance(50)) value.attributes().template write<ldm::Count>("lue_nr_objects", std::set<ldm::ID>(stored.begin(), stored.end()).size() - 1);
                                    });
                                    // Without tracked objects, a collection as a whole can have any ID
                                    if (!is_collection || !s.active.empty()) add("other-object", detail, [&, remove, shape, stored] {
                                        ldm::ID id = rng.next();
                                        while (std::find(stored.begin(), stored.end(), id) != stored.end()) ++id;
                                        if constexpr (std::is_same_v<P, ldm::different_shape::Property>) value.expand(id, shape);
                                        else value.expand(id, shape, 1);
                                        remove();
                                        value.attributes().template write<ldm::Count>("lue_nr_objects", std::set<ldm::ID>(stored.begin(), stored.end()).size());
                                    });
                                    if constexpr (!std::is_same_v<P, ldm::different_shape::Property>)
                                    {
                                        add("fewer-arrays", detail, [&, gone] {
                                            if (s.indexed)
                                            {
                                                auto array = value[gone];
                                                hid_t const id = array.id();
                                                change_extent(c, id, -1);
                                            }
                                            else value.expand(gone + 1, lh5::Shape(property.rank, 1), 1);
                                        });
                                        if (s.indexed)
                                        {
                                            add("object-index-past-arrays", detail, [&, object_index] {
                                                auto v = read_numbers(object_index);
                                                v[edge(rng, v.size())] += v.size() + (rng.chance(20) ? std::uint64_t{1} << 60U : 0);
                                                write_numbers(c, object_index, v);
                                            });
                                            add("object-index-missing", detail, [&, object_index] {
                                                auto v = read_numbers(object_index);
                                                if (rng.chance(50)) v.clear();
                                                else v.resize(v.size() - 1 );
                                                write_numbers(c, object_index, v);
                                            });
                                            add("more-object-indices", detail, [&, object_index] {
                                                auto v = read_numbers(object_index);
                                                v.push_back(0);
                                                write_numbers(c, object_index, v);
                                            });
                                        }
                                    }
                                }
                            }
                        });
                    }
                }
            }
        }
        return r;
    }

    // Validate in every way. Returns the errors found: the message, or the exception
    auto validate(vh::Case& c, std::string const& path) -> std::vector<std::pair<std::string, std::string>>
    {
        using Errors = std::vector<std::pair<std::string, std::string>>;
        auto collect = [&](std::string const& what, auto&& f) {
            Errors r;
            c.op("validate", what);
            lh5::Issues issues;
            try
            {
                f(issues);
            }
            catch (std::exception const& e)
            {
                r.emplace_back("", std::string("exception ") + e.what());
                c.count("exceptions");
            }
            for (auto const& e : issues.errors())
            {
                r.emplace_back(e.id().pathname(), e.message());
                c.count("errors");
            }
            ldm::message(issues);
            return r;
        };
        auto const by_path = collect("path", [&](lh5::Issues& issues) { ldm::validate(path, issues); });
        auto const by_file = collect("file", [&](lh5::Issues& issues) { lh5::File file{path}; ldm::validate(file, issues); });
        auto const by_dataset = collect("dataset", [&](lh5::Issues& issues) { ldm::Dataset dataset{path}; ldm::validate(dataset, issues); });
        c.check(by_path.empty() == by_file.empty() && by_path.empty() == by_dataset.empty(), "validate-disagree", "validating by path, file and dataset have different outcomes");
        bool thrown = false;
        c.op("assert-valid");
        try { ldm::assert_is_valid(path, false); } catch (std::exception const&) { thrown = true; }
        c.check(thrown == !by_path.empty(), "assert-disagrees", "asserting validity does not agree with validating");
        return by_dataset;
    }

    void inconsistent(vh::Case& c, dsgen::Builder& builder, std::string const& path)
    {
        auto& rng = c.rng;
        std::string where, kind;
        {
            auto dataset = ldm::open_dataset(path, H5F_ACC_RDWR);
            std::vector<lh5::Identifier> keep;
            auto const all = mutations(c, builder, dataset, keep);
            if (all.empty()) return;
            // First the kind, including that of the property or domain: all are equally likely
            std::map<std::string, std::map<std::string, std::vector<Mutation const*>>> kinds;
            for (auto const& m : all) kinds[m.kind][m.detail].push_back(&m);
            auto const any = [&rng](auto const& map) { return std::next(map.begin(), static_cast<long>(rng.below(map.size())))->second; };
            auto const* m = rng.pick(any(any(kinds)));
            c.op("mutate-" + m->kind, m->detail);
            m->apply();
            where = m->pathname;
            kind = m->kind;
        }
        c.nontrivial();
        auto const before = vh::read_file(path);
        auto const errors = validate(c, path);
        c.count("inconsistencies");
        c.check(!errors.empty(), "not-reported:" + kind, "an inconsistent dataset was accepted");
        bool about = false;
        for (auto const& [id, message] : errors) about = about || id.starts_with(where) || id.empty();
        c.check(about, "reported-elsewhere:" + kind, std::format("none of the errors is about {}, but about {} ({})", where, errors.front().first, errors.front().second));
        c.op("walk");
        {
            ldm::Dataset dataset{path};
            walk::walk(c, dataset);
        }
        c.check(before == vh::read_file(path), "validation-modified-file", "validation changed the file");
    }

    void inconsistent(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("inconsistent.lue");
        dsgen::Options options;
        options.at_least_one_temporal = rng.chance(80);
        options.discretize = rng.chance(30);
        dsgen::Builder builder{c, options};
        {
            auto dataset = ldm::create_dataset(path);
            builder.build(dataset);
        }
        // Several inconsistencies, each in a dataset that is consistent otherwise
        for (int i = 0; i < 3; ++i)
        {
            auto const copy = c.path(std::format("inconsistent-{}.lue", i));
            std::filesystem::copy_file(path, copy, std::filesystem::copy_options::overwrite_existing);
            inconsistent(c, builder, copy);
            std::filesystem::remove(copy);
        }
    }

    // Parts every dataset must have. What is in a value whose validation is not supported is not, nor are the
    // groups per kind of property: they are there if there are such properties
    bool is_required(std::string const& path, std::string const& name)
    {
        static std::set<std::string> const required{
            "lue_object_id", "lue_object_tracker", "lue_active_set_index", "lue_active_object_id", "lue_active_object_index", "lue_properties",
            "lue_property_sets", "lue_collection_property_sets", "lue_phenomena", "lue_universes", "lue_value", "lue_count", "lue_coordinates",
            "lue_datatype", "lue_rank", "lue_nr_objects", "lue_nr_locations_in_time", "lue_value_variability", "lue_shape_variability", "lue_shape_per_object",
            "lue_same_shape", "lue_same_shape_constant_shape", "lue_same_shape_variable_shape",
            "lue_different_shape", "lue_different_shape_constant_shape", "lue_different_shape_variable_shape",
            "lue_time_domain_item_type", "lue_space_domain_item_type", "lue_mobility", "lue_time_unit", "lue_nr_time_units"};
        auto const i = path.find("/lue_different_shape_variable_shape/");
        if (i != std::string::npos && path.find("/lue_value/", i) != std::string::npos) return false;
        return required.contains(name);
    }

    void malformed(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("malformed.lue");
        {
            dsgen::Options options;
            options.at_least_one_temporal = rng.chance(80);
            dsgen::Builder builder{c, options};
            auto dataset = ldm::create_dataset(path);
            builder.build(dataset);
        }
        struct Part { std::string object, name, path; bool attribute; };
        std::map<std::string, std::vector<Part>> parts;  // By name, so that rare ones are picked as often
        for (auto const& [p, content] : snapshot::of_file(path))
        {
            if (p.empty()) continue;
            auto const at = p.find('@');
            if (at != std::string::npos) parts["@" + p.substr(at + 1)].push_back({at == 0 ? "/" : p.substr(0, at), p.substr(at + 1), p, true});
            else
            {
                auto const slash = p.rfind('/');
                parts[p.substr(slash + 1)].push_back({slash == 0 ? "/" : p.substr(0, slash), p.substr(slash + 1), p, false});
            }
        }
        for (auto& [name, list] : parts) std::erase_if(list, [](auto const& part) { return !is_required(part.path, part.name); });
        std::erase_if(parts, [](auto const& p) { return p.second.empty(); });
        auto it = parts.begin();
        std::advance(it, rng.below(parts.size()));
        auto const part = it->second[rng.below(it->second.size())];
        {
            hid_t const file = H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
            hid_t const object = H5Oopen(file, part.object.c_str(), H5P_DEFAULT);
            c.op(part.attribute ? "remove-attribute" : "remove-object", part.path);
            H5O_info_t info{};
            if (!part.attribute) H5Oget_info_by_name(object, part.name.c_str(), &info, H5P_DEFAULT);
            bool const ok = part.attribute ? H5Adelete(object, part.name.c_str()) >= 0 : H5Ldelete(object, part.name.c_str(), H5P_DEFAULT) >= 0;
            c.check(ok, "harness", "cannot remove a part");
            if (!part.attribute && rng.chance(25))
            {
                // Something of another class is in its place
                c.op("replace-object");
                hid_t const space = H5Screate(H5S_SCALAR);
                hid_t const other = info.type == H5O_TYPE_GROUP ? H5Dcreate2(object, part.name.c_str(), H5T_NATIVE_INT, space, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT)
                                                                : H5Gcreate2(object, part.name.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
                H5Sclose(space);
                H5Oclose(other);
            }
            H5Oclose(object);
            H5Fclose(file);
        }
        c.nontrivial();
        auto const errors = validate(c, path);
        c.count("parts.removed");
        c.check(!errors.empty(), "not-reported:missing-" + it->first, "a dataset without " + part.path + " was accepted");
        c.op("walk");
        walk::attempt(c, [&] { ldm::Dataset dataset{path}; walk::walk(c, dataset); });
    }

    void no_dataset(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("other.lue");
        auto const kind = rng.below(7);
        std::vector<std::string> const kinds{"text", "empty", "directory", "hdf5", "truncated", "absent", "hdf5-with-content"};
        c.op("no-dataset", kinds[kind]);
        switch (kind)
        {
            case 0: { std::ofstream o{path}; for (std::size_t i = 0; i < rng.below(5000); ++i) o << static_cast<char>(rng.next()); break; }
            case 1: { std::ofstream o{path}; break; }
            case 2: std::filesystem::create_directory(path); break;
            case 3: case 6:
            {
                hid_t const file = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
                if (kind == 6)
                {
                    std::vector<char const*> const names{"lue_phenomena", "lue_universes", "data", "lue_version"};
                    for (auto const* name : names)
                    {
                        if (std::string(name) == "lue_universes" || rng.chance(50)) continue;
                        H5Gclose(H5Gcreate2(file, name, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
                    }
                }
                H5Fclose(file);
                break;
            }
            case 4:
            {
                {
                    dsgen::Builder builder{c};
                    auto dataset = ldm::create_dataset(path);
                    builder.build(dataset);
                }
                std::filesystem::resize_file(path, rng.below(std::filesystem::file_size(path)));
                break;
            }
            default: break;
        }
        c.nontrivial();
        auto const before = kind == 2 || kind == 5 ? std::string{} : vh::read_file(path);
        // HDF5 itself turns an empty file that is opened for writing into an HDF5 file
        bool const read_only = rng.chance(50) || before.empty();
        auto const errors = validate(c, path);
        c.check(!errors.empty(), "not-reported:" + kinds[kind], "something that is no dataset was accepted");
        c.throws("opened:" + kinds[kind], "opening", [&] { ldm::open_dataset(path, read_only ? H5F_ACC_RDONLY : H5F_ACC_RDWR).phenomena(); });
        if (kind == 2) c.check(std::filesystem::is_directory(path), "changed", "directory is gone");
        else if (kind == 5) c.check(!std::filesystem::exists(path), "created", "a file was created");
        else c.check(before == vh::read_file(path), "changed", "the file was changed");
        c.count("others.refused");
    }

    void run(vh::Case& c)
    {
        auto const what = c.rng.below(100);
        if (what < 60) inconsistent(c);
        else if (what < 88) malformed(c);
        else no_dataset(c);
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
