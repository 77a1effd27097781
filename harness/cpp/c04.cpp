// LINK: lue::data_model
// C04: handles keep their object open until the last copy goes, and never leak.
//
// Model: per HDF5 identifier, the number of live handles made from it. Monitors: validity and identity of
// every live handle, reference count of raw identifiers, calls of the close function, and the number of
// identifiers per type that the HDF5 library holds before and after each case.
#include "dm.hpp"

using namespace dm;

namespace {

    auto nr_ids() -> std::array<hsize_t, 7>
    {
        std::array<hsize_t, 7> r{};
        H5I_type_t const types[] = {H5I_FILE, H5I_GROUP, H5I_DATASET, H5I_ATTR, H5I_DATATYPE, H5I_DATASPACE, H5I_GENPROP_LST};
        for (int i = 0; i < 7; ++i)
        {
            hsize_t n = 0;
            if (H5Itype_exists(types[i]) > 0) H5Inmembers(types[i], &n);
            r[i] = n;
        }
        return r;
    }

    void check_ids(vh::Case& c, std::array<hsize_t, 7> const& before, std::string const& key, std::string const& what)
    {
        char const* const names[] = {"file", "group", "dataset", "attribute", "datatype", "dataspace", "property list"};
        auto const after = nr_ids();
        for (int i = 0; i < 7; ++i)
        {
            c.check(after[i] == before[i], key, std::format("{}: {} {} identifiers open, {} before", what, after[i], names[i], before[i]));
        }
    }

    // What a handle type needs: how to open one (from the fixture), its identifier, and how to use it
    struct Fixture
    {
            std::string path;
            std::vector<std::string> groups;
            Bytes content;
    };

    template<typename T>
    struct Traits;

    int nr_closes = 0;

    auto counted(herr_t (*close)(hid_t)) -> lh5::Identifier::Close
    {
        return [close](hid_t const id) { ++nr_closes; return close(id); };
    }

    template<>
    struct Traits<lh5::Identifier>
    {
            static constexpr char const* name = "identifier";
            static auto open(vh::Rng& rng, Fixture const& f) -> lh5::Identifier
            {
                lh5::Identifier file{H5Fopen(f.path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), H5Fclose};
                switch (rng.below(5))
                {
                    case 0: return lh5::Identifier{H5Fopen(f.path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), counted(H5Fclose)};
                    case 1: return lh5::Identifier{H5Gopen(file, rng.pick(f.groups).c_str(), H5P_DEFAULT), counted(H5Gclose)};
                    case 2: return lh5::Identifier{H5Dopen(file, "/array", H5P_DEFAULT), counted(H5Dclose)};
                    case 3: return lh5::Identifier{H5Screate(H5S_SCALAR), counted(H5Sclose)};
                    default: return lh5::Identifier{H5Tcopy(H5T_C_S1), counted(H5Tclose)};
                }
            }
            static auto id(lh5::Identifier const& h) -> hid_t { return h; }
            static auto valid(lh5::Identifier const& h) -> bool { return h.is_valid(); }
            static void use(vh::Case& c, Fixture const&, lh5::Identifier const& h)
            {
                c.check(h.type() == H5Iget_type(h), "identifier-type", "type of identifier differs");
                c.check(h.reference_count() == H5Iget_ref(h), "identifier-reference-count", "reference count of identifier differs");
            }
    };

    template<>
    struct Traits<lh5::File>
    {
            static constexpr char const* name = "file";
            static auto open(vh::Rng&, Fixture const& f) -> lh5::File { return lh5::File{f.path}; }
            static auto id(lh5::File const& h) -> hid_t { return h.id(); }
            static auto valid(lh5::File const& h) -> bool { return h.id().is_valid(); }
            static void use(vh::Case& c, Fixture const& f, lh5::File const& h)
            {
                c.check(h.pathname() == f.path, "use-file", "path name of file differs");
                c.check(h.attribute<std::string>("text") == "content", "use-file", "attribute of file differs");
                c.check(h.contains_group("g0"), "use-file", "group not found");
            }
    };

    template<>
    struct Traits<lh5::Group>
    {
            static constexpr char const* name = "group";
            static auto open(vh::Rng& rng, Fixture const& f) -> lh5::Group
            {
                lh5::File file{f.path};
                return lh5::Group{file, rng.pick(f.groups)};
            }
            static auto id(lh5::Group const& h) -> hid_t { return h.id(); }
            static auto valid(lh5::Group const& h) -> bool { return h.id().is_valid(); }
            static void use(vh::Case& c, Fixture const&, lh5::Group const& h)
            {
                c.check(h.attribute<std::string>("name") == h.id().pathname(), "use-group", "attribute of group differs");
                c.check(h.parent().id().is_valid() && h.parent().id().pathname() == h.parent_pathname(), "use-group", "parent of group differs");
                c.check(h.id().info() == h.parent().id().info() ? false : true, "use-group", "group equals its parent");
            }
    };

    template<>
    struct Traits<ldm::Array>
    {
            static constexpr char const* name = "array";
            static auto open(vh::Rng&, Fixture const& f) -> ldm::Array
            {
                lh5::File file{f.path};
                return ldm::Array{file, "array"};
            }
            static auto id(ldm::Array const& h) -> hid_t { return h.id(); }
            static auto valid(ldm::Array const& h) -> bool { return h.id().is_valid(); }
            static void use(vh::Case& c, Fixture const& f, ldm::Array const& h)
            {
                Buffer b(f.content.size());
                h.read(b.data());
                compare(c, b.bytes(), f.content, {}, 1, "use-array", "content of array");
                c.check(h.attribute<std::string>("text") == "array", "use-array", "attribute of array differs");
            }
    };

    template<>
    struct Traits<lh5::Attribute>
    {
            static constexpr char const* name = "attribute";
            static auto open(vh::Rng&, Fixture const& f) -> lh5::Attribute
            {
                lh5::File file{f.path};
                return file.attributes().attribute("text");
            }
            static auto id(lh5::Attribute const& h) -> hid_t { return h.id(); }
            static auto valid(lh5::Attribute const& h) -> bool { return h.id().is_valid() && h.datatype().id().is_valid() && h.dataspace().id().is_valid(); }
            static void use(vh::Case& c, Fixture const&, lh5::Attribute const& h)
            {
                c.check(h.read<std::string>() == "content", "use-attribute", "value of attribute differs");
                c.check(h.dataspace().nr_elements() == 1, "use-attribute", "data space of attribute differs");
            }
    };

    template<>
    struct Traits<lh5::Datatype>
    {
            static constexpr char const* name = "datatype";
            static auto open(vh::Rng& rng, Fixture const& f) -> lh5::Datatype
            {
                lh5::File file{f.path};
                switch (rng.below(3))
                {
                    case 0: return lh5::Dataset{file, "array"}.datatype();
                    case 1: return file.attributes().datatype("text");
                    default: return lh5::create_string_datatype();
                }
            }
            static auto id(lh5::Datatype const& h) -> hid_t { return h.id(); }
            static auto valid(lh5::Datatype const& h) -> bool { return h.id().is_valid(); }
            static void use(vh::Case& c, Fixture const&, lh5::Datatype const& h)
            {
                c.check(h.size() == H5Tget_size(h.id()) && h.size() > 0, "use-datatype", "size of data type differs");
                c.check(h == lh5::decode_datatype(lh5::encode_datatype(h)), "use-datatype", "decoded data type differs");
            }
    };

    template<>
    struct Traits<lh5::Dataspace>
    {
            static constexpr char const* name = "dataspace";
            static auto open(vh::Rng& rng, Fixture const& f) -> lh5::Dataspace
            {
                lh5::File file{f.path};
                if (rng.chance(50)) return lh5::Dataset{file, "array"}.dataspace();
                return lh5::create_dataspace(lh5::Shape{f.content.size()});
            }
            static auto id(lh5::Dataspace const& h) -> hid_t { return h.id(); }
            static auto valid(lh5::Dataspace const& h) -> bool { return h.id().is_valid(); }
            static void use(vh::Case& c, Fixture const& f, lh5::Dataspace const& h)
            {
                c.check(h.nr_dimensions() == 1 && h.dimension_extents() == lh5::Shape{f.content.size()}, "use-dataspace", "data space differs");
            }
    };

    template<>
    struct Traits<lh5::Dataset::CreationPropertyList>
    {
            using T = lh5::Dataset::CreationPropertyList;
            static constexpr char const* name = "property-list";
            static auto open(vh::Rng& rng, Fixture const& f) -> T
            {
                lh5::File file{f.path};
                if (rng.chance(50)) return lh5::Dataset{file, "array"}.creation_property_list();
                T result{};
                result.set_fill_value<std::uint8_t>(7);
                return result;
            }
            // The identifier of a property list is not part of the interface of the library
            static auto id(T const&) -> hid_t { return H5I_INVALID_HID; }
            static auto valid(T const&) -> bool { return true; }
            static void use(vh::Case& c, Fixture const&, T const& h)
            {
                c.check(h.fill_value_defined() && h.get_fill_value<std::uint8_t>() == 7, "use-property-list", "fill value differs");
            }
    };

    template<>
    struct Traits<ldm::Dataset>
    {
            static constexpr char const* name = "lue-dataset";
            static auto open(vh::Rng&, Fixture const& f) -> ldm::Dataset { return ldm::open_dataset(f.path + ".lue"); }
            static auto id(ldm::Dataset const& h) -> hid_t { return h.id(); }
            static auto valid(ldm::Dataset const& h) -> bool { return h.id().is_valid() && h.phenomena().id().is_valid() && h.universes().id().is_valid(); }
            static void use(vh::Case& c, Fixture const&, ldm::Dataset const& h)
            {
                c.check(h.phenomena().contains("p") && h.phenomena()["p"].property_sets()["s"].properties().contains("v"), "use-lue-dataset", "item not found");
                c.check(h.phenomena().id().info() == h.phenomena()["p"].parent().id().info(), "use-lue-dataset", "parent of phenomenon differs");
            }
    };

    template<>
    struct Traits<ldm::PropertySet>
    {
            static constexpr char const* name = "property-set";
            static auto open(vh::Rng&, Fixture const& f) -> ldm::PropertySet
            {
                auto dataset = ldm::open_dataset(f.path + ".lue");
                return dataset.phenomena()["p"].property_sets()["s"];
            }
            static auto id(ldm::PropertySet const& h) -> hid_t { return h.id(); }
            static auto valid(ldm::PropertySet const& h) -> bool { return h.id().is_valid() && h.properties().id().is_valid() && h.object_tracker().id().is_valid(); }
            static void use(vh::Case& c, Fixture const& f, ldm::PropertySet const& h)
            {
                auto const& property = h.properties().collection<ldm::same_shape::Properties>()["v"];
                Buffer b(f.content.size());
                property.value().read(b.data());
                compare(c, b.bytes(), f.content, {}, 1, "use-property-set", "values");
                c.check(h.id().pathname() == "/phenomena/p/property_sets/s" || h.id().name() == "s", "use-property-set", "path name differs");
            }
    };

    template<>
    struct Traits<ldm::same_shape::Value>
    {
            static constexpr char const* name = "value";
            static auto open(vh::Rng&, Fixture const& f) -> ldm::same_shape::Value
            {
                auto dataset = ldm::open_dataset(f.path + ".lue");
                return dataset.phenomena()["p"].property_sets()["s"].properties().collection<ldm::same_shape::Properties>()["v"].value();
            }
            static auto id(ldm::same_shape::Value const& h) -> hid_t { return h.id(); }
            static auto valid(ldm::same_shape::Value const& h) -> bool { return h.id().is_valid(); }
            static void use(vh::Case& c, Fixture const& f, ldm::same_shape::Value const& h)
            {
                Buffer b(f.content.size());
                h.read(b.data());
                compare(c, b.bytes(), f.content, {}, 1, "use-value", "values");
                c.check(h.nr_arrays() == f.content.size(), "use-value", "number of arrays differs");
            }
    };

    // Random history of handles of one type
    template<typename T>
    struct Handles
    {
            using Tr = Traits<T>;
            struct Slot
            {
                    std::unique_ptr<T> handle;
                    long object{-1};  // Which opened object, or -1 if moved from
            };
            std::vector<Slot> slots;
            std::map<long, hid_t> ids;
            std::map<long, int> live;
            std::map<long, int> released;
            long next_object{0};
            bool const raw{std::is_same_v<T, lh5::Identifier>};
            bool const opaque{std::is_same_v<T, lh5::Dataset::CreationPropertyList>};

            void let_go(vh::Case& c, long const object)
            {
                if (object < 0) return;
                if (opaque)
                {
                    --live[object];
                    return;
                }
                if (--live[object] == 0)
                {
                    c.check(H5Iis_valid(ids[object]) <= 0, std::string{"not-closed:"} + Tr::name, "the object is still open after the last handle went");
                    c.count("objects.closed");
                }
                else
                {
                    c.check(H5Iis_valid(ids[object]) > 0, std::string{"closed-early:"} + Tr::name, "the object was closed while handles exist");
                }
            }

            void audit(vh::Case& c, Fixture const& f)
            {
                for (auto const& s : slots)
                {
                    if (!s.handle) continue;
                    if (s.object < 0)
                    {
                        if (!opaque) c.check(!Tr::valid(*s.handle), std::string{"moved-from-valid:"} + Tr::name, "a handle that was moved from is still valid");
                        continue;
                    }
                    c.check(Tr::valid(*s.handle), std::string{"handle-invalid:"} + Tr::name, "a live handle is not valid");
                    c.check(Tr::id(*s.handle) == ids[s.object], std::string{"handle-identity:"} + Tr::name, "a handle refers to another object");
                    Tr::use(c, f, *s.handle);
                    if (raw)
                    {
                        c.check(H5Iget_ref(ids[s.object]) == live[s.object], "reference-count", std::format("reference count {} with {} handles", H5Iget_ref(ids[s.object]), live[s.object]));
                    }
                    c.count("handles.audited");
                }
            }

            void step(vh::Case& c, Fixture const& f)
            {
                auto& rng = c.rng;
                auto const closes_before = nr_closes;
                auto const i = rng.below(slots.size()), j = rng.below(slots.size());
                auto &a = slots[i], &b = slots[j];
                auto const n = std::string{Tr::name};
                int expected_closes = 0;
                switch (rng.below(9))
                {
                    case 0: case 1:
                    {
                        if (a.handle) { expected_closes = a.object >= 0; auto const o = a.object; c.op("destroy", n + std::format(" {}", i)); a.handle.reset(); a.object = -1; let_go(c, o); }
                        c.op("open", n + std::format(" {}", i));
                        a.handle = std::make_unique<T>(Tr::open(rng, f));
                        a.object = next_object++;
                        ids[a.object] = Tr::id(*a.handle);
                        live[a.object] = 1;
                        break;
                    }
                    case 2:
                        if (a.handle)
                        {
                            expected_closes = a.object >= 0;
                            c.op("destroy", n + std::format(" {}", i));
                            auto const o = a.object;
                            a.handle.reset();
                            a.object = -1;
                            let_go(c, o);
                        }
                        break;
                    case 3:
                        if (a.handle && !b.handle)
                        {
                            c.op("copy-construct", n + std::format(" {} from {}", j, i));
                            b.handle = std::make_unique<T>(*a.handle);
                            b.object = a.object;
                            if (a.object >= 0) ++live[a.object];
                        }
                        break;
                    case 4:
                        if (a.handle && !b.handle)
                        {
                            c.op("move-construct", n + std::format(" {} from {}", j, i));
                            b.handle = std::make_unique<T>(std::move(*a.handle));
                            b.object = a.object;
                            a.object = -1;
                        }
                        break;
                    case 5: case 6:
                        if (a.handle && b.handle)
                        {
                            if (i != j)
                            {
                                // The first object is let go, the second gained
                                expected_closes = b.object >= 0;
                                c.op("copy-assign", n + std::format(" {} from {}", j, i));
                                auto const o = b.object;
                                if (a.object >= 0) ++live[a.object];
                                *b.handle = *a.handle;
                                b.object = a.object;
                                let_go(c, o);
                            }
                            else
                            {
                                c.op("self-copy-assign", n + std::format(" {}", i));
                                T const& alias = *a.handle;
                                *a.handle = alias;
                            }
                        }
                        break;
                    case 7:
                        if (a.handle && b.handle)
                        {
                            if (i != j)
                            {
                                expected_closes = b.object >= 0;
                                c.op("move-assign", n + std::format(" {} from {}", j, i));
                                auto const o = b.object;
                                *b.handle = std::move(*a.handle);
                                b.object = a.object;
                                a.object = -1;
                                let_go(c, o);
                            }
                            else if (raw)
                            {
                                c.op("self-move-assign", n + std::format(" {}", i));
                                T& alias = *a.handle;
                                *a.handle = std::move(alias);
                            }
                        }
                        break;
                    case 8:
                        if (a.handle && b.handle && i != j)
                        {
                            c.op("swap", n + std::format(" {} {}", i, j));
                            std::swap(*a.handle, *b.handle);
                            std::swap(a.object, b.object);
                        }
                        break;
                }
                if (raw)
                {
                    c.check(nr_closes - closes_before == expected_closes, "close-calls", std::format("{} calls of the close function, {} expected", nr_closes - closes_before, expected_closes));
                }
            }

            void run(vh::Case& c, Fixture const& f)
            {
                slots.resize(c.rng.range(2, 6));
                auto const n = c.rng.range(8, c.thorough() ? 60 : 30);
                for (std::uint64_t k = 0; k < n; ++k)
                {
                    step(c, f);
                    if (c.rng.chance(50)) audit(c, f);
                }
                audit(c, f);
                c.op("destroy-all", Tr::name);
                while (!slots.empty())
                {
                    auto const i = c.rng.below(slots.size());
                    auto const o = slots[i].object;
                    bool const had = static_cast<bool>(slots[i].handle);
                    slots.erase(slots.begin() + i);
                    if (had) let_go(c, o);
                    audit(c, f);
                }
            }
    };

    template<typename T>
    void run_handles(vh::Case& c, Fixture const& f)
    {
        auto const before = nr_ids();
        Handles<T>{}.run(c, f);
        check_ids(c, before, std::string{"leak:"} + Traits<T>::name, "after the last handle went");
        c.nontrivial();
    }

    // f may throw; either way it must leave no identifier behind
    template<typename F>
    void attempt(vh::Case& c, std::string const& what, F&& f)
    {
        auto const before = nr_ids();
        c.op(what);
        bool thrown = false;
        try
        {
            f();
        }
        catch (vh::Violation const&)
        {
            throw;
        }
        catch (std::exception const&)
        {
            thrown = true;
        }
        c.count(thrown ? "operations.thrown" : "operations.succeeded");
        check_ids(c, before, "leak:" + what, "after the operation");
    }

    void operations(vh::Case& c, Fixture const& f)
    {
        auto& rng = c.rng;
        auto const before = nr_ids();
        std::string const path = c.path("ops.lue");
        {
            c.op("create-dataset");
            auto dataset = ldm::create_dataset(path, rng.chance(50) ? "" : "d");
            std::string const p = "p", s = "s";
            dataset.add_phenomenon(p);
            auto n = rng.range(8, 25);
            int nr = 0;
            for (std::uint64_t k = 0; k < n; ++k)
            {
                // Operations that keep no handle of their own
                auto& phenomenon = dataset.phenomena()[p];
                switch (rng.below(22))
                {
                    case 0: attempt(c, "duplicate-phenomenon", [&] { dataset.add_phenomenon(p); }); break;
                    case 1: attempt(c, "absent-phenomenon", [&] { dataset.phenomena()["absent"]; }); break;
                    case 2: attempt(c, "absent-universe", [&] { dataset.universes()["absent"]; }); break;
                    case 3: attempt(c, "open-absent-file", [&] { ldm::open_dataset(c.path("absent.lue")); }); break;
                    case 4: attempt(c, "open-other-file", [&] { ldm::open_dataset(f.path); }); break;
                    case 5: attempt(c, "open-garbage-file", [&] { std::ofstream(c.path("garbage")) << "garbage"; ldm::open_dataset(c.path("garbage")); }); break;
                    case 6: attempt(c, "open-absent-group", [&] { lh5::Group{dataset, "absent"}; }); break;
                    case 7: attempt(c, "open-absent-array", [&] { lh5::Dataset{dataset, "absent"}; }); break;
                    case 8: attempt(c, "open-absent-array-2", [&] { lh5::open_dataset(dataset.id(), "absent"); }); break;
                    case 9: attempt(c, "open-dataset", [&] { auto d2 = ldm::open_dataset(path, H5F_ACC_RDWR); }); break;
                    case 10: attempt(c, "open-and-copy", [&] { auto d2 = ldm::open_dataset(path, H5F_ACC_RDWR); auto d3 = d2; d2 = d3; auto d4 = std::move(d2); }); break;
                    case 11: attempt(c, "object-names", [&] { dataset.object_names(); lh5::Group{dataset, "phenomena"}; }); break;
                    case 12: attempt(c, "read-attribute", [&] { dataset.lue_version(); dataset.hdf5_version(); dataset.attributes().datatype("hdf5_version"); }); break;
                    case 13: attempt(c, "write-attribute", [&] { dataset.attributes().write<int>("n", 5); dataset.attributes().read<int>("n"); }); break;
                    case 14: attempt(c, "exists", [&] { dataset.attributes().exists("n"); dataset.contains_group("phenomena"); dataset.contains_dataset("x"); lh5::file_exists(path); }); break;
                    case 15: attempt(c, "names", [&] { dataset.object_names(); dataset.group_names(); dataset.phenomena().names(); phenomenon.parent(); phenomenon.id().info(); }); break;
                    case 16: attempt(c, "validate", [&] { lh5::Issues issues; ldm::validate(dataset, issues); }); break;
                    case 17: attempt(c, "array-io", [&] {
                        lh5::File file{f.path};
                        ldm::Array a{file, "array"};
                        Buffer b(f.content.size());
                        a.read(b.data());
                        a.read(lh5::Hyperslab{lh5::Offset{1}, lh5::Count{2}}, b.data());
                        a.shape(); a.has_no_data_value(); a.no_data_value<std::uint8_t>(); a.file_datatype();
                    }); break;
                    case 18: attempt(c, "array-io-outside", [&] {
                        lh5::File file{f.path};
                        ldm::Array a{file, "array"};
                        Buffer b(f.content.size());
                        a.read(lh5::Hyperslab{lh5::Offset{f.content.size()}, lh5::Count{2}}, b.data());
                    }); break;
                    case 19: attempt(c, "array-io-read-only", [&] {
                        lh5::File file{f.path};
                        ldm::Array a{file, "array"};
                        Buffer b(f.content.size());
                        a.write(b.data());
                    }); break;
                    case 20: attempt(c, "read-only-add", [&] {
                        auto d2 = ldm::open_dataset(f.path + ".lue");
                        d2.add_phenomenon("q");
                    }); break;
                    case 21: attempt(c, "whole-dataset", [&] {
                        std::string const other = c.path(std::format("other{}.lue", nr++));
                        {
                            auto d2 = ldm::create_dataset(other);
                            auto& sets = d2.add_phenomenon("q").property_sets();
                            auto& owner = sets.add("t", ldm::TimeConfiguration{ldm::TimeDomainItemType::box}, ldm::Clock{ldm::time::Unit::day, 2},
                                ldm::SpaceConfiguration{ldm::Mobility::mobile, ldm::SpaceDomainItemType::point}, lh5::native_float64, 2);
                            auto& shared = sets.add("u", owner.time_domain(), owner.object_tracker());
                            auto& value = shared.properties().add<ldm::different_shape::variable_shape::Property>("v", lh5::native_int32, 1);
                            hsize_t const id = 3;
                            lh5::Shape const shape{2};
                            auto sub = value.value().expand(0, 1, &id, &shape);
                            int const data[2] = {1, 2};
                            sub[3].write(data);
                            auto& constant = shared.properties().add<ldm::same_shape::constant_shape::Property>("w", lh5::native_int32, lh5::Shape{2});
                            auto cv = constant.value(); cv.expand(1); cv.write(data);
                            auto& grid = sets.add("g").properties().add("h", lh5::native_uint64, lh5::Shape{2});
                            constant.set_space_discretization(ldm::SpaceDiscretization::regular_grid, grid);
                            constant.space_discretization_property();
                            owner.time_domain().value<ldm::TimeBox>().expand(1);
                            owner.space_domain().value<ldm::MobileSpacePoint>().expand(1);
                            lh5::Issues issues; ldm::validate(d2, issues);
                            try { shared.properties().add("w", lh5::native_int8); } catch (std::exception const&) { }
                        }
                        auto d3 = ldm::open_dataset(other);
                        d3.phenomena()["q"].property_sets()["u"].properties();
                        // No object may stand in the way of creating the file again
                    }); break;
                }
                c.count("operations");
            }
        }
        check_ids(c, before, "leak:dataset", "after a dataset and all handles went");
        // The file can be opened again in any mode
        c.op("open-read-write");
        ldm::open_dataset(path, H5F_ACC_RDWR);
        c.op("open-read-only");
        ldm::open_dataset(path, H5F_ACC_RDONLY);
        c.op("create-again");
        ldm::create_dataset(path);
        c.check(nr_open_objects() == 0, "leak:dataset", "objects remain open");
        c.nontrivial();
    }

    void body(vh::Case& c)
    {
        Fixture f;
        f.path = c.path("f.h5");
        f.content = random_bytes(c.rng, 5);
        {
            auto file = lh5::create_file(f.path);
            file.attributes().write<std::string>("text", "content");
            for (int i = 0; i < 3; ++i)
            {
                std::string const name = std::format("g{}", i);
                auto g = lh5::create_group(file, name);
                g.attributes().write<std::string>("name", "/" + name);
                f.groups.push_back("/" + name);
                auto h = lh5::create_group(g, "n");
                h.attributes().write<std::string>("name", "/" + name + "/n");
                f.groups.push_back("/" + name + "/n");
            }
            lh5::Dataset::CreationPropertyList creation;
            creation.set_fill_value<std::uint8_t>(7);
            auto array = lh5::create_dataset(file.id(), "array", lh5::std_uint8_le, lh5::create_dataspace(lh5::Shape{f.content.size()}), creation);
            array.write(lh5::native_uint8, f.content.data());
            array.attributes().write<std::string>("text", "array");
            auto dataset = ldm::create_dataset(f.path + ".lue");
            auto& property = dataset.add_phenomenon("p").property_sets().add("s").properties().add("v", lh5::native_uint8);
            auto value = property.value();
            value.expand(f.content.size());
            value.write(f.content.data());
        }
        c.check(nr_open_objects() == 0, "leak:dataset", "objects remain open");
        for (int k = 0; k < 2; ++k)
        {
            switch (c.rng.below(12))
            {
                case 0: case 1: run_handles<lh5::Identifier>(c, f); break;
                case 2: run_handles<lh5::File>(c, f); break;
                case 3: run_handles<lh5::Group>(c, f); break;
                case 4: run_handles<ldm::Array>(c, f); break;
                case 5: run_handles<lh5::Attribute>(c, f); break;
                case 6: run_handles<lh5::Datatype>(c, f); break;
                case 7: run_handles<lh5::Dataspace>(c, f); break;
                case 8: run_handles<lh5::Dataset::CreationPropertyList>(c, f); break;
                case 9: run_handles<ldm::Dataset>(c, f); break;
                case 10: run_handles<ldm::PropertySet>(c, f); break;
                case 11: run_handles<ldm::same_shape::Value>(c, f); break;
            }
        }
        operations(c, f);
        // Nothing stands in the way of opening for writing, or creating the file again
        c.op("open-read-write");
        lh5::File{f.path, H5F_ACC_RDWR};
        c.op("create-again");
        lh5::create_file(f.path);
    }

}  // namespace

int main(int argc, char** argv)
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    return vh::run(argc, argv, body);
}
