// LINK: lue::data_model
// C11: attributes read back the last value written to them.
//
// Model: per object (file, groups, array) a map from name to typed value. Monitors: every read, existence
// query and data type against the model, and the attributes HDF5 itself lists.
#include "dm.hpp"
#include <variant>

using namespace dm;

namespace {

    template<typename... T>
    using Values = std::variant<T..., std::vector<T>..., std::string>;
    using Value = Values<std::uint8_t, std::uint16_t, std::uint32_t, std::uint64_t, std::int8_t, std::int16_t, std::int32_t, std::int64_t, float, double>;

    template<typename T>
    struct is_vector: std::false_type { };
    template<typename T>
    struct is_vector<std::vector<T>>: std::true_type { };

    template<typename T>
    auto same(T const& a, T const& b) -> bool
    {
        if constexpr (std::is_same_v<T, std::string>) return a == b;
        else if constexpr (is_vector<T>::value) return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(a[0])) == 0);
        else return std::memcmp(&a, &b, sizeof a) == 0;
    }

    template<typename T>
    auto text(T const& v) -> std::string
    {
        if constexpr (std::is_same_v<T, std::string>) return std::format("string of {} bytes", v.size());
        else if constexpr (is_vector<T>::value) return std::format("list of {} x {} bytes", v.size(), sizeof(v[0]));
        else return std::format("{}", +v);
    }

    template<typename T>
    auto random_number(vh::Rng& rng) -> T
    {
        if (rng.chance(20)) return rng.chance(50) ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
        T v{};
        std::uint64_t const bits = rng.next();
        std::memcpy(&v, &bits, sizeof v);
        return v;
    }

    auto random_value(vh::Rng& rng, bool const long_values) -> Value
    {
        auto length = [&]() -> std::size_t {
            auto const k = rng.below(10);
            return k == 0 ? 0 : k == 1 ? 1 : k < 8 ? rng.range(2, 40) : rng.range(41, long_values ? 12000 : 800);
        };
        auto number = [&]<typename T>(T) -> Value {
            if (rng.chance(50)) return random_number<T>(rng);
            std::vector<T> v(std::min<std::size_t>(length(), 6000));
            for (auto& e : v) e = random_number<T>(rng);
            return v;
        };
        switch (rng.below(16))
        {
            case 0: return number(std::uint8_t{});
            case 1: return number(std::uint16_t{});
            case 2: return number(std::uint32_t{});
            case 3: return number(std::uint64_t{});
            case 4: return number(std::int8_t{});
            case 5: return number(std::int16_t{});
            case 6: return number(std::int32_t{});
            case 7: return number(std::int64_t{});
            case 8: return number(float{});
            case 9: return number(double{});
            default:
            {
                std::string s;
                auto const n = length();
                while (s.size() < n) s += rng.chance(90) ? random_text(rng, 8) + "x" : std::string(1, '\0');
                if (n == 0) s.clear();
                return s;
            }
        }
    }

    struct Model
    {
            std::map<std::string, Value> attributes;
    };

    void verify_one(vh::Case& c, lh5::PrimaryDataObject const& object, std::string const& name, Value const& value)
    {
        auto& rng = c.rng;
        std::visit([&]<typename T>(T const& expected) {
            std::string const what = std::format("attribute '{}' ({})", name, text(expected));
            c.check(object.attributes().exists(name) && object.contains_attribute(name), "exists", what + " is not there");
            T observed;
            switch (rng.below(4))
            {
                case 0: observed = object.attributes().read<T>(name); break;
                case 1: observed = object.attribute<T>(name); break;
                case 2: observed = object.attributes().attribute(name).template read<T>(); break;
                default: observed = lh5::Attribute{object.id(), name}.read<T>(); break;
            }
            c.check(same(observed, expected), "value", std::format("{}: other value read: {}", what, text(observed)));
            c.count("values.compared");
            auto const type = object.attributes().datatype(name);
            if constexpr (std::is_same_v<T, std::string>)
            {
                c.check(type.is_string() && type.encoding() == H5T_CSET_UTF8, "datatype", what + ": not UTF-8 text");
                c.throws("read-other", what + " as number", [&] { (void)object.attributes().read<std::int32_t>(name); });
                c.throws("read-other", what + " as list", [&] { (void)object.attributes().read<std::vector<double>>(name); });
            }
            else if constexpr (is_vector<T>::value)
            {
                c.check(type == lh5::Datatype{lh5::NativeDatatypeTraits<typename T::value_type>::type_id()}, "datatype", what + ": other data type");
                c.check(object.attributes().attribute(name).dataspace().dimension_extents() == lh5::Shape{expected.size()}, "length", what + ": other length");
                if (expected.size() != 1) c.throws("read-other", what + " as number", [&] { (void)object.attributes().read<typename T::value_type>(name); });
            }
            else
            {
                c.check(type == lh5::Datatype{lh5::NativeDatatypeTraits<T>::type_id()}, "datatype", what + ": other data type");
                c.check(object.attributes().attribute(name).dataspace().nr_dimensions() == 0, "length", what + ": not a scalar");
                c.throws("read-other", what + " as text", [&] { (void)object.attributes().read<std::string>(name); });
                if (sizeof(T) != 8) c.throws("read-other", what + " as larger number", [&] { (void)object.attributes().read<std::int64_t>(name); });
                if (sizeof(T) != 1) c.throws("read-other", what + " as smaller number", [&] { (void)object.attributes().read<std::uint8_t>(name); });
            }
        }, value);
    }

    void verify(vh::Case& c, lh5::PrimaryDataObject const& object, Model const& model, std::size_t const nr_others)
    {
        for (auto const& [name, value] : model.attributes)
        {
            verify_one(c, object, name, value);
        }
        H5O_info_t info;
        H5Oget_info(object.id(), &info);
        c.check(info.num_attrs == model.attributes.size() + nr_others, "number",
            std::format("{} attributes, expected {}", info.num_attrs, model.attributes.size() + nr_others));
        auto const absent = random_name(c.rng);
        if (!model.attributes.contains(absent))
        {
            c.check(!object.attributes().exists(absent) && !object.contains_attribute(absent), "exists-absent", "absent attribute reported: " + absent);
            c.throws("read-absent", "attributes().read", [&] { (void)object.attributes().read<std::string>(absent); });
            c.throws("read-absent", "attribute", [&] { (void)object.attribute<double>(absent); });
            c.throws("read-absent", "attributes().attribute", [&] { (void)object.attributes().attribute(absent); });
            c.throws("read-absent", "attributes().datatype", [&] { (void)object.attributes().datatype(absent); });
            c.throws("read-absent", "Attribute", [&] { (void)lh5::Attribute{object.id(), absent}; });
            c.count("reads.refused");
        }
    }

    // The object under test is one of a file, a group at two levels, and an array
    struct Handles
    {
            std::optional<lh5::File> file;
            std::optional<lh5::Group> group, subgroup;
            std::optional<ldm::Array> array;

            void open(std::string const& path, unsigned const flags)
            {
                file.emplace(path, flags);
                group.emplace(*file, "group");
                subgroup.emplace(*group, "sub");
                array.emplace(*group, "array");
            }
            void close()
            {
                array.reset();
                subgroup.reset();
                group.reset();
                file.reset();
            }
            auto at(std::size_t const i) -> lh5::PrimaryDataObject&
            {
                switch (i)
                {
                    case 0: return *file;
                    case 1: return *group;
                    case 2: return *subgroup;
                    default: return *array;
                }
            }
    };

    void run(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("attributes.h5");
        bool const dataset = rng.chance(50);
        c.op("create", dataset ? "dataset" : "file");
        std::size_t nr_others[4]{0, 0, 0, 0};
        {
            lh5::File file = dataset ? lh5::File{ldm::create_dataset(path)} : lh5::create_file(path);
            auto group = lh5::create_group(file, "group");
            lh5::create_group(group, "sub");
            lh5::create_dataset(group.id(), "array", lh5::native_int32, lh5::create_dataspace(lh5::Shape{3}), lh5::Dataset::CreationPropertyList{});
        }
        Handles handles;
        handles.open(path, H5F_ACC_RDWR);
        {
            H5O_info_t info;
            H5Oget_info(handles.file->id(), &info);
            nr_others[0] = info.num_attrs;
        }
        Model models[4];
        std::vector<std::string> names;
        for (int i = 0; i < 6; ++i) names.push_back(random_name(rng) + (rng.chance(10) ? "/x" : ""));
        auto const nr_steps = rng.range(5, c.thorough() ? 60 : 30);
        for (std::uint64_t step = 0; step < nr_steps; ++step)
        {
            auto const which = rng.below(4);
            auto& object = handles.at(which);
            auto& model = models[which];
            auto const& name = rng.pick(names);
            auto const k = rng.below(100);
            if (k < 70)
            {
                auto value = random_value(rng, rng.chance(3));
                // Often a value of the same type as the current one
                if (model.attributes.contains(name) && rng.chance(40))
                {
                    for (int i = 0; i < 200 && value.index() != model.attributes[name].index(); ++i) value = random_value(rng, false);
                }
                bool const replaces = model.attributes.contains(name);
                bool thrown = false;
                std::visit([&]<typename T>(T const& v) {
                    std::string const old = replaces ? std::visit([](auto const& o) { return text(o); }, model.attributes[name]) : "nothing";
                    c.op(replaces ? "overwrite" : "write", std::format("{} '{}' {} over {}", which, name, text(v), old));
                    try
                    {
                        if (rng.chance(80)) object.attributes().write<T>(name, v);
                        else lh5::PrimaryDataObject{object}.attributes().write(name, v);
                    }
                    catch (std::exception const&)
                    {
                        // HDF5 has an upper limit to the size of attributes in older formats
                        if constexpr (is_vector<T>::value) { if (v.size() * sizeof(v[0]) < 60000) throw; }
                        else if constexpr (std::is_same_v<T, std::string>) { if (v.size() < 60000) throw; }
                        else throw;
                        thrown = true;
                        c.count("writes.refused");
                    }
                }, value);
                if (!thrown) model.attributes[name] = value;
                c.nontrivial();
                if (replaces) c.count("values.replaced");
            }
            else if (k < 78 && model.attributes.contains(name))
            {
                // Creating what exists is refused
                c.op("create-again", std::format("{} '{}'", which, name));
                c.throws("create-again", "create_attribute", [&] { lh5::create_attribute(object.id(), name, std::uint64_t{5}); });
                c.throws("create-again", "create_attribute", [&] { lh5::create_attribute(object.id(), name, std::string{"abc"}); });
                c.throws("create-again", "Attributes::add", [&] { object.attributes().add(name, lh5::native_int32, lh5::Dataspace{H5S_SCALAR}); });
            }
            else if (k < 83 && !model.attributes.contains(name))
            {
                c.op("add", std::format("{} '{}'", which, name));
                auto const n = rng.range(1, 9);
                std::vector<std::int32_t> v(n);
                for (auto& e : v) e = random_number<std::int32_t>(rng);
                auto attribute = object.attributes().add(name, lh5::native_int32, lh5::create_dataspace(lh5::Shape{n}));
                attribute.write(v);
                model.attributes[name] = v;
            }
            else if (k < 92)
            {
                bool const read_only = rng.chance(40);
                c.op("reopen", read_only ? "read-only first" : "");
                handles.close();
                if (read_only)
                {
                    handles.open(path, H5F_ACC_RDONLY);
                    for (int i = 0; i < 4; ++i) verify(c, handles.at(i), models[i], nr_others[i]);
                    handles.close();
                }
                handles.open(path, H5F_ACC_RDWR);
            }
            else
            {
                c.op("another-handle");
                Handles others;
                others.open(path, H5F_ACC_RDWR);
                for (int i = 0; i < 4; ++i) verify(c, others.at(i), models[i], nr_others[i]);
            }
            for (int i = 0; i < 4; ++i)
            {
                if (rng.chance(30)) verify(c, handles.at(i), models[i], nr_others[i]);
            }
        }
        c.op("final-reopen");
        handles.close();
        handles.open(path, H5F_ACC_RDONLY);
        for (int i = 0; i < 4; ++i) verify(c, handles.at(i), models[i], nr_others[i]);
        c.throws("write-read-only", "write to a file that is opened for reading", [&] { handles.group->attributes().write(names[0], std::uint8_t{3}); });
        handles.close();
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
