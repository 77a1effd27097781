// LINK: lue::data_model
// C12: element types are preserved and extreme values survive.
//
// Oracle: the element type that was asked for, its properties as told by the HDF5 library about what is in the file, the bytes
// written, and the conversion of numbers by the C++ compiler.
#include "dm.hpp"
#include "lue/core/tag.hpp"
#include <cmath>

using namespace dm;

namespace {

    template<typename F>
    void with_type(ElementType const& t, F&& f)
    {
        std::string const n = t.name;
        if (n == "uint8") f(std::uint8_t{});
        else if (n == "uint16") f(std::uint16_t{});
        else if (n == "uint32") f(std::uint32_t{});
        else if (n == "uint64") f(std::uint64_t{});
        else if (n == "int8") f(std::int8_t{});
        else if (n == "int16") f(std::int16_t{});
        else if (n == "int32") f(std::int32_t{});
        else if (n == "int64") f(std::int64_t{});
        else if (n == "float32") f(float{});
        else f(double{});
    }

    // Every value of from is a value of to
    auto is_wider(ElementType const& from, ElementType const& to) -> bool
    {
        if (from.is_float) return to.is_float && to.size >= from.size;
        if (to.is_float) return from.size < to.size;
        if (from.is_signed) return to.is_signed && to.size >= from.size;
        return to.is_signed ? to.size > from.size : to.size >= from.size;
    }

    // The extremes of a type, and values around zero and around those of the other types
    auto special_elements(ElementType const& t) -> Bytes
    {
        Bytes r;
        auto append = [&](auto const v) {
            auto const* b = reinterpret_cast<unsigned char const*>(&v);
            r.insert(r.end(), b, b + sizeof v);
        };
        with_type(t, [&](auto const zero) {
            using T = std::decay_t<decltype(zero)>;
            using L = std::numeric_limits<T>;
            for (T const v : {T{0}, T{1}, L::min(), L::max(), L::lowest()}) append(v);
            if constexpr (L::is_integer)
            {
                append(static_cast<T>(-1));
                append(static_cast<T>(L::max() - 1));
                append(static_cast<T>(L::min() + 1));
                for (unsigned bit = 7; bit < 8 * sizeof(T); bit += 8)
                {
                    append(static_cast<T>(std::uint64_t{1} << bit));
                    append(static_cast<T>((std::uint64_t{1} << bit) - 1));
                    append(static_cast<T>(~(std::uint64_t{1} << bit) + 1));
                }
            }
            else
            {
                append(-T{0});
                append(L::denorm_min());
                append(-L::denorm_min());
                append(-L::min());
                append(L::infinity());
                append(-L::infinity());
                append(L::quiet_NaN());
                append(-L::quiet_NaN());
                append(std::nextafter(T{1}, T{2}));
                append(static_cast<T>(9007199254740993.0));
                append(L::epsilon());
            }
        });
        return r;
    }

    // Elements read as another type
    void compare_converted(vh::Case& c, ElementType const& from, Bytes const& written, ElementType const& to, Bytes const& observed, std::string const& what)
    {
        with_type(from, [&](auto const f_) {
            with_type(to, [&](auto const t_) {
                using From = std::decay_t<decltype(f_)>;
                using To = std::decay_t<decltype(t_)>;
                std::size_t const n = written.size() / sizeof(From);
                c.check(observed.size() == n * sizeof(To), "converted", what + ": size differs");
                for (std::size_t i = 0; i < n; ++i)
                {
                    From f;
                    To t;
                    std::memcpy(&f, written.data() + i * sizeof(From), sizeof(From));
                    std::memcpy(&t, observed.data() + i * sizeof(To), sizeof(To));
                    To const expected = static_cast<To>(f);
                    c.count("elements.converted");
                    bool same = std::memcmp(&t, &expected, sizeof(To)) == 0;
                    if constexpr (std::is_floating_point_v<To> && std::is_floating_point_v<From>) same = same || (std::isnan(f) && std::isnan(t));
                    c.check(same, "converted", std::format("{}: element {} written as {} {} is read as {} {}", what, i, from.name, f, to.name, t));
                }
            });
        });
    }

    void check_file_type(vh::Case& c, hid_t const dataset_type, ElementType const& t, std::string const& what)
    {
        c.count("types.on-disk");
        c.check(::H5Tget_class(dataset_type) == (t.is_float ? H5T_FLOAT : H5T_INTEGER), "disk-class", what);
        c.check(::H5Tget_size(dataset_type) == t.size, "disk-size", what);
        c.check(t.size == 1 || ::H5Tget_order(dataset_type) == H5T_ORDER_LE, "disk-order", what);
        if (!t.is_float) c.check(::H5Tget_sign(dataset_type) == (t.is_signed ? H5T_SGN_2 : H5T_SGN_NONE), "disk-sign", what);
        if (t.is_float)
        {
            std::size_t sign, exponent, exponent_size, mantissa, mantissa_size;
            ::H5Tget_fields(dataset_type, &sign, &exponent, &exponent_size, &mantissa, &mantissa_size);
            c.check(exponent_size == (t.size == 4 ? 8u : 11u) && mantissa_size == (t.size == 4 ? 23u : 52u), "disk-fields", what);
        }
    }

    void check_memory_type(vh::Case& c, lh5::Datatype const& type, ElementType const& t, std::string const& what)
    {
        c.count("types.reported");
        c.check(type.is_native(), "memory-native", what);
        c.check(type.size() == t.size, "memory-size", what);
        c.check(type.class_() == (t.is_float ? H5T_FLOAT : H5T_INTEGER), "memory-class", what);
        if (!t.is_float) c.check((::H5Tget_sign(type.id()) == H5T_SGN_2) == t.is_signed, "memory-sign", what);
        c.check(type == t.native(), "memory-type", what);
        c.check(::H5Tget_order(type.id()) == ::H5Tget_order(H5T_NATIVE_INT), "memory-order", what);
    }

    void check_types(vh::Case& c)
    {
        std::set<std::string> names;
        std::vector<std::vector<unsigned char>> encodings;
        for (auto const& t : element_types())
        {
            std::string const what = t.name;
            check_memory_type(c, t.native(), t, what);
            check_file_type(c, t.file().id(), t, what);
            c.check(t.file().is_standard() && !t.file().is_string() && !t.native().is_string(), "predicates", what);
            check_memory_type(c, lh5::memory_datatype(t.file()), t, what + ", memory type of file type");
            check_file_type(c, lh5::file_datatype(t.native()).id(), t, what + ", file type of memory type");
            c.check(lh5::file_datatype(lh5::memory_datatype(t.file())) == t.file(), "inverse", what);
            c.check(lh5::memory_datatype(lh5::file_datatype(t.native())) == t.native(), "inverse", what);
            c.check(lh5::is_native_floating_point(t.native()) == t.is_float, "predicates", what);
            c.check(lh5::is_native_unsigned_integral(t.native()) == (!t.is_float && !t.is_signed), "predicates", what);
            c.check(lh5::is_native_signed_integral(t.native()) == (!t.is_float && t.is_signed), "predicates", what);
            c.check(lh5::is_ieee_floating_point_le(t.file()) == t.is_float, "predicates", what);
            c.check(lh5::is_std_unsigned_integral_le(t.file()) == (!t.is_float && !t.is_signed), "predicates", what);
            c.check(lh5::is_std_signed_integral_le(t.file()) == (!t.is_float && t.is_signed), "predicates", what);
            // Names
            auto const native_name = lh5::native_datatype_as_string(t.native());
            auto const file_name = lh5::standard_datatype_as_string(t.file());
            c.check(names.insert(native_name).second && names.insert(file_name).second, "name", what + " shares its name: " + native_name + " " + file_name);
            std::string const expected_native = t.is_float ? (t.size == 4 ? "H5T_NATIVE_FLOAT" : "H5T_NATIVE_DOUBLE") : std::format("H5T_NATIVE_{}{}", t.is_signed ? "INT" : "UINT", 8 * t.size);
            std::string const expected_file = t.is_float ? std::format("H5T_IEEE_F{}LE", 8 * t.size) : std::format("H5T_STD_{}{}LE", t.is_signed ? "I" : "U", 8 * t.size);
            c.check(native_name == expected_native, "name", what + ": " + native_name);
            c.check(file_name == expected_file, "name", what + ": " + file_name);
            // Encodings
            for (auto const& type : {t.native(), t.file()})
            {
                auto const encoded = lh5::encode_datatype(type);
                std::unique_ptr<unsigned char[]> block{new unsigned char[encoded.size()]};
                auto const decoded = lh5::decode_datatype(encoded);
                c.check(decoded == type && decoded.size() == t.size && decoded.class_() == type.class_(), "encoding", what + ": decoded type differs");
                for (auto const& other : element_types())
                {
                    if (other.name != std::string{t.name}) c.check(!(decoded == other.native()) && !(decoded == other.file()), "encoding", what + " is decoded as " + other.name);
                }
            }
            encodings.push_back(lh5::encode_datatype(t.file()));
            with_type(t, [&](auto const v) {
                using T = std::decay_t<decltype(v)>;
                c.check(lh5::native_datatype<T>() == t.native() && lh5::native_datatype<T>().size() == sizeof(T), "native_datatype", what);
                if constexpr (std::is_floating_point_v<T>) c.check(lh5::ieee_datatype_le<T>() == t.file(), "ieee_datatype_le", what);
                else c.check(lh5::std_datatype_le<T>() == t.file(), "std_datatype_le", what);
                c.check(lh5::StandardDatatypeTraits<T>::nr_bytes() == t.size && lh5::StandardDatatypeTraits<T>::name() == file_name, "traits", what);
                c.check(lh5::NativeDatatypeTraits<T>::name() == native_name, "traits", what);
                c.check(lh5::Datatype{lh5::NativeDatatypeTraits<T>::type_id()} == t.native() && lh5::Datatype{lh5::StandardDatatypeTraits<T>::type_id()} == t.file(), "traits", what);
            });
            for (auto const& other : element_types())
            {
                bool const same = &other == &t;
                c.check((t.native() == other.native()) == same && (t.native() != other.native()) == !same, "equality", what);
                c.check((t.file() == other.file()) == same, "equality", what);
            }
        }
        std::sort(encodings.begin(), encodings.end());
        c.check(std::unique(encodings.begin(), encodings.end()) == encodings.end(), "encoding", "two types share an encoding");
        // Text
        auto const text = lh5::create_string_datatype();
        c.check(text.is_string() && !text.is_native() && !text.is_standard() && text.encoding() == H5T_CSET_UTF8 && ::H5Tis_variable_str(text.id()) > 0, "string", "type of text differs");
        c.check(lh5::memory_datatype(text) == text && lh5::file_datatype(text) == text, "string", "memory or file type of text differs");
        c.check(names.insert(lh5::native_datatype_as_string(text)).second, "string", "text shares its name");
        auto const n = c.rng.range(1, 100);
        auto const fixed = lh5::create_datatype(n);
        c.check(fixed.is_string() && fixed.size() == n && fixed.encoding() == H5T_CSET_UTF8, "string", "type of text of a length differs");
        auto const decoded = lh5::decode_datatype(lh5::encode_datatype(fixed));
        c.check(decoded == fixed && decoded.size() == n && decoded.encoding() == H5T_CSET_UTF8, "string", "decoded type of text differs");
    }

    enum Kind { same, same_constant, same_variable, different, different_constant, different_variable, mobile_box, mobile_point, stationary_box, stationary_point, raw, raw_constant, raw_different, nr_kinds };
    char const* const kind_name[] = {"same", "same_constant", "same_variable", "different", "different_constant", "different_variable", "mobile_box", "mobile_point",
        "stationary_box", "stationary_point", "raw", "raw_constant", "raw_different"};

    struct Item
    {
            std::string name;
            Kind kind;
            ElementType const* file;
            ElementType const* memory;  // While creating
            hsize_t nr;                 // Elements
            Bytes bytes;                // In the file type
    };

    // All of the elements of an item, as an array
    template<typename F>
    void with_array(ldm::Dataset& dataset, Item const& item, F&& f)
    {
        auto& set = dataset.phenomena()["p"].property_sets()[item.kind >= mobile_box && item.kind <= stationary_point ? item.name : "s"];
        auto& all = set.properties();
        switch (item.kind)
        {
            case same: f(static_cast<ldm::Array&>(all.collection<ldm::same_shape::Properties>()[item.name].value())); break;
            case same_constant: f(static_cast<ldm::Array&>(all.collection<ldm::same_shape::constant_shape::Properties>()[item.name].value())); break;
            case same_variable: { auto a = all.collection<ldm::same_shape::variable_shape::Properties>()[item.name].value()[0]; f(static_cast<ldm::Array&>(a)); break; }
            case different: { auto a = all.collection<ldm::different_shape::Properties>()[item.name].value()[7]; f(a); break; }
            case different_constant: { auto a = all.collection<ldm::different_shape::constant_shape::Properties>()[item.name].value()[7]; f(static_cast<ldm::Array&>(a)); break; }
            case different_variable: { auto a = all.collection<ldm::different_shape::variable_shape::Properties>()[item.name].value()[0][7]; f(a); break; }
            case mobile_box: { auto a = set.space_domain().value<ldm::MobileSpaceBox>(); f(static_cast<ldm::Array&>(a)); break; }
            case mobile_point: { auto a = set.space_domain().value<ldm::MobileSpacePoint>(); f(static_cast<ldm::Array&>(a)); break; }
            case stationary_box: { auto a = set.space_domain().value<ldm::StationarySpaceBox>(); f(static_cast<ldm::Array&>(a)); break; }
            case stationary_point: { auto a = set.space_domain().value<ldm::StationarySpacePoint>(); f(static_cast<ldm::Array&>(a)); break; }
            case raw: { ldm::same_shape::Value a{set, item.name}; f(static_cast<ldm::Array&>(a)); break; }
            case raw_constant: { ldm::same_shape::constant_shape::Value a{set, item.name}; f(static_cast<ldm::Array&>(a)); break; }
            default: { auto a = ldm::different_shape::Value{set, item.name}[7]; f(a); break; }
        }
    }

    void create(vh::Case& c, ldm::Dataset& dataset, Item& item)
    {
        auto& sets = dataset.phenomena()["p"].property_sets();
        auto& set = sets["s"];
        auto& all = set.properties();
        auto const native = item.memory->native();
        auto const n = item.nr;
        auto write = [&](ldm::Array& array) {
            c.check(array.memory_datatype() == native, "memory-type-created", item.name);
            Bytes const data = item.memory == item.file ? item.bytes : Bytes{};
            if (data.empty()) return;
            Buffer b(data);
            array.write(b.data());
        };
        hsize_t const id = 7;
        lh5::Shape const shape{n};
        auto space = [&](ldm::Mobility const mobility, ldm::SpaceDomainItemType const type) { sets.add(item.name, ldm::SpaceConfiguration{mobility, type}, native, type == ldm::SpaceDomainItemType::box ? n / 2 : n); };
        switch (item.kind)
        {
            case same: { auto& v = all.add<ldm::same_shape::Property>(item.name, native, shape).value(); v.expand(1); write(v); break; }
            case same_constant: { auto& v = all.add<ldm::same_shape::constant_shape::Property>(item.name, native, shape).value(); v.expand(1); write(v); break; }
            case same_variable: { auto v = all.add<ldm::same_shape::variable_shape::Property>(item.name, native, 1).value().expand(0, 1, shape); write(v); break; }
            case different: { auto& v = all.add(item.name, native, 1).value(); v.expand(id, shape); auto a = v[id]; write(a); break; }
            case different_constant: { auto v = all.add<ldm::different_shape::constant_shape::Property>(item.name, native, 1).value().expand(id, shape, 1); write(v); break; }
            case different_variable: { auto v = all.add<ldm::different_shape::variable_shape::Property>(item.name, native, 1).value().expand(0, 1, &id, &shape); auto a = v[id]; write(a); break; }
            case mobile_box: space(ldm::Mobility::mobile, ldm::SpaceDomainItemType::box); { auto v = sets[item.name].space_domain().value<ldm::MobileSpaceBox>(); v.expand(1); write(v); } break;
            case mobile_point: space(ldm::Mobility::mobile, ldm::SpaceDomainItemType::point); { auto v = sets[item.name].space_domain().value<ldm::MobileSpacePoint>(); v.expand(1); write(v); } break;
            case stationary_box: space(ldm::Mobility::stationary, ldm::SpaceDomainItemType::box); { auto v = sets[item.name].space_domain().value<ldm::StationarySpaceBox>(); v.expand(1); write(v); } break;
            case stationary_point: space(ldm::Mobility::stationary, ldm::SpaceDomainItemType::point); { auto v = sets[item.name].space_domain().value<ldm::StationarySpacePoint>(); v.expand(1); write(v); } break;
            case raw: { auto v = ldm::same_shape::create_value(set, item.name, item.file->file(), native, shape); v.expand(1); write(v); break; }
            case raw_constant: { auto v = ldm::same_shape::constant_shape::create_value(set, item.name, item.file->file(), native, shape); v.expand(1); write(v); break; }
            default: { auto v = ldm::different_shape::create_value(set, item.name, item.file->file(), native, 1); v.expand(id, shape); auto a = v[id]; write(a); break; }
        }
        if (item.memory != item.file) with_array(dataset, item, [&](ldm::Array& array) { Buffer b(item.bytes); array.write(b.data()); });
    }

    void verify(vh::Case& c, ldm::Dataset& dataset, Item const& item)
    {
        with_array(dataset, item, [&](ldm::Array& array) {
            std::string const what = std::format("{} ({} of {})", item.name, kind_name[item.kind], item.file->name);
            hid_t const type = ::H5Dget_type(array.id());
            check_file_type(c, type, *item.file, what);
            ::H5Tclose(type);
            check_memory_type(c, array.memory_datatype(), *item.file, what);
            c.check(array.file_datatype() == item.file->file(), "file-type", what);
            auto const shape = array.shape();
            lh5::Shape const start(shape.size(), 0);
            lh5::Hyperslab const slab{lh5::Offset(shape.size(), 0), lh5::Count(shape.begin(), shape.end())};
            Buffer b(item.bytes.size());
            array.read(b.data());
            compare(c, b.bytes(), item.bytes, {}, item.file->size, "bits", what);
            for (auto const& to : element_types())
            {
                if (!is_wider(*item.file, to)) continue;
                Buffer w(item.nr * to.size);
                array.read(to.native(), slab, w.data());
                compare_converted(c, *item.file, item.bytes, to, w.bytes(), what);
            }
        });
        if (item.kind == different || item.kind == raw_different)
        {
            auto& set = dataset.phenomena()["p"].property_sets()["s"];
            auto check_group = [&](auto const& group) {
                c.check(group.file_datatype() == item.file->file() && group.memory_datatype() == item.file->native(), "group-type", item.name);
                auto const decoded = lh5::decode_datatype(group.attributes().template read<std::vector<unsigned char>>(ldm::datatype_tag));
                check_file_type(c, decoded.id(), *item.file, item.name + ", encoded type");
            };
            if (item.kind == different) check_group(set.properties().collection<ldm::different_shape::Properties>()[item.name].value());
            else check_group(ldm::different_shape::Value{set, item.name});
        }
    }

    // Attributes of numbers
    void attributes(vh::Case& c, std::string const& path)
    {
        for (auto const& t : element_types())
        {
            with_type(t, [&](auto const v_) {
                using T = std::decay_t<decltype(v_)>;
                Bytes const values = special_elements(t);
                T v;
                std::memcpy(&v, values.data() + c.rng.below(values.size() / sizeof(T)) * sizeof(T), sizeof(T));
                {
                    lh5::File file{path, H5F_ACC_RDWR};
                    file.attributes().template write<T>(t.name, v);
                }
                lh5::File file{path};
                c.check(file.attributes().exists(t.name), "attribute", t.name);
                hid_t const attribute = ::H5Aopen(file.id(), t.name, H5P_DEFAULT);
                hid_t const type = ::H5Aget_type(attribute);
                check_file_type(c, type, t, std::string{"attribute of "} + t.name);
                ::H5Tclose(type);
                ::H5Aclose(attribute);
                T const r = file.attributes().template read<T>(t.name);
                c.check(std::memcmp(&r, &v, sizeof(T)) == 0, "attribute-value", std::string{"attribute of "} + t.name);
            });
        }
    }

    void run(vh::Case& c)
    {
        auto& rng = c.rng;
        check_types(c);
        std::string const path = c.path("types.lue");
        {
            auto file = lh5::create_file(c.path("attributes.h5"));
        }
        attributes(c, c.path("attributes.h5"));
        std::optional<ldm::Dataset> dataset{ldm::create_dataset(path)};
        dataset->add_phenomenon("p").property_sets().add("s");
        std::vector<Item> items;
        auto const nr_items = rng.range(2, c.thorough() ? 20 : 8);
        for (std::size_t i = 0; i < nr_items; ++i)
        {
            Item item;
            item.name = "item" + std::to_string(i);
            item.kind = static_cast<Kind>(rng.below(nr_kinds));
            item.file = &rng.pick(element_types());
            item.memory = item.kind >= raw && rng.chance(50) ? &rng.pick(element_types()) : item.file;
            item.bytes = special_elements(*item.file);
            auto const more = random_elements(rng, *item.file, rng.range(0, 20), false);
            item.bytes.insert(item.bytes.end(), more.begin(), more.end());
            if (item.bytes.size() / item.file->size % 2) item.bytes.resize(item.bytes.size() - item.file->size);
            item.nr = item.bytes.size() / item.file->size;
            c.op("create", std::format("{} {} file {} memory {} elements {} {:x}", item.name, kind_name[item.kind], item.file->name, item.memory->name, item.nr, vh::hash_bytes(item.bytes.data(), item.bytes.size())));
            c.count(std::string{"kind."} + kind_name[item.kind]);
            create(c, *dataset, item);
            items.push_back(item);
            if (rng.chance(40)) verify(c, *dataset, item);
            if (rng.chance(20))
            {
                c.op("reopen");
                dataset.reset();
                dataset = ldm::open_dataset(path, H5F_ACC_RDWR);
            }
        }
        c.nontrivial();
        c.op("final-reopen");
        dataset.reset();
        dataset = ldm::open_dataset(path);
        for (auto const& item : items) verify(c, *dataset, item);
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
