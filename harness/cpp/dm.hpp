// Helpers for harnesses that drive the data model: element types, byte-level reference arrays.
#pragma once
#include "vh.hpp"
#include "lue/data_model.hpp"
#include "lue/validate.hpp"
#include <limits>
#include <memory>
#include <optional>

namespace dm {

    namespace ldm = lue::data_model;
    namespace lh5 = lue::hdf5;
    using Bytes = std::vector<unsigned char>;

    struct ElementType
    {
            char const* name;
            std::size_t size;
            bool is_float, is_signed;
            lh5::Datatype (*native)();
            lh5::Datatype (*file)();
    };

    inline auto element_types() -> std::vector<ElementType> const&
    {
        static std::vector<ElementType> const types{
            {"uint8", 1, false, false, [] { return lh5::native_uint8; }, [] { return lh5::std_uint8_le; }},
            {"uint16", 2, false, false, [] { return lh5::native_uint16; }, [] { return lh5::std_uint16_le; }},
            {"uint32", 4, false, false, [] { return lh5::native_uint32; }, [] { return lh5::std_uint32_le; }},
            {"uint64", 8, false, false, [] { return lh5::native_uint64; }, [] { return lh5::std_uint64_le; }},
            {"int8", 1, false, true, [] { return lh5::native_int8; }, [] { return lh5::std_int8_le; }},
            {"int16", 2, false, true, [] { return lh5::native_int16; }, [] { return lh5::std_int16_le; }},
            {"int32", 4, false, true, [] { return lh5::native_int32; }, [] { return lh5::std_int32_le; }},
            {"int64", 8, false, true, [] { return lh5::native_int64; }, [] { return lh5::std_int64_le; }},
            {"float32", 4, true, true, [] { return lh5::native_float32; }, [] { return lh5::ieee_float32_le; }},
            {"float64", 8, true, true, [] { return lh5::native_float64; }, [] { return lh5::ieee_float64_le; }},
        };
        return types;
    }

    inline auto random_bytes(vh::Rng& rng, std::size_t n) -> Bytes
    {
        Bytes b(n);
        std::size_t i = 0;
        while (i < n)
        {
            std::uint64_t v = rng.next();
            for (int k = 0; k < 8 && i < n; ++k, ++i)
            {
                b[i] = static_cast<unsigned char>(v >> (8 * k));
            }
        }
        return b;
    }

    // A pointer that is never null and points to a heap block of exactly n bytes, so that the address
    // sanitizer sees every access outside it
    class Buffer
    {
        public:
            explicit Buffer(std::size_t n, unsigned char fill = 0xA5): _n{n}, _p{new unsigned char[n == 0 ? 1 : n]}
            {
                std::memset(_p.get(), fill, n);
            }
            explicit Buffer(Bytes const& b): Buffer{b.size()}
            {
                if (_n)
                {
                    std::memcpy(_p.get(), b.data(), _n);
                }
            }
            auto data() -> void* { return _p.get(); }
            auto bytes() const -> Bytes { return Bytes(_p.get(), _p.get() + _n); }
        private:
            std::size_t _n;
            std::unique_ptr<unsigned char[]> _p;
    };

    inline auto product(std::vector<hsize_t> const& v) -> std::size_t
    {
        std::size_t r = 1;
        for (auto e : v)
        {
            r *= e;
        }
        return r;
    }

    inline auto to_string(std::vector<hsize_t> const& v) -> std::string
    {
        std::string r = "(";
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            r += (i ? "," : "") + std::to_string(v[i]);
        }
        return r + ")";
    }

    inline auto hex(Bytes const& b, std::size_t from, std::size_t n) -> std::string
    {
        std::string r;
        for (std::size_t i = from; i < from + n && i < b.size(); ++i)
        {
            r += std::format("{:02x}", b[i]);
        }
        return r;
    }

    // Compare observed with expected bytes, element by element, where known
    inline void compare(
        vh::Case& c, Bytes const& observed, Bytes const& expected, std::vector<char> const& known, std::size_t size,
        std::string const& key, std::string const& what)
    {
        c.count("oracle.checks");
        c.count("elements.compared", size ? observed.size() / size : 0);
        if (observed.size() != expected.size())
        {
            c.fail(key, std::format("{}: {} bytes observed, {} expected", what, observed.size(), expected.size()));
        }
        for (std::size_t i = 0; size && i < observed.size() / size; ++i)
        {
            if (!known.empty() && !known[i])
            {
                continue;
            }
            if (std::memcmp(observed.data() + i * size, expected.data() + i * size, size) != 0)
            {
                c.fail(key, std::format("{}: element {} is {} (bytes), expected {}", what, i,
                    hex(observed, i * size, size), hex(expected, i * size, size)));
            }
        }
    }

    inline auto random_shape(vh::Rng& rng, int min_rank, int max_rank, hsize_t max_extent, std::size_t max_elements = 400) -> lh5::Shape
    {
        for (;;)
        {
            lh5::Shape s(rng.range(min_rank, max_rank));
            for (auto& e : s)
            {
                e = rng.range(1, max_extent);
            }
            if (product(s) <= max_elements)
            {
                return s;
            }
        }
    }

    // Valid UTF-8, without '/' and not "." or "..": HDF5 link names
    inline auto random_name(vh::Rng& rng) -> std::string
    {
        static std::vector<std::string> const parts{"a", "B", "z", "0", "7", "_", "-", " ", ".", "é", "ß", "中", "😀", "areas", "lue_", "x y", "%", "\"", "\\", "'"};
        std::string r;
        // Once in a while a long one: paths are longer than any buffer of a fixed size
        auto n = rng.chance(4) ? rng.range(30, 200) : rng.range(1, 5);
        for (std::uint64_t i = 0; i < n; ++i)
        {
            r += rng.pick(parts);
        }
        if (r.find_first_not_of('.') == std::string::npos)
        {
            r += "n";
        }
        return r;
    }

    inline auto random_text(vh::Rng& rng, std::size_t max_parts) -> std::string
    {
        static std::vector<std::string> const parts{"a", "B", "z", "0", "/", "_", "\n", " ", "é", "ß", "中", "😀", "areas", "lue_", "\t", "%"};
        std::string r;
        auto n = rng.below(max_parts + 1);
        for (std::uint64_t i = 0; i < n; ++i)
        {
            r += rng.pick(parts);
        }
        return r;
    }

    // Files of the process that still have open objects
    inline auto nr_open_objects() -> long
    {
        return static_cast<long>(::H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_GROUP | H5F_OBJ_DATASET | H5F_OBJ_ATTR));
    }

    // A wider memory type for an element type, and conversion of values to it
    inline auto wide_type(ElementType const& t) -> ElementType const&
    {
        auto const& types = element_types();
        if (t.is_float) return types[9];
        if (t.size == 8) return t;
        return types[7];
    }

    template<typename From, typename To>
    void convert_elements(Bytes const& in, Bytes& out)
    {
        std::size_t const n = in.size() / sizeof(From);
        out.resize(n * sizeof(To));
        for (std::size_t i = 0; i < n; ++i)
        {
            From f;
            std::memcpy(&f, in.data() + i * sizeof(From), sizeof(From));
            To const t = static_cast<To>(f);
            std::memcpy(out.data() + i * sizeof(To), &t, sizeof(To));
        }
    }

    inline auto widen(ElementType const& t, Bytes const& in) -> Bytes
    {
        Bytes out;
        std::string const n = t.name;
        if (n == "uint8") convert_elements<std::uint8_t, std::int64_t>(in, out);
        else if (n == "uint16") convert_elements<std::uint16_t, std::int64_t>(in, out);
        else if (n == "uint32") convert_elements<std::uint32_t, std::int64_t>(in, out);
        else if (n == "int8") convert_elements<std::int8_t, std::int64_t>(in, out);
        else if (n == "int16") convert_elements<std::int16_t, std::int64_t>(in, out);
        else if (n == "int32") convert_elements<std::int32_t, std::int64_t>(in, out);
        else if (n == "float32") convert_elements<float, double>(in, out);
        else out = in;
        return out;
    }

    // Random elements. Floating points are finite if asked for, and any bit pattern otherwise
    inline auto random_elements(vh::Rng& rng, ElementType const& t, std::size_t n, bool finite) -> Bytes
    {
        Bytes b = random_bytes(rng, n * t.size);
        if (finite && t.is_float)
        {
            for (std::size_t i = 0; i < n; ++i)
            {
                double const d = (static_cast<double>(rng.below(2000001)) - 1000000.0) / 64.0;
                if (t.size == 4)
                {
                    float const f = static_cast<float>(d);
                    std::memcpy(b.data() + i * 4, &f, 4);
                }
                else
                {
                    std::memcpy(b.data() + i * 8, &d, 8);
                }
            }
        }
        return b;
    }

}  // namespace dm
