// Random rasters on disk, and reading them through GDAL itself.
#pragma once
#include "vh.hpp"
#include "lue/gdal/compare_rasters.hpp"
#include "lue/gdal/data_type.hpp"
#include "lue/gdal/driver.hpp"
#include "lue/gdal/error.hpp"
#include "lue/gdal/library.hpp"
#include "lue/gdal/raster.hpp"
#include "lue/gdal/type_traits.hpp"
#include <cmath>
#include <limits>
#include <memory>
#include <optional>

namespace rasters {

    namespace lg = lue::gdal;
    using Bytes = std::vector<unsigned char>;

    struct Type
    {
            char const* name;       // As GDAL calls it
            char const* lue_name;
            std::size_t size;
            bool is_float;
            GDALDataType id;
    };

    inline auto types() -> std::vector<Type> const&
    {
        static std::vector<Type> const result{
            {"Byte", "GDT_Byte", 1, false, GDT_Byte}, {"Int8", "GDT_Int8", 1, false, GDT_Int8},
            {"UInt16", "GDT_UInt16", 2, false, GDT_UInt16}, {"Int16", "GDT_Int16", 2, false, GDT_Int16},
            {"UInt32", "GDT_UInt32", 4, false, GDT_UInt32}, {"Int32", "GDT_Int32", 4, false, GDT_Int32},
            {"UInt64", "GDT_UInt64", 8, false, GDT_UInt64}, {"Int64", "GDT_Int64", 8, false, GDT_Int64},
            {"Float32", "GDT_Float32", 4, true, GDT_Float32}, {"Float64", "GDT_Float64", 8, true, GDT_Float64}};
        return result;
    }

    template<typename F>
    void with_type(Type const& t, F&& f)
    {
        switch (t.id)
        {
            case GDT_Byte: f(std::uint8_t{}); break;
            case GDT_Int8: f(std::int8_t{}); break;
            case GDT_UInt16: f(std::uint16_t{}); break;
            case GDT_Int16: f(std::int16_t{}); break;
            case GDT_UInt32: f(std::uint32_t{}); break;
            case GDT_Int32: f(std::int32_t{}); break;
            case GDT_UInt64: f(std::uint64_t{}); break;
            case GDT_Int64: f(std::int64_t{}); break;
            case GDT_Float32: f(float{}); break;
            default: f(double{}); break;
        }
    }

    // Random cells: any bits, or few different values
    inline auto random_cells(vh::Rng& rng, Type const& t, std::size_t const n, bool const finite = false) -> Bytes
    {
        Bytes b(n * t.size);
        bool const few = rng.chance(30);
        for (std::size_t i = 0; i < n; ++i)
        {
            std::uint64_t bits = few ? rng.below(3) : rng.next();
            if (t.is_float && (finite || few))
            {
                double const d = few ? static_cast<double>(bits) : (static_cast<double>(rng.below(2000001)) - 1000000.0) / 64.0;
                if (t.size == 4) { float const f = static_cast<float>(d); std::memcpy(b.data() + i * 4, &f, 4); }
                else std::memcpy(b.data() + i * 8, &d, 8);
            }
            else std::memcpy(b.data() + i * t.size, &bits, t.size);
        }
        return b;
    }

    // A heap block of exactly so many bytes
    class Buffer
    {
        public:
            explicit Buffer(std::size_t n): _n{n}, _p{new unsigned char[n ? n : 1]} { std::memset(_p.get(), 0xA5, n); }
            explicit Buffer(Bytes const& b): Buffer{b.size()} { if (_n) std::memcpy(_p.get(), b.data(), _n); }
            auto data() -> void* { return _p.get(); }
            auto bytes() const -> Bytes { return Bytes(_p.get(), _p.get() + _n); }
        private:
            std::size_t _n;
            std::unique_ptr<unsigned char[]> _p;
    };

    struct Layout
    {
            std::map<std::string, std::string> options;
            std::string text;
    };

    // How a GeoTIFF of this shape is divided
    inline auto random_layout(vh::Rng& rng, lg::Shape const& shape) -> Layout
    {
        Layout l;
        auto const set = [&](std::string const& name, std::string const& value) { l.options[name] = value; l.text += name + "=" + value + " "; };
        bool const tiled = rng.chance(55);
        if (tiled)
        {
            set("TILED", "YES");
            set("BLOCKXSIZE", std::to_string(16 * rng.range(1, 4)));
            set("BLOCKYSIZE", std::to_string(16 * rng.range(1, 4)));
        }
        else if (rng.chance(80)) set("BLOCKYSIZE", std::to_string(rng.range(1, shape[0] + (rng.chance(30) ? 3 : 0))));
        bool const compressed = rng.chance(30);
        if (compressed)
        {
            static char const* const names[] = {"PACKBITS", "LZW", "DEFLATE"};
            set("COMPRESS", names[rng.below(3)]);
        }
        // GDAL 3.8 itself writes strips it cannot read when strips of separate bands are compressed
        if (rng.chance(40)) set("INTERLEAVE", rng.chance(50) && (tiled || !compressed) ? "BAND" : "PIXEL");
        if (rng.chance(15)) set("BIGTIFF", "YES");
        if (rng.chance(15)) set("ENDIANNESS", "BIG");
        if (rng.chance(15)) set("SPARSE_OK", "TRUE");
        return l;
    }

    // North is up and cells are square
    inline auto random_geo_transform(vh::Rng& rng) -> lg::GeoTransform
    {
        double const size = rng.chance(30) ? 1.0 : static_cast<double>(rng.range(1, 1000000)) / 7.0;
        double const west = (static_cast<double>(rng.below(2000001)) - 1000000.0) / 3.0, north = rng.chance(20) ? 0.0 : (static_cast<double>(rng.below(2000001)) - 1000000.0) / 9.0;
        return {west, size, 0.0, north, 0.0, -size};
    }

    // All cells of a band, read by GDAL itself
    inline auto cells(std::string const& path, int const band, Type const& t) -> Bytes
    {
        GDALDatasetH d = ::GDALOpen(path.c_str(), GA_ReadOnly);
        if (!d) throw std::runtime_error("cannot open " + path);
        int const rows = ::GDALGetRasterYSize(d), cols = ::GDALGetRasterXSize(d);
        Bytes b(static_cast<std::size_t>(rows) * cols * t.size);
        auto const status = ::GDALRasterIO(::GDALGetRasterBand(d, band), GF_Read, 0, 0, cols, rows, b.data(), cols, rows, t.id, 0, 0);
        ::GDALClose(d);
        if (status != CE_None) throw std::runtime_error("cannot read " + path);
        return b;
    }

    inline auto text(lg::Shape const& s) -> std::string { return std::format("({},{})", s[0], s[1]); }

    inline void quiet()
    {
        static lg::QuietErrorHandler handler;
        lg::register_gdal_drivers();
        ::CPLSetConfigOption("GDAL_PAM_ENABLED", "YES");
    }

    inline void compare(vh::Case& c, Bytes const& observed, Bytes const& expected, Type const& t, std::string const& key, std::string const& what)
    {
        c.count("oracle.checks");
        c.count("cells.compared", expected.size() / t.size);
        if (observed == expected) return;
        if (observed.size() != expected.size()) c.fail(key, std::format("{}: {} bytes observed, {} expected", what, observed.size(), expected.size()));
        for (std::size_t i = 0; i < expected.size() / t.size; ++i)
        {
            if (std::memcmp(observed.data() + i * t.size, expected.data() + i * t.size, t.size) != 0) c.fail(key, std::format("{}: cell {} differs", what, i));
        }
    }

}  // namespace rasters
