// LINK: lue::gdal
// C23: datasets keep their metadata through create, copy, re-open and delete.
//
// Model: per file its format, shape, bands, element type, geo-transform, projection, no-data values and cells.
#include "rasters.hpp"

using namespace rasters;

namespace {

    char const* const wgs84 =
        "GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563,AUTHORITY[\"EPSG\",\"7030\"]],AUTHORITY[\"EPSG\",\"6326\"]],"
        "PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433],AUTHORITY[\"EPSG\",\"4326\"]]";

    struct NoData
    {
            bool set{false};
            Bytes value;  // In the element type
    };

    struct File
    {
            std::string path;
            std::string driver;
            Type const* type;
            lg::Shape shape;
            std::optional<lg::GeoTransform> geo_transform;
            bool projection{false};
            std::vector<NoData> no_data;
            std::vector<Bytes> bands;
    };

    auto slurp(std::string const& path) -> std::map<std::string, std::string>
    {
        std::map<std::string, std::string> result;
        for (std::string const& p : {path, path + ".aux.xml"})
        {
            if (std::filesystem::exists(p)) result[p] = vh::read_file(p);
        }
        return result;
    }

    auto same(Bytes const& a, Bytes const& b, Type const& t) -> bool
    {
        bool result{false};
        with_type(t, [&](auto e) {
            decltype(e) x, y;
            std::memcpy(&x, a.data(), sizeof(x));
            std::memcpy(&y, b.data(), sizeof(y));
            result = x == y || (x != x && y != y);
        });
        return result;
    }

    auto random_no_data(vh::Rng& rng, Type const& t) -> Bytes
    {
        Bytes b(t.size);
        with_type(t, [&](auto e) {
            using E = decltype(e);
            E v;
            auto const what = rng.below(10);
            if (what == 0) v = std::numeric_limits<E>::max();
            else if (what == 1) v = std::numeric_limits<E>::lowest();
            else if (what == 2) v = E{0};
            else if (what == 3 && std::is_floating_point_v<E>) v = std::numeric_limits<E>::quiet_NaN();
            else if (what == 4 && std::is_floating_point_v<E>) v = std::numeric_limits<E>::infinity();
            else if (what == 5 && std::is_floating_point_v<E>) v = std::numeric_limits<E>::min();
            else if (what == 6 && std::is_signed_v<E>) v = static_cast<E>(-1);
            else
            {
                Bytes const r = random_cells(rng, t, 1, true);
                std::memcpy(&v, r.data(), sizeof(v));
                if (std::is_floating_point_v<E>) v /= E{3};
            }
            std::memcpy(b.data(), &v, sizeof(v));
        });
        return b;
    }

    // All that a dataset tells
    void verify(vh::Case& c, lg::DatasetPtr const& dataset, File const& f, std::string const& when)
    {
        int const nr_bands = static_cast<int>(f.bands.size());
        c.count("datasets.compared");
        c.equal(lg::nr_raster_bands(*dataset), nr_bands, "nr-bands", when);
        c.check(lg::shape(*dataset) == f.shape, "shape", when + ": " + text(lg::shape(*dataset)) + " instead of " + text(f.shape));
        c.check(lg::data_type(*dataset) == f.type->id, "data-type", when);
        c.check(std::string{::GDALGetDriverShortName(dataset->GetDriver())} == f.driver, "driver", when);
        lg::Raster raster{dataset};
        c.check(raster.shape() == f.shape && raster.nr_bands() == nr_bands && raster.data_type() == f.type->id, "raster", when);
        if (f.geo_transform)
        {
            c.check(lg::geo_transform(*dataset) == *f.geo_transform && raster.geo_transform() == *f.geo_transform, "geo-transform", when);
        }
        else if (f.driver != "MEM") c.throws("geo-transform-none", "geo-transform of a raster that has none", [&] { raster.geo_transform(); });
        c.check((dataset->GetSpatialRef() != nullptr) == f.projection, "projection", when);
        if (f.projection)
        {
            OGRSpatialReference expected;
            expected.importFromWkt(wgs84);
            char *a{}, *b{};
            expected.exportToWkt(&a);
            dataset->GetSpatialRef()->exportToWkt(&b);
            std::string const texts{std::string{a} + " instead of " + b};
            ::CPLFree(a);
            ::CPLFree(b);
            char const* const options[]{"IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES", nullptr};
            c.check(expected.IsSame(dataset->GetSpatialRef(), options) != 0, "projection", when + ": " + texts);
        }
        for (int b = 0; b < nr_bands; ++b)
        {
            auto band = raster.band(b + 1);
            c.check(band.shape() == f.shape && band.data_type() == f.type->id, "band", when);
            c.equal(lg::as_string(band.data_type()), std::string{f.type->lue_name}, "data-type-name", when);
            with_type(*f.type, [&](auto e) {
                using E = decltype(e);
                auto const [value, valid] = c.rng.chance(50) ? band.template no_data_value<E>() : lg::no_data_value<E>(*lg::raster_band(*dataset, b + 1));
                c.count("no-data.compared");
                c.check(valid == f.no_data[b].set, "no-data-set",
                    std::format("{}: band {}: {} instead of {}", when, b + 1, valid ? "set" : "not set", f.no_data[b].set ? "set" : "not set"));
                if (valid)
                {
                    E expected;
                    std::memcpy(&expected, f.no_data[b].value.data(), sizeof(E));
                    c.check(value == expected || (value != value && expected != expected), "no-data-value", std::format("{}: band {}: {} instead of {}", when, b + 1, value, expected));
                    c.count(std::is_floating_point_v<E> ? "no-data.float" : "no-data.integer");
                }
            });
            Buffer buffer(f.bands[b].size());
            band.read(buffer.data());
            compare(c, buffer.bytes(), f.bands[b], *f.type, "cells", std::format("{}: band {}", when, b + 1));
        }
    }

    void verify_file(vh::Case& c, File const& f, std::string const& when)
    {
        auto const before = slurp(f.path);
        {
            auto dataset = c.rng.chance(50) ? lg::open_dataset(f.path, GA_ReadOnly) : lg::try_open_dataset(f.path, GA_ReadOnly);
            c.check(static_cast<bool>(dataset), "open", when);
            verify(c, dataset, f, when);
        }
        c.check(lg::data_type(f.path) == f.type->id, "data-type-by-name", when);
        c.check(slurp(f.path) == before, "changed-by-reading", when + ": " + f.path);
    }

    auto create(vh::Case& c, File& f, std::string const path, std::string const& driver) -> lg::DatasetPtr
    {
        auto& rng = c.rng;
        f = File{};
        f.path = path;
        f.driver = driver;
        do { f.type = &rng.pick(types()); } while (driver == "HFA" && (f.type->size == 8 && !f.type->is_float));
        f.shape = {static_cast<int>(rng.range(1, 40)), static_cast<int>(rng.range(1, 40))};
        int const nr_bands = static_cast<int>(rng.range(1, 4));
        f.no_data.resize(nr_bands);
        f.bands.assign(nr_bands, Bytes(static_cast<std::size_t>(lg::nr_elements(f.shape)) * f.type->size, 0));
        auto const layout = driver == "GTiff" ? random_layout(rng, f.shape) : Layout{};
        c.op("create-" + driver, std::format("{} {} {} {}", f.type->name, text(f.shape), nr_bands, layout.text));
        GDALDataType const t = f.type->id;
        auto dataset = rng.chance(50) ? lg::create_dataset(driver, path, f.shape, nr_bands, t, layout.options)
                                      : lg::create_dataset(*lg::driver(driver), path, f.shape, nr_bands, t, layout.options);
        // What cells that were never written contain depends on the format
        for (int b = 0; b < nr_bands; ++b)
        {
            f.bands[b] = random_cells(rng, *f.type, lg::nr_elements(f.shape));
            Buffer buffer{f.bands[b]};
            lg::Raster{dataset}.band(b + 1).write(buffer.data());
        }
        return dataset;
    }

    void set_geo_transform(vh::Case& c, lg::DatasetPtr const& dataset, File& f)
    {
        auto& rng = c.rng;
        c.op("geo-transform");
        // Erdas stores the centers of cells
        lg::GeoTransform const g = f.driver == "HFA" ? lg::GeoTransform{static_cast<double>(rng.below(1000)), 0.5 * rng.range(1, 40), 0.0, static_cast<double>(rng.below(1000)), 0.0, 0.0}
                                                     : random_geo_transform(rng);
        lg::GeoTransform v = g;
        v[5] = -v[1];
        if (rng.chance(50)) lg::set_geo_transform(*dataset, v);
        else lg::Raster{dataset}.set_geo_transform(v);
        f.geo_transform = v;
    }

    void set_no_data(vh::Case& c, lg::DatasetPtr const& dataset, File& f)
    {
        auto& rng = c.rng;
        // GeoTIFF has room for one value only
        bool const per_band = f.driver == "HFA" || f.driver == "MEM";
        Bytes value = random_no_data(rng, *f.type);
        c.op("no-data", per_band ? "per-band" : "all");
        for (std::size_t b = 0; b < f.bands.size(); ++b)
        {
            if (per_band)
            {
                if (rng.chance(40)) continue;
                value = random_no_data(rng, *f.type);
            }
            with_type(*f.type, [&](auto e) {
                using E = decltype(e);
                E v;
                std::memcpy(&v, value.data(), sizeof(v));
                if (rng.chance(50)) lg::Raster{dataset}.band(static_cast<int>(b) + 1).template set_no_data_value<E>(v);
                else c.check(lg::set_no_data_value<E>(*lg::raster_band(*dataset, static_cast<int>(b) + 1), v), "set-no-data", "");
            });
            f.no_data[b] = NoData{true, value};
        }
        if (!per_band)
        {
            // GDAL does not store blocks with only zeros in GeoTIFFs right away, and takes them for no-data once that is set
            for (std::size_t b = 0; b < f.bands.size(); ++b)
            {
                Buffer buffer{f.bands[b]};
                lg::Raster{dataset}.band(static_cast<int>(b) + 1).write(buffer.data());
            }
        }
    }

    void write_cells(vh::Case& c, lg::DatasetPtr const& dataset, File& f)
    {
        auto const b = c.rng.below(f.bands.size());
        c.op("write", std::to_string(b));
        f.bands[b] = random_cells(c.rng, *f.type, lg::nr_elements(f.shape));
        Buffer buffer{f.bands[b]};
        lg::Raster{dataset}.band(static_cast<int>(b) + 1).write(buffer.data());
    }

    void refusals(vh::Case& c, std::string const& existing)
    {
        auto& rng = c.rng;
        c.op("refuse");
        auto const before = slurp(existing);
        std::string const absent = c.path("absent.tif");
        c.throws("open-absent", "", [&] { lg::open_dataset(absent, rng.chance(50) ? GA_ReadOnly : GA_Update); });
        c.check(!lg::try_open_dataset(absent, GA_ReadOnly), "try-open-absent", "");
        c.throws("data-type-absent", "", [&] { lg::data_type(absent); });
        std::string const text = c.path("text.tif");
        { std::ofstream{text} << "This is not a raster"; }
        c.throws("open-text", "", [&] { lg::open_dataset(text, GA_ReadOnly); });
        c.check(!lg::try_open_dataset(text, GA_Update), "try-open-text", "");
        c.check(vh::read_file(text) == "This is not a raster", "text-changed", "");
        std::filesystem::remove(text);
        c.throws("open-directory", "", [&] { lg::open_dataset(c.work().string(), GA_ReadOnly); });
        auto& gtiff = *lg::driver("GTiff");
        c.throws("delete-absent", "", [&] { lg::delete_dataset(gtiff, absent); });
        c.throws("create-in-absent", "", [&] { lg::create_dataset("GTiff", c.path("no/r.tif"), {3, 4}, 1, GDT_Byte); });
        c.throws("create-empty", "", [&] { lg::create_dataset("GTiff", absent, {rng.chance(50) ? 0 : -1, 4}, 1, GDT_Byte); });
        c.throws("create-empty", "", [&] { lg::create_dataset("GTiff", absent); });
        c.throws("create-negative", "", [&] { lg::create_dataset("GTiff", absent, {3, 4}, -1, GDT_Byte); });
        std::string const unknown = rng.pick(std::vector<std::string>{"", "Unknown", "GTif", "tif", "GTiff "});
        c.throws("unknown-driver", unknown, [&] { lg::driver(unknown); });
        c.throws("unknown-driver", unknown, [&] { lg::create_dataset(unknown, absent, {3, 4}, 1, GDT_Byte); });
        c.check(!std::filesystem::exists(absent), "created-anyway", "");
        {
            auto dataset = lg::open_dataset(existing, GA_ReadOnly);
            c.throws("copy-in-absent", "", [&] { lg::create_copy(c.path("no/r.tif"), *dataset); });
            c.throws("band", "", [&] { lg::raster_band(*dataset, lg::nr_raster_bands(*dataset) + 1 + static_cast<int>(rng.below(3))); });
            c.throws("band", "", [&] { lg::raster_band(*dataset, -static_cast<int>(rng.below(3))); });
        }
        c.check(slurp(existing) == before, "changed-by-refusal", existing);
        // Orientations and cells that are not supported
        {
            auto dataset = lg::create_dataset("MEM", "", {3, 4}, 1, GDT_Byte);
            lg::GeoTransform g = random_geo_transform(rng);
            switch (rng.below(4))
            {
                case 0: g[2] = 0.25; break;
                case 1: g[4] = -0.25; break;
                case 2: g[5] = -g[5]; break;
                default: g[5] *= 1.5; break;
            }
            lg::set_geo_transform(*dataset, g);
            c.throws("geo-transform-unsupported", "", [&] { lg::geo_transform(*dataset); });
            c.throws("geo-transform-unsupported", "", [&] { lg::Raster{dataset}.geo_transform(); });
        }
        c.count("refused", 18);
    }

    void names(vh::Case& c)
    {
        auto& rng = c.rng;
        static std::vector<std::pair<std::string, std::string>> const known{{".tif", "GTiff"}, {".hdf4", "HDF4"}, {".h4", "HDF4"}, {".hdf5", "HDF5"}, {".h5", "HDF5"},
            {".nc", "netCDF"}, {".map", "PCRaster"}, {".csf", "PCRaster"}, {".img", "HFA"}};
        auto const& [extension, driver] = rng.pick(known);
        std::string e = extension;
        for (char& x : e) if (rng.chance(40)) x = static_cast<char>(std::toupper(x));
        std::string const stem = rng.pick(std::vector<std::string>{"a", "/x.nc/y", "../a.b", "a.tif", "with space", ".hidden"});
        c.op("driver-name", stem + e);
        c.equal(lg::driver_name(stem + e), driver, "driver-name", stem + e);
        std::string const other = rng.pick(std::vector<std::string>{"", ".", ".t", ".tiff1", "tif", ".tif.x", ".json", ".tif/", ".TI F"});
        c.equal(lg::driver_name("a" + other), std::string{"Unknown"}, "driver-name", other);
        if (driver == "GTiff" || driver == "HFA" || driver == "PCRaster")
            c.equal(std::string{lg::driver(lg::driver_name(stem + e))->GetDescription()}, driver, "driver", driver);
        std::set<std::string> unique;
        for (auto const& t : types())
        {
            unique.insert(lg::as_string(t.id));
            with_type(t, [&](auto v) { c.check(lg::data_type_v<decltype(v)> == t.id && sizeof(v) == t.size, "type-trait", t.name); });
            c.equal(lg::as_string(t.id), std::string{t.lue_name}, "data-type-name", t.name);
        }
        for (auto const t : {GDT_Unknown, GDT_CInt16, GDT_CInt32, GDT_CFloat32, GDT_CFloat64})
        {
            unique.insert(lg::as_string(t));
            c.equal(lg::as_string(t), std::string{"GDT_"} + ::GDALGetDataTypeName(t), "data-type-name", "");
        }
        c.check(unique.size() == types().size() + 5 && !unique.contains(""), "data-type-names", "not unique");
        c.count("names");
    }

    // No-data values which the element type does not have
    void odd_no_data(vh::Case& c)
    {
        auto& rng = c.rng;
        Type const& t = types()[rng.below(6)];
        c.op("odd-no-data", t.name);
        auto dataset = lg::create_dataset("MEM", "", {3, 4}, 1, t.id);
        double const value = rng.pick(std::vector<double>{-1e10, 1e20, 0.5, -9999999999.0, 4294967296.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()});
        dataset->GetRasterBand(1)->SetNoDataValue(value);
        with_type(t, [&](auto e) {
            using E = decltype(e);
            auto const [v, valid] = lg::Raster{dataset}.band(1).template no_data_value<E>();
            c.check(!valid, "no-data-unrepresentable", std::format("{} is reported as {} for {}", value, v, t.name));
        });
        c.count("no-data.odd");
    }

    void body(vh::Case& c)
    {
        quiet();
        auto& rng = c.rng;
        c.nontrivial();
        names(c);
        if (rng.chance(20)) odd_no_data(c);
        std::string const driver = rng.pick(std::vector<std::string>{"GTiff", "GTiff", "HFA", "MEM"});
        std::string const path = driver == "MEM" ? "" : c.path(driver == "HFA" ? "r.img" : "r.tif");
        File f;
        auto dataset = create(c, f, path, driver);
        verify(c, dataset, f, "created");
        if (rng.chance(70)) set_geo_transform(c, dataset, f);
        if (driver != "HFA" && rng.chance(50))
        {
            c.op("projection");
            dataset->SetProjection(wgs84);
            f.projection = true;
        }
        std::vector<File> copies;
        for (auto n = rng.range(3, 9); n > 0; --n)
        {
            auto const what = rng.below(100);
            if (what < 12) set_geo_transform(c, dataset, f);
            else if (what < 27) set_no_data(c, dataset, f);
            else if (what < 42) write_cells(c, dataset, f);
            else if (what < 57 && driver != "MEM")
            {
                c.op("reopen");
                dataset.reset();
                verify_file(c, f, "re-opened");
                dataset = lg::open_dataset(f.path, GA_Update);
                c.count("reopened");
            }
            else if (what < 82)
            {
                // Formats with a no-data value per band cannot be copied to a GeoTIFF without loss
                bool uniform{true};
                for (auto const& n : f.no_data) uniform = uniform && n.set == f.no_data[0].set && (!n.set || same(n.value, f.no_data[0].value, *f.type));
                if (!uniform) continue;
                File copy = f;
                bool const replace = !copies.empty() && rng.chance(30);
                std::size_t const at = replace ? rng.below(copies.size()) : copies.size();
                copy.path = replace ? copies[at].path : c.path(std::format("copy{}.tif", n));
                copy.driver = "GTiff";
                auto const layout = random_layout(rng, f.shape);
                bool const from_file = driver != "MEM" && rng.chance(60), statistics = rng.chance(30);
                c.op("copy", std::format("{} {} {} {}", from_file ? "file" : "open", statistics, replace ? "replace" : "new", layout.text));
                std::map<std::string, std::string> before;
                lg::DatasetPtr source = dataset;
                if (from_file)
                {
                    dataset.reset();
                    source.reset();
                    source = lg::open_dataset(f.path, GA_ReadOnly);
                    if (statistics) { double a, b, x, y; source->GetRasterBand(1)->ComputeStatistics(FALSE, &a, &b, &x, &y, nullptr, nullptr); source.reset(); source = lg::open_dataset(f.path, GA_ReadOnly); }
                    before = slurp(f.path);
                }
                {
                    auto target = lg::create_copy(copy.path, *source, layout.options);
                    verify(c, target, copy, "copy");
                }
                verify(c, source, f, "source");
                if (from_file)
                {
                    source.reset();
                    c.check(slurp(f.path) == before, "source-changed", "");
                    dataset = lg::open_dataset(f.path, GA_Update);
                    c.count("copied.file");
                    if (statistics)
                    {
                        auto target = lg::open_dataset(copy.path, GA_ReadOnly);
                        c.check(target->GetRasterBand(1)->GetMetadataItem("STATISTICS_MINIMUM") == nullptr, "statistics", "the copy has statistics");
                        c.count("copied.statistics");
                        // Stale statistics must not survive writing
                        for (int b = 1; b <= target->GetRasterCount(); ++b) c.check(target->GetRasterBand(b)->GetMetadataItem("STATISTICS_MEAN") == nullptr, "statistics", "");
                    }
                }
                verify_file(c, copy, "copy re-opened");
                c.count("copied");
                if (replace) copies[at] = copy;
                else copies.push_back(copy);
            }
            else if (what < 90 && !copies.empty())
            {
                auto const at = rng.below(copies.size());
                c.op("delete", std::to_string(at));
                lg::delete_dataset(*lg::driver("GTiff"), copies[at].path);
                c.check(!std::filesystem::exists(copies[at].path), "not-deleted", "");
                c.throws("open-deleted", "", [&] { lg::open_dataset(copies[at].path, GA_ReadOnly); });
                c.throws("delete-deleted", "", [&] { lg::delete_dataset(*lg::driver("GTiff"), copies[at].path); });
                copies.erase(copies.begin() + static_cast<std::ptrdiff_t>(at));
                c.count("deleted");
            }
            else if (what < 95 && !copies.empty())
            {
                // Replace a file by a new one
                auto const at = rng.below(copies.size());
                auto replaced = create(c, copies[at], copies[at].path, "GTiff");
                verify(c, replaced, copies[at], "replaced");
                c.count("replaced");
            }
            else if (driver != "MEM")
            {
                dataset.reset();
                refusals(c, f.path);
                dataset = lg::open_dataset(f.path, GA_Update);
            }
            for (auto const& copy : copies) verify_file(c, copy, "other");
        }
        c.op("close");
        dataset.reset();
        if (driver != "MEM") verify_file(c, f, "closed");
        std::size_t files = 0;
        for (auto const& entry : std::filesystem::directory_iterator{c.work()})
        {
            if (entry.path().extension() == ".tif" || entry.path().extension() == ".img") ++files;
        }
        c.equal(files, copies.size() + (driver == "MEM" ? 0 : 1), "files", "number of rasters left");
    }

}  // namespace

auto main(int argc, char** argv) -> int { return vh::run(argc, argv, body); }
