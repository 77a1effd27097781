// LINK: lue::gdal lue::data_model_hl lue::data_model
// TRANSLATE
// C41: rasters and descriptions of datasets that are imported in, or exported from LUE datasets
//
// The sources of the translation tool are used as they are. Rasters are created and read by GDAL itself.
#include "rasters.hpp"
#include "snapshot.hpp"
#include "utility/source/metadata.cpp"
#include "utility/source/environment.cpp"
#include "translate/source/format/gdal.cpp"
#include "translate/source/format/json.cpp"
#include "translate/source/format/lue.cpp"
#include "lue/validate.hpp"

namespace {

    using namespace rasters;
    namespace ldm = lue::data_model;
    namespace lu = lue::utility;

    struct Band
    {
            std::string name;
            Type const* type;
            std::optional<double> no_data;
            Bytes cells;
    };

    struct Raster
    {
            std::string path, name;
            lg::Shape shape;
            lg::GeoTransform transform;
            std::vector<Band> bands;
            Layout layout;
    };

    // A value every type can represent, or one only floating point types can
    auto random_no_data(vh::Rng& rng, Type const& t) -> std::optional<double>
    {
        if (t.size == 8 && !t.is_float) return {};   // GDAL has functions of their own for these
        if (!rng.chance(50)) return {};
        if (t.is_float && rng.chance(20)) return std::numeric_limits<double>::quiet_NaN();
        return t.is_float && rng.chance(50) ? -static_cast<double>(rng.range(1, 1000)) / 4.0 : static_cast<double>(rng.range(0, 127));
    }

    void create(Raster const& r)
    {
        char** options = nullptr;
        for (auto const& [n, v] : r.layout.options) options = ::CSLSetNameValue(options, n.c_str(), v.c_str());
        Type const& t = *r.bands.front().type;
        GDALDatasetH d = ::GDALCreate(::GDALGetDriverByName("GTiff"), r.path.c_str(), int(r.shape[1]), int(r.shape[0]), int(r.bands.size()), t.id, options);
        ::CSLDestroy(options);
        if (!d) throw std::runtime_error("cannot create " + r.path);
        auto transform = r.transform;
        ::GDALSetGeoTransform(d, transform.data());
        for (std::size_t b = 0; b < r.bands.size(); ++b)
        {
            GDALRasterBandH band = ::GDALGetRasterBand(d, int(b + 1));
            if (r.bands[b].no_data) ::GDALSetRasterNoDataValue(band, *r.bands[b].no_data);
            Bytes cells = r.bands[b].cells;
            if (::GDALRasterIO(band, GF_Write, 0, 0, int(r.shape[1]), int(r.shape[0]), cells.data(), int(r.shape[1]), int(r.shape[0]), t.id, 0, 0) != CE_None)
                throw std::runtime_error("cannot write " + r.path);
        }
        ::GDALClose(d);
    }

    auto random_extent(vh::Rng& rng) -> lg::Count { return rng.chance(70) ? rng.range(1, 20) : rng.chance(70) ? rng.range(1, 100) : rng.range(1, 400); }

    template<typename F>
    auto fails(F&& f) -> bool
    {
        try { f(); }
        catch (std::exception const&) { return true; }
        return false;
    }

    // Layers of a view in the resulting dataset
    struct View
    {
            std::string phenomenon, set;
            lg::Shape shape;
            lg::GeoTransform transform;
            std::vector<Band> layers;
    };

    void check_valid(vh::Case& c, std::string const& path)
    {
        lue::hdf5::Issues issues;
        auto const dataset = ldm::open_dataset(path);
        ldm::validate(dataset, issues);
        c.count("oracle.checks");
        if (issues.errors_found()) c.fail("invalid", "the dataset that was imported is not valid: " + ldm::message(issues));
    }

    void check_views(vh::Case& c, std::string const& path, std::vector<View> const& views)
    {
        auto dataset = ldm::open_dataset(path);
        for (View const& v : views)
        {
            VH_CHECK(c, ldm::constant::contains_raster(dataset, v.phenomenon, v.set), "no-view", std::format("{}/{} is not a raster view", v.phenomenon, v.set));
            auto view = ldm::constant::open_raster_view(&dataset, v.phenomenon, v.set);
            auto const shape = view.grid_shape();
            VH_CHECK(c, shape.size() == 2 && lg::Count(shape[0]) == v.shape[0] && lg::Count(shape[1]) == v.shape[1], "import-shape", "shape of the view differs");
            auto const box = view.space_box();
            double const expected[] = {v.transform[0], v.transform[3] + v.shape[0] * v.transform[5], v.transform[0] + v.shape[1] * v.transform[1], v.transform[3]};
            for (int i = 0; i < 4; ++i)
                VH_CHECK(c, std::abs(box[i] - expected[i]) <= 1e-9 * (1 + std::abs(expected[i])), "import-space-box", std::format("coordinate {} of the space box is {} instead of {}", i, box[i], expected[i]));
            VH_CHECK(c, std::size_t(view.nr_layers()) == v.layers.size(), "import-layers", std::format("{} layers instead of {}", view.nr_layers(), v.layers.size()));
            for (Band const& b : v.layers)
            {
                VH_CHECK(c, view.contains(b.name), "import-layers", "no layer " + b.name);
                auto layer = view.layer(b.name);
                with_type(*b.type, [&](auto e) {
                    using E = decltype(e);
                    VH_CHECK(c, layer.memory_datatype() == lue::hdf5::native_datatype<E>(), "import-type", std::format("type of the layer is not {}", b.type->name));
                    VH_CHECK(c, layer.has_no_data_value() == b.no_data.has_value(), "import-no-data", "layer has a no-data value, or it has none");
                    if (b.no_data)
                    {
                        E const seen = layer.template no_data_value<E>(), wanted = static_cast<E>(*b.no_data);
                        VH_CHECK(c, seen == wanted || (seen != seen && wanted != wanted), "import-no-data", std::format("no-data value is {} instead of {}", double(seen), double(wanted)));
                    }
                    Buffer buffer{b.cells.size()};
                    layer.read(buffer.data());
                    compare(c, buffer.bytes(), b.cells, *b.type, "import-cells", std::format("layer {} of {}", b.name, text(v.shape)));
                });
            }
        }
    }

    void import_rasters(vh::Case& c)
    {
        std::string const path = c.path("r.lue");
        std::vector<View> views;
        auto const nr_calls = c.rng.range(1, 3);
        std::uint64_t number = 0;
        for (std::uint64_t call = 0; call < nr_calls; ++call)
        {
            auto const before = views;
            std::vector<Raster> rasters;
            lu::JSON meta{{"datasets", lu::JSON::array()}};
            auto const n = c.rng.range(1, 3);
            for (std::uint64_t i = 0; i < n; ++i)
            {
                Raster r;
                r.name = std::format("raster{}", number++);
                r.path = c.path(r.name + ".tif");
                View* view = nullptr;
                if (!views.empty() && c.rng.chance(40)) view = &views[c.rng.below(views.size())];
                else
                {
                    views.push_back({std::format("area{}", views.empty() || c.rng.chance(50) ? 0 : views.size()), std::format("set{}", views.size()), {random_extent(c.rng), random_extent(c.rng)}, random_geo_transform(c.rng), {}});
                    view = &views.back();
                }
                r.shape = view->shape;
                r.transform = view->transform;
                r.layout = random_layout(c.rng, r.shape);
                Type const& t = types()[c.rng.below(types().size())];
                auto const nr_bands = c.rng.range(1, 3);
                auto const no_data = random_no_data(c.rng, t);   // GeoTIFFs have one for all bands
                auto bands = lu::JSON::array();
                auto const nr_asked = c.rng.chance(20) ? c.rng.range(1, nr_bands) : nr_bands;
                for (std::uint64_t b = 0; b < nr_bands; ++b)
                {
                    r.bands.push_back({std::format("{}_layer{}", r.name, b), &t, no_data, random_cells(c.rng, t, r.shape[0] * r.shape[1])});
                    if (b < nr_asked)
                    {
                        bands.push_back({{"name", r.bands.back().name}});
                        view->layers.push_back(r.bands.back());
                    }
                }
                c.op("raster", std::format("{} {} {} bands={} asked={} no_data={} {}", r.name, text(r.shape), t.name, nr_bands, nr_asked, no_data ? std::to_string(*no_data) : "", r.layout.text));
                c.op("in", view->phenomenon + "/" + view->set);
                create(r);
                // What GDAL itself reads
                for (std::size_t b = 0; b < r.bands.size(); ++b)
                    if (cells(r.path, int(b + 1), t) != r.bands[b].cells) throw std::runtime_error("GDAL doesn't read what was written");
                meta["datasets"].push_back({{"name", r.name}, {"phenomenon", view->phenomenon}, {"property_set", view->set}, {"raster", {{"bands", bands}}}});
                rasters.push_back(std::move(r));
                c.count("import.rasters");
            }
            std::vector<std::string> paths;
            for (auto const& r : rasters) paths.push_back(r.path);
            std::map<std::string, std::string> files;
            for (auto const& p : paths) files[p] = vh::read_file(p);
            bool const exists = std::filesystem::exists(path);
            std::string const bytes = vh::read_file(path);
            std::istringstream stream{meta.dump()};
            lu::Metadata const metadata{stream};
            if (exists && c.rng.chance(20))
            {
                c.op("refused", "");
                VH_CHECK(c, fails([&] { lu::translate_gdal_raster_dataset_to_lue(paths, path, false, metadata); }), "not-refused", "a dataset that exists is replaced");
                VH_CHECK(c, vh::read_file(path) == bytes, "refused-changed", "importing that was refused changed the dataset");
                c.count("import.refused");
            }
            bool const add = exists || c.rng.chance(30);
            c.op("import", add ? "add" : "");
            lu::translate_gdal_raster_dataset_to_lue(paths, path, add, metadata);
            for (auto const& p : paths) VH_CHECK(c, vh::read_file(p) == files[p], "source-changed", "importing changed the raster");
            check_views(c, path, views);
            check_valid(c, path);
        }
        for (auto const& v : views) if (v.layers.size() > 1) c.count("import.layers", v.layers.size());
    }

    void export_rasters(vh::Case& c)
    {
        auto dataset = std::make_unique<ldm::Dataset>(ldm::create_dataset(c.path("e.lue")));
        lg::Shape const shape{random_extent(c.rng), random_extent(c.rng)};
        auto const transform = random_geo_transform(c.rng);
        std::array<double, 4> const box{transform[0], transform[3] + shape[0] * transform[5], transform[0] + shape[1] * transform[1], transform[3]};
        Type const* type = &types()[c.rng.below(types().size())];
        auto const nr_layers = c.rng.range(1, 3);
        std::vector<Band> layers;
        bool const one_type = c.rng.chance(70);
        bool const one_no_data = c.rng.chance(80);   // GeoTIFFs have one for all bands
        auto no_data = random_no_data(c.rng, *type);
        {
            auto view = ldm::constant::create_raster_view(dataset.get(), "area", "set", lue::hdf5::Shape{hsize_t(shape[0]), hsize_t(shape[1])}, box);
            for (std::uint64_t l = 0; l < nr_layers; ++l)
            {
                if (!one_type) { type = &types()[c.rng.below(types().size())]; no_data = random_no_data(c.rng, *type); }
                else if (!one_no_data) no_data = random_no_data(c.rng, *type);
                layers.push_back({std::format("layer{}", l), type, no_data, random_cells(c.rng, *type, shape[0] * shape[1])});
                with_type(*type, [&](auto e) {
                    using E = decltype(e);
                    auto layer = no_data ? view.add_layer<E>(layers.back().name, static_cast<E>(*no_data)) : view.add_layer<E>(layers.back().name);
                    Buffer buffer{layers.back().cells};
                    layer.write(buffer.data());
                });
                c.op("layer", std::format("{} {} no_data={}", text(shape), type->name, no_data ? std::to_string(*no_data) : ""));
            }
        }
        bool const many = one_type && one_no_data && c.rng.chance(50);
        std::vector<std::size_t> asked;
        for (std::size_t l = 0; l < layers.size(); ++l) asked.push_back(l);
        for (std::size_t l = asked.size(); l > 1; --l) std::swap(asked[l - 1], asked[c.rng.below(l)]);
        asked.resize(many ? c.rng.range(1, asked.size()) : 1);
        std::string const path = c.path("out.tif");
        auto bands = lu::JSON::array();
        for (auto const l : asked) bands.push_back({{"name", layers[l].name}});
        lu::JSON const meta{{"datasets", {{{"name", "out"}, {"phenomenon", "area"}, {"property_set", "set"}, {"raster", {{"bands", bands}}}}}}};
        std::istringstream stream{meta.dump()};
        lu::Metadata const metadata{stream};
        c.op("export", std::format("{} bands", asked.size()));
        dataset = nullptr;
        std::string const bytes = vh::read_file(c.path("e.lue"));
        {
            auto from = lu::try_open_lue_dataset_for_read(c.path("e.lue"));
            VH_CHECK(c, from != nullptr, "export-open", "cannot open dataset");
            lu::translate_lue_dataset_to_gdal_raster(*from, path, metadata);
        }
        VH_CHECK(c, vh::read_file(c.path("e.lue")) == bytes, "export-changed", "exporting changed the dataset");
        GDALDatasetH d = ::GDALOpen(path.c_str(), GA_ReadOnly);
        VH_CHECK(c, d != nullptr, "export-none", "no raster is written");
        int const rows = ::GDALGetRasterYSize(d), cols = ::GDALGetRasterXSize(d), nr_bands = ::GDALGetRasterCount(d);
        lg::GeoTransform seen{};
        ::GDALGetGeoTransform(d, seen.data());
        std::vector<GDALDataType> band_types;
        std::vector<std::optional<double>> band_no_data;
        for (int b = 0; b < nr_bands; ++b)
        {
            GDALRasterBandH band = ::GDALGetRasterBand(d, b + 1);
            band_types.push_back(::GDALGetRasterDataType(band));
            int has = 0;
            double const v = ::GDALGetRasterNoDataValue(band, &has);
            band_no_data.push_back(has ? std::optional<double>{v} : std::nullopt);
        }
        ::GDALClose(d);
        VH_CHECK(c, rows == shape[0] && cols == shape[1] && std::size_t(nr_bands) == asked.size(), "export-shape", std::format("raster has shape ({}, {}) and {} bands", rows, cols, nr_bands));
        for (int i = 0; i < 6; ++i)
            VH_CHECK(c, std::abs(seen[i] - transform[i]) <= 1e-6 * (1 + std::abs(transform[i])), "export-transform", std::format("value {} of the geo transform is {} instead of {}", i, seen[i], transform[i]));
        for (std::size_t i = 0; i < asked.size(); ++i)
        {
            Band const& b = layers[asked[i]];
            VH_CHECK(c, band_types[i] == b.type->id, "export-type", std::format("band {} is of another type", i));
            VH_CHECK(c, band_no_data[i].has_value() == b.no_data.has_value() && (!b.no_data || *band_no_data[i] == *b.no_data || (std::isnan(*b.no_data) && std::isnan(*band_no_data[i]))),
                     "export-no-data", std::format("no-data value of band {} is {} instead of {}", i, band_no_data[i] ? std::to_string(*band_no_data[i]) : "none", b.no_data ? std::to_string(*b.no_data) : "none"));
            compare(c, cells(path, int(i + 1), *b.type), b.cells, *b.type, asked.size() == 1 ? "export-cells" : "export-cells-of-bands", std::format("band {} of {}", i, text(shape)));
        }
        c.count("export.bands", asked.size());
    }

}  // Anonymous namespace

int main(int argc, char** argv)
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    rasters::quiet();
    return vh::run(argc, argv, [](vh::Case& c) {
        c.nontrivial();
        if (c.rng.chance(50)) import_rasters(c);
        else export_rasters(c);
    });
}
