// LINK: lue::gdal
// C24: comparing rasters says equal exactly when they are.
//
// Model: all that is compared of both rasters, in memory.
#include "rasters.hpp"

using namespace rasters;

namespace {

    struct Image
    {
            Type const* type;
            lg::Shape shape;
            lg::GeoTransform geo_transform;
            std::vector<std::optional<Bytes>> no_data;  // Per band
            std::vector<Bytes> bands;
    };

    // Value of a cell, or of no-data
    template<typename E>
    auto get(Bytes const& b, std::size_t const i = 0) -> E
    {
        E e;
        std::memcpy(&e, b.data() + i * sizeof(E), sizeof(E));
        return e;
    }

    template<typename E>
    void put(Bytes& b, std::size_t const i, E const e)
    {
        std::memcpy(b.data() + i * sizeof(E), &e, sizeof(E));
    }

    auto equal(Image const& a, Image const& b) -> bool
    {
        if (a.type != b.type || a.shape != b.shape || a.geo_transform != b.geo_transform || a.bands.size() != b.bands.size()) return false;
        bool result{true};
        with_type(*a.type, [&](auto e) {
            using E = decltype(e);
            for (std::size_t n = 0; n < a.bands.size() && result; ++n)
            {
                if (a.no_data[n].has_value() != b.no_data[n].has_value()) { result = false; break; }
                bool nan{false};
                if (a.no_data[n])
                {
                    E const x = get<E>(*a.no_data[n]), y = get<E>(*b.no_data[n]);
                    nan = x != x && y != y;
                    if (!nan && x != y) { result = false; break; }
                }
                for (std::size_t i = 0; i < a.bands[n].size() / sizeof(E) && result; ++i)
                {
                    E const x = get<E>(a.bands[n], i), y = get<E>(b.bands[n], i);
                    result = x == y || (nan && x != x && y != y);
                }
            }
        });
        return result;
    }

    void store(vh::Case& c, Image const& m, std::string const& path)
    {
        auto& rng = c.rng;
        bool const gtiff = path.ends_with(".tif");
        auto const layout = gtiff ? random_layout(rng, m.shape) : Layout{};
        int const nr_bands = static_cast<int>(m.bands.size());
        c.op("store", std::format("{} {} {} {} {}", std::filesystem::path{path}.filename().string(), m.type->name, text(m.shape), nr_bands, layout.text));
        auto dataset = lg::create_dataset(gtiff ? "GTiff" : "HFA", path, m.shape, nr_bands, m.type->id, layout.options);
        lg::set_geo_transform(*dataset, m.geo_transform);
        for (int b = 0; b < nr_bands; ++b)
        {
            if (m.no_data[b]) with_type(*m.type, [&](auto e) { lg::set_no_data_value(*lg::raster_band(*dataset, b + 1), get<decltype(e)>(*m.no_data[b])); });
        }
        for (int b = 0; b < nr_bands; ++b)
        {
            Buffer buffer{m.bands[b]};
            lg::raster_band(*dataset, b + 1);
            lg::Raster{dataset}.band(b + 1).write(buffer.data());
        }
    }

    void compare_twice(vh::Case& c, std::string const& path1, std::string const& path2, bool const expected, std::string const& what)
    {
        auto const content = [&] { return vh::read_file(path1) + (std::filesystem::exists(path2) ? vh::read_file(path2) : ""); };
        auto const files = [&] {
            return std::distance(std::filesystem::directory_iterator{c.work()}, std::filesystem::directory_iterator{});
        };
        auto const before = content();
        auto const nr_files = files();
        auto const differences1 = lg::compare_rasters(path1, path2), differences2 = lg::compare_rasters(path2, path1);
        c.count(expected ? "equal" : "different");
        if (differences1.empty() != expected)
        {
            c.fail(expected ? "different-though-equal" : "equal-though-different", std::format("{}: {}", what, differences1.empty() ? "no differences" : differences1[0]));
        }
        c.check(differences2.empty() == expected, "asymmetric", what);
        for (auto const& d : differences1) c.check(!d.empty(), "description", what);
        c.check(content() == before && files() == nr_files, "files-changed", what);
        c.count("oracle.checks", 4);
    }

    void body(vh::Case& c)
    {
        quiet();
        auto& rng = c.rng;
        c.nontrivial();
        Image m;
        bool const erdas = rng.chance(20);  // As second file
        do { m.type = &rng.pick(types()); } while (erdas && m.type->size == 8 && !m.type->is_float);
        int const most = rng.chance(25) ? 200 : 70;
        m.shape = {static_cast<int>(rng.range(1, most)), static_cast<int>(rng.range(1, most))};
        if (rng.chance(10)) m.shape[rng.below(2)] = 1;
        m.geo_transform = {static_cast<double>(rng.below(1000)), 0.5 * rng.range(1, 9), 0.0, static_cast<double>(rng.below(1000)), 0.0, 0.0};
        m.geo_transform[5] = -m.geo_transform[1];
        int const nr_bands = static_cast<int>(rng.range(1, 3));
        auto const nr_cells = static_cast<std::size_t>(lg::nr_elements(m.shape));
        for (int b = 0; b < nr_bands; ++b) m.bands.push_back(random_cells(rng, *m.type, nr_cells, true));
        bool nan{false};
        m.no_data.resize(nr_bands);
        auto const random_no_data = [&] {
            Bytes result{random_cells(rng, *m.type, 1, true)};
            if (m.type->is_float && rng.chance(40))
            {
                nan = true;
                if (m.type->size == 4) put(result, 0, std::numeric_limits<float>::quiet_NaN());
                else put(result, 0, std::numeric_limits<double>::quiet_NaN());
            }
            return result;
        };
        if (rng.chance(50)) m.no_data.assign(nr_bands, random_no_data());
        auto const set_nan = [&](Image& image, int const band, std::size_t const i) {
            if (image.type->size == 4) put(image.bands[band], i, std::numeric_limits<float>::quiet_NaN());
            else put(image.bands[band], i, std::numeric_limits<double>::quiet_NaN());
        };
        if (m.type->is_float && rng.chance(nan ? 80 : 15))
        {
            // Equal to itself only if it is no-data
            for (auto n = rng.range(1, 10); n > 0; --n) set_nan(m, static_cast<int>(rng.below(nr_bands)), rng.below(nr_cells));
            c.count("with-nan");
        }
        std::string const path1 = c.path("r1.tif");
        store(c, m, path1);
        compare_twice(c, path1, path1, equal(m, m), "itself");

        for (auto n = rng.range(2, 5); n > 0; --n)
        {
            Image o = m;
            std::string const path2 = c.path(std::format("r2-{}.{}", n, erdas ? "img" : "tif"));
            auto const what = rng.below(100);
            std::string kind{"equal"};
            int const band = static_cast<int>(rng.below(nr_bands));
            if (what < 25) {}
            else if (what < 65)
            {
                // Prefer borders: blocks are partly outside of the raster there
                int const row = rng.chance(50) ? static_cast<int>(rng.below(m.shape[0])) : m.shape[0] - 1 - static_cast<int>(rng.below(std::min(3, m.shape[0])));
                int const col = rng.chance(50) ? static_cast<int>(rng.below(m.shape[1])) : m.shape[1] - 1 - static_cast<int>(rng.below(std::min(3, m.shape[1])));
                std::size_t const i = static_cast<std::size_t>(row) * m.shape[1] + col;
                kind = std::format("cell {},{} of band {}", row, col, band + 1);
                if (m.type->is_float && rng.chance(15)) { set_nan(o, band, i); kind += " nan"; }
                else if (m.type->is_float && rng.chance(15))
                {
                    // The same values with other bits
                    if (m.type->size == 4) { put(m.bands[band], i, 0.0F); put(o.bands[band], i, -0.0F); }
                    else { put(m.bands[band], i, 0.0); put(o.bands[band], i, -0.0); }
                    store(c, m, path1);
                    kind += " zero";
                    c.count("signed-zero");
                }
                else o.bands[band][i * m.type->size + rng.below(m.type->size)] ^= static_cast<unsigned char>(1U << rng.below(8));
            }
            else if (what < 72)
            {
                kind = "geo-transform";
                switch (rng.below(3))
                {
                    case 0: o.geo_transform[0] += 0.25; break;
                    case 1: o.geo_transform[3] -= 0.25; break;
                    default: o.geo_transform[1] *= 2; o.geo_transform[5] *= 2; break;
                }
            }
            else if (what < 80)
            {
                kind = "no-data";
                if (o.no_data[0] && rng.chance(40)) o.no_data.assign(nr_bands, std::nullopt);
                else if (erdas) o.no_data[band] = random_no_data();
                else o.no_data.assign(nr_bands, random_no_data());
            }
            else if (what < 86)
            {
                kind = "shape";
                o.shape[rng.below(2)] += static_cast<int>(rng.range(1, 3));
                if (rng.chance(30) && m.shape[0] != m.shape[1]) o.shape = {m.shape[1], m.shape[0]};
                for (auto& b : o.bands) b.resize(static_cast<std::size_t>(lg::nr_elements(o.shape)) * m.type->size);
            }
            else if (what < 91)
            {
                kind = "bands";
                if (nr_bands > 1 && rng.chance(50)) { o.bands.pop_back(); o.no_data.pop_back(); }
                else { o.bands.push_back(o.bands[0]); o.no_data.push_back(o.no_data[0]); }
            }
            else if (what < 96)
            {
                // Same size, same bits
                kind = "type";
                std::vector<Type const*> others;
                for (auto const& t : types())
                {
                    if (t.size == m.type->size && &t != m.type && !(erdas && t.size == 8 && !t.is_float)) others.push_back(&t);
                }
                if (others.empty()) continue;
                o.type = rng.pick(others);
                o.no_data.assign(nr_bands, std::nullopt);
            }
            else
            {
                c.op("compare", "absent");
                compare_twice(c, path1, c.path("absent.tif"), false, "absent");
                c.check(!lg::compare_rasters(c.path("absent.tif"), c.path("absent.tif")).empty(), "equal-though-different", "both absent");
                c.count("absent");
                continue;
            }
            store(c, o, path2);
            bool const expected = equal(m, o);
            c.op("compare", kind + (expected ? " equal" : " different"));
            if (kind.starts_with("cell") && !expected) c.count("different.cell");
            compare_twice(c, path1, path2, expected, kind);
        }
    }

}  // namespace

auto main(int argc, char** argv) -> int { return vh::run(argc, argv, body); }
