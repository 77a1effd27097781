// LINK: lue::gdal
// C22: blocks tile the raster, and I/O preserves every cell.
//
// Model: the bytes of all cells of all bands.
#include "rasters.hpp"

using namespace rasters;

namespace {

    // All combinations of extents of rasters and blocks up to a limit, the rest at random
    void arithmetic(vh::Case& c)
    {
        auto& rng = c.rng;
        auto const extents = [&]() -> std::pair<int, int> {
            switch (rng.below(3))
            {
                case 0: { int const n = static_cast<int>(rng.range(1, 70)); return {n, static_cast<int>(rng.range(1, 40))}; }
                case 1: { int const n = static_cast<int>(rng.range(1, 100000)); return {n, static_cast<int>(rng.range(1, n))}; }
                default: { int const n = static_cast<int>(rng.range(1, 2000000000 / 64)); return {n, static_cast<int>(rng.range(std::max(1, n / 300), n))}; }
            }
        };
        auto const [rows, block_rows] = extents();
        auto const [cols, block_cols] = extents();
        c.op("blocks", std::format("{}x{} by {}x{}", rows, cols, block_rows, block_cols));
        lg::Blocks const blocks{{rows, cols}, {block_rows, block_cols}};
        c.check(blocks.raster_shape() == lg::Shape{rows, cols}, "raster-shape", "");
        c.check(blocks.block_shape() == lg::Shape{block_rows, block_cols}, "block-shape", "");
        auto const [nr_y, nr_x] = blocks.shape_in_blocks();
        // Walk along both axes: each position must be in one block only
        auto const walk = [&](int const n, int const nr, auto&& extent, int const block) {
            std::int64_t position = 0;
            for (int i = 0; i < nr; ++i)
            {
                int const e = extent(i);
                c.check(e >= 1 && e <= block, "valid-extent", std::format("block {} has {} of {} cells valid", i, e, block));
                c.check(i == nr - 1 || e == block, "inner-block", std::format("block {} of {} has {} of {} cells valid", i, nr, e, block));
                position += e;
            }
            c.check(position == n, "coverage", std::format("{} blocks cover {} of {} cells", nr, position, n));
            c.count("blocks.walked", static_cast<std::uint64_t>(std::max(nr, 0)));
        };
        walk(rows, nr_y, [&](int i) { return blocks.shape_in_valid_cells({i, static_cast<int>(c.rng.below(static_cast<std::uint64_t>(nr_x)))})[0]; }, block_rows);
        walk(cols, nr_x, [&](int i) { return blocks.shape_in_valid_cells({static_cast<int>(c.rng.below(static_cast<std::uint64_t>(nr_y))), i})[1]; }, block_cols);
        c.nontrivial();
    }

    struct Image
    {
            std::string path;
            Type const* type;
            lg::Shape shape;
            std::vector<Bytes> bands;
    };

    // Part of a band
    auto part(Image const& m, int const band, int const y, int const x, int const rows, int const cols) -> Bytes
    {
        std::size_t const size = m.type->size;
        Bytes b(static_cast<std::size_t>(rows) * cols * size);
        for (int r = 0; r < rows; ++r)
        {
            std::memcpy(b.data() + static_cast<std::size_t>(r) * cols * size,
                m.bands[band].data() + (static_cast<std::size_t>(y + r) * m.shape[1] + x) * size, cols * size);
        }
        return b;
    }

    void set_part(Image& m, int const band, int const y, int const x, int const rows, int const cols, Bytes const& b, int const stride)
    {
        std::size_t const size = m.type->size;
        for (int r = 0; r < rows; ++r)
        {
            std::memcpy(m.bands[band].data() + (static_cast<std::size_t>(y + r) * m.shape[1] + x) * size,
                b.data() + static_cast<std::size_t>(r) * stride * size, cols * size);
        }
    }

    void io(vh::Case& c)
    {
        auto& rng = c.rng;
        Image m;
        m.path = c.path("r.tif");
        m.type = &rng.pick(types());
        m.shape = {static_cast<int>(rng.range(1, 90)), static_cast<int>(rng.range(1, 90))};
        if (rng.chance(15)) m.shape[rng.below(2)] = 1;
        int const nr_bands = static_cast<int>(rng.range(1, 3));
        auto const layout = random_layout(rng, m.shape);
        c.op("create", std::format("{} {} {} {}", m.type->name, text(m.shape), nr_bands, layout.text));
        auto dataset = lg::create_dataset("GTiff", m.path, m.shape, nr_bands, m.type->id, layout.options);
        lg::set_geo_transform(*dataset, random_geo_transform(rng));
        // Never written: zero
        m.bands.assign(nr_bands, Bytes(static_cast<std::size_t>(lg::nr_elements(m.shape)) * m.type->size, 0));
        std::optional<lg::Raster> raster;
        raster.emplace(dataset);
        bool writable = true;
        c.nontrivial();

        for (auto n = rng.range(4, 14); n > 0; --n)
        {
            int const b = static_cast<int>(rng.below(nr_bands));
            auto band = raster->band(b + 1);
            auto& gdal_band = *lg::raster_band(*dataset, b + 1);
            c.check(band.shape() == m.shape && raster->shape() == m.shape, "shape", text(band.shape()));
            c.check(band.data_type() == m.type->id, "data-type", m.type->name);
            auto const block = band.block_shape();
            std::size_t const size = m.type->size;
            lg::Blocks const blocks{m.shape, block};
            auto const [nr_y, nr_x] = blocks.shape_in_blocks();
            lg::Offset const offset{static_cast<int>(rng.below(nr_y)), static_cast<int>(rng.below(nr_x))};
            auto const valid = blocks.shape_in_valid_cells(offset);
            int const y = static_cast<int>(rng.below(m.shape[0])), x = static_cast<int>(rng.below(m.shape[1]));
            int const rows = static_cast<int>(rng.range(1, m.shape[0] - y)), cols = static_cast<int>(rng.range(1, m.shape[1] - x));
            auto const what = rng.below(100);
            auto const write = [&](auto&& f) {
                if (writable) f();
                else
                {
                    c.throws("write-read-only", "writing to a raster opened for reading", [&] { f(); dataset->FlushCache(); });
                    c.count("refused");
                }
                return writable;
            };
            if (what < 14)
            {
                c.op("write-block", std::format("{} {} of {} shape {}", b, text(offset), text(blocks.shape_in_blocks()), text(block)));
                Bytes const bytes = random_cells(rng, *m.type, lg::nr_elements(block));
                Buffer buffer{bytes};
                if (write([&] { rng.chance(50) ? band.write_block(offset, buffer.data()) : lg::write_block(gdal_band, offset, buffer.data()); }))
                    set_part(m, b, offset[0] * block[0], offset[1] * block[1], valid[0], valid[1], bytes, block[1]);
            }
            else if (what < 22)
            {
                c.op("write-blocks", std::to_string(b));
                for (int i = 0; i < nr_y; ++i)
                    for (int j = 0; j < nr_x; ++j)
                    {
                        Bytes const bytes = random_cells(rng, *m.type, lg::nr_elements(block));
                        Buffer buffer{bytes};
                        auto const s = blocks.shape_in_valid_cells({i, j});
                        if (write([&] { band.write_block({i, j}, buffer.data()); }))
                            set_part(m, b, i * block[0], j * block[1], s[0], s[1], bytes, block[1]);
                    }
            }
            else if (what < 34)
            {
                c.op("write", std::to_string(b));
                Bytes const bytes = random_cells(rng, *m.type, lg::nr_elements(m.shape));
                Buffer buffer{bytes};
                if (write([&] {
                        switch (rng.below(3))
                        {
                            case 0: band.write(buffer.data()); break;
                            case 1: band.write(m.shape, m.type->id, buffer.data()); break;
                            default: lg::write(gdal_band, m.shape, m.type->id, buffer.data()); break;
                        }
                    }))
                    m.bands[b] = bytes;
            }
            else if (what < 46)
            {
                c.op("write-part", std::format("{} {},{} {}x{}", b, y, x, rows, cols));
                Bytes const bytes = random_cells(rng, *m.type, static_cast<std::size_t>(rows) * cols);
                Buffer buffer{bytes};
                if (write([&] {
                        if (rng.chance(50)) band.write({y, x}, {rows, cols}, m.type->id, buffer.data());
                        else lg::write(gdal_band, {y, x}, {rows, cols}, m.type->id, buffer.data());
                    }))
                    set_part(m, b, y, x, rows, cols, bytes, cols);
            }
            else if (what < 58)
            {
                c.op("read-block", std::format("{} {} of {} shape {}", b, text(offset), text(blocks.shape_in_blocks()), text(block)));
                Buffer buffer(static_cast<std::size_t>(lg::nr_elements(block)) * size);
                rng.chance(50) ? band.read_block(offset, buffer.data()) : lg::read_block(gdal_band, offset, buffer.data());
                auto const all = buffer.bytes();
                Bytes observed;
                for (int r = 0; r < valid[0]; ++r) observed.insert(observed.end(), all.begin() + r * block[1] * size, all.begin() + (r * block[1] + valid[1]) * size);
                compare(c, observed, part(m, b, offset[0] * block[0], offset[1] * block[1], valid[0], valid[1]), *m.type, "read-block", text(offset));
                c.count("blocks.read");
            }
            else if (what < 66)
            {
                c.op("read", std::to_string(b));
                Buffer buffer(m.bands[b].size());
                rng.chance(50) ? band.read(buffer.data()) : lg::read(gdal_band, m.shape, m.type->id, buffer.data());
                compare(c, buffer.bytes(), m.bands[b], *m.type, "read", "");
            }
            else if (what < 76)
            {
                c.op("read-part", std::format("{} {},{} {}x{}", b, y, x, rows, cols));
                Buffer buffer(static_cast<std::size_t>(rows) * cols * size);
                lg::read(gdal_band, {y, x}, {rows, cols}, m.type->id, buffer.data());
                compare(c, buffer.bytes(), part(m, b, y, x, rows, cols), *m.type, "read-part", "");
            }
            else if (what < 84)
            {
                c.op("outside");
                Buffer buffer(static_cast<std::size_t>(std::max(lg::nr_elements(block), lg::nr_elements(m.shape))) * size * 4);
                c.throws("read-block-outside", "", [&] { band.read_block({nr_y + static_cast<int>(rng.below(3)), 0}, buffer.data()); });
                c.throws("read-block-outside", "", [&] { band.read_block({0, nr_x + static_cast<int>(rng.below(3))}, buffer.data()); });
                c.throws("read-block-outside", "", [&] { band.read_block({-1, 0}, buffer.data()); });
                c.throws("write-block-outside", "", [&] { band.write_block({nr_y, 0}, buffer.data()); });
                c.throws("read-outside", "", [&] { lg::read(gdal_band, {m.shape[0], 0}, {1, 1}, m.type->id, buffer.data()); });
                c.throws("read-outside", "", [&] { lg::read(gdal_band, {0, x}, {1, m.shape[1] - x + 1}, m.type->id, buffer.data()); });
                c.throws("write-outside", "", [&] { band.write({y, 0}, {m.shape[0] - y + 1, 1}, m.type->id, buffer.data()); });
                c.throws("band-outside", "", [&] { raster->band(nr_bands + 1); });
                c.throws("band-outside", "", [&] { raster->band(0); });
                c.throws("band-outside", "", [&] { raster->band(-1); });
                c.count("refused", 10);
            }
            else
            {
                writable = rng.chance(75);
                c.op("reopen", writable ? "w" : "r");
                raster.reset();
                dataset.reset();
                for (int i = 0; i < nr_bands; ++i) compare(c, cells(m.path, i + 1, *m.type), m.bands[i], *m.type, "stored", std::format("band {}", i + 1));
                dataset = lg::open_dataset(m.path, writable ? GA_Update : GA_ReadOnly);
                raster.emplace(dataset);
                c.check(raster->nr_bands() == nr_bands, "nr-bands", "");
                c.count("reopened");
            }
        }
        c.op("close");
        raster.reset();
        dataset.reset();
        for (int i = 0; i < nr_bands; ++i) compare(c, cells(m.path, i + 1, *m.type), m.bands[i], *m.type, "stored", std::format("band {}", i + 1));
    }

    void body(vh::Case& c)
    {
        quiet();
        if (c.rng.chance(50)) arithmetic(c);
        else io(c);
    }

}  // namespace

auto main(int argc, char** argv) -> int { return vh::run(argc, argv, body); }
