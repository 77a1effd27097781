// LINK: lue::data_model
// C03: reading, writing and filling strided selections touches exactly the selected elements.
// Model: the whole array as bytes, indexed element by element.
#include "dm.hpp"

using namespace dm;

namespace {

    struct Selection
    {
            lh5::Offset start;
            lh5::Stride stride;
            lh5::Count count;
    };

    struct Model
    {
            lh5::Shape shape, max_shape;
            ElementType const* type;
            bool chunked;
            Bytes fill;
            Bytes bytes;
    };

    auto text(Selection const& s) -> std::string
    {
        return "start " + to_string(s.start) + " stride " + to_string(s.stride) + " count " + to_string(s.count);
    }

    // Linear indices of the selected elements, in row-major order
    auto selected(lh5::Shape const& shape, Selection const& s) -> std::vector<std::size_t>
    {
        std::vector<std::size_t> r{0};
        for (std::size_t d = 0; d < shape.size(); ++d)
        {
            std::vector<std::size_t> next;
            for (auto const base : r)
            {
                for (hsize_t i = 0; i < s.count[d]; ++i)
                {
                    next.push_back(base * shape[d] + s.start[d] + i * s.stride[d]);
                }
            }
            r = std::move(next);
        }
        return r;
    }

    auto random_selection(vh::Rng& rng, lh5::Shape const& shape) -> Selection
    {
        Selection s;
        bool const unit = rng.chance(25), whole = rng.chance(8), empty = rng.chance(8);
        for (auto const extent : shape)
        {
            hsize_t start = whole ? 0 : rng.below(extent), stride = (unit || whole) ? 1 : rng.range(1, extent + 2);
            hsize_t const most = (extent - start - 1) / stride + 1;
            hsize_t const count = whole ? extent : rng.chance(40) ? most : rng.range(1, most);
            s.start.push_back(start);
            s.stride.push_back(stride);
            s.count.push_back(count);
        }
        if (empty && !shape.empty())
        {
            s.count[rng.below(shape.size())] = 0;
        }
        return s;
    }

    auto make_hyperslab(vh::Case& c, lh5::Shape const& shape, Selection const& s) -> lh5::Hyperslab
    {
        bool const unit = std::all_of(s.stride.begin(), s.stride.end(), [](auto v) { return v == 1; });
        bool const whole = unit && std::all_of(s.start.begin(), s.start.end(), [](auto v) { return v == 0; }) &&
                           std::equal(s.count.begin(), s.count.end(), shape.begin());
        lh5::Hyperslab h = whole && c.rng.chance(50) ? lh5::Hyperslab{shape}
                           : unit && c.rng.chance(50) ? lh5::Hyperslab{s.start, s.count}
                                                      : lh5::Hyperslab{s.start, s.stride, s.count};
        if (c.rng.chance(15))
        {
            // By way of the modifiable accessors
            lh5::Hyperslab g{lh5::Shape(shape.size(), 1)};
            g.start() = s.start;
            g.stride() = s.stride;
            g.count() = s.count;
            h = g;
        }
        auto const elements = selected(shape, s).size();
        auto const& k = h;
        c.equal(k.start(), s.start, "selection-start", text(s));
        c.equal(k.stride(), s.stride, "selection-stride", text(s));
        c.equal(k.count(), s.count, "selection-count", text(s));
        c.equal(h.nr_dimensions(), shape.size(), "selection-nr-dimensions", text(s));
        c.check(h.nr_elements() == elements, "selection-nr-elements", std::format("{}: {} elements reported, {} selected", text(s), h.nr_elements(), elements));
        c.check(h.empty() == (elements == 0), "selection-empty", text(s) + ": emptiness differs from what is selected");
        c.count("selections");
        return h;
    }

    auto gather(Model const& m, std::vector<std::size_t> const& idxs) -> Bytes
    {
        Bytes r;
        for (auto const i : idxs)
        {
            r.insert(r.end(), m.bytes.begin() + i * m.type->size, m.bytes.begin() + (i + 1) * m.type->size);
        }
        return r;
    }

    void check_all(vh::Case& c, lh5::Dataset& d, Model const& m, std::string const& key)
    {
        c.equal(d.shape(), m.shape, "shape", "shape of array");
        Buffer b(m.bytes.size());
        c.op("read-all");
        d.read(m.type->native(), b.data());
        compare(c, b.bytes(), m.bytes, {}, m.type->size, key, "whole array");
    }

    // A data space in memory with as many elements as selected, in another arrangement
    auto memory_dataspace(vh::Rng& rng, Selection const& s) -> lh5::Dataspace
    {
        if (rng.chance(50))
        {
            hsize_t n = 1;
            for (auto const v : s.count) n *= v;
            return lh5::create_dataspace(lh5::Shape{n});
        }
        lh5::Shape shape(s.count.begin(), s.count.end());
        std::reverse(shape.begin(), shape.end());
        return lh5::create_dataspace(shape);
    }

    void window(vh::Case& c)
    {
        // Selection around a centre cell
        auto& rng = c.rng;
        for (int i = 0; i < 20; ++i)
        {
            lh5::Shape const array{rng.range(1, 40), rng.range(1, 40)};
            lh5::Shape const shape{rng.range(1, array[0]), rng.range(1, array[1])};
            lh5::Offset const first{rng.range(0, array[0] - shape[0]), rng.range(0, array[1] - shape[1])};
            lh5::Offset const center{first[0] + shape[0] / 2, first[1] + shape[1] / 2};
            c.op("window", std::format("center {} shape {} array {}", to_string(center), to_string(shape), to_string(array)));
            auto const h = lh5::hyperslab(center, shape, array);
            c.equal(h.start(), first, "window", "start of window");
            c.equal(h.count(), lh5::Count(shape.begin(), shape.end()), "window", "count of window");
            c.equal(h.stride(), lh5::Stride(2, 1), "window", "stride of window");
        }
    }

    void body(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("a.h5");
        std::optional<lh5::File> file{lh5::create_file(path)};
        std::vector<Model> models(rng.range(1, 2));
        std::vector<std::optional<ldm::Array>> arrays(models.size());
        for (std::size_t k = 0; k < models.size(); ++k)
        {
            auto& m = models[k];
            m.shape = random_shape(rng, 1, 5, 12, 1500);
            m.type = &rng.pick(element_types());
            m.chunked = rng.chance(60);
            m.fill = random_elements(rng, *m.type, 1, true);
            m.max_shape = m.shape;
            lh5::Dataset::CreationPropertyList creation;
            Buffer fill(m.fill);
            creation.set_fill_value(m.type->native(), fill.data());
            if (m.chunked)
            {
                lh5::Shape chunk;
                for (auto const e : m.shape) chunk.push_back(rng.range(1, e));
                creation.set_chunk(chunk);
                m.max_shape = lh5::Shape(m.shape.size(), H5S_UNLIMITED);
            }
            c.op("create", std::format("{} {} {}{}", k, m.type->name, to_string(m.shape), m.chunked ? " chunked" : ""));
            arrays[k].emplace(lh5::create_dataset(file->id(), std::format("a{}", k), m.type->file(), lh5::create_dataspace(m.shape, m.max_shape), creation), m.type->native());
            for (std::size_t i = 0; i < product(m.shape); ++i) m.bytes.insert(m.bytes.end(), m.fill.begin(), m.fill.end());
        }
        auto const nr_ops = rng.range(6, c.thorough() ? 30 : 16);
        for (std::uint64_t o = 0; o < nr_ops; ++o)
        {
            auto const k = rng.below(models.size());
            auto& m = models[k];
            auto& a = *arrays[k];
            auto const s = random_selection(rng, m.shape);
            auto const h = make_hyperslab(c, m.shape, s);
            auto const idxs = selected(m.shape, s);
            auto const native = m.type->native();
            std::string const what = std::format("{} {}", k, text(s));
            std::size_t const n = idxs.size() * m.type->size;
            switch (rng.below(11))
            {
                case 0: case 1: case 2: case 3:
                {
                    Bytes const data = random_elements(rng, *m.type, idxs.size(), true);
                    Buffer b(data);
                    auto const how = rng.below(6);
                    c.op("write", std::format("{} overload {}", what, how));
                    lh5::Dataset::TransferPropertyList const transfer;
                    switch (how)
                    {
                        case 0: a.write(h, b.data()); break;
                        case 1: a.write(h, transfer, b.data()); break;
                        case 2: a.write(memory_dataspace(rng, s), h, b.data()); break;
                        case 3: a.write(memory_dataspace(rng, s), h, transfer, b.data()); break;
                        case 4: static_cast<lh5::Dataset&>(a).write(native, h, b.data()); break;
                        default: static_cast<lh5::Dataset&>(a).write(native, memory_dataspace(rng, s), h, b.data()); break;
                    }
                    for (std::size_t i = 0; i < idxs.size(); ++i)
                        std::copy_n(data.begin() + i * m.type->size, m.type->size, m.bytes.begin() + idxs[i] * m.type->size);
                    if (!idxs.empty()) c.nontrivial();
                    break;
                }
                case 4: case 5: case 6:
                {
                    Buffer b(n);
                    auto const how = rng.below(6);
                    c.op("read", std::format("{} overload {}", what, how));
                    lh5::Dataset::TransferPropertyList const transfer;
                    auto& d = static_cast<lh5::Dataset&>(a);
                    switch (how)
                    {
                        case 0: a.read(h, b.data()); break;
                        case 1: a.read(native, h, b.data()); break;
                        case 2: a.read(native, h, transfer, b.data()); break;
                        case 3: d.read(native, memory_dataspace(rng, s), h, b.data()); break;
                        case 4: d.read(native, memory_dataspace(rng, s), h, transfer, b.data()); break;
                        default: d.read(native, h, b.data()); break;
                    }
                    compare(c, b.bytes(), gather(m, idxs), {}, m.type->size, "read-selection", what);
                    break;
                }
                case 7: case 8:
                {
                    Bytes const value = random_elements(rng, *m.type, 1, true);
                    Buffer b(value);
                    c.op("fill", what);
                    a.fill(native, h, b.data());
                    for (auto const i : idxs) std::copy(value.begin(), value.end(), m.bytes.begin() + i * m.type->size);
                    if (!idxs.empty()) c.nontrivial();
                    break;
                }
                case 9:
                {
                    if (!m.chunked) break;
                    lh5::Shape shape = m.shape;
                    for (auto& e : shape) if (rng.chance(60)) e = rng.range(1, 12);
                    if (product(shape) > 3000) break;
                    c.op("resize", std::format("{} {}", k, to_string(shape)));
                    a.resize(shape);
                    Bytes bytes;
                    std::vector<hsize_t> idx(shape.size(), 0);
                    for (std::size_t i = 0; i < product(shape); ++i)
                    {
                        std::size_t r = i, old = 0;
                        bool inside = true;
                        for (std::size_t d = shape.size(); d-- > 0;)
                        {
                            idx[d] = r % shape[d];
                            r /= shape[d];
                        }
                        for (std::size_t d = 0; d < shape.size(); ++d)
                        {
                            inside = inside && idx[d] < m.shape[d];
                            old = old * m.shape[d] + idx[d];
                        }
                        auto const from = inside ? m.bytes.begin() + old * m.type->size : m.fill.begin();
                        bytes.insert(bytes.end(), from, from + m.type->size);
                    }
                    m.shape = shape;
                    m.bytes = bytes;
                    break;
                }
                case 10:
                {
                    c.op("reopen");
                    for (auto& x : arrays) x.reset();
                    file.reset();
                    file.emplace(path, H5F_ACC_RDWR);
                    for (std::size_t i = 0; i < models.size(); ++i) arrays[i].emplace(*file, std::format("a{}", i));
                    break;
                }
            }
            if (rng.chance(40)) for (std::size_t i = 0; i < models.size(); ++i) check_all(c, *arrays[i], models[i], "untouched-elements");
        }
        for (std::size_t i = 0; i < models.size(); ++i) check_all(c, *arrays[i], models[i], "untouched-elements");
        window(c);
    }

}  // namespace

int main(int argc, char** argv)
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    return vh::run(argc, argv, body);
}
