// LINK: lue::data_model
// C13: elements never written read as the no-data value they were given.
//
// Model: per array the bytes of all elements, which start as the no-data value and are replaced by what is written.
#include "dm.hpp"

using namespace dm;

namespace {

    enum Kind { same, constant, different, raw, nr_kinds };
    char const* const kind_name[] = {"same", "constant", "different", "raw"};

    struct Model
    {
            std::string name;
            Kind kind;
            ElementType const* file;
            ElementType const* memory;
            lh5::Shape shape;                     // Of the array as a whole
            hsize_t id;                           // In case of different
            std::optional<Bytes> no_data;         // In the memory type
            Bytes bytes;                          // In the memory type
            std::vector<char> known;
    };

    template<typename F>
    void with_type(ElementType const& t, F&& f)
    {
        std::string const n = t.name;
        if (n == "uint8") f(std::uint8_t{});
        else if (n == "uint16") f(std::uint16_t{});
        else if (n == "uint32") f(std::uint32_t{});
        else if (n == "uint64") f(std::uint64_t{});
        else if (n == "int8") f(std::int8_t{});
        else if (n == "int16") f(std::int16_t{});
        else if (n == "int32") f(std::int32_t{});
        else if (n == "int64") f(std::int64_t{});
        else if (n == "float32") f(float{});
        else f(double{});
    }

    // A value of the file type, as element of the memory type
    auto random_values(vh::Rng& rng, Model const& m, std::size_t const n) -> Bytes
    {
        bool const wide = m.memory != m.file;
        Bytes const b = random_elements(rng, *m.file, n, wide);
        return wide ? widen(*m.file, b) : b;
    }

    auto random_no_data(vh::Rng& rng, Model const& m) -> Bytes
    {
        if (m.file == m.memory && rng.chance(60))
        {
            // All bits set, none set, one set, sign bit, quiet NaN, infinity
            Bytes b(m.file->size, 0);
            switch (rng.below(5))
            {
                case 0: std::fill(b.begin(), b.end(), 0xff); break;
                case 1: break;
                case 2: b[0] = 1; break;
                case 3: b.back() = 0x80; break;
                default:
                    if (m.file->is_float) with_type(*m.file, [&](auto const v) { auto const q = std::numeric_limits<std::decay_t<decltype(v)>>::infinity(); std::memcpy(b.data(), &q, b.size()); });
                    break;
            }
            return b;
        }
        return random_values(rng, m, 1);
    }

    struct World
    {
            std::string path;
            std::optional<lh5::File> file;
            std::vector<Model> models;
    };

    template<typename F>
    void with_array(World& w, Model const& m, F&& f)
    {
        lh5::Group group{*w.file, "values"};
        switch (m.kind)
        {
            case same: { ldm::same_shape::Value v{group, m.name, m.memory->native()}; f(v); break; }
            case constant: { ldm::same_shape::constant_shape::Value v{group, m.name, m.memory->native()}; f(v); break; }
            case different: { auto v = ldm::different_shape::Value{group, m.name, m.memory->native()}[m.id]; f(v); break; }
            default: { ldm::Array v{group, m.name, m.memory->native()}; f(v); break; }
        }
    }

    void verify(vh::Case& c, World& w, Model const& m)
    {
        std::string const what = std::format("{} ({})", m.name, m.id);
        with_array(w, m, [&](auto& array) {
            c.check(array.shape() == m.shape, "shape", what);
            c.check(array.has_no_data_value() == m.no_data.has_value(), "has-no-data-value", what);
            if (m.no_data)
            {
                c.count("no-data.compared");
                with_type(*m.memory, [&](auto const v_) {
                    using T = std::decay_t<decltype(v_)>;
                    T const v = array.template no_data_value<T>();
                    c.check(std::memcmp(&v, m.no_data->data(), sizeof(T)) == 0, "no-data-value", what + ": no-data value differs");
                });
                // As stored
                hid_t const plist = ::H5Dget_create_plist(array.id());
                Bytes stored(m.memory->size);
                auto const status = ::H5Pget_fill_value(plist, m.memory->native().id(), stored.data());
                ::H5Pclose(plist);
                c.check(status >= 0 && stored == *m.no_data, "stored-no-data-value", what);
            }
            if (m.bytes.empty() || std::find(m.known.begin(), m.known.end(), 1) == m.known.end()) return;
            if (m.no_data) c.count("elements.known", m.known.size());
            Buffer b(m.bytes.size());
            array.read(b.data());
            compare(c, b.bytes(), m.bytes, m.known, m.memory->size, "read", what);
            // A part
            if (c.rng.chance(40) && product(m.shape) > 0 && !m.shape.empty())
            {
                hsize_t const from = c.rng.below(m.shape[0]), to = c.rng.range(from + 1, m.shape[0]);
                std::size_t const row = product(m.shape) / m.shape[0];
                if (!m.no_data) return;
                lh5::Offset start(m.shape.size(), 0);
                lh5::Count count(m.shape.begin(), m.shape.end());
                start[0] = from;
                count[0] = to - from;
                Buffer p((to - from) * row * m.memory->size);
                array.read(lh5::Hyperslab{start, count}, p.data());
                compare(c, p.bytes(), Bytes(m.bytes.begin() + from * row * m.memory->size, m.bytes.begin() + to * row * m.memory->size), {}, m.memory->size, "read-part", what);
            }
        });
    }

    // Without a no-data value, elements are known once they are written
    void grow(Model& m, std::size_t const nr_elements)
    {
        std::size_t const before = m.bytes.size() / m.memory->size;
        m.bytes.resize(nr_elements * m.memory->size);
        m.known.resize(nr_elements, m.no_data ? 1 : 0);
        for (std::size_t i = before; i < nr_elements; ++i)
        {
            if (m.no_data) std::memcpy(m.bytes.data() + i * m.memory->size, m.no_data->data(), m.memory->size);
        }
    }

    void create(vh::Case& c, World& w)
    {
        auto& rng = c.rng;
        Model m;
        m.kind = static_cast<Kind>(rng.below(nr_kinds));
        m.name = std::format("v{}", w.models.size());
        m.id = 0;
        m.file = &rng.pick(element_types());
        m.memory = m.kind != raw && rng.chance(30) ? &wide_type(*m.file) : m.file;
        if (rng.chance(80)) m.no_data = random_no_data(rng, m);
        std::unique_ptr<Buffer> no_data;
        if (m.no_data) no_data = std::make_unique<Buffer>(*m.no_data);
        void const* p = no_data ? no_data->data() : nullptr;
        auto shape = random_shape(rng, m.kind == different ? 1 : 0, 3, 6, 100);
        std::string const what = std::format("{} {} file {} memory {} shape {} no-data {}", m.name, kind_name[m.kind], m.file->name, m.memory->name, to_string(shape), m.no_data ? hex(*m.no_data, 0, 8) : "none");
        lh5::Group group{*w.file, "values"};
        auto create_value = [&](auto create_, std::size_t const ways) {
            c.op("create", what);
            bool const own = m.file == m.memory;
            if (shape.empty())
            {
                if (own && rng.chance(50)) create_(m.memory->native());
                else create_(m.file->file(), m.memory->native());
            }
            else
            {
                if (own && rng.chance(50)) create_(m.memory->native(), shape);
                else create_(m.file->file(), m.memory->native(), shape);
            }
            (void)ways;
            m.shape = shape;
            m.shape.insert(m.shape.begin(), 0);
        };
        switch (m.kind)
        {
            case same: create_value([&](auto const&... a) { ldm::same_shape::create_value(group, m.name, a..., p); }, 4); break;
            case constant: create_value([&](auto const&... a) { ldm::same_shape::constant_shape::create_value(group, m.name, a..., p); }, 4); break;
            case different:
            {
                // Several objects, each with a no-data value of its own, or none
                c.op("create", what);
                auto value = ldm::different_shape::create_value(group, m.name, m.file->file(), m.memory->native(), static_cast<ldm::Rank>(shape.size()));
                auto const n = rng.range(1, 4);
                for (std::size_t i = 0; i < n; ++i)
                {
                    Model o = m;
                    o.id = rng.chance(50) ? i : std::numeric_limits<hsize_t>::max() - i;
                    o.no_data.reset();
                    if (rng.chance(80)) o.no_data = random_no_data(rng, o);
                    o.shape = random_shape(rng, static_cast<int>(shape.size()), static_cast<int>(shape.size()), 6, 220);
                    std::unique_ptr<Buffer> own;
                    if (o.no_data) own = std::make_unique<Buffer>(*o.no_data);
                    c.op("expand", std::format("{} {} {} no-data {}", o.name, o.id, to_string(o.shape), o.no_data ? hex(*o.no_data, 0, 8) : "none"));
                    if (o.no_data) value.expand(o.id, o.shape, own->data()); else value.expand(o.id, o.shape);
                    grow(o, product(o.shape));
                    w.models.push_back(o);
                    verify(c, w, o);
                }
                return;
            }
            default:
            {
                // An array with a creation property list
                if (shape.empty()) shape.push_back(3);
                lh5::Dataset::CreationPropertyList list;
                bool const as_bool = m.file->name == std::string{"uint8"} && rng.chance(30);
                if (as_bool && m.no_data) m.no_data = Bytes{static_cast<unsigned char>(rng.below(2))};
                c.check(!list.fill_value_defined(), "fill-value-defined", "fill value of new creation property list is defined");
                c.op("create", what);
                if (m.no_data)
                {
                    if (as_bool)
                    {
                        list.set_fill_value<bool>((*m.no_data)[0] != 0);
                        c.check(list.get_fill_value<bool>() == ((*m.no_data)[0] != 0), "bool-fill-value", "fill value of list differs");
                    }
                    else
                    {
                        with_type(*m.file, [&](auto const v_) {
                            using T = std::decay_t<decltype(v_)>;
                            T v;
                            std::memcpy(&v, m.no_data->data(), sizeof v);
                            list.set_fill_value<T>(v);
                            T const r = list.get_fill_value<T>();
                            c.check(std::memcmp(&v, &r, sizeof v) == 0, "fill-value", "fill value of list differs");
                        });
                    }
                    c.check(list.fill_value_defined(), "fill-value-defined", "fill value of list is not defined");
                }
                if (rng.chance(50))
                {
                    // The array cannot grow, so a block must fit it
                    auto chunk = lh5::chunk_shape(lh5::Shape(shape.begin() + 1, shape.end()), m.file->size);
                    chunk[0] = std::min(chunk[0], shape[0]);
                    list.set_chunk(chunk);
                }
                auto array = lh5::create_dataset(group.id(), m.name, m.file->file(), lh5::create_dataspace(shape), list);
                m.shape = shape;
                grow(m, product(shape));
                if (as_bool && m.no_data)
                {
                    ldm::Array const a{group, m.name};
                    c.check(a.no_data_value<bool>() == ((*m.no_data)[0] != 0), "bool-no-data-value", "no-data value differs");
                }
                break;
            }
        }
        w.models.push_back(m);
        verify(c, w, m);
    }

    void write(vh::Case& c, World& w, Model& m)
    {
        auto& rng = c.rng;
        if (m.bytes.empty()) return;
        // Part of the elements to write equal the no-data value
        auto values = [&](std::size_t const n) {
            Bytes b = random_values(rng, m, n);
            if (m.no_data && rng.chance(50))
            {
                for (std::size_t i = 0; i < n; ++i)
                {
                    if (rng.chance(50)) std::memcpy(b.data() + i * m.memory->size, m.no_data->data(), m.memory->size);
                }
            }
            return b;
        };
        std::size_t const s = m.memory->size;
        lh5::Offset start(m.shape.size(), 0);
        lh5::Count count(m.shape.begin(), m.shape.end());
        bool const whole = m.shape.empty() || rng.chance(15);
        if (!whole)
        {
            for (std::size_t d = 0; d < m.shape.size(); ++d)
            {
                start[d] = rng.below(m.shape[d]);
                count[d] = rng.range(1, m.shape[d] - start[d]);
            }
        }
        Bytes const data = values(product(lh5::Shape(count.begin(), count.end())));
        Buffer b(data);
        c.op(whole ? "write-whole" : "write-part", std::format("{} {} start {} count {}", m.name, m.id, to_string(start), to_string(count)));
        with_array(w, m, [&](auto& array) {
            if (whole) array.write(b.data()); else array.write(lh5::Hyperslab{start, count}, b.data());
        });
        // Row-major order
        std::vector<hsize_t> index(m.shape.size(), 0);
        std::size_t const n = data.size() / s;
        for (std::size_t i = 0; i < n; ++i)
        {
            std::size_t target = 0;
            for (std::size_t d = 0; d < m.shape.size(); ++d) target = target * m.shape[d] + start[d] + index[d];
            std::memcpy(m.bytes.data() + target * s, data.data() + i * s, s);
            m.known[target] = 1;
            for (std::size_t d = m.shape.size(); d-- > 0;)
            {
                if (++index[d] < count[d]) break;
                index[d] = 0;
            }
        }
        c.nontrivial();
    }

    void run(vh::Case& c)
    {
        auto& rng = c.rng;
        World w;
        w.path = c.path("no_data.lue");
        w.file = lh5::create_file(w.path);
        lh5::create_group(*w.file, "values");
        create(c, w);
        auto const nr_steps = rng.range(5, c.thorough() ? 80 : 30);
        for (std::uint64_t step = 0; step < nr_steps; ++step)
        {
            auto& m = w.models[rng.below(w.models.size())];
            auto const k = rng.below(100);
            if (k < 10) create(c, w);
            else if (k < 35)
            {
                if (m.kind != same && m.kind != constant) continue;
                auto const n = rng.range(1, 4);
                c.op("expand", std::format("{} {}", m.name, n));
                auto expand = [&]<typename Value>(std::type_identity<Value>) {
                    Value v{lh5::Group{*w.file, "values"}, m.name, m.memory->native()};
                    v.expand(n);
                };
                if (m.kind == same) expand(std::type_identity<ldm::same_shape::Value>{}); else expand(std::type_identity<ldm::same_shape::constant_shape::Value>{});
                m.shape[0] += n;
                grow(m, product(m.shape));
            }
            else if (k < 75) write(c, w, m);
            else if (k < 92) verify(c, w, m);
            else
            {
                c.op("reopen");
                w.file.reset();
                w.file.emplace(w.path, H5F_ACC_RDWR);
            }
        }
        for (auto const& m : w.models) verify(c, w, m);
        c.op("final-reopen");
        w.file.reset();
        w.file.emplace(w.path);
        for (auto const& m : w.models) verify(c, w, m);
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
