// LINK: lue::data_model
// C01: values that share one array shape read back exactly as written.
// Model: per property a byte array (objects x array) plus a mask of elements ever written.
#include "dm.hpp"

using namespace dm;

namespace {

    struct Model
    {
            std::string phenomenon, set, name;
            bool constant;  // same_shape::Value (else same_shape::constant_shape::Value)
            ElementType const* type;
            lh5::Shape shape;
            std::size_t n{0};
            Bytes bytes;
            std::vector<char> known;
            bool collection;
            bool direct{false};
            lh5::Datatype memory;

            auto item() const -> std::size_t { return product(shape) * type->size; }
    };

    struct World
    {
            std::string path;
            std::optional<ldm::Dataset> dataset;
            std::vector<Model> models;
    };

    // All of the arrays [from, to)
    auto slab(Model const& m, std::size_t from, std::size_t to) -> lh5::Hyperslab
    {
        lh5::Offset start(m.shape.size() + 1, 0);
        lh5::Count count(m.shape.begin(), m.shape.end());
        count.insert(count.begin(), to - from);
        start[0] = from;
        return lh5::Hyperslab{start, count};
    }

    auto property_set(World& w, Model const& m) -> ldm::PropertySet&
    {
        auto& p = w.dataset->phenomena()[m.phenomenon];
        return m.collection ? p.collection_property_sets()[m.set] : p.property_sets()[m.set];
    }

    template<typename Value>
    auto compare_value(vh::Case& c, World&, Model& m, Value& v, int how) -> void
    {
        auto const item = m.item();
        auto const count = product(m.shape);
        c.check(v.nr_arrays() == m.n, "nr-arrays", std::format("{}: nr_arrays {} expected {}", m.name, v.nr_arrays(), m.n));
        c.check(v.array_shape() == m.shape, "array-shape", std::format("{}: array shape {} expected {}", m.name, to_string(v.array_shape()), to_string(m.shape)));
        c.check(v.memory_datatype() == m.type->native(), "memory-datatype", m.name + ": memory data type differs");
        c.check(v.file_datatype() == m.type->file(), "file-datatype", m.name + ": file data type differs");
        auto sub = [&](std::size_t b, std::size_t e) {
            return std::pair{Bytes(m.bytes.begin() + b * item, m.bytes.begin() + e * item),
                std::vector<char>(m.known.begin() + b * count, m.known.begin() + e * count)};
        };
        if (std::find(m.known.begin(), m.known.end(), 1) == m.known.end())
        {
            // Without a no-data value there is nothing to read before the first write
            return;
        }
        switch (how)
        {
            case 0: {
                if (m.n == 0) return;
                Buffer b(m.n * item);
                c.op("read-all", m.name);
                v.read(b.data());
                compare(c, b.bytes(), m.bytes, m.known, m.type->size, "read-all", m.name);
                break;
            }
            case 1: {
                for (std::size_t i = 0; i < m.n; ++i)
                {
                    Buffer b(item);
                    c.op("read-index", std::format("{} {}", m.name, i));
                    v.read(ldm::Index{i}, b.data());
                    auto [e, k] = sub(i, i + 1);
                    compare(c, b.bytes(), e, k, m.type->size, "read-index", std::format("{} [{}]", m.name, i));
                }
                break;
            }
            case 2: {
                std::size_t from = c.rng.range(0, m.n), to = c.rng.range(from, m.n);
                if (from == to) return;
                Buffer b((to - from) * item);
                c.op("read-range", std::format("{} {} {}", m.name, from, to));
                v.read(ldm::IndexRange{from, to}, b.data());
                auto [e, k] = sub(from, to);
                compare(c, b.bytes(), e, k, m.type->size, "read-range", std::format("{} [{},{})", m.name, from, to));
                break;
            }
            case 3: {
                std::size_t from = c.rng.range(0, m.n), to = c.rng.range(from, m.n);
                if (from == to) return;
                Buffer b((to - from) * item);
                c.op("read-hyperslab", std::format("{} {} {}", m.name, from, to));
                v.read(m.type->native(), slab(m, from, to), b.data());
                auto [e, k] = sub(from, to);
                compare(c, b.bytes(), e, k, m.type->size, "read-hyperslab", std::format("{} [{},{})", m.name, from, to));
                break;
            }
        }
    }

    template<typename Value>
    void write_value(vh::Case& c, Model& m, Value& v)
    {
        auto const item = m.item();
        auto const count = product(m.shape);
        std::size_t from = 0, to = m.n;
        int const how = static_cast<int>(c.rng.below(4));
        if (m.n == 0) return;
        if (how == 1)
        {
            from = c.rng.below(m.n);
            to = from + 1;
        }
        else if (how >= 2)
        {
            from = c.rng.range(0, m.n - 1);
            to = c.rng.range(from + 1, m.n);
        }
        Bytes const data = random_bytes(c.rng, (to - from) * item);
        Buffer b(data);
        switch (how)
        {
            case 0: c.op("write-all", m.name); v.write(b.data()); break;
            case 1: c.op("write-index", std::format("{} {}", m.name, from)); v.write(ldm::Index{from}, b.data()); break;
            case 2: c.op("write-range", std::format("{} {} {}", m.name, from, to)); v.write(ldm::IndexRange{from, to}, b.data()); break;
            case 3: c.op("write-hyperslab", std::format("{} {} {}", m.name, from, to)); v.write(slab(m, from, to), b.data()); break;
        }
        c.check(b.bytes() == data, "write-modifies-buffer", "the buffer written from has been modified");
        std::copy(data.begin(), data.end(), m.bytes.begin() + from * item);
        std::fill(m.known.begin() + from * count, m.known.begin() + to * count, 1);
        c.count("elements.written", (to - from) * count);
    }

    template<typename Value>
    void expand_value(vh::Case& c, Model& m, Value& v)
    {
        auto n = c.rng.chance(10) ? 0 : c.rng.range(1, 5);
        c.op("expand", std::format("{} {}", m.name, n));
        v.expand(n);
        m.n += n;
        m.bytes.resize(m.n * m.item());
        m.known.resize(m.n * product(m.shape), 0);
    }

    // Call f with a handle to the value
    template<typename F>
    void with_value(vh::Case& c, World& w, Model& m, F&& f)
    {
        auto& set = property_set(w, m);
        int const how = static_cast<int>(c.rng.below(3));
        if (m.direct)
        {
            if (m.constant)
            {
                ldm::same_shape::Value v{set, m.name};
                f(v);
            }
            else
            {
                ldm::same_shape::constant_shape::Value v{set, m.name};
                f(v);
            }
        }
        else if (m.constant)
        {
            auto& props = set.properties().collection<ldm::same_shape::Properties>();
            if (how == 0)
            {
                f(props[m.name].value());
            }
            else
            {
                // Another handle, opened next to the first one
                c.op("open-property", m.name);
                if (how == 1)
                {
                    ldm::same_shape::Property p{props, m.name};
                    f(p.value());
                }
                else
                {
                    ldm::same_shape::Property p{props, m.name, m.type->native()};
                    f(p.value());
                }
            }
        }
        else
        {
            auto& props = set.properties().collection<ldm::same_shape::constant_shape::Properties>();
            if (how == 0)
            {
                f(props[m.name].value());
            }
            else
            {
                c.op("open-property", m.name);
                if (how == 1)
                {
                    ldm::same_shape::constant_shape::Property p{props, m.name};
                    f(p.value());
                }
                else
                {
                    ldm::same_shape::constant_shape::Property p{props, m.name, m.type->native()};
                    f(p.value());
                }
            }
        }
    }

    void verify_all(vh::Case& c, World& w)
    {
        for (auto& m : w.models)
        {
            for (int how = 0; how < 4; ++how)
            {
                with_value(c, w, m, [&](auto& v) { compare_value(c, w, m, v, how); });
            }
        }
    }

    void body(vh::Case& c)
    {
        World w;
        w.path = c.path("d.lue");
        c.op("create-dataset");
        w.dataset.emplace(ldm::create_dataset(w.path));
        auto const nr_models = c.rng.range(1, 4);
        for (std::uint64_t i = 0; i < nr_models; ++i)
        {
            Model m;
            m.phenomenon = "p" + std::to_string(c.rng.below(2));
            m.set = "s" + std::to_string(c.rng.below(2));
            m.collection = c.rng.chance(30);
            m.name = "v" + std::to_string(i);
            m.constant = c.rng.chance(50);
            m.direct = c.rng.chance(20);
            m.type = &c.rng.pick(element_types());
            m.shape = c.rng.chance(20) ? lh5::Shape{} : random_shape(c.rng, 1, 4, 7);
            if (!w.dataset->phenomena().contains(m.phenomenon)) w.dataset->add_phenomenon(m.phenomenon);
            auto& p = w.dataset->phenomena()[m.phenomenon];
            auto& sets = m.collection ? p.collection_property_sets() : p.property_sets();
            if (!sets.contains(m.set)) sets.add(m.set);
            auto& set = sets[m.set];
            c.op("create-value", std::format("{} {} {} {}{}", m.name, m.type->name, to_string(m.shape), m.constant ? "constant" : "variable", m.direct ? " direct" : ""));
            bool const scalar = m.shape.empty() && c.rng.chance(50);
            if (m.direct)
            {
                // Explicit file and memory data types
                if (m.constant)
                {
                    if (scalar) ldm::same_shape::create_value(set, m.name, m.type->file(), m.type->native());
                    else ldm::same_shape::create_value(set, m.name, m.type->file(), m.type->native(), m.shape);
                }
                else
                {
                    if (scalar) ldm::same_shape::constant_shape::create_value(set, m.name, m.type->native());
                    else ldm::same_shape::constant_shape::create_value(set, m.name, m.type->native(), m.shape);
                }
            }
            else if (m.constant)
            {
                if (scalar) set.properties().add(m.name, m.type->native());
                else set.properties().add(m.name, m.type->native(), m.shape, "d" + m.name);
            }
            else
            {
                if (scalar) set.properties().add<ldm::same_shape::constant_shape::Property>(m.name, m.type->native());
                else set.properties().add<ldm::same_shape::constant_shape::Property>(m.name, m.type->native(), m.shape);
            }
            w.models.push_back(std::move(m));
        }
        auto const nr_ops = c.rng.range(4, c.thorough() ? 60 : 30);
        bool wrote = false;
        for (std::uint64_t i = 0; i < nr_ops; ++i)
        {
            auto& m = w.models[c.rng.below(w.models.size())];
            auto const what = c.rng.below(100);
            if (what < 25)
            {
                with_value(c, w, m, [&](auto& v) { expand_value(c, m, v); });
            }
            else if (what < 60)
            {
                with_value(c, w, m, [&](auto& v) { write_value(c, m, v); });
                wrote = wrote || m.n > 0;
            }
            else if (what < 92)
            {
                int const how = static_cast<int>(c.rng.below(4));
                with_value(c, w, m, [&](auto& v) { compare_value(c, w, m, v, how); });
            }
            else
            {
                c.op("reopen");
                w.dataset.reset();
                bool const ro = c.rng.chance(30);
                if (ro)
                {
                    w.dataset.emplace(ldm::open_dataset(w.path));
                    verify_all(c, w);
                    w.dataset.reset();
                }
                w.dataset.emplace(ldm::open_dataset(w.path, H5F_ACC_RDWR));
            }
        }
        verify_all(c, w);
        c.op("final-reopen");
        w.dataset.reset();
        w.dataset.emplace(ldm::open_dataset(w.path, H5F_ACC_RDONLY));
        verify_all(c, w);
        if (wrote)
        {
            c.nontrivial();
        }
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, body);
}
