// LINK: lue::data_model
// C02: values with per-object and/or per-time shapes keep each array separate and intact.
// Model: map from (time index, object ID) to array {shape, bytes, ever written}.
#include "dm.hpp"

using namespace dm;

namespace {

    enum Kind { different, different_constant, same_variable, different_variable };
    char const* const kind_name[] = {"different", "different_constant", "same_variable", "different_variable"};

    struct ArrayModel
    {
            lh5::Shape shape;  // Of the whole array, including the leading dimension if there is one
            Bytes bytes;       // In the file data type
            std::vector<char> known;
    };

    struct Model
    {
            std::string name;
            Kind kind;
            ElementType const* type;
            bool direct, wide;
            ldm::Rank rank;
            std::map<hsize_t, std::map<hsize_t, ArrayModel>> arrays;  // [time index][ID], 0 if not relevant
    };

    struct World
    {
            std::string path;
            std::optional<ldm::Dataset> dataset;
            std::vector<std::unique_ptr<Model>> models;
            // Handles that stay open over several operations
            std::map<std::string, ldm::different_shape::Value> v0;
            std::map<std::string, ldm::different_shape::constant_shape::Value> v1;
            std::map<std::string, ldm::same_shape::variable_shape::Value> v2;
            std::map<std::string, ldm::different_shape::variable_shape::Value> v3;
            void close()
            {
                v0.clear(); v1.clear(); v2.clear(); v3.clear();
                dataset.reset();
            }
    };

    auto nr_elements(ArrayModel const& a) -> std::size_t { return product(a.shape); }

    auto set_of(World& w) -> ldm::PropertySet& { return w.dataset->phenomena()["p"].property_sets()["s"]; }

    template<typename Value, typename Map>
    auto direct_value(World& w, Model& m, Map& map) -> Value&
    {
        auto it = map.find(m.name);
        if (it == map.end())
        {
            auto& set = set_of(w);
            if (m.wide) it = map.insert({m.name, Value{set, m.name, wide_type(*m.type).native()}}).first;
            else it = map.insert({m.name, Value{set, m.name}}).first;
        }
        return it->second;
    }

    template<typename F>
    void with_value(World& w, Model& m, F&& f)
    {
        auto& props = set_of(w).properties();
        switch (m.kind)
        {
            case different:
                if (m.direct) f(direct_value<ldm::different_shape::Value>(w, m, w.v0));
                else f(props.collection<ldm::different_shape::Properties>()[m.name].value());
                break;
            case different_constant:
                if (m.direct) f(direct_value<ldm::different_shape::constant_shape::Value>(w, m, w.v1));
                else f(props.collection<ldm::different_shape::constant_shape::Properties>()[m.name].value());
                break;
            case same_variable:
                if (m.direct) f(direct_value<ldm::same_shape::variable_shape::Value>(w, m, w.v2));
                else f(props.collection<ldm::same_shape::variable_shape::Properties>()[m.name].value());
                break;
            case different_variable:
                if (m.direct) f(direct_value<ldm::different_shape::variable_shape::Value>(w, m, w.v3));
                else f(props.collection<ldm::different_shape::variable_shape::Properties>()[m.name].value());
                break;
        }
    }

    auto memory_bytes(Model const& m, Bytes const& b) -> Bytes { return m.wide ? widen(*m.type, b) : b; }
    auto memory_type(Model const& m) -> ElementType const& { return m.wide ? wide_type(*m.type) : *m.type; }

    void check_array(vh::Case& c, Model& m, ldm::Array& array, ArrayModel& a, std::string const& what)
    {
        c.check(array.shape() == a.shape, "array-shape", std::format("{}: shape {} expected {}", what, to_string(array.shape()), to_string(a.shape)));
        c.check(array.memory_datatype() == memory_type(m).native(), "memory-datatype", what + ": memory data type differs");
        c.check(array.file_datatype() == m.type->file(), "file-datatype", what + ": file data type differs");
        if (std::find(a.known.begin(), a.known.end(), 1) == a.known.end())
        {
            return;
        }
        Buffer b(nr_elements(a) * memory_type(m).size);
        c.op("read", what);
        array.read(b.data());
        compare(c, b.bytes(), memory_bytes(m, a.bytes), a.known, memory_type(m).size, "read", what);
        if (a.shape.size() > 0 && c.rng.chance(30))
        {
            // Part along the first dimension
            hsize_t const from = c.rng.below(a.shape[0]), to = c.rng.range(from + 1, a.shape[0]);
            lh5::Offset start(a.shape.size(), 0);
            lh5::Count count(a.shape.begin(), a.shape.end());
            start[0] = from;
            count[0] = to - from;
            std::size_t const row = nr_elements(a) / a.shape[0];
            Buffer p((to - from) * row * memory_type(m).size);
            c.op("read-part", what);
            array.read(lh5::Hyperslab{start, count}, p.data());
            Bytes const all = memory_bytes(m, a.bytes);
            std::size_t const s = memory_type(m).size;
            compare(c, p.bytes(), Bytes(all.begin() + from * row * s, all.begin() + to * row * s),
                std::vector<char>(a.known.begin() + from * row, a.known.begin() + to * row), s, "read-part", what);
        }
    }

    void write_array(vh::Case& c, Model& m, ldm::Array& array, ArrayModel& a, std::string const& what)
    {
        if (a.shape.size() > 0 && c.rng.chance(30))
        {
            hsize_t const from = c.rng.below(a.shape[0]), to = c.rng.range(from + 1, a.shape[0]);
            lh5::Offset start(a.shape.size(), 0);
            lh5::Count count(a.shape.begin(), a.shape.end());
            start[0] = from;
            count[0] = to - from;
            std::size_t const row = nr_elements(a) / a.shape[0];
            Bytes const data = random_elements(c.rng, *m.type, (to - from) * row, m.wide);
            Buffer b(memory_bytes(m, data));
            c.op("write-part", what);
            array.write(lh5::Hyperslab{start, count}, b.data());
            std::copy(data.begin(), data.end(), a.bytes.begin() + from * row * m.type->size);
            std::fill(a.known.begin() + from * row, a.known.begin() + to * row, 1);
        }
        else
        {
            Bytes const data = random_elements(c.rng, *m.type, nr_elements(a), m.wide);
            Buffer b(memory_bytes(m, data));
            c.op("write", what);
            array.write(b.data());
            a.bytes = data;
            std::fill(a.known.begin(), a.known.end(), 1);
        }
        c.count("arrays.written");
    }

    auto new_array(Model const& m, lh5::Shape shape) -> ArrayModel
    {
        ArrayModel a;
        a.shape = std::move(shape);
        a.bytes.resize(product(a.shape) * m.type->size);
        a.known.resize(product(a.shape), 0);
        return a;
    }

    auto random_id(vh::Rng& rng) -> hsize_t
    {
        switch (rng.below(5))
        {
            case 0: return rng.below(10);
            case 1: return rng.below(1000);
            case 2: return std::numeric_limits<hsize_t>::max() - rng.below(3);
            case 3: return (1ULL << rng.below(64)) + rng.below(2);
            default: return rng.next();
        }
    }

    auto shape_of_rank(vh::Rng& rng, ldm::Rank rank) -> lh5::Shape { return random_shape(rng, rank, rank, rank > 2 ? 4 : 7, 200); }

    auto with_leading(lh5::Shape const& s, hsize_t n) -> lh5::Shape
    {
        lh5::Shape r{s};
        r.insert(r.begin(), n);
        return r;
    }

    template<typename Map>
    auto fresh_ids(vh::Rng& rng, Map const& existing, std::size_t n) -> std::vector<hsize_t>
    {
        std::vector<hsize_t> ids;
        while (ids.size() < n)
        {
            auto const id = random_id(rng);
            if (existing.find(id) == existing.end() && std::find(ids.begin(), ids.end(), id) == ids.end())
            {
                ids.push_back(id);
            }
        }
        return ids;
    }

    void expand(vh::Case& c, World& w, Model& m)
    {
        auto& rng = c.rng;
        auto& by_id = m.arrays[0];
        switch (m.kind)
        {
            case different:
                with_value(w, m, [&](auto& value_) {
                    if constexpr (std::is_same_v<std::decay_t<decltype(value_)>, ldm::different_shape::Value>)
                    {
                        auto const how = rng.below(3);
                        auto const ids = fresh_ids(rng, by_id, how == 0 ? 1 : rng.below(4));
                        ldm::Shapes shapes;
                        std::vector<hsize_t> flat;
                        for (std::size_t i = 0; i < ids.size(); ++i)
                        {
                            shapes.push_back(shape_of_rank(rng, m.rank));
                            flat.insert(flat.end(), shapes.back().begin(), shapes.back().end());
                        }
                        std::string d = m.name;
                        for (std::size_t i = 0; i < ids.size(); ++i) d += std::format(" {}:{}", ids[i], to_string(shapes[i]));
                        if (how == 0)
                        {
                            c.op("expand-different-single", d);
                            value_.expand(ids[0], shapes[0]);
                        }
                        else if (how == 1)
                        {
                            c.op("expand-different-shapes", d);
                            value_.expand(ids.size(), ids.data(), shapes.data());
                        }
                        else
                        {
                            // A block of exactly the right size
                            std::unique_ptr<hsize_t[]> block{new hsize_t[flat.size() ? flat.size() : 1]};
                            std::copy(flat.begin(), flat.end(), block.get());
                            c.op("expand-different-flat-shapes", d);
                            value_.expand(ids.size(), ids.data(), static_cast<hsize_t const*>(block.get()));
                        }
                        for (std::size_t i = 0; i < ids.size(); ++i) by_id[ids[i]] = new_array(m, shapes[i]);
                    }
                });
                break;
            case different_constant:
                with_value(w, m, [&](auto& value_) {
                    if constexpr (std::is_same_v<std::decay_t<decltype(value_)>, ldm::different_shape::constant_shape::Value>)
                    {
                        bool const single = rng.chance(50);
                        auto const ids = fresh_ids(rng, by_id, single ? 1 : rng.below(4));
                        ldm::Shapes shapes;
                        ldm::Counts counts;
                        std::string d = m.name;
                        for (std::size_t i = 0; i < ids.size(); ++i)
                        {
                            shapes.push_back(shape_of_rank(rng, m.rank));
                            counts.push_back(rng.range(1, 4));
                            d += std::format(" {}:{}x{}", ids[i], counts[i], to_string(shapes[i]));
                        }
                        if (single)
                        {
                            c.op("expand-different-constant-single", d);
                            auto v = value_.expand(ids[0], shapes[0], counts[0]);
                            c.check(v.nr_arrays() == counts[0] && v.array_shape() == shapes[0], "expand-result", "value returned by expand has another shape");
                        }
                        else
                        {
                            c.op("expand-different-constant", d);
                            value_.expand(ids.size(), ids.data(), shapes.data(), counts.data());
                        }
                        for (std::size_t i = 0; i < ids.size(); ++i) by_id[ids[i]] = new_array(m, with_leading(shapes[i], counts[i]));
                    }
                });
                break;
            case same_variable:
                with_value(w, m, [&](auto& value_) {
                    if constexpr (std::is_same_v<std::decay_t<decltype(value_)>, ldm::same_shape::variable_shape::Value>)
                    {
                        m.arrays.erase(0);
                        auto const idx = rng.chance(70) ? m.arrays.size() + 1 : fresh_ids(rng, m.arrays, 1)[0];
                        if (idx == 0 || m.arrays.count(idx)) return;
                        auto const n = rng.range(1, 4);
                        auto const shape = shape_of_rank(rng, m.rank);
                        c.op("expand-same-variable", std::format("{} {} {}x{}", m.name, idx - 1, n, to_string(shape)));
                        auto v = value_.expand(idx - 1, n, shape);
                        auto& a = m.arrays[idx][0] = new_array(m, with_leading(shape, n));
                        c.check(v.nr_arrays() == n && v.array_shape() == shape, "expand-result", "value returned by expand has another shape");
                        if (rng.chance(50)) write_array(c, m, v, a, m.name + " (value returned by expand)");
                    }
                });
                break;
            case different_variable:
                with_value(w, m, [&](auto& value_) {
                    if constexpr (std::is_same_v<std::decay_t<decltype(value_)>, ldm::different_shape::variable_shape::Value>)
                    {
                        m.arrays.erase(0);
                        auto const idx = rng.chance(70) ? m.arrays.size() + 1 : fresh_ids(rng, m.arrays, 1)[0];
                        if (idx == 0 || m.arrays.count(idx)) return;
                        std::map<hsize_t, ArrayModel> fresh;
                        auto const ids = fresh_ids(rng, fresh, rng.below(4));
                        ldm::Shapes shapes;
                        std::string d = std::format("{} {}", m.name, idx - 1);
                        for (std::size_t i = 0; i < ids.size(); ++i)
                        {
                            shapes.push_back(shape_of_rank(rng, m.rank));
                            fresh[ids[i]] = new_array(m, shapes[i]);
                            d += std::format(" {}:{}", ids[i], to_string(shapes[i]));
                        }
                        c.op("expand-different-variable", d);
                        auto v = value_.expand(idx - 1, ids.size(), ids.data(), shapes.data());
                        m.arrays[idx] = std::move(fresh);
                        c.check(v.nr_objects() == ids.size(), "expand-result", "value returned by expand has another number of objects");
                    }
                });
                break;
        }
        c.count("expands");
    }

    // Check counts and existence; visit arrays
    template<typename F>
    void visit(vh::Case& c, World& w, Model& m, F&& f)
    {
        with_value(w, m, [&](auto& v) {
            using V = std::decay_t<decltype(v)>;
            c.check(v.rank() == m.rank, "rank", std::format("{}: rank {} expected {}", m.name, v.rank(), m.rank));
            c.check(v.file_datatype() == m.type->file(), "file-datatype", m.name + ": file data type differs");
            c.check(v.memory_datatype() == memory_type(m).native(), "memory-datatype", m.name + ": memory data type differs");
            if constexpr (std::is_same_v<V, ldm::different_shape::Value> || std::is_same_v<V, ldm::different_shape::constant_shape::Value>)
            {
                auto& by_id = m.arrays[0];
                c.check(v.nr_objects() == by_id.size(), "nr-objects", std::format("{}: {} objects reported, {} created", m.name, v.nr_objects(), by_id.size()));
                auto contains = [&](hsize_t id) { if constexpr (std::is_same_v<V, ldm::different_shape::Value>) return v.contains(id); else return v.exists(id); };
                for (auto& [id, a] : by_id)
                {
                    c.check(contains(id), "contains", std::format("{}: object {} was created but is said not to exist", m.name, id));
                    auto const other = random_id(c.rng);
                    c.check(contains(other) == (by_id.count(other) == 1), "contains", std::format("{}: object {} existence is wrong", m.name, other));
                    auto array = v[id];
                    f(array, a, std::format("{} [{}]", m.name, id));
                }
            }
            else if constexpr (std::is_same_v<V, ldm::same_shape::variable_shape::Value>)
            {
                m.arrays.erase(0);
                c.check(v.nr_locations_in_time() == m.arrays.size(), "nr-locations", std::format("{}: {} locations in time reported, {} created", m.name, v.nr_locations_in_time(), m.arrays.size()));
                for (auto& [idx, as] : m.arrays)
                {
                    auto array = v[idx - 1];
                    f(array, as[0], std::format("{} [{}]", m.name, idx - 1));
                }
            }
            else
            {
                m.arrays.erase(0);
                c.check(v.nr_locations_in_time() == m.arrays.size(), "nr-locations", std::format("{}: {} locations in time reported, {} created", m.name, v.nr_locations_in_time(), m.arrays.size()));
                for (auto& [idx, as] : m.arrays)
                {
                    auto per_time = v[idx - 1];
                    c.check(per_time.rank() == m.rank, "rank", m.name + ": rank of value per time differs");
                    c.check(per_time.nr_objects() == as.size(), "nr-objects", std::format("{} [{}]: {} objects reported, {} created", m.name, idx - 1, per_time.nr_objects(), as.size()));
                    for (auto& [id, a] : as)
                    {
                        c.check(per_time.contains(id), "contains", std::format("{} [{}]: object {} was created but is said not to exist", m.name, idx - 1, id));
                        auto const other = random_id(c.rng);
                        c.check(per_time.contains(other) == (as.count(other) == 1), "contains", std::format("{} [{}]: object {} existence is wrong", m.name, idx - 1, other));
                        auto array = per_time[id];
                        f(array, a, std::format("{} [{}][{}]", m.name, idx - 1, id));
                    }
                }
            }
        });
    }

    void verify(vh::Case& c, World& w)
    {
        for (auto& m : w.models)
        {
            visit(c, w, *m, [&](auto& array, ArrayModel& a, std::string const& what) { check_array(c, *m, array, a, what); });
        }
    }

    void body(vh::Case& c)
    {
        World w;
        w.path = c.path("d.lue");
        c.op("create-dataset");
        w.dataset.emplace(ldm::create_dataset(w.path));
        w.dataset->add_phenomenon("p").property_sets().add("s");
        auto const nr = c.rng.range(1, 3);
        for (std::uint64_t i = 0; i < nr; ++i)
        {
            auto m = std::make_unique<Model>();
            m->name = "v" + std::to_string(i);
            m->kind = static_cast<Kind>(c.rng.below(4));
            m->type = &c.rng.pick(element_types());
            m->direct = c.rng.chance(40);
            m->wide = m->direct && c.rng.chance(60);
            // Shapes that can differ between arrays have at least one extent
            m->rank = static_cast<ldm::Rank>((m->kind == different || m->kind == different_variable) ? c.rng.range(1, 4) : c.rng.below(5));
            c.op("create-value", std::format("{} {} {} rank {}{}{}", m->name, kind_name[m->kind], m->type->name, m->rank, m->direct ? " direct" : "", m->wide ? " wide" : ""));
            auto& set = set_of(w);
            auto& props = set.properties();
            if (m->direct)
            {
                // These functions are not part of the library's exported interface; the group is laid out by
                // the property, of which the value is then opened by itself
                switch (m->kind)
                {
                    case different: {
                        auto& p = props.add(m->name, m->type->native(), m->rank);
                        w.v0.insert({m->name, m->wide ? ldm::different_shape::Value{p, "lue_value", wide_type(*m->type).native()} : ldm::different_shape::Value{p, "lue_value"}});
                        break;
                    }
                    case different_constant: {
                        auto& p = props.add<ldm::different_shape::constant_shape::Property>(m->name, m->type->native(), m->rank);
                        w.v1.insert({m->name, m->wide ? ldm::different_shape::constant_shape::Value{p, "lue_value", wide_type(*m->type).native()} : ldm::different_shape::constant_shape::Value{p, "lue_value"}});
                        break;
                    }
                    case same_variable: {
                        auto& p = props.add<ldm::same_shape::variable_shape::Property>(m->name, m->type->native(), m->rank);
                        w.v2.insert({m->name, m->wide ? ldm::same_shape::variable_shape::Value{p, "lue_value", wide_type(*m->type).native()} : ldm::same_shape::variable_shape::Value{p, "lue_value"}});
                        break;
                    }
                    case different_variable: {
                        auto& p = props.add<ldm::different_shape::variable_shape::Property>(m->name, m->type->native(), m->rank);
                        w.v3.insert({m->name, m->wide ? ldm::different_shape::variable_shape::Value{p, "lue_value", wide_type(*m->type).native()} : ldm::different_shape::variable_shape::Value{p, "lue_value"}});
                        break;
                    }
                }
            }
            else
            {
                switch (m->kind)
                {
                    case different: props.add(m->name, m->type->native(), m->rank); break;
                    case different_constant: props.add<ldm::different_shape::constant_shape::Property>(m->name, m->type->native(), m->rank); break;
                    case same_variable: props.add<ldm::same_shape::variable_shape::Property>(m->name, m->type->native(), m->rank); break;
                    case different_variable: props.add<ldm::different_shape::variable_shape::Property>(m->name, m->type->native(), m->rank); break;
                }
            }
            w.models.push_back(std::move(m));
        }
        auto const nr_ops = c.rng.range(3, c.thorough() ? 30 : 14);
        for (std::uint64_t i = 0; i < nr_ops; ++i)
        {
            auto& m = *w.models[c.rng.below(w.models.size())];
            auto const what = c.rng.below(100);
            if (what < 35)
            {
                expand(c, w, m);
            }
            else if (what < 65)
            {
                visit(c, w, m, [&](auto& array, ArrayModel& a, std::string const& name) {
                    if (c.rng.chance(50)) write_array(c, m, array, a, name);
                });
            }
            else if (what < 88)
            {
                verify(c, w);
            }
            else
            {
                c.op("reopen");
                w.close();
                w.dataset.emplace(ldm::open_dataset(w.path, H5F_ACC_RDWR));
                // From here on through handles opened by the collections
                for (auto& other : w.models)
                {
                    other->direct = other->wide = false;
                }
            }
        }
        verify(c, w);
        w.close();
        c.op("final-reopen");
        w.dataset.emplace(ldm::open_dataset(w.path));
        bool any = false;
        for (auto& m : w.models)
        {
            m->direct = m->wide = false;
            for (auto& [idx, as] : m->arrays) for (auto& [id, a] : as) any = any || std::find(a.known.begin(), a.known.end(), 1) != a.known.end();
        }
        verify(c, w);
        if (any)
        {
            c.nontrivial();
        }
        w.close();
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, body);
}
