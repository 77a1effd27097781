// LINK: lue::data_model_hl lue::data_model
// C21: raster views store and return rasters, layers and stacks unchanged.
//
// Model: per view its shape, boxes, steps and layers, with the bytes of all cells.
#include "dm.hpp"
#include "snapshot.hpp"
#include "lue/data_model/hl/raster_view.hpp"
#include "lue/data_model/hl/util.hpp"

using namespace dm;

namespace {

    struct LayerModel
    {
            std::string name;
            ElementType const* type;
            std::optional<Bytes> no_data;
            Bytes bytes;
            std::vector<char> known;
    };

    struct ViewModel
    {
            std::string phenomenon, set;
            bool variable;
            ldm::ID id;
            lh5::Shape grid;
            std::array<double, 4> space_box;
            std::array<std::uint64_t, 2> time_box;
            std::uint64_t nr_steps;
            ldm::time::TickPeriodCount nr_units;
            ldm::time::Unit unit;
            std::vector<LayerModel> layers;
            std::vector<std::string> properties;   // That aren't layers
    };

    struct Other
    {
            std::string phenomenon, set;
    };

    struct World
    {
            std::string path;
            bool in_memory;
            std::shared_ptr<ldm::Dataset> dataset;
            std::vector<ViewModel> views;
            std::vector<Other> others;                         // Property sets that aren't views
            std::map<std::string, std::vector<ldm::ID>> ids;   // Per phenomenon
    };

    template<typename F>
    void with_type(ElementType const& t, F&& f)
    {
        std::string const n = t.name;
        if (n == "uint8") f(std::uint8_t{});
        else if (n == "uint16") f(std::uint16_t{});
        else if (n == "uint32") f(std::uint32_t{});
        else if (n == "uint64") f(std::uint64_t{});
        else if (n == "int8") f(std::int8_t{});
        else if (n == "int16") f(std::int16_t{});
        else if (n == "int32") f(std::int32_t{});
        else if (n == "int64") f(std::int64_t{});
        else if (n == "float32") f(float{});
        else f(double{});
    }

    // Call f with a view, which manages the dataset by one of the supported kinds of pointers
    template<typename F>
    void with_view(vh::Case& c, World& w, ViewModel const& m, F&& f)
    {
        if (c.rng.chance(50))
        {
            if (m.variable) { auto v = ldm::variable::open_raster_view(w.dataset, m.phenomenon, m.set); f(v); }
            else { auto v = ldm::constant::open_raster_view(w.dataset, m.phenomenon, m.set); f(v); }
        }
        else
        {
            if (m.variable) { auto v = ldm::variable::open_raster_view(w.dataset.get(), m.phenomenon, m.set); f(v); }
            else { auto v = ldm::constant::open_raster_view(w.dataset.get(), m.phenomenon, m.set); f(v); }
        }
    }

    template<typename View>
    constexpr bool is_variable = requires(View& v) { v.time_box(); };

    template<typename View>
    void verify_view(vh::Case& c, View& view, ViewModel const& m)
    {
        std::string const what = m.phenomenon + "/" + m.set;
        c.check(view.phenomenon_name() == m.phenomenon && view.property_set_name() == m.set, "names", what);
        c.check(view.object_id() == m.id, "object-id", std::format("{}: observed {}, expected {}", what, view.object_id(), m.id));
        c.check(view.grid_shape() == m.grid, "grid-shape", what + ": " + to_string(view.grid_shape()) + " expected " + to_string(m.grid));
        c.check(std::memcmp(view.space_box().data(), m.space_box.data(), 32) == 0, "space-box", what);
        if constexpr (is_variable<View>)
        {
            c.check(view.time_box()[0] == m.time_box[0] && view.time_box()[1] == m.time_box[1], "time-box", what);
            c.check(view.nr_time_steps() == m.nr_steps, "nr-time-steps", std::format("{}: observed {}, expected {}", what, view.nr_time_steps(), m.nr_steps));
        }
        std::vector<std::string> observed = view.layer_names(), expected;
        for (auto const& layer : m.layers) expected.push_back(layer.name);
        std::ranges::sort(observed);
        std::ranges::sort(expected);
        c.check(observed == expected, "layer-names", std::format("{}: observed {} layers, expected {}", what, observed.size(), expected.size()));
        c.check(view.nr_layers() == expected.size(), "nr-layers", what);
        for (auto const& name : expected) c.check(view.contains(name), "contains", what + " " + name);
        for (auto const& name : {std::string{"absent "}, random_name(c.rng), std::string{"space_grid_shape"}, std::string{"time_grid_shape"}, std::string{}})
        {
            if (std::ranges::find(expected, name) != expected.end()) continue;
            c.check(!view.contains(name), "contains-absent", what + " " + name);
            c.throws("absent-layer", what + " " + name, [&] { view.layer(name); });
        }
        c.count("views.compared");
    }

    template<typename Layer>
    void verify_layer(vh::Case& c, Layer const& layer, ViewModel const& v, LayerModel const& m)
    {
        std::string const what = v.set + "/" + m.name;
        lh5::Shape shape;
        if (v.variable) shape = {1, v.nr_steps};
        shape.insert(shape.end(), v.grid.begin(), v.grid.end());
        c.check(layer.shape() == shape, "layer-shape", what + " " + to_string(layer.shape()) + " expected " + to_string(shape));
        c.check(layer.file_datatype() == m.type->file(), "layer-file-type", what);
        c.check(layer.memory_datatype() == m.type->native(), "layer-memory-type", what);
        if (!v.variable)
        {
            c.check(layer.has_no_data_value() == m.no_data.has_value(), "has-no-data-value", what);
            if (m.no_data)
            {
                with_type(*m.type, [&](auto const x) {
                    auto const value = layer.template no_data_value<std::decay_t<decltype(x)>>();
                    c.check(std::memcmp(&value, m.no_data->data(), sizeof(value)) == 0, "no-data-value", what);
                });
                c.count("no-data.compared");
            }
        }
        if (std::ranges::find(m.known, 1) == m.known.end()) return;
        Buffer b(m.bytes.size());
        layer.read(b.data());
        compare(c, b.bytes(), m.bytes, m.known, m.type->size, "cells", what);
    }

    void verify_presence(vh::Case& c, World& w)
    {
        auto const& d = *w.dataset;
        auto const test = [&](std::string const& p, std::string const& s, bool const constant, bool const variable) {
            c.check(ldm::constant::contains_raster(d, p, s) == constant, "contains-constant", p + "/" + s);
            c.check(ldm::variable::contains_raster(d, p, s) == variable, "contains-variable", p + "/" + s);
            c.count("presence.tests");
        };
        for (auto const& v : w.views)
        {
            test(v.phenomenon, v.set, !v.variable, v.variable);
        }
        for (auto const& o : w.others) test(o.phenomenon, o.set, false, false);
        std::string const name = random_name(c.rng) + "?";
        c.throws("presence-absent-phenomenon", name, [&] { ldm::constant::contains_raster(d, name, name); });
        c.throws("presence-absent-phenomenon", name, [&] { ldm::variable::contains_raster(d, name, name); });
        c.throws("open-absent-phenomenon", name, [&] { ldm::constant::open_raster_view(w.dataset, name, name); });
        c.throws("open-absent-phenomenon", name, [&] { ldm::variable::open_raster_view(w.dataset.get(), name, name); });
        for (auto const& v : w.views)
        {
            c.throws("presence-absent-set", name, [&] { ldm::constant::contains_raster(d, v.phenomenon, name); });
            c.throws("presence-absent-set", name, [&] { ldm::variable::contains_raster(d, v.phenomenon, name); });
            c.throws("open-absent-set", name, [&] { ldm::constant::open_raster_view(w.dataset, v.phenomenon, name); });
            c.throws("open-absent-set", name, [&] { ldm::variable::open_raster_view(w.dataset, v.phenomenon, name); });
        }
    }

    void verify(vh::Case& c, World& w)
    {
        verify_presence(c, w);
        for (auto const& m : w.views)
        {
            auto const& set = w.dataset->phenomena()[m.phenomenon].property_sets()[m.set];
            if (m.variable)
            {
                ldm::Clock const clock{m.unit, m.nr_units};
                auto const& stored = set.time_domain().clock();
                c.check(stored.unit() == m.unit && stored.nr_units() == m.nr_units, "clock", m.set);
            }
            with_view(c, w, m, [&](auto& view) {
                verify_view(c, view, m);
                for (auto const& layer : m.layers) verify_layer(c, view.layer(layer.name), m, layer);
            });
        }
        ldm::assert_is_valid(*w.dataset, false);
        c.count("datasets.validated");
    }

    auto number(vh::Rng& rng) -> double
    {
        switch (rng.below(8))
        {
            case 0: return 0;
            case 1: return -0.0;
            case 2: return std::numeric_limits<double>::max();
            case 3: return std::numeric_limits<double>::denorm_min();
            default: return (static_cast<double>(rng.below(2000001)) - 1000000) / 3.0;
        }
    }

    auto some_phenomenon(vh::Case& c, World& w) -> std::string
    {
        if (!w.ids.empty() && c.rng.chance(60))
        {
            auto it = w.ids.begin();
            std::advance(it, c.rng.below(w.ids.size()));
            return it->first;
        }
        for (;;)
        {
            auto name = random_name(c.rng);
            if (!w.ids.contains(name)) return name;
        }
    }

    auto has_set(World const& w, std::string const& phenomenon, std::string const& set) -> bool
    {
        for (auto const& v : w.views) if (v.phenomenon == phenomenon && v.set == set) return true;
        for (auto const& o : w.others) if (o.phenomenon == phenomenon && o.set == set) return true;
        return false;
    }

    void create_view(vh::Case& c, World& w)
    {
        auto& rng = c.rng;
        ViewModel m;
        m.phenomenon = some_phenomenon(c, w);
        // A view is about a single area
        if (w.ids.contains(m.phenomenon) && w.ids[m.phenomenon].size() > 1) return;
        m.set = !w.views.empty() && rng.chance(30) ? rng.pick(w.views).set : random_name(rng);
        m.variable = rng.chance(50);
        m.grid = rng.chance(10) ? lh5::Shape{rng.range(1, 200), rng.range(1, 3)} : lh5::Shape{rng.range(1, 9), rng.range(1, 9)};
        for (auto& x : m.space_box) x = number(rng);
        m.time_box[0] = rng.chance(20) ? 0 : rng.next() >> rng.below(64);
        m.time_box[1] = rng.chance(20) ? m.time_box[0] : rng.next() >> rng.below(64);
        std::ranges::sort(m.time_box);
        m.nr_steps = rng.range(1, 6);
        m.unit = rng.pick(std::vector<ldm::time::Unit>{ldm::time::Unit::second, ldm::time::Unit::minute, ldm::time::Unit::hour, ldm::time::Unit::day,
            ldm::time::Unit::week, ldm::time::Unit::month, ldm::time::Unit::year});
        m.nr_units = rng.range(1, 100);
        bool const present = has_set(w, m.phenomenon, m.set);
        auto const create = [&](auto dataset) {
            auto const check = [&](auto const& view_) {
                auto view = view_;
                m.id = w.ids.contains(m.phenomenon) ? w.ids[m.phenomenon].front() : view.object_id();
                verify_view(c, view, m);
            };
            ldm::Clock const clock{m.unit, m.nr_units};
            if (m.variable) check(ldm::variable::create_raster_view(dataset, m.phenomenon, m.set, clock, m.nr_steps, {m.time_box[0], m.time_box[1]}, m.grid, m.space_box));
            else check(ldm::constant::create_raster_view(dataset, m.phenomenon, m.set, m.grid, m.space_box));
        };
        c.op(m.variable ? "create-stack" : "create-raster", std::format("{}/{} {} {} steps {} {} present {} by {}", m.phenomenon, m.set, to_string(m.grid), m.nr_steps,
            m.time_box[0], m.time_box[1], present, c.index() % 2));
        if (present)
        {
            auto const before = snapshot::of(w.dataset->id());
            c.throws("view-exists", m.set, [&] { create(w.dataset); });
            c.check(before == snapshot::of(w.dataset->id()), "view-exists-changes", m.set);
            c.count("refused");
            return;
        }
        if (c.index() % 2) create(w.dataset);
        else create(w.dataset.get());
        if (!w.ids.contains(m.phenomenon)) w.ids[m.phenomenon] = {m.id};
        m.properties.push_back("space_grid_shape");
        if (m.variable) m.properties.push_back("time_grid_shape");
        w.views.push_back(m);
        c.nontrivial();
    }

    // Things that look like a view, more or less
    void create_other(vh::Case& c, World& w)
    {
        auto& rng = c.rng;
        Other const o{some_phenomenon(c, w), random_name(rng)};
        if (has_set(w, o.phenomenon, o.set)) return;
        auto const what = rng.below(10);
        c.op("create-other", std::format("{}/{} {}", o.phenomenon, o.set, what));
        auto& phenomenon = w.dataset->phenomena().contains(o.phenomenon) ? w.dataset->phenomena()[o.phenomenon] : w.dataset->add_phenomenon(o.phenomenon);
        if (!w.ids.contains(o.phenomenon))
        {
            // One object, whose ID is not the one a view would choose
            std::vector<ldm::ID> ids(rng.chance(75) ? 1 : rng.range(2, 3));
            for (std::size_t i = 0; i < ids.size(); ++i) ids[i] = rng.below(50) + 100 * i;
            phenomenon.object_id().expand(ids.size());
            for (std::size_t i = 0; i < ids.size(); ++i) phenomenon.object_id().write(i, &ids[i]);
            w.ids[o.phenomenon] = ids;
        }
        auto& sets = phenomenon.property_sets();
        ldm::SpaceConfiguration const box{ldm::Mobility::stationary, ldm::SpaceDomainItemType::box};
        ldm::SpaceConfiguration const point{ldm::Mobility::stationary, ldm::SpaceDomainItemType::point};
        auto const shape_type = lh5::native_uint64;
        std::vector<double> const numbers(8, 1.0);
        std::uint64_t const shape[2] = {3, 4};
        auto const add_shape = [&](auto& set, char const* name) {
            auto& value = set.properties().template add<ldm::same_shape::Property>(name, shape_type, lh5::Shape{2}).value();
            value.expand(w.ids[o.phenomenon].size());
            for (std::size_t i = 0; i < w.ids[o.phenomenon].size(); ++i) value.write(i, shape);
        };
        auto const nr = w.ids[o.phenomenon].size();
        auto const fill = [&](auto value) {
            value.expand(nr);
            for (std::size_t i = 0; i < nr; ++i) value.write(i, numbers.data());
        };
        switch (what)
        {
            case 0: sets.add(o.set); break;
            case 1: { auto& s = sets.add(o.set); add_shape(s, "space_grid_shape"); break; }
            case 2: { auto& s = sets.add(o.set, box, lh5::native_float64, 2); fill(s.space_domain().value<ldm::StationarySpaceBox>()); break; }
            case 3: { auto& s = sets.add(o.set, point, lh5::native_float64, 2); fill(s.space_domain().value<ldm::StationarySpacePoint>()); add_shape(s, "space_grid_shape"); break; }
            case 4: { auto& s = sets.add(o.set, box, lh5::native_float64, 2); fill(s.space_domain().value<ldm::StationarySpaceBox>()); add_shape(s, "grid_shape"); break; }
            case 5:
            {
                // The shape has another type
                auto& s = sets.add(o.set, box, lh5::native_float64, 2);
                fill(s.space_domain().value<ldm::StationarySpaceBox>());
                auto& value = s.properties().add<ldm::same_shape::Property>("space_grid_shape", lh5::native_uint32, lh5::Shape{2}).value();
                std::uint32_t const small[2] = {1, 2};
                value.expand(nr);
                for (std::size_t i = 0; i < nr; ++i) value.write(i, small);
                break;
            }
            case 6:
            {
                // Or another shape
                auto& s = sets.add(o.set, box, lh5::native_float64, 2);
                fill(s.space_domain().value<ldm::StationarySpaceBox>());
                auto& value = s.properties().add<ldm::same_shape::Property>("space_grid_shape", shape_type, lh5::Shape{3}).value();
                std::uint64_t const long_[3] = {1, 2, 3};
                value.expand(nr);
                for (std::size_t i = 0; i < nr; ++i) value.write(i, long_);
                break;
            }
            case 7:
            {
                // Per object
                auto& s = sets.add(o.set, box, lh5::native_float64, 2);
                fill(s.space_domain().value<ldm::StationarySpaceBox>());
                auto& value = s.properties().collection<ldm::different_shape::Properties>().add("space_grid_shape", shape_type, 1).value();
                for (auto const id : w.ids[o.phenomenon]) { value.expand(id, lh5::Shape{2}); value[id].write(shape); }
                break;
            }
            case 8:
            {
                // Presence within the box varies
                auto& s = sets.add(o.set, box, lh5::native_float64, 2);
                fill(s.space_domain().value<ldm::StationarySpaceBox>());
                add_shape(s, "space_grid_shape");
                auto& presence = s.properties().add<ldm::same_shape::Property>("presence", shape_type, lh5::Shape{2});
                presence.value().expand(nr);
                for (std::size_t i = 0; i < nr; ++i) presence.value().write(i, shape);
                s.space_domain().set_presence_discretization(presence);
                break;
            }
            default:
            {
                // Positions have another rank or type: the box is that of the objects in general
                auto& s = sets.add(o.set, ldm::TimeConfiguration{ldm::TimeDomainItemType::box}, ldm::Clock{ldm::time::Unit::day, 1});
                std::uint64_t const zero = 0;
                s.object_tracker().active_set_index().expand(1);
                s.object_tracker().active_set_index().write(0, &zero);
                s.object_tracker().active_object_id().expand(1);
                s.object_tracker().active_object_id().write(0, &w.ids[o.phenomenon].front());
                s.object_tracker().active_object_index().expand(1);
                s.object_tracker().active_object_index().write(0, &zero);
                auto value = s.time_domain().value<ldm::TimeBox>();
                std::uint64_t const times[2] = {0, 10};
                value.expand(1);
                value.write(0, times);
                break;
            }
        }
        w.others.push_back(o);
    }

    template<typename Layer>
    void write_cells(vh::Case& c, Layer& layer, ViewModel const& v, LayerModel& m)
    {
        auto& rng = c.rng;
        std::size_t const rows = v.grid[0], cols = v.grid[1], steps = v.variable ? v.nr_steps : 1, size = m.type->size;
        bool const all = rng.chance(30);
        std::size_t const t0 = all ? 0 : rng.below(steps), t1 = all ? steps : rng.chance(70) ? t0 + 1 : rng.range(t0 + 1, steps);
        bool const plane = all || rng.chance(50);
        std::size_t const r0 = plane ? 0 : rng.below(rows), r1 = plane ? rows : rng.range(r0 + 1, rows), c0 = plane ? 0 : rng.below(cols), c1 = plane ? cols : rng.range(c0 + 1, cols);
        Bytes const bytes = random_elements(rng, *m.type, (t1 - t0) * (r1 - r0) * (c1 - c0), false);
        c.op("write", std::format("{}/{} {} steps {}-{} rows {}-{} cols {}-{}", v.set, m.name, m.type->name, t0, t1, r0, r1, c0, c1));
        Buffer b(bytes);
        if constexpr (std::is_same_v<Layer, ldm::Array>)
        {
            if (all) layer.write(b.data());
            else layer.write(lh5::Hyperslab{lh5::Offset{r0, c0}, lh5::Count{r1 - r0, c1 - c0}}, b.data());
        }
        else
        {
            if (all && rng.chance(50)) layer.write(0, b.data());
            else if (all) layer.write(b.data());
            else layer.write(lh5::Hyperslab{lh5::Offset{0, t0, r0, c0}, lh5::Count{1, t1 - t0, r1 - r0, c1 - c0}}, b.data());
        }
        std::size_t i = 0;
        for (auto t = t0; t < t1; ++t)
            for (auto r = r0; r < r1; ++r)
                for (auto k = c0; k < c1; ++k, ++i)
                {
                    std::size_t const cell = (t * rows + r) * cols + k;
                    std::memcpy(m.bytes.data() + cell * size, bytes.data() + i * size, size);
                    m.known[cell] = 1;
                }
        c.count("writes");
    }

    void add_layer(vh::Case& c, World& w, ViewModel& v)
    {
        auto& rng = c.rng;
        LayerModel m;
        bool const other = rng.chance(12);
        m.name = other ? rng.pick(v.properties) : !v.layers.empty() && rng.chance(12) ? rng.pick(v.layers).name : rng.chance(4) ? "time_grid_shape" : random_name(rng);
        m.type = &rng.pick(element_types());
        bool const typed = rng.chance(50);
        bool present = std::ranges::find(v.properties, m.name) != v.properties.end();
        for (auto const& layer : v.layers) present |= layer.name == m.name;
        if (!v.variable && rng.chance(50)) m.no_data = random_elements(rng, *m.type, 1, false);
        c.op("add-layer", std::format("{}/{} {} no-data {} typed {} present {}", v.set, m.name, m.type->name, m.no_data.has_value(), typed, present));
        std::size_t const n = v.grid[0] * v.grid[1] * (v.variable ? v.nr_steps : 1);
        m.known.assign(n, m.no_data ? 1 : 0);
        m.bytes.resize(n * m.type->size);
        if (m.no_data) for (std::size_t i = 0; i < n; ++i) std::memcpy(m.bytes.data() + i * m.type->size, m.no_data->data(), m.type->size);
        with_view(c, w, v, [&](auto& view) {
            using View = std::decay_t<decltype(view)>;
            auto const add = [&]() -> typename View::Layer {
                std::optional<typename View::Layer> result;
                with_type(*m.type, [&](auto x) {
                    using T = decltype(x);
                    if constexpr (is_variable<View>)
                    {
                        if (typed) result = view.template add_layer<T>(m.name);
                        else result = view.add_layer(m.name, m.type->native());
                    }
                    else if (m.no_data)
                    {
                        std::memcpy(&x, m.no_data->data(), sizeof x);
                        if (typed) result = view.template add_layer<T>(m.name, x);
                        else result = view.add_layer(m.name, m.type->native(), m.no_data->data());
                    }
                    else
                    {
                        if (typed) result = view.template add_layer<T>(m.name);
                        else result = view.add_layer(m.name, m.type->native());
                    }
                });
                return *result;
            };
            if (present)
            {
                auto const before = snapshot::of(w.dataset->id());
                c.throws("layer-exists", m.name, add);
                c.check(before == snapshot::of(w.dataset->id()), "layer-exists-changes", m.name);
                verify_view(c, view, v);
                c.count("refused");
                return;
            }
            auto layer = add();
            v.layers.push_back(m);
            verify_view(c, view, v);
            verify_layer(c, layer, v, m);
            if (rng.chance(60)) write_cells(c, layer, v, v.layers.back());
        });
        c.nontrivial();
    }

    void write_layer(vh::Case& c, World& w, ViewModel& v)
    {
        if (v.layers.empty()) return;
        auto& m = v.layers[c.rng.below(v.layers.size())];
        with_view(c, w, v, [&](auto& view) {
            auto layer = view.layer(m.name);
            write_cells(c, layer, v, m);
            if (c.rng.chance(30)) verify_layer(c, layer, v, m);
        });
    }

    void reopen(vh::Case& c, World& w)
    {
        if (w.in_memory) return;
        c.op("reopen");
        w.dataset.reset();
        for (auto const& v : w.views)
        {
            if (v.layers.empty() || c.rng.chance(50)) continue;
            auto const& layer = c.rng.pick(v.layers);
            auto const [id, shape, type] = v.variable ? ldm::variable::probe_raster(w.path, v.phenomenon, v.set, layer.name)
                                                      : ldm::constant::probe_raster(w.path, v.phenomenon, v.set, layer.name);
            c.check(id == v.id && shape == v.grid && type == layer.type->file(), "probe", v.set + "/" + layer.name);
            c.throws("probe-absent", v.set, [&] { v.variable ? ldm::variable::probe_raster(w.path, v.phenomenon, v.set, "absent?") : ldm::constant::probe_raster(w.path, v.phenomenon, v.set, "absent?"); });
            c.count("probes");
        }
        w.dataset = std::make_shared<ldm::Dataset>(ldm::open_dataset(w.path, H5F_ACC_RDWR));
    }

    void pathnames(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const p = random_name(rng), s = random_name(rng), v = random_name(rng);
        std::string path = rng.chance(40) ? "/" : rng.chance(20) ? "./" : "";
        for (auto n = rng.range(0, 4); n > 0; --n) path += (rng.chance(15) ? std::string{".."} : random_name(rng)) + "/";
        path += random_name(rng) + ".lue";
        c.op("pathname", path + " " + p + " " + s + " " + v);
        auto const four = lue::parse_array_pathname(path + "/" + p + "/" + s + "/" + v);
        c.check(four[1] == p && four[2] == s && four[3] == v, "pathname-names", path);
        c.check(std::filesystem::path{four[0]} == std::filesystem::path{path}, "pathname-path", path + " " + four[0]);
        auto const three = lue::parse_array_pathname3(p + "/" + s + "/" + v);
        c.check(three[0] == p && three[1] == s && three[2] == v, "pathname3", p);
        c.throws("pathname-short", p, [&] { lue::parse_array_pathname(p + "/" + s + "/" + v); });
        c.throws("pathname3-short", p, [&] { lue::parse_array_pathname3(p + "/" + s); });
        c.throws("pathname3-long", p, [&] { lue::parse_array_pathname3(path + "/" + p + "/" + s + "/" + v); });
        c.count("pathnames");
    }

    void body(vh::Case& c)
    {
        auto& rng = c.rng;
        World w;
        w.path = c.path("views.lue");
        w.in_memory = rng.chance(30);
        w.dataset = std::make_shared<ldm::Dataset>(w.in_memory ? ldm::create_in_memory_dataset(w.path) : ldm::create_dataset(w.path));
        c.op("create", w.in_memory ? "memory" : "file");
        for (auto n = rng.below(3); n > 0; --n) create_other(c, w);
        while (w.views.empty()) create_view(c, w);
        for (auto n = rng.range(6, 16); n > 0; --n)
        {
            auto const what = rng.below(100);
            if (what < 14) create_view(c, w);
            else if (what < 22) create_other(c, w);
            else if (what < 55 && !w.views.empty()) add_layer(c, w, w.views[rng.below(w.views.size())]);
            else if (what < 82 && !w.views.empty()) write_layer(c, w, w.views[rng.below(w.views.size())]);
            else if (what < 90) reopen(c, w);
            else if (what < 94) pathnames(c);
            else { c.op("verify"); verify(c, w); }
        }
        verify(c, w);
        reopen(c, w);
        verify(c, w);
    }

}  // namespace

auto main(int argc, char** argv) -> int { return vh::run(argc, argv, body); }
