// LINK: lue::data_model_hl
// FRAMEWORK
// C40: reads and writes of arrays in LUE datasets
//
// LUE's framework runs on the stand-in for HPX. All localities share this process; where LUE keeps something per process, it is
// kept per locality here. A history of reads and writes is started, in some order, without waiting for them. What they do to files
// is observed, too.
#include "tests.hpp"
#include "lue/framework/io/serializer.hpp"
#include "lue/framework/io/lue.hpp"
#include <map>

namespace lue {

    template<typename Key, typename Generation>
    class LocalSerializer
    {
        public:
            auto promise_for(Key const& key, Generation const generation) { Alone alone{}; return here().promise_for(key, generation); }
            auto contains(Key const& key, Generation const generation) { Alone alone{}; return here().contains(key, generation); }
            auto when_predecessor_done(Key const& key, Generation const generation) { Alone alone{}; return here().when_predecessor_done(key, generation); }
            auto when_done(Key const& key, Generation const generation) { Alone alone{}; return here().when_done(key, generation); }

        private:
            // A std::mutex is locked: a task that is switched while it is locked blocks the stand-in
            struct Alone
            {
                    Alone(): percentage{std::exchange(vhpx::scheduler().settings.yield_percentage, 0)} {}
                    ~Alone() { vhpx::scheduler().settings.yield_percentage = percentage; }
                    int percentage;
            };

            auto here() -> Serializer<Key, Generation>& { return _serializers[hpx::get_locality_id()]; }

            std::map<std::uint32_t, Serializer<Key, Generation>> _serializers;
    };

}  // namespace lue

#define Serializer LocalSerializer
#include "io/source/lue.cpp"
#undef Serializer
#include "io/source/dataset.cpp"
#include "lue/framework/algorithm/definition/arithmetic.hpp"
#include "lue/framework/io/from_lue.hpp"
#include "lue/framework/io/to_lue.hpp"
#include "lue/data_model/hl/raster_view.hpp"
#include <dlfcn.h>
#include <hdf5.h>

namespace {

    namespace ldm = lue::data_model;

    // What is done to files, in time
    struct Open
    {
            std::uint32_t locality;
            bool write;
            std::string path;
    };

    struct Monitor
    {
            bool enabled{false};
            std::map<hid_t, Open> open;
            std::string violation, message;
            std::uint64_t nr_reads{0}, nr_writes{0}, nr_opens{0}, nr_shared_reads{0};

            void fail(std::string const& key, std::string const& text)
            {
                if (violation.empty())
                {
                    violation = key;
                    message = text;
                }
            }
    };

    auto monitor() -> Monitor&
    {
        static Monitor m;
        return m;
    }

    template<typename F>
    auto real(char const* name) -> F*
    {
        return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
    }

    void others_run()
    {
        if (monitor().enabled) vhpx::scheduler().maybe_yield();
    }

}  // Anonymous namespace

#pragma GCC visibility push(default)
extern "C" {

hid_t H5Fopen(char const* pathname, unsigned flags, hid_t access)
{
    static auto* const f = real<hid_t(char const*, unsigned, hid_t)>("H5Fopen");
    others_run();
    Monitor& m = monitor();
    if (m.enabled)
    {
        bool const write = (flags & H5F_ACC_RDWR) != 0;
        auto const here = hpx::get_locality_id();
        for (auto const& [id, o] : m.open)
        {
            if (o.path != pathname) continue;
            if (o.locality != here && (o.write || write))
                m.fail("open-in-other-process", std::format("locality {} opens the dataset for {} while locality {} has it open for {}", here, write ? "writing" : "reading", o.locality, o.write ? "writing" : "reading"));
            else if (o.write != write)
                m.fail("open-for-reading-and-writing", std::format("the dataset is opened for {} while it is open for {}", write ? "writing" : "reading", o.write ? "writing" : "reading"));
            if (!write && !o.write) ++m.nr_shared_reads;
        }
        ++m.nr_opens;
        hid_t const result = f(pathname, flags, access);
        if (result >= 0) m.open[result] = {here, write, pathname};
        others_run();
        return result;
    }
    return f(pathname, flags, access);
}

herr_t H5Fclose(hid_t id)
{
    static auto* const f = real<herr_t(hid_t)>("H5Fclose");
    others_run();
    auto const result = f(id);
    // Others may still refer to it
    if (H5Iis_valid(id) <= 0) monitor().open.erase(id);
    others_run();
    return result;
}

herr_t H5Dread(hid_t dataset, hid_t type, hid_t memory, hid_t file, hid_t transfer, void* buffer)
{
    static auto* const f = real<herr_t(hid_t, hid_t, hid_t, hid_t, hid_t, void*)>("H5Dread");
    others_run();
    auto const result = f(dataset, type, memory, file, transfer, buffer);
    if (monitor().enabled) ++monitor().nr_reads;
    others_run();
    return result;
}

herr_t H5Dwrite(hid_t dataset, hid_t type, hid_t memory, hid_t file, hid_t transfer, void const* buffer)
{
    static auto* const f = real<herr_t(hid_t, hid_t, hid_t, hid_t, hid_t, void const*)>("H5Dwrite");
    others_run();
    auto const result = f(dataset, type, memory, file, transfer, buffer);
    if (monitor().enabled) ++monitor().nr_writes;
    others_run();
    return result;
}
}
#pragma GCC visibility pop

namespace {

    using namespace vh;

    struct Set
    {
            std::string name;
            Shape2 shape;
            int nr_steps;  // 0: constant
            ldm::ID object_id;
            std::vector<std::string> layers;
    };

    struct File
    {
            std::string path;
            std::vector<Set> sets;
    };

    std::uint64_t number{0};

    // Values of a layer at a moment
    using Key = std::tuple<std::size_t, std::size_t, std::size_t, int>;

    template<typename E>
    auto create_file(Case& c, std::string const& path) -> File
    {
        File file{path, {}};
        auto dataset = std::make_shared<ldm::Dataset>(ldm::create_dataset(path));
        int const nr_sets = c.rng.range(1, 2);
        for (int s = 0; s < nr_sets; ++s)
        {
            Set set{std::format("set{}", s), {}, c.rng.chance(60) ? int(c.rng.range(1, 4)) : 0, 0, {}};
            do
                for (auto& e : set.shape) e = c.rng.range(1, 16);
            while (set.shape[0] * set.shape[1] < 3);
            auto const nr_layers = c.rng.range(1, 2);
            lue::hdf5::Shape const shape{static_cast<hsize_t>(set.shape[0]), static_cast<hsize_t>(set.shape[1])};
            std::string const phenomenon = "area";
            auto add = [&](auto view) {
                set.object_id = view.object_id();
                for (std::uint64_t l = 0; l < nr_layers; ++l)
                {
                    set.layers.push_back(std::format("layer{}", l));
                    view.template add_layer<E>(set.layers.back());
                }
            };
            if (set.nr_steps == 0)
                add(ldm::constant::create_raster_view(dataset, phenomenon, set.name, shape, {0, 0, 10, 10}));
            else
                add(ldm::variable::create_raster_view(dataset, phenomenon, set.name, ldm::Clock{ldm::time::Unit::day, 1}, set.nr_steps,
                                                      {0, static_cast<ldm::Count>(set.nr_steps)}, shape, {0, 0, 10, 10}));
            c.op("create", std::format("{} {} steps={} layers={}", set.name, text(set.shape), set.nr_steps, nr_layers));
            file.sets.push_back(set);
        }
        return file;
    }

    auto name_of(File const& file, Key const& k) -> std::string
    {
        Set const& set = file.sets[std::get<1>(k)];
        return std::format("{}/area/{}/{}", file.path, set.name, set.layers[std::get<2>(k)]);
    }

    // A read that was started, and what it must give
    template<typename E>
    struct Read
    {
            Array2<E> array;
            Grid<E> expected;
            std::string what;
            Shape2 partition;
    };

    template<typename E>
    void check_read(Case& c, Read<E> const& r)
    {
        VH_CHECK(c, r.array.shape() == r.expected.shape, "array-shape:" + r.what, text(r.array.shape()));
        Grid<E> seen{r.expected.shape};
        Grid<int> covered{r.expected.shape};
        for (auto const& partition : r.array.partitions())
        {
            partition.wait();
            auto const offset = partition.offset(hpx::launch::sync);
            auto const data = partition.data(hpx::launch::sync);
            for (std::int64_t i = 0; i < data.shape()[0]; ++i)
                for (std::int64_t j = 0; j < data.shape()[1]; ++j)
                {
                    VH_CHECK(c, seen.inside(offset[0] + i, offset[1] + j), "outside:" + r.what, std::format("partition at {}", text(offset)));
                    seen(offset[0] + i, offset[1] + j) = data(i, j);
                    ++covered(offset[0] + i, offset[1] + j);
                }
        }
        for (std::int64_t i = 0; i < seen.shape[0]; ++i)
            for (std::int64_t j = 0; j < seen.shape[1]; ++j)
            {
                VH_CHECK(c, covered(i, j) == 1, "covered:" + r.what, std::format("cell {} {}", i, j));
                VH_CHECK(c, same(seen(i, j), r.expected(i, j)), "read:" + r.what,
                         std::format("cell ({}, {}) of {} in {} is {} instead of {}", i, j, text(seen.shape), text(r.partition), show(seen(i, j)), show(r.expected(i, j))));
            }
        c.count("cells.compared", seen.values.size());
    }

    // The file is closed, and contains what it should
    template<typename E>
    void check_file(Case& c, File const& file, std::map<Key, Grid<E>> const& model, std::size_t const f, std::string const& when)
    {
        monitor().enabled = false;
        VH_CHECK(c, monitor().open.empty(), "still-open:" + when, "a dataset has not been closed");
        VH_CHECK(c, H5Fget_obj_count(static_cast<hid_t>(H5F_OBJ_ALL), H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP) == 0, "still-open:" + when, "something in a dataset has not been closed");
        {
            hid_t const id = H5Fopen(file.path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
            VH_CHECK(c, id >= 0, "cannot-open:" + when, "dataset cannot be opened");
            H5Fclose(id);
        }
        auto dataset = std::make_shared<ldm::Dataset>(ldm::open_dataset(file.path));
        for (auto const& [k, grid] : model)
        {
            if (std::get<0>(k) != f) continue;
            Set const& set = file.sets[std::get<1>(k)];
            int const t = std::get<3>(k);
            auto const& properties = dataset->phenomena()["area"].property_sets()[set.name].properties();
            std::string const& layer = set.layers[std::get<2>(k)];
            Grid<E> seen{grid.shape};
            auto const extent0 = static_cast<hsize_t>(grid.shape[0]), extent1 = static_cast<hsize_t>(grid.shape[1]);
            if (set.nr_steps == 0)
            {
                auto const array = properties.collection<ldm::different_shape::Properties>()[layer].value()[set.object_id];
                array.read(lue::hdf5::native_datatype<E>(), lue::hdf5::Hyperslab{{0, 0}, {extent0, extent1}}, seen.values.data());
            }
            else
            {
                auto const array = properties.collection<ldm::different_shape::constant_shape::Properties>()[layer].value()[set.object_id];
                array.read(lue::hdf5::native_datatype<E>(), lue::hdf5::Hyperslab{{0, static_cast<hsize_t>(t), 0, 0}, {1, 1, extent0, extent1}}, seen.values.data());
            }
            for (std::int64_t i = 0; i < grid.shape[0]; ++i)
                for (std::int64_t j = 0; j < grid.shape[1]; ++j)
                    VH_CHECK(c, same(seen(i, j), grid(i, j)), "content:" + when,
                             std::format("cell ({}, {}) of {} at {} is {} instead of {}", i, j, layer, t, show(seen(i, j)), show(grid(i, j))));
            c.count("cells.compared", grid.values.size());
        }
        monitor().enabled = true;
    }

    template<typename E>
    void history(Case& c, std::string const&)
    {
        Monitor& m = monitor();
        m = {};
        std::vector<File> files;
        auto const nr_files = c.rng.chance(25) ? 2 : 1;
        for (int f = 0; f < nr_files; ++f) files.push_back(create_file<E>(c, c.path(std::format("d{}.lue", number++))));
        int const nr_localities = c.rng.range(1, 3);
        with_hpx(c, nr_localities, [&] {
            m.enabled = true;
            std::map<Key, Grid<E>> model;
            std::vector<Read<E>> reads;
            std::vector<std::pair<std::size_t, hpx::future<void>>> writes;

            auto random_key = [&] {
                std::size_t const f = c.rng.below(files.size()), s = c.rng.below(files[f].sets.size());
                Set const& set = files[f].sets[s];
                return Key{f, s, c.rng.below(set.layers.size()), set.nr_steps == 0 ? 0 : int(c.rng.below(set.nr_steps))};
            };
            auto write_array = [&](Key const& k, Array2<E> const& array, Grid<E> const& grid) {
                File const& file = files[std::get<0>(k)];
                Set const& set = file.sets[std::get<1>(k)];
                writes.emplace_back(std::get<0>(k), set.nr_steps == 0 ? lue::to_lue(array, name_of(file, k), set.object_id)
                                                                      : lue::to_lue(array, name_of(file, k), set.object_id, lue::Index(std::get<3>(k))));
                model[k] = grid;
                c.count(set.nr_steps == 0 ? "io.writes-constant" : "io.writes-variable");
            };
            // In LUE, each locality has at least one partition
            auto partition_shape = [&](Shape2 const& shape) {
                Shape2 partition;
                int tries = 0;
                do
                    for (int d = 0; d < 2; ++d) partition[d] = ++tries > 20 ? 1 : c.rng.range(std::max<std::int64_t>(1, shape[d] / 4), shape[d]);
                while ((shape[0] / partition[0]) * (shape[1] / partition[1]) < nr_localities);
                return partition;
            };
            auto write = [&](Key const& k) {
                Set const& set = files[std::get<0>(k)].sets[std::get<1>(k)];
                Layout l;
                l.shape = set.shape;
                l.partition = partition_shape(l.shape);
                for (int d = 0; d < 2; ++d) l.nr[d] = l.shape[d] / l.partition[d];
                bool const blocks = c.rng.chance(50);
                for (std::int64_t p = 0; p < l.nr_partitions(); ++p)
                    l.locality.push_back(blocks ? p * nr_localities / l.nr_partitions() : p % nr_localities);
                auto const grid = random_grid<E>(c, l.shape, [&] { return random_value<E>(c); });
                c.op("write", std::format("file={} set={} layer={} t={} {}", std::get<0>(k), std::get<1>(k), std::get<2>(k), std::get<3>(k), l.text()));
                write_array(k, make_array(c, l, grid), grid);
            };
            auto read = [&](Key const& k, bool const whole) -> Read<E> {
                File const& file = files[std::get<0>(k)];
                Set const& set = file.sets[std::get<1>(k)];
                Grid<E> const& grid = model.at(k);
                Shape2 start{0, 0}, shape{set.shape}, partition;
                if (!whole)
                    do
                        for (int d = 0; d < 2; ++d)
                        {
                            start[d] = c.rng.below(set.shape[d]);
                            shape[d] = c.rng.range(1, set.shape[d] - start[d]);
                        }
                    while (shape[0] * shape[1] < nr_localities);
                partition = partition_shape(shape);
                Grid<E> expected{shape};
                for (std::int64_t i = 0; i < shape[0]; ++i)
                    for (std::int64_t j = 0; j < shape[1]; ++j) expected(i, j) = grid(start[0] + i, start[1] + j);
                std::string const what = std::string{set.nr_steps == 0 ? "constant" : "variable"} + (whole ? "-whole" : "-hyperslab");
                c.op("read", std::format("file={} set={} layer={} t={} start={} {} in {}", std::get<0>(k), std::get<1>(k), std::get<2>(k), std::get<3>(k), text(start), text(shape), text(partition)));
                c.count("io.reads-" + what);
                lue::hdf5::Hyperslab const slab{{hsize_t(start[0]), hsize_t(start[1])}, {hsize_t(shape[0]), hsize_t(shape[1])}};
                auto const name = name_of(file, k);
                lue::Index const t = std::get<3>(k);
                lue::Shape<lue::Count, 2> const p{partition};
                Array2<E> array = set.nr_steps == 0 ? (whole ? lue::from_lue<E>(name, p, set.object_id) : lue::from_lue<E>(name, slab, p, set.object_id))
                                                    : (whole ? lue::from_lue<E>(name, p, set.object_id, t) : lue::from_lue<E>(name, slab, p, set.object_id, t));
                return {std::move(array), std::move(expected), what, partition};
            };
            auto wait_all = [&] {
                for (auto& [f, w] : writes) w.get();
                writes.clear();
                for (auto const& r : reads) check_read(c, r);
                reads.clear();
            };

            auto const n = c.rng.range(2, 14);
            for (std::uint64_t i = 0; i < n; ++i)
            {
                auto const k = random_key();
                bool const known = model.contains(k);
                switch (c.rng.below(known ? 12 : 4))
                {
                    case 0: case 1: case 2: case 3: write(k); break;
                    case 4: case 5: case 6: reads.push_back(read(k, true)); break;
                    case 7: case 8: reads.push_back(read(k, false)); break;
                    case 9:
                    {
                        // What is read is written elsewhere
                        auto r = read(k, true);
                        auto const to = random_key();
                        Set const& set = files[std::get<0>(to)].sets[std::get<1>(to)];
                        if (set.shape == r.expected.shape)
                        {
                            c.op("copy", std::format("file={} set={} layer={} t={}", std::get<0>(to), std::get<1>(to), std::get<2>(to), std::get<3>(to)));
                            c.count("io.copies");
                            write_array(to, r.array, r.expected);
                        }
                        reads.push_back(std::move(r));
                        break;
                    }
                    case 10:
                        if (!writes.empty())
                        {
                            // A write that is done is done, and those before it are, too
                            c.op("wait", "");
                            auto const f = writes.back().first;
                            writes.back().second.get();
                            bool const only = std::none_of(writes.begin(), writes.end(), [&](auto const& w) { return w.first != f; });
                            writes.pop_back();
                            if (reads.empty() && only)
                            {
                                check_file(c, files[f], model, f, "written");
                                c.count("io.checked-when-written");
                            }
                        }
                        break;
                    case 11:
                        c.op("wait-all", "");
                        wait_all();
                        break;
                }
                if (c.rng.chance(20)) hpx::this_thread::yield();
                VH_CHECK(c, m.violation.empty(), m.violation, m.message);
            }
            c.op("end", "");
            wait_all();
            VH_CHECK(c, m.violation.empty(), m.violation, m.message);
            for (std::size_t f = 0; f < files.size(); ++f) check_file(c, files[f], model, f, "end");
        });
        c.count("io.opens", m.nr_opens);
        c.count("io.concurrent-reads", m.nr_shared_reads);
        m.enabled = false;
        for (auto const& file : files) std::filesystem::remove(file.path);
    }

}  // Anonymous namespace

VH_TEST("history-int32", history<std::int32_t>(c, n))
VH_TEST("history-double", history<double>(c, n))
VH_TEST("history-uint8", history<std::uint8_t>(c, n))

int main(int argc, char** argv)
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    return vh::run_tests(argc, argv);
}
