// LINK: lue::data_model
// C16: what was flushed or closed survives the death of the process.
//
// A child process performs a random history on a dataset. At random moments it flushes or closes it, after which it takes down
// everything the dataset contains (obtained through the HDF5 library), goes on with other work, and at a random moment kills itself.
// Another process then opens the file and compares. A file that was still open for writing is marked as such in the file
// by the HDF5 library (file format used by LUE); that mark is cleared first, the way h5clear does.
#include "modops.hpp"
#include "snapshot.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <csignal>

using namespace dm;

namespace {

    // What the child tells the parent. Shared memory
    struct Told
    {
            std::uint64_t hash;
            std::uint64_t modifications, rounds, flushes, closes, elsewhere;
            bool marked;   // File was opened for writing
            bool ready;    // Something durable was taken down
            bool is_lue;
            char how[64];  // Of the last one
            char error[1024];
    };

    void put(std::ostream& stream, std::string const& s)
    {
        std::uint64_t const n = s.size();
        stream.write(reinterpret_cast<char const*>(&n), sizeof n);
        stream.write(s.data(), static_cast<std::streamsize>(n));
    }

    void save(snapshot::Content const& content, std::string const& path)
    {
        std::ofstream stream{path, std::ios::binary | std::ios::trunc};
        for (auto const& [k, v] : content)
        {
            put(stream, k);
            put(stream, v);
        }
    }

    auto load(std::string const& path) -> snapshot::Content
    {
        snapshot::Content r;
        std::ifstream stream{path, std::ios::binary};
        auto get = [&](std::string& s) {
            std::uint64_t n = 0;
            if (!stream.read(reinterpret_cast<char*>(&n), sizeof n)) return false;
            s.resize(n);
            return static_cast<bool>(stream.read(s.data(), static_cast<std::streamsize>(n)));
        };
        std::string k, v;
        while (get(k) && get(v)) r[k] = v;
        return r;
    }

    void clear_mark(std::string const& path)
    {
        hid_t const plist = ::H5Pcreate(H5P_FILE_ACCESS);
        hbool_t const clear = true;
        ::H5Pset(plist, "clear_status_flags", const_cast<hbool_t*>(&clear));
        hid_t const file = ::H5Fopen(path.c_str(), H5F_ACC_RDWR, plist);
        ::H5Pclose(plist);
        if (file >= 0) ::H5Fclose(file);
    }

    // Arrays that are expanded and written over and over
    struct Growing
    {
            std::string name;
            ElementType const* type;
            lh5::Shape shape;
            std::vector<ldm::ID> ids;
            hsize_t nr{0};
    };

    // The history. Ends by killing the process
    [[noreturn]] void child(vh::Case& c, Told& told, std::string const& path, std::string const& expected_path)
    {
        auto& rng = c.rng;
        dsgen::Options options;
        options.max_phenomena = 1;
        options.max_sets = 2;
        options.max_properties = 2;
        dsgen::Builder builder{c, options};
        std::optional<ldm::Dataset> dataset;
        auto mark = [&](char const* how) {
            std::strncpy(told.how, how, sizeof told.how - 1);
            told.ready = true;
            told.hash = c.hash();
        };
        dataset.emplace(ldm::create_dataset(path, rng.chance(50) ? "description" : ""));
        auto const growing_name = std::string{"growing"};
        dataset->add_phenomenon(growing_name).property_sets().add("set");
        std::vector<Growing> growing;
        auto set = [&]() -> ldm::PropertySet& { return dataset->phenomena()[growing_name].property_sets()["set"]; };
        auto modify = [&] {
            told.modifications += 1;
            auto const k = rng.below(100);
            if (k < 15) builder.add_phenomenon(*dataset);
            else if (k < 30)
            {
                auto const all = modops::modifications(builder, *dataset);
                auto const& m = all[rng.below(all.size())];
                // Content that was not consistent is not touched by others
                if (m.kind == "add-phenomenon" || m.kind == "add-universe" || m.kind == "write-attribute" || m.kind.starts_with("write-") || m.kind == "fill-value")
                {
                    c.op(m.kind, m.detail);
                    try { m.apply(); } catch (std::exception const&) {}  // Name might be there already
                }
            }
            else if (k < 45 || growing.empty())
            {
                Growing g;
                g.name = "p" + std::to_string(growing.size());
                g.type = &rng.pick(element_types());
                bool const different = rng.chance(40);
                g.shape = random_shape(rng, different ? 1 : 0, 3, rng.chance(10) ? 40 : 5, 30000);
                c.op("add", std::format("{} {} {}", g.name, g.type->name, to_string(g.shape)));
                if (different) { set().properties().add(g.name, g.type->native(), g.shape.size()); g.ids.push_back(1000); }
                else if (g.shape.empty()) set().properties().add(g.name, g.type->native());
                else set().properties().add(g.name, g.type->native(), g.shape);
                growing.push_back(g);
            }
            else
            {
                auto& g = growing[rng.below(growing.size())];
                std::size_t const size = product(g.shape) * g.type->size;
                c.op("grow", g.name);
                if (g.ids.empty())
                {
                    auto& value = set().properties().collection<ldm::same_shape::Properties>()[g.name].value();
                    if (g.nr == 0 || rng.chance(50)) { value.expand(1); g.nr += 1; }
                    auto const at = rng.chance(60) ? g.nr - 1 : rng.below(g.nr);
                    Buffer b{random_bytes(rng, size)};
                    value.write(at, b.data());
                }
                else
                {
                    auto& value = set().properties().collection<ldm::different_shape::Properties>()[g.name].value();
                    if (g.ids.size() == 1 || rng.chance(50)) { g.ids.push_back(g.ids.back() + 1); value.expand(g.ids.back(), g.shape); }
                    auto array = value[g.ids[rng.range(1, g.ids.size() - 1)]];
                    Buffer b{random_bytes(rng, size)};
                    array.write(b.data());
                }
            }
        };
        // Work that does not concern the dataset
        auto elsewhere = [&](bool const closed) {
            auto const n = rng.below(4);
            for (std::uint64_t i = 0; i < n; ++i)
            {
                told.elsewhere += 1;
                switch (rng.below(3))
                {
                    case 0: { auto other = ldm::create_dataset(path + ".other"); other.add_phenomenon("p"); break; }
                    case 1:
                        // Reading what is there is no modification
                        if (closed) { auto again = ldm::open_dataset(path); snapshot::of(again.id()); }
                        else snapshot::of(dataset->id());
                        break;
                    default: { auto other = ldm::create_in_memory_dataset(path + ".memory"); other.add_phenomenon("p"); break; }
                }
            }
        };
        auto const rounds = rng.range(1, 4);
        for (std::uint64_t round = 0; round < rounds; ++round)
        {
            told.rounds += 1;
            auto const n = rng.range(1, 8);
            for (std::uint64_t i = 0; i < n; ++i) modify();
            bool const last = round + 1 == rounds;
            // Other handles, to parts of the dataset
            std::vector<ldm::Phenomenon> handles;
            if (rng.chance(40)) handles.push_back(dataset->phenomena()[growing_name]);
            if (rng.chance(50))
            {
                auto const content = snapshot::of(dataset->id());
                auto const how = rng.below(3);
                switch (how)
                {
                    case 0: c.op("flush"); dataset->flush(); break;
                    case 1: { c.op("flush-copy"); ldm::Dataset const copy{*dataset}; copy.flush(); break; }
                    default: { c.op("flush-file"); lh5::File const file{static_cast<lh5::File const&>(*dataset)}; file.flush(); break; }
                }
                told.flushes += 1;
                told.marked = true;
                save(content, expected_path);
                mark(how == 0 ? "flush" : how == 1 ? "flush-copy" : "flush-file");
                elsewhere(false);
                if (last) ::raise(SIGKILL);
            }
            else
            {
                auto const content = snapshot::of(dataset->id());
                c.op("close");
                // In any order
                if (rng.chance(50)) { handles.clear(); dataset.reset(); } else { dataset.reset(); handles.clear(); }
                told.closes += 1;
                told.marked = false;
                save(content, expected_path);
                mark("close");
                elsewhere(true);
                if (last) ::raise(SIGKILL);
                told.marked = true;
                dataset = ldm::open_dataset(path, H5F_ACC_RDWR);
            }
            told.ready = false;
        }
        ::raise(SIGKILL);
        ::_exit(1);
    }

    // The same, for files which are no LUE datasets: nothing is kept open but the file
    [[noreturn]] void bare_child(vh::Case& c, Told& told, std::string const& path, std::string const& expected_path)
    {
        auto& rng = c.rng;
        std::optional<lh5::File> file;
        file.emplace(lh5::create_file(path));
        std::vector<std::string> groups;
        auto parent = [&]() -> lh5::Group { return groups.empty() || rng.chance(30) ? lh5::Group{*file} : lh5::Group{*file, rng.pick(groups)}; };
        std::uint64_t nr = 0;
        auto modify = [&] {
            told.modifications += 1;
            auto const name = std::format("{}{}", random_name(rng), nr++);
            switch (rng.below(4))
            {
                case 0: c.op("create-group", name); groups.push_back(name); lh5::create_group(*file, name).attributes().write<std::int32_t>("nr", static_cast<std::int32_t>(nr)); break;
                case 1: c.op("write-attribute", name); parent().attributes().write<std::string>(name, random_name(rng)); break;
                case 2: c.op("create-soft-link", name); parent().create_soft_link(file->id(), name); break;
                default:
                {
                    auto const& type = rng.pick(element_types());
                    auto const shape = random_shape(rng, 0, 3, 5, 5000);
                    c.op("create-value", std::format("{} {} {}", name, type.name, to_string(shape)));
                    auto group = parent();
                    auto value = ldm::same_shape::create_value(group, name, type.native(), shape);
                    auto const n = rng.range(1, 3);
                    value.expand(n);
                    Buffer b{random_bytes(rng, n * product(shape) * type.size)};
                    static_cast<ldm::Array&>(value).write(b.data());
                    break;
                }
            }
        };
        auto const rounds = rng.range(1, 4);
        for (std::uint64_t round = 0; round < rounds; ++round)
        {
            told.rounds += 1;
            auto const n = rng.range(1, 6);
            for (std::uint64_t i = 0; i < n; ++i) modify();
            bool const flush = rng.chance(70);
            {
                auto const content = snapshot::of(file->id());
                save(content, expected_path);
            }
            // Not more than what the history says may be open
            std::vector<lh5::Group> handles;
            if (!groups.empty() && rng.chance(30)) handles.emplace_back(*file, rng.pick(groups));
            c.op(flush ? "flush" : "close", std::format("file, {} open", handles.size()));
            if (flush)
            {
                if (rng.chance(50)) file->flush();
                else { lh5::File const copy{*file}; copy.flush(); }
                told.flushes += 1;
            }
            else { handles.clear(); file.reset(); told.closes += 1; }
            told.marked = flush;
            std::strncpy(told.how, flush ? "flush-bare" : "close-bare", sizeof told.how - 1);
            told.ready = true;
            told.hash = c.hash();
            if (round + 1 == rounds) ::raise(SIGKILL);
            handles.clear();
            if (!flush) file.emplace(path, H5F_ACC_RDWR);
            told.marked = true;
            told.ready = false;
        }
        ::_exit(1);
    }

    void run(vh::Case& c)
    {
        bool const bare = c.rng.chance(30);
        std::string const path = c.path("durable.lue"), expected_path = c.path("expected");
        auto* told = static_cast<Told*>(::mmap(nullptr, sizeof(Told), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        c.check(told != MAP_FAILED, "harness", "no shared memory");
        std::memset(told, 0, sizeof *told);
        ::fflush(nullptr);
        auto const pid = ::fork();
        if (pid == 0)
        {
            try
            {
                if (bare) bare_child(c, *told, path, expected_path); else child(c, *told, path, expected_path);
            }
            catch (std::exception const& e)
            {
                std::strncpy(told->error, e.what(), sizeof told->error - 1);
            }
            catch (vh::Violation const& v)
            {
                std::strncpy(told->error, (v.key + ": " + v.message).c_str(), sizeof told->error - 1);
            }
            ::_exit(1);
        }
        c.check(pid > 0, "harness", "cannot fork");
        int status = 0;
        while (::waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        Told const t = *told;
        ::munmap(told, sizeof(Told));
        c.check(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL, "child-ended", std::format("the process that writes ended before it was killed: status {} {}", status, t.error));
        c.check(t.ready, "harness", "nothing was made durable");
        c.op("killed", std::format("after {}: {} rounds, {} modifications, {:x}", t.how, t.rounds, t.modifications, t.hash));
        c.count("modifications", t.modifications);
        c.count("flushes", t.flushes);
        c.count("closes", t.closes);
        c.count("work.elsewhere", t.elsewhere);
        c.count(std::string{"killed.after-"} + t.how);
        c.nontrivial();
        auto const expected = load(expected_path);
        c.check(!expected.empty(), "harness", "no content to compare with");
        if (t.marked) clear_mark(path);
        auto const observed = snapshot::of_file(path);
        auto const difference = snapshot::difference(expected, observed);
        c.count("objects.compared", expected.size());
        c.check(difference.empty(), std::string{"lost:"} + t.how, std::format("content after the process was killed after a {} differs: {}", t.how, difference));
        if (bare)
        {
            lh5::File{path, H5F_ACC_RDWR}.attributes().write<std::string>("after the death of the process", "text");
            c.check(lh5::File{path}.attributes().read<std::string>("after the death of the process") == "text", "not-writable", "attribute was not added");
            return;
        }
        // And LUE can use it, also to write to
        {
            auto dataset = ldm::open_dataset(path);
            c.check(dataset.phenomena().contains("growing"), "lost-phenomenon", "phenomenon is gone");
        }
        {
            auto dataset = ldm::open_dataset(path, H5F_ACC_RDWR);
            dataset.add_phenomenon("after the death of the process");
        }
        auto dataset = ldm::open_dataset(path);
        c.check(dataset.phenomena().contains("after the death of the process"), "not-writable", "phenomenon was not added");
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
