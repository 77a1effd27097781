// LINK: lue::data_model
// C15: files are opened as asked and never change by reading.
//
// Oracle: the bytes, size and modification time of the file, the entries of the directory it is in, and what the file system
// itself tells about names.
#include "modops.hpp"
#include "snapshot.hpp"
#include "walk.hpp"
#include <sys/stat.h>

using namespace dm;

namespace {

    namespace fs = std::filesystem;

    struct Print
    {
            std::string bytes;
            struct ::stat status{};

            explicit Print(std::string const& path): bytes{vh::read_file(path)} { ::stat(path.c_str(), &status); }

            auto operator==(Print const& o) const -> bool
            {
                return bytes == o.bytes && status.st_size == o.status.st_size && status.st_ino == o.status.st_ino && status.st_mode == o.status.st_mode &&
                       status.st_mtim.tv_sec == o.status.st_mtim.tv_sec && status.st_mtim.tv_nsec == o.status.st_mtim.tv_nsec;
            }
    };

    auto entries(std::string const& directory) -> std::set<std::string>
    {
        std::set<std::string> r;
        for (auto const& e : fs::directory_iterator(directory)) r.insert(e.path().filename());
        return r;
    }

    void reading(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("data.lue");
        dsgen::Options options;
        options.max_phenomena = 2;
        dsgen::Builder builder{c, options};
        {
            auto dataset = ldm::create_dataset(path, rng.chance(50) ? "some dataset" : "");
            builder.build(dataset);
        }
        Print const before{path};
        auto const before_entries = entries(c.work());
        auto const content = snapshot::of_file(path);
        // Read only
        {
            std::optional<ldm::Dataset> opened;
            switch (rng.below(5))
            {
                case 4: c.op("open", "properties"); opened.emplace(lh5::File{path, lh5::File::AccessPropertyList{}}); break;
                case 0: c.op("open", "function"); opened = ldm::open_dataset(path); break;
                case 1: c.op("open", "class"); opened.emplace(path); break;
                case 2: c.op("open", "flags"); opened.emplace(path, H5F_ACC_RDONLY); break;
                default: c.op("open", "file"); opened.emplace(lh5::File{path}); break;
            }
            auto& dataset = *opened;
            c.check(dataset.intent() == H5F_ACC_RDONLY, "intent", "dataset that was opened for reading has another intent");
            c.check(dataset.pathname() == path, "pathname", dataset.pathname());
            auto const steps = rng.range(3, 12);
            for (std::uint64_t step = 0; step < steps; ++step)
            {
                switch (rng.below(6))
                {
                    case 0: c.op("walk"); walk::walk(c, dataset, true); break;
                    case 1:
                    {
                        c.op("validate");
                        lh5::Issues issues;
                        ldm::validate(dataset, issues);
                        break;
                    }
                    case 2: c.op("flush"); try { dataset.flush(); } catch (std::exception const&) {} break;
                    case 3:
                    {
                        c.op("second-handle");
                        auto other = ldm::open_dataset(path);
                        walk::walk(c, other, true);
                        break;
                    }
                    default:
                    {
                        auto const all = modops::modifications(builder, dataset);
                        // Rare kinds are picked as often
                        std::map<std::string, std::vector<modops::Modification const*>> kinds;
                        for (auto const& m : all) kinds[m.kind].push_back(&m);
                        auto it = kinds.begin();
                        std::advance(it, rng.below(kinds.size()));
                        auto const* m = it->second[rng.below(it->second.size())];
                        c.op("modify-" + m->kind, m->detail);
                        c.throws("modification-accepted:" + m->kind, m->kind + " " + m->detail + " on a dataset that was opened for reading", m->apply);
                        c.count("modifications.refused");
                        break;
                    }
                }
            }
            auto const difference = snapshot::difference(content, snapshot::of(dataset.id()));
            c.check(difference.empty(), "content-in-memory", "read-only dataset changed: " + difference);
        }
        Print const after{path};
        c.count("files.compared");
        c.count("bytes.compared", before.bytes.size());
        c.check(before == after, "file-changed", "the file changed although it was only opened for reading");
        c.check(entries(c.work()) == before_entries, "directory-changed", "entries of the directory changed");
        c.nontrivial();
        // The same kind of modification is possible if the file is opened for writing
        {
            auto dataset = ldm::open_dataset(path, H5F_ACC_RDWR);
            c.check(dataset.intent() == H5F_ACC_RDWR, "intent", "dataset that was opened for writing has another intent");
            auto const all = modops::modifications(builder, dataset);
            auto const& m = all[rng.below(all.size())];
            c.op("modify-writable-" + m.kind, m.detail);
            m.apply();
            c.count("modifications.accepted");
        }
        auto const difference = snapshot::difference(content, snapshot::of_file(path));
        c.count(difference.empty() ? "modifications.without-effect" : "modifications.effective");
    }

    // Names in the file system, of all kinds
    void names(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const root = c.path("names");
        fs::create_directories(root);
        fs::create_directories(root + "/directory");
        std::vector<std::string> pool{root + "/a.lue", root + "/b", root + "/é 中.lue", root + "/directory/c.lue", root + "/missing/d.lue", root + "/directory", root + "/link", root + "/dangling"};
        fs::create_symlink("a.lue", root + "/link");
        fs::create_symlink("nowhere/at.all", root + "/dangling");
        std::map<std::string, ldm::Dataset> open;
        auto const steps = rng.range(8, 40);
        for (std::uint64_t step = 0; step < steps; ++step)
        {
            auto const& name = rng.pick(pool);
            bool const existed = fs::is_regular_file(name);
            bool const is_open = [&] {
                for (auto const& [n, d] : open) { std::error_code e; if (n == name || fs::equivalent(n, name, e)) return true; }
                return false;
            }();
            switch (rng.below(8))
            {
                case 0: case 1:
                {
                    bool const creatable = name.find("missing") == std::string::npos && name != root + "/directory" && name != root + "/dangling" && !is_open;
                    c.op("create", name.substr(root.size()) + (creatable ? "" : " refused"));
                    if (creatable)
                    {
                        std::string const description = random_text(rng, 4);
                        auto dataset = ldm::create_dataset(name, description);
                        c.check(dataset.phenomena().empty() && dataset.universes().empty() && dataset.description() == description, "created-not-empty", "created dataset is not empty");
                        c.check(dataset.intent() == H5F_ACC_RDWR, "created-intent", "created dataset has another intent");
                        c.check(fs::is_regular_file(name), "created-absent", "created dataset is not in the file system");
                        dataset.add_phenomenon("phenomenon");
                        c.count("files.created");
                    }
                    else
                    {
                        auto const before = vh::read_file(name);
                        c.throws("create-accepted", "creating " + name, [&] { ldm::create_dataset(name); });
                        c.check(fs::is_regular_file(name) == existed && before == vh::read_file(name), "create-damaged", "refused creation changed " + name);
                        c.count("creations.refused");
                    }
                    break;
                }
                case 2: case 3:
                {
                    c.op(existed ? "open" : "open-absent", name.substr(root.size()));
                    auto const before = entries(root);
                    if (existed)
                    {
                        auto dataset = ldm::open_dataset(name);
                        c.check(dataset.phenomena().size() == 1, "opened-other", "opened dataset has other content");
                    }
                    else
                    {
                        for (auto const flags : {H5F_ACC_RDONLY, H5F_ACC_RDWR})
                        {
                            c.throws("open-absent", "opening " + name, [&] { ldm::open_dataset(name, flags); });
                            c.throws("open-absent", "opening " + name, [&] { ldm::Dataset d(name, flags); });
                            c.throws("open-absent", "opening " + name, [&] { lh5::File f(name, flags); });
                        }
                        c.check(fs::is_regular_file(name) == existed && before == entries(root), "open-created", "opening created " + name);
                        c.count("opens.refused");
                    }
                    break;
                }
                case 4:
                {
                    if (name == root + "/directory" || is_open || name == root + "/link" || name == root + "/dangling") break;
                    c.op(existed ? "remove" : "remove-absent", name.substr(root.size()));
                    // Removing what does not exist has no effect
                    if (rng.chance(50)) ldm::remove_dataset(name); else lh5::remove_file(name);
                    c.check(!fs::exists(fs::symlink_status(name)), "not-removed", name + " is still there");
                    c.count("files.removed", existed);
                    break;
                }
                case 5:
                {
                    if (!existed || is_open || name == root + "/link") break;
                    c.op("keep-open", name.substr(root.size()));
                    open.emplace(name, ldm::open_dataset(name, rng.chance(50) ? H5F_ACC_RDONLY : H5F_ACC_RDWR));
                    break;
                }
                case 6:
                {
                    c.op("close-all");
                    open.clear();
                    break;
                }
                default:
                {
                    // In memory, whether or not there is a file with the same name. Not while that file is open
                    if (is_open || open.size() > 2) break;
                    c.op("in-memory", name.substr(root.size()));
                    auto const before = vh::read_file(name);
                    auto const before_entries = entries(root), before_directory = entries(root + "/directory");
                    {
                        std::optional<ldm::Dataset> dataset;
                        dataset = ldm::create_in_memory_dataset(name, "description");
                        dsgen::Options options;
                        options.max_phenomena = 1;
                        dsgen::Builder builder{c, options};
                        builder.build(*dataset);
                        c.check(dataset->phenomena().size() + dataset->universes().size() >= 1, "in-memory-content", "in-memory dataset is empty");
                        dataset->flush();
                        c.check(fs::is_regular_file(name) == existed && before == vh::read_file(name), "in-memory-file", "in-memory dataset changed a file");
                    }
                    c.check(fs::is_regular_file(name) == existed && before == vh::read_file(name), "in-memory-file", "in-memory dataset changed a file when it was closed");
                    c.check(before_entries == entries(root) && before_directory == entries(root + "/directory"), "in-memory-file", "in-memory dataset created a file");
                    c.count("in-memory.datasets");
                    break;
                }
            }
            for (auto const& n : pool)
            {
                bool const expected = fs::is_regular_file(n);
                c.check(ldm::dataset_exists(n) == expected && lh5::file_exists(n) == expected, "existence", "existence of " + n + " is reported wrongly");
                c.count("existence.compared");
            }
        }
        c.nontrivial();
    }

    // Files that are no LUE dataset
    void malformed(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("malformed.lue");
        std::string kind;
        auto build = [&] {
            dsgen::Options options;
            options.max_phenomena = 1;
            dsgen::Builder builder{c, options};
            auto dataset = ldm::create_dataset(path, rng.chance(50) ? "some dataset" : "");
            builder.build(dataset);
        };
        bool no_hdf5 = true;
        switch (rng.below(6))
        {
            case 0: case 1:
            {
                build();
                auto bytes = vh::read_file(path);
                auto const size = rng.chance(30) ? bytes.size() - rng.range(1, 64) : rng.chance(30) ? rng.range(1, 64) : rng.range(1, bytes.size() - 1);
                kind = "truncated";
                c.op(kind, std::to_string(size));
                bytes.resize(size);
                std::ofstream{path, std::ios::binary | std::ios::trunc} << bytes;
                break;
            }
            case 2:
            {
                build();
                auto bytes = vh::read_file(path);
                kind = "header-corrupt";
                // The 48 bytes of the superblock, which ends with a checksum
                auto const at = rng.below(48);
                auto const bit = static_cast<char>(1U << rng.below(8));
                c.op(kind, std::format("byte {} bit {}", at, bit));
                bytes[at] ^= bit;
                std::ofstream{path, std::ios::binary | std::ios::trunc} << bytes;
                break;
            }
            case 3:
            {
                kind = "other-content";
                auto const n = rng.range(1, 5000);
                c.op(kind, std::to_string(n));
                auto const bytes = random_bytes(rng, n);
                std::ofstream{path, std::ios::binary}.write(reinterpret_cast<char const*>(bytes.data()), static_cast<std::streamsize>(n));
                break;
            }
            case 4:
            {
                // An HDF5 file which is no dataset
                kind = "other-hdf5";
                no_hdf5 = false;
                auto file = lh5::create_file(path);
                auto const what = rng.below(4);
                c.op(kind, std::to_string(what));
                if (what == 1) file.attributes().write<std::string>("lue_version", "1.2.3");
                if (what == 2) lh5::create_group(file, "phenomena");
                if (what == 3) lh5::create_group(file, rng.chance(50) ? "lue_phenomena" : "lue_universes");
                break;
            }
            default:
            {
                kind = "empty-file";
                c.op(kind);
                std::ofstream{path};
                break;
            }
        }
        Print const before{path};
        auto const before_entries = entries(c.work());
        for (auto const flags : {H5F_ACC_RDONLY, H5F_ACC_RDWR})
        {
            // The HDF5 library itself makes an empty file that is opened for writing an HDF5 file
            if (kind == "empty-file" && flags == H5F_ACC_RDWR) continue;
            c.throws("opened:" + kind, "opening a file that is no dataset", [&] { ldm::open_dataset(path, flags); });
            c.throws("opened:" + kind, "opening a file that is no dataset", [&] { ldm::Dataset d(path, flags); });
            if (no_hdf5) c.throws("opened:" + kind, "opening a file that is no HDF5 file", [&] { lh5::File f(path, flags); });
            c.count("opens.refused");
            // Opening a file that HDF5 can open for writing is noted in the file, and when it is closed removed again
            c.check(no_hdf5 || flags == H5F_ACC_RDONLY ? before == Print{path} : before.bytes == vh::read_file(path), "opening-changed:" + kind, "refused opening changed the file");
        }
        c.check(nr_open_objects() == 0, "left-open", "objects are left open by a refused opening");
        lh5::Issues issues;
        try { ldm::validate(path, issues); } catch (std::exception const&) {}
        c.check(before.bytes == vh::read_file(path), "validating-changed:" + kind, "validating changed the file");
        c.check(before_entries == entries(c.work()), "directory-changed", "opening changed the directory");
        c.check(ldm::dataset_exists(path) && lh5::file_exists(path), "existence", "existence of the file is reported wrongly");
        issues = lh5::Issues{};
        c.check(nr_open_objects() == 0, "left-open", "objects are left open by validation");
        c.nontrivial();
    }

    void run(vh::Case& c)
    {
        auto const k = c.rng.below(100);
        if (k < 45) reading(c); else if (k < 70) names(c); else malformed(c);
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, run);
}
