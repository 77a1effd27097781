// LINK: lue::data_model
// C29: failed operations report an exception and do no damage.
//
// Oracle: an exception is raised; all that is in the file, as told by HDF5 itself, is unchanged, as are the open identifiers; the
// collections in memory are those of a dataset that is opened anew; valid modifications have their effect; and after closing, the
// file contains what it did before.
#include "failops.hpp"
#include "snapshot.hpp"
#include "walk.hpp"
#include <sys/resource.h>
#include <sys/wait.h>
#include <csignal>

using namespace dm;

namespace {

    // What the collections in memory tell
    auto outline(ldm::Dataset& dataset) -> std::vector<std::string>
    {
        std::vector<std::string> r;
        r.push_back("dataset " + dataset.description());
        auto visit = [&](std::string const& where, ldm::Phenomena& phenomena) {
            for (auto const& name : phenomena.names())
            {
                auto& phenomenon = phenomena[name];
                r.push_back(where + name + " " + phenomenon.description() + " " + std::to_string(phenomenon.object_id().nr_objects()));
                for (bool const is_collection : {false, true})
                {
                    auto& sets = is_collection ? phenomenon.collection_property_sets() : phenomenon.property_sets();
                    for (auto const& set_name : sets.names())
                    {
                        auto& set = sets[set_name];
                        auto const path = where + name + "/" + set_name;
                        r.push_back(path + (set.has_time_domain() ? " time" : "") + (set.has_space_domain() ? " space" : ""));
                        auto each = [&](auto const& collection, std::string const& kind) {
                            for (auto const& property_name : collection.names())
                            {
                                auto& property = const_cast<std::remove_cvref_t<decltype(collection)>&>(collection)[property_name];
                                auto& value = property.value();
                                std::string count;
                                if constexpr (requires { value.nr_arrays(); }) count = to_string(value.shape());
                                else if constexpr (requires { value.nr_objects(); }) count = std::to_string(value.nr_objects());
                                else count = std::to_string(value.nr_locations_in_time());
                                r.push_back(path + "/" + property_name + " " + kind + " " + property.description() + " " + count);
                            }
                        };
                        auto& all = set.properties();
                        each(all.collection<ldm::same_shape::Properties>(), "same");
                        each(all.collection<ldm::same_shape::constant_shape::Properties>(), "constant");
                        each(all.collection<ldm::same_shape::variable_shape::Properties>(), "variable");
                        each(all.collection<ldm::different_shape::Properties>(), "different");
                        each(all.collection<ldm::different_shape::constant_shape::Properties>(), "different constant");
                        each(all.collection<ldm::different_shape::variable_shape::Properties>(), "different variable");
                    }
                }
            }
        };
        visit("", dataset.phenomena());
        for (auto const& name : dataset.universes().names()) { r.push_back("universe " + name); visit(name + ":", dataset.universes()[name].phenomena()); }
        return r;
    }

    auto first_difference(std::vector<std::string> const& a, std::vector<std::string> const& b) -> std::string
    {
        for (std::size_t i = 0; i < std::max(a.size(), b.size()); ++i)
        {
            auto const x = i < a.size() ? a[i] : "nothing", y = i < b.size() ? b[i] : "nothing";
            if (x != y) return x + " versus " + y;
        }
        return "";
    }

    // While it exists, writing beyond a size fails
    class FileSizeLimit
    {
        public:
            explicit FileSizeLimit(std::uintmax_t const size)
            {
                ::signal(SIGXFSZ, SIG_IGN);
                ::getrlimit(RLIMIT_FSIZE, &_previous);
                ::rlimit limit{_previous};
                limit.rlim_cur = size;
                ::setrlimit(RLIMIT_FSIZE, &limit);
            }
            FileSizeLimit(FileSizeLimit const&) = delete;
            ~FileSizeLimit() { ::setrlimit(RLIMIT_FSIZE, &_previous); }
        private:
            ::rlimit _previous{};
    };

    auto pick_kind(vh::Rng& rng, std::vector<modops::Modification> const& all) -> modops::Modification const&
    {
        // Rare kinds are picked as often
        std::map<std::string, std::vector<modops::Modification const*>> kinds;
        for (auto const& m : all) kinds[m.kind].push_back(&m);
        auto it = kinds.begin();
        std::advance(it, rng.below(kinds.size()));
        return *it->second[rng.below(it->second.size())];
    }

    // Content of a copy of a file that is open for writing
    auto copied_content(std::string const& path, std::string const& copy) -> snapshot::Content
    {
        std::filesystem::copy_file(path, copy, std::filesystem::copy_options::overwrite_existing);
        hid_t const access = H5Pcreate(H5P_FILE_ACCESS);
        bool const clear = true;
        H5Pset(access, "clear_status_flags", &clear);
        hid_t const file = H5Fopen(copy.c_str(), H5F_ACC_RDWR, access);
        H5Pclose(access);
        if (file < 0) return {{"file", "cannot be opened"}};
        auto r = snapshot::of(file);
        H5Fclose(file);
        return r;
    }

    // The file system refuses to let the file grow, and later does not anymore
    void refused_writes(vh::Case& c)
    {
        auto& rng = c.rng;
        std::string const path = c.path("data.lue");
        dsgen::Options options;
        options.max_phenomena = 2;
        dsgen::Builder builder{c, options};
        {
            auto dataset = ldm::create_dataset(path, "some dataset");
            builder.build(dataset);
        }
        // After writing failed, HDF5 does not succeed in writing to the same file anymore. This happens in another process
        auto const size = std::filesystem::file_size(path);
        auto const room = rng.chance(50) ? rng.below(2000) : rng.below(200'000);
        bool const close_within_limit = rng.chance(50);
        std::string const other_path = c.path("other.lue"), result_path = c.path("result");
        auto const child = ::fork();
        c.check(child >= 0, "fork", "cannot fork");
        if (child == 0)
        {
            std::string result;
            std::size_t nr_flushed = 0;
            std::optional<ldm::Dataset> opened;
            opened.emplace(ldm::open_dataset(path, H5F_ACC_RDWR));
            {
                auto& dataset = *opened;
                FileSizeLimit const limit{size + room};
                for (int i = 0; i < 20 && result.empty(); ++i)
                {
                    auto const all = modops::modifications(builder, dataset);
                    auto const& m = pick_kind(rng, all);
                    c.op("refused-" + m.kind, m.detail);
                    try
                    {
                        m.apply();
                        // Something large
                        dataset.attributes().write<std::vector<double>>("list " + std::to_string(i), std::vector<double>(rng.below(7000), 1.0));
                        dataset.flush();
                    }
                    catch (std::exception const&) { result = "thrown"; break; }
                    // What was flushed is in the file
                    auto const difference = snapshot::difference(snapshot::of(dataset.id()), copied_content(path, c.path("copy.lue")));
                    if (!difference.empty()) result = "lost: " + difference;
                    ++nr_flushed;
                }
                if (close_within_limit) opened.reset();
            }
            opened.reset();
            // Other datasets are not affected
            try
            {
                {
                    auto other = ldm::create_dataset(other_path, "other");
                    other.add_phenomenon("phenomenon");
                }
                if (!ldm::open_dataset(other_path).phenomena().contains("phenomenon")) result = "other: phenomenon not found";
            }
            catch (std::exception const& e) { result = std::string("other: ") + e.what(); }
            std::ofstream{result_path} << nr_flushed << " " << (result.empty() ? "fit" : result);
            ::_exit(0);
        }
        int status = 0;
        ::waitpid(child, &status, 0);
        auto result = vh::read_file(result_path);
        auto const space = result.find(' ');
        if (space != std::string::npos)
        {
            c.count("flushes.compared", std::stoul(result.substr(0, space)));
            result = result.substr(space + 1);
        }
        c.op("refused-writes", result.substr(0, 10));
        c.check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "refused-crash", "process did not survive writes that were refused: status " + std::to_string(status));
        c.check(result == "thrown" || result == "fit", "refused-damage", "after writes that were refused: " + result);
        c.count("writes." + result);
        c.nontrivial();
    }

    void one_case(vh::Case& c)
    {
        auto& rng = c.rng;
        if (rng.chance(10)) return refused_writes(c);
        std::string const path = c.path("data.lue");
        bool const in_memory = rng.chance(35);
        dsgen::Options options;
        options.max_phenomena = 2;
        dsgen::Builder builder{c, options};
        std::string const description = rng.chance(50) ? "some dataset" : "";
        std::optional<ldm::Dataset> opened;
        opened.emplace(in_memory ? ldm::create_in_memory_dataset(path, description) : ldm::create_dataset(path, description));
        builder.build(*opened);
        // Nothing can be modified in a dataset that is opened for reading
        bool const read_only = !in_memory && rng.chance(20);
        if (!in_memory && (read_only || rng.chance(60)))
        {
            c.op("reopen", read_only ? "read-only" : "");
            opened.reset();
            opened.emplace(ldm::open_dataset(path, read_only ? H5F_ACC_RDONLY : H5F_ACC_RDWR));
        }
        auto& dataset = *opened;
        auto const steps = rng.range(4, 16);
        std::size_t nr_failed = 0;
        for (std::uint64_t step = 0; step < steps; ++step)
        {
            if (!read_only && rng.chance(25))
            {
                // What can be done, can still be done
                auto const before = snapshot::of(dataset.id());
                auto const all = modops::modifications(builder, dataset);
                // Not the same name twice
                auto const& m = pick_kind(rng, all);
                c.op("valid-" + m.kind, m.detail);
                m.apply();
                c.count("modifications.performed");
                c.count(snapshot::difference(before, snapshot::of(dataset.id())).empty() ? "modifications.without-effect" : "modifications.effective");
                continue;
            }
            auto const before = snapshot::of(dataset.id());
            auto const names = outline(dataset);
            auto const operations = read_only && rng.chance(60) ? modops::modifications(builder, dataset) : failops::operations(builder, dataset, in_memory);
            auto const nr_open = nr_open_objects();
            auto const& o = pick_kind(rng, operations);
            c.op("failing-" + o.kind, o.detail);
            c.throws("no-exception:" + o.kind, o.kind + " " + o.detail, o.apply);
            ++nr_failed;
            c.count("operations.failed");
            c.check(nr_open_objects() == nr_open, "identifiers:" + o.kind, o.kind + " " + o.detail + ": number of open identifiers changed");
            auto const difference = snapshot::difference(before, snapshot::of(dataset.id()));
            c.check(difference.empty(), "content:" + o.kind, o.kind + " " + o.detail + " failed, but changed the dataset: " + difference);
            auto const now = outline(dataset);
            c.check(now == names, "memory:" + o.kind, o.kind + " " + o.detail + " failed, but changed what is in memory: " + first_difference(names, now));
            c.count("datasets.compared");
            if (!in_memory && rng.chance(30))
            {
                c.op("open-again");
                auto again = ldm::open_dataset(path, read_only ? H5F_ACC_RDONLY : H5F_ACC_RDWR);
                auto const other = outline(again);
                c.check(other == names, "reopened:" + o.kind, o.kind + " " + o.detail + " failed, and the dataset opened anew differs: " + first_difference(names, other));
            }
        }
        auto const content = snapshot::of(dataset.id());
        auto const names = outline(dataset);
        opened.reset();
        if (!in_memory)
        {
            c.op("close");
            auto const difference = snapshot::difference(content, snapshot::of_file(path));
            c.check(difference.empty(), "closed-content", "dataset differs after closing it: " + difference);
            auto again = ldm::open_dataset(path);
            auto const other = outline(again);
            c.check(other == names, "closed-memory", "dataset opened anew differs: " + first_difference(names, other));
            c.count("files.compared");
        }
        if (nr_failed > 0) c.nontrivial();
    }

}  // namespace

auto main(int argc, char** argv) -> int
{
    return vh::run(argc, argv, one_case);
}
