// Monitor runtime shared by all C++ harnesses: seeded case loop, event trace, counters, verdicts.
//
// A harness is a function that drives the real library for one seeded case and throws vh::Violation when
// an oracle disagrees with what was observed. Events go to a log (one write(2) per event, so the log
// survives a crash), counters and samples to a JSON file. A Violation has a key that names the call site
// or kind of history that failed; the driver matches keys against known_findings.jsonl.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <format>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

    class Rng
    {
        public:
            explicit Rng(std::uint64_t seed): _s{seed} {}
            auto next() -> std::uint64_t
            {
                _s += 0x9e3779b97f4a7c15ULL;
                std::uint64_t z = _s;
                z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
                z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
                return z ^ (z >> 31);
            }
            // [0, n)
            auto below(std::uint64_t n) -> std::uint64_t { return n == 0 ? 0 : next() % n; }
            // [lo, hi]
            auto range(std::uint64_t lo, std::uint64_t hi) -> std::uint64_t { return lo + below(hi - lo + 1); }
            auto chance(unsigned percent) -> bool { return below(100) < percent; }
            template<typename T>
            auto pick(std::vector<T> const& v) -> T const& { return v[below(v.size())]; }
        private:
            std::uint64_t _s;
    };

    inline auto mix(std::uint64_t a, std::uint64_t b) -> std::uint64_t
    {
        Rng r{a * 0x100000001b3ULL ^ b};
        r.next();
        return r.next();
    }

    inline auto hash_bytes(void const* p, std::size_t n, std::uint64_t h = 1469598103934665603ULL) -> std::uint64_t
    {
        auto const* b = static_cast<unsigned char const*>(p);
        for (std::size_t i = 0; i < n; ++i)
        {
            h = (h ^ b[i]) * 1099511628211ULL;
        }
        return h;
    }

    inline auto hash_string(std::string const& s, std::uint64_t h = 1469598103934665603ULL) -> std::uint64_t
    {
        return hash_bytes(s.data(), s.size(), h);
    }

    // The bytes of a file. Empty if it cannot be read
    inline auto read_file(std::string const& path) -> std::string
    {
        std::ifstream stream{path, std::ios::binary | std::ios::ate};
        if (!stream || !std::filesystem::is_regular_file(path)) return {};
        std::string r(static_cast<std::size_t>(stream.tellg()), '\0');
        stream.seekg(0);
        stream.read(r.data(), static_cast<std::streamsize>(r.size()));
        return r;
    }

    struct Violation
    {
            std::string key;
            std::string message;
    };

    inline auto json_escape(std::string const& s) -> std::string
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                r += '\\';
                r += static_cast<char>(c);
            }
            else if (c < 0x20 || c >= 0x7f)
            {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
            else
            {
                r += static_cast<char>(c);
            }
        }
        return r;
    }

    struct Report
    {
            std::uint64_t evaluations{0};
            std::uint64_t nontrivial{0};
            std::unordered_set<std::uint64_t> distinct;
            std::map<std::string, std::uint64_t> counters;
            std::vector<std::string> samples;
            struct V
            {
                    std::uint64_t index;
                    std::string key, message;
                    std::vector<std::string> trace;
            };
            std::vector<V> violations;
    };

    class Case
    {
        public:
            Case(std::uint64_t seed, std::uint64_t index, Report& report, int log_fd, std::filesystem::path work, bool thorough):
                rng{mix(seed, index)}, seed_{seed}, index_{index}, _report{report}, _log_fd{log_fd},
                work_{std::move(work)}, thorough_{thorough}
            {
            }

            Rng rng;

            auto index() const -> std::uint64_t { return index_; }
            auto thorough() const -> bool { return thorough_; }
            auto work() const -> std::filesystem::path const& { return work_; }
            auto path(std::string const& name) const -> std::string { return (work_ / name).string(); }

            // Record an event. `kind` names the operation (used as violation key on a crash or an
            // unexpected exception), `detail` its arguments
            void op(std::string const& kind, std::string const& detail = "")
            {
                _last = kind;
                std::string line = detail.empty() ? kind : kind + " " + detail;
                if (line.size() > 400)
                {
                    line.resize(400);
                }
                _report.counters["op." + kind] += 1;
                _hash = hash_string(line, _hash);
                if (_trace.size() < 4000)
                {
                    _trace.push_back(line);
                }
                line += '\n';
                if (_log_fd >= 0)
                {
                    [[maybe_unused]] auto n = ::write(_log_fd, line.data(), line.size());
                }
            }

            void count(std::string const& name, std::uint64_t n = 1) { _report.counters[name] += n; }

            // The case exercised something
            void nontrivial() { _nontrivial = true; }
            void distinct(std::uint64_t h) { _distinct = h; _has_distinct = true; }

            [[noreturn]] void fail(std::string const& key, std::string const& message) const
            {
                throw Violation{key, message};
            }

            void checked() const { _report.counters["oracle.checks"] += 1; }

            void check(bool ok, std::string const& key, std::string const& message) const
            {
                _report.counters["oracle.checks"] += 1;
                if (!ok)
                {
                    fail(key, message);
                }
            }

            template<typename A, typename B>
            void equal(A const& a, B const& b, std::string const& key, std::string const& what) const
            {
                _report.counters["oracle.checks"] += 1;
                if (!(a == b))
                {
                    fail(key, what + ": observed differs from expected");
                }
            }

            // f must throw an exception derived from std::exception
            template<typename F>
            void throws(std::string const& key, std::string const& what, F&& f)
            {
                _report.counters["oracle.checks"] += 1;
                bool thrown = false;
                try
                {
                    f();
                }
                catch (Violation const&)
                {
                    throw;
                }
                catch (std::exception const&)
                {
                    thrown = true;
                }
                if (!thrown)
                {
                    fail(key, what + ": no exception was raised");
                }
            }

            auto last() const -> std::string const& { return _last; }
            auto trace() const -> std::vector<std::string> const& { return _trace; }
            auto is_nontrivial() const -> bool { return _nontrivial; }
            auto hash() const -> std::uint64_t { return _has_distinct ? _distinct : _hash; }

        private:
            std::uint64_t seed_, index_;
            Report& _report;
            int _log_fd;
            std::filesystem::path work_;
            bool thorough_;
            std::string _last{"start"};
            std::vector<std::string> _trace;
            std::uint64_t _hash{1469598103934665603ULL};
            std::uint64_t _distinct{0};
            bool _has_distinct{false};
            bool _nontrivial{false};
    };

    inline void write_report(std::string const& path, Report const& r, std::uint64_t next, bool done)
    {
        std::string const tmp = path + ".tmp";
        {
            std::ofstream o(tmp);
            o << "{\"done\":" << (done ? "true" : "false") << ",\"next\":" << next << ",\"evaluations\":" << r.evaluations
              << ",\"nontrivial\":" << r.nontrivial << ",\"distinct\":[";
            bool first = true;
            for (auto h : r.distinct)
            {
                o << (first ? "" : ",") << h;
                first = false;
            }
            o << "],\"counters\":{";
            first = true;
            for (auto const& [k, v] : r.counters)
            {
                o << (first ? "" : ",") << '"' << json_escape(k) << "\":" << v;
                first = false;
            }
            o << "},\"samples\":[";
            first = true;
            for (auto const& s : r.samples)
            {
                o << (first ? "" : ",") << '"' << json_escape(s) << '"';
                first = false;
            }
            o << "],\"violations\":[";
            first = true;
            for (auto const& v : r.violations)
            {
                o << (first ? "" : ",") << "{\"index\":" << v.index << ",\"key\":\"" << json_escape(v.key)
                  << "\",\"message\":\"" << json_escape(v.message) << "\",\"trace\":[";
                bool f2 = true;
                for (auto const& t : v.trace)
                {
                    o << (f2 ? "" : ",") << '"' << json_escape(t) << '"';
                    f2 = false;
                }
                o << "]}";
                first = false;
            }
            o << "]}\n";
        }
        std::filesystem::rename(tmp, path);
    }

    // Usage: vh_x --seed S --first K --cases N --out F --log F --work D [--thorough]
    inline auto run(int argc, char** argv, std::function<void(Case&)> const& body) -> int
    {
        std::map<std::string, std::string> args;
        bool thorough = false;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            if (a == "--thorough")
            {
                thorough = true;
            }
            else if (i + 1 < argc)
            {
                args[a] = argv[++i];
            }
        }
        std::uint64_t const seed = std::strtoull(args["--seed"].c_str(), nullptr, 10);
        std::uint64_t const first = std::strtoull(args["--first"].c_str(), nullptr, 10);
        std::uint64_t const cases = std::strtoull(args["--cases"].c_str(), nullptr, 10);
        std::filesystem::path const work = std::filesystem::absolute(args["--work"]);
        std::filesystem::create_directories(work);
        int const log_fd = args.count("--log") ? ::open(args["--log"].c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644) : -1;
        Report report;
        std::map<std::string, int> times;
        std::string const out = args["--out"];
        for (std::uint64_t i = first; i < first + cases; ++i)
        {
            if (log_fd >= 0)
            {
                [[maybe_unused]] int rc = ::ftruncate(log_fd, 0);
                std::string const line = std::format("case {}\n", i);
                [[maybe_unused]] auto n = ::write(log_fd, line.data(), line.size());
            }
            // Each case works in its own directory, which goes afterwards
            std::filesystem::path const dir = work / "case";
            std::filesystem::remove_all(dir);
            std::filesystem::create_directories(dir);
            Case c{seed, i, report, log_fd, dir, thorough};
            try
            {
                body(c);
            }
            catch (Violation const& v)
            {
                // A few of each suffice
                if (++times[v.key] <= 4) report.violations.push_back({i, v.key, v.message, c.trace()});
            }
            catch (std::exception const& e)
            {
                report.violations.push_back({i, "unexpected-exception:" + c.last(), e.what(), c.trace()});
            }
            report.evaluations += 1;
            if (c.is_nontrivial())
            {
                report.nontrivial += 1;
                report.distinct.insert(c.hash() >> 1);
                if (report.samples.size() < 2 && c.trace().size() > 1)
                {
                    std::string s = std::format("case {}: ", i);
                    for (auto const& t : c.trace())
                    {
                        s += t + "; ";
                        if (s.size() > 900)
                        {
                            s += "...";
                            break;
                        }
                    }
                    report.samples.push_back(s);
                }
            }
            if (report.violations.size() >= 25)
            {
                write_report(out, report, first + cases, true);
                std::filesystem::remove_all(dir);
                return 0;
            }
            if ((i - first) % 25 == 24)
            {
                write_report(out, report, i + 1, false);
            }
        }
        std::filesystem::remove_all(work / "case");
        write_report(out, report, first + cases, true);
        return 0;
    }

}  // namespace vh

// As Case::check, but key and message are only evaluated if the condition does not hold
#define VH_CHECK(c, ok, key, message) \
    do \
    { \
        (c).checked(); \
        if (!(ok)) (c).fail(key, message); \
    } while (false)
