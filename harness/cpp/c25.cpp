// LINK: lue::qa nlohmann_json::nlohmann_json
// C25: timings of experiments are recorded completely and consistently.
//
// Both clocks are replaced by clocks which the harness sets, so every time point and duration is known exactly.
#include "vh.hpp"
#include "lue/qa/scalability/instrument/io.hpp"
#include <nlohmann/json.hpp>
#include <sys/resource.h>
#include <csignal>
#include <ctime>
#include <thread>

namespace {

    // Nanoseconds since the epochs of the clocks, per thread
    thread_local std::int64_t steady{0}, wall{0};
    thread_local std::uint64_t nr_reads{0};

}  // namespace

// Called by the library instead of the ones in the standard library
auto std::chrono::steady_clock::now() noexcept -> std::chrono::steady_clock::time_point
{
    ++nr_reads;
    return time_point{duration{steady}};
}

auto std::chrono::system_clock::now() noexcept -> std::chrono::system_clock::time_point
{
    ++nr_reads;
    return time_point{duration{wall}};
}

namespace {

    namespace qa = lue::qa;
    using namespace std::chrono;
    using json = nlohmann::json;

    struct Timing
    {
            bool started{false};
            std::int64_t wall_start{0}, steady_start{0}, steady_stop{0};
            auto nanoseconds() const -> std::int64_t { return steady_stop - steady_start; }
    };

    struct Model
    {
            Timing timing;
            std::size_t nr_workers;
            qa::Shape array_shape, partition_shape;
            std::vector<Timing> runs;
    };

    // Time passes. The wall clock may be set.
    void pass(vh::Rng& rng)
    {
        std::int64_t passed{0};
        switch (rng.below(5))
        {
            case 0: break;
            case 1: passed = static_cast<std::int64_t>(rng.below(2000000)); break;
            case 2: passed = static_cast<std::int64_t>(rng.below(5000000000)); break;
            case 3: passed = static_cast<std::int64_t>(rng.below(100)) * 1000000 - (rng.chance(50) ? 1 : 0); break;
            default: passed = static_cast<std::int64_t>(rng.below(86400ULL * 1000000000 * 30)); break;
        }
        passed = std::max<std::int64_t>(passed, 0);
        steady += passed;
        wall += passed;
        if (rng.chance(15)) wall += static_cast<std::int64_t>(rng.below(7200ULL * 1000000000)) - 3600LL * 1000000000;
        wall = std::max<std::int64_t>(wall, 0);
    }

    template<typename T>
    void start(T& t, Timing& m)
    {
        t.start();
        m = Timing{true, wall, steady, steady};
    }

    template<typename T>
    void stop(T& t, Timing& m)
    {
        t.stop();
        m.steady_stop = steady;
    }

    using Fail = std::function<void(bool, std::string const&, std::string const&)>;

    template<typename T>
    void verify(Fail const& check, T const& t, Timing const& m, std::string const& what)
    {
        auto const d = m.nanoseconds();
        if (m.started)
        {
            check(t.start_time_point().time_since_epoch().count() == m.wall_start, "start", what);
        }
        auto const text = [&](std::int64_t const observed, std::int64_t const expected) { return std::format("{}: {} instead of {}", what, observed, expected); };
        auto const n = [&](auto const duration, std::int64_t const expected) { check(duration.count() == expected, "duration", text(duration.count(), expected)); };
        n(t.template duration<nanoseconds>(), d);
        n(t.template duration<microseconds>(), d / 1000);
        n(t.template duration<milliseconds>(), d / 1000000);
        n(t.template duration<seconds>(), d / 1000000000);
        n(t.template duration<minutes>(), d / 60000000000);
        n(t.template duration<hours>(), d / 3600000000000);
        auto const s = t.template duration<std::chrono::duration<double>>().count();
        check(s >= 0.0 && std::abs(s - static_cast<double>(d) / 1e9) <= 1e-9 * (1.0 + s), "duration-float", what);
    }

    // Seconds since the epoch of a text like 2018-10-11T15:55:59+0200
    auto seconds_of(std::string const& text) -> std::int64_t
    {
        int y, mo, d, h, mi, s, oh, om, n{0};
        char sign;
        if (std::sscanf(text.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d%c%2d%2d%n", &y, &mo, &d, &h, &mi, &s, &sign, &oh, &om, &n) != 9 || n != static_cast<int>(text.size()) ||
            text.size() != 24 || (sign != '+' && sign != '-'))
            return -1;
        std::tm tm{};
        tm.tm_year = y - 1900; tm.tm_mon = mo - 1; tm.tm_mday = d; tm.tm_hour = h; tm.tm_min = mi; tm.tm_sec = s;
        std::int64_t const offset = (oh * 60 + om) * 60;
        return ::timegm(&tm) - (sign == '+' ? offset : -offset);
    }

    void verify_document(Fail const& check, std::string const& path, Model const& m)
    {
        json const root = json::parse(vh::read_file(path), nullptr, false);
        check(!root.is_discarded(), "document", "not a JSON document");
        auto const timing = [&](json const& j, Timing const& t, std::string const& what) {
            check(j.contains("start") && j.contains("duration"), "document-timing", what);
            if (t.started)
            {
                auto const s = seconds_of(j["start"].get<std::string>());
                check(s == t.wall_start / 1000000000, "document-start", std::format("{}: {} is {}, not {}", what, j["start"].get<std::string>(), s, t.wall_start / 1000000000));
            }
            auto const d = j["duration"].get<std::int64_t>();
            check(d == t.nanoseconds() / 1000000, "document-duration", std::format("{}: {} instead of {}", what, d, t.nanoseconds() / 1000000));
        };
        timing(root, m.timing, "experiment");
        check(root.at("unit") == "millisecond", "document-unit", "");
        check(root.at("environment").at("nr_workers").get<std::size_t>() == m.nr_workers, "document-workers", "");
        auto const shape = [&](json const& j, qa::Shape const& s) { return j.is_array() && j.size() == 2 && j[0] == std::get<0>(s) && j[1] == std::get<1>(s); };
        check(shape(root.at("task").at("array_shape"), m.array_shape), "document-array-shape", root.at("task").dump());
        check(shape(root.at("task").at("partition_shape"), m.partition_shape), "document-partition-shape", root.at("task").dump());
        auto const& timings = root.at("timings");
        check(timings.is_array() && timings.size() == m.runs.size(), "document-runs", std::format("{} runs instead of {}", timings.size(), m.runs.size()));
        for (std::size_t i = 0; i < m.runs.size(); ++i) timing(timings[i], m.runs[i], std::format("run {}", i));
    }

    auto checker(vh::Case& c) -> Fail
    {
        return [&c](bool const ok, std::string const& key, std::string const& message) { c.check(ok, key, message); };
    }

    void verify(Fail const& check, qa::ArrayExperiment const& e, Model const& m)
    {
        check(e.nr_workers() == m.nr_workers, "workers", "");
        check(e.array_shape() == m.array_shape && e.partition_shape() == m.partition_shape, "shapes", "");
        check(e.runs().size() == m.runs.size(), "runs", std::format("{} instead of {}", e.runs().size(), m.runs.size()));
        for (std::size_t i = 0; i < m.runs.size(); ++i) verify(check, e.runs()[i], m.runs[i], std::format("run {}", i));
        verify(check, e, m.timing, "experiment");
    }

    auto random_count(vh::Rng& rng) -> std::size_t
    {
        switch (rng.below(4))
        {
            case 0: return rng.below(3);
            case 1: return std::numeric_limits<std::size_t>::max() - rng.below(3);
            case 2: return rng.next();
            default: return rng.below(100000);
        }
    }

    auto random_model(vh::Rng& rng) -> Model
    {
        return {{}, random_count(rng), {random_count(rng), random_count(rng)}, {random_count(rng), random_count(rng)}, {}};
    }

    void random_wall(vh::Rng& rng)
    {
        // From 1970 to 2200
        wall = static_cast<std::int64_t>(rng.below(7258118400ULL)) * 1000000000 + static_cast<std::int64_t>(rng.below(1000000000));
        steady = static_cast<std::int64_t>(rng.below(1ULL << 60));
    }

    // Experiments in several threads
    void threads(vh::Case& c)
    {
        auto& rng = c.rng;
        auto const nr_threads = rng.range(2, 4);
        c.op("threads", std::to_string(nr_threads));
        std::vector<std::uint64_t> seeds(nr_threads);
        for (auto& s : seeds) s = rng.next();
        std::vector<std::string> failures(nr_threads);
        std::vector<std::thread> running;
        for (std::size_t n = 0; n < nr_threads; ++n)
        {
            running.emplace_back([&, n] {
                try
                {
                    vh::Rng r{seeds[n]};
                    Fail const check = [](bool const ok, std::string const& key, std::string const& message) { if (!ok) throw std::runtime_error(key + ": " + message); };
                    random_wall(r);
                    for (int i = 0; i < 12; ++i)
                    {
                        auto m = random_model(r);
                        qa::ArrayExperiment e{m.nr_workers, m.array_shape, m.partition_shape};
                        start(e, m.timing);
                        for (auto k = r.range(3, 20); k > 0; --k)
                        {
                            qa::Run run{};
                            Timing t;
                            pass(r);
                            start(run, t);
                            pass(r);
                            stop(run, t);
                            e.add(run);
                            m.runs.push_back(t);
                        }
                        pass(r);
                        stop(e, m.timing);
                        auto const path = c.path(std::format("t{}.json", n));
                        qa::save_results(e, path);
                        verify(check, e, m);
                        verify_document(check, path, m);
                    }
                }
                catch (std::exception const& e)
                {
                    failures[n] = e.what();
                }
            });
        }
        for (auto& t : running) t.join();
        for (auto const& f : failures) c.check(f.empty(), "threads", f);
        c.count("threads", nr_threads);
    }

    void body(vh::Case& c)
    {
        auto& rng = c.rng;
        c.nontrivial();
        std::string const zone = rng.pick(std::vector<std::string>{"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "NST3:30NDT,M3.2.0,M11.1.0", "<+0545>-5:45", "<-12>12", "<+14>-14", "EST5EDT,M3.2.0,M11.1.0"});
        ::setenv("TZ", zone.c_str(), 1);
        ::tzset();
        random_wall(rng);
        if (rng.chance(20)) { threads(c); return; }
        auto const check = checker(c);
        auto m = random_model(rng);
        c.op("experiment", zone);
        qa::ArrayExperiment experiment{m.nr_workers, m.array_shape, m.partition_shape};
        qa::Stopwatch watch;
        Timing watch_model;
        struct Pending { qa::Run run; Timing timing; };
        std::vector<Pending> pending;
        int nr_saved{0};
        auto const save = [&] {
            auto const path = c.path(std::format("r{}.json", rng.chance(40) && nr_saved > 0 ? rng.below(nr_saved) : nr_saved++));
            c.op("save", path.substr(path.size() - 7));
            qa::save_results(experiment, path);
            verify_document(check, path, m);
            c.count("documents");
            c.count("runs.compared", m.runs.size());
        };

        for (auto n = rng.range(5, 40); n > 0; --n)
        {
            pass(rng);
            switch (rng.below(13))
            {
                case 0: c.op("start"); start(experiment, m.timing); break;
                case 1: if (m.timing.started) { c.op("stop"); stop(experiment, m.timing); } break;
                case 2:
                case 3: { c.op("run"); pending.emplace_back(); start(pending.back().run, pending.back().timing); break; }
                case 4:
                case 5:
                    if (!pending.empty())
                    {
                        auto& p = pending[rng.below(pending.size())];
                        c.op("stop-run");
                        stop(p.run, p.timing);
                    }
                    break;
                case 6:
                case 7:
                    if (!pending.empty())
                    {
                        // Adding copies the run: what happens to it afterwards does not matter. It may be added again.
                        auto& p = pending[rng.below(pending.size())];
                        c.op("add");
                        experiment.add(p.run);
                        m.runs.push_back(p.timing);
                    }
                    break;
                case 8: if (!pending.empty()) { auto& p = pending[rng.below(pending.size())]; c.op("restart-run"); start(p.run, p.timing); } break;
                case 9:
                {
                    c.op("watch");
                    if (!watch_model.started || rng.chance(50)) start(watch, watch_model);
                    else stop(watch, watch_model);
                    auto const copy = watch;
                    verify(check, copy, watch_model, "stopwatch");
                    break;
                }
                case 10:
                {
                    c.op("copy");
                    auto copy = experiment;
                    verify(check, copy, m);
                    auto moved = std::move(copy);
                    verify(check, moved, m);
                    // Copies are independent
                    moved.add(qa::Run{});
                    moved.start();
                    experiment = rng.chance(50) ? qa::ArrayExperiment{experiment} : experiment;
                    break;
                }
                case 11: if (m.timing.started) save(); break;
                default:
                {
                    c.op("refuse");
                    c.throws("save-absent", "", [&] { qa::save_results(experiment, c.path("no/r.json")); });
                    c.throws("save-directory", "", [&] { qa::save_results(experiment, c.work().string()); });
                    c.throws("save-full", "a device that is full", [&] { qa::save_results(experiment, "/dev/full"); });
                    c.count("refused", 3);
                    break;
                }
            }
            verify(check, experiment, m);
            verify(check, watch, watch_model, "stopwatch");
            for (auto const& p : pending) verify(check, p.run, p.timing, "pending run");
            c.count("runs.verified", m.runs.size() + pending.size());
        }
        if (!m.timing.started) start(experiment, m.timing);
        save();
        c.check(nr_reads > 0, "clocks", "the clocks of the harness are not used");
        c.count("clock.reads", nr_reads);
    }

}  // namespace

auto main(int argc, char** argv) -> int { return vh::run(argc, argv, body); }
