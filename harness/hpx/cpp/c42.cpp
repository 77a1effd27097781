// C42: models run their time steps once, in order, with a limited number of them at the same time
#include "tests.hpp"
#include "lue/framework/model.hpp"
#include "lue/framework/model/progressor.hpp"
#include "lue/framework/model/simulate.hpp"

namespace {

    struct Refused: std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    // How long the work of a time step takes
    enum class Work
    {
        none,       // Done when it was started
        task,       // A task, with tasks of its own
        window,     // Done only once as many others were started as are allowed to
        shuffled,   // Any of those under way can be the first to end
        failing,    // As task, but some end with an exception
    };

    struct World
    {
            vh::Case& c;
            Work work{Work::none};
            std::int64_t first{1}, last{0}, limit{0};  // limit: how many at the same time, at most
            std::int64_t model_throws_at{-1}, progressor_throws_at{-1};
            std::mutex mutex{};
            std::vector<std::string> model_events{}, progressor_events{};
            std::vector<std::pair<char, std::int64_t>> steps{};
            std::int64_t started{0}, ended{0}, most{0};
            std::vector<std::pair<std::int64_t, std::shared_ptr<hpx::promise<void>>>> open{};
            std::vector<std::string> problems{};

            explicit World(vh::Case& c): c{c} {}

            void problem(std::string const& text)
            {
                std::lock_guard lock{mutex};
                problems.push_back(text);
            }

            void end_one()
            {
                std::lock_guard lock{mutex};
                ++ended;
            }

            auto step(std::int64_t const t) -> hpx::shared_future<void>
            {
                {
                    std::lock_guard lock{mutex};
                    steps.emplace_back('m', t);
                    if (t == model_throws_at) throw Refused{"model"};
                    ++started;
                    most = std::max(most, started - ended);
                }
                switch (work)
                {
                    case Work::none:
                    {
                        end_one();
                        return hpx::make_ready_future<void>();
                    }
                    case Work::task:
                    case Work::failing:
                    {
                        bool const fails = work == Work::failing && c.rng.chance(3);
                        auto const nr = c.rng.below(3);
                        return hpx::async([this, nr, fails]() {
                            for (std::uint64_t i = 0; i < nr; ++i) hpx::async([]() { vhpx::scheduler().maybe_yield(); }).get();
                            end_one();
                            if (fails) throw Refused{"work"};
                        });
                    }
                    case Work::window:
                    case Work::shuffled:
                    {
                        auto promise = std::make_shared<hpx::promise<void>>();
                        hpx::shared_future<void> result{promise->get_future()};
                        std::vector<std::shared_ptr<hpx::promise<void>>> done;
                        {
                            std::lock_guard lock{mutex};
                            open.emplace_back(t, std::move(promise));
                            // The oldest must end for the next one to be started
                            if (t == last || static_cast<std::int64_t>(open.size()) >= limit) release(done);
                        }
                        for (auto const& p : done) end_later(p);
                        return result;
                    }
                }
                return {};
            }

            // Which steps end now
            void release(std::vector<std::shared_ptr<hpx::promise<void>>>& done)
            {
                if (work == Work::window)
                {
                    bool const all = open.back().first == last;
                    auto const n = all ? open.size() : 1 + c.rng.below(open.size());
                    for (std::size_t i = 0; i < n; ++i) done.push_back(open[i].second);
                    open.erase(open.begin(), open.begin() + static_cast<std::ptrdiff_t>(n));
                }
                else
                {
                    for (auto& [t, p] : open) done.push_back(p);
                    open.clear();
                    for (std::size_t i = done.size(); i > 1; --i) std::swap(done[i - 1], done[c.rng.below(i)]);
                }
            }

            void end_later(std::shared_ptr<hpx::promise<void>> const& p)
            {
                hpx::async([this, p]() {
                    vhpx::scheduler().maybe_yield();
                    end_one();
                    p->set_value();
                });
            }

            // The run does not go on: nothing will release those that wait for others
            void release_all()
            {
                std::vector<std::shared_ptr<hpx::promise<void>>> done;
                {
                    std::lock_guard lock{mutex};
                    for (auto& [t, p] : open) done.push_back(p);
                    open.clear();
                }
                for (auto const& p : done) end_later(p);
            }

            auto under_way() -> std::int64_t
            {
                std::lock_guard lock{mutex};
                return started - ended;
            }
    };

    class TestModel: public lue::Model
    {
        public:

            explicit TestModel(World& w): w{w} {}

            void preprocess(lue::Count const sample_nr) override { w.model_events.push_back(std::format("preprocess {}", sample_nr)); }
            void initialize() override { w.model_events.push_back("initialize"); }
            auto simulate(lue::Count const t) -> hpx::shared_future<void> override
            {
                w.model_events.push_back(std::format("simulate {}", t));
                if (t == w.model_throws_at) w.release_all();
                return w.step(t);
            }
            void finalize() override
            {
                w.model_events.push_back("finalize");
                if (auto const n = w.under_way(); n != 0) w.problem(std::format("finalize is called while {} time steps are under way", n));
            }
            void postprocess() override { w.model_events.push_back("postprocess"); }

        private:

            World& w;
    };

    class TestProgressor: public lue::Progressor
    {
        public:

            explicit TestProgressor(World& w): w{w} {}

            void preprocess(lue::Count const sample_nr) override { w.progressor_events.push_back(std::format("preprocess {}", sample_nr)); }
            void initialize() override { w.progressor_events.push_back("initialize"); }
            void simulate(lue::Count const t) override
            {
                w.progressor_events.push_back(std::format("simulate {}", t));
                {
                    std::lock_guard lock{w.mutex};
                    w.steps.emplace_back('p', t);
                }
                if (t == w.progressor_throws_at)
                {
                    w.release_all();
                    throw Refused{"progressor"};
                }
            }
            void finalize() override { w.progressor_events.push_back("finalize"); }
            void postprocess() override { w.progressor_events.push_back("postprocess"); }

        private:

            World& w;
    };

    // Not derived from LUE's base classes
    struct OwnModel
    {
            World* w;
    };

    struct OwnProgressor
    {
            World* w;
    };

    void preprocess(OwnModel& m, lue::Count const nr) { TestModel{*m.w}.preprocess(nr); }
    void initialize(OwnModel& m) { TestModel{*m.w}.initialize(); }
    auto simulate(OwnModel& m, lue::Count const t) -> hpx::shared_future<void> { return TestModel{*m.w}.simulate(t); }
    void finalize(OwnModel& m) { TestModel{*m.w}.finalize(); }
    void postprocess(OwnModel& m) { TestModel{*m.w}.postprocess(); }
    void preprocess(OwnProgressor& p, lue::Count const nr) { TestProgressor{*p.w}.preprocess(nr); }
    void initialize(OwnProgressor& p) { TestProgressor{*p.w}.initialize(); }
    void simulate(OwnProgressor& p, lue::Count const t) { TestProgressor{*p.w}.simulate(t); }
    void finalize(OwnProgressor& p) { TestProgressor{*p.w}.finalize(); }
    void postprocess(OwnProgressor& p) { TestProgressor{*p.w}.postprocess(); }

    enum class Run
    {
        simulate,
        deterministic,
        stochastic,
    };

    auto joined(std::vector<std::string> const& v) -> std::string
    {
        std::string result;
        for (auto const& e : v) result += (result.empty() ? "" : ", ") + e;
        return result;
    }

    template<typename Model, typename Progressor>
    void run(vh::Case& c, std::string const& name, World& w, Model& model, Progressor& progressor, Run const kind, std::int64_t const rate_limit, std::int64_t const nr_samples)
    {
        std::int64_t const n = w.last - w.first + 1;
        bool threw{false};
        try
        {
            switch (kind)
            {
                case Run::simulate: rate_limit == 0 && c.rng.chance(2) ? lue::simulate(model, progressor, w.first, w.last) : lue::simulate(model, progressor, w.first, w.last, rate_limit); break;
                case Run::deterministic: rate_limit == 0 && c.rng.chance(2) ? lue::run_deterministic(model, progressor, n) : lue::run_deterministic(model, progressor, n, rate_limit); break;
                case Run::stochastic: lue::run_stochastic(model, progressor, nr_samples, n, rate_limit); break;
            }
        }
        catch (Refused const& e)
        {
            threw = true;
        }

        // Nothing is under way anymore
        VH_CHECK(c, w.under_way() == 0, name + "-under-way", std::format("{} with {} of {} time steps under way", threw ? "failed" : "returned", w.under_way(), n));
        bool const must_throw = w.model_throws_at >= 0 || w.progressor_throws_at >= 0;
        VH_CHECK(c, threw == must_throw, name + "-exception", threw ? "exception out of nowhere" : "an exception got lost");
        for (auto const& p : w.problems) VH_CHECK(c, false, name + "-finalize", p);
        VH_CHECK(c, w.most <= w.limit, name + "-limit", std::format("{} time steps under way, with a limit of {} (steps {}-{}, rate_limit {})", w.most, w.limit, w.first, w.last, rate_limit));
        if (w.work == Work::window || w.work == Work::shuffled)
        {
            if (!must_throw && n > 0) VH_CHECK(c, w.most == std::min(w.limit, n), name + "-limit-used", std::format("at most {} time steps were under way", w.most));
        }

        // What was called
        std::int64_t const end = w.model_throws_at >= 0 ? w.model_throws_at : w.progressor_throws_at >= 0 ? w.progressor_throws_at : w.last;
        std::vector<std::string> model_events, progressor_events;
        std::vector<std::pair<char, std::int64_t>> steps;
        bool const all = kind != Run::simulate;
        for (std::int64_t sample = 1; sample <= (kind == Run::stochastic ? nr_samples : 1); ++sample)
        {
            auto const both = [&](std::string const& e) {
                model_events.push_back(e);
                progressor_events.push_back(e);
            };
            if (kind == Run::stochastic) both(std::format("preprocess {}", sample));
            if (all) both("initialize");
            for (std::int64_t t = w.first; t <= end; ++t)
            {
                model_events.push_back(std::format("simulate {}", t));
                steps.emplace_back('m', t);
                if (t == w.model_throws_at) break;
                progressor_events.push_back(std::format("simulate {}", t));
                steps.emplace_back('p', t);
            }
            if (must_throw) break;
            if (all) both("finalize");
            if (kind == Run::stochastic) both("postprocess");
        }
        if (must_throw)
        {
            // What else is called is up to them
            w.model_events.resize(std::min(w.model_events.size(), model_events.size()));
            w.progressor_events.resize(std::min(w.progressor_events.size(), progressor_events.size()));
        }
        VH_CHECK(c, w.model_events == model_events, name + "-model-calls", std::format("model: {}; expected: {}", joined(w.model_events), joined(model_events)));
        VH_CHECK(c, w.progressor_events == progressor_events, name + "-progressor-calls", std::format("progressor: {}; expected: {}", joined(w.progressor_events), joined(progressor_events)));
        VH_CHECK(c, w.steps == steps, name + "-step-order", "progress is not reported once, after each time step was started");
        c.count("model.steps", static_cast<std::uint64_t>(w.steps.size()));
        c.count("model.most-under-way", static_cast<std::uint64_t>(w.most));
        if (must_throw) c.count("model.exceptions");
        if (w.limit < n) c.count("model.limited-runs");
    }

    void simulation(vh::Case& c, std::string const& name, Run const kind, bool const own)
    {
        vh::with_hpx(c, static_cast<int>(c.rng.range(1, 2)), [&]() {
            World w{c};
            w.work = c.rng.pick<Work>({Work::none, Work::task, Work::window, Work::shuffled, Work::failing});
            std::int64_t const n = c.rng.chance(8) ? (kind == Run::simulate ? 1 : 0) : c.rng.chance(10) ? c.rng.range(20, 40) : c.rng.range(1, 12);
            w.first = kind == Run::simulate ? c.rng.pick<std::int64_t>({0, 1, 1, 2, 7, 1000, c.rng.range(1, 1000000)}) : 1;
            w.last = w.first + n - 1;
            std::int64_t const rate_limit = c.rng.chance(4) ? 0 : c.rng.chance(4) ? c.rng.range(1, 2) : c.rng.range(1, n + 2);
            w.limit = rate_limit == 0 ? std::max<std::int64_t>(n, 1) : rate_limit;
            if (n > 0 && c.rng.chance(4))
            {
                if (c.rng.chance(2)) w.model_throws_at = c.rng.range(w.first, w.last);
                else w.progressor_throws_at = c.rng.range(w.first, w.last);
            }
            std::int64_t const nr_samples = c.rng.range(0, 3);
            if (kind == Run::stochastic && nr_samples == 0) w.model_throws_at = w.progressor_throws_at = -1;
            c.op(name, std::format("work={} steps={}-{} limit={} throws={}/{} samples={}", static_cast<int>(w.work), w.first, w.last, rate_limit, w.model_throws_at, w.progressor_throws_at, nr_samples));
            if (kind == Run::stochastic && nr_samples == 0) w.work = Work::none;
            // Whatever happens, the tasks that are still there use the world
            std::exception_ptr exception;
            try
            {
                if (own)
                {
                    OwnModel model{&w};
                    OwnProgressor progressor{&w};
                    run(c, name, w, model, progressor, kind, rate_limit, nr_samples);
                }
                else
                {
                    TestModel model{w};
                    TestProgressor progressor{w};
                    run(c, name, w, model, progressor, kind, rate_limit, nr_samples);
                }
            }
            catch (...)
            {
                exception = std::current_exception();
            }
            w.release_all();
            vhpx::scheduler().drain();
            if (exception) std::rethrow_exception(exception);
        });
    }

    VH_TEST("simulate", simulation(c, n, Run::simulate, c.rng.chance(3)))
    VH_TEST("run-deterministic", simulation(c, n, Run::deterministic, c.rng.chance(3)))
    VH_TEST("run-stochastic", simulation(c, n, Run::stochastic, c.rng.chance(3)))

    // What LUE's own classes do by default
    VH_TEST("defaults", {
        vh::with_hpx(c, 1, [&]() {
            lue::Model model{};
            lue::Progressor progressor{};
            lue::Count const nr_steps = c.rng.range(0, 20);
            lue::Count const rate_limit = c.rng.range(0, 22);
            c.op("defaults", std::format("steps={} limit={}", nr_steps, rate_limit));
            lue::run_deterministic(model, progressor, nr_steps, rate_limit);
            lue::run_stochastic(model, progressor, c.rng.range(0, 3), nr_steps, rate_limit);
            VH_CHECK(c, lue::simulate(model, 1).is_ready(), "default-simulate", "default time step is not done");
        });
    })

}  // Anonymous namespace

int main(int argc, char** argv)
{
    return vh::run_tests(argc, argv);
}
