// A case that runs on the stand-in for HPX: random number of localities, random schedule; afterwards everything must have ended and been released
#pragma once
#include "vhpx/components.hpp"
#include "vh.hpp"
#include <unistd.h>

namespace vh {

    inline bool free_running{false};

    [[noreturn]] inline void report_and_exit(char const* kind, std::string const& message)
    {
        std::fflush(stdout);
        std::fprintf(stderr, "vhpx: %s: %s\n", kind, message.substr(0, 2000).c_str());
        std::fflush(stderr);
        _exit(96);
    }

    // Run f on the stand-in. Violations are passed on once all tasks have ended
    template<typename F>
    void with_hpx(Case& c, int const nr_localities, F&& f)
    {
        vhpx::Scheduler& scheduler = vhpx::Scheduler::instance();
        scheduler.report = [](char const* kind, std::string const& message) { report_and_exit(kind, message); };
        vhpx::Settings settings;
        settings.free = free_running;
        settings.seed = c.rng.next();
        settings.yield_percentage = c.rng.pick<unsigned>({0, 5, 30, 60});
        settings.nr_localities = nr_localities;
        settings.nr_worker_threads = static_cast<int>(c.rng.range(1, 4));
        c.op("hpx", std::format("localities={} yield={} threads={}", settings.nr_localities, settings.yield_percentage, settings.nr_worker_threads));
        scheduler.start(settings);
        std::exception_ptr exception;
        try
        {
            f();
        }
        catch (...)
        {
            exception = std::current_exception();
        }
        auto const last = c.last();
        scheduler.drain();
        auto const& s = scheduler.statistics;
        c.count("hpx.tasks", s.tasks);
        c.count("hpx.switches", s.switches);
        c.count("hpx.suspensions", s.suspensions);
        c.count("hpx.yields", s.yields);
        c.count("hpx.remote-actions", s.remote);
        c.count("hpx.components", s.components);
        if (free_running)
        {
            c.count("free.tasks", scheduler.free_tasks.load());
            c.count("free.most-tasks-per-case", scheduler.free_most_tasks.load());
        }
        c.op("schedule", std::format("{:x}", s.schedule));
        if (exception) std::rethrow_exception(exception);
        if (scheduler.nr_live_components.load() != 0)
            c.fail("components-remain:" + last, std::format("{} components still exist after everything that refers to them is gone", scheduler.nr_live_components.load()));
        if (vhpx::nr_registered_names() != 0)
            c.fail("names-remain:" + last, std::format("{} names are still registered", vhpx::nr_registered_names()));
    }

}  // namespace vh
