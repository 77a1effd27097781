#pragma once
// Tasks, and the order in which they run.
//
// Each task is a thread. In `ordered` mode only one of them runs at a time, and which one is taken each time a task waits, ends, or starts or
// releases others is decided by a random generator: the schedule is a function of the seed, and a situation in which no task can continue is
// recognized. In `free` mode all of them run at the same time (for ThreadSanitizer; nothing is shared that would order unrelated tasks).
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <semaphore>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include <pthread.h>

namespace vhpx {

    // Callable that is called once
    class Function
    {
        private:

            struct Base
            {
                    virtual ~Base() = default;
                    virtual void call() = 0;
            };

            template<typename F>
            struct Holder: Base
            {
                    F f;
                    explicit Holder(F&& f): f{std::move(f)} {}
                    void call() override { f(); }
            };

            std::unique_ptr<Base> _base;

        public:

            Function() = default;

            template<typename F>
                requires(!std::is_same_v<std::decay_t<F>, Function>)
            Function(F&& f): _base{std::make_unique<Holder<std::decay_t<F>>>(std::decay_t<F>{std::forward<F>(f)})} {}

            explicit operator bool() const { return bool(_base); }

            void operator()()
            {
                auto base = std::move(_base);
                base->call();
            }
    };


    struct Task;

    // What a component's lock is for: only one task at a time, released while that one waits
    class Lock
    {
        public:

            void lock();
            bool try_lock();
            void unlock();

        private:

            std::mutex _mutex;         // Free
            bool _locked{false};       // Ordered
            std::vector<Task*> _waiters;
    };


    struct Task
    {
            Function function;
            int locality{0};
            std::vector<Lock*> held;  // Locks of components
            std::binary_semaphore baton{0};
            bool is_main{false};
    };


    // Message is printed, and the process ends
    using Report = void (*)(char const* kind, std::string const& message);


    struct Settings
    {
            bool free{false};
            std::uint64_t seed{1};
            unsigned yield_percentage{20};
            int nr_localities{1};
            int nr_worker_threads{4};
    };


    struct Statistics
    {
            std::uint64_t tasks{0}, switches{0}, suspensions{0}, yields{0}, remote{0}, components{0};
            std::uint64_t schedule{1469598103934665603ULL};  // Hash of the choices made
            std::size_t most_ready{0};
    };


    class Scheduler
    {
        public:

            static auto instance() -> Scheduler&
            {
                static Scheduler scheduler;
                return scheduler;
            }

            static auto current() -> Task*& { thread_local Task* task{nullptr}; return task; }

            Settings settings{};
            Statistics statistics{};
            std::atomic<std::int64_t> nr_live_components{0};
            std::atomic<std::uint64_t> free_tasks{0};
            std::atomic<std::int64_t> free_most_tasks{0};
            Report report{[](char const* kind, std::string const& message) {
                std::fprintf(stderr, "vhpx: %s: %s\n", kind, message.c_str());
                std::abort();
            }};

            void start(Settings const& s)
            {
                settings = s;
                statistics = Statistics{};
                _random = s.seed * 0x9e3779b97f4a7c15ULL + 12345;
                _main = std::make_unique<Task>();
                _main->is_main = true;
                current() = _main.get();
                _nr_tasks = 0;
                delay_seed() = s.seed;
                free_tasks = 0;
                free_most_tasks = 0;
            }

            // All that can still run does. Tasks that never will are reported.
            void drain()
            {
                if (settings.free)
                {
                    std::unique_lock lock{_free_mutex};
                    if (!_free_done.wait_for(lock, std::chrono::seconds(60), [&] { return _nr_tasks.load(std::memory_order_acquire) == 0; }))
                    {
                        report("deadlock", "tasks don't end");
                    }
                }
                else
                {
                    while (!_ready.empty())
                    {
                        _draining = true;
                        hand_over(current());
                    }
                    _draining = false;
                    if (_nr_tasks.load() != 0) report("deadlock", std::to_string(_nr_tasks.load()) + " task(s) can never continue");
                }
            }

            void spawn(int const locality, Function&& function)
            {
                if (settings.free)
                {
                    // Relaxed, where possible: counting tasks must not order them
                    auto const nr_tasks = _nr_tasks.fetch_add(1, std::memory_order_relaxed) + 1;
                    free_tasks.fetch_add(1, std::memory_order_relaxed);
                    if (auto most = free_most_tasks.load(std::memory_order_relaxed); nr_tasks > most)
                        free_most_tasks.compare_exchange_strong(most, nr_tasks, std::memory_order_relaxed);
                    std::uint64_t const seed = delay_random();
                    std::thread([this, locality, seed, function = std::move(function)]() mutable {
                        // Not released: another task may still be waking it up
                        auto* const task = new Task{};
                        task->locality = locality;
                        current() = task;
                        delay_seed() = seed;
                        delay();
                        function();
                        function = Function{};
                        current() = nullptr;
                        if (_nr_tasks.fetch_sub(1, std::memory_order_release) == 1)
                        {
                            std::lock_guard lock{_free_mutex};
                            _free_done.notify_all();
                        }
                    }).detach();
                    return;
                }
                ++statistics.tasks;
                _nr_tasks.fetch_add(1);
                auto task = new Task{};
                task->function = std::move(function);
                task->locality = locality;
                _ready.push_back(task);
                maybe_yield();
            }

            // Wait until resume() is called for this task, which must have been arranged for
            void suspend()
            {
                Task* const task = current();
                std::vector<Lock*> held{std::move(task->held)};
                task->held.clear();
                for (auto it = held.rbegin(); it != held.rend(); ++it) (*it)->unlock();
                suspend_raw();
                for (Lock* lock : held) lock->lock();
                task->held = std::move(held);
            }

            void suspend_raw()
            {
                Task* const task = current();
                if (settings.free)
                {
                    task->baton.acquire();
                    return;
                }
                ++statistics.suspensions;
                hand_over(task);
            }

            void resume(Task* const task)
            {
                if (settings.free) task->baton.release();
                else _ready.push_back(task);
            }

            void maybe_yield()
            {
                if (settings.free)
                {
                    delay();
                    return;
                }
                if (current() == nullptr) return;
                if (!_ready.empty() && below(100) < settings.yield_percentage)
                {
                    ++statistics.yields;
                    Task* const task = current();
                    _ready.push_back(task);
                    hand_over(task);
                }
            }

            auto locality() const -> int { return current() != nullptr ? current()->locality : 0; }

        private:

            std::uint64_t _random{0};
            std::vector<Task*> _ready;
            std::unique_ptr<Task> _main;
            std::atomic<std::int64_t> _nr_tasks{0};
            bool _draining{false};
            std::mutex _free_mutex;
            std::condition_variable _free_done;

            // Free: what a thread does may take longer now and then
            static auto delay_seed() -> std::uint64_t& { thread_local std::uint64_t seed{1}; return seed; }

            static auto delay_random() -> std::uint64_t
            {
                std::uint64_t& s = delay_seed();
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                if (s == 0) s = 88172645463325252ULL;
                return s * 0x2545f4914f6cdd1dULL;
            }

            void delay() const
            {
                if ((delay_random() >> 33) % 100 >= settings.yield_percentage) return;
                auto const n = (delay_random() >> 33) % 8;
                if (n < 6) std::this_thread::yield();
                else std::this_thread::sleep_for(std::chrono::microseconds(n == 6 ? 20 : 200));
            }

            auto next_random() -> std::uint64_t
            {
                _random += 0x9e3779b97f4a7c15ULL;
                std::uint64_t z = _random;
                z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
                z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
                return z ^ (z >> 31);
            }

            auto below(std::uint64_t const n) -> std::uint64_t { return n == 0 ? 0 : next_random() % n; }

            struct Thread
            {
                    Task* task{nullptr};
                    std::binary_semaphore wake{0};
            };

            std::vector<Thread*> _idle;

            // Let a task which is ready run. Returns when it is the turn of this task again.
            void hand_over(Task* const self)
            {
                Task* const next = choose();
                if (next == self) return;
                run(next);
                self->baton.acquire();
            }

            auto choose() -> Task*
            {
                if (_ready.empty())
                {
                    if (_draining)
                    {
                        _draining = false;
                        return _main.get();
                    }
                    report("deadlock", "all tasks wait (" + std::to_string(_nr_tasks.load()) + ")");
                    std::abort();
                }
                statistics.most_ready = std::max(statistics.most_ready, _ready.size());
                std::size_t const idx = below(_ready.size());
                Task* const task = _ready[idx];
                _ready.erase(_ready.begin() + static_cast<std::ptrdiff_t>(idx));
                ++statistics.switches;
                statistics.schedule = (statistics.schedule ^ idx ^ (_ready.size() << 8)) * 1099511628211ULL;
                return task;
            }

            void run(Task* const task)
            {
                if (!task->function)
                {
                    task->baton.release();
                    return;
                }
                // Not started yet
                Thread* thread;
                if (!_idle.empty())
                {
                    thread = _idle.back();
                    _idle.pop_back();
                    thread->task = task;
                    thread->wake.release();
                }
                else
                {
                    thread = new Thread{};
                    thread->task = task;
                    pthread_attr_t attributes;
                    pthread_attr_init(&attributes);
                    pthread_attr_setstacksize(&attributes, 2 * 1024 * 1024);
                    pthread_attr_setdetachstate(&attributes, PTHREAD_CREATE_DETACHED);
                    pthread_t id;
                    if (pthread_create(&id, &attributes, &Scheduler::thread_main, thread) != 0)
                    {
                        std::fprintf(stderr, "vhpx: cannot create thread\n");
                        std::_Exit(99);
                    }
                    pthread_attr_destroy(&attributes);
                }
            }

            static auto thread_main(void* argument) -> void*
            {
                auto thread = static_cast<Thread*>(argument);
                auto& scheduler = instance();
                while (true)
                {
                    Task* const task = thread->task;
                    thread->task = nullptr;
                    current() = task;
                    {
                        Function function{std::move(task->function)};
                        function();
                    }
                    scheduler._nr_tasks.fetch_sub(1);
                    delete task;
                    current() = nullptr;
                    Task* const next = scheduler.choose();
                    if (next->function)
                    {
                        // Run it in this thread
                        thread->task = next;
                        continue;
                    }
                    scheduler._idle.push_back(thread);
                    next->baton.release();
                    thread->wake.acquire();
                }
                return nullptr;
            }
    };


    inline auto scheduler() -> Scheduler& { return Scheduler::instance(); }


    inline void Lock::lock()
    {
        if (scheduler().settings.free)
        {
            _mutex.lock();
            return;
        }
        scheduler().maybe_yield();
        while (_locked)
        {
            _waiters.push_back(Scheduler::current());
            scheduler().suspend_raw();
        }
        _locked = true;
    }

    inline bool Lock::try_lock()
    {
        if (scheduler().settings.free) return _mutex.try_lock();
        if (_locked) return false;
        _locked = true;
        return true;
    }

    inline void Lock::unlock()
    {
        if (scheduler().settings.free)
        {
            _mutex.unlock();
            return;
        }
        _locked = false;
        std::vector<Task*> const waiters{std::move(_waiters)};
        _waiters.clear();
        for (Task* const task : waiters) scheduler().resume(task);
    }

}  // namespace vhpx
