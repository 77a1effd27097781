#pragma once
#include "vhpx/scheduler.hpp"
#include <algorithm>
#include <array>
#include <chrono>
#include <iterator>
#include <optional>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <variant>

namespace vhpx {

    struct StateBase
    {
            std::mutex mutex;
            bool ready{false};
            std::exception_ptr exception;
            std::vector<Function> continuations;

            auto is_ready() -> bool
            {
                std::lock_guard lock{mutex};
                return ready;
            }

            auto has_exception() -> bool
            {
                std::lock_guard lock{mutex};
                return ready && exception;
            }

            // Called once, right now if the state is ready already
            void on_ready(Function&& function)
            {
                {
                    std::lock_guard lock{mutex};
                    if (!ready)
                    {
                        continuations.push_back(std::move(function));
                        return;
                    }
                }
                function();
            }

            void set_ready()
            {
                std::vector<Function> functions;
                {
                    std::lock_guard lock{mutex};
                    if (ready) scheduler().report("promise", "a value is set for the second time");
                    ready = true;
                    functions.swap(continuations);
                }
                for (Function& function : functions) function();
                scheduler().maybe_yield();
            }

            void set_exception(std::exception_ptr const& e)
            {
                exception = e;
                set_ready();
            }

            void wait()
            {
                scheduler().maybe_yield();
                {
                    std::lock_guard lock{mutex};
                    if (ready) return;
                    Task* const task = Scheduler::current();
                    if (task == nullptr) scheduler().report("wait", "waiting outside of a task");
                    continuations.push_back(Function{[task] { scheduler().resume(task); }});
                }
                scheduler().suspend();
            }
    };

    using StatePtr = std::shared_ptr<StateBase>;


    struct Unit
    {
    };


    template<typename T>
    struct State: StateBase
    {
            using Value = std::conditional_t<std::is_void_v<T>, Unit, T>;

            std::optional<Value> value;

            template<typename... U>
            void set_value(U&&... u)
            {
                value.emplace(std::forward<U>(u)...);
                set_ready();
            }
    };


    // Result of f, or the exception, ends in state
    template<typename T, typename F>
    void fulfill(State<T>& state, F&& f)
    {
        bool done{false};
        try
        {
            if constexpr (std::is_void_v<T>)
            {
                f();
                state.value.emplace();
            }
            else
            {
                state.value.emplace(f());
            }
            done = true;
        }
        catch (...)
        {
            state.exception = std::current_exception();
        }
        (void)done;
        state.set_ready();
    }

}  // namespace vhpx


namespace hpx {

    struct no_state: std::logic_error
    {
            no_state(): std::logic_error{"future has no state"} {}
    };

    // Type, instead of values, as in HPX
    struct launch
    {
            struct async_policy {};
            struct fork_policy {};
            struct sync_policy {};
            struct deferred_policy {};
            struct apply_policy {};
            static constexpr async_policy async{};
            static constexpr fork_policy fork{};
            static constexpr sync_policy sync{};
            static constexpr deferred_policy deferred{};
            static constexpr apply_policy apply{};
    };

    template<typename T> class future;
    template<typename T> class shared_future;

    template<typename... T> using tuple = std::tuple<T...>;
    using std::get;
    using std::make_tuple;
    using std::tie;
    using std::ignore;
    using std::forward_as_tuple;

    namespace traits {

        template<typename T> struct is_launch_policy: std::false_type {};
        template<> struct is_launch_policy<launch::async_policy>: std::true_type {};
        template<> struct is_launch_policy<launch::fork_policy>: std::true_type {};
        template<> struct is_launch_policy<launch::sync_policy>: std::true_type {};
        template<> struct is_launch_policy<launch::apply_policy>: std::true_type {};

        template<typename T> concept LaunchPolicy = is_launch_policy<std::decay_t<T>>::value;

        struct client_tag
        {
        };

        template<typename T> struct is_plain_future: std::false_type {};
        template<typename T> struct is_plain_future<future<T>>: std::true_type {};
        template<typename T> struct is_plain_future<shared_future<T>>: std::true_type {};

        template<typename T> concept Client = std::is_base_of_v<client_tag, std::decay_t<T>>;
        template<typename T> concept PlainFuture = is_plain_future<std::decay_t<T>>::value;
        template<typename T> concept Future = Client<T> || PlainFuture<T>;

        template<typename T> struct future_value { using type = T; };
        template<typename T> struct future_value<future<T>> { using type = T; };
        template<typename T> struct future_value<shared_future<T>> { using type = T; };

        template<typename T> struct is_future: std::bool_constant<Future<T>> {};
        template<typename T> inline constexpr bool is_future_v = is_future<T>::value;

    }  // namespace traits


    // Something with futures inside
    namespace detail {

        using vhpx::StatePtr;

        template<typename T> struct is_tuple: std::false_type {};
        template<typename... T> struct is_tuple<std::tuple<T...>>: std::true_type {};
        template<typename... T> struct is_tuple<std::pair<T...>>: std::true_type {};
        template<typename T, std::size_t n> struct is_tuple<std::array<T, n>>: std::true_type {};

        template<typename T>
        concept FutureRange = !traits::Future<T> && requires(std::decay_t<T>& t) {
            t.begin();
            t.end();
        } && traits::Future<decltype(*std::declval<std::decay_t<T>&>().begin())>;

        template<typename T>
        void collect(std::vector<StatePtr>& states, T const& t)
        {
            if constexpr (traits::Future<T>)
            {
                states.push_back(t.vhpx_state());
            }
            else if constexpr (FutureRange<T>)
            {
                for (auto it = t.begin(); it != t.end(); ++it) states.push_back(it->vhpx_state());
            }
            else if constexpr (is_tuple<T>::value)
            {
                std::apply([&](auto const&... e) { (collect(states, e), ...); }, t);
            }
        }

        // Futures without state do not have to be waited for
        inline void on_all_ready(std::vector<StatePtr> const& states, vhpx::Function&& function)
        {
            struct Counter
            {
                    std::atomic<std::size_t> nr;
                    vhpx::Function function;
            };
            auto const counter = std::make_shared<Counter>();
            counter->nr = 1;
            counter->function = std::move(function);
            auto const done = [counter] {
                if (counter->nr.fetch_sub(1) == 1) counter->function();
            };
            for (StatePtr const& state : states)
            {
                if (state != nullptr)
                {
                    counter->nr.fetch_add(1);
                    state->on_ready(vhpx::Function{done});
                }
            }
            done();
        }

        template<bool copy, typename U, typename T>
        void pass(std::shared_ptr<vhpx::State<U>> const& from, std::shared_ptr<vhpx::State<T>> const& to);

        template<typename Result, typename F, typename... Args>
        auto schedule(bool const inline_, int const locality, F&& f) -> std::shared_ptr<vhpx::State<Result>>
        {
            auto const state = std::make_shared<vhpx::State<Result>>();
            if (inline_)
            {
                vhpx::fulfill(*state, f);
            }
            else
            {
                vhpx::scheduler().spawn(locality, vhpx::Function{[state, f = std::forward<F>(f)]() mutable {
                                            auto const keep = state;
                                            {
                                                auto function = std::move(f);
                                                vhpx::fulfill(*keep, function);
                                            }
                                        }});
            }
            return state;
        }

        template<typename R> struct unwrap_once { using type = R; };
        template<typename R> struct unwrap_once<future<R>> { using type = R; };
        template<typename R> struct unwrap_once<shared_future<R>> { using type = R; };

    }  // namespace detail


    template<typename T>
    class future
    {
        public:

            using result_type = T;
            using value_type = T;

            future() noexcept = default;
            future(future const&) = delete;
            future(future&&) noexcept = default;
            future& operator=(future const&) = delete;
            future& operator=(future&&) noexcept = default;

            explicit future(std::shared_ptr<vhpx::State<T>> state): _state{std::move(state)} {}

            // Unwrap
            future(future<future<T>>&& other) { unwrap_from(std::move(other)); }
            future(future<shared_future<T>>&& other) { unwrap_from(std::move(other)); }

            // Conversion
            template<typename U>
                requires(!std::is_same_v<T, U> && (std::is_void_v<T> || std::is_convertible_v<U, T>) && !traits::PlainFuture<U>)
            explicit(!std::is_void_v<T>) future(future<U>&& other)
            {
                convert_from(std::move(other));
            }

            template<typename U>
                requires(std::is_void_v<T> && !std::is_void_v<U>)
            explicit future(shared_future<U> const& other)
            {
                convert_from(shared_future<U>{other});
            }

            auto valid() const noexcept -> bool { return _state != nullptr; }
            auto is_ready() const -> bool { return _state != nullptr && _state->is_ready(); }
            auto has_exception() const -> bool { return _state != nullptr && _state->has_exception(); }
            auto has_value() const -> bool { return is_ready() && !has_exception(); }

            auto get_exception_ptr() const -> std::exception_ptr
            {
                wait();
                return _state->exception;
            }

            void wait() const
            {
                if (_state == nullptr) throw no_state{};
                _state->wait();
            }

            auto get() -> T
            {
                if (_state == nullptr) throw no_state{};
                auto const state = std::move(_state);
                state->wait();
                if (state->exception) std::rethrow_exception(state->exception);
                if constexpr (!std::is_void_v<T>) return std::move(*state->value);
            }

            auto share() -> shared_future<T> { return shared_future<T>{std::move(*this)}; }

            template<typename F>
            auto then(F&& f)
            {
                return then(launch::async, std::forward<F>(f));
            }

            template<traits::LaunchPolicy Policy, typename F>
            auto then(Policy, F&& f)
            {
                if (_state == nullptr) throw no_state{};
                using Result = std::invoke_result_t<std::decay_t<F>&, future>;
                auto const state = _state;
                auto const result = std::make_shared<vhpx::State<Result>>();
                int const locality = vhpx::scheduler().locality();
                state->on_ready(vhpx::Function{[self = std::move(*this), f = std::decay_t<F>(std::forward<F>(f)), result, locality]() mutable {
                    auto run = [self = std::move(self), f = std::move(f), result]() mutable {
                        auto function = std::move(f);
                        auto argument = std::move(self);
                        vhpx::fulfill(*result, [&]() -> Result { return function(std::move(argument)); });
                    };
                    if constexpr (std::is_same_v<Policy, launch::sync_policy>) run();
                    else vhpx::scheduler().spawn(locality, vhpx::Function{std::move(run)});
                }});
                // Futures are unwrapped
                using Unwrapped = typename detail::unwrap_once<Result>::type;
                return future<Unwrapped>{future<Result>{result}};
            }

            auto vhpx_state() const -> std::shared_ptr<vhpx::StateBase> { return _state; }
            auto vhpx_typed_state() const -> std::shared_ptr<vhpx::State<T>> const& { return _state; }

        private:

            template<typename U> friend class future;

            template<typename F>
            void unwrap_from(F&& other)
            {
                auto const state = std::make_shared<vhpx::State<T>>();
                _state = state;
                auto const outer = other.vhpx_typed_state();
                if (outer == nullptr) { _state = nullptr; return; }
                outer->on_ready(vhpx::Function{[state, outer] {
                    if (outer->exception) { state->set_exception(outer->exception); return; }
                    auto inner = std::move(*outer->value);
                    auto const inner_state = inner.vhpx_typed_state();
                    if (inner_state == nullptr) { state->set_exception(std::make_exception_ptr(no_state{})); return; }
                    // Value is moved from a unique future, copied from a shared one
                    constexpr bool shared = std::is_same_v<decltype(inner), shared_future<T>>;
                    detail::pass<shared>(inner_state, state);
                }});
            }

            template<typename F>
            void convert_from(F&& other);

            std::shared_ptr<vhpx::State<T>> _state;
    };


    namespace detail {

        // When from is ready, its value goes to `to`
        template<bool copy, typename U, typename T>
        void pass(std::shared_ptr<vhpx::State<U>> const& from, std::shared_ptr<vhpx::State<T>> const& to)
        {
            from->on_ready(vhpx::Function{[from, to] {
                if (from->exception) to->set_exception(from->exception);
                else if constexpr (std::is_void_v<T>) to->set_value();
                else if constexpr (copy) to->set_value(*from->value);
                else to->set_value(std::move(*from->value));
            }});
        }

    }  // namespace detail


    template<typename T>
    class shared_future
    {
        public:

            using result_type = T;
            using value_type = T;

            shared_future() noexcept = default;
            shared_future(shared_future const&) = default;
            shared_future(shared_future&&) noexcept = default;
            shared_future& operator=(shared_future const&) = default;
            shared_future& operator=(shared_future&&) noexcept = default;

            explicit shared_future(std::shared_ptr<vhpx::State<T>> state): _state{std::move(state)} {}

            shared_future(future<T>&& other): _state{other.vhpx_typed_state()} { other = future<T>{}; }

            shared_future(future<future<T>>&& other): shared_future{future<T>{std::move(other)}} {}
            shared_future(future<shared_future<T>>&& other): shared_future{future<T>{std::move(other)}} {}

            template<typename U>
                requires(std::is_void_v<T> && !std::is_void_v<U> && !traits::PlainFuture<U>)
            explicit shared_future(future<U>&& other): shared_future{future<T>{std::move(other)}} {}

            // The state is still the other one's: as long as this one exists, the other one's value does
            template<typename U>
                requires(std::is_void_v<T> && !std::is_void_v<U> && !traits::PlainFuture<U>)
            shared_future(shared_future<U> const& other)
            {
                auto const from = other.vhpx_typed_state();
                if (from == nullptr) return;
                _state = std::shared_ptr<vhpx::State<T>>{new vhpx::State<T>{}, [from](vhpx::State<T>* state) { delete state; }};
                from->on_ready(vhpx::Function{[from = from.get(), to = _state] {
                    if (from->exception) to->set_exception(from->exception);
                    else to->set_value();
                }});
            }

            auto valid() const noexcept -> bool { return _state != nullptr; }
            auto is_ready() const -> bool { return _state != nullptr && _state->is_ready(); }
            auto has_exception() const -> bool { return _state != nullptr && _state->has_exception(); }
            auto has_value() const -> bool { return is_ready() && !has_exception(); }

            auto get_exception_ptr() const -> std::exception_ptr
            {
                wait();
                return _state->exception;
            }

            void wait() const
            {
                if (_state == nullptr) throw no_state{};
                _state->wait();
            }

            auto get() const -> std::add_lvalue_reference_t<std::add_const_t<T>>
                requires(!std::is_void_v<T>)
            {
                wait();
                if (_state->exception) std::rethrow_exception(_state->exception);
                return *_state->value;
            }

            void get() const
                requires(std::is_void_v<T>)
            {
                wait();
                if (_state->exception) std::rethrow_exception(_state->exception);
            }

            template<typename F>
            auto then(F&& f) const
            {
                return then(launch::async, std::forward<F>(f));
            }

            template<traits::LaunchPolicy Policy, typename F>
            auto then(Policy policy, F&& f) const
            {
                if (_state == nullptr) throw no_state{};
                return attach(policy, _state, *this, std::forward<F>(f));
            }

            auto vhpx_state() const -> std::shared_ptr<vhpx::StateBase> { return _state; }
            auto vhpx_typed_state() const -> std::shared_ptr<vhpx::State<T>> const& { return _state; }

            // Attach f(self) to what self waits for. Used by clients as well.
            template<typename Policy, typename Self, typename F>
            static auto attach(Policy, std::shared_ptr<vhpx::StateBase> const& state, Self self, F&& f)
            {
                using Result = std::invoke_result_t<std::decay_t<F>&, Self>;
                auto const result = std::make_shared<vhpx::State<Result>>();
                int const locality = vhpx::scheduler().locality();
                state->on_ready(vhpx::Function{[self = std::move(self), f = std::decay_t<F>(std::forward<F>(f)), result, locality]() mutable {
                    auto run = [self = std::move(self), f = std::move(f), result]() mutable {
                        auto function = std::move(f);
                        auto argument = std::move(self);
                        vhpx::fulfill(*result, [&]() -> Result { return function(std::move(argument)); });
                    };
                    if constexpr (std::is_same_v<Policy, launch::sync_policy>) run();
                    else vhpx::scheduler().spawn(locality, vhpx::Function{std::move(run)});
                }});
                using Unwrapped = typename detail::unwrap_once<Result>::type;
                return future<Unwrapped>{future<Result>{result}};
            }

        private:

            std::shared_ptr<vhpx::State<T>> _state;
    };


    template<typename T>
    template<typename F>
    void future<T>::convert_from(F&& other)
    {
        auto const from = other.vhpx_typed_state();
        if (from == nullptr) return;
        auto const to = std::make_shared<vhpx::State<T>>();
        _state = to;
        from->on_ready(vhpx::Function{[from, to] {
            if (from->exception) to->set_exception(from->exception);
            else if constexpr (std::is_void_v<T>) to->set_value();
            else to->set_value(std::move(*from->value));
        }});
    }


    template<typename T>
    class promise
    {
        public:

            promise(): _state{std::make_shared<vhpx::State<T>>()} {}
            promise(promise const&) = delete;
            promise(promise&&) noexcept = default;
            promise& operator=(promise const&) = delete;

            promise& operator=(promise&& other) noexcept
            {
                abandon();
                _state = std::move(other._state);
                _retrieved = other._retrieved;
                _set = other._set;
                return *this;
            }

            ~promise() { abandon(); }

            auto valid() const -> bool { return _state != nullptr; }

            auto get_future() -> future<T>
            {
                if (_retrieved) throw std::logic_error{"future of promise is already retrieved"};
                _retrieved = true;
                return future<T>{_state};
            }

            auto get_shared_future() -> shared_future<T>
            {
                _retrieved = true;
                return shared_future<T>{_state};
            }

            template<typename... U>
            void set_value(U&&... u)
            {
                _set = true;
                auto const state = _state;
                state->set_value(std::forward<U>(u)...);
            }

            void set_exception(std::exception_ptr e)
            {
                _set = true;
                auto const state = _state;
                state->set_exception(e);
            }

        private:

            void abandon() noexcept
            {
                // Not waited for: no harm
                if (_state != nullptr && !_set && _retrieved)
                {
                    _state->set_exception(std::make_exception_ptr(std::runtime_error{"broken promise"}));
                }
            }

            std::shared_ptr<vhpx::State<T>> _state;
            bool _retrieved{false};
            bool _set{false};
    };


    template<int = 0, typename T>
    auto make_ready_future(T&& t) -> future<std::decay_t<T>>
    {
        auto state = std::make_shared<vhpx::State<std::decay_t<T>>>();
        state->set_value(std::forward<T>(t));
        return future<std::decay_t<T>>{std::move(state)};
    }

    template<typename T, typename... Args>
        requires(!std::is_void_v<T>)
    auto make_ready_future(Args&&... args) -> future<T>
    {
        auto state = std::make_shared<vhpx::State<T>>();
        state->set_value(std::forward<Args>(args)...);
        return future<T>{std::move(state)};
    }

    inline auto make_ready_future() -> future<void>
    {
        auto state = std::make_shared<vhpx::State<void>>();
        state->set_value();
        return future<void>{std::move(state)};
    }

    template<typename T>
        requires(std::is_void_v<T>)
    auto make_ready_future() -> future<void>
    {
        return make_ready_future();
    }

    template<typename T>
    auto make_exceptional_future(std::exception_ptr const& e) -> future<T>
    {
        auto state = std::make_shared<vhpx::State<T>>();
        state->set_exception(e);
        return future<T>{std::move(state)};
    }


    // ---- when_all
    namespace detail {

        template<typename F>
        auto acquire(F& f) -> std::decay_t<F>
        {
            if constexpr (std::is_copy_constructible_v<std::decay_t<F>>) return f;
            else return std::move(f);
        }

        template<typename A>
        auto acquire_or_pass(A&& a) -> std::decay_t<A>
        {
            if constexpr (traits::Future<A>) return acquire(const_cast<std::decay_t<A>&>(static_cast<std::decay_t<A> const&>(a)));
            else return std::forward<A>(a);
        }

        template<typename Sequence>
        auto when_sequence(Sequence&& sequence) -> future<std::decay_t<Sequence>>
        {
            using S = std::decay_t<Sequence>;
            std::vector<StatePtr> states;
            collect(states, sequence);
            auto const result = std::make_shared<vhpx::State<S>>();
            on_all_ready(states, vhpx::Function{[result, sequence = std::move(sequence)]() mutable { result->set_value(std::move(sequence)); }});
            return future<S>{result};
        }

        template<typename T>
        concept IteratorLike = std::input_or_output_iterator<std::decay_t<T>> && !traits::Future<T>;

    }  // namespace detail

    template<detail::IteratorLike Iterator>
    auto when_all(Iterator begin, Iterator end)
    {
        using F = typename std::iterator_traits<Iterator>::value_type;
        std::vector<F> futures;
        for (; begin != end; ++begin) futures.push_back(detail::acquire(const_cast<F&>(static_cast<F const&>(*begin))));
        return detail::when_sequence(std::move(futures));
    }

    template<detail::IteratorLike Iterator>
    auto when_all_n(Iterator begin, std::size_t const nr)
    {
        return when_all(begin, std::next(begin, static_cast<std::ptrdiff_t>(nr)));
    }

    template<typename Range>
        requires(detail::FutureRange<Range> && !std::is_same_v<std::decay_t<Range>, std::vector<typename std::decay_t<Range>::value_type>>)
    auto when_all(Range&& range)
    {
        return when_all(range.begin(), range.end());
    }

    template<traits::Future F>
    auto when_all(std::vector<F>& futures)
    {
        return when_all(futures.begin(), futures.end());
    }

    template<traits::Future F>
    auto when_all(std::vector<F> const& futures)
    {
        return when_all(futures.begin(), futures.end());
    }

    template<traits::Future F>
    auto when_all(std::vector<F>&& futures) -> future<std::vector<F>>
    {
        return detail::when_sequence(std::move(futures));
    }

    template<typename... F>
        requires(traits::Future<F> && ...)
    auto when_all(F&&... futures) -> future<tuple<std::decay_t<F>...>>
    {
        return detail::when_sequence(tuple<std::decay_t<F>...>{detail::acquire(const_cast<std::decay_t<F>&>(static_cast<std::decay_t<F> const&>(futures)))...});
    }


    template<traits::Future F, std::size_t n>
    auto when_all(std::array<F, n>& futures) -> future<std::array<F, n>>
    {
        return detail::when_sequence(std::move(futures));
    }

    // Arguments that aren't futures are just passed on, as HPX does
    template<typename... A>
        requires(sizeof...(A) > 1 && (!traits::Future<A> || ...) && !(sizeof...(A) == 2 && (detail::IteratorLike<A> && ...)))
    auto when_all(A&&... arguments) -> future<tuple<std::decay_t<A>...>>
    {
        return detail::when_sequence(tuple<std::decay_t<A>...>{detail::acquire_or_pass(std::forward<A>(arguments))...});
    }

    template<typename Iterator>
        requires detail::IteratorLike<Iterator>
    void wait_all(Iterator begin, Iterator end)
    {
        for (; begin != end; ++begin)
        {
            if (auto const state = begin->vhpx_state()) state->wait();
        }
        // HPX: exceptions of what was waited for are thrown
    }

    template<typename... F>
        requires((traits::Future<F> || detail::FutureRange<F>) && ...)
    void wait_all(F const&... futures)
    {
        std::vector<detail::StatePtr> states;
        (detail::collect(states, futures), ...);
        for (auto const& state : states)
        {
            if (state != nullptr) state->wait();
        }
    }


    template<typename Sequence>
    struct when_any_result
    {
            std::size_t index{static_cast<std::size_t>(-1)};
            Sequence futures;
    };

    template<traits::Future F>
    auto when_any(std::vector<F>&& futures) -> future<when_any_result<std::vector<F>>>
    {
        using R = when_any_result<std::vector<F>>;
        struct Shared
        {
                std::mutex mutex;
                bool done{false};
                std::vector<F> futures;
        };
        auto const shared = std::make_shared<Shared>();
        auto const result = std::make_shared<vhpx::State<R>>();
        std::vector<detail::StatePtr> states;
        detail::collect(states, futures);
        shared->futures = std::move(futures);
        // Ones that are ready already are picked at random by starting anywhere
        for (std::size_t i = 0; i < states.size(); ++i)
        {
            if (states[i] == nullptr) continue;
            states[i]->on_ready(vhpx::Function{[shared, result, i] {
                std::vector<F> fs;
                {
                    std::lock_guard lock{shared->mutex};
                    if (shared->done) return;
                    shared->done = true;
                    fs = std::move(shared->futures);
                }
                result->set_value(R{i, std::move(fs)});
            }});
        }
        if (states.empty()) result->set_value(R{});
        return future<R>{result};
    }

    template<traits::Future F>
    auto when_any(std::vector<F>& futures)
    {
        std::vector<F> fs;
        for (F& f : futures) fs.push_back(detail::acquire(f));
        return when_any(std::move(fs));
    }

    template<traits::Future F>
    auto when_any(std::vector<F> const& futures)
    {
        return when_any(std::vector<F>{futures});
    }

    template<detail::IteratorLike Iterator>
    auto when_any(Iterator begin, Iterator end)
    {
        using F = typename std::iterator_traits<Iterator>::value_type;
        std::vector<F> fs;
        for (; begin != end; ++begin) fs.push_back(detail::acquire(*begin));
        return when_any(std::move(fs));
    }


    // ---- split_future
    namespace detail {

        template<typename Tuple, std::size_t... i>
        auto split_tuple(future<Tuple>&& f, std::index_sequence<i...>)
        {
            auto const from = f.vhpx_typed_state();
            if (from == nullptr) throw no_state{};
            auto const states = std::make_tuple(std::make_shared<vhpx::State<std::tuple_element_t<i, Tuple>>>()...);
            from->on_ready(vhpx::Function{[from, states] {
                if (from->exception) (std::get<i>(states)->set_exception(from->exception), ...);
                else (std::get<i>(states)->set_value(std::move(std::get<i>(*from->value))), ...);
            }});
            return tuple<future<std::tuple_element_t<i, Tuple>>...>{future<std::tuple_element_t<i, Tuple>>{std::get<i>(states)}...};
        }

    }  // namespace detail

    template<typename... T>
    auto split_future(future<tuple<T...>>&& f) -> tuple<future<T>...>
    {
        return detail::split_tuple(std::move(f), std::index_sequence_for<T...>{});
    }

    template<typename A, typename B>
    auto split_future(future<std::pair<A, B>>&& f)
    {
        return detail::split_tuple(std::move(f), std::index_sequence_for<A, B>{});
    }

    template<typename T>
    auto split_future(future<std::vector<T>>&& f, std::size_t const size) -> std::vector<future<T>>
    {
        auto const from = f.vhpx_typed_state();
        std::vector<std::shared_ptr<vhpx::State<T>>> states;
        std::vector<future<T>> result;
        for (std::size_t i = 0; i < size; ++i)
        {
            states.push_back(std::make_shared<vhpx::State<T>>());
            result.emplace_back(states.back());
        }
        from->on_ready(vhpx::Function{[from, states] {
            if (!from->exception && from->value->size() != states.size())
            {
                from->exception = std::make_exception_ptr(std::out_of_range{"split_future: size differs"});
            }
            for (std::size_t i = 0; i < states.size(); ++i)
            {
                if (from->exception) states[i]->set_exception(from->exception);
                else states[i]->set_value(std::move((*from->value)[i]));
            }
        }});
        return result;
    }


    // ---- unwrapping
    namespace detail {

        template<typename T>
        auto unwrap(T&& t)
        {
            using D = std::decay_t<T>;
            if constexpr (traits::PlainFuture<D>)
            {
                if constexpr (std::is_void_v<typename traits::future_value<D>::type>)
                {
                    t.get();
                    return std::tuple<>{};
                }
                else
                {
                    return std::tuple<typename traits::future_value<D>::type>{t.get()};
                }
            }
            else if constexpr (traits::Client<D>)
            {
                // The id
                return std::tuple<std::decay_t<decltype(t.get_id())>>{t.get_id()};
            }
            else if constexpr (FutureRange<D>)
            {
                using V = typename traits::future_value<std::decay_t<decltype(*t.begin())>>::type;
                if constexpr (traits::Client<V> || traits::Client<decltype(*t.begin())>)
                {
                    return std::tuple<D>{std::forward<T>(t)};
                }
                else if constexpr (std::is_void_v<V>)
                {
                    for (auto& f : t) f.get();
                    return std::tuple<>{};
                }
                else
                {
                    std::vector<V> result;
                    for (auto& f : t) result.push_back(f.get());
                    return std::tuple<std::vector<V>>{std::move(result)};
                }
            }
            else
            {
                return std::tuple<D>{std::forward<T>(t)};
            }
        }

    }  // namespace detail

    template<typename F>
    class Unwrapping
    {
        public:

            explicit Unwrapping(F f): _f{std::move(f)} {}

            template<typename... Args>
            auto operator()(Args&&... args) -> decltype(auto)
            {
                return std::apply(_f, std::tuple_cat(detail::unwrap(std::forward<Args>(args))...));
            }

        private:

            F _f;
    };

    template<typename F>
    auto unwrapping(F&& f) -> Unwrapping<std::decay_t<F>>
    {
        return Unwrapping<std::decay_t<F>>{std::forward<F>(f)};
    }

}  // namespace hpx
