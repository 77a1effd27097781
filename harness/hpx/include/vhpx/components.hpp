#pragma once
// Localities, components, clients and actions
#include "vhpx/serialization.hpp"
#include <cassert>
#include <compare>
#include <cstdint>
#include <functional>
#include <iostream>
#include <ostream>

namespace vhpx {

    // What an id of a component refers to
    struct Object
    {
            std::uint64_t gid{next_gid()};
            int locality{0};
            Lock lock;

            Object() = default;
            Object(Object const&) = delete;

            virtual ~Object() = default;

            static auto next_gid() -> std::uint64_t
            {
                static std::atomic<std::uint64_t> gid{0};
                return ++gid;
            }
    };

    template<typename Server>
    struct Holder: Object
    {
            std::unique_ptr<Server> server;

            Holder() { scheduler().nr_live_components.fetch_add(1, std::memory_order_relaxed); }

            ~Holder() override
            {
                server.reset();
                scheduler().nr_live_components.fetch_sub(1, std::memory_order_relaxed);
            }
    };

}  // namespace vhpx

namespace hpx {

    class id_type
    {
        public:

            using vhpx_special_tag = void;

            enum management_type { unmanaged, managed };

            id_type() = default;
            explicit id_type(int const locality): _locality{locality} {}
            explicit id_type(std::shared_ptr<vhpx::Object> object): _object{std::move(object)} {}

            explicit operator bool() const { return _object != nullptr || _locality >= 0; }

            auto vhpx_locality() const -> int { return _object != nullptr ? _object->locality : _locality; }
            auto vhpx_object() const -> std::shared_ptr<vhpx::Object> const& { return _object; }
            auto vhpx_is_locality() const -> bool { return _object == nullptr; }
            auto vhpx_key() const -> std::uint64_t
            {
                return _object != nullptr ? (std::uint64_t{1} << 62) + _object->gid : static_cast<std::uint64_t>(static_cast<std::int64_t>(_locality) + 1);
            }

            friend auto operator==(id_type const& a, id_type const& b) -> bool { return a.vhpx_key() == b.vhpx_key(); }
            friend auto operator<=>(id_type const& a, id_type const& b) -> std::strong_ordering { return a.vhpx_key() <=> b.vhpx_key(); }
            friend auto operator<<(std::ostream& s, id_type const& id) -> std::ostream& { return s << "{" << id.vhpx_key() << "}"; }

            void vhpx_save(serialization::output_archive& a) const
            {
                a & _locality;
                a.vhpx.objects.push_back(_object);
            }

            void vhpx_load(serialization::input_archive& a)
            {
                a & _locality;
                if (a.vhpx.object >= a.vhpx.objects.size()) vhpx::scheduler().report("serialization", "more ids are read than written");
                _object = a.vhpx.objects[a.vhpx.object++];
            }

        private:

            std::shared_ptr<vhpx::Object> _object;
            int _locality{-1};
    };

    inline id_type const invalid_id{};

    // ---- localities
    inline auto find_here() -> id_type { return id_type{vhpx::scheduler().locality()}; }
    inline auto find_root_locality() -> id_type { return id_type{0}; }
    inline auto get_locality_id() -> std::uint32_t { return static_cast<std::uint32_t>(vhpx::scheduler().locality()); }
    namespace agas {
        inline auto get_locality_id() -> std::uint32_t { return hpx::get_locality_id(); }
        inline void garbage_collect() {}
    }  // namespace agas
    inline auto find_all_localities() -> std::vector<id_type>
    {
        std::vector<id_type> result;
        for (int i = 0; i < vhpx::scheduler().settings.nr_localities; ++i) result.emplace_back(i);
        return result;
    }
    inline auto find_remote_localities() -> std::vector<id_type>
    {
        std::vector<id_type> result;
        for (int i = 0; i < vhpx::scheduler().settings.nr_localities; ++i)
        {
            if (i != vhpx::scheduler().locality()) result.emplace_back(i);
        }
        return result;
    }
    inline auto get_num_localities() -> future<std::uint32_t> { return make_ready_future(static_cast<std::uint32_t>(vhpx::scheduler().settings.nr_localities)); }
    inline auto get_num_localities(launch::sync_policy) -> std::uint32_t { return static_cast<std::uint32_t>(vhpx::scheduler().settings.nr_localities); }
    inline auto get_initial_num_localities() -> std::uint32_t { return static_cast<std::uint32_t>(vhpx::scheduler().settings.nr_localities); }
    inline auto get_num_worker_threads() -> std::size_t { return static_cast<std::size_t>(vhpx::scheduler().settings.nr_worker_threads); }
    inline auto get_os_thread_count() -> std::size_t { return get_num_worker_threads(); }
    inline auto get_worker_thread_num() -> std::size_t { return 0; }
    inline auto get_thread_name() -> std::string { return "vhpx"; }
    inline auto get_locality_name() -> std::string { return "locality"; }
    inline auto get_locality_name(id_type const& id) -> future<std::string> { return make_ready_future("locality#" + std::to_string(id.vhpx_locality())); }
    inline auto get_colocation_id(launch::sync_policy, id_type const& id) -> id_type
    {
        if (!id) throw std::invalid_argument{"get_colocation_id: invalid id"};
        return id_type{id.vhpx_locality()};
    }
    inline auto get_config_entry(std::string const&, std::string const& value) -> std::string { return value; }


    // ---- components
    namespace components {

        struct component_tag
        {
        };

        template<typename T>
        class component_base: public component_tag
        {
            public:

                using wrapped_type = T;
                using wrapping_type = T;
                using type_holder = T;
                using base_type_holder = T;

                static constexpr bool vhpx_locks = false;

                component_base() = default;
                component_base(component_base const&) {}
                component_base(component_base&&) noexcept {}
                component_base& operator=(component_base const&) { return *this; }
                component_base& operator=(component_base&&) noexcept { return *this; }

                auto get_id() const -> id_type { return id_type{vhpx_object.lock()}; }
                auto get_unmanaged_id() const -> id_type { return get_id(); }

                std::weak_ptr<vhpx::Object> vhpx_object;
        };

        template<typename Base>
        class locking_hook: public Base
        {
            public:

                using Base::Base;
                static constexpr bool vhpx_locks = true;
        };

        template<typename Base>
        class migration_support: public Base
        {
            public:

                using Base::Base;
        };

        template<typename T> class component
        {
        };

        template<typename Derived, typename Server>
        class client_base: public traits::client_tag
        {
            public:

                using server_component_type = Server;
                using vhpx_special_tag = void;
                using vhpx_client_tag = void;
                using vhpx_server = Server;

                client_base() = default;

                explicit client_base(id_type const& id): _state{std::make_shared<vhpx::State<id_type>>()} { _state->set_value(id); }

                explicit client_base(future<id_type>&& f): _state{f.vhpx_typed_state()} { f = future<id_type>{}; }
                explicit client_base(shared_future<id_type> const& f): _state{f.vhpx_typed_state()} {}

                explicit client_base(future<Derived>&& f)
                {
                    auto const from = f.vhpx_typed_state();
                    f = future<Derived>{};
                    if (from == nullptr) return;
                    _state = std::make_shared<vhpx::State<id_type>>();
                    auto const to = _state;
                    from->on_ready(vhpx::Function{[from, to] {
                        if (from->exception) return to->set_exception(from->exception);
                        auto const inner = from->value->vhpx_typed_state();
                        if (inner == nullptr) return to->set_exception(std::make_exception_ptr(no_state{}));
                        detail::pass<true>(inner, to);
                    }});
                }

                explicit client_base(future<future<Derived>>&& f): client_base{future<Derived>{std::move(f)}} {}

                client_base(client_base const&) = default;
                client_base(client_base&&) noexcept = default;
                client_base& operator=(client_base const&) = default;
                client_base& operator=(client_base&&) noexcept = default;

                auto valid() const -> bool { return _state != nullptr; }
                explicit operator bool() const { return valid(); }
                auto is_ready() const -> bool { return _state != nullptr && _state->is_ready(); }
                auto has_exception() const -> bool { return _state != nullptr && _state->has_exception(); }
                auto has_value() const -> bool { return is_ready() && !has_exception(); }

                void wait() const
                {
                    if (_state == nullptr) throw no_state{};
                    _state->wait();
                }

                auto get() const -> id_type const& { return get_id(); }

                auto get_id() const -> id_type const&
                {
                    if (_state == nullptr) throw no_state{};
                    _state->wait();
                    if (_state->exception) std::rethrow_exception(_state->exception);
                    return *_state->value;
                }

                auto get_exception_ptr() const -> std::exception_ptr
                {
                    wait();
                    return _state->exception;
                }

                auto share() const -> shared_future<id_type> { return shared_future<id_type>{_state}; }

                template<typename F>
                auto then(F&& f) const
                {
                    return then(launch::async, std::forward<F>(f));
                }

                template<traits::LaunchPolicy Policy, typename F>
                auto then(Policy policy, F&& f) const
                {
                    if (_state == nullptr) throw no_state{};
                    return shared_future<id_type>::attach(policy, _state, static_cast<Derived const&>(*this), std::forward<F>(f));
                }

                void free() { _state.reset(); }
                void reset() { _state.reset(); }

                auto vhpx_state() const -> std::shared_ptr<vhpx::StateBase> { return _state; }
                auto vhpx_typed_state() const -> std::shared_ptr<vhpx::State<id_type>> const& { return _state; }

                void vhpx_save(serialization::output_archive& a) const
                {
                    a & shared_future<id_type>{_state};
                }

                void vhpx_load(serialization::input_archive& a)
                {
                    shared_future<id_type> f;
                    a & f;
                    _state = f.vhpx_typed_state();
                }

            private:

                std::shared_ptr<vhpx::State<id_type>> _state;
        };

    }  // namespace components

}  // namespace hpx

template<>
struct std::hash<hpx::id_type>
{
        auto operator()(hpx::id_type const& id) const -> std::size_t { return std::hash<std::uint64_t>{}(id.vhpx_key()); }
};

namespace vhpx {

    template<typename T>
    auto serialized(T const& t) -> Archive
    {
        Archive archive;
        hpx::serialization::output_archive a{archive};
        a & t;
        return archive;
    }

    template<typename T>
    auto deserialized(Archive& archive) -> T
    {
        T t{};
        hpx::serialization::input_archive a{archive};
        a & t;
        if (archive.position != archive.bytes.size() || archive.object != archive.objects.size()) scheduler().report("serialization", "less is read than written");
        return t;
    }

    // Futures and clients in something which is sent
    template<typename T>
    void collect_deep(std::vector<StatePtr>& states, T const& t)
    {
        if constexpr (hpx::traits::Future<T>) states.push_back(t.vhpx_state());
        else if constexpr (hpx::detail::is_tuple<T>::value) std::apply([&](auto const&... e) { (collect_deep(states, e), ...); }, t);
        else if constexpr (!std::is_same_v<T, std::string> && requires { t.begin(); t.end(); typename T::value_type; })
        {
            if constexpr (!std::is_arithmetic_v<typename T::value_type>)
            {
                for (auto const& e : t) collect_deep(states, e);
            }
        }
    }

    template<typename R> struct ActionResult { using type = R; static constexpr bool future = false; };
    template<typename R> struct ActionResult<hpx::future<R>> { using type = R; static constexpr bool future = true; };

    // Runs call() and puts its result in state. When it is a future, its value.
    template<typename Result, typename Call>
    void run_action(std::shared_ptr<State<typename ActionResult<Result>::type>> const& state, Call&& call)
    {
        using Value = typename ActionResult<Result>::type;
        if constexpr (ActionResult<Result>::future)
        {
            Result inner;
            try
            {
                inner = call();
            }
            catch (...)
            {
                state->set_exception(std::current_exception());
                return;
            }
            hpx::detail::pass<!std::is_same_v<Result, hpx::future<Value>>>(inner.vhpx_typed_state(), state);
        }
        else
        {
            fulfill<Value>(*state, std::forward<Call>(call));
        }
    }

    // Result of type Value computed elsewhere is sent to where it is expected
    template<typename Value>
    void send_result(std::shared_ptr<State<Value>> const& from, std::shared_ptr<State<Value>> const& to, int const locality)
    {
        auto const send = [from, to, locality] {
            auto const archive = std::make_shared<Archive>();
            if (!from->exception)
            {
                if constexpr (!std::is_void_v<Value>) *archive = serialized(*from->value);
            }
            scheduler().spawn(locality, Function{[from, to, archive] {
                                  if (from->exception) return to->set_exception(from->exception);
                                  if constexpr (std::is_void_v<Value>) to->set_value();
                                  else to->set_value(deserialized<Value>(*archive));
                              }});
        };
        from->on_ready(Function{[from, send] {
            std::vector<StatePtr> states;
            if constexpr (!std::is_void_v<Value>)
            {
                if (!from->exception) collect_deep(states, *from->value);
            }
            hpx::detail::on_all_ready(states, Function{send});
        }});
    }

    // Perform call(arguments) on the locality, in a task there. Arguments and result are serialized when that is elsewhere.
    template<typename Result, typename Arguments, typename Call>
    auto perform(int const target, Arguments&& arguments, Call call) -> hpx::future<typename ActionResult<Result>::type>
    {
        using Value = typename ActionResult<Result>::type;
        auto const state = std::make_shared<State<Value>>();
        int const here = scheduler().locality();
        if (target == here)
        {
            scheduler().spawn(target, Function{[state, arguments = std::move(arguments), call = std::move(call)]() mutable {
                                  run_action<Result>(state, [&]() -> Result { return call(arguments); });
                              }});
        }
        else
        {
            if (!scheduler().settings.free) ++scheduler().statistics.remote;
            std::vector<StatePtr> states;
            collect_deep(states, arguments);
            auto const shared = std::make_shared<std::decay_t<Arguments>>(std::move(arguments));
            hpx::detail::on_all_ready(states, Function{[state, target, here, shared, call = std::move(call)]() mutable {
                                          auto const archive = std::make_shared<Archive>(serialized(*shared));
                                          scheduler().spawn(target, Function{[state, here, archive, call = std::move(call)]() mutable {
                                                                auto const there = std::make_shared<State<Value>>();
                                                                auto received = deserialized<std::decay_t<Arguments>>(*archive);
                                                                run_action<Result>(there, [&]() -> Result { return call(received); });
                                                                send_result(there, state, here);
                                                            }});
                                      }});
        }
        return hpx::future<Value>{state};
    }

    // Action whose function is a member of a component
    template<typename Server, typename Result, bool is_const, typename... Parameters>
    struct ComponentActionBase
    {
            using arguments_type = std::tuple<std::decay_t<Parameters>...>;
            using result_type = Result;
            using local_result_type = Result;
            using vhpx_action_tag = void;
            using vhpx_server = Server;

            template<auto f, typename... Arguments>
            static auto start(hpx::id_type const& id, Arguments&&... arguments)
            {
                static_assert(sizeof...(Arguments) == sizeof...(Parameters));
                if (!id || id.vhpx_is_locality()) throw std::invalid_argument{"action: id is not the id of a component"};
                auto const object = id.vhpx_object();
                if (dynamic_cast<Holder<Server>*>(object.get()) == nullptr) scheduler().report("action", "component is of another type");
                return perform<Result>(object->locality, arguments_type{std::forward<Arguments>(arguments)...}, [object](arguments_type& values) -> Result {
                    Server& server = *static_cast<Holder<Server>*>(object.get())->server;
                    auto const call = [&]() -> Result { return std::apply([&](auto&... v) -> Result { return (server.*f)(static_cast<Parameters&&>(v)...); }, values); };
                    if constexpr (Server::vhpx_locks)
                    {
                        struct Guard
                        {
                                Lock& lock;
                                explicit Guard(Lock& l): lock{l}
                                {
                                    lock.lock();
                                    Scheduler::current()->held.push_back(&lock);
                                }
                                ~Guard()
                                {
                                    std::erase(Scheduler::current()->held, &lock);
                                    lock.unlock();
                                }
                        } const guard{object->lock};
                        return call();
                    }
                    else
                    {
                        return call();
                    }
                });
            }
    };

    template<typename F> struct ActionTraits;

    template<typename S, typename R, typename... P>
    struct ActionTraits<R (S::*)(P...)> { using Base = ComponentActionBase<S, R, false, P...>; };
    template<typename S, typename R, typename... P>
    struct ActionTraits<R (S::*)(P...) const> { using Base = ComponentActionBase<S, R, true, P...>; };

    template<typename Result, typename... Parameters>
    struct PlainActionBase
    {
            using arguments_type = std::tuple<std::decay_t<Parameters>...>;
            using result_type = Result;
            using vhpx_action_tag = void;

            template<auto f, typename... Arguments>
            static auto start(hpx::id_type const& id, Arguments&&... arguments)
            {
                static_assert(sizeof...(Arguments) == sizeof...(Parameters));
                if (!id) throw std::invalid_argument{"action: invalid id"};
                return perform<Result>(id.vhpx_locality(), arguments_type{std::forward<Arguments>(arguments)...}, [](arguments_type& values) -> Result {
                    return std::apply([&](auto&... v) -> Result { return f(static_cast<Parameters&&>(v)...); }, values);
                });
            }
    };

    template<typename R, typename... P>
    struct ActionTraits<R (*)(P...)> { using Base = PlainActionBase<R, P...>; };

    template<typename F, auto f>
    struct Action: ActionTraits<F>::Base
    {
            using Base = typename ActionTraits<F>::Base;

            template<typename... Arguments>
            static auto vhpx_start(hpx::id_type const& id, Arguments&&... arguments)
            {
                return Base::template start<f>(id, std::forward<Arguments>(arguments)...);
            }

            // Waits for the result
            template<typename... Arguments>
            auto operator()(hpx::id_type const& id, Arguments&&... arguments) const
            {
                return vhpx_start(id, std::forward<Arguments>(arguments)...).get();
            }
    };

    template<typename T> concept IsAction = requires { typename std::decay_t<T>::vhpx_action_tag; };

    template<typename T>
    auto id_of(T const& t) -> hpx::id_type
    {
        if constexpr (hpx::traits::Client<T>) return t.get_id();
        else return t;
    }

}  // namespace vhpx

namespace hpx {

    namespace actions {

        template<typename F, F f, typename Derived = void>
        struct make_action
        {
                using type = vhpx::Action<F, f>;
        };

    }  // namespace actions

    // ---- async, post, dataflow
    template<vhpx::IsAction A, typename Id, typename... Arguments>
    auto async(A&&, Id const& id, Arguments&&... arguments)
    {
        return std::decay_t<A>::vhpx_start(vhpx::id_of(id), std::forward<Arguments>(arguments)...);
    }

    template<vhpx::IsAction A, typename Id, typename... Arguments>
        requires(std::is_same_v<std::decay_t<Id>, id_type> || traits::Client<Id>)
    auto async(Id const& id, Arguments&&... arguments)
    {
        return A::vhpx_start(vhpx::id_of(id), std::forward<Arguments>(arguments)...);
    }

    template<traits::LaunchPolicy Policy, vhpx::IsAction A, typename Id, typename... Arguments>
    auto async(Policy, A&&, Id const& id, Arguments&&... arguments)
    {
        auto f = std::decay_t<A>::vhpx_start(vhpx::id_of(id), std::forward<Arguments>(arguments)...);
        if constexpr (std::is_same_v<Policy, launch::sync_policy>) f.wait();
        return f;
    }

    template<traits::LaunchPolicy Policy, typename F, typename... Arguments>
        requires(!vhpx::IsAction<F>)
    auto async(Policy, F&& f, Arguments&&... arguments)
    {
        using Result = std::invoke_result_t<std::decay_t<F>, std::decay_t<Arguments>...>;
        auto const state = detail::schedule<Result>(
            std::is_same_v<Policy, launch::sync_policy>,
            vhpx::scheduler().locality(),
            [f = std::decay_t<F>(std::forward<F>(f)), arguments = std::tuple<std::decay_t<Arguments>...>{std::forward<Arguments>(arguments)...}]() mutable -> Result {
                return std::apply([&](auto&... a) -> Result { return std::invoke(std::move(f), std::move(a)...); }, arguments);
            });
        return future<Result>{state};
    }

    template<typename F, typename... Arguments>
        requires(!vhpx::IsAction<F> && !traits::LaunchPolicy<F> && !std::is_same_v<std::decay_t<F>, id_type>)
    auto async(F&& f, Arguments&&... arguments)
    {
        return async(launch::async, std::forward<F>(f), std::forward<Arguments>(arguments)...);
    }

    template<typename F, typename... Arguments>
    void post(F&& f, Arguments&&... arguments)
    {
        async(std::forward<F>(f), std::forward<Arguments>(arguments)...);
    }

    namespace detail {

        template<typename T>
        auto dataflow_argument(T&& t) -> std::decay_t<T>
        {
            if constexpr (std::is_rvalue_reference_v<T&&> || !std::is_copy_constructible_v<std::decay_t<T>>)
            {
                return std::move(const_cast<std::decay_t<T>&>(static_cast<std::decay_t<T> const&>(t)));
            }
            else return t;
        }

        template<bool sync, typename F, typename... Arguments>
        auto dataflow_function(F&& f, Arguments&&... arguments)
        {
            using Values = std::tuple<std::decay_t<Arguments>...>;
            using Result = std::invoke_result_t<std::decay_t<F>&, std::decay_t<Arguments>...>;
            auto const values = std::make_shared<Values>(dataflow_argument(std::forward<Arguments>(arguments))...);
            std::vector<StatePtr> states;
            collect(states, *values);
            auto const state = std::make_shared<vhpx::State<Result>>();
            int const locality = vhpx::scheduler().locality();
            on_all_ready(states, vhpx::Function{[state, locality, values, f = std::decay_t<F>(std::forward<F>(f))]() mutable {
                             auto run = [state, values = std::move(*values), f = std::move(f)]() mutable {
                                 vhpx::fulfill(*state, [&]() -> Result { return std::apply([&](auto&... v) -> Result { return f(std::move(v)...); }, values); });
                             };
                             if constexpr (sync) run();
                             else vhpx::scheduler().spawn(locality, vhpx::Function{std::move(run)});
                         }});
            if constexpr (traits::PlainFuture<Result>)
            {
                return future<typename unwrap_once<Result>::type>{future<Result>{state}};
            }
            else
            {
                return future<Result>{state};
            }
        }

    }  // namespace detail

    template<traits::LaunchPolicy Policy, typename F, typename... Arguments>
        requires(!vhpx::IsAction<F>)
    auto dataflow(Policy, F&& f, Arguments&&... arguments)
    {
        return detail::dataflow_function<std::is_same_v<std::decay_t<Policy>, launch::sync_policy>>(std::forward<F>(f), std::forward<Arguments>(arguments)...);
    }

    template<traits::LaunchPolicy Policy, vhpx::IsAction A, typename... Arguments>
    auto dataflow(Policy, A&& action, id_type const& id, Arguments&&... arguments)
    {
        return detail::dataflow_function<true>(
            [id, action](auto&&... values) { return async(action, id, std::move(values)...); }, std::forward<Arguments>(arguments)...);
    }

    template<typename F, typename... Arguments>
        requires(!traits::LaunchPolicy<F>)
    auto dataflow(F&& f, Arguments&&... arguments)
    {
        return dataflow(launch::async, std::forward<F>(f), std::forward<Arguments>(arguments)...);
    }

    template<typename F>
    auto annotated_function(F&& f, char const* = nullptr) -> std::decay_t<F>
    {
        return std::forward<F>(f);
    }

    template<typename F>
    auto annotated_function(F&& f, std::string const&) -> std::decay_t<F>
    {
        return std::forward<F>(f);
    }

    template<typename F, typename... Bound>
    auto bind_front(F&& f, Bound&&... bound)
    {
        return std::bind_front(std::forward<F>(f), std::forward<Bound>(bound)...);
    }

    inline auto get_colocation_id(id_type const& id) -> future<id_type>
    {
        return async(launch::async, [id] { return get_colocation_id(launch::sync, id); });
    }

    // ---- new_
    struct Colocated
    {
            id_type id;
    };

    inline auto colocated(id_type const& id) -> Colocated { return {id_type{id.vhpx_locality()}}; }

    template<typename C>
    auto colocated(C const& client) -> Colocated
        requires traits::Client<C>
    {
        return {id_type{client.get_id().vhpx_locality()}};
    }

    namespace detail {

        template<typename Server, typename... Arguments>
        auto new_server(id_type const& where, Arguments&&... arguments) -> future<id_type>
        {
            if (!where || !where.vhpx_is_locality()) throw std::invalid_argument{"new_: not the id of a locality"};
            int const target = where.vhpx_locality();
            if (target < 0 || target >= vhpx::scheduler().settings.nr_localities) throw std::invalid_argument{"new_: no such locality"};
            using Values = std::tuple<std::decay_t<Arguments>...>;
            return vhpx::perform<id_type>(target, Values{std::forward<Arguments>(arguments)...}, [target](Values& values) -> id_type {
                auto const holder = std::make_shared<vhpx::Holder<Server>>();
                holder->locality = target;
                holder->server = std::apply([](auto&... v) { return std::make_unique<Server>(std::move(v)...); }, values);
                holder->server->vhpx_object = holder;
                return id_type{std::shared_ptr<vhpx::Object>{holder}};
            });
        }

    }  // namespace detail

    template<typename Component, typename... Arguments>
    auto new_(id_type const& where, Arguments&&... arguments)
    {
        if constexpr (traits::Client<Component>)
        {
            return Component{detail::new_server<typename Component::vhpx_server>(where, std::forward<Arguments>(arguments)...)};
        }
        else
        {
            return detail::new_server<Component>(where, std::forward<Arguments>(arguments)...);
        }
    }

    template<typename Component, typename... Arguments>
    auto new_(Colocated const& where, Arguments&&... arguments)
    {
        return new_<Component>(where.id, std::forward<Arguments>(arguments)...);
    }

    template<typename Component, typename... Arguments>
    auto local_new(Arguments&&... arguments)
    {
        return new_<Component>(find_here(), std::forward<Arguments>(arguments)...);
    }

    // ---- get_ptr
    template<typename Server>
    auto get_ptr(launch::sync_policy, id_type const& id) -> std::shared_ptr<Server>
    {
        auto const& object = id.vhpx_object();
        auto const holder = dynamic_cast<vhpx::Holder<Server>*>(object.get());
        if (holder == nullptr) throw std::invalid_argument{"get_ptr: no such component"};
        if (object->locality != vhpx::scheduler().locality())
        {
            vhpx::scheduler().report("get_ptr", "component is on another locality");
        }
        return std::shared_ptr<Server>{object, holder->server.get()};
    }

    template<typename Client>
        requires traits::Client<Client>
    auto get_ptr(launch::sync_policy, Client const& client) -> std::shared_ptr<typename Client::vhpx_server>
    {
        return get_ptr<typename Client::vhpx_server>(launch::sync, client.get_id());
    }


    // ---- synchronization
    class mutex
    {
        public:

            void lock() { _lock.lock(); }
            auto try_lock() -> bool { return _lock.try_lock(); }
            void unlock() { _lock.unlock(); }

        private:

            vhpx::Lock _lock;
    };

    using spinlock = mutex;

    // Readers exclude each other here: fewer schedules
    class shared_mutex
    {
        public:

            void lock() { _lock.lock(); }
            auto try_lock() -> bool { return _lock.try_lock(); }
            void unlock() { _lock.unlock(); }
            void lock_shared() { _lock.lock(); }
            auto try_lock_shared() -> bool { return _lock.try_lock(); }
            void unlock_shared() { _lock.unlock(); }

        private:

            vhpx::Lock _lock;
    };

    class sliding_semaphore
    {
        public:

            explicit sliding_semaphore(std::int64_t const max_difference, std::int64_t const lower_limit = 0): _max_difference{max_difference}, _lower_limit{lower_limit}
            {
                std::lock_guard lock{existing().first};
                existing().second.push_back(this);
            }

            ~sliding_semaphore()
            {
                std::lock_guard lock{existing().first};
                std::erase(existing().second, this);
            }

            sliding_semaphore(sliding_semaphore const&) = delete;
            auto operator=(sliding_semaphore const&) -> sliding_semaphore& = delete;

            void wait(std::int64_t const upper)
            {
                verify_exists();
                while (true)
                {
                    std::unique_lock lock{_mutex};
                    if (upper - _max_difference <= _lower_limit) return;
                    auto const state = std::make_shared<vhpx::State<void>>();
                    _waiters.push_back(state);
                    lock.unlock();
                    state->wait();
                }
            }

            auto try_wait(std::int64_t const upper = 1) -> bool
            {
                verify_exists();
                std::lock_guard lock{_mutex};
                return upper - _max_difference <= _lower_limit;
            }

            void signal(std::int64_t const lower)
            {
                verify_exists();
                std::vector<std::shared_ptr<vhpx::State<void>>> waiters;
                {
                    std::lock_guard lock{_mutex};
                    _lower_limit = std::max(_lower_limit, lower);
                    waiters.swap(_waiters);
                }
                for (auto& w : waiters) w->set_value();
            }

        private:

            // Those that can still be used
            static auto existing() -> std::pair<std::mutex, std::vector<sliding_semaphore*>>&
            {
                static std::pair<std::mutex, std::vector<sliding_semaphore*>> e;
                return e;
            }

            void verify_exists()
            {
                std::lock_guard lock{existing().first};
                if (std::ranges::find(existing().second, this) == existing().second.end())
                    vhpx::scheduler().report("semaphore", "sliding_semaphore is used after it was destroyed");
            }

            std::mutex _mutex;
            std::int64_t _max_difference, _lower_limit;
            std::vector<std::shared_ptr<vhpx::State<void>>> _waiters;
    };


    // ---- channels
    namespace lcos {

        namespace server {

            template<typename T>
            class channel: public components::component_base<channel<T>>
            {
                public:

                    void set(T const& value)
                    {
                        std::shared_ptr<vhpx::State<T>> request;
                        {
                            std::lock_guard lock{_mutex};
                            if (_closed) throw std::runtime_error{"channel is closed"};
                            if (_requests.empty())
                            {
                                _values.push_back(value);
                                return;
                            }
                            request = _requests.front();
                            _requests.pop_front();
                        }
                        request->set_value(value);
                    }

                    auto get() -> future<T>
                    {
                        auto const state = std::make_shared<vhpx::State<T>>();
                        {
                            std::lock_guard lock{_mutex};
                            if (_values.empty())
                            {
                                if (!_closed)
                                {
                                    _requests.push_back(state);
                                    return future<T>{state};
                                }
                            }
                            else
                            {
                                state->value.emplace(std::move(_values.front()));
                                _values.pop_front();
                            }
                        }
                        if (state->value) state->set_ready();
                        else state->set_exception(std::make_exception_ptr(std::runtime_error{"channel is closed"}));
                        return future<T>{state};
                    }

                    auto close() -> std::size_t
                    {
                        std::deque<std::shared_ptr<vhpx::State<T>>> requests;
                        {
                            std::lock_guard lock{_mutex};
                            if (_closed) throw std::runtime_error{"channel is closed already"};
                            _closed = true;
                            requests.swap(_requests);
                        }
                        for (auto& request : requests) request->set_exception(std::make_exception_ptr(std::runtime_error{"channel is closed"}));
                        return requests.size();
                    }

                private:

                    std::mutex _mutex;
                    bool _closed{false};
                    std::deque<T> _values;
                    std::deque<std::shared_ptr<vhpx::State<T>>> _requests;
            };

        }  // namespace server

        template<typename T>
        class channel: public components::client_base<channel<T>, server::channel<T>>
        {
            public:

                using Base = components::client_base<channel<T>, server::channel<T>>;
                using value_type = T;

                channel() = default;
                explicit channel(id_type const& where): Base{make(where)} {}
                explicit channel(future<id_type>&& f): Base{std::move(f)} {}
                explicit channel(shared_future<id_type> const& f): Base{f} {}
                explicit channel(future<channel>&& f): Base{std::move(f)} {}

                void set(T const& value) const { post(vhpx::Action<void (server::channel<T>::*)(T const&), &server::channel<T>::set>{}, value); }

                auto get() const -> future<T>
                {
                    // The future is there when the channel isn't yet
                    auto const state = std::make_shared<vhpx::State<T>>();
                    auto const from = this->vhpx_typed_state();
                    if (from == nullptr) throw no_state{};
                    int const here = vhpx::scheduler().locality();
                    from->on_ready(vhpx::Function{[state, from, here] {
                        if (from->exception) return state->set_exception(from->exception);
                        auto const object = from->value->vhpx_object();
                        auto inner = static_cast<vhpx::Holder<server::channel<T>>*>(object.get())->server->get();
                        auto const there = inner.vhpx_typed_state();
                        if (object->locality == here) detail::pass<false>(there, state);
                        else vhpx::send_result(there, state, here);
                    }});
                    return future<T>{state};
                }

                auto get(launch::async_policy) const -> future<T> { return get(); }
                auto get(launch::sync_policy) const -> T { return get().get(); }

                auto close(bool const = false) const -> std::size_t
                {
                    auto const object = this->get_id().vhpx_object();
                    return static_cast<vhpx::Holder<server::channel<T>>*>(object.get())->server->close();
                }

                class iterator
                {
                    public:

                        using iterator_category = std::input_iterator_tag;
                        using value_type = T;
                        using difference_type = std::ptrdiff_t;
                        using pointer = T const*;
                        using reference = T const&;

                        iterator() = default;
                        explicit iterator(channel const& c): _channel{c} { next(); }

                        auto operator*() const -> T const& { return *_value; }
                        auto operator->() const -> T const* { return &*_value; }

                        auto operator++() -> iterator&
                        {
                            next();
                            return *this;
                        }

                        friend auto operator==(iterator const& a, iterator const& b) -> bool { return a._value.has_value() == b._value.has_value(); }

                    private:

                        void next()
                        {
                            auto f = _channel.get();
                            f.wait();
                            if (f.has_exception()) _value.reset();
                            else _value.emplace(f.get());
                        }

                        channel _channel;
                        std::optional<T> _value;
                };

                auto begin() const -> iterator { return iterator{*this}; }
                auto end() const -> iterator { return iterator{}; }

            private:

                static auto make(id_type const& where) -> future<id_type> { return detail::new_server<server::channel<T>>(where); }

                template<typename A>
                void post(A, T const& value) const
                {
                    auto const from = this->vhpx_typed_state();
                    if (from == nullptr) throw no_state{};
                    int const here = vhpx::scheduler().locality();
                    // The channel is there before the value is sent: values sent, and the closing of the
                    // channel after them, happen in that order
                    from->wait();
                    if (from->exception) std::rethrow_exception(from->exception);
                    auto const object = from->value->vhpx_object();
                    auto& server = *static_cast<vhpx::Holder<server::channel<T>>*>(object.get())->server;
                    if (object->locality == here) server.set(value);
                    else
                    {
                        auto archive = vhpx::serialized(value);
                        server.set(vhpx::deserialized<T>(archive));
                    }
                }
        };

    }  // namespace lcos

    template<typename T> using distributed_channel = lcos::channel<T>;


    // ---- names
    namespace detail {

        struct Names
        {
                std::mutex mutex;
                std::map<std::string, id_type> ids;
                std::map<std::string, std::vector<std::shared_ptr<vhpx::State<id_type>>>> waiting;

                static auto instance() -> Names&
                {
                    static Names names;
                    return names;
                }
        };

        inline auto name_of(std::string const& base, std::size_t const idx) -> std::string { return base + "/" + std::to_string(idx); }

        inline auto register_name(std::string const& name, id_type const& id) -> bool
        {
            auto& names = Names::instance();
            std::vector<std::shared_ptr<vhpx::State<id_type>>> waiting;
            {
                std::lock_guard lock{names.mutex};
                if (!names.ids.emplace(name, id).second) return false;
                if (auto const it = names.waiting.find(name); it != names.waiting.end())
                {
                    waiting = std::move(it->second);
                    names.waiting.erase(it);
                }
            }
            for (auto& state : waiting) state->set_value(id);
            return true;
        }

    }  // namespace detail

    inline auto register_with_basename(std::string const& base, id_type const& id, std::size_t const idx) -> future<bool>
    {
        return async(launch::async, [name = detail::name_of(base, idx), id] { return detail::register_name(name, id); });
    }

    template<typename Client>
        requires traits::Client<Client>
    auto register_with_basename(std::string const& base, Client const& client, std::size_t const idx) -> future<bool>
    {
        return client.then([name = detail::name_of(base, idx)](Client const& c) { return detail::register_name(name, c.get_id()); });
    }

    inline auto unregister_with_basename(std::string const& base, std::size_t const idx) -> future<id_type>
    {
        return async(launch::async, [name = detail::name_of(base, idx)]() -> id_type {
            auto& names = detail::Names::instance();
            std::lock_guard lock{names.mutex};
            auto const it = names.ids.find(name);
            if (it == names.ids.end()) return id_type{};
            id_type const id{it->second};
            names.ids.erase(it);
            return id;
        });
    }

    template<typename Client>
    auto find_from_basename(std::string const& base, std::size_t const idx) -> Client
    {
        auto& names = detail::Names::instance();
        auto const state = std::make_shared<vhpx::State<id_type>>();
        id_type id;
        {
            std::lock_guard lock{names.mutex};
            auto const name = detail::name_of(base, idx);
            if (auto const it = names.ids.find(name); it != names.ids.end()) id = it->second;
            else names.waiting[name].push_back(state);
        }
        if (id) state->set_value(id);
        return Client{shared_future<id_type>{state}};
    }

    inline std::ostream& cout{std::cout};
    inline std::ostream& cerr{std::cerr};
    inline auto flush(std::ostream& s) -> std::ostream& { return s << std::flush; }

    namespace this_thread {
        template<typename D>
        void sleep_for(D const&)
        {
            vhpx::scheduler().maybe_yield();
        }
        inline void yield() { vhpx::scheduler().maybe_yield(); }
    }  // namespace this_thread

}  // namespace hpx

namespace vhpx {

    inline auto nr_registered_names() -> std::size_t { return hpx::detail::Names::instance().ids.size() + hpx::detail::Names::instance().waiting.size(); }

    inline void assertion_failed(char const* expression, char const* file, int line)
    {
        scheduler().report("assert", std::string{file} + ":" + std::to_string(line) + ": " + expression);
        std::abort();
    }

}  // namespace vhpx

#define HPX_ASSERT(...) ((__VA_ARGS__) ? (void)0 : vhpx::assertion_failed(#__VA_ARGS__, __FILE__, __LINE__))
#define HPX_UNUSED(x) ((void)(x))
#define HPX_PP_CAT_(a, b) a##b
#define HPX_PP_CAT(a, b) HPX_PP_CAT_(a, b)

#define VHPX_ACTION_3(Class, function, Name)                                                                                                         \
    struct Name: vhpx::Action<decltype(&Class::function), &Class::function>                                                                          \
    {                                                                                                                                                \
    };
#define VHPX_ACTION_2(Class, function) VHPX_ACTION_3(Class, function, function##_action)
#define VHPX_ACTION_SELECT(_1, _2, _3, NAME, ...) NAME
#define HPX_DEFINE_COMPONENT_ACTION(...) VHPX_ACTION_SELECT(__VA_ARGS__, VHPX_ACTION_3, VHPX_ACTION_2)(__VA_ARGS__)
#define HPX_DEFINE_COMPONENT_DIRECT_ACTION(...) HPX_DEFINE_COMPONENT_ACTION(__VA_ARGS__)
#define HPX_PLAIN_ACTION(f, Name)                                                                                                                    \
    struct Name: vhpx::Action<decltype(&f), &f>                                                                                                      \
    {                                                                                                                                                \
    };
#define HPX_REGISTER_ACTION(...)
#define HPX_REGISTER_ACTION_DECLARATION(...)
#define HPX_REGISTER_COMPONENT(...)
#define HPX_REGISTER_COMPONENT_MODULE(...)
#define HPX_REGISTER_CHANNEL(...)
#define HPX_REGISTER_CHANNEL_DECLARATION(...)
#define HPX_HAVE_NETWORKING 1
