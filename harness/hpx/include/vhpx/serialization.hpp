#pragma once
// What goes from one locality to another is really serialized
#include "vhpx/future.hpp"
#include <array>
#include <cstring>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vhpx {

    struct Object;

    struct Archive
    {
            std::vector<unsigned char> bytes;
            std::vector<std::shared_ptr<Object>> objects;
            std::size_t position{0}, object{0};
    };

}  // namespace vhpx

namespace hpx::serialization {

    class output_archive;
    class input_archive;

    template<typename T> void save(output_archive& archive, T const& t);
    template<typename T> void load(input_archive& archive, T& t);

    template<typename T>
    struct array
    {
            T* data;
            std::size_t size;
    };

    template<typename T>
    auto make_array(T* data, std::size_t const size) -> array<T>
    {
        return {data, size};
    }

    class output_archive
    {
        public:

            explicit output_archive(vhpx::Archive& archive): vhpx{archive} {}

            template<typename T>
            auto operator&(T const& t) -> output_archive&
            {
                save(*this, t);
                return *this;
            }

            template<typename T> auto operator<<(T const& t) -> output_archive& { return *this & t; }

            void write(void const* const bytes, std::size_t const n)
            {
                auto const b = static_cast<unsigned char const*>(bytes);
                if (n > 0) vhpx.bytes.insert(vhpx.bytes.end(), b, b + n);
            }

            vhpx::Archive& vhpx;
    };

    class input_archive
    {
        public:

            explicit input_archive(vhpx::Archive& archive): vhpx{archive} {}

            template<typename T>
            auto operator&(T& t) -> input_archive&
            {
                load(*this, t);
                return *this;
            }

            template<typename T>
            auto operator&(array<T> const& t) -> input_archive&
            {
                for (std::size_t i = 0; i < t.size; ++i) load(*this, t.data[i]);
                return *this;
            }

            template<typename T> auto operator>>(T& t) -> input_archive& { return *this & t; }

            void read(void* const bytes, std::size_t const n)
            {
                if (n > vhpx.bytes.size() - vhpx.position) vhpx::scheduler().report("serialization", "more is read than written");
                if (n > 0) std::memcpy(bytes, vhpx.bytes.data() + vhpx.position, n);
                vhpx.position += n;
            }

            vhpx::Archive& vhpx;
    };

    class access
    {
        public:

            template<typename A, typename T>
            static constexpr auto has_member() -> bool
            {
                return requires(A& a, T& t) { t.serialize(a, 0u); };
            }

            template<typename A, typename T>
            static void call(A& a, T& t)
            {
                t.serialize(a, 0u);
            }
    };

    namespace detail {

        template<typename T> struct is_std_array: std::false_type {};
        template<typename T, std::size_t n> struct is_std_array<std::array<T, n>>: std::true_type {};
        template<typename T> struct is_tuple: std::false_type {};
        template<typename... T> struct is_tuple<std::tuple<T...>>: std::true_type {};
        template<typename... T> struct is_tuple<std::pair<T...>>: std::true_type {};
        template<typename T> struct is_vector: std::false_type {};
        template<typename T> struct is_vector<std::vector<T>>: std::true_type {};
        template<typename T> struct derives_from_vector: std::false_type {};
        template<typename T> requires requires { typename T::value_type; typename T::allocator_type; }
        struct derives_from_vector<T>: std::bool_constant<std::is_class_v<T> && std::is_base_of_v<std::vector<typename T::value_type>, T>> {};
        template<> struct is_vector<std::string>: std::true_type {};
        template<typename T> struct is_optional: std::false_type {};
        template<typename T> struct is_optional<std::optional<T>>: std::true_type {};
        template<typename T> struct is_map: std::false_type {};
        template<typename... T> struct is_map<std::map<T...>>: std::true_type {};
        template<typename... T> struct is_map<std::unordered_map<T...>>: std::true_type {};
        template<typename T> struct is_set: std::false_type {};
        template<typename... T> struct is_set<std::set<T...>>: std::true_type {};
        template<typename... T> struct is_set<std::unordered_set<T...>>: std::true_type {};

        template<typename T> concept Special = requires { typename T::vhpx_special_tag; };

        template<typename A, typename T>
        constexpr auto has_free() -> bool
        {
            return requires(A& a, T& t) { serialize(a, t, 0u); };
        }

        template<typename T>
        constexpr auto has_value_of_future() -> bool
        {
            return traits::PlainFuture<T>;
        }

    }  // namespace detail

    template<typename T>
    void save(output_archive& a, T const& t)
    {
        using detail::is_map;
        if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) a.write(&t, sizeof(T));
        else if constexpr (detail::Special<T>) t.vhpx_save(a);
        else if constexpr (detail::has_value_of_future<T>())
        {
            using V = typename traits::future_value<T>::type;
            auto const& state = t.vhpx_typed_state();
            a & bool(state != nullptr);
            if (state != nullptr)
            {
                state->wait();
                a & bool(state->exception);
                if constexpr (!std::is_void_v<V>)
                {
                    if (!state->exception) a & *state->value;
                }
                if (state->exception) a.vhpx.objects.push_back(nullptr);
            }
        }
        else if constexpr (access::has_member<output_archive, T>()) access::call(a, const_cast<T&>(t));
        else if constexpr (detail::has_free<output_archive, T const>()) serialize(a, t, 0u);
        else if constexpr (std::is_empty_v<T>) {}
        else if constexpr (detail::is_std_array<T>::value)
        {
            for (auto const& e : t) save(a, e);
        }
        else if constexpr (detail::is_vector<T>::value || detail::derives_from_vector<T>::value)
        {
            save(a, t.size());
            for (std::size_t i = 0; i < t.size(); ++i) save(a, static_cast<typename T::value_type const&>(t[i]));
        }
        else if constexpr (detail::is_tuple<T>::value)
        {
            std::apply([&](auto const&... e) { (save(a, e), ...); }, t);
        }
        else if constexpr (detail::is_optional<T>::value)
        {
            save(a, t.has_value());
            if (t) save(a, *t);
        }
        else if constexpr (is_map<T>::value)
        {
            save(a, t.size());
            for (auto const& [k, v] : t) save(a, k), save(a, v);
        }
        else if constexpr (detail::is_set<T>::value)
        {
            save(a, t.size());
            for (auto const& k : t) save(a, k);
        }
        else if constexpr (std::is_base_of_v<std::array<typename T::value_type, std::tuple_size_v<T>>, T>)
        {
            for (auto const& e : t) save(a, e);
        }
        else static_assert(std::is_empty_v<T>, "cannot be serialized");
    }

    template<typename T>
    void save(output_archive& a, array<T> const& t)
    {
        for (std::size_t i = 0; i < t.size; ++i) save(a, static_cast<std::remove_const_t<T> const&>(t.data[i]));
    }

    template<typename T>
    void load(input_archive& a, T& t)
    {
        if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) a.read(&t, sizeof(T));
        else if constexpr (detail::Special<T>) t.vhpx_load(a);
        else if constexpr (detail::has_value_of_future<T>())
        {
            using V = typename traits::future_value<T>::type;
            bool valid{false}, exception{false};
            a & valid;
            if (!valid) { t = T{}; return; }
            a & exception;
            auto state = std::make_shared<vhpx::State<V>>();
            if (exception)
            {
                ++a.vhpx.object;
                state->set_exception(std::make_exception_ptr(std::runtime_error{"exception from elsewhere"}));
            }
            else if constexpr (std::is_void_v<V>) state->set_value();
            else
            {
                V v{};
                a & v;
                state->set_value(std::move(v));
            }
            t = T{state};
        }
        else if constexpr (access::has_member<input_archive, T>()) access::call(a, t);
        else if constexpr (detail::has_free<input_archive, T>()) serialize(a, t, 0u);
        else if constexpr (std::is_empty_v<T>) {}
        else if constexpr (detail::is_std_array<T>::value)
        {
            for (auto& e : t) load(a, e);
        }
        else if constexpr (detail::is_vector<T>::value || detail::derives_from_vector<T>::value)
        {
            std::size_t size{0};
            load(a, size);
            t.clear();
            t.resize(size);
            for (std::size_t i = 0; i < size; ++i)
            {
                typename T::value_type v{};
                load(a, v);
                t[i] = std::move(v);
            }
        }
        else if constexpr (detail::is_tuple<T>::value)
        {
            std::apply([&](auto&... e) { (load(a, e), ...); }, t);
        }
        else if constexpr (detail::is_optional<T>::value)
        {
            bool has{false};
            load(a, has);
            t.reset();
            if (has)
            {
                t.emplace();
                load(a, *t);
            }
        }
        else if constexpr (detail::is_map<T>::value)
        {
            std::size_t size{0};
            load(a, size);
            t.clear();
            for (std::size_t i = 0; i < size; ++i)
            {
                typename T::key_type k{};
                typename T::mapped_type v{};
                load(a, k);
                load(a, v);
                t.emplace(std::move(k), std::move(v));
            }
        }
        else if constexpr (detail::is_set<T>::value)
        {
            std::size_t size{0};
            load(a, size);
            t.clear();
            for (std::size_t i = 0; i < size; ++i)
            {
                typename T::key_type k{};
                load(a, k);
                t.insert(std::move(k));
            }
        }
        else if constexpr (std::is_base_of_v<std::array<typename T::value_type, std::tuple_size_v<T>>, T>)
        {
            for (auto& e : t) load(a, e);
        }
        else static_assert(std::is_empty_v<T>, "cannot be serialized");
    }

    template<typename Base, typename Derived>
    auto base_object(Derived& d) -> Base&
    {
        return d;
    }

}  // namespace hpx::serialization

#define HPX_SERIALIZATION_SPLIT_MEMBER()                                                                                                             \
    void serialize(hpx::serialization::input_archive& archive, unsigned int const version) { load(archive, version); }                                \
    void serialize(hpx::serialization::output_archive& archive, unsigned int const version) { static_cast<std::remove_reference_t<decltype(*this)> const&>(*this).save(archive, version); }
