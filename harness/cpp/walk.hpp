// Visits everything that can be reached from a dataset through the public interface.
#pragma once
#include "dsgen.hpp"

namespace walk {

    using namespace dm;

    // Read whatever can be reached. Exceptions are fine, anything else is not
    template<typename F>
    void attempt(vh::Case& c, F&& f)
    {
        try
        {
            f();
            c.count("walk.succeeded");
        }
        catch (vh::Violation const&)
        {
            throw;
        }
        catch (std::exception const&)
        {
            c.count("walk.thrown");
        }
    }

    template<typename V>
    void read_array(V& value)
    {
        Bytes data(64 + value.nr_arrays() * product(value.array_shape()) * lh5::size_of_shape(lh5::Shape{1}) * value.memory_datatype().size());
        value.read(data.data());
    }

    // Optionally including the values of properties
    inline void walk(vh::Case& c, ldm::Dataset& dataset, bool const values = false)
    {
        auto walk_set = [&](ldm::PropertySet& set) {
            attempt(c, [&] { set.object_tracker().active_set_index().nr_indices(); set.object_tracker().active_object_id().nr_ids(); set.object_tracker().active_object_index().nr_indices(); });
            attempt(c, [&] {
                if (set.has_time_domain())
                {
                    auto const type = set.time_domain().configuration().value<ldm::TimeDomainItemType>();
                    set.time_domain().clock();
                    dsgen::Builder::with_time(set.time_domain(), type, [&](auto& value) { value.nr_arrays(); });
                }
            });
            attempt(c, [&] {
                if (set.has_space_domain())
                {
                    dsgen::Set s;
                    s.mobility = set.space_domain().configuration().value<ldm::Mobility>();
                    s.space_type = set.space_domain().configuration().value<ldm::SpaceDomainItemType>();
                    dsgen::Builder::with_space(set.space_domain(), s, [&](auto& value) { read_array(value); });
                    if (set.space_domain().presence_is_discretized()) set.space_domain().discretized_presence_property().name();
                }
            });
            auto& all = set.properties();
            auto each = [&](auto const& collection) {
                for (auto const& name : collection.names())
                {
                    attempt(c, [&] {
                        auto& property = const_cast<std::remove_cvref_t<decltype(collection)>&>(collection)[name];
                        if (property.space_is_discretized()) property.space_discretization_property().name();
                        if (property.time_is_discretized()) property.time_discretization_property().name();
                    });
                    if (values)
                    {
                        attempt(c, [&] {
                            auto& value = const_cast<std::remove_cvref_t<decltype(collection)>&>(collection)[name].value();
                            using V = std::remove_cvref_t<decltype(value)>;
                            if constexpr (std::is_same_v<V, ldm::same_shape::Value> || std::is_same_v<V, ldm::same_shape::constant_shape::Value>) read_array(value);
                            else if constexpr (std::is_same_v<V, ldm::different_shape::Value>) value.nr_objects();
                            else if constexpr (std::is_same_v<V, ldm::different_shape::constant_shape::Value>) value.nr_objects();
                            else if constexpr (std::is_same_v<V, ldm::same_shape::variable_shape::Value>)
                            {
                                for (ldm::Index i = 0; i < value.nr_locations_in_time(); ++i) { auto v = value[i]; read_array(v); }
                            }
                            else
                            {
                                for (ldm::Index i = 0; i < value.nr_locations_in_time(); ++i) value[i].nr_objects();
                            }
                        });
                    }
                    attempt(c, [&] { all.shape_per_object(name); all.value_variability(name); all.shape_variability(name); });
                }
            };
            each(all.collection<ldm::same_shape::Properties>());
            each(all.collection<ldm::same_shape::constant_shape::Properties>());
            each(all.collection<ldm::same_shape::variable_shape::Properties>());
            each(all.collection<ldm::different_shape::Properties>());
            each(all.collection<ldm::different_shape::constant_shape::Properties>());
            each(all.collection<ldm::different_shape::variable_shape::Properties>());
        };
        auto walk_phenomena = [&](ldm::Phenomena& phenomena) {
            for (auto const& name : phenomena.names())
            {
                attempt(c, [&] {
                    auto& phenomenon = phenomena[name];
                    attempt(c, [&] { phenomenon.object_id().nr_objects(); phenomenon.description(); });
                    for (auto const& set : phenomenon.property_sets().names()) attempt(c, [&] { walk_set(phenomenon.property_sets()[set]); });
                    for (auto const& set : phenomenon.collection_property_sets().names()) attempt(c, [&] { walk_set(phenomenon.collection_property_sets()[set]); });
                });
            }
        };
        attempt(c, [&] { walk_phenomena(dataset.phenomena()); });
        attempt(c, [&] { for (auto const& name : dataset.universes().names()) attempt(c, [&] { walk_phenomena(dataset.universes()[name].phenomena()); }); });
    }

}  // namespace walk
